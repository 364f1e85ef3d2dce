"""C19: option lists survive conversion to type strings and canonical form"""
import copy
import itertools
import re
import struct

import jadn
from jadn.utils import canonicalize, cleanup_tagid, fielddef2jadn, ftopts_s2d, jadn2fielddef, jadn2typestr, opts_d2s, topts_s2d, typestr2jadn

from ..common import G, M, call, canon, codec, diff, jcopy, names, same, schema, values
from ..model import CORE, FIELDED, opts
from ..text import decorate, items, line
from .c10 import bad_item
from .c14 import norm
from .c15 import refs

CASES = {'quick': 10000, 'thorough': 300000}
RULE = 'one evaluation = one type or field definition written as a type string and parsed, or one canonical form compared with the schema and its variants; distinct = distinct (type, options) / schemas'
NEED = {'typestr': 150000, 'typestr_exhaustive': 5000, 'typestr_values': 60000, 'field': 150000, 'field_tagid': 5000, 'opts_dict': 60000, 'canonical': 5000, 'idempotent': 5000, 'variant_same': 15000, 'variant_other': 12000, 'value': 10000, 'whole': 2000}
ASSUME = ['patterns do not contain "} or line breaks', 'a number written with and without a decimal point is not distinguished', 'names of fields and items follow the default name rules']

SIZE = ([], ['{0'], ['{1'], ['{5'], ['}1'], ['}7'], ['{2', '}2'], ['{0', '}300'], ['{1', '}5'], ['}0'], ['{3', '}1000000'])
INTS = ([], ['{0'], ['{-1'], ['{7'], ['}0'], ['}-3'], ['{0', '}0'], ['{-128', '}127'], ['{-9223372036854775808', '}18446744073709551616'], ['{0', '}255'], ['{10'])
NUMS = ([], ['y0.0'], ['y-1.5'], ['z0.0'], ['z1e+300'], ['y-273.15', 'z1e-07'], ['y2', 'z3'], ['y-0.5', 'z0.5'], ['y1.0', 'z1.0'])
PATTERNS = ['^a$', '.*', '^[A-Z]{2,3}$', 'a"b', '"', '{}', '^\\d+(\\.\\d+)?$', '[^}]+', '{2..3}', ' unique', 'x /date set', '(?i)a|b', '..', '\\\\', "'", '//', ',', '=', 'é+', '}', '{', '" extend', '[Enum]', '(Pointer[X])', '%', '{x} ?', '^ .ID$']
FMT = {'Binary': ['eui', 'uuid', 'ipv4-addr', 'ipv6-addr', 'b', 'x', 'X'], 'Integer': ['i8', 'i16', 'i32', 'i64', 'datetime-ms'], 'Number': ['f16', 'f32', 'f64'], 'Array': ['tag-uuid', 'ipv4-net', 'ipv6-net'],
       'String': ['date-time', 'date', 'time', 'duration', 'idn-email', 'idn-hostname', 'ipv4', 'ipv6', 'uri', 'uri-reference', 'iri', 'iri-reference', 'uri-template', 'json-pointer', 'relative-json-pointer', 'regex', 'email', 'hostname']}
REFS = ['Abc', 'X', 'A-b9', 'ns:Abc', 'A$b', 'String', 'Integer', 'Binary', 'Unique', 'Set', 'Enum', 'TagId', 'Pointer', 'Key', 'Link']
DREFS = REFS[:5] + ['Enum', 'Pointer']


def flags(*fs):
    return [[x for x, k in zip(fs, bits) if k] for bits in itertools.product((0, 1), repeat=len(fs))]


def combos(base):
    """Every combination of options of a base type, over representative values"""
    fmts = [[]] + [['/' + f] for f in FMT.get(base, [])]
    if base == 'Binary':
        g = [fmts, SIZE]
    elif base == 'Boolean':
        g = [[[]]]
    elif base == 'Integer':
        g = [fmts, INTS]
    elif base == 'Number':
        g = [fmts, NUMS]
    elif base == 'String':
        return [a + b for a in fmts for b in [*SIZE, *(['%' + p] for p in PATTERNS)]]
    elif base == 'Enumerated':
        g = [[[], ['=']], [[], *(['#' + x] for x in DREFS), *(['>' + x] for x in DREFS)], [[], ['X']]]
    elif base == 'Choice':
        g = [[[], ['=']], [[], ['CO'], ['CA'], ['CX']], [[], ['X']]]
    elif base == 'Array':
        g = [fmts, SIZE, [[], ['X']]]
    elif base == 'ArrayOf':
        g = [[['*' + x] for x in REFS + ['#' + x for x in DREFS] + ['>' + x for x in DREFS]], SIZE, flags('q', 's', 'b')]
    elif base == 'Map':
        g = [[[], ['=']], SIZE, flags('X', 'o')]
    elif base == 'MapOf':
        r = REFS + ['#' + x for x in DREFS] + ['>' + x for x in DREFS]
        g = [[['+' + x, '*' + y] for x in r for y in r], SIZE, flags('o')]
    else:
        g = [SIZE, flags('X', 'o')]
    return [sum(c, []) for c in itertools.product(*g)]


def typestr(ctx, base, olist, kind):
    ctx.event('typestr', (base, sorted(olist)))
    ctx.event(kind)
    give = list(olist)
    try:
        s = jadn2typestr(base, give)
        b, o, fo = typestr2jadn(s)
    except Exception as e:
        ctx.fail('type string of valid options cannot be written and parsed', base=base, options=olist, error=f'{type(e).__name__}: {str(e)[:300]}')
        return
    if give != olist:
        ctx.fail('writing a type string modified the options', before=olist, after=give)
    if b != base or fo or norm(base, o) != norm(base, olist):
        ctx.fail('type string parses to another type', base=base, options=olist, text=s, parsed=(b, o, fo))


def dicts(ctx, olist, field):
    """Option list to dictionary and back"""
    ctx.event('opts_dict')
    if field:
        fo, to = ftopts_s2d(olist)
        back = opts_d2s({**to, **fo})
        ok = set(fo) <= set(M.FIELD_OPTS) and not set(to) & set(M.FIELD_OPTS)
    else:
        to = topts_s2d(olist)
        back = opts_d2s(to)
        ok = True
    if not ok or opts(back) != opts(olist) or len(back) != len(olist):
        ctx.fail('options change when converted to a dictionary and back', options=olist, result=back)


def fields(ctx, t):
    f0 = copy.deepcopy(t)
    try:
        text = [jadn2fielddef(f, t) for f in t[4]]
        got = cleanup_tagid([fielddef2jadn(f[0], *x) for f, x in zip(t[4], text)])
    except Exception as e:
        ctx.fail('field definitions cannot be written and parsed', type=t, error=f'{type(e).__name__}: {str(e)[:300]}')
        return
    if not same(f0, t):
        ctx.fail('writing field definitions modified the type', before=f0, after=t)
    for f, g, x in zip(t[4], got, text):
        ctx.event('field', (t[1], f))
        if t[1] == 'Enumerated':
            # the value is the label in the description or the name column
            ok = list(g) == list(f) if '=' in t[2] else x[0] == f[1] and x[3] == f[2]
        else:
            ctx.event('field_tagid', n=any(o[0] == '&' for o in f[3]))
            ok = g[:3] == f[:3] and norm(f[2], g[3]) == norm(f[2], f[3]) and g[4] == f[4]
        if not ok:
            ctx.fail('field definition parses to another field', type=t[:3], field=f, text=x, parsed=g)


def rand_type(r):
    base = r.choice(CORE)
    c = COMBOS[base]
    return rand_values(r) if r.random() < .1 else (base, list(r.choice(c)))


def rand_number(r):
    """Text of a number of any magnitude"""
    k = r.randrange(5)
    if k == 0:
        return repr(struct.unpack('<d', struct.pack('<Q', r.getrandbits(64) & 0xffefffffffffffff))[0])
    x = r.choice([1, 1, 2.5, 9.99, r.uniform(1, 10), 1 + 2 ** -52]) * r.choice([1, -1])
    if k == 1:
        return repr(x * 10.0 ** r.randint(-20, 25))
    if k == 2:
        return repr(x * 10.0 ** r.choice([-7, -5, -4, 15, 16, 17, 21, 22]))
    if k == 3:
        return f'{r.randint(-10 ** r.randint(1, 20), 10 ** r.randint(1, 20))}'
    return f'{x:.{r.randint(1, 20)}f}'


def rand_values(r):
    """A type whose options have unusual values"""
    k = r.randrange(3)
    if k == 0:
        a, b = sorted((rand_number(r), rand_number(r)), key=float)
        return 'Number', r.choice([[], ['/f64']]) + r.choice([['y' + a], ['z' + b], ['y' + a, 'z' + b]])
    a, b = sorted(r.randint(*x) for x in [r.choice([(-300, 300), (0, 12), (-10 ** r.randint(1, 30), 10 ** r.randint(1, 30))])] * 2)
    if k == 1:
        return 'Integer', r.choice([['{%d' % a], ['}%d' % b], ['{%d' % a, '}%d' % b]])
    a, b = sorted((abs(a), abs(b)))
    base, pre = r.choice([('Binary', ['/x']), ('String', ['/uri']), ('String', []), ('Array', []), ('Record', ['X']), ('Map', ['o']), ('ArrayOf', ['*Abc', 'q']), ('MapOf', ['+Abc', '*X'])])
    return base, pre + r.choice([['{%d' % a], ['}%d' % b], ['{%d' % a, '}%d' % b]])


def rand_fields(r, n):
    """A type with fields of every kind of option combination"""
    base = r.choice(['Record', 'Array', 'Map', 'Map', 'Choice', 'Choice'])
    to = [[], ['=']][base in ('Map', 'Choice') and r.random() < .4]
    if base == 'Choice' and r.random() < .3:
        to = to + [r.choice(['CO', 'CA', 'CX'])]
    ids = list(range(1, n + 1)) if base in ('Record', 'Array') else r.sample(range(0, 70000), n)
    nm = r.sample(G.FNAMES, n)
    out = []
    for i, (fid, name) in enumerate(zip(ids, nm)):
        mult = [] if base == 'Choice' else r.choice([[], [], ['[0'], [']0'], ['[0', ']0'], ['[0', ']3'], ['[2', ']5'], ['[3', ']3'], [']7'], ['[1', ']1']])
        if r.random() < .5:
            ft, o = rand_type(r)
            while ft in FIELDED:
                ft, o = rand_type(r)
        else:
            ft = r.choice([x for x in REFS if x not in CORE])
            o = ['q'] if mult and mult[-1][0] == ']' and mult[-1] != ']1' and r.random() < .3 else []
        k = r.random()
        if k < .1 and i and base != 'Choice':
            ft, o, mult = 'Abc', [f'&{r.choice(ids)}'], [x for x in mult if x == '[0']
        elif k < .2:
            o = o + [r.choice('KL')]
        elif k < .3 and ft not in CORE:
            o = o + ['<']
        o = o + mult
        r.shuffle(o)
        out.append([fid, name, ft, o, line(r)])
    return ['T', base, to, '', out]


COMBOS = {b: combos(b) for b in CORE}


def once(ctx):
    r = ctx.rng
    n = 0
    for b in CORE:
        for o in COMBOS[b]:
            n += 1
            if b == 'MapOf' and n % 4:
                continue
            o = list(o)
            r.shuffle(o)
            typestr(ctx, b, o, 'typestr_exhaustive')
            if len(o) > 1 and (b not in ('MapOf', 'String') or r.random() < .15):
                orders(ctx, b, o)


def orders(ctx, base, o, n=3):
    """Canonical form of one option list, on a type and on a field, in several orders"""
    r = ctx.rng
    fo = r.choice([[], ['[0'], [']5'], ['[0', ']0'], ['[2', ']3']]) + r.choice([[], [], ['K'], ['L'], ['<'], ['&1']]) + r.choice([[], ['q']] if not any(x[0] == 'q' for x in o) else [[]])
    seen = set()
    for k in range(n):
        a, b = list(o), list(o) + fo
        if k:
            r.shuffle(a)
            r.shuffle(b)
        sc = {'types': [['T', base, a, '', []], ['U', 'Map', [], '', [[1, 'x', base, b, '']]]]}
        can = canonicalize(sc)
        ctx.event('order', (base, tuple(sorted(o)), tuple(fo)) if not k else None)
        seen.add(repr(can['types']))
        if d := diff(canon(can), canon(sc)):
            ctx.fail('canonical form is another schema', difference=d, canonical=can, schema=sc)
    if len(seen) > 1:
        ctx.fail('option lists that differ only in order have different canonical forms', base=base, options=o, field=fo, forms=list(seen)[:2])


def shuffled(r, sc):
    """The same schema with options in another order and explicit defaults"""
    sc = copy.deepcopy(sc)

    def ch(olist, base, field):
        o = opts(olist)
        if 'minv' not in o and 'pattern' not in o and base in ('String', 'Binary', 'ArrayOf', 'MapOf', 'Map', 'Record', 'Array') and r.random() < .3:
            olist.append('{0')
        if field:
            if 'minc' not in o and r.random() < .3:
                olist.append('[1')
            if 'maxc' not in o and r.random() < .3:
                olist.append(']1')
        for d, k in (('{0', base != 'Integer'), ('[1', field), (']1', field)):
            if k and d in olist and r.random() < .2:
                olist.remove(d)
        for k, x in enumerate(olist):   # limits written with and without fraction
            if base == 'Number' and x[0] in 'yz' and r.random() < .4:
                olist[k] = x[:-2] if re.fullmatch(r'.-?[0-9]+[.]0', x) else x + '.0' if re.fullmatch(r'.-?[0-9]+', x) else x
        r.shuffle(olist)
    for t in sc['types']:
        ch(t[2], t[1], False)
        if t[1] in FIELDED:
            for f in t[4]:
                ch(f[3], f[2], True)
    return sc


def edited(r, sc):
    """A schema that differs in one place"""
    sc = copy.deepcopy(sc)
    t = r.choice(sc['types'])
    fs = t[4]
    f = r.choice(fs) if fs else None
    ol = r.choice([t[2]] + ([f[3]] if f and t[1] != 'Enumerated' else []))
    k = r.randrange(12)
    if k == 0 and ol:
        ol.pop(r.randrange(len(ol)))
    elif k == 1 and ol:
        i = r.randrange(len(ol))
        o = ol[i]
        ol[i] = o[0] + (str(int(o[1:]) + 1) if o[0] in '{}[]&' else str(float(o[1:]) + .5) if o[0] in 'yz' else o[1:] + 'x' if o[1:] else '')
    elif k == 2:
        x = r.choice(['{1', '}9', '{2', 'q', 's', 'b', 'o', 'X', '/email', '='])
        if x[0] not in [o[0] for o in ol]:
            ol.append(x)
    elif k == 3 and ol is not t[2]:
        x = r.choice(['[0', ']2', 'K', 'L', '[3', '<', ']0'])
        if x[0] not in [o[0] for o in ol]:
            ol.append(x)
    elif k == 4:
        t[3] += '.'
    elif k == 5 and f:
        f[-1] += '.'
    elif k == 6:
        t[0] += 'x'
    elif k == 7 and f:
        f[1] += 'x'
    elif k == 8 and f:
        f[0] += 1000
    elif k == 9 and len(fs) > 1:
        i, j = r.sample(range(len(fs)), 2)
        fs[i], fs[j] = fs[j], fs[i]
    elif k == 10 and len(sc['types']) > 1:
        i, j = r.sample(range(len(sc['types'])), 2)
        sc['types'][i], sc['types'][j] = sc['types'][j], sc['types'][i]
    elif k == 11:
        sc['info'] = {**sc.get('info', {'package': 'urn:a'}), 'version': '9.9.9'}
    return sc


def case(ctx, i):
    r = ctx.rng
    for _ in range(20):
        b, o = rand_type(r)
        r.shuffle(o)
        typestr(ctx, b, o, 'typestr_random')
        orders(ctx, b, o)
    for _ in range(12):
        b, o = rand_values(r)
        r.shuffle(o)
        typestr(ctx, b, o, 'typestr_values')
        orders(ctx, b, o)
    for _ in range(5):
        fields(ctx, rand_fields(r, r.randint(1, 9)))
    sc = items(r, decorate(r, jcopy(schema(ctx))), bad_item)
    for t in sc['types']:
        typestr(ctx, t[1], t[2], 'typestr_schema')
        dicts(ctx, t[2], False)
        if t[4]:
            fields(ctx, t)
        if t[1] in FIELDED:
            for f in t[4]:
                dicts(ctx, f[3], True)
    if i % 2:
        for t in sc['types']:
            for base, ol in [(t[1], t[2])] + [(f[2], f[3]) for f in t[4] if t[1] in FIELDED]:
                if base == 'Number' and r.random() < .7:
                    ol[:] = [x for x in ol if x[0] not in 'yz'] + [f"{r.choice('yz')}{r.randint(-10 ** r.randint(0, 22), 10 ** r.randint(0, 22))}{r.choice(['', '.0'])}"]
                    ctx.event('whole')
    keep = copy.deepcopy(sc)
    can = canonicalize(sc)
    ctx.event('canonical', repr(sc['types'])[:4000])
    if not same(keep, sc):
        ctx.fail('canonicalizing modified the schema', before=keep, after=sc)
    if d := diff(canon(can), canon(sc)):
        ctx.fail('canonical form is another schema', difference=d, canonical=can, schema=sc)
    c2 = canonicalize(copy.deepcopy(can))
    ctx.event('idempotent')
    if not same(c2, can) or repr(c2) != repr(can):
        ctx.fail('canonicalizing a canonical form changes it', first=can, second=c2)
    for _ in range(4):
        v = shuffled(r, sc)
        ctx.event('variant_same')
        if canonicalize(v) != can or repr(canonicalize(v)['types']) != repr(can['types']):
            ctx.fail('schemas that differ in option order or explicit defaults have different canonical forms', difference=diff(canonicalize(v), can), variant=v, schema=sc)
    for _ in range(5):
        v = edited(r, sc)
        if same(canon(v), canon(sc)):
            continue
        ctx.event('variant_other')
        if canonicalize(v) == can:
            ctx.fail('different schemas have the same canonical form', difference=diff(canon(v), canon(sc)), variant=v, schema=sc)
    if i % 2 == 0 and not any(':' in x for t in sc['types'] for x in refs(t)):
        m, mode = M.Model(sc), r.choice(M.MODES)
        c1, c2 = codec(sc, mode), codec(can, mode)
        for t in r.sample(names(sc), min(3, len(sc['types']))):
            for v in values(ctx, m, t, 1):
                for x in (v, G.mutate(r, v)):
                    a, b = call(c1.encode, t, x), call(c2.encode, t, x)
                    ctx.event('value')
                    if a[0] != b[0] or (a[0] == 'ok' and not same(a[1], b[1])):
                        ctx.fail('value encodes differently with the canonical form', type=t, value=x, before=a, after=b, schema=sc)
    ctx.sample(canonical=can['types'][:2])


assert jadn
