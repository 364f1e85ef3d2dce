"""C20: package configuration sets limits and name rules"""
import base64
import copy
import re

import jadn

from ..common import M, MODES, call, codec, jcopy

CASES = {'quick': 2500, 'thorough': 40000}
RULE = 'one evaluation = one encode or decode of a value at a limit, or one schema check under a name rule, judged by arithmetic on the configured limit / by the configured pattern; distinct = distinct (place, limit, size, direction) and (place, pattern, name)'
NEED = {'within': 100000, 'beyond': 50000, 'explicit_within': 20000, 'explicit_beyond': 10000, 'decode': 60000, 'names_accepted': 3000, 'names_refused': 3000, 'pattern_type': 5000,
        'override': 10000, 'other_package': 10000}
ASSUME = ['limits that are too small for the definitions of the schema itself are not given to the checker', 'name patterns are anchored at both ends and have no alternation outside of brackets']

KEY = {'s': '$MaxString', 'b': '$MaxBinary', 'e': '$MaxElements'}
N = 12      # optional fields of the wide structures


def text(k):
    return ('aé日' * (k // 3 + 1))[:k]


def seq(k):
    return list(range(k))


def keys(k):
    return [chr(0x4e00 + i) for i in range(k)]


def ser_bin(b, f='b'):
    return base64.urlsafe_b64encode(b).decode().rstrip('=') if f == 'b' else b.hex() if f == 'x' else b.hex().upper()


def wide(base, opt=()):
    return lambda o: ['T', base, [*opt, *o], '', [[i, f'f{i}', 'Boolean', ['[0'], ''] for i in range(1, N + 1)]]


def first(k):
    return {f'f{i}': True for i in range(1, k + 1)}


def fld(base, ft, fo, to=()):
    """A type with one field of interest; o are the size options of the field"""
    return lambda o: ['T', base, list(to), '', [[1, 'x', ft, [*fo, *o], '']]]


def wrap(base, v, mode):
    """Serialized form of a structure with only the field x"""
    if base == 'Array':
        return [v]
    if base == 'Record' and not mode[0]:
        return [v]
    return {('x' if mode[1] else '1'): v}


# name -> (limit, definition given size options, API value of size k, serialized form of (value, mode), sized by options)
# definition: a list of type definitions, the first is the type under test
PLACES = {}


def place(name, lim, tdef, api, ser, opts=True, extra=(), most=None):
    PLACES[name] = (lim, tdef, api, ser, opts, list(extra), most)


def same_ser(v, mode):
    return v


place('String', 's', lambda o: ['T', 'String', o, '', []], text, same_ser)
place('Binary', 'b', lambda o: ['T', 'Binary', o, '', []], lambda k: b'\xfe' * k, lambda v, m: ser_bin(v))
place('Binary/x', 'b', lambda o: ['T', 'Binary', ['/x', *o], '', []], lambda k: b'\xfe' * k, lambda v, m: v.hex().upper())
place('Binary/X', 'b', lambda o: ['T', 'Binary', ['/X', *o], '', []], lambda k: b'\xfe' * k, lambda v, m: v.hex().upper())
place('pattern', 's', lambda o: ['T', 'String', ['%^a*$'], '', []], lambda k: 'a' * k, same_ser, opts=False)
place('format', 's', lambda o: ['T', 'String', ['/regex', *o], '', []], lambda k: 'a' * k, same_ser)
place('ArrayOf', 'e', lambda o: ['T', 'ArrayOf', ['*Integer', *o], '', []], seq, same_ser)
place('ArrayOf unique', 'e', lambda o: ['T', 'ArrayOf', ['*Integer', 'q', *o], '', []], seq, same_ser)
place('ArrayOf set', 'e', lambda o: ['T', 'ArrayOf', ['*Integer', 's', *o], '', []], seq, same_ser)
place('ArrayOf of String', 's', lambda o: ['T', 'ArrayOf', ['*String'], '', []], lambda k: [text(k)], same_ser, opts=False)
place('ArrayOf of Binary', 'b', lambda o: ['T', 'ArrayOf', ['*Binary'], '', []], lambda k: [bytes(k)], lambda v, m: [ser_bin(x) for x in v], opts=False)
place('ArrayOf of named', 's', lambda o: ['T', 'ArrayOf', ['*S'], '', []], lambda k: [text(k)], same_ser, opts=False, extra=[['S', 'String', [], '', []]])
place('MapOf', 'e', lambda o: ['T', 'MapOf', ['+String', '*Integer', *o], '', []], lambda k: {x: 1 for x in keys(k)}, same_ser)
place('MapOf Integer', 'e', lambda o: ['T', 'MapOf', ['+Integer', '*Integer', *o], '', []], lambda k: {x: 1 for x in range(k)}, lambda v, m: {str(a): b for a, b in v.items()})
place('MapOf key', 's', lambda o: ['T', 'MapOf', ['+String', '*Integer'], '', []], lambda k: {text(k): 1}, same_ser, opts=False)
place('MapOf named key', 's', lambda o: ['T', 'MapOf', ['+S', '*Integer'], '', []], lambda k: {text(k): 1}, same_ser, opts=False, extra=[['S', 'String', [], '', []]])
place('MapOf value', 's', lambda o: ['T', 'MapOf', ['+String', '*String'], '', []], lambda k: {'a': text(k)}, same_ser, opts=False)
place('MapOf binary value', 'b', lambda o: ['T', 'MapOf', ['+String', '*Binary'], '', []], lambda k: {'a': bytes(k)}, lambda v, m: {'a': ser_bin(v['a'])}, opts=False)
place('Map', 'e', wide('Map'), first, lambda v, m: v if m[1] else {str(i): True for i in range(1, len(v) + 1)}, most=N)
place('Map id', 'e', wide('Map', ['=']), first, lambda v, m: {str(i): True for i in range(1, len(v) + 1)}, most=N)
place('Record', 'e', wide('Record'), first, lambda v, m: [True] * len(v) if not m[0] else v if m[1] else {str(i): True for i in range(1, len(v) + 1)}, most=N)
place('Array', 'e', wide('Array'), lambda k: [True] * k, same_ser, most=N)
place('union', 's', lambda o: ['T', 'Choice', ['CO'], '', [[1, 'a', 'Integer', [], ''], [2, 'x', 'String', o, '']]], text, same_ser)
place('union binary', 'b', lambda o: ['T', 'Choice', ['CX'], '', [[1, 'a', 'Integer', [], ''], [2, 'x', 'Binary', o, '']]], lambda k: bytes(k), lambda v, m: ser_bin(v))
place('Choice', 's', fld('Choice', 'String', []), lambda k: {'x': text(k)}, lambda v, m: wrap('Choice', v['x'], m))
place('Choice id', 's', fld('Choice', 'String', [], ['=']), lambda k: {1: text(k)}, lambda v, m: {'1': v[1]})
for b in ('Record', 'Map', 'Array'):
    def A(v, b=b):
        return [v] if b == 'Array' else {'x': v}

    def G(v, b=b):
        return v[0] if b == 'Array' else v['x']
    for nm, lim, ft, fo, mk, se, op, ex in (
            ('String', 's', 'String', [], text, lambda v: v, True, []),
            ('Binary', 'b', 'Binary', [], lambda k: bytes(k), ser_bin, True, []),
            ('Binary/x', 'b', 'Binary', ['/x'], lambda k: b'\xab' * k, lambda v: v.hex().upper(), True, []),
            ('named String', 's', 'S', [], text, lambda v: v, False, [['S', 'String', [], '', []]]),
            ('named Binary', 'b', 'S', [], lambda k: bytes(k), ser_bin, False, [['S', 'Binary', [], '', []]]),
            ('named ArrayOf', 'e', 'S', [], seq, lambda v: v, False, [['S', 'ArrayOf', ['*Integer'], '', []]]),
            ('named MapOf', 'e', 'S', [], lambda k: {x: 1 for x in keys(k)}, lambda v: v, False, [['S', 'MapOf', ['+String', '*Integer'], '', []]]),
            ('ArrayOf', 'e', 'ArrayOf', ['*Integer'], seq, lambda v: v, True, []),
            ('MapOf', 'e', 'MapOf', ['+String', '*Integer'], lambda k: {x: 1 for x in keys(k)}, lambda v: v, True, []),
            ('ArrayOf of String', 's', 'ArrayOf', ['*String'], lambda k: [text(k)], lambda v: v, False, []),
            ('list', 'e', 'Integer', [']0'], seq, lambda v: v, False, []),
            ('list of named', 'e', 'S', [']0'], seq, lambda v: v, False, [['S', 'Integer', [], '', []]]),
            ('list element', 's', 'String', [']0'], lambda k: [text(k)], lambda v: v, False, []),
            ('list element with options', 'b', 'Binary', [']0', '/x'], lambda k: [bytes(k)], lambda v: [x.hex() for x in v], True, []),
            ('optional list', 'e', 'Integer', ['[0', ']0'], seq, lambda v: v, False, []),
            ('optional String', 's', 'String', ['[0'], text, lambda v: v, True, []),
            ('key', 's', 'String', ['K'], text, lambda v: v, True, []),
            ('link', 's', 'S', ['L'], text, lambda v: v, False, [['S', 'Record', [], '', [[1, 'k', 'String', ['K'], '']]]]),
            ('link binary', 'b', 'S', ['L'], lambda k: bytes(k), ser_bin, False, [['S', 'Map', [], '', [[1, 'k', 'Binary', ['K'], '']]]]),
    ):
        place(f'{b} field {nm}', lim, fld(b, ft, fo), (lambda mk, A: lambda k: A(mk(k)))(mk, A), (lambda b, se, G: lambda v, m: wrap(b, se(G(v)), m))(b, se, G), opts=op, extra=ex)

MINS = {'list': 1, 'list of named': 1, 'optional list': 1}      # an empty list is not an occurrence of the field


def least(name):
    return next((v for k, v in MINS.items() if name.endswith('field ' + k)), 0)


def config(r, big=False):
    c = {}
    for k in KEY.values():
        if r.random() < .7:
            c[k] = r.choice([1, 2, 3, 4, 5, 7, 8, 10, 11, 12, 20, 63, 64, 100, 101, 254, 255, 256, 257, 300, 512, 1000]) if not big else r.choice([300, 1000, 400])
    return c


def package(r, conf, n):
    """Schema with renamed types for n places: {place: (type name, bound low, bound high)}"""
    lim = {**M.DEFAULTS, **conf}
    types, out = [], {}
    for j, name in enumerate(r.sample(sorted(PLACES), n)):
        key, tdef, api, ser, op, extra, most = PLACES[name]
        lo, hi, o, expl = least(name), lim[KEY[key]], [], False
        if op and r.random() < .6:
            q = r.random()
            if q < .25:
                lo = r.choice([1, 2, min(hi, 5)])
                o = [f'{{{lo}']
            elif q < .8:
                hi = r.choice([1, 2, 4, 9, 11, hi + 1, hi + 5, max(1, hi - 1), hi, 260, 110])
                o, expl = [f'}}{hi}'], True
                if r.random() < .3:
                    lo = r.choice([0, 1, min(hi, 3)])
                    o.append(f'{{{lo}')
            else:
                o = ['}0'] if r.random() < .6 else ['{0', '}0'] if name.startswith('String') else ['{0']
        r.shuffle(o)
        defs = [tdef(list(o))] + copy.deepcopy(extra)
        ren = {d[0]: f'{d[0]}{j}' for d in defs}
        for d in defs:
            d[0] = ren[d[0]]
            d[2] = [x[0] + ren.get(x[1:], x[1:]) for x in d[2]]
            for f in d[4]:
                f[2] = ren.get(f[2], f[2])
        types += defs
        out[name] = (f'T{j}', lo, hi, expl)
    r.shuffle(types)
    return types, out


def probe(ctx, c, mode, name, tn, lo, hi, expl, kind):
    r = ctx.rng
    key, tdef, api, ser, op, extra, most = PLACES[name]
    ks = {hi - 1, hi, hi + 1, lo, lo - 1, r.choice([100, 101, 255, 256]), hi + r.randint(2, 40), r.randint(0, hi)}
    if most is not None:
        ks = {k for k in ks if k <= most} | {most}
    for k in sorted(ks):
        if k < 0:
            continue
        want = lo <= k <= hi
        v = api(k)
        for d in ('encode', 'decode'):
            if d == 'encode':
                res = call(c.encode, tn, v)
                exp = None
            else:
                s = jcopy(ser(api(k), mode))
                res = call(c.decode, tn, s)
                exp = v
            ctx.event(('explicit_' if expl else '') + ('within' if want else 'beyond'), (name, lo, hi, expl, k, d, mode))
            if d == 'decode':
                ctx.count['decode'] += 1
            if kind:
                ctx.count[kind] += 1
            if (res[0] == 'ok') != want:
                ctx.fail(f'{d} ' + ('refuses a value within the limit' if want else 'accepts a value beyond the limit'), place=name, size=k, low=lo, high=hi, explicit=expl, mode=mode, error=res[1],
                         config=c.config, definition=[t for t in c.schema['types'] if t[0].startswith(tn)])
            elif want and exp is not None and not M.same(res[1], exp):
                ctx.fail('decode gives another value', place=name, size=k, result=res[1], expected=exp)


def limits(ctx):
    r = ctx.rng
    todo = []
    twin = r.random() < .4      # different packages that have the same name and version
    for p in range(r.randint(2, 4)):
        conf = config(r) if r.random() < .8 else {}
        sc = {'types': None}
        over = None
        if conf or r.random() < .5:
            sc['info'] = {'package': f'http://p.q/{0 if twin else p}', **({'version': '1.0'} if twin else {}), **({'config': conf} if conf else {})}
        eff = conf
        if r.random() < .3:     # configuration given to the codec takes the place of that of the schema
            eff = config(r)
            over = r.choice([{'info': {'package': 'http://z.y', 'config': eff}}, {'info': {'config': eff}, 'types': []}])
            if not eff:
                over = r.choice([{'info': {'package': 'http://z.y'}}, {'types': []}, {'info': {'config': {}}}])
        sc['types'], pl = package(r, eff, r.randint(4, 14))
        mode = r.choice(MODES)
        keep = copy.deepcopy((sc, over))
        c = jadn.codec.Codec(sc, *mode, **({'config': over} if over is not None else {}))
        if r.random() < .3:
            mode = r.choice(MODES)
            c.set_mode(*mode)
        if not M.same(keep, (sc, over)):
            ctx.fail('making a codec modified the schema or the configuration', before=keep, after=(sc, over))
        todo += [(c, mode, name, *x, 'override' if over is not None else 'other_package' if p else None) for name, x in pl.items()]
        if r.random() < .2:
            jadn.check({'info': {'package': 'http://c.d', 'config': config(r, True) or {'$MaxString': 300}}, 'types': [['A', 'String']]})
    r.shuffle(todo)
    for t in todo:
        probe(ctx, *t)


# Name rules: pattern -> names it accepts, names it does not
TN = {
    None: (['Abc', 'A', 'Z-9', 'A$b', 'A' * 64, '$Sys'], ['abc', 'A_b', '1A', 'A' * 65, 'A.b', 'A b', '-A', '', 'É']),
    '^[A-Z][-$A-Za-z0-9]{0,63}$': (['Abc', 'A$b'], ['$Sys', 'abc']),
    '^[a-z][a-z0-9_]*$': (['abc', 'a_b', 'a1', 'z' * 90], ['Abc', 'A', 'a-b', '', '1a', 'a$']),
    '^[A-Z]{2,5}$': (['AB', 'ABCDE'], ['A', 'ABCDEF', 'Abc', 'ab', 'A-B', '']),
    r'^T_[0-9]+$': (['T_1', 'T_007'], ['T_', 'T1', 'Abc', 'T_1a', 't_1']),
    r'^[\w.]+$': (['a.b', 'A_b', '9', 'é'], ['a-b', 'a b', '', 'a/b', 'A$b']),
    r'^(Foo|Bar)[A-Z]*$': (['Foo', 'BarX'], ['Abc', 'foo', 'FooBar', 'XFoo', '']),
    '^.{1,8}$': (['a b', 'x', '12345678', '-'], ['123456789', '']),
}
FN = {
    None: (['abc', 'a', 'a_B9', 'a$b', '$a', 'a' * 64], ['Abc', 'a-b', '1a', 'a' * 65, 'a.b', 'a b', '', '_a', 'é']),
    '^[A-Z]+$': (['A', 'ABC'], ['a', 'Ab', 'A_', '', 'A1']),
    '^[-a-z]+$': (['a-b', '-', 'abc'], ['a_b', 'A', '', 'a1']),
    r'^[$A-Za-z][_A-Za-z0-9]{0,63}$': (['Abc', '$x', 'a_b'], ['a$b', '_a', 'a-b', '']),
    r'^x\d{3}$': (['x123', 'x000'], ['x12', 'x1234', 'abc', 'x12a', '']),
    '^.{1,4}$': (['a b', '1', '----'], ['12345', 'abcde', '']),
}
NS = {
    None: (['a', 'A1', 'Abcdefgh', ''], ['1a', 'Abcdefghi', 'a_b', 'a-b', 'é']),
    '^[a-z]{2,3}$': (['ab', 'xyz'], ['a', 'abcd', 'AB', 'a1', '']),
    '^[0-9]+$': (['1', '2024'], ['a', '', '1a']),
    '^x_[a-z]*$': (['x_', 'x_abc'], ['x', 'ab', 'x_A', '']),
    '^[-a-z]{1,20}$': (['a-b-c', 'abcdefghijkl'], ['A', '', 'a1']),
}


def rules(r):
    t, f, n = (r.choice(list(x)) if r.random() < .6 else None for x in (TN, FN, NS))
    return {'$TypeName': t, '$FieldName': f, '$NSID': n}


def pkg(r, ru, bad=None):
    """A schema whose names follow the rules; one that does not at the place bad"""
    (tg, tb), (fg, fb), (ng, nb) = TN[ru['$TypeName']], FN[ru['$FieldName']], NS[ru['$NSID']]
    ng2 = [x for x in ng if x] or ['ab']
    conf = {k: v for k, v in ru.items() if v is not None}
    if r.random() < .3:
        conf['$MaxString'] = r.choice([200, 300])
    tn = r.sample(tg, 2)
    fn = r.choice(fg)
    ns = r.choice(ng2)
    ref = r.choice([tn[0], tn[1], 'String' if call_ok('String', ru) else tn[0], f'{ns}:{r.choice(tg)}'])
    key = 'roots' if r.random() < .5 else 'exports'
    info = {'package': 'http://a.b/c', **({'version': '1.0'} if r.random() < .5 else {})}
    roots = [tn[0]]
    if bad == 'type name':
        tn[1] = r.choice([x for x in tb if x != tn[0]])
        if ref == tn[1]:
            ref = tn[0]
        ref = ref if ref != tn[1] else tn[0]
    elif bad == 'field name':
        fn = r.choice(fb)
    elif bad == 'namespace':
        ns = r.choice(nb)
        ref = tn[0]
    elif bad == 'reference':
        ref = r.choice(tb)
    elif bad == 'reference prefix':
        ref = r.choice([x for x in nb if x] or ['1-']) + ':' + tg[0]
    elif bad == 'reference after prefix':
        ref = ns + ':' + r.choice(tb)
    elif bad == 'root':
        roots = [tn[0], r.choice(tb)]
    info[key] = roots
    info['namespaces'] = {ns: 'http://q.r'} if r.random() < .5 else [[ns, 'http://q.r']]
    if conf:
        info['config'] = conf
    base = r.choice(['Record', 'Map', 'Array', 'Choice'])
    types = [[tn[0], base, [], '', [[1, fn, ref, [], '']]], [tn[1], 'String', [], '', []]]
    if bad and bad.startswith('reference') and call_ok(ref, ru):
        return None
    return {'info': info, 'types': types}


def call_ok(name, ru):
    return re.match(ru['$TypeName'] or M.DEFAULTS['$TypeName'], name)


BAD = ['type name', 'field name', 'namespace', 'reference', 'reference prefix', 'reference after prefix', 'root']


def name_rules(ctx):
    r = ctx.rng
    rs = [rules(r) for _ in range(2)]
    for _ in range(4):
        ru = r.choice(rs)
        for bad in [None, r.choice(BAD), r.choice(BAD)]:
            sc = pkg(r, ru, bad)
            if sc is None:
                continue
            try:
                jadn.check(copy.deepcopy(sc))
                ok, err = True, None
            except Exception as e:
                ok, err = False, f'{type(e).__name__}: {str(e)[:300]}'
            ctx.event('names_refused' if bad else 'names_accepted', (bad, repr(sc)))
            if ok and bad:
                ctx.fail('name that breaks the configured rule is accepted', place=bad, rules=ru, schema=sc)
            elif not ok and not bad:
                ctx.fail('names that follow the configured rules are refused', rules=ru, error=err, schema=sc)
    # types that refer to a rule
    cs = []
    for ru in rs:
        conf = {k: v for k, v in ru.items() if v is not None}
        sc = {'types': [['T0', 'String', ['%$TypeName'], '', []], ['T1', 'String', ['%$FieldName'], '', []], ['T2', 'String', ['%$NSID'], '', []],
                        ['R', 'Record', [], '', [[1, 'a', 'String', ['%$TypeName'], ''], [2, 'b', 'String', ['[0', ']0', '%$FieldName'], '']]]]}
        over = r.random() < .4
        if conf and not over:
            sc['info'] = {'package': 'http://a.b', 'config': conf}
        cs.append((ru, codec(sc, (True, True), {'info': {'config': conf}} if over else None)))
    r.shuffle(cs)
    for ru, c in cs * 2:
        for j, (k, tab) in enumerate((('$TypeName', TN), ('$FieldName', FN), ('$NSID', NS))):
            for pat in (ru[k], r.choice(list(tab))):
                for x in tab[pat][0] + tab[pat][1]:
                    want = bool(re.match(ru[k] or M.DEFAULTS[k], x))
                    for t, v in ((f'T{j}', x), *([('R', {'a': x})] if j == 0 else [('R', {'a': (TN[ru['$TypeName']][0])[0], 'b': [x]})] if j == 1 else [])):
                        for f in (c.encode, c.decode):
                            res = call(f, t, v)
                            ctx.event('pattern_type', (k, ru[k], x, t, f.__name__))
                            if (res[0] == 'ok') != want:
                                ctx.fail('type that refers to a name rule ' + ('refuses a valid name' if want else 'accepts an invalid name'), rule=k, pattern=ru[k], name=x, type=t, result=res[1])


def case(ctx, i):
    if i % 3:
        limits(ctx)
    else:
        name_rules(ctx)
    ctx.sample(note='limits' if i % 3 else 'name rules')
