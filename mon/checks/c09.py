"""C09: the schema checker accepts well-formed schemas and refuses malformed ones"""
import copy
import json

import jadn

from .. import fmt as F
from ..common import G, diff, jcopy, schema
from ..model import CORE, FIELDED, opts, split_opts

CASES = {'quick': 1500, 'thorough': 15000}
RULE = 'one evaluation = one schema given to jadn.check: well-formed (accepted, equal content) or with one malformation at one place (any exception); distinct = distinct (malformation, place, schema)'
ASSUME = ['the option tables of the check are this module\'s own copy of the documented ones']

# Documented option tables
ALLOWED = {
    'Binary': 'format minv maxv', 'Boolean': '', 'Integer': 'format minv maxv', 'Number': 'format minf maxf', 'String': 'format pattern minv maxv',
    'Enumerated': 'id enum pointer extend', 'Choice': 'id extend combine', 'Array': 'extend format minv maxv', 'ArrayOf': 'vtype minv maxv unique set unordered',
    'Map': 'id extend minv maxv sequence', 'MapOf': 'ktype vtype minv maxv sequence', 'Record': 'extend minv maxv sequence'}
SAMPLE = {  # an option string of every type option
    'id': '=', 'vtype': '*String', 'ktype': '+String', 'enum': '#', 'pointer': '>', 'format': '/', 'pattern': '%^a$', 'minf': 'y0.5', 'maxf': 'z1e6', 'minv': '{1', 'maxv': '}9',
    'unique': 'q', 'set': 's', 'unordered': 'b', 'sequence': 'o', 'combine': 'CO', 'extend': 'X'}
FORMATS = {'Binary': ['eui', 'uuid', 'ipv4-addr', 'ipv6-addr', 'b', 'x', 'X'], 'Integer': ['i8', 'i16', 'i32', 'i64', 'datetime-ms'], 'Number': ['f16', 'f32', 'f64'],
           'String': F.STRING_FORMATS, 'Array': ['tag-uuid', 'ipv4-net', 'ipv6-net']}
FIELDOPTS = ['[0', '[1', ']2', ']0', '&1', '<', 'K', 'L']
BADOPT = ['~x', '?1', '@', 'a', '1', 'Z', ' ', '=\u00e9'[1:], '-5', '.', '^', '\\', 'é', '|', '\t']
BADTNAME = ['lower', '1Digit', '', 'Has Space', 'Under_score', 'Colon:Name', 'Dot.Name', 'A' * 65, '-Dash', 'É', 'Na/me', 'ns:lower', 'A#', '*A', ' A', 'A ']
BADFNAME = ['Upper', '1digit', '', 'has space', 'da-sh', 'colon:x', 'dot.x', 'a' * 65, '_u', '-d', 'é', 'a/b', 'a ', ' a', '@a', 'a?']

MUT = {}


def mut(f):
    MUT[f.__name__] = f
    return f


def tdefs(sc, pred=lambda t: True):
    return [t for t in sc['types'] if pred(t)]


def fdefs(sc, pred=lambda f, t: True):
    """(type, field) of field definitions"""
    return [(t, f) for t in sc['types'] if t[1] in FIELDED for f in t[4] if pred(f, t)]


def pick(r, xs):
    if not xs:
        raise LookupError
    return r.choice(xs)


def place(r, sc, base):
    """Option list of a named type or of an anonymous field type of a base type"""
    return pick(r, [t[2] for t in tdefs(sc, lambda t: t[1] == base)] + [f[3] for _, f in fdefs(sc, lambda f, t: f[2] == base)])


def add(r, ol, *o):
    for x in o:
        ol.insert(r.randrange(len(ol) + 1), x)


def drop(ol, *prefixes):
    ol[:] = [x for x in ol if x[0] not in prefixes]


@mut
def duplicate_type_name(r, sc):
    t = pick(r, sc['types'])
    d = copy.deepcopy(t) if r.random() < .4 else [t[0], 'Boolean', [], 'another', []]
    if d == t:
        d[3] = 'again'
    sc['types'].insert(r.randrange(len(sc['types']) + 1), d)


@mut
def identical_type(r, sc):
    sc['types'].insert(r.randrange(len(sc['types']) + 1), copy.deepcopy(pick(r, sc['types'])))


@mut
def reserved_type_name(r, sc):
    sc['types'].insert(r.randrange(len(sc['types']) + 1), [r.choice(sorted(CORE)), *pick(r, sc['types'])[1:]])


@mut
def unknown_base_type(r, sc):
    t = pick(r, sc['types'])
    t[1] = r.choice(['Foo', 'string', 'STRING', '', 'Str', 'Object', 'Any', 'Null', 'Float', 'List', 'String ', 'RecordOf', 'Choices', pick(r, sc['types'])[0], 'ns:String', None, 5])


@mut
def missing_required_option(r, sc):
    b = r.choice(['ArrayOf', 'MapOf', 'MapOf'])
    drop(place(r, sc, b), r.choice('*+' if b == 'MapOf' else '*'))


@mut
def unknown_option(r, sc):
    where = r.choice(['type', 'field'])
    ol = pick(r, sc['types'])[2] if where == 'type' else pick(r, fdefs(sc))[1][3]
    add(r, ol, r.choice(BADOPT))


@mut
def empty_option(r, sc):
    ol = r.choice([t[2] for t in sc['types']] + [f[3] for _, f in fdefs(sc)])
    add(r, ol, '')


@mut
def non_string_option(r, sc):
    ol = r.choice([t[2] for t in sc['types']] + [f[3] for _, f in fdefs(sc)])
    add(r, ol, r.choice([1, None, True, ['{1'], {'minv': 1}, 0.5]))


@mut
def inapplicable_option(r, sc):
    """a type option on a base type that does not have it, in a type or a field definition"""
    cases = []
    for t in sc['types']:
        cases += [(t[2], t[1], k) for k in SAMPLE if k not in ALLOWED[t[1]].split()]
    for t, f in fdefs(sc):
        if f[2] in CORE:
            many = opts(f[3]).get('maxc', 1) != 1
            cases += [(f[3], f[2], k) for k in SAMPLE if k not in ALLOWED[f[2]].split() and not (many and k == 'unique')]
    ol, base, k = pick(r, cases)
    o = SAMPLE[k]
    if k in ('enum', 'pointer'):
        o += pick(r, sc['types'])[0]
    if k == 'format':
        o += r.choice(FORMATS[r.choice(sorted(FORMATS))])
    add(r, ol, o)


@mut
def field_option_on_type(r, sc):
    add(r, pick(r, sc['types'])[2], r.choice(FIELDOPTS))


@mut
def unknown_format(r, sc):
    ol = place(r, sc, r.choice(['String', 'Binary', 'Integer', 'Number', 'Array']))
    drop(ol, '/')
    add(r, ol, '/' + r.choice(['foo', 'Date', 'DATE-TIME', 'i128', 'f8', 'i', 'date ', '', 'ipv4-nets', 'bx', 'xx', 'uuid4', 'ip', '/date', 'e-mail']))


@mut
def foreign_format(r, sc):
    b = r.choice(['String', 'Binary', 'Integer', 'Number', 'Array'])
    ol = place(r, sc, b)
    drop(ol, '/')
    o = r.choice(sorted(set(FORMATS) - {b}))
    add(r, ol, '/' + r.choice(FORMATS[o]))


@mut
def inverted_range(r, sc):
    b = r.choice(['Integer', 'String', 'Binary', 'ArrayOf', 'MapOf', 'Map', 'Record', 'Array'])
    ol = place(r, sc, b)
    drop(ol, '{', '}', '%')
    lo, hi = (r.choice([(0, -1), (1, 0), (5, 4), (-1, -2), (100, 10), (10 ** 12, 10 ** 11), (10, 9), (2, -10)]) if b == 'Integer' else r.choice([(2, 1), (10, 9), (100, 20), (300, 256)]))
    add(r, ol, f'{{{lo}', f'}}{hi}')


@mut
def inverted_float_range(r, sc):
    ol = place(r, sc, 'Number')
    drop(ol, 'y', 'z')
    lo, hi = r.choice([(0.5, 0.25), (1, 0), (0.0, -1.0), (-1.5, -2), ('1e3', '1e2'), (10, 9), (0.001, 0)])
    add(r, ol, f'y{lo}', f'z{hi}')


@mut
def inverted_multiplicity(r, sc):
    _, f = pick(r, fdefs(sc))
    drop(f[3], '[', ']')
    lo, hi = r.choice([(2, 1), (3, 2), (10, 9), (5, 1), (100, 99)])
    add(r, f[3], f'[{lo}', *([f']{hi}'] if hi != 1 or r.random() < .5 else []))


@mut
def negative_occurrences(r, sc):
    _, f = pick(r, fdefs(sc))
    drop(f[3], '[', ']')
    add(r, f[3], r.choice(['[-1', ']-1', '[-5', ']-2', '[-100']))


@mut
def size_with_pattern(r, sc):
    ol = place(r, sc, 'String')
    drop(ol, '{', '}', '%')
    add(r, ol, '%' + r.choice(G.PATTERNS)[0], *r.choice([['{1'], ['}5'], ['{0', '}9'], ['{0']]))


@mut
def enum_and_pointer(r, sc):
    ts = tdefs(sc, lambda t: t[1] in ('Map', 'Record') and t[4])
    a = pick(r, ts)[0]
    ol = place(r, sc, 'Enumerated')
    drop(ol, '#', '>')
    add(r, ol, '#' + a, '>' + pick(r, ts)[0])


@mut
def derived_with_items(r, sc):
    a = pick(r, tdefs(sc, lambda t: t[1] in ('Map', 'Record') and t[4]))[0]
    t = pick(r, tdefs(sc, lambda t: t[1] == 'Enumerated'))
    if not t[4]:
        t[4] = [[1, 'item', '']]
    drop(t[2], '#', '>')
    add(r, t[2], r.choice('#>') + a)


@mut
def duplicate_id(r, sc):
    t = pick(r, tdefs(sc, lambda t: t[1] in ('Map', 'Choice', 'Enumerated') and len(t[4]) > 1))
    a, b = r.sample(t[4], 2)
    a[0] = b[0]


@mut
def duplicate_name(r, sc):
    t = pick(r, tdefs(sc, lambda t: t[1] in (*FIELDED, 'Enumerated') and len(t[4]) > 1))
    a, b = r.sample(t[4], 2)
    a[1] = b[1]


@mut
def columns_of_field(r, sc):
    _, f = pick(r, fdefs(sc))
    k = r.randrange(4)
    if k == 0:
        f.append(r.choice(['x', [], 0]))
    elif k == 1:
        del f[r.randrange(4):]      # at most 3 columns
    elif k == 2:
        f.insert(r.randrange(5), 'x')
    else:
        f[:] = [f[0], f[1], f[4]]


@mut
def columns_of_item(r, sc):
    f = pick(r, pick(r, tdefs(sc, lambda t: t[1] == 'Enumerated' and t[4]))[4])
    k = r.randrange(3)
    if k == 0:
        f.append(r.choice(['x', [], 0]))
    elif k == 1:
        del f[r.randrange(2):]
    else:
        f[:] = [f[0], f[1], 'String', [], f[2]]


@mut
def columns_of_type(r, sc):
    t = pick(r, sc['types'])
    k = r.randrange(3)
    if k == 0:
        t.append(r.choice(['x', [], 0]))
    elif k == 1:
        del t[r.randrange(2):]
    else:
        t.insert(r.randrange(5), r.choice(['x', []]))


@mut
def column_type(r, sc):
    """a column holds a value of the wrong kind"""
    k = r.randrange(9)
    if k < 5:
        t = pick(r, sc['types'])
        t[k] = r.choice([{0: [5, None, ['A']], 1: [5, None, ['String']], 2: ['{1', None, {'minv': 1}, 5], 3: [5, None, ['x'], {}], 4: ['x', None, 5, {'a': 1}]}[k]][0])
    else:
        t, f = pick(r, fdefs(sc))
        k -= 5
        f[[0, 1, 3, 4][k]] = r.choice([['1', None, 1.5, 'x', [1], -1], [5, None, ['a']], ['[0', None, 5, {}], [5, None, []]][k])


@mut
def fields_without_structure(r, sc):
    t = pick(r, tdefs(sc, lambda t: t[1] not in FIELDED and t[1] != 'Enumerated'))
    t[4] = [r.choice([[1, 'a', 'String', [], ''], [1, 'a', '']])]


@mut
def nonsequential_ids(r, sc):
    t = pick(r, tdefs(sc, lambda t: t[1] in ('Array', 'Record') and t[4]))
    k = r.randrange(4)
    fs = t[4]
    if k == 0 and len(fs) > 1:
        i, j = r.sample(range(len(fs)), 2)
        fs[i], fs[j] = fs[j], fs[i]
    elif k == 1:
        for f in fs:
            f[0] -= 1
    elif k == 2:
        fs[-1][0] += r.choice([1, 5, 100])
    else:
        for f in fs[r.randrange(len(fs)):]:
            f[0] += 1
    drop(fs[0][3], '&')


@mut
def dangling_tag(r, sc):
    t, f = pick(r, fdefs(sc, lambda f, t: t[1] in ('Array', 'Map', 'Record')))
    used = {x[0] for x in t[4]}
    drop(f[3], '&')
    add(r, f[3], '&%d' % r.choice([x for x in (0, 1, 2, 3, 4, 5, 9, 50, 1000, -1, len(t[4]) + 1) if x not in used]))


@mut
def options_on_reference(r, sc):
    _, f = pick(r, fdefs(sc, lambda f, t: f[2] not in CORE))
    add(r, f[3], r.choice(['{1', '}5', '%^a$', '/date', '*String', '+String', '=', 's', 'b', 'o', 'X', 'y1', 'z9.5', 'CO', '#' + f[2], '>' + f[2]]
                          + (['q'] if opts(f[3]).get('maxc', 1) == 1 else [])))


@mut
def anonymous_fielded(r, sc):
    _, f = pick(r, fdefs(sc))
    f[2] = r.choice(['Array', 'Map', 'Record', 'Choice'])
    f[3] = [x for x in f[3] if x[0] in '[]'] if r.random() < .5 else []


@mut
def dir_on_primitive(r, sc):
    _, f = pick(r, fdefs(sc, lambda f, t: f[2] in CORE and '<' not in f[3]))
    add(r, f[3], '<')


@mut
def invalid_type_name(r, sc):
    t = pick(r, sc['types'])
    t[0] = r.choice(BADTNAME)


@mut
def invalid_field_name(r, sc):
    _, f = pick(r, fdefs(sc))
    f[1] = r.choice(BADFNAME)


@mut
def invalid_reference(r, sc):
    _, f = pick(r, fdefs(sc))
    f[2] = r.choice(['lower', '', '1a', 'a b', 'a:b', 'Foo:', 'toolongprefix:Foo', 'a_b:Foo', 'Foo_x', 'a:b:C', ' A', 'A ', None, 5, ['String']])
    f[3] = []


@mut
def negative_id(r, sc):
    t = pick(r, tdefs(sc, lambda t: t[1] in ('Map', 'Choice', 'Enumerated') and t[4]))
    pick(r, t[4])[0] = r.choice([-1, -100, '1', None, 1.5, 'x'])


@mut
def package_information(r, sc):
    i = sc.setdefault('info', {})
    i.setdefault('package', 'http://example.com/p')
    k = r.randrange(11)
    if k == 0:
        if list(i) == ['package']:
            i['title'] = 'x'
        del i['package']
    elif k == 1:
        i['package'] = r.choice(['', 'not a uri', 'relative/path', 5, None, ['http://x.y'], 'a b:c', '//no.scheme/x', '#frag'])
    elif k == 2:
        i[r.choice(['foo', 'Title', 'titles', '', 'module', 'comments', 'root', 'export', 'configuration'])] = 'x'
    elif k == 3:
        i[r.choice(['version', 'title', 'description', 'comment', 'copyright', 'license'])] = r.choice([5, None, [], {}, True, ''])
    elif k == 4:
        i['namespaces'] = r.choice([5, 'x', [], {}, {'p': 5}, {'toolongprefix': 'http://x.y'}, [['p']], [['p', 'http://x.y', 'z']], [['a_b', 'http://x.y']], {'p': 'no uri'},
                                    [['p', 'no uri']], [[5, 'http://x.y']], [{'p': 'http://x.y'}], {'1a': 'http://x.y'}, [None], None])
    elif k == 5:
        i[r.choice(['roots', 'exports'])] = r.choice([5, 'Foo', [], {}, [5], ['lower'], ['Has Space'], [['A']], None, ['A_b']])
    elif k == 6:
        i['config'] = r.choice([5, 'x', [], {}, None, {'$Foo': 5}, {'MaxString': 5}, {'$maxstring': 9}])
    elif k == 7:
        i['config'] = {r.choice(['$MaxBinary', '$MaxString', '$MaxElements']): r.choice([0, -1, '5', None, 1.5, [], True])}
    elif k == 8:
        i['config'] = {r.choice(['$TypeName', '$FieldName', '$NSID', '$Sys']): r.choice([5, None, '', [], True])}
    elif k == 9:
        i['config'] = r.choice([{'$Sys': 'ab'}, {'$Sys': ''}, {'$FieldName': '^' + 'a?' * 70 + '.*$'}])
    else:
        sc['info'] = r.choice([5, 'x', [], None, {}, [['package', 'http://x.y']]])


@mut
def top_level(r, sc):
    k = r.randrange(4)
    if k == 0:
        sc[r.choice(['foo', 'Types', 'meta', 'type', ''])] = r.choice([1, 'x', {}])
    elif k == 1:
        del sc['types']
    elif k == 2:
        sc['types'] = r.choice([5, 'x', None, {'A': ['String']}])
    else:
        sc['types'].append(r.choice([5, 'x', None, [], {}, ['A']]))


# Names that are valid with the default rules
GOODT = ['A', 'Z9', 'A-b', 'A-', 'Ab-9-z', 'A' * 64, '$Sys', 'A$b']
GOODF = ['a', 'z9', 'a_b', 'a_', 'aB', 'a' * 64, 'a$', '$a']


def accept(ctx, sc, what):
    before = copy.deepcopy(sc)
    mine = copy.deepcopy(sc)
    ctx.event(what, json.dumps(sc)[:3000])
    try:
        got = jadn.check(mine)
    except Exception as e:
        ctx.fail('well-formed schema refused', kind=what, error=f'{type(e).__name__}: {str(e)[:700]}', schema=before)
        return
    full = {**before, 'types': [[*t] + [None, None, [], '', []][len(t):] for t in before['types']]}
    if d := diff(full, jcopy(got)):
        ctx.fail('checked schema differs from the schema given', kind=what, difference=d, schema=before, result=got)


def reject(ctx, sc, what):
    ctx.event('malformed', (what, json.dumps(sc)[:3000]))
    ctx.count['malformed:' + what] += 1
    try:
        jadn.check(copy.deepcopy(sc))
    except Exception:
        return
    ctx.fail(f'malformed schema accepted: {what.replace("_", " ")}', schema=sc)


def rename(sc, a, b):
    """consistent renaming of a defined type"""
    def ol(x):
        return [o[0] + b if o[0] in '*+#>' and o[1:] == a else o[:2] + b if o[0] in '*+' and o[1:2] in ('#', '>') and o[2:] == a else o for o in x]
    for t in sc['types']:
        t[0] = b if t[0] == a else t[0]
        t[2] = ol(t[2])
        if t[1] in FIELDED:
            for f in t[4]:
                f[2] = b if f[2] == a else f[2]
                f[3] = ol(f[3])
    for k in ('roots', 'exports'):
        if k in sc.get('info', {}):
            sc['info'][k] = [b if x == a else x for x in sc['info'][k]]


def variants(ctx, sc):
    """well-formed variations of a well-formed schema"""
    r = ctx.rng
    v = copy.deepcopy(sc)           # absent columns
    for t in v['types']:
        while len(t) > 2 and t[-1] in ('', []) and r.random() < .8:
            t.pop()
    yield 'absent_columns', v
    v = copy.deepcopy(sc)
    if r.random() < .5:
        rename(v, r.choice(v['types'])[0], r.choice(GOODT))
    else:
        fs = fdefs(v)
        if fs:
            t, f = r.choice(fs)
            n = r.choice(GOODF)
            if n not in [x[1] for x in t[4]]:
                f[1] = n
    yield 'names', v
    v = copy.deepcopy(sc)           # information
    i = v.setdefault('info', {})
    i.setdefault('package', r.choice(['http://example.com/p', 'urn:a:b', 'https://x.y/z?q=1#f', 'tag:x,2020:y']))
    for k in ('version', 'title', 'description', 'comment', 'copyright', 'license'):
        if r.random() < .4:
            i[k] = r.choice(['x', '1', 'Long text // with "all" kinds <of> things', '日本語', ' ', 'multi\nline'])
    if r.random() < .6:
        ns = {p: u for p, u in zip(r.sample(['p', 'ls', 'Abc', 'n1', 'a2345678'], r.randint(1, 3)), ['http://a.b/c', 'urn:q:r', 'https://d.e'])}
        i['namespaces'] = ns if r.random() < .4 else [[p, u] for p, u in ns.items()]
        fs = fdefs(v, lambda f, t: t[1] in ('Map', 'Record') and not f[3])
        if fs:
            r.choice(fs)[1][2] = r.choice(list(ns)) + ':' + r.choice(['Imported', 'X-1'])
        if i['namespaces'] and type(i['namespaces']) is list and r.random() < .3:
            i['namespaces'].append([r.choice(list(ns)), 'http://other.example/'])     # same prefix, another package
    yield 'information', v
    v = copy.deepcopy(sc)           # explicit default multiplicity, undefined references
    fs = fdefs(v, lambda f, t: not any(x[0] in '[]&' for x in f[3]) and 'q' not in f[3] and t[1] != 'Choice')
    for _, f in r.sample(fs, min(3, len(fs))):
        f[3] = f[3] + r.choice([['[1'], [']1'], ['[1', ']1'], ['[0'], ['[0', ']0'], ['[2', ']2'], ['[1', ']0'], ['[5', ']0'], ['[0', ']1']])
    fs = fdefs(v, lambda f, t: f[2] not in CORE and not any(x[0] in '<&LK' for x in f[3]))
    if fs and r.random() < .5:
        r.choice(fs)[1][2] = 'Undefined-Type'
    yield 'variations', v
    v = copy.deepcopy(sc)           # boundary ranges
    for t in v['types']:
        if t[1] in ('Integer', 'String', 'Binary', 'ArrayOf') and not any(x[0] in '{}%/' for x in t[2]):
            n = r.choice([0, 1, 5, 255])
            t[2] = t[2] + [f'{{{n}', f'}}{n}']
        if t[1] == 'Number' and not any(x[0] in 'yz' for x in t[2]):
            n = r.choice([0.0, -1.5, 1e9])
            t[2] = t[2] + [f'y{n}', f'z{n}']
        if t[1] in FIELDED and t[1] != 'Choice' and len([x for x in t[2] if x[0] in '{}/']) == 0:
            t[2] = t[2] + ['X'] * ('X' not in t[2])
    yield 'boundaries', v


def once(ctx):
    """every (base type, option) pair, every (base type, format) pair, in a type and in a field"""
    n = 0
    for base in sorted(CORE):
        req = {'ArrayOf': ['*String'], 'MapOf': ['+String', '*String']}.get(base, [])
        fs = [[1, 'a', 'String', [], '']] if base in FIELDED else [[1, 'a', '']] if base == 'Enumerated' else []
        for k, o in SAMPLE.items():
            ofs = ['/' + f for f in FORMATS.get(base, [])] if k == 'format' and base in FORMATS else [o + 'Ref' if k in ('enum', 'pointer') else o]
            if o in req or (k in ('vtype', 'ktype') and k in ALLOWED[base].split()):
                ofs = []
            ok = k in ALLOWED[base].split()
            if k == 'format' and not ok:
                ofs = ['/' + f for b in FORMATS for f in FORMATS[b]]
            for x in ofs:
                ref = ['Ref', 'Record', [], '', [[1, 'a', 'String', [], '']]]
                x9 = [x] if not ok or k not in ('minv', 'maxv', 'combine') else [x]
                items = [] if k in ('enum', 'pointer') else fs
                if base == 'Array' and k == 'format' and ok:
                    items = [[1, 'a', 'String' if x == '/tag-uuid' else 'Binary', [], ''], [2, 'b', 'Binary' if x == '/tag-uuid' else 'Integer', [], '']]
                t = {'types': [['T', base, req + x9, '', items], ref]}
                (accept if ok else lambda c, s, w: reject(c, s, 'inapplicable_option'))(ctx, t, 'option_table')
                if base not in FIELDED and not (base == 'Enumerated' and k not in ('enum', 'pointer')):
                    t = {'types': [['T', 'Map', [], '', [[1, 'a', base, req + x9, '']]], ref]}
                    (accept if ok else lambda c, s, w: reject(c, s, 'inapplicable_option'))(ctx, t, 'option_table')
                n += 1
        for b2 in FORMATS:
            if b2 != base and base in FORMATS:
                for f in FORMATS[b2]:
                    reject(ctx, {'types': [['T', base, req + ['/' + f], '', fs]]}, 'foreign_format')
    ctx.count['table_rows'] += n
    # the package's own schemas
    import glob
    import os
    for p in glob.glob(os.path.join(jadn.data_dir(), '*.jadn')):
        with open(p, encoding='utf8') as f:
            accept(ctx, json.load(f), 'own_schema')


NEED = {'well_formed': 1400, 'absent_columns': 1400, 'malformed': 15000, 'option_table': 60, **{'malformed:' + m: 20 for m in MUT}}


def case(ctx, i):
    r = ctx.rng
    sc = schema(ctx)
    accept(ctx, sc, 'well_formed')
    for what, v in variants(ctx, sc):
        accept(ctx, v, what)
    for what in r.sample(sorted(MUT), 14):
        for _ in range(2):
            v = copy.deepcopy(sc)
            try:
                MUT[what](r, v)
            except LookupError:
                break
            if v != sc:
                reject(ctx, v, what)
    ctx.sample(types=sc['types'][:3], malformed=what)
