"""C23: object form of schemas mirrors the list form"""
import copy

from jadn.definitions import EnumFieldDefinition, GenFieldDefinition, TypeDefinition
from jadn.utils import list_type_schema, list_types, object_type_schema, object_types

from ..common import jcopy, names, same, schema
from ..text import any_text, decorate

CASES = {'quick': 3000, 'thorough': 60000}
RULE = 'one evaluation = one access to, or change of, a column of a definition in object form whose result is compared with a plain list; distinct = distinct (class, operation, place, value)'
NEED = {'convert': 3000, 'definition': 6000, 'read': 150000, 'write': 20000, 'delete': 6000, 'defaults': 8000, 'independent': 3000, 'unpack': 30000, 'slice': 20000, 'refused': 6000, 'arbitrary': 3000}
ASSUME = ['columns are read and changed by position, name or attribute; no column is added']
COLS = {
    TypeDefinition: (['TypeName', 'BaseType', 'TypeOptions', 'TypeDesc', 'Fields'], ['DefinitionName', 'DefinitionType', [], '', []]),
    GenFieldDefinition: (['FieldID', 'FieldName', 'FieldType', 'FieldOptions', 'FieldDesc'], [0, 'FieldName', 'FieldType', [], '']),
    EnumFieldDefinition: (['ItemID', 'ItemValue', 'ItemDesc'], [0, '', '']),
}


def listed(x):
    """Own conversion of object form to lists, by attribute"""
    if type(x) in COLS:
        return [listed(getattr(x, c)) for c in COLS[type(x)][0]]
    return [listed(y) for y in x] if isinstance(x, list) else x


def arbitrary(r):
    """A definition that need not be valid: the forms do not depend on validity"""
    def any_list():
        return [any_text(r) for _ in range(r.randint(0, 3))]
    base = r.choice(['Enumerated', 'Record', 'Choice', 'String', 'ArrayOf', 'Foo', ''])
    if base == 'Enumerated':
        fields = [[r.randint(-9, 999), any_text(r), any_text(r)] for _ in range(r.randint(0, 4))]
    else:
        fields = [[r.randint(-9, 999), any_text(r), any_text(r), any_list(), any_text(r)] for _ in range(r.randint(0, 4))]
    return [any_text(r), base, any_list(), any_text(r), fields]


def cut(r, sc):
    """Definitions without their trailing empty columns"""
    for t in sc['types']:
        for x in [*t[4], t]:
            while len(x) > 2 and x[-1] in ('', []) and r.random() < .3:
                x.pop()
    return sc


def full(sc):
    for t in sc['types']:
        t += COLS[TypeDefinition][1][len(t):]
        t[4] = [f + (COLS[EnumFieldDefinition] if t[1] == 'Enumerated' else COLS[GenFieldDefinition])[1][len(f):] for f in t[4]]
    return sc


def drive(ctx, x, m):
    """One operation on object x, the same on the list m, and all that can be seen compared"""
    r = ctx.rng
    cls = type(x)
    cols, default = COLS[cls]
    n = len(cols)
    k = r.randrange(n)
    key = r.choice([k, k - n, cols[k]])
    op = r.choice(['set', 'set', 'attr', 'del', 'append', 'read'])
    new = r.choice([any_text(r), r.randint(0, 99), [], [any_text(r)], ['=', '{1']]) if r.random() < .3 else copy.deepcopy(r.choice([default[k], m[k]]))
    if isinstance(m[k], int) and r.random() < .5:
        new = r.randint(0, 99)
    if cols[k] == 'Fields':
        new = r.sample(x.Fields, len(x.Fields)) if isinstance(x.Fields, list) else []
    if op == 'set':
        x[key] = new
        m[k] = listed(copy.deepcopy(new))
    elif op == 'attr':
        setattr(x, cols[k], new)
        m[k] = listed(copy.deepcopy(new))
    elif op == 'del':
        del x[key]
        m[k] = copy.deepcopy(default[k])
    elif op == 'append' and isinstance(m[k], list) and cols[k] != 'Fields':
        x[key].append('more')
        m[k].append('more')
    ctx.event({'del': 'delete', 'read': 'read'}.get(op, 'write'), (cls.__name__, op, key, repr(new)[:200]))

    def see(what, got, want):
        if not same(listed(got), want):
            ctx.fail(f'{what} of a definition in object form differs from its list form', kind=cls.__name__, after=(op, key, new), got=listed(got), expected=want)
    for j in range(n):
        for a in (j, j - n, cols[j]):
            ctx.event('read', (cls.__name__, a))
            see(f'column {a!r}', x[a], m[j])
        see(f'attribute {cols[j]}', getattr(x, cols[j]), m[j])
    ctx.event('unpack')
    see('unpacking', [*x], m)
    if len(x) != n:
        ctx.fail('definition in object form has another length than its list form', kind=cls.__name__, length=len(x))
    s = slice(*(r.choice([None, r.randint(-n - 1, n + 1)]) for _ in range(2)), r.choice([None, None, 1, 2, -1]))
    ctx.event('slice', (cls.__name__, str(s)))
    see(f'slice {s}', x[s], m[s])
    if r.random() < .2:
        ctx.event('refused')
        for a in (n, -n - 1, 'NoColumn'):
            try:
                got = x[a]
            except (IndexError, AttributeError, KeyError):
                continue
            ctx.fail('column that does not exist can be read', kind=cls.__name__, column=a, got=got)
    if r.random() < .2:
        y = cls(*x)
        if y != x or not same(listed(y), m):
            ctx.fail('definition made from the columns of another differs from it', kind=cls.__name__, got=listed(y), expected=m)


def defaults(ctx):
    """Missing columns read as their defaults, which no two definitions share"""
    r = ctx.rng
    for cls, (cols, default) in COLS.items():
        k = r.randint(0, len(cols))
        vals = [r.choice([7, 'x', ['a']]) for _ in range(k)]
        want = vals + copy.deepcopy(default[k:])
        if r.random() < .5:
            x = cls(*copy.deepcopy(vals))
        else:
            names = r.sample(cols, k)
            want = [dict(zip(names, vals)).get(c, copy.deepcopy(d)) for c, d in zip(cols, default)]
            x = cls(**dict(zip(names, copy.deepcopy(vals))))
        ctx.event('defaults', (cls.__name__, repr(want)))
        if not same(listed(x), want):
            ctx.fail('missing columns of a definition are not their defaults', kind=cls.__name__, given=vals, got=listed(x), expected=want)
        for _ in range(3):
            drive(ctx, x, want)
        for c in cols:      # spoil it
            if isinstance(x[c], list):
                x[c].append('spoiled')
        y = cls()
        for c in r.sample(cols, r.randint(0, len(cols))):
            if r.random() < .5:
                y[c] = 'z'
            del y[c]
        if not same(listed(y), default):
            ctx.fail('defaults of a definition depend on earlier definitions', kind=cls.__name__, got=listed(y), expected=default)


def case(ctx, i):
    r = ctx.rng
    if i % 2:
        sc = decorate(r, jcopy(schema(ctx, r.choice([2, 4, 7]))))
    else:
        ctx.event('arbitrary')
        ctx.event('arbitrary')
        sc = {'types': [arbitrary(r) for _ in range(r.randint(0, 5))]}
        if r.random() < .5:
            sc['info'] = {'package': any_text(r), 'roots': [any_text(r)], 'config': {'$MaxString': 5}}
    want = full(copy.deepcopy(sc))
    sc = cut(r, sc) if r.random() < .4 else sc
    before = copy.deepcopy(sc)
    if r.random() < .7:
        obj = object_type_schema(sc)
        back = list_type_schema(obj)
        keep = 'schema'
    else:       # columns may be shared with the list
        obj = {**copy.deepcopy(sc), 'types': object_types(copy.deepcopy(sc['types']))}
        back = {**copy.deepcopy(sc), 'types': list_types(copy.deepcopy(obj['types']))}
        keep = 'types'
    ctx.event('convert', repr(before)[:3000])
    if not same(back, want):
        ctx.fail('schema changes by conversion to object form and back', how=keep, before=before, after=back)
        return
    for t, d in zip(obj['types'], want['types']):
        kinds = {type(t).__name__, *(type(f).__name__ for f in t.Fields)}
        ctx.event('definition')
        if type(t) is not TypeDefinition or any(type(f) is not (EnumFieldDefinition if d[1] == 'Enumerated' else GenFieldDefinition) for f in t.Fields):
            ctx.fail('definition has the wrong class in object form', definition=d, classes=kinds)
            return
    if not same({**obj, 'types': listed(obj['types'])}, want):
        ctx.fail('object form differs from the list form', before=before, after=listed(obj['types']))
        return
    back2 = copy.deepcopy(back)
    now = copy.deepcopy(want['types'])
    for _ in range(r.choice([3, 10, 20])):
        if not obj['types']:
            break
        k = r.randrange(len(now))
        t, m = obj['types'][k], now[k]
        if t.Fields and r.random() < .6:
            j = r.randrange(len(t.Fields))
            drive(ctx, t.Fields[j], m[4][j])
        else:
            drive(ctx, t, m)
    if not same(listed(obj['types']), now):
        ctx.fail('change of one definition in object form changed another', got=listed(obj['types']), expected=now)
        return
    ctx.event('independent')
    if not same(sc, before):
        ctx.fail('source schema changed with its object form', how=keep, before=before, after=sc)
    if not same(back, back2):
        ctx.fail('list form changed with the object form it was made from', how=keep, before=back2, after=back)
    cur = list_type_schema(obj)
    if not same({**obj, 'types': now}, cur):
        ctx.fail('changed definitions are not in the list form', got=cur['types'], expected=now)
        return
    for t in cur['types']:
        t[2] = t[3] = 0
        t[4].clear()
    for x in cur.get('info', {}).values():
        if isinstance(x, (list, dict)):
            x.clear()
    if not same(listed(obj['types']), now) or not same(obj.get('info'), before.get('info')):
        ctx.fail('object form changed with a list form made from it', got=listed(obj['types']), expected=now)
    defaults(ctx)
    ctx.sample(types=[t[0] for t in want['types']], operations=20)
