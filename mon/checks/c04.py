"""C04: the serialized form follows the mode and the type definition"""
import json

from ..common import G, M, MODES, call, codec, expect, jcopy, names, same, schema, values

CASES = {'quick': 2500, 'thorough': 20000}
RULE = 'one evaluation = one encoded value compared, as JSON, with the form the reference model derives from the definitions and the mode; distinct = distinct (type, mode, JSON text)'
NEED = {'forms': 60000, 'shape_rules': 60000}
ASSUME = ['reference model mon/model.py and formats in mon/fmt.py written from the JADN documentation']


def shape(ctx, n, v, s, md, t):
    """Rules of the statement checked directly on API value and serialized form of a top-level value"""
    k = n.kind
    rec, byname = md
    ctx.count['shape_rules'] += 1
    bad = None
    if k == 'Record' or k == 'Map':
        if k == 'Record' and not rec:
            if type(s) is not list or len(s) > len(n.flds) or (s and s[-1] is None):
                bad = 'concise record must be an array without trailing nulls'
            else:
                got = {f.name for f, x in zip(n.flds, s) if x is not None}
                if got != set(v):
                    bad = f'array has values for {got}'
        else:
            want = {f.name if byname and not n.idopt else f.id for f in n.flds if f.name in v}
            if type(s) is not dict or set(s) != want:
                bad = f'keys should be {want}'
    elif k == 'Enumerated':
        if (type(s) is str) != (byname and not n.idopt):
            bad = 'item should be ' + ('name' if byname and not n.idopt else 'id')
    elif k == 'Choice' and 'combine' not in n.o:
        if type(s) is not dict or len(s) != 1 or (type(next(iter(s))) is str) != (byname and not n.idopt):
            bad = 'tag should be ' + ('name' if byname and not n.idopt else 'id')
    elif k == 'ArrayOf':
        if type(s) is not list or len(s) != len(v):
            bad = 'list length'
    elif k == 'Array' and 'format' not in n.o:
        if type(s) is not list or (s and s[-1] is None):
            bad = 'array must be positional without trailing nulls'
    elif k == 'Binary':
        if type(s) is not str:
            bad = 'binary should be text'
    elif k in ('String', 'Boolean', 'Number') or (k == 'Integer' and n.o.get('format') != 'datetime-ms'):
        if not same(s, v):
            bad = 'value should be unchanged'
    if bad:
        ctx.fail(f'serialized form: {bad}', type=t, mode=md, value=v, serialized=s)


def case(ctx, i):
    sc = schema(ctx)
    m = M.Model(sc)
    cs = [codec(sc, md) for md in MODES]
    for t in names(sc):
        for v in values(ctx, m, t, 7):
            for md, c in zip(MODES, cs):
                k, e = expect(m.encode, t, v, md)
                if k != 'ok':
                    ctx.count['unspecified'] += 1
                    continue
                r, s = call(c.encode, t, v)
                if r != 'ok':
                    ctx.fail('encode refuses a value the schema allows', type=t, mode=md, value=v, error=s, definition=sc['types'])
                    continue
                try:
                    text = json.dumps(s)
                    js = json.loads(text)
                except (TypeError, ValueError) as x:
                    ctx.fail('serialized form is not JSON', type=t, mode=md, value=v, serialized=s, error=x)
                    continue
                ctx.event('forms', (t, md, text))
                if not same(js, jcopy(e)):
                    ctx.fail('serialized form differs from the documented one', type=t, mode=md, value=v, serialized=s, expected=e, definition=sc['types'])
                shape(ctx, m.ref(t), v, s, md, t)
                ctx.sample(type=t, mode=md, value=v, serialized=text)
