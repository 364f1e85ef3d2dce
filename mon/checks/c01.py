"""C01: encode -> JSON text -> decode gives back the value"""
import json

from ..common import G, M, MODES, call, codec, expect, metaschema, mixed, names, same, schema, values, jcopy

CASES = {'quick': 1500, 'thorough': 12000}
RULE = 'one evaluation = one value encoded, written as JSON text, read and decoded in one mode and compared with the value; distinct = distinct (type definitions, type, mode, serialized text) with a non-trivial value'
NEED = {'roundtrip': 20000, 'mixed lists': 1000, 'metaschema_roundtrip': 300}
ASSUME = ['values for which the reference model finds more than one union alternative with different forms are skipped (outside the guarantee)']


def trip(ctx, c, tname, v, mode, kind, **info):
    r, s = call(c.encode, tname, v)
    if r != 'ok':
        ctx.fail('a value the schema allows is refused by encode', type=tname, mode=mode, value=v, error=s, **info)
        return
    try:
        text = json.dumps(s)
    except (TypeError, ValueError) as e:
        ctx.fail('serialized value is not JSON', type=tname, mode=mode, value=v, serialized=s, error=e, **info)
        return
    r, d = call(c.decode, tname, json.loads(text))
    if r != 'ok':
        ctx.fail('decode refuses what encode produced', type=tname, mode=mode, value=v, text=text, error=d, **info)
    elif not same(d, v):
        ctx.fail('decoded value differs from the encoded value', type=tname, mode=mode, value=v, text=text, decoded=d, **info)
    ctx.event(kind, (tname, mode, text) if len(text) > 4 else None)
    ctx.sample(type=tname, mode=mode, value=v, text=text)


def case(ctx, i):
    sc, vs = mixed(ctx.rng) if i % 10 == 3 else (schema(ctx), None)
    m = M.Model(sc)
    cs = [codec(sc, md) for md in MODES]
    for t in names(sc) if vs is None else ['L']:
        for v in values(ctx, m, t, 6) if vs is None else vs:
            for md, c in zip(MODES, cs):
                k, s = expect(m.encode, t, v, md)
                if k != 'ok':
                    ctx.count['unspecified' if k is None else 'generator_gave_up'] += 1
                    continue
                ctx.count['mixed lists'] += vs is not None
                k, d = expect(m.decode, t, jcopy(s), md)
                if k != 'ok':       # only a serialized form that fits several alternatives of a union
                    ctx.count['unspecified'] += 1
                    continue
                trip(ctx, c, t, v, md, 'roundtrip', definition=sc['types'])
    if i % 4 == 0:      # A schema is itself a value of the metaschema
        import jadn
        v = jadn.check(jcopy(sc))
        mode = MODES[i // 4 % 4]
        trip(ctx, codec(metaschema(), mode, sc), 'Schema', v, mode, 'metaschema_roundtrip')
