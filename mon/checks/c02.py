"""C02: encode accepts exactly the values the schema allows"""
from ..edges import edges
from ..common import G, M, MODES, call, codec, expect, mixed, names, schema, values

CASES = {'quick': 2500, 'thorough': 20000}
RULE = 'one evaluation = one encode call whose verdict (accepted / refused) is compared with the reference model in one mode; distinct = distinct (type, value) pairs that were judged in all modes'
NEED = {'mixed lists': 500, 'accepted': 30000, 'refused': 30000}
ASSUME = ['reference model mon/model.py written from the JADN documentation; values it calls unspecified are not judged',
          'trailing newline before $ of a pattern, NaN and infinity, integral floats for Integer, null inside containers are unspecified']


def judge(ctx, m, cs, t, v, sc):
    ver, key = [], False
    for md, c in zip(MODES, cs):
        k, _ = expect(m.encode, t, v, md)
        if k is None:
            ctx.count['unspecified'] += 1
            continue
        r, s = call(c.encode, t, v)
        ctx.event('accepted' if k == 'ok' else 'refused', None if key else (t, repr(v)[:2000], str(sc['types'])[:200]))
        key = True
        if r != k:
            ctx.fail('encode accepts a value the schema does not allow' if r == 'ok' else 'encode refuses a value the schema allows',
                     type=t, mode=md, value=v, result=s, definition=[x for x in sc['types']])
        ver.append(r)
    if len(set(ver)) > 1 and len(ver) == 4:
        ctx.fail('verdict of encode depends on the mode', type=t, value=v, verdicts=ver, definition=sc['types'])


def case(ctx, i):
    r = ctx.rng
    if i % 20 == 3:
        sc, vs = mixed(r)
        m = M.Model(sc)
        cs = [codec(sc, md) for md in MODES]
        for v in vs:
            judge(ctx, m, cs, 'L', v, sc)
            ctx.count['mixed lists'] += 1
    sc = schema(ctx)
    m = M.Model(sc)
    cs = [codec(sc, md) for md in MODES]
    ts = names(sc)
    pool = []
    for t in ts:
        for v in values(ctx, m, t, 5):
            pool.append(v)
            judge(ctx, m, cs, t, v, sc)
            for kind, x in edges(r, m, m.ref(t), v, 5):
                judge(ctx, m, cs, t, x, sc)
                ctx.count['edge:' + kind] += 1
            for _ in range(3):
                x = G.mutate(r, v)
                if r.random() < .15:
                    x = G.mutate(r, x)
                judge(ctx, m, cs, t, x, sc)
        for v in r.sample(G.JUNK[:35], 3):
            judge(ctx, m, cs, t, v, sc)
    for t in ts:        # values of other types
        for v in r.sample(pool, min(2, len(pool))):
            judge(ctx, m, cs, t, v, sc)
    ctx.sample(types=sc['types'][:3], value=pool[-1] if pool else None)
