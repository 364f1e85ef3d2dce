"""C03: decode accepts exactly the serialized values the schema allows and gives the exact API value"""
from ..edges import edges, lenient
from ..common import G, M, MODES, call, codec, expect, jcopy, mixed, names, same, schema, values

CASES = {'quick': 2200, 'thorough': 20000}
RULE = 'one evaluation = one decode call whose outcome (exact value or refusal) is compared with the reference model; distinct = distinct (type, mode, serialized value) judged'
NEED = {'mixed lists': 500, 'accepted': 20000, 'refused': 20000, 'other_mode_refused': 1000}
ASSUME = ['reference model mon/model.py written from the JADN documentation; serialized values it calls unspecified are not judged']


def judge(ctx, m, c, md, t, s, sc, kind=''):
    k, e = expect(m.decode, t, s, md)
    if k is None:
        ctx.count['unspecified'] += 1
        return
    r, d = call(c.decode, t, s)
    ctx.event(kind + ('accepted' if k == 'ok' else 'refused'), (t, md, repr(s)[:2000], str(sc['types'])[:200]))
    if r != k:
        ctx.fail('decode accepts what the schema does not allow' if r == 'ok' else 'decode refuses what the schema allows',
                 type=t, mode=md, serialized=s, result=d, definition=sc['types'])
    elif r == 'ok' and not same(d, e):
        ctx.fail('decode gives a different value', type=t, mode=md, serialized=s, result=d, expected=e, definition=sc['types'])


def case(ctx, i):
    r = ctx.rng
    if i % 20 == 3:
        sc, vs = mixed(r)
        m = M.Model(sc)
        for md in MODES:
            c = codec(sc, md)
            for v in vs:
                if md[0] and md[1] or not r.randrange(3):
                    judge(ctx, m, c, md, 'L', v, sc)
                k, s = expect(lenient(sc).encode, 'L', v, md)
                if k == 'ok':
                    judge(ctx, m, c, md, 'L', jcopy(s), sc)
                ctx.count['mixed lists'] += 1
    sc = schema(ctx)
    m = M.Model(sc)
    ml = lenient(sc)
    cs = [codec(sc, md) for md in MODES]
    ts = names(sc)
    pool = []
    for t in ts:
        for v in values(ctx, m, t, 4):
            ser = []
            for md in MODES:
                k, s = expect(m.encode, t, v, md)
                ser.append(s if k == 'ok' else None)
            for j, (md, c) in enumerate(zip(MODES, cs)):
                if ser[j] is None:
                    continue
                s = jcopy(ser[j])
                pool.append(s)
                judge(ctx, m, c, md, t, s, sc)
                if r.random() < .3:
                    judge(ctx, m, c, md, t, ser[j], sc)      # in memory form, keys not yet text
                for _ in range(2):
                    x = G.mutate(r, s)
                    if r.random() < .15:
                        x = G.mutate(r, x)
                    judge(ctx, m, c, md, t, x, sc)
                for kind, x in edges(r, m, m.ref(t), v, 3):
                    try:
                        x = jcopy(ml.encode(t, x, md))
                    except (M.Reject, M.Unspec, TypeError, ValueError):
                        continue
                    judge(ctx, m, c, md, t, x, sc)
                    ctx.count['edge:' + kind] += 1
                    if type(x) is list and m.ref(t).kind == 'Record':
                        x = x + [None] * (len(m.ref(t).flds) - len(x))
                        for e in ([], [None], [None, None], [0], [None, 'x']):
                            judge(ctx, m, c, md, t, x + e, sc)
                o = r.choice([x for x in range(4) if x != j])
                if ser[o] is not None and ser[o] != ser[j]:
                    judge(ctx, m, c, md, t, jcopy(ser[o]), sc, 'other_mode_')
        for v in r.sample(G.JUNK[:35], 3):
            j = r.randrange(4)
            judge(ctx, m, cs[j], MODES[j], t, v, sc)
    for t in ts:
        for v in r.sample(pool, min(2, len(pool))):
            j = r.randrange(4)
            judge(ctx, m, cs[j], MODES[j], t, v, sc)
    ctx.sample(types=sc['types'][:3], serialized=pool[-1] if pool else None)
