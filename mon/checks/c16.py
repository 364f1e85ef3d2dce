"""C16: stripping comments changes descriptions only"""
import copy

import jadn
from jadn.transform import strip_comments

from ..common import G, M, call, codec, jcopy, names, same, schema, values
from ..text import decorate, items
from .c15 import refs

CASES = {'quick': 8000, 'thorough': 150000}
RULE = 'one evaluation = one definition of a stripped schema compared with the original, or one value encoded and decoded with both schemas; distinct = distinct (schema, width)'
NEED = {'strip': 30000, 'definition': 300000, 'cut': 60000, 'fits': 60000, 'width_0': 8000, 'width_1': 1000, 'width_2': 1000, 'checked': 7500, 'value': 8000}
ASSUME = ['type definitions have their description column']


def want(s, w):
    if len(s) <= w:
        return s
    return s[:w - 2] + '..' if w > 1 else s[:w]


def case(ctx, i):
    r = ctx.rng
    sc = items(r, decorate(r, schema(ctx), i % 2 == 0), lambda s, idt: False)
    sc = jcopy(sc)
    if i % 7 == 0:      # the column of fields may be absent
        sc['types'] = [t[:4] if not t[4] else t for t in sc['types']]
    orig = copy.deepcopy(sc)
    lens = sorted({len(f[-1]) for t in sc['types'] for f in t[4:] and t[4]} | {len(t[3]) for t in sc['types']})
    outs = []
    for k in range(4):
        w = [None, r.choice([1, 2, 3]), r.choice(lens) + r.choice([-1, 0, 1]) if lens else 5, r.choice([0, 4, 5, 10, 20, 60, 1000])][k]
        w = w if w is None else max(w, 0)
        got = strip_comments(sc) if w is None else strip_comments(sc, w) if r.random() < .5 else strip_comments(sc, width=w)
        w = w or 0
        ctx.event('strip', (repr(orig['types'])[:3000], w))
        ctx.event(f'width_{w}' if w < 3 else 'width_more')
        if not same(sc, orig):
            ctx.fail('stripping comments modified its input', before=orig, after=sc, width=w)
            return
        exp = copy.deepcopy(orig)
        for t in exp['types']:
            t[3] = want(t[3], w)
            for f in t[4:] and t[4]:
                f[-1] = want(f[-1], w)
        for a, b in zip(exp['types'], orig['types']):
            for x, y in [(a[3], b[3])] + [(f[-1], g[-1]) for f, g in zip(a[4:] and a[4], b[4:] and b[4])]:
                ctx.event('definition')
                ctx.event('cut' if x != y else 'fits')
        if not same(got, exp):
            bad = [(g, e, o) for g, e, o in zip(got.get('types', []), exp['types'], orig['types']) if not same(g, e)]
            ctx.fail('stripped schema is not the schema with truncated descriptions', width=w, got_expected_original=bad[:1], info=(got.get('info'), exp.get('info')), count=(len(got.get('types', [])), len(exp['types'])))
            return
        for t, u in zip(got['types'], sc['types']):
            if t is u or (t[4:] and t[4] is u[4]) or t[2] is u[2]:
                ctx.fail('stripped schema shares definitions with its input', type=t)
        outs.append(got)
    got = r.choice(outs)
    full = jcopy(got)
    try:
        jadn.check(full)
        ctx.event('checked')
    except Exception as e:
        ctx.fail('stripped schema is refused by the checker', error=f'{type(e).__name__}: {str(e)[:400]}', stripped=got, schema=orig)
    base = jcopy(orig)
    for x in (base, full):
        x['types'] = [t + [[]] if len(t) == 4 else t for t in x['types']]
    if any(':' in x for t in base['types'] for x in refs(t)):
        return      # imported types have no definition here
    m = M.Model(base)
    mode = r.choice(M.MODES)
    c1, c2 = codec(base, mode), codec(full, mode)
    for t in r.sample(names(base), min(3, len(base['types']))):
        for v in values(ctx, m, t, 1):
            for x in (v, G.mutate(r, v)):
                a, b = call(c1.encode, t, x), call(c2.encode, t, x)
                ctx.event('value')
                if a[0] != b[0] or (a[0] == 'ok' and not same(a[1], b[1])):
                    ctx.fail('value encodes differently with the stripped schema', type=t, value=x, before=a, after=b, schema=orig)
                elif a[0] == 'ok':
                    a, b = call(c1.decode, t, a[1]), call(c2.decode, t, b[1])
                    if a[0] != b[0] or (a[0] == 'ok' and not same(a[1], b[1])):
                        ctx.fail('value decodes differently with the stripped schema', type=t, value=x, before=a, after=b, schema=orig)
    ctx.sample(stripped=got['types'][:1], original=orig['types'][:1])
