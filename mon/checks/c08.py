"""C08: removing extensions preserves the meaning of every type"""
import copy
import itertools
import json

import jadn

from ..common import G, M, MODES, call, codec, diff, expect, jcopy, names, same, schema, values
from ..run import reader
from ..model import CORE, FIELDED, opts, split_opts

CASES = {'quick': 1500, 'thorough': 12000}
EXT = ('AnonymousType', 'Multiplicity', 'DerivedEnum', 'MapOfEnum', 'Link')
SUBSETS = [set(c) for k in range(1, 6) for c in itertools.combinations(EXT, k)]
RULE = 'one evaluation = one value judged by the reference model under the original and the unfolded definitions in one mode (verdict and form must agree), or one structural property of an unfolded schema; distinct = distinct (type, subset of extensions, value)'
NEED = {'meaning': 40000, 'core_only': 1000, 'idempotent': 1000, 'subset': 1000, 'removed': 1000, 'decode_meaning': 10000, 'codec_agrees': 5000}
ASSUME = ['the meaning of original and unfolded definitions is that of the reference model mon/model.py, which implements each extension directly']


@reader
def refs(u):
    for t in u['types']:
        o = opts(t[2])
        for k in ('vtype', 'ktype'):
            if k in o:
                yield t[0], o[k].lstrip('#>') if o[k][:1] in '#>' else o[k]
        for k in ('enum', 'pointer'):
            if k in o:
                yield t[0], o[k]
        if t[1] in FIELDED:
            for f in t[4]:
                yield t[0], f[2]
                fo = opts(f[3])
                for k in ('vtype', 'ktype', 'enum', 'pointer'):
                    if k in fo:
                        yield t[0], fo[k].lstrip('#>')


@reader
def structure(ctx, sc, u, ext):
    ts = [t[0] for t in u['types']]
    if len(set(ts)) != len(ts):
        ctx.fail('duplicate type names after unfolding', names=[t for t in ts if ts.count(t) > 1], extensions=ext, definition=sc['types'])
    if lost := [n for n in names(sc) if n not in ts]:
        ctx.fail('type lost by unfolding', lost=lost, extensions=ext, definition=sc['types'])
    base = {t[0]: t[1] for t in sc['types']}
    for t in u['types']:
        if len(t) != 5 or (t[0] in base and t[1] != base[t[0]] and not (base[t[0]] == 'MapOf' and t[1] == 'Map')):
            ctx.fail('unfolding changed the base type', type=t, extensions=ext, definition=sc['types'])
    known = set(ts) | set(CORE)
    for t, x in refs(u):
        if x not in known:
            ctx.fail('reference to an undefined type after unfolding', type=t, reference=x, extensions=ext, definition=sc['types'], unfolded=u['types'])
    if u.get('info') != sc.get('info'):
        ctx.fail('unfolding changed the package information', before=sc.get('info'), after=u.get('info'))


@reader
def core_only(ctx, sc, u):
    ctx.event('core_only', json.dumps(u['types'])[:3000])
    base = {t[0]: t[1] for t in u['types']}
    for t in u['types']:
        o = opts(t[2])
        bad = None
        if 'enum' in o or 'pointer' in o:
            bad = 'derived enumeration'
        if o.get('ktype', 'x')[0] in '#>' or o.get('vtype', 'x')[0] in '#>':
            bad = 'derived enumeration as key or element type'
        if t[1] == 'MapOf' and base.get(o['ktype']) == 'Enumerated':
            bad = 'map with enumerated keys'
        if t[1] in FIELDED:
            for f in t[4]:
                fo, to = split_opts(f[3])
                if to:
                    bad = f'type options in field {f}'
                if fo.get('maxc', 1) != 1 or fo.get('minc', 1) not in (0, 1):
                    bad = f'repeated field {f}'
                if 'key' in fo or 'link' in fo:
                    bad = f'key or link field {f}'
        elif t[1] != 'Enumerated' and t[4]:
            bad = 'fields'
        if bad:
            ctx.fail(f'unfolded schema has a {bad.split(" [")[0]}', type=t, detail=bad, definition=sc['types'])


@reader
def removed(ctx, sc, u, ext):
    """each extension of the subset is gone (within fields only if anonymous types are removed too)"""
    ctx.event('removed', (sorted(ext), json.dumps(u['types'])[:2000]))
    base = {t[0]: t[1] for t in u['types']}
    for t in u['types']:
        o = opts(t[2])
        bad = []
        if ext & {'DerivedEnum', 'MapOfEnum'} and ('enum' in o or 'pointer' in o or o.get('ktype', 'x')[0] in '#>' or o.get('vtype', 'x')[0] in '#>'):
            bad.append('derived enumeration')
        if 'MapOfEnum' in ext and t[1] == 'MapOf' and base.get(o['ktype']) == 'Enumerated':
            bad.append('map with enumerated keys')
        for f in t[4] if t[1] in FIELDED else ():
            fo, to = split_opts(f[3])
            if 'Link' in ext and ('key' in fo or 'link' in fo):
                bad.append('key or link field')
            if 'link' not in fo:
                if 'AnonymousType' in ext and to:
                    bad.append('type option in a field')
                if 'Multiplicity' in ext and fo.get('maxc', 1) != 1:
                    bad.append('repeated field')
        if bad:
            ctx.fail(f'removing extensions leaves a {bad[0]}', extensions=sorted(ext), type=t, detail=bad, definition=sc['types'])


def meaning(ctx, m, m2, t, v, ext, sc, u, modes):
    for md in modes:
        k, e = expect(m.encode, t, v, md)
        try:
            k2, e2 = expect(m2.encode, t, v, md)
        except Exception as x:      # the model cannot make sense of the result
            ctx.fail('unfolded definition has no meaning', type=t, error=repr(x), extensions=ext, definition=sc['types'], unfolded=u['types'])
            return
        if k is None:
            ctx.count['unspecified'] += 1
            continue
        ctx.event('meaning', (t, sorted(ext), repr(v)[:800]))
        if k2 != k:
            ctx.fail(f'unfolded type {"accepts" if k2 == "ok" else "refuses"} a value that the original {"refuses" if k2 == "ok" else "accepts"}', type=t, mode=md, value=v, extensions=sorted(ext),
                     definition=sc['types'], unfolded=u['types'])
        elif k == 'ok':
            if not same(jcopy(e), jcopy(e2)):
                ctx.fail('unfolded type has another serialized form', type=t, mode=md, value=v, original=e, result=e2, extensions=sorted(ext), definition=sc['types'], unfolded=u['types'])
            s = jcopy(e)
            for x in (s, G.mutate(ctx.rng, s)):
                k, d = expect(m.decode, t, x, md)
                k2, d2 = expect(m2.decode, t, x, md)
                if k is not None:
                    ctx.event('decode_meaning')
                    if k != k2 or (k == 'ok' and not same(d, d2)):
                        ctx.fail('unfolded type decodes differently', type=t, mode=md, serialized=x, original=(k, d), result=(k2, d2), extensions=sorted(ext), definition=sc['types'], unfolded=u['types'])


def case(ctx, i):
    r = ctx.rng
    sc = schema(ctx)
    m = M.Model(sc)
    mine = copy.deepcopy(sc)
    u = jadn.transform.unfold_extensions(mine)
    if mine != sc or json.dumps(mine) != json.dumps(sc):
        ctx.fail('unfolding modified its input', before=sc, after=mine)
    structure(ctx, sc, u, EXT)
    core_only(ctx, sc, u)
    u2 = jadn.transform.unfold_extensions(copy.deepcopy(u))
    ctx.event('idempotent', json.dumps(u['types'])[:2000])
    if json.dumps(u2) != json.dumps(u):
        ctx.fail('unfolding an unfolded schema changes it', difference=diff(u['types'], u2['types']), definition=sc['types'])
    m2 = M.Model(u)
    vals = {t: values(ctx, m, t, 3) for t in names(sc)}
    work = [(t, x) for t, vs in vals.items() for v in vs for x in (v, G.mutate(r, v), G.mutate(r, v))]
    for t, v in work:
        meaning(ctx, m, m2, t, v, EXT, sc, u, MODES)
    # the codec of the unfolded schema agrees with that of the original
    j = r.randrange(4)
    c, cu = codec(sc, MODES[j]), codec(u, MODES[j])
    for t, v in r.sample(work, min(20, len(work))):
        a, b = call(c.encode, t, v), call(cu.encode, t, v)
        ctx.event('codec_agrees')
        if a[0] != b[0] or (a[0] == 'ok' and not same(a[1], b[1])):
            ctx.fail('codec of the unfolded schema disagrees with codec of the original', type=t, mode=MODES[j], value=v, original=a, unfolded=b, definition=sc['types'])
    # subsets of extensions
    for ext in r.sample(SUBSETS, 3):
        mine = copy.deepcopy(sc)
        p = jadn.transform.unfold_extensions(mine, set(ext))
        ctx.event('subset', sorted(ext))
        if json.dumps(mine) != json.dumps(sc):
            ctx.fail('unfolding modified its input', before=sc, after=mine, extensions=ext)
        structure(ctx, sc, p, ext)
        removed(ctx, sc, p, ext)
        mp = M.Model(p)
        for t, v in r.sample(work, min(15, len(work))):
            meaning(ctx, m, mp, t, v, ext, sc, p, [r.choice(MODES)])
        full = jadn.transform.unfold_extensions(copy.deepcopy(p))
        structure(ctx, sc, full, ext)
        core_only(ctx, sc, full)
    ctx.sample(types=sc['types'][:3], unfolded=u['types'][len(sc['types']):][:4])
