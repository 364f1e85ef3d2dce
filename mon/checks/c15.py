"""C15: dependency analysis reports exactly the references of the schema"""
import copy

import jadn
from jadn import analyze, build_deps, topo_sort

from ..common import jcopy, names, same, schema
from ..run import reader
from ..model import CORE, FIELDED
from ..text import decorate

CASES = {'quick': 12000, 'thorough': 250000}
RULE = 'one evaluation = one dependency list, analysis result or sorted graph compared with own reading of the definitions or own reachability; distinct = distinct (type, references) / graphs'
NEED = {'deps': 50000, 'refs': 38000, 'analysis': 12000, 'undefined': 7000, 'unreferenced': 15000, 'roots': 4000, 'imported': 1000, 'self_reference': 400, 'sort_acyclic': 30000, 'sort_cyclic': 15000,
        'sort_schema': 5000, 'shared': 20000, 'long_chain': 30}
ASSUME = ['graphs have at most 3000 nodes']


@reader
def option_refs(olist):
    out = set()
    for o in olist:
        if o[0] in '*+' and o[1] in '#>':
            out.add(o[2:])
        elif o[0] in '*+' and o[1:] not in CORE or o[0] in '#>':
            out.add(o[1:])
    return out


@reader
def refs(t):
    """Own reading of the types that a type definition refers to"""
    out = option_refs(t[2])
    if t[1] in FIELDED:
        for f in t[4]:
            if f[2] not in CORE:
                out.add(f[2])
            out |= option_refs(f[3])
    return out


def reach(deps, roots):
    seen, todo = set(), list(roots)
    while todo:
        n = todo.pop()
        if n not in seen:
            seen.add(n)
            todo += deps.get(n, [])
    return seen


def rewire(r, sc):
    """Undefined, dropped, repeated, cyclic and self references"""
    ts = sc['types']
    ns = names(sc)
    if r.random() < .5 and len(ts) > 2:
        for _ in range(r.randint(1, 3)):
            if len(ts) > 1:
                ts.pop(r.randrange(len(ts)))
    if r.random() < .6:
        pool = ns + ['Nowhere', 'Gone-1', 'p:Other', 'Not_Here']
        for t in ts:
            for f in t[4] if t[1] in FIELDED else []:
                if r.random() < .15:
                    f[2], f[3] = r.choice(pool), [x for x in f[3] if x[0] in '[]KL<']
                elif r.random() < .1:
                    f[2], f[3] = r.choice([('ArrayOf', ['*' + r.choice(pool)]), ('MapOf', ['+' + r.choice(pool), '*' + r.choice(pool)]), ('Enumerated', ['#' + r.choice(pool)]),
                                           ('Enumerated', ['=', '>' + r.choice(pool)]), ('MapOf', ['+#' + r.choice(pool), '*' + r.choice(pool)]), ('ArrayOf', ['*>' + r.choice(pool)])])
            if t[1] in ('ArrayOf', 'MapOf') and r.random() < .2:
                t[2] = [x[0] + r.choice(['', '', '#', '>']) + r.choice(pool) if x[0] in '*+' else x for x in t[2]]
    if r.random() < .5:
        sc.setdefault('info', {'package': 'http://e/f'})
        sc['info'].pop('roots', None)
        sc['info'].pop('exports', None)
        sc['info'][r.choice(['roots', 'exports'])] = r.sample(ns + ['Nowhere', 'Absent'], min(r.randint(0, 4), len(ns)))
    if r.random() < .3:
        r.shuffle(ts)
    return sc


def graph(r):
    """A dependency graph: (deps, roots, acyclic)"""
    if r.random() < .002:       # long chains of dependencies, in any order
        n = r.choice([990, 1500, 3000])
        ns = [f'T{i}' for i in range(n)]
        deps = {a: [b] for a, b in zip(ns, ns[1:])}
        deps[ns[-1]] = [ns[r.randrange(n)]] if r.random() < .3 else []
        for _ in range(r.choice([0, 0, 20])):
            a, b = sorted(r.sample(range(n), 2))
            deps[ns[a]].insert(r.randint(0, 1), ns[b])
        order = list(ns)
        r.choice([lambda: None, order.reverse, lambda: r.shuffle(order)])()
        return {k: deps[k] for k in order}, r.sample(ns[:r.choice([1, 3, n])], 1)
    n = r.choice([1, 2, 3, 4, 5, 6, 8, 12, 20, 60, 300]) if r.random() < .15 else r.choice([2, 3, 4, 5, 6, 7, 9])
    ns = [f'T{i}' for i in range(n)]
    r.shuffle(ns)
    p = r.choice([.1, .25, .5, .9]) if n < 30 else r.choice([1.5, 4]) / n
    acyclic = r.random() < .6
    deps = {}
    for i, a in enumerate(ns):
        d = [b for j, b in enumerate(ns) if (j > i if acyclic else True) and r.random() < p]
        r.shuffle(d)
        if d and r.random() < .2:
            d.append(r.choice(d))
        if r.random() < .05:
            d.append('Undefined')
        deps[a] = d
    if not acyclic and r.random() < .3:     # one long cycle
        for a, b in zip(ns, ns[1:] + ns[:1]):
            deps[a].append(b)
    order = list(ns)
    r.shuffle(order)
    deps = {k: deps[k] for k in order}
    roots = r.sample(ns, r.randint(1, min(3, n)))
    if r.random() < .2:
        roots = [a for a in ns if not any(a in d for d in deps.values())] or roots
    if r.random() < .05:
        roots.append(roots[0])
    if r.random() < .05:
        roots.append('NotDefined')
    return deps, roots


def is_acyclic(deps, nodes):
    state = {}

    for n0 in nodes:
        stack = [(n0, iter(deps.get(n0, [])))] if n0 not in state else []
        state.setdefault(n0, 1)
        while stack:
            n, it = stack[-1]
            for m in it:
                if state.get(m) == 1:
                    return False
                if m not in state:
                    state[m] = 1
                    stack.append((m, iter(deps.get(m, []))))
                    break
            else:
                state[n] = 2
                stack.pop()
    return True


def sorted_graph(ctx, deps, roots, how):
    d, ro = copy.deepcopy(deps), list(roots)
    got = topo_sort(d, ro)
    want = reach(deps, roots)
    acyclic = is_acyclic(deps, want)
    ctx.event('sort_acyclic' if acyclic else 'sort_cyclic', (deps, roots))
    ctx.event(how)
    ctx.event('long_chain', n=len(want) > 500)
    if not same(d, deps) or ro != roots:
        ctx.fail('topological sort modified its input', deps=deps, roots=roots)
    if sorted(got) != sorted(want):
        ctx.fail('topological sort does not list every reachable type once', deps=deps, roots=roots, got=got, missing=sorted(want - set(got)), extra=sorted(set(got) - want))
        return
    if acyclic:
        at = {n: i for i, n in enumerate(got)}
        for a in got:
            for b in deps.get(a, []):
                if at[a] >= at[b]:
                    ctx.fail('topological sort lists a type before one that depends on it', deps=deps, roots=roots, got=got, pair=(a, b))
                    return
        count = {}
        for a in want:
            for b in set(deps.get(a, [])):
                count[b] = count.get(b, 0) + 1
        ctx.event('shared', n=sum(1 for v in count.values() if v > 1))


def case(ctx, i):
    r = ctx.rng
    for _ in range(5):
        deps, roots = graph(r)
        sorted_graph(ctx, deps, roots, 'sort_graph')
    sc = schema(ctx)
    if i % 4:
        sc = rewire(r, decorate(r, jcopy(sc)))
    a = copy.deepcopy(sc)
    got = build_deps(a)
    want = {t[0]: refs(t) for t in sc['types']}
    if list(got) != list(want):
        ctx.fail('dependencies are not listed for every type in order', got=list(got), types=list(want))
        return
    for t in sc['types']:
        w, g = want[t[0]], got[t[0]]
        ctx.event('deps', (t[0], sorted(w)))
        ctx.event('refs', n=len(w))
        ctx.event('imported', n=sum(':' in x for x in w))
        ctx.event('self_reference', n=t[0] in w)
        if set(g) != w:
            ctx.fail('dependencies of a type are not the types it refers to', type=t, missing=sorted(w - set(g)), extra=sorted(set(g) - w))
    info = sc.get('info', {})
    roots = info.get('roots', info.get('exports', []))
    an = analyze(a)
    ctx.event('analysis')
    allrefs = set().union(*want.values()) | set(roots)
    undef, unref = allrefs - set(want), set(want) - allrefs
    ctx.event('undefined', n=len(undef))
    ctx.event('unreferenced', n=len(unref))
    ctx.event('roots', n=len(roots))
    for k, w in (('undefined', undef), ('unreferenced', unref)):
        if sorted(an[k]) != sorted(w):
            ctx.fail(f'analysis does not report the {k} names', missing=sorted(w - set(an[k])), extra=sorted(set(an[k]) - w), reported=an[k], roots=roots, schema=sc)
    if not same(a, sc):
        ctx.fail('analysis modified the schema', before=sc, after=a)
    ro = roots or sorted(unref) or list(want)[:1]
    if ro:
        sorted_graph(ctx, got, list(ro), 'sort_schema')
    ctx.sample(deps={k: sorted(v) for k, v in want.items()}, undefined=sorted(undef), unreferenced=sorted(unref))


assert jadn
