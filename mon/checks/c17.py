"""C17: resolving imports yields a complete self-contained schema"""
import contextlib
import copy
import io
import json
import os

import jadn
from jadn.convert import jidl_dumps
from jadn.transform import resolve_imports

from ..common import G, M, call, canon, codec, jcopy, names, same, schema, tmpdir, values
from ..run import reader
from ..model import FIELDED, CORE
from .c15 import reach, refs

CASES = {'quick': 2500, 'thorough': 50000}
RULE = 'one evaluation = one type definition of a resolved schema matched with its original, or one value encoded and decoded with the resolved and the original types; distinct = distinct families of packages'
NEED = {'resolve': 2400, 'packages': 6000, 'definition': 6000, 'imported': 2500, 'left_out': 5000, 'same_name': 600, 'prefix_reuse': 500, 'mutual': 500, 'transitive': 300, 'value': 15000, 'order': 2400, 'unqualified': 600, 'jidl': 1500, 'broken_type': 500, 'broken_prefix': 350, 'undefined_root': 150, 'long_chain': 90}
ASSUME = ['every imported package is in the directory, once', 'all packages have the same configuration', 'type names are short enough to be qualified']
POOL = ['Alpha', 'Beta', 'Common', 'Item', 'Data-1', 'Type', 'X', 'Node', 'Rec', 'List-Of', 'Opt', 'Value', 'Key', 'Zed', 'Pair', 'Any']
PREFIX = ['a', 'a2', 'b', 'ns', 'n', 'x1', 'Ab', 'ls', 'p', 'nsx']


@reader
def subst(t, f):
    """Type definition with every type reference replaced"""
    def so(olist):
        out = []
        for o in olist:
            if o[0] in '*+' and o[1] in '#>':
                o = o[:2] + f(o[2:])
            elif o[0] in '*+' and o[1:] not in CORE or o[0] in '#>':
                o = o[0] + f(o[1:])
            out.append(o)
        return out
    t = copy.deepcopy(t)
    t[2] = so(t[2])
    if t[1] in FIELDED:
        for fd in t[4]:
            if fd[2] not in CORE:
                fd[2] = f(fd[2])
            fd[3] = so(fd[3])
    return t


@reader
def skeleton(t):
    """(canonical definition without names, references in order)"""
    t = subst(t, lambda n: '@' + n)
    found = []

    def strip(x):
        if isinstance(x, str) and x[:1] == '@' or isinstance(x, str) and x[1:2] == '@' and x[0] in '#>':
            found.append(x.lstrip('#>')[1:])
            return x[:x.index('@')] + '@'
        if isinstance(x, list):
            return [strip(y) for y in x]
        if isinstance(x, dict):
            return {k: strip(x[k]) for k in sorted(x)}
        return x

    c = canon({'types': [t]})['types'][0]
    c[3] = [c[3]]       # descriptions do not look like references
    fields = c[4]
    desc = [c[3], [fd[-1] for fd in fields]]
    body = [c[1], c[2], [list(fd[:-1]) for fd in fields]]
    if t[1] == 'Enumerated':
        desc.append([fd[1] for fd in fields])
        body[2] = [[fd[0]] for fd in fields]
    return [strip(body), desc], found


class Family:
    def __init__(self, r, big):
        self.big = big
        ns = names(big)
        deps = {t[0]: refs(t) for t in big['types']}
        k = r.choice([1, 2, 2, 3, 3, 4, 5])
        self.uris = [f'http://example.org/{c}' if r.random() < .7 else f'urn:pkg:{c}:1' for c in r.sample(['alpha', 'b', 'common', 'd/e', 'v1.0', 'q', 'zeta', 'm', 'alpha/x', 'alpha2', 'b/alpha', 'alpha/', 'Alpha', 'd', 'alp'], 8)]
        local = r.random()
        self.of = {n: r.randrange(k) for n in ns}
        for n in ns:        # some locality
            if deps[n] and r.random() < local:
                for d in deps[n]:
                    if r.random() < .4:
                        self.of[d] = self.of[n]
        wide = sorted(ns, key=lambda n: -len(reach(deps, [n])))[:2]
        if r.random() < .85 or 0 not in self.of.values():
            self.of[wide[0]] = 0
        if r.random() < .6:     # references mostly leave the package
            for n in reach(deps, [wide[0]]):
                for d in deps[n]:
                    if self.of[d] == self.of[n] and d != wide[0] and r.random() < .7:
                        self.of[d] = r.randrange(k)
        self.unique = r.random() < .3
        self.local, used, every = {}, {}, set()
        pool = POOL[:r.choice([4, 8, 16])]
        for n in ns:
            u = used.setdefault(self.of[n], set())
            c = [x for x in pool if x not in u and not (self.unique and x in every)] or [x for x in (f'{y}{i}' for i in range(20) for y in POOL) if x not in u and x not in every]
            again = [x for x in c if x in every]
            self.local[n] = r.choice(again) if again and r.random() < .7 else r.choice(c[:6])
            u.add(self.local[n])
            every.add(self.local[n])
        config = big.get('info', {}).get('config')
        self.packages, self.prefixes = [], []
        for p in range(k):
            need = {self.of[d] for n in ns if self.of[n] == p for d in deps[n]} - {p}
            if r.random() < .1:
                need.add(p)
            if r.random() < .4:
                need |= set(r.sample(range(k + 2), r.randint(1, 2))) & set(range(k))
            pf = r.sample(PREFIX[:r.choice([10, 8, 5 + len(need)])], len(need))
            pairs = [[x, self.uris[q]] for x, q in zip(pf, sorted(need))]
            if pairs and r.random() < .15:
                x = next((x for x in PREFIX if x not in pf), None)
                if x:
                    pairs.append([x, r.choice(pairs)[1]])
            r.shuffle(pairs)
            self.prefixes.append(pairs)
            info = {'package': self.uris[p]}
            if r.random() < .3:
                info['title'] = 'T // "x"'
            if config:
                info['config'] = config
            if pairs and (len({x for x, _ in pairs}) == len(pairs)):
                info['namespaces'] = dict(map(tuple, pairs)) if r.random() < .5 else copy.deepcopy(pairs)
            if p and r.random() < .5 or not p:
                mine = [self.local[n] for n in ns if self.of[n] == p]
                if mine:
                    rs = r.sample(mine, r.randint(1, min(3, len(mine))))
                    if not p and self.of[wide[0]] == 0 and self.local[wide[0]] not in rs and r.random() < .9:
                        rs.append(self.local[wide[0]])
                    info[r.choice(['roots', 'exports'])] = rs

            def loc(d, p=p, pairs=pairs):
                q = self.of[d]
                c = [x for x, u in pairs if u == self.uris[q]]
                if q == p and not (c and r.random() < .3):
                    return self.local[d]
                return f'{r.choice(c)}:{self.local[d]}'

            types = [[self.local[t[0]], *subst(t, loc)[1:]] for t in big['types'] if self.of[t[0]] == p]
            self.packages.append({'info': info, 'types': types})
        self.root = self.packages[0]
        i = self.root['info']
        back = {self.local[n]: n for n in ns if self.of[n] == 0}
        self.roots = [back[x] for x in i.get('roots', i.get('exports', []))]
        self.want = reach(deps, self.roots)
        self.deps = deps
        self.extra = []
        for j in range(r.choice([0, 0, 1, 2])):     # packages that nothing needs
            self.extra.append({'info': {'package': self.uris[k + j], 'namespaces': {r.choice(PREFIX): r.choice(self.uris[:k])}, 'roots': ['Alpha']},
                               'types': [[n, 'String', [], 'unused', []] for n in r.sample(POOL, 3) if n != 'Alpha'] + [['Alpha', 'Integer', [], '', []]]})


class Listing:
    """Directory listings in another order"""

    def __init__(self, r):
        self.r, self.ld, self.sd = r, os.listdir, os.scandir

    def __enter__(self):
        def listdir(*a):
            x = sorted(self.ld(*a))
            self.r.shuffle(x)
            return x

        def scandir(*a):
            with self.sd(*a) as it:
                x = sorted(it, key=lambda e: e.name)
            self.r.shuffle(x)
            return contextlib.closing(_Iter(x))
        os.listdir, os.scandir = listdir, scandir

    def __exit__(self, *_):
        os.listdir, os.scandir = self.ld, self.sd


class _Iter:
    def __init__(self, x):
        self.it = iter(x)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def close(self):
        pass


def unqualified(r, fam):
    """Prefixes that may be left out: the packages they are ever assigned to share no needed type name"""
    taken, used, out = {0}, {fam.local[n] for n in fam.want if fam.of[n] == 0}, []
    mine = [{fam.local[n] for n in fam.want if fam.of[n] == p} for p in range(len(fam.packages))]
    pool = fam.prefixes + [p['info']['namespaces'].items() for p in fam.extra]
    for x in r.sample(PREFIX, len(PREFIX)):
        new = {p for pairs in pool for y, u in pairs if y == x for p in range(len(mine)) if fam.uris[p] == u} - taken
        ns = [n for p in new for n in mine[p]]
        if len(set(ns)) == len(ns) and not used & set(ns) and r.random() < .7:
            taken |= new
            used |= set(ns)
            out.append(x)
    return (tuple(out),) if out else ()


def broken(ctx, fam, args):
    """A reachable definition or a needed prefix is missing: the import has to be refused"""
    r = ctx.rng
    packages = jcopy(fam.packages)
    kind = r.choice(['type', 'prefix'])
    if kind == 'type':
        c = sorted(n for n in fam.want if fam.of[n] or n not in fam.roots)
        if not c:
            return
        n = r.choice(c)
        p = packages[fam.of[n]]
        p['types'] = [t for t in p['types'] if t[0] != fam.local[n]]
        what = (fam.uris[fam.of[n]], fam.local[n])
        for k in ('roots', 'exports'):
            if fam.local[n] in p['info'].get(k, []):
                p['info'][k] = [x for x in p['info'][k] if x != fam.local[n]] or [t[0] for t in p['types']][:1] or ['None']
        ctx.event('undefined_root', n=fam.of[n] == 0)
    else:
        c = sorted({fam.of[a] for a in fam.want for b in fam.deps[a] if fam.of[a] != fam.of[b]})
        if not c:
            return
        k = r.choice(c)
        p = packages[k]
        q = fam.uris[r.choice(sorted({fam.of[b] for a in fam.want if fam.of[a] == k for b in fam.deps[a]} - {k}))]
        pairs = fam.prefixes[k]
        left = [list(x) for x in pairs if x[1] != q]
        p['info'].pop('namespaces', None)
        if left or r.random() < .5:
            p['info']['namespaces'] = left if r.random() < .5 else dict(left)
        what = (fam.uris[k], q)
    ctx.event('broken_' + kind, (repr(packages)[:4000]))
    root = packages[0]
    with tmpdir() as d:
        for j, p in enumerate(packages[1:] + fam.extra):
            with open(os.path.join(d, f'p{j}.jadn'), 'w', encoding='utf8') as f:
                json.dump(p, f)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                res = resolve_imports(root, d, *args)
        except Exception:
            return
    ctx.fail('import with an unresolvable reference is accepted', missing=(kind, what), packages=packages, resolved=res, no_nsid=args)


def long_chain(ctx):
    """Reference chains that run through many types and back and forth between packages"""
    r = ctx.rng
    k, n = r.choice([1, 2, 2, 3]), r.choice([400, 700, 960])
    uri = [f'urn:p:{p}' for p in range(k)]
    run = r.choice([1, 1, 2, 30])
    of = [(j // run) % k for j in range(n)]
    packages = [{'info': {'package': u, 'namespaces': {f'n{q}': uri[q] for q in range(k) if q != p}}, 'types': []} for p, u in enumerate(uri)]
    packages[0]['info']['roots'] = ['T0']
    if k == 1:
        del packages[0]['info']['namespaces']
    for j in range(n):
        m = (j + 1 if j + 1 < n else r.choice([None, 0, r.randrange(n)]))
        ref = 'Integer' if m is None else f'T{m}' if of[m] == of[j] else f'n{of[m]}:T{m}'
        packages[of[j]]['types'].append(r.choice([[f'T{j}', 'Record', [], '', [[1, 'v', ref, ['[0'], '']]], [f'T{j}', 'ArrayOf', ['*' + ref], '', []], [f'T{j}', 'MapOf', ['+String', '*' + ref], '', []]]))
    for p in packages:
        p['types'].append(['Unused', 'String', [], '', []])
        r.shuffle(p['types'])
    with tmpdir() as d:
        for j, p in enumerate(packages):
            with open(os.path.join(d, f'p{j}.jadn'), 'w', encoding='utf8') as f:
                json.dump(p, f)
        ctx.event('long_chain', (k, n, run, of[-1]))
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                res = resolve_imports(jcopy(packages[0]), d)
        except RecursionError as e:
            ctx.fail('imports with long chains of references cannot be resolved', error=str(e), packages=k, types=n, run=run)
            return
    got = {t[0]: t for t in res['types']}
    at, left = 'T0', set(got)
    for j in range(n):
        if at not in left or at.split('$')[0] != f'T{j}':
            ctx.fail('resolved schema does not include a chain of references', packages=k, types=n, run=run, at=at, position=j)
            return
        left.remove(at)
        at = next((x for x in refs(got[at])), None)
    if left:
        ctx.fail('resolved schema includes types that are not reachable from the roots', unneeded=sorted(left)[:5])
    jadn.check(res)


def case(ctx, i):
    r = ctx.rng
    if i % 25 == 7:
        long_chain(ctx)
    big = jcopy(schema(ctx, r.choice([3, 5, 7, 10, 14, 18])))
    fam = Family(r, big)
    root = jcopy(fam.root)
    ks = len(fam.packages)
    cross = {(fam.of[a], fam.of[b]) for a in fam.want for b in fam.deps[a] if fam.of[a] != fam.of[b]}
    ctx.event('packages', n=ks)
    ctx.event('mutual', n=any((b, a) in cross for a, b in cross))
    ctx.event('transitive', n=any(a and b for a, b in cross))
    inc = [fam.local[n] for n in fam.want]
    ctx.event('same_name', n=len(set(inc)) < len(inc))
    pre = {}
    for pairs in fam.prefixes:
        for x, u in pairs:
            pre.setdefault(x, set()).add(u)
    ctx.event('prefix_reuse', n=any(len(u) > 1 for u in pre.values()))
    with tmpdir() as d:
        fn = r.sample(['a', 'b', 'c', 'd', 'e', 'm', 'root', 'x', 'z'], ks + len(fam.extra))
        for j, p in enumerate(fam.packages + fam.extra):
            if j == 0 and r.random() < .5:
                continue        # the root schema is not in the directory
            if r.random() < .4 and not (p is fam.root):
                ctx.event('jidl')
                with open(os.path.join(d, fn[j] + '.jidl'), 'w', encoding='utf8') as f:
                    f.write(jidl_dumps(jcopy(p)))
            else:
                with open(os.path.join(d, fn[j] + '.jadn'), 'w', encoding='utf8') as f:
                    json.dump(p, f)
        if r.random() < .3:
            with open(os.path.join(d, 'README.md'), 'w') as f:
                f.write('not a schema')
        args = ()
        if fam.unique and r.random() < .5:      # types may be left unqualified as their names differ
            args = (tuple(r.sample(PREFIX, 3)),)
        elif not fam.unique and r.random() < .5:
            args = unqualified(r, fam)
        if args:
            ctx.event('unqualified', (args, repr(fam.packages)[:4000]))
        show = {'packages': fam.packages, 'extra': fam.extra, 'no_nsid': args}
        ctx.event('resolve', (repr(fam.packages)[:4000]))
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                res = resolve_imports(root, d, *args)
        except Exception as e:
            ctx.fail('imports of a valid family of packages cannot be resolved', error=f'{type(e).__name__}: {str(e)[:500]}', **show)
            return
        if not same(root, fam.root):
            ctx.fail('resolving imports modified the root schema', before=fam.root, after=root)
            root = jcopy(fam.root)
        keep = copy.deepcopy(res)
        for _ in range(2):
            with Listing(r), contextlib.redirect_stdout(io.StringIO()):
                again = resolve_imports(jcopy(fam.root), d, *args)
            ctx.event('order')
            if not same(again, keep):
                ctx.fail('resolved schema depends on the order of the directory listing', first=keep, second=again, **show)
                return
    broken(ctx, fam, args)
    if res.get('info') != {k: v for k, v in fam.root['info'].items() if k != 'namespaces'}:
        ctx.fail('information of the resolved schema is not that of the root schema without namespaces', resolved=res.get('info'), root=fam.root['info'])
    # match types from the roots on
    got = {t[0]: t for t in res['types']}
    if len(got) != len(res['types']):
        ctx.fail('resolved schema defines a type name twice', names=[t[0] for t in res['types']], **show)
        return
    orig = {t[0]: t for t in big['types']}
    to, back = {}, {}
    todo = [(n, fam.local[n]) for n in fam.roots]
    while todo:
        a, b = todo.pop()
        if a in to or b in back:
            if to.get(a) != b or back.get(b) != a:
                ctx.fail('reference leads to the wrong type', type=(fam.uris[fam.of[a]], fam.local[a]), name=b, also=(to.get(a), back.get(b)), resolved=res, **show)
                return
            continue
        if b not in got:
            ctx.fail('resolved schema refers to a type it does not include', type=(fam.uris[fam.of[a]], fam.local[a]), name=b, resolved=res, **show)
            return
        to[a], back[b] = b, a
        ctx.event('definition')
        ctx.event('imported', n=fam.of[a] != 0)
        if fam.of[a] == 0 and b != fam.local[a]:
            ctx.fail('type of the root package was renamed', type=fam.local[a], name=b, resolved=res, **show)
        sa, ra = skeleton(orig[a])
        sb, rb = skeleton(got[b])
        if sa != sb:
            ctx.fail('definition of a resolved type is not its own definition', type=(fam.uris[fam.of[a]], fam.local[a]), name=b, original=sa, resolved=sb, **show)
            return
        todo += zip(ra, rb)
    ctx.event('left_out', n=len(orig) - len(to))
    if extra := sorted(set(got) - set(back)):
        ctx.fail('resolved schema includes types that are not reachable from the roots', unneeded=extra, **show)
    assert set(to) == fam.want
    try:
        jadn.check(jcopy(res))
    except Exception as e:
        ctx.fail('resolved schema is refused by the checker', error=f'{type(e).__name__}: {str(e)[:500]}', resolved=res, **show)
        return
    mode = r.choice(M.MODES)
    m, c1, c2 = M.Model(big), codec(big, mode), codec(res, mode)
    for a in fam.roots:
        for v in values(ctx, m, a, 3):
            for x in (v, G.mutate(r, v)):
                ctx.event('value')
                p, q = call(c1.encode, a, x), call(c2.encode, fam.local[a], x)
                if p[0] != q[0] or (p[0] == 'ok' and not same(p[1], q[1])):
                    ctx.fail('value encodes differently with the resolved schema', type=fam.local[a], value=x, original=p, resolved=q, schema=res, **show)
                elif p[0] == 'ok':
                    p, q = call(c1.decode, a, p[1]), call(c2.decode, fam.local[a], q[1])
                    if p[0] != q[0] or (p[0] == 'ok' and not same(p[1], q[1])):
                        ctx.fail('value decodes differently with the resolved schema', type=fam.local[a], value=x, original=p, resolved=q, schema=res, **show)
    ctx.sample(packages=fam.packages[:2], resolved=names(res))
