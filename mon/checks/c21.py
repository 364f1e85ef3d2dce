"""C21: flattening and nesting of messages"""
import copy

from jadn.utils import dlist, flatten, fluff

from ..common import M, call, codec, jcopy, names, same, schema, values

CASES = {'quick': 6000, 'thorough': 120000}
RULE = 'one evaluation = one message flattened, nested and turned into lists again; distinct = distinct (message, separator)'
NEED = {'round_trip': 20000, 'leaf': 150000, 'codec_message': 1500, 'namespace': 3000, 'deep_list': 3000, 'shared_prefix': 8000, 'numeric_dict': 1000, 'separator': 15000}
ASSUME = ['messages are dictionaries with non-empty string keys; empty dictionaries and lists have no leaf and are left out']
SEPS = ['.', '.', '/', '|', '#', '~>', '^', ' ', '\x00', '_', '0.', '$&', '::', '..', 'a b', 'ab', '=:', '//']
KEYS = ['a', 'b', 'cc', 'action', 'target', 'args', 'Ä', '0', '1', '2', '10', '01', '-1', 'a b', 'x.y', 'x/y', 'b=', 'ba', '=c', '名', 'A', 'id', 'key', 'path', "'", '\\', 'null', 'True']
LEAF = [0, 1, -1, 1.5, True, False, None, '', 'x', 'a.b', '0', '.', 'ns:x', '名', b'\x00', 10 ** 30, 'x' * 300]


def message(r, depth, top=False):
    if not top and (depth == 0 or r.random() < .35):
        return r.choice(LEAF)
    if not top and r.random() < .4:
        return [message(r, depth - 1) for _ in range(r.choice([1, 1, 2, 3, 4, 12]))]
    return {k: message(r, depth - 1) for k in r.sample(KEYS, r.randint(1, 4))}


def spine(r, depth):
    """A deep message"""
    if depth == 0:
        return message(r, 2, True)
    if r.random() < .3:
        x = [message(r, 1) for _ in range(r.randint(0, 3))]
        x.insert(r.randint(0, len(x)), spine(r, depth - 1))
        return x
    return {k: message(r, 1) if n else spine(r, depth - 1) for n, k in enumerate(r.sample(KEYS, r.randint(1, 4)))}


def leaves(x, path=()):
    if isinstance(x, dict):
        return [y for k, v in x.items() for y in leaves(v, path + (k.split(':')[1] if ':' in k else k,))]
    if isinstance(x, list):
        return [y for n, v in enumerate(x) for y in leaves(v, path + (str(n),))]
    return [(path, x)]


def keys(x):
    if isinstance(x, dict):
        return set(x).union(*map(keys, x.values())) if x else set()
    return set().union(*map(keys, x)) if isinstance(x, list) else set()


def clean(x):
    """The message without empty containers, a dictionary with the keys 0..n-1 as a list"""
    if isinstance(x, dict):
        y = {k: clean(v) for k, v in x.items()}
        y = {k: v for k, v in y.items() if v != {} and v != []}
        return [y[str(k)] for k in range(len(y))] if y and set(y) == {str(k) for k in range(len(y))} else y
    return [clean(v) for v in x] if isinstance(x, list) else x


def empty(x):
    return x in ({}, []) if isinstance(x, (dict, list)) and not x else any(map(empty, x.values() if isinstance(x, dict) else x if isinstance(x, list) else ()))


def one(ctx, x, kind):
    r = ctx.rng
    ks = keys(x)
    seps = [s for s in SEPS if not any(s in k for k in ks) and not (kind != 'plain' and any(c in '0123456789' for c in s))]
    seps = [s for s in seps if not any(c.isdigit() for c in s) or not any(isinstance(v, list) for v in walk(x))]
    seps = [s for s in seps if len(s) == 1 or all(s.join(p).split(s) == list(p) for p, v in leaves(x))]     # a separator must not occur across the ends of keys either
    if not seps or '' in ks:
        return
    s = r.choice(seps)
    before = copy.deepcopy(x)
    flat = flatten(x) if s == '.' and r.random() < .7 else flatten(x, sep=s)
    if not same(x, before):
        ctx.fail('flatten changed its argument', before=before, after=x)
    want = leaves(x)
    ctx.event('round_trip', (repr(x)[:2000], s))
    ctx.event('separator' if s != '.' else 'default_separator')
    for p, v in want:
        ctx.event('leaf')
    if any(isinstance(v, list) and any(isinstance(w, (list, dict)) for w in v) for v in walk(x)):
        ctx.event('deep_list')
    if len({p[:1] for p, v in want}) < len(want):
        ctx.event('shared_prefix')
    if not same(flat, {s.join(p): v for p, v in want}) or list(flat) != [s.join(p) for p, v in want]:
        ctx.fail('flattened message is not the leaves under their paths', message=x, separator=s, flat=flat, expected=[(s.join(p), v) for p, v in want])
        return
    fb = copy.deepcopy(flat)
    items = list(flat.items())
    if r.random() < .3:
        r.shuffle(items)
    nest = fluff(dict(items)) if s == '.' and r.random() < .7 else fluff(dict(items), s)
    if not same(flat, fb):
        ctx.fail('fluff changed its argument', before=fb, after=flat)
    nb = copy.deepcopy(nest)
    back = dlist(nest)
    if not same(nest, nb):
        ctx.fail('dlist changed its argument', before=nb, after=nest)
    exp = clean(strip(x))
    if not unordered(back, exp):
        ctx.fail('message is not the same after flattening and nesting', message=x, separator=s, flat=flat, nested=nb, back=back)
    if not unordered(flatten(nest, sep=s), flat) or not unordered(flatten(back, sep=s) if isinstance(back, dict) else flat, flat):
        ctx.fail('nested message flattens differently', flat=flat, nested=nest, separator=s)


def strip(x):
    if isinstance(x, dict):
        return {k.split(':')[1] if ':' in k else k: strip(v) for k, v in x.items()}
    return [strip(v) for v in x] if isinstance(x, list) else x


def walk(x):
    yield x
    for v in x.values() if isinstance(x, dict) else x if isinstance(x, list) else ():
        yield from walk(v)


def unordered(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(unordered(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(unordered, a, b))
    return same(a, b)


def spaced(r, x):
    """Namespaces before some keys"""
    if isinstance(x, dict):
        return {(r.choice(['ns:', 'x-acme:', 'a:']) if r.random() < .4 else '') + k: spaced(r, v) for k, v in x.items()}
    return [spaced(r, v) for v in x] if isinstance(x, list) else x


def case(ctx, i):
    r = ctx.rng
    for _ in range(5):
        x = message(r, r.choice([1, 2, 3, 4, 5]), True) if r.random() < .9 else {'top': spine(r, r.randint(4, 30))}
        if any(isinstance(v, dict) and clean(v) != v for v in walk(x)):
            ctx.event('numeric_dict')
        if r.random() < .3:
            y = spaced(r, x)
            if any(':' in k for k in keys(y)):
                ctx.event('namespace')
                x = y
        one(ctx, x, 'plain' if not any(isinstance(v, list) for v in walk(x)) else 'list')
    # numeric keys become lists exactly when they are 0..n-1
    n = r.randint(1, 12)
    ns = [str(k) for k in range(n)]
    odd = r.random() < .4
    if odd:
        ns[r.randrange(n)] = r.choice(['x', '-1', '01', str(n + 1), str(n)])
    d = {'a': {k: r.choice(LEAF) for k in r.sample(ns, n)}, 'b': 1}
    ctx.event('dlist', (tuple(d['a'])))
    before = copy.deepcopy(d)
    got = dlist(d)
    want = before if set(before['a']) != {str(k) for k in range(len(before['a']))} else {'a': [before['a'][str(k)] for k in range(len(before['a']))], 'b': 1}
    if not same(got, want) or not same(d, before):
        ctx.fail('dlist does not turn numeric keys into lists', given=before, got=got, expected=want, after=d)
    if i % 4 == 0:
        sc = schema(ctx)
        m = M.Model(sc)
        c = codec(sc, (True, True))
        for t in names(sc):
            for v in values(ctx, m, t, 1):
                got, y = call(c.encode, t, v)
                if got != 'ok':
                    continue        # see C02
                for y in walk(jcopy(y)):
                    if isinstance(y, dict) and y and not empty(y) and not any(':' in k for k in keys(y)):
                        ctx.event('codec_message')
                        one(ctx, y, 'list')
                        break
