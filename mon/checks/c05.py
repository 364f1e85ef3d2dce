"""C05: any input to encode/decode gives a value, ValueError or TypeError, promptly, and leaves the codec as it was"""
import collections
import datetime
import decimal
import fractions
import json
import signal
import time
import uuid

from ..edges import edges, lenient
from ..common import G, M, MODES, codec, names, same, schema, values, expect, jcopy
from ..run import Hang

CASES = {'quick': 2000, 'thorough': 16000}
LIMIT = 60
RULE = 'one evaluation = one encode or decode call on an arbitrary input, whose outcome must be a result, ValueError or TypeError within the watchdog; distinct = distinct (operation, base type, class of outcome, shape of input)'
NEED = {'encode': 50000, 'decode': 50000, 'undefined_type': 2000, 'state_probe': 10000, 'deep': 500, 'edge': 50000}
ASSUME = ['hash, comparison and repr methods of the foreign objects themselves do not raise']


class Foreign:
    pass


class StrSub(str):
    pass


class IntSub(int):
    pass


class BytesSub(bytes):
    pass


class Unhash:
    __hash__ = None


NT = collections.namedtuple('NT', 'a b')
TEXTS = ['\ud800', '\x00', '\u202e', '9' * 5000, '-' * 40, '(' * 50, '[' * 100, 'a' * 254, 'a' * 256, '1e999', 'NaN', 'null', '\n', '٣', '１２', '0x10', '1_000', '+1', '-0',
         '2020-01-01T00:00:00', '2020-01-01T00:00:00.123456Z', '9999-12-31T23:59:59-23:59', '0001-01-01T00:00:00+23:59', '2020-W01-1', '20200101T000000Z',
         '2020-01-01 00:00:00Z', '2020-02-30T00:00:00Z', '1.2.3.4/33', '1.2.3.4/-1', '1.2.3.4/', '1.2.3.4/x', '/', '::/129', '::/a', '::1%eth0', '::/0', '1.2.3.4/' + '9' * 5000,
         'x-' + str(uuid.UUID(int=1)), str(uuid.UUID(int=2 ** 128 - 1)), '-' + 'e81415a7-4c8d-45cd-a658-6b51b7a8f45d', 'e81415a7-4c8d-45cd-a658-6b51b7a8f45d', 'g' * 36,
         'A', 'AA', 'AAA', 'AAAA', 'AA==', 'A===', '====', 'AA=A', 'é', 'AAAé', 'ÿÿ', '0', 'f', 'fg', 'FF', 'ff', '0x', 'a@' + 'a.' * 120, 'a' * 64 + '@b.c', '-.' * 100,
         'http://[', 'http://' + 'a' * 240, '%', '%zz', 'a' * 100 + '!', '(a+)+' * 20, '(?P<a>x)(?P<a>y)', '\\', '[', '{', 'x{999999999999}', '(?<=a*)b', 'P', 'PT', 'P1', '24:00:00Z']


def odd(r, d=0):
    """An arbitrary Python value"""
    k = r.random()
    if d < 4 and k < .12:
        return [odd(r, d + 1) for _ in range(r.choice([0, 1, 2, 3, 5]))]
    if d < 4 and k < .24:
        return {oddkey(r): odd(r, d + 1) for _ in range(r.choice([0, 1, 1, 2, 3]))}
    if d < 4 and k < .28:
        return r.choice([tuple, collections.deque])([odd(r, d + 1) for _ in range(r.choice([1, 2, 3]))])
    if k < .45:
        return r.choice(TEXTS)
    if k < .6:
        return r.choice(G.JUNK)
    return r.choice([
        lambda: Foreign(), lambda: Unhash(), lambda: StrSub('name'), lambda: IntSub(1), lambda: BytesSub(b'abcd'), lambda: NT(1, 2), lambda: decimal.Decimal('1.5'),
        lambda: decimal.Decimal(1), lambda: fractions.Fraction(1, 3), lambda: datetime.datetime(2020, 1, 1), lambda: datetime.date(2020, 1, 1), lambda: uuid.UUID(int=5),
        lambda: collections.OrderedDict(a=1), lambda: collections.defaultdict(list), lambda: collections.Counter('ab'), lambda: frozenset([1, 2]), lambda: {'a', 'b'},
        lambda: (x for x in 'ab'), lambda: iter([1]), lambda: range(4), lambda: memoryview(b'abcd'), lambda: bytearray(b'\x01\x02\x03\x04'), lambda: 1e308 * 10, lambda: -1e308 * 10,
        lambda: float('nan'), lambda: 5e-324, lambda: 10 ** 400, lambda: -10 ** 30, lambda: 2 ** 63, lambda: -2 ** 63 - 1, lambda: complex(1, 2), lambda: len, lambda: int,
        lambda: NotImplemented, lambda: ..., lambda: {'a': 1}.keys(), lambda: {'a': 1}.items(), lambda: Exception('x'), lambda: bytes(256), lambda: bytes(300), lambda: 'x' * 20000,
        lambda: [None] * 101, lambda: list(range(300)), lambda: {str(i): i for i in range(300)}, lambda: {i: i for i in range(101)}, lambda: [[]] * 10,
    ])()


def oddkey(r):
    return r.choice(['', 'a', 'name', '1', '0', '-1', '01', ' 1', '1.0', 'é', '\ud800', '9' * 5000, 'x' * 5000, 1, 0, -1, 10 ** 30, 10 ** 5000, 1.0, 1.5, True, False, None, (), (1, 'a'), b'a',
                     b'', frozenset(), float('nan'), Foreign(), StrSub('a'), IntSub(1), *G.FNAMES[:8], *G.ITEMS[:6], '1_0', '٣'])


def poison(r, v):
    """A valid value with odd values or keys put in"""
    paths = []

    def walk(x, p):
        paths.append(p)
        if isinstance(x, dict):
            for k in x:
                walk(x[k], p + [('v', k)])
        elif isinstance(x, list):
            for j in range(len(x)):
                walk(x[j], p + [('v', j)])
    walk(v, [])
    p = r.choice(paths)

    def f(x):
        k = r.random()
        if isinstance(x, dict) and k < .4:
            return {**x, oddkey(r): odd(r, 2)}
        if isinstance(x, dict) and k < .6 and x:
            y = dict(x)
            a = r.choice(list(y))
            y[oddkey(r)] = y.pop(a)
            return y
        if isinstance(x, list) and k < .4:
            return [*x, odd(r, 2)]
        return odd(r)
    return G.replace(v, p, f)


def deep(r, n):
    v = r.choice([None, 1, 'x', {}, []])
    style = r.random()
    for _ in range(n):
        k = r.random() if style < .3 else style
        v = [v] if k < .5 else {r.choice(['a', 'name', 'inner', '1', 1]): v}
    return v


def shape(x, d=0):
    t = type(x).__name__
    if d < 2 and isinstance(x, dict):
        return t + str(sorted({type(k).__name__ for k in x})) + str(sorted({shape(v, d + 1) for v in x.values()})[:3])
    if d < 2 and isinstance(x, (list, tuple)):
        return t + str(sorted({shape(v, d + 1) for v in x})[:3])
    return t


def hung(ctx):
    ctx.fail('a call did not terminate promptly', last=getattr(ctx, 'last', None))


def probe(ctx, c, op, t, x, m, md, sc):
    ctx.last = (op, t, md, x)
    f = c.encode if op == 'encode' else c.decode
    t0 = time.monotonic()
    try:
        f(t, x)
        res = 'ok'
    except (ValueError, TypeError) as e:
        res = type(e).__name__
    except Exception as e:
        if type(e).__name__ == 'RecursionError':
            res = 'recursion'
        else:
            res = 'bad'
        ctx.fail(f'{op} raised {type(e).__name__}', type=t, mode=md, value=x, error=repr(e), definition=sc['types'])
    dt = time.monotonic() - t0
    if dt > 20:
        ctx.fail(f'{op} took {dt:.0f} s', type=t, mode=md, value=x, definition=sc['types'])
    kind = m.types[t][1] if t in m.types else t
    ctx.event(op, (op, kind, res, shape(x)))


def case(ctx, i):
    r = ctx.rng
    sc = schema(ctx)
    m = M.Model(sc)
    ml = lenient(sc)
    cs = [codec(sc, md) for md in MODES]
    before = []
    ts = names(sc) + ['String', 'Binary', 'Integer', 'Number', 'Boolean']
    pools = {}
    for t in ts:
        pools[t] = values(ctx, m, t, 2)
        for v in pools[t]:
            for j, md in enumerate(MODES):
                k, s = expect(m.encode, t, v, md)
                if k == 'ok':
                    k2, d = expect(m.decode, t, jcopy(s), md)
                    before.append((j, t, v, s, d if k2 == 'ok' else None))
    for t in ts:
        for _ in range(14):
            j = r.randrange(4)
            x = odd(r)
            probe(ctx, cs[j], r.choice(['encode', 'decode']), t, x, m, MODES[j], sc)
        for v in pools[t]:
            for _ in range(3):
                j = r.randrange(4)
                probe(ctx, cs[j], 'encode', t, poison(r, v), m, MODES[j], sc)
                k, s = expect(m.encode, t, v, MODES[j])
                if k == 'ok':
                    probe(ctx, cs[j], 'decode', t, poison(r, jcopy(s)), m, MODES[j], sc)
                    probe(ctx, cs[j], 'decode', t, G.mutate(r, jcopy(s)), m, MODES[j], sc)
            for _, x in edges(r, m, m.ref(t), v, 6):
                j = r.randrange(4)
                ctx.count['edge'] += 1
                probe(ctx, cs[j], 'encode', t, x, m, MODES[j], sc)
                try:
                    s = ml.encode(t, x, MODES[j])
                except (M.Reject, M.Unspec, TypeError, ValueError):
                    continue
                probe(ctx, cs[j], 'decode', t, s, m, MODES[j], sc)
        if r.random() < .4:
            j = r.randrange(4)
            ctx.count['deep'] += 1
            probe(ctx, cs[j], r.choice(['encode', 'decode']), t, deep(r, r.choice([5, 30, 60])), m, MODES[j], sc)
    deeprec(ctx, r, sc, m, cs)
    # undefined type names
    for t in ['Undefined', '', 'alpha', ts[0] + 'x', ts[0].lower() + '$', None, 5, ('a',), 'Enumerated$', 'Schema', 'ns:Type', 'Array', 'Record', '#' + ts[0]]:
        if t in ts:
            continue
        j = r.randrange(4)
        for f in (cs[j].encode, cs[j].decode):
            ctx.event('undefined_type', repr(t))
            try:
                f(t, odd(r))
                ctx.fail('undefined type name accepted', type=t)
            except ValueError:
                pass
    # the refused values must not have changed the codecs
    for j, t, v, s, d in before:
        ctx.event('state_probe')
        try:
            e = cs[j].encode(t, v)
            a = cs[j].decode(t, jcopy(e)) if d is not None else None
        except Exception as x:
            ctx.fail('codec refuses a valid value after other values were refused', type=t, mode=MODES[j], value=v, error=repr(x), definition=sc['types'])
            continue
        if not same(jcopy(e), jcopy(s)) or not same(a, d):
            ctx.fail('codec gives another result after other values were refused', type=t, mode=MODES[j], value=v, result=e, expected=s, definition=sc['types'])
    ctx.sample(types=sc['types'][:2], input=poison(r, before[0][2]) if before else None)


def deeprec(ctx, r, sc, m, cs):
    """Values nested as deep as a recursive type allows"""
    rec = {'types': [['Tree', 'Record', [], '', [[1, 'name', 'String', ['[0'], ''], [2, 'kids', 'Tree', ['[0', ']0'], ''], [3, 'map', 'Forest', ['[0'], '']]],
                     ['Forest', 'MapOf', ['+String', '*Wood'], '', []],
                     ['Wood', 'Choice', [], '', [[1, 'tree', 'Tree', [], ''], [2, 'woods', 'Woods', [], ''], [3, 'any', 'AnyW', [], '']]],
                     ['Woods', 'ArrayOf', ['*Wood'], '', []],
                     ['AnyW', 'Choice', ['CO'], '', [[1, 'i', 'Integer', [], ''], [2, 't', 'Tree', [], '']]]]}
    if not hasattr(ctx, 'rec'):
        ctx.rec = [codec(rec, md) for md in MODES]
    n = r.choice([3, 10, 25, 45, 60])
    v = {'name': 'leaf'} if r.random() < .7 else {'name': r.choice([5, None, b''])}
    d = 1
    while d < n:
        k = r.random()
        if k < .4:
            v = {'kids': [v]}
            d += 2
        elif k < .7:
            v = {'map': {'k': {'tree': v}}}
            d += 3
        elif k < .85:
            v = {'map': {'k': {'woods': [{'tree': v}]}}}
            d += 5
        else:
            v = {'map': {'x': {'any': v}}}
            d += 3
    mr = M.Model(rec)
    for j, md in enumerate(MODES):
        probe(ctx, ctx.rec[j], 'encode', 'Tree', v, mr, md, rec)
        k, s = expect(mr.encode, 'Tree', v, md)
        if k == 'ok':
            probe(ctx, ctx.rec[j], 'decode', 'Tree', jcopy(s), mr, md, rec)
            if not same(ctx.rec[j].decode('Tree', jcopy(s)), v):
                ctx.fail('deeply nested value decodes to another value', mode=md, value=v)
        ctx.count['deep'] += 2
