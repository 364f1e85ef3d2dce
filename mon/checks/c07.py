"""C07: format keywords accept, reject and convert as documented"""
import json
import re

from ..common import G, M, MODES, call, codec, expect, jcopy, same
from .. import fmt as F

CASES = {'quick': 1200, 'thorough': 12000}
RULE = 'one evaluation = one value or text judged against the independent definition of a format keyword (verdict, exact text, exact value), as named type, field and element; distinct = distinct (format, operation, input)'
FORMATS = F.STRING_FORMATS + ['i8', 'i16', 'i32', 'i64', 'datetime-ms', 'f16', 'f32', 'f64', 'b', 'x', 'X', 'ipv4-addr', 'ipv6-addr', 'eui', 'uuid', 'ipv4-net', 'ipv6-net', 'tag-uuid']
NEED = {'long hostname': 700, **{f'format {f}': 300 for f in FORMATS}, 'datetime': 50000}
ASSUME = ['formats date-time, time, duration, idn-hostname, uri-template, json-pointer and relative-json-pointer are only judged on well formed examples, because the installed jsonschema has no checker for them',
          'year 1 to 9999, lenient base64, non-canonical text forms the documentation does not mention are unspecified']
BASE = {**{f: 'String' for f in F.STRING_FORMATS}, **{f: 'Integer' for f in ('i8', 'i16', 'i32', 'i64', 'datetime-ms')}, **{f: 'Number' for f in ('f16', 'f32', 'f64')},
        **{f: 'Binary' for f in ('b', 'x', 'X', 'ipv4-addr', 'ipv6-addr', 'eui', 'uuid')}, **{f: 'Array' for f in ('ipv4-net', 'ipv6-net', 'tag-uuid')}}
ARR = {'ipv4-net': [[1, 'a', 'Binary', [], ''], [2, 'n', 'Integer', [], '']], 'tag-uuid': [[1, 'tag', 'String', [], ''], [2, 'id', 'Binary', [], '']]}
ARR['ipv6-net'] = ARR['ipv4-net']


def tn(f):
    return 'F-' + ('Up' if f == 'X' else f)


def build():
    types = [[tn(f), BASE[f], ['/' + f], '', ARR.get(f, [])] for f in FORMATS]
    for f in FORMATS:
        if BASE[f] != 'Array':
            types.append([tn(f) + '-Rec', 'Record', [], '', [[1, 'one', BASE[f], ['/' + f], ''], [2, 'many', BASE[f], ['/' + f, '[0', ']0'], '']]])
        else:
            types.append([tn(f) + '-Rec', 'Record', [], '', [[1, 'one', tn(f), [], ''], [2, 'many', tn(f), ['[0', ']0'], '']]])
        types.append([tn(f) + '-List', 'ArrayOf', ['*' + tn(f)], '', []])
        types.append([tn(f) + '-Opt', 'Choice', [], '', [[1, 'x', tn(f), [], ''], [2, 'y', 'Boolean', [], '']]])
        if BASE[f] in ('String', 'Binary'):
            types.append([tn(f) + '-Map', 'MapOf', ['+' + tn(f), '*Integer'], '', []])
    return {'types': types}


SC = build()
CS = None


def setup():
    global CS
    if CS is None:
        import jadn
        jadn.check(jcopy(SC))
        CS = (M.Model(SC), [codec(SC, md) for md in MODES])
    return CS


def wrap(r, f, v):
    """Type name and value that contain the formatted value"""
    k = r.random()
    t = tn(f)
    if k < .55:
        return t, v
    if k < .7:
        return t + '-Rec', {'one': v}
    if k < .8:
        return t + '-List', [v]
    if k < .9:
        return t + '-Opt', {'x': v}
    return t + '-List', [v]


def swrap(r, f, s, md):
    t = tn(f)
    k = r.random()
    if k < .55:
        return t, s
    if k < .7:
        return t + '-Rec', ({'one' if md[1] else '1': s} if md[0] else [s])
    if k < .85:
        return t + '-List', [s]
    return t + '-Opt', {'x' if md[1] else '1': s}


def enc(ctx, f, v):
    m, cs = setup()
    r = ctx.rng
    j = r.randrange(4)
    t, x = wrap(r, f, v)
    k, e = expect(m.encode, t, x, MODES[j])
    if k is None:
        ctx.count['unspecified'] += 1
        return
    a, s = call(cs[j].encode, t, x)
    ctx.event(f'format {f}', ('enc', repr(v)[:300]))
    if a != k:
        ctx.fail(f'encode {"accepts a value that is not" if a == "ok" else "refuses a valid"} {f}', type=t, value=x, result=s, mode=MODES[j])
    elif a == 'ok' and not same(jcopy(s), jcopy(e)):
        ctx.fail(f'encode gives a wrong text for {f}', type=t, value=x, result=s, expected=e, mode=MODES[j])
    if a == 'ok' == k:
        d = call(cs[j].decode, t, jcopy(s))
        if d[0] != 'ok' or not same(d[1], x):
            if expect(m.decode, t, jcopy(s), MODES[j])[0] is not None:
                ctx.fail(f'{f} value is lost by encode and decode', type=t, value=x, text=s, decoded=d[1], mode=MODES[j])


def dec(ctx, f, s):
    m, cs = setup()
    r = ctx.rng
    j = r.randrange(4)
    t, x = swrap(r, f, s, MODES[j])
    k, e = expect(m.decode, t, x, MODES[j])
    if k is None:
        ctx.count['unspecified'] += 1
        return
    a, d = call(cs[j].decode, t, x)
    ctx.event(f'format {f}', ('dec', repr(s)[:300]))
    if a != k:
        ctx.fail(f'decode {"accepts text that is not" if a == "ok" else "refuses a valid"} {f}', type=t, text=x, result=d, mode=MODES[j])
    elif a == 'ok' and not same(d, e):
        ctx.fail(f'decode gives a wrong value for {f}', type=t, text=x, result=d, expected=e, mode=MODES[j])


def ms(ctx, v):
    m, cs = setup()
    c = cs[v % 4]
    s = c.encode('F-datetime-ms', v)
    ctx.event('datetime', v)
    if s != F.ms_text(v):
        ctx.fail('wrong date-time text', ms=v, text=s, expected=F.ms_text(v))
    d = c.decode('F-datetime-ms', s)
    if not same(d, v):
        ctx.fail('millisecond date-time is not converted back exactly', ms=v, text=s, decoded=d)


def vary(r, s):
    """Near misses of a text"""
    k = r.randrange(14)
    i = r.randrange(len(s) + 1)
    return [lambda: s[:i] + s[i + 1:], lambda: s[:i] + r.choice('0aAzZ.-:/_ %@+\n\tgG=') + s[i:], lambda: s[:i] + r.choice('0aA9F.-:/_ %@') + s[i + 1:], lambda: s.upper(), lambda: s.lower(),
            lambda: ' ' + s, lambda: s + ' ', lambda: s + '\n', lambda: s + s, lambda: s[::-1], lambda: s + '.', lambda: s[1:], lambda: s[:-1],
            lambda: ''.join(chr(ord(c) + 0xFEE0) if c.isalnum() and c.isascii() and r.random() < .2 else c for c in s)][k]()


HOSTCH = 'abcXYZ019-'


def randhost(r):
    return '.'.join(''.join(r.choice(HOSTCH) for _ in range(r.choice([1, 2, 3, 5, 62, 63, 64]))) for _ in range(r.choice([1, 2, 3, 4, 5])))


def longhost(r):
    """Valid labels with a total length near the limit"""
    n, out = r.randint(250, 257), []
    while n > 0:
        k = min(n, r.choice([1, 10, 49, 62, 63]))
        out.append(''.join(r.choice('abzAZ09') for _ in range(k)))
        n -= k + 1
    return '.'.join(out) + '.' * r.choice([0, 0, 0, 1])


def case(ctx, i):
    r = ctx.rng
    g = G.ValueGen(r, setup()[0])
    for f in FORMATS:
        b = BASE[f]
        if b == 'String':
            pool = F.GOOD[f] + F.BAD.get(f, [])
            for s in r.sample(pool, min(len(pool), 6)):
                enc(ctx, f, s)
                dec(ctx, f, s)
            if f == 'hostname':
                s = randhost(r)
                enc(ctx, f, s), dec(ctx, f, s), enc(ctx, f, vary(r, s))
                s = longhost(r)
                ctx.event('long hostname', (len(s), s[-1] == '.'))
                enc(ctx, f, s), dec(ctx, f, s)
            if f == 'email':
                s = ''.join(r.choice('abzAZ09.!#$%&*+-/=?^_`{|}~ ') for _ in range(r.randint(1, 8))) + '@' + randhost(r)[:100]
                enc(ctx, f, s), dec(ctx, f, s)
                enc(ctx, f, vary(r, r.choice(F.GOOD[f])))
                s = r.choice(['user', 'a.b', 'X+1']) + '@[' + '.'.join(str(r.choice([0, 1, 9, 10, 99, 100, 199, 200, 249, 250, 255, 255, r.randrange(256), *([256, 260, 300, 999, 1000] if k == 3 else [])])) for k in r.sample(range(5), 4)) + ']'
                enc(ctx, f, s), dec(ctx, f, s)
                s = '"' + ''.join(r.choice('abzAZ09.!#-') for _ in range(r.randint(1, 8))) + '"@' + randhost(r)[:60]
                enc(ctx, f, s), dec(ctx, f, s)
            for x in r.sample([5, None, b'a@b.co', 1.5, True, ['a'], {'a': 1}], 2):
                enc(ctx, f, x), dec(ctx, f, x)
        elif b == 'Integer' and f[0] == 'i':
            w = int(f[1:])
            for x in {2 ** (w - 1) - 1, 2 ** (w - 1), -2 ** (w - 1), -2 ** (w - 1) - 1, 2 ** w - 1, 2 ** w, 0, -1, r.randint(-2 ** w, 2 ** w), r.randint(-2 ** (w - 1), 2 ** (w - 1) - 1),
                      r.choice([2 ** 7, 2 ** 15, 2 ** 31, 2 ** 63]), -r.choice([2 ** 7, 2 ** 15, 2 ** 31, 2 ** 63])}:
                enc(ctx, f, x), dec(ctx, f, x)
            for x in r.sample([True, None, '1', 1.5, b'1', [1]], 2):
                enc(ctx, f, x), dec(ctx, f, x)
        elif b == 'Number':
            for x in (r.uniform(-1e6, 1e6), r.choice([0.0, 1, -1, 65504.0, 65505.0, 1e308, 5e-324, 3.4e38, 1e39, 0.1, 2 ** 70])):
                enc(ctx, f, x), dec(ctx, f, x)
            for x in r.sample([True, None, '1', b'1', [1.0]], 2):
                enc(ctx, f, x), dec(ctx, f, x)
        elif f == 'datetime-ms':
            datetime(ctx, r)
        elif b == 'Binary':
            n = r.choice(G.FIXED_BIN.get(f, (0, 1, 2, 3, 4, 5, 10, 20, 254, 255)))
            good = g.v_Binary(M.Node(g.m, 'Binary', {'format': f}), 0) if f in G.FIXED_BIN else r.randbytes(n)
            if r.random() < .2 and f != 'uuid':
                good = r.choice([bytes(len(good)), b'\xff' * len(good), b'\xfb\xef\xbe\xff\xfe' [:len(good)].ljust(len(good), b'\xbf')])
            if f == 'ipv6-addr':
                bb = bytearray(good)
                for _ in range(r.randint(0, 6)):
                    p = r.randrange(0, 16, 2)
                    bb[p:p + 2 * r.randint(1, 3)] = bytes(2 * r.randint(1, 3))
                good = bytes(bb[:16]).ljust(16, b'\0')
                if r.random() < .1:
                    good = r.choice([bytes(10) + b'\xff\xff' + r.randbytes(4), bytes(12) + r.randbytes(4), bytes(15) + b'\1'])
            enc(ctx, f, good)
            for k in {len(good) + 1, max(len(good) - 1, 0), 0, r.randint(0, 20), 256, 5, 7, 6, 8, 4, 16, 17}:
                enc(ctx, f, r.randbytes(k))
            if f == 'uuid':
                x = bytearray(good)
                x[6] = r.randrange(256)
                x[8] = r.randrange(256)
                enc(ctx, f, bytes(x))
            k, s = expect(g.m.encode, tn(f), good, MODES[0])
            if k == 'ok':
                dec(ctx, f, s)
                for _ in range(6):
                    dec(ctx, f, vary(r, s))
                dec(ctx, f, s.replace('-', '').replace(':', '')), dec(ctx, f, s + '/24')
            if f == 'ipv6-addr':
                dec(ctx, f, ':'.join(f'{good[k] * 256 + good[k + 1]:x}' for k in range(0, 16, 2)))
                dec(ctx, f, ':'.join(f'{good[k] * 256 + good[k + 1]:04X}' for k in range(0, 16, 2)))
            for x in r.sample(['', 'x', 5, None, True, b'ab', 'é', '%%%%', 'Zm9v', [1], {'a': 1}, '1.2.3.4', '::', 'FF', 'ff', 'f'], 6):
                dec(ctx, f, x)
            for x in r.sample(['abcd', 5, None, True, [1], {'a': 1}, 'ab' * 8], 2):
                enc(ctx, f, x)
        else:
            if f == 'tag-uuid':
                v = [r.choice(['action', 'a', 'x-y', '', 'tag with space', 'é', '-', 'a-b-c', 'e81415a7-4c8d']), g.v_Binary(M.Node(g.m, 'Binary', {'format': 'uuid'}), 0)]
                bad = [[v[0]], [v[1], v[0]], [v[0], v[1], None, 1], [v[0], v[1][:-1]], [v[0], v[1] + b'0'], [v[0], ''], [5, v[1]], [], 'x', {}, None, [None, v[1]]]
            else:
                w = 32 if f == 'ipv4-net' else 128
                v = [r.randbytes(w // 8), r.choice([0, 1, 8, 24, w - 1, w, r.randint(0, w)])]
                bad = [[v[0], w + 1], [v[0], -1], [v[0]], [v[0], str(v[1])], [v[0][:-1], v[1]], [v[0] + b'0', v[1]], [v[1], v[0]], [v[0], None], [v[0], True], [v[0], v[1], 1], [], '1.2.3.4/8',
                       [str(v[0]), v[1]], [r.randbytes(16 if w == 32 else 4), 8], None, {}]
            enc(ctx, f, v)
            for x in r.sample(bad, 5):
                enc(ctx, f, x)
            k, s = expect(g.m.encode, tn(f), v, MODES[0])
            if k == 'ok':
                dec(ctx, f, s)
                for _ in range(6):
                    dec(ctx, f, vary(r, s))
                if f != 'tag-uuid':
                    a = s.split('/')[0]
                    for p in ('', '/', f'/{w}', f'/{w + 1}', '/0', '/-1', '/x', '/8/8', '/+8', '/ 8', '/8 ', '/1_0', '/\u0663', '/-0', '/1e1', '/8\n', f'/{r.randint(0, 300)}', '/1.5'):
                        dec(ctx, f, a + p)
            for x in r.sample(['', 5, None, v[0] if f == 'tag-uuid' else [1, 2], True, [s], {'a': 1}], 3):
                dec(ctx, f, x)
        if r.random() < .3 and b in ('String', 'Binary'):
            mapkeys(ctx, r, f, g)
    ctx.sample(case=i)


def mapkeys(ctx, r, f, g):
    """Formatted values as keys of a map"""
    m, cs = setup()
    try:
        v = g.top(tn(f) + '-Map')
    except G.NoValue:
        return
    j = r.randrange(4)
    k, e = expect(m.encode, tn(f) + '-Map', v, MODES[j])
    if k != 'ok':
        return
    a, s = call(cs[j].encode, tn(f) + '-Map', v)
    ctx.event(f'format {f}', ('map', repr(v)[:300]))
    if a != 'ok' or not same(jcopy(s), jcopy(e)):
        ctx.fail(f'{f} keys of a map are encoded wrongly', value=v, result=s, expected=e)
    a, d = call(cs[j].decode, tn(f) + '-Map', jcopy(e))
    if a != 'ok' or not same(d, v):
        ctx.fail(f'{f} keys of a map are decoded wrongly', text=e, result=d, expected=v)


def datetime(ctx, r):
    for x in (F.MS_MIN, F.MS_MAX, F.MS_MIN - 1, F.MS_MAX + 1, 0, -1, 10 ** 17, -10 ** 20, 10 ** 30):
        if r.random() < .3:
            enc(ctx, 'datetime-ms', x)
    for _ in range(60):
        ms(ctx, r.randint(F.MS_MIN, F.MS_MAX))
    y = r.choice([1, 4, 100, 400, 1582, 1600, 1899, 1900, 1969, 1970, 2000, 2004, 2100, 9999, r.randint(1, 9999)])
    mo = r.choice([1, 2, 3, 12])
    day = (F._days(y, mo, 1) + r.choice([-1, 0, 27, 28, 29, 30])) * 86400000
    for off in (0, -1, 1, 999, 1000, 86399999, r.randrange(86400000)):
        if F.MS_MIN <= day + off <= F.MS_MAX:
            ms(ctx, day + off)
    base = r.randint(F.MS_MIN, F.MS_MAX) // 1000 * 1000
    for k in range(0, 1000, r.choice([1, 7, 13]) if r.random() < .1 else 41):
        ms(ctx, min(base + k, F.MS_MAX))
    s = F.ms_text(r.randint(F.MS_MIN + 10 ** 8, F.MS_MAX - 10 ** 8))
    head = s.split('+')[0]
    for tail in ('Z', 'z', '+00:00', '-00:00', '+01:00', '-05:30', '+14:00', '-23:59', '', '+5', '+25:00', '+00:60', 'Zulu', ' Z', 'Z+00:00'):
        dec(ctx, 'datetime-ms', head + tail)
    sec = head.split('.')[0]
    for t in (sec + '.1Z', sec + '.12Z', sec + '.123Z', sec + '.Z', sec[:-2] + '60Z', sec[:-2] + '61Z', sec.replace('T', 't') + 'Z', sec[:11] + '24:00:00Z', sec[:11] + '25:00:00Z', sec[:10], sec[:5] + '13' + sec[7:] + 'Z',
              sec[:8] + '32' + sec[10:] + 'Z', '0000' + sec[4:] + 'Z', sec[:5] + '02-30' + sec[10:] + 'Z', 'now', '', '12345'):
        dec(ctx, 'datetime-ms', t)
    for _ in range(5):
        dec(ctx, 'datetime-ms', vary(r, s))
    for x in (5, None, True, ['x'], 1.5):
        dec(ctx, 'datetime-ms', x)
    for x in ('x', None, True, 1.5, s):
        enc(ctx, 'datetime-ms', x)
