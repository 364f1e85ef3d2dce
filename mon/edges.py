"""
Schema-directed edge values: a valid value changed at exactly one place so that it lies on or just beyond one constraint
of the definition at that place. The reference model, not this generator, says whether the result is allowed.
"""
import math
import re

from . import fmt as F
from .gen import PATTERNS, ValueGen, NoValue
from .model import Model, Reject, Unspec, same

MORE = 140          # longest list or map built to pass a maximum count


class Lenient(Model):
    """Serialized form of a value that may break constraints of the schema"""

    def chk_len(self, n, k):
        pass

    def chk_int(self, n, v):
        return v

    def enc_Integer(self, n, v, mode):
        if n.o.get('format') == 'datetime-ms' and type(v) is int and F.MS_MIN <= v <= F.MS_MAX:
            return F.ms_text(v)
        return v

    def enc_Number(self, n, v, mode):
        return v
    enc_String = enc_Boolean = enc_Number

    def enc_Binary(self, n, v, mode):
        f = n.o.get('format', 'b')
        if not isinstance(v, bytes):
            return v
        if f == 'ipv4-addr':
            return '.'.join(str(x) for x in v)
        if f in ('eui', 'uuid', 'ipv6-addr'):
            try:
                return F.bin_text(f, v)
            except (Reject, Unspec, ValueError):
                return F.hexl(v).upper() if f == 'eui' else F.hexl(v)
        return F.bin_text(f, v)

    def enc_Enumerated(self, n, v, mode):
        try:
            return super().enc_Enumerated(n, v, mode)
        except Reject:
            return v

    def enc_Choice(self, n, v, mode):
        if 'combine' in n.o:
            for a in n.flds:
                try:
                    return Model(self.src).enc(a.node, v, mode)
                except (Reject, Unspec):
                    pass
            return self.enc(n.flds[0].node, v, mode)
        if not isinstance(v, dict):
            return v
        return dict(self.tag(n, k, x, mode) for k, x in v.items())

    def tag(self, n, k, x, mode):
        f = next((f for f in n.flds if k == (f.id if n.idopt else f.name) and type(k) is not bool), None)
        if f is None:
            return k, x
        return (f.id if n.idopt or not mode[1] else f.name), (None if x is None else self.enc(f.node, x, mode))

    def one(self, n, f, x, tagv, mode):
        if x is None:
            return None
        if f.tag is not None:
            c = next((c for c in f.node.flds if tagv == (c.id if f.node.idopt else c.name)), None)
            return x if c is None else self.enc(c.node, x, mode)
        return self.enc(f.node, x, mode)

    def enc_Map(self, n, v, mode):
        if not isinstance(v, dict):
            return v
        byname = {f.name: f for f in n.flds}
        got = {}
        for k, x in v.items():
            f = byname.get(k) if isinstance(k, str) else None
            t = next((t for t in n.flds if f and t.id == f.tag), None)
            got[k] = (f, self.one(n, f, x, v.get(t.name) if t else None, mode) if f else x)
        if n.kind == 'Record' and not mode[0]:
            out = [got[f.name][1] if f.name in got else None for f in n.flds] + [x for f, x in got.values() if f is None]
            while out and out[-1] is None:
                out.pop()
            return out
        return {(k if f is None else f.id if n.idopt or not mode[1] else f.name): x for k, (f, x) in got.items()}
    enc_Record = enc_Map

    def enc_Array(self, n, v, mode):
        if not isinstance(v, list):
            return v
        fm = n.o.get('format')
        if fm:
            try:
                return F.arr_text(fm, v)
            except (Reject, Unspec):
                if fm != 'tag-uuid' and len(v) == 2 and isinstance(v[0], bytes):
                    return f"{F.bin_text('ipv4-addr' if len(v[0]) == 4 else 'ipv6-addr', v[0]) if len(v[0]) in (4, 16) else 'x'}/{v[1]}"
                raise
        out = []
        for i, x in enumerate(v):
            if i >= len(n.flds):
                out.append(x)
                continue
            f = n.flds[i]
            out.append(self.one(n, f, x, v[f.tag - 1] if f.tag is not None and len(v) >= f.tag else None, mode))
        return out

    def enc_ArrayOf(self, n, v, mode):
        return [self.enc(n.elem, x, mode) for x in v] if isinstance(v, list) else v

    def enc_MapOf(self, n, v, mode):
        if not isinstance(v, dict):
            return v
        return {self.enc(n.key, k, mode): None if x is None else self.enc(n.elem, x, mode) for k, x in v.items()}

    def enc(self, n, v, mode):
        return None if v is None else super().enc(n, v, mode)


def lenient(schema, config=None):
    m = Lenient(schema, config)
    m.src = schema
    return m


def places(m, n, v, mode=(True, True)):
    """All (path, node, value) of a value"""
    out = []

    def go(n, v, path, d):
        out.append((path, n, v))
        if len(out) > 300 or d > 12:
            return
        k = n.kind
        if k == 'Choice' and 'combine' in n.o:
            for a in n.flds:
                try:
                    m.enc(a.node, v, mode)
                except (Reject, Unspec):
                    continue
                go(a.node, v, path, d + 1)
        elif k == 'Choice':
            for f in n.flds:
                if (f.id if n.idopt else f.name) in v:
                    go(f.node, v[f.id if n.idopt else f.name], path + [('v', f.id if n.idopt else f.name)], d + 1)
        elif k in ('Map', 'Record'):
            for f in n.flds:
                if f.name in v:
                    sub(f, v[f.name], v.get(next((t.name for t in n.flds if t.id == f.tag), None)), path + [('v', f.name)], d)
        elif k == 'Array' and 'format' not in n.o:
            for i, (f, x) in enumerate(zip(n.flds, v)):
                if x is not None:
                    sub(f, x, v[f.tag - 1] if f.tag is not None else None, path + [('v', i)], d)
        elif k == 'ArrayOf':
            for i, x in enumerate(v[:12]):
                go(n.elem, x, path + [('v', i)], d + 1)
        elif k == 'MapOf':
            for i, x in enumerate(v):
                if i < 12:
                    go(n.elem, v[x], path + [('v', x)], d + 1)

    def sub(f, x, tagv, path, d):
        if f.tag is None:
            return go(f.node, x, path, d + 1)
        for c in f.node.flds:
            if tagv == (c.id if f.node.idopt else c.name):
                go(c.node, x, path, d + 1)
    go(n, v, [], 0)
    return out


def local(r, m, n, v):
    """Thunks that give edge values of one place; empty when the type has no edges"""
    o, k = n.o, n.kind
    out = []
    if k == 'Integer':
        f = o.get('format', '')
        lims = [o.get('minv'), o.get('maxv')]
        if b := re.fullmatch(r'i(\d+)', f):
            w = 2 ** (int(b.group(1)) - 1)
            lims += [-w, w - 1]
        elif f == 'datetime-ms':
            lims += [F.MS_MIN, F.MS_MAX, 0]
        for x in lims:
            if x is not None:
                out += [lambda x=x: x - 1, lambda x=x: x, lambda x=x: x + 1]
        out += [lambda: float(v) if abs(v) < 2 ** 53 else 1.0, lambda: v == 1, lambda: str(v)]
    elif k == 'Number':
        for x in (o.get('minf'), o.get('maxf')):
            if x is not None:
                out += [lambda x=x: math.nextafter(x, -math.inf), lambda x=x: x, lambda x=x: math.nextafter(x, math.inf), lambda x=x: math.floor(x), lambda x=x: math.ceil(x)]
        out += [lambda: v == 1, lambda: str(v)]
    elif k == 'String':
        lo, hi = n.size()
        if 'format' in o:
            good, bad = F.GOOD[o['format']], F.BAD.get(o['format'], [])
            out += [lambda: r.choice(good)] + [lambda: r.choice(bad)] * (2 if bad else 0)
            if o['format'] in ('email', 'hostname', 'uri', 'iri'):
                tail = {'email': 'a@b.co', 'hostname': 'a.co', 'uri': 'http://a.co', 'iri': 'http://a.co'}[o['format']]
                pad = {'email': lambda q: 'b' * (q - 5) + '@b.co', 'hostname': lambda q: ('a' * 49 + '.') * ((q - 3) // 50) + 'a' * ((q - 3) % 50 or 1) + '.co'}.get(
                    o['format'], lambda q: tail + '/' + 'x' * (q - len(tail) - 1))
                if hi > 20:
                    out += [lambda: pad(hi + 1), lambda: pad(hi)]
        elif 'pattern' in o:
            p = next((p for p in PATTERNS if p[0] == o['pattern']), None)
            if p:
                out += [lambda: r.choice(p[1]), lambda: r.choice(p[2]), lambda: r.choice(p[2]), lambda: r.choice(p[1]) + r.choice('aZ9 .'), lambda: r.choice('aZ9 .') + r.choice(p[1])]
        else:
            g = ValueGen(r, m)
            fill = (lambda q: v[:q] + g.text(q - len(v)) if q > len(v) else v[:q]) if r.random() < .5 else (lambda q: r.choice('aé日😀') * q)
            out += [lambda q=q: fill(q) for q in (lo - 1, lo, hi, hi + 1, hi + 1) if q >= 0]
        out += [lambda: v.encode()]
    elif k == 'Binary':
        f = o.get('format', 'b')
        lo, hi = n.size()
        if f in 'bxX':
            out += [lambda q=q: (v + r.randbytes(max(0, q - len(v))))[:q] for q in (lo - 1, lo, hi, hi + 1, hi + 1) if q >= 0]
        else:
            out += [lambda: v[:-1], lambda: v + b'\x00', lambda: v[:6], lambda: v[:7], lambda: v + v, lambda: v[:4], lambda: b'']
            if f == 'uuid':
                out += [lambda: v[:6] + bytes([v[6] & 15 | 0]) + v[7:]]
        out += [lambda: bytearray(v).hex(), lambda: list(v)]
    elif k == 'Boolean':
        out += [lambda: int(v), lambda: str(v).lower(), lambda: None]
    elif k == 'Enumerated':
        ids, nms = [i for i, _ in n.items], [x for _, x in n.items]
        out += [lambda: r.choice(ids), lambda: r.choice(nms), lambda: max(ids) + 1, lambda: min(ids) - 1, lambda: r.choice(nms).swapcase(), lambda: r.choice(nms) + ' ', lambda: str(r.choice(ids)),
                lambda: '', lambda: float(r.choice(ids)), lambda: r.choice(ids) == 1]
    elif k == 'Choice' and 'combine' not in o:
        key = (lambda f: f.id) if n.idopt else (lambda f: f.name)
        (t, x), = v.items()
        cur = next(f for f in n.flds if key(f) == t)
        g = ValueGen(r, m)
        out += [lambda: {}, lambda: {t: None}, lambda: {(cur.name if n.idopt else cur.id): x}, lambda: {(cur.name + 'x' if not n.idopt else max(f.id for f in n.flds) + 1): x}, lambda: x, lambda: [x],
                lambda: [t, x], lambda: {t: x, 'zz': 1}]
        if len(n.flds) > 1:
            f = r.choice([f for f in n.flds if f is not cur])
            out += [lambda: {t: x, key(f): g.value(f.node, 3)}, lambda: {key(f): x}, lambda: {key(f): g.value(f.node, 3)}]
    elif k in ('Map', 'Record'):
        g = ValueGen(r, m)
        lo, hi = n.size()
        for f in n.flds:
            if f.name in v:
                out += [lambda f=f: {a: b for a, b in v.items() if a != f.name}] * (2 if f.req else 1)
                out += [lambda f=f: {**v, f.name: None}, lambda f=f: {(f.id if a == f.name else a): b for a, b in v.items()}, lambda f=f: {(str(f.id) if a == f.name else a): b for a, b in v.items()}]
                if f.req:       # only the other required fields
                    out += [lambda f=f: {a.name: v[a.name] for a in n.flds if a.name in v and a.req and a is not f}]
            elif f.tag is None:
                out += [lambda f=f: {**v, f.name: g.value(f.node, 3)}]
        free = [f for f in n.flds if f.name not in v and f.tag is None]
        out += [lambda: {**v, 'unknown': 1}, lambda: {'unknown': next(iter(v.values()), 1), **v}, lambda: {**v, 'unknown': None}, lambda: {**{a: b for a, b in list(v.items())[1:]}, 'unknown': 'x'}]
        if free:
            out += [lambda: {**v, **{f.name: g.value(f.node, 3) for f in free}}]
        if len(v) > len([f for f in n.flds if f.req]):
            out += [lambda: {a.name: v[a.name] for a in n.flds if a.req and a.name in v}]
        out += [lambda: list(v.values())]
    elif k == 'Array' and 'format' not in o:
        g = ValueGen(r, m)
        full = v + [None] * (len(n.flds) - len(v))
        for i, f in enumerate(n.flds):
            out += [lambda i=i: full[:i] + [None] + full[i + 1:], lambda i=i: v[:i]]
            if full[i] is None and f.tag is None:
                out += [lambda i=i, f=f: full[:i] + [g.value(f.node, 3)] + full[i + 1:]]
        out += [lambda: full, lambda: full + [None], lambda: full + ['x'], lambda: full + [None, 1], lambda: full[1:], lambda: [None] + full, lambda: v[:-1], lambda: []]
    elif k == 'Array':
        if o['format'] in ('ipv4-net', 'ipv6-net'):
            w = 32 if o['format'] == 'ipv4-net' else 128
            out += [lambda q=q: [v[0], q] for q in (-1, 0, w - 1, w, w + 1)] + [lambda: [v[0]], lambda: v + [1], lambda: [v[0][:-1], v[1]], lambda: [v[0] + b'\0', v[1]], lambda: [None, v[1]],
                                                                                  lambda: [v[0], None]]
        else:
            out += [lambda: [v[0], v[1][:-1]], lambda: [v[0], v[1] + b'\0'], lambda: ['', v[1]], lambda: [v[0]], lambda: v + ['x'], lambda: [None, v[1]]]
    elif k == 'ArrayOf':
        g = ValueGen(r, m)
        lo, hi = n.size()
        uniq = 'unique' in o or 'set' in o

        def size(q):
            x = list(v[:q])
            for _ in range(3 * q + 30):
                if len(x) >= q:
                    break
                e = g.value(n.elem, 6)
                if not uniq or not any(same(e, y) for y in x):
                    x.append(e)
            while len(x) < q and not uniq:
                x.append(x[-1])
            if len(x) != q:
                raise NoValue
            return x
        out += [lambda q=q: size(q) for q in (lo - 1, lo, hi, hi + 1, hi + 1) if 0 <= q <= MORE]
        if v:
            i = r.randrange(len(v))
            out += [lambda: v + [v[i]], lambda: [v[i]] + v, lambda: v[:-1] + [v[0]]] * (3 if uniq else 1)
            out += [lambda: v[:i] + [None] + v[i + 1:], lambda: v + [None], lambda: v[0], lambda: {str(i): x for i, x in enumerate(v)}]
    elif k == 'MapOf':
        g = ValueGen(r, m)
        lo, hi = n.size()

        def count(q):
            x = dict(list(v.items())[:q])
            for _ in range(3 * q + 30):
                if len(x) >= q:
                    break
                key = g.value(n.key, 6)
                if not isinstance(key, (list, dict)):
                    x[key] = g.value(n.elem, 6)
            if len(x) != q:
                raise NoValue
            return x
        out += [lambda q=q: count(q) for q in (lo - 1, lo, hi, hi + 1, hi + 1) if 0 <= q <= MORE]
        if v:
            kk = r.choice(list(v))
            out += [lambda: {**v, kk: None}, lambda: list(v.items())]
            for e in local(r, m, n.key, kk):
                out += [lambda e=e: {(hk(e()) if a == kk else a): b for a, b in v.items()}]
    return out


def hk(x):
    try:
        hash(x)
    except TypeError:
        raise NoValue
    return x


def edges(r, m, n, v, count):
    """Up to count values, each with one edge at one place of the valid value v; kinds of places are balanced"""
    from .gen import replace
    ps = places(m, n, v)
    kinds = {}
    for p in ps:
        kinds.setdefault(p[1].kind, []).append(p)
    out = []
    for _ in range(count * 2):
        if len(out) >= count:
            break
        path, node, x = r.choice(kinds[r.choice(list(kinds))]) if r.random() < .7 else r.choice(ps)
        c = local(r, m, node, x)
        if not c:
            continue
        try:
            y = r.choice(c)()
            out.append((node.kind, replace(v, path, lambda _: y)))
        except (NoValue, Unspec, Reject, RecursionError):
            pass
    return out
