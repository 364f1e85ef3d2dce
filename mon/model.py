"""
Executable reference model of JADN semantics, written from the JADN specification and documentation.

It works directly on a schema *with* extensions (anonymous types, multiplicity, derived enums, MapOf enum,
key/link), shares no code with the package under test, and answers three ways: a value, Reject, or Unspec
(the documentation does not settle the case, so nothing may be concluded from what the package does).
"""
import base64
import json
import re
import socket
from datetime import datetime, timedelta, timezone

from . import fmt as F
from .run import reader


class Reject(Exception):
    pass


class Unspec(Exception):
    pass


CORE = ('Binary', 'Boolean', 'Integer', 'Number', 'String', 'Enumerated', 'Choice',
        'Array', 'ArrayOf', 'Map', 'MapOf', 'Record')
FIELDED = ('Choice', 'Array', 'Map', 'Record')
OPT = {'=': 'id', '*': 'vtype', '+': 'ktype', '#': 'enum', '>': 'pointer', '/': 'format', '%': 'pattern',
       'y': 'minf', 'z': 'maxf', '{': 'minv', '}': 'maxv', 'q': 'unique', 's': 'set', 'b': 'unordered',
       'o': 'sequence', 'C': 'combine', 'X': 'extend', '!': 'default',
       '[': 'minc', ']': 'maxc', '&': 'tagid', '<': 'dir', 'K': 'key', 'L': 'link'}
FLAGS = ('id', 'unique', 'set', 'unordered', 'sequence', 'extend', 'dir', 'key', 'link')
FIELD_OPTS = ('minc', 'maxc', 'tagid', 'dir', 'key', 'link')
DEFAULTS = {'$MaxBinary': 255, '$MaxString': 255, '$MaxElements': 100, '$Sys': '$',
            '$TypeName': '^[$A-Z][-$A-Za-z0-9]{0,63}$', '$FieldName': '^[$a-z][_$A-Za-z0-9]{0,63}$',
            '$NSID': '^([A-Za-z][A-Za-z0-9]{0,7})?$'}
MODES = ((False, False), (True, False), (False, True), (True, True))    # (verbose_rec, verbose_str)


@reader
def opts(olist):
    d = {}
    for o in olist:
        k = OPT[o[0]]
        v = o[1:]
        if k in FLAGS:
            v = True
        elif k in ('minv', 'maxv', 'minc', 'maxc', 'tagid'):
            v = int(v)
        elif k in ('minf', 'maxf'):
            v = float(v)
        d[k] = v
    return d


def split_opts(olist):
    d = opts(olist)
    return {k: v for k, v in d.items() if k in FIELD_OPTS}, {k: v for k, v in d.items() if k not in FIELD_OPTS}


class Fld:
    __slots__ = ('id', 'name', 'node', 'req', 'tag')

    def __init__(self, id, name, node, req, tag):
        self.id, self.name, self.node, self.req, self.tag = id, name, node, req, tag


class Node:
    """A type to be encoded. Children are resolved on demand, since types may be recursive."""
    __slots__ = ('kind', 'o', 'items', 'ref', 'raw', 'name', '_elem', '_key', '_flds', '_alts', 'm')

    def __init__(self, m, kind, o, name='', items=None, raw=None, elem=None, key=None):
        self.m, self.kind, self.o, self.name, self.items, self.raw = m, kind, o, name, items, raw
        self._elem, self._key, self._flds, self._alts = elem, key, None, None

    @property
    def elem(self):
        if not isinstance(self._elem, Node):
            self._elem = self.m.ref(self._elem)
        return self._elem

    @property
    def key(self):
        if not isinstance(self._key, Node):
            self._key = self.m.ref(self._key)
        return self._key

    @property
    def flds(self):
        if self._flds is None:
            self._flds = [self.m.fld(self, f) for f in self.raw]
        return self._flds

    @property
    def idopt(self):
        return 'id' in self.o

    def size(self):
        lo, hi = self.o.get('minv', 0), self.o.get('maxv', 0)
        if hi == 0:
            hi = self.m.conf['$MaxBinary' if self.kind == 'Binary' else '$MaxString' if self.kind == 'String' else '$MaxElements']
        return lo, hi


class Model:
    def __init__(self, schema, config=None):
        self.types = {t[0]: [*t, *([[]] if len(t) < 5 else [])] for t in schema['types']}
        self.conf = dict(DEFAULTS)
        src = config if config else schema
        self.conf.update(((src.get('info') or {}).get('config')) or {})
        self.cache = {}

    # ---- structure
    def ref(self, r):
        if r in self.cache:
            return self.cache[r]
        if r[:1] in '#>':
            n = Node(self, 'Enumerated', {}, r, items=self.enum_items({OPT[r[0]]: r[1:]}))
        elif r in CORE:
            n = self.build(r, {}, r, [])
        elif r in self.types:
            t = self.types[r]
            n = self.build(t[1], opts(t[2]), r, t[4])
        else:
            raise Unspec(f'undefined type {r}')
        self.cache[r] = n
        return n

    def is_enum(self, r):
        return r[:1] in '#>' or (r in self.types and self.types[r][1] == 'Enumerated')

    def build(self, base, o, name, fields):
        if base == 'Enumerated':
            items = self.enum_items(o) if 'enum' in o or 'pointer' in o else [(f[0], f[1]) for f in fields]
            return Node(self, base, o, name, items=items)
        if base == 'ArrayOf':
            return Node(self, base, o, name, elem=o['vtype'])
        if base == 'MapOf':
            if self.is_enum(o['ktype']):        # MapOf(Enumerated, T) is shorthand for a Map with one field per item
                return Node(self, 'Map', {}, name, raw=[[i, v, o['vtype'], [], ''] for i, v in self.ref(o['ktype']).items])
            return Node(self, base, o, name, elem=o['vtype'], key=o['ktype'])
        return Node(self, base, o, name, raw=fields)

    def enum_items(self, o):
        if 'enum' in o:
            t = self.types[o['enum']]
            if t[1] == 'Enumerated':
                eo = opts(t[2])
                if 'enum' in eo or 'pointer' in eo:
                    return self.enum_items(eo)
            return [(f[0], f[1]) for f in t[4]]
        return list(enumerate(self.paths(o['pointer'], ''), 1))

    def paths(self, tname, base):
        t = self.types[tname]
        if t[1] in FIELDED:
            for f in t[4]:
                if any(x[0] == '<' for x in f[3]):
                    if f[2] in self.types:
                        yield from self.paths(f[2], f'{base}{f[1]}/')
                else:
                    yield base + f[1]

    def keynode(self, tname):
        t = self.types[tname]
        if t[1] == 'MapOf':
            return self.ref(opts(t[2])['ktype'])
        kf = [f for f in t[4] if any(x[0] == 'K' for x in f[3])]
        return self.single(kf[-1])

    def single(self, f):
        """Type of one value of a field"""
        fo, to = split_opts(f[3])
        if 'link' in fo:
            return self.keynode(f[2])
        if f[2] not in CORE:
            return self.ref(f[2])
        if 'enum' in to or 'pointer' in to:
            return Node(self, 'Enumerated', to, f[1], items=self.enum_items(to))
        if not to:
            return self.ref(f[2])
        return self.build(f[2], to, f[1], [])

    def fld(self, parent, f):
        fo, to = split_opts(f[3])
        minc, maxc = fo.get('minc', 1), fo.get('maxc', 1)
        if maxc != 1:
            f1 = [f[0], f[1], f[2], [x for x in f[3] if x[0] != 'q'], f[4]]
            o = {'minv': max(minc, 1)}
            if maxc > 1:
                o['maxv'] = maxc
            if 'unique' in to:
                o['unique'] = True
            node = Node(self, 'ArrayOf', o, f[1], elem=self.single(f1))
        else:
            node = self.single(f)
        return Fld(f[0], f[1], node, minc > 0, fo.get('tagid'))

    # ---- encode: API value -> serialized value
    def encode(self, tname, v, mode):
        return self.enc(self.ref(tname), v, mode)

    def decode(self, tname, v, mode):
        return self.dec(self.ref(tname), v, mode)

    def enc(self, n, v, mode):
        return getattr(self, 'enc_' + n.kind)(n, v, mode)

    def dec(self, n, v, mode):
        return getattr(self, 'dec_' + n.kind)(n, v, mode)

    def chk_len(self, n, k):
        lo, hi = n.size()
        if not lo <= k <= hi:
            raise Reject(f'{n.name} size {k}')

    def enc_Binary(self, n, v, mode):
        if isinstance(v, (bytearray, memoryview)):
            raise Unspec
        if not isinstance(v, bytes):
            raise Reject
        self.chk_len(n, len(v))
        return F.bin_text(n.o.get('format', 'b'), v)

    def dec_Binary(self, n, v, mode):
        if not isinstance(v, str):
            raise Reject
        b = F.text_bin(n.o.get('format', 'b'), v)
        self.chk_len(n, len(b))
        return b

    def enc_Boolean(self, n, v, mode):
        if not isinstance(v, bool):
            raise Reject
        return v
    dec_Boolean = enc_Boolean

    def chk_int(self, n, v):
        if isinstance(v, bool) or not isinstance(v, int):
            raise Reject
        o = n.o
        if v < o.get('minv', v) or v > o.get('maxv', v):
            raise Reject
        f = o.get('format', '')
        if re.fullmatch(r'i\d+', f):
            b = int(f[1:])
            if not -2 ** (b - 1) <= v < 2 ** (b - 1):
                raise Reject
        return v

    def enc_Integer(self, n, v, mode):
        self.chk_int(n, v)
        return F.ms_text(v) if n.o.get('format') == 'datetime-ms' else v

    def dec_Integer(self, n, v, mode):
        if n.o.get('format') == 'datetime-ms':
            if not isinstance(v, str):
                raise Reject
            v = F.text_ms(v)
        return self.chk_int(n, v)

    def enc_Number(self, n, v, mode):
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            if isinstance(v, (str, bytes, list, dict, tuple, set, type(None), bool)):
                raise Reject
            raise Unspec
        if v != v or v in (float('inf'), float('-inf')):
            raise Unspec
        if v < n.o.get('minf', v) or v > n.o.get('maxf', v):
            raise Reject
        return v
    dec_Number = enc_Number

    def enc_String(self, n, v, mode):
        if not isinstance(v, str):
            raise Reject
        self.chk_len(n, len(v))
        if 'pattern' in n.o:
            p = n.o['pattern']
            p = self.conf.get(p, p)
            if v.endswith('\n'):
                raise Unspec('$ and trailing newline')
            if not re.match(p, v):
                raise Reject
        if 'format' in n.o:
            F.check_string(n.o['format'], v)
        return v
    dec_String = enc_String

    def enc_Enumerated(self, n, v, mode):
        if not n.items:
            raise Unspec
        if n.idopt:
            if isinstance(v, bool) or not isinstance(v, int):
                raise Reject
            if v not in [i for i, _ in n.items]:
                raise Reject
            return v
        if not isinstance(v, str):
            raise Reject
        for i, name in n.items:
            if name == v:
                return v if mode[1] else i
        raise Reject

    def dec_Enumerated(self, n, v, mode):
        if not n.items:
            raise Unspec
        if mode[1] and not n.idopt:
            if not isinstance(v, str) or v not in [x for _, x in n.items]:
                raise Reject
            return v
        if isinstance(v, bool) or not isinstance(v, int):
            raise Reject
        for i, name in n.items:
            if i == v:
                return i if n.idopt else name
        raise Reject

    def union(self, n, f):
        """f(node) -> value; combine results of alternatives"""
        ok = []
        for a in n.flds:
            try:
                ok.append(f(a.node))
            except Reject:
                pass
        k = n.o['combine']
        total = len(n.flds)
        if not total:
            raise Unspec
        if (k == 'O' and not ok) or (k == 'A' and len(ok) < total) or (k == 'X' and len(ok) != 1):
            raise Reject
        if any(not same(x, ok[0]) for x in ok[1:]):
            raise Unspec('alternatives disagree')
        return ok[0]

    def enc_Choice(self, n, v, mode):
        if 'combine' in n.o:
            return self.union(n, lambda a: self.enc(a, v, mode))
        if not isinstance(v, dict) or len(v) != 1:
            raise Reject
        k, x = next(iter(v.items()))
        f = self.pick(n, k, n.idopt)
        if x is None:
            raise Reject
        return {f.id if n.idopt or not mode[1] else f.name: self.enc(f.node, x, mode)}

    def pick(self, n, k, byid):
        if isinstance(k, (bool, float)):
            raise Unspec
        for f in n.flds:
            if k == (f.id if byid else f.name):
                return f
        raise Reject

    def dec_Choice(self, n, v, mode):
        if 'combine' in n.o:
            return self.union(n, lambda a: self.dec(a, v, mode))
        if not isinstance(v, dict) or len(v) != 1:
            raise Reject
        k, x = next(iter(v.items()))
        byid = n.idopt or not mode[1]
        f = self.pick(n, idkey(k) if byid else k, byid)
        if x is None:
            raise Reject
        return {f.id if n.idopt else f.name: self.dec(f.node, x, mode)}

    def alt(self, n, key, byid):
        """Field of the choice selected by an external tag"""
        if n.kind != 'Choice' or 'combine' in n.o:
            raise Unspec
        return self.pick(n, key, byid)

    def enc_Map(self, n, v, mode):
        if not isinstance(v, dict):
            raise Reject
        if any(x is None for x in v.values()):      # null is not a value of any type
            raise Reject
        self.chk_len(n, len(v))
        names = {f.name for f in n.flds}
        if set(v) - names:
            raise Reject
        as_list = n.kind == 'Record' and not mode[0]
        out, pos = {}, []
        for f in n.flds:
            if f.name not in v:
                if f.req:
                    raise Reject
                pos.append(None)
                continue
            if f.tag is not None:
                t = next(x for x in n.flds if x.id == f.tag)
                if t.name not in v:
                    raise Reject
                if not isinstance(v[t.name], (str, int)):
                    raise Reject
                c = self.alt(f.node, v[t.name], f.node.idopt)
                e = self.enc(c.node, v[f.name], mode)
            else:
                e = self.enc(f.node, v[f.name], mode)
            out[f.id if n.idopt or not mode[1] else f.name] = e
            pos.append(e)
        if as_list:
            while pos and pos[-1] is None:
                pos.pop()
            return pos
        return out
    enc_Record = enc_Map

    def dec_Map(self, n, v, mode):
        as_list = n.kind == 'Record' and not mode[0]
        byid = n.idopt or not mode[1]
        if as_list:
            if not isinstance(v, list):
                raise Reject
            if len(v) > len(n.flds):
                raise Reject
            self.chk_len(n, len([x for x in v if x is not None]))
            got = {f.id: v[i] for i, f in enumerate(n.flds) if i < len(v) and v[i] is not None}
        else:
            if not isinstance(v, dict):
                raise Reject
            if any(x is None for x in v.values()):
                req = {(str(f.id) if byid else f.name) for f in n.flds if f.req}
                if any(x is None and str(k) in req for k, x in v.items()):
                    raise Reject
                raise Unspec
            self.chk_len(n, len(v))
            got = {}
            for k, x in v.items():
                f = self.pick(n, idkey(k) if byid else k, byid)
                if f.id in got:
                    raise Reject
                got[f.id] = x
        out = {}
        for f in n.flds:
            if f.id not in got:
                if f.req:
                    raise Reject
                continue
            if f.tag is not None:
                if f.tag not in got:
                    raise Reject
                tv = got[f.tag]
                if not isinstance(tv, (str, int)):
                    raise Reject
                cid = f.node.idopt or not mode[1]
                c = self.alt(f.node, idkey(tv) if cid else tv, cid)
                out[f.name] = self.dec(c.node, got[f.id], mode)
            else:
                out[f.name] = self.dec(f.node, got[f.id], mode)
        return out
    dec_Record = dec_Map

    def enc_Array(self, n, v, mode):
        if not isinstance(v, list):
            raise Reject
        return self.array(n, v, mode, self.enc, True)

    def array(self, n, v, mode, conv, api):
        if len(v) > len(n.flds):
            raise Reject
        self.chk_len(n, len([x for x in v if x is not None]))
        out = []
        for i, f in enumerate(n.flds):
            x = v[i] if i < len(v) else None
            if x is None:
                if f.req:
                    raise Reject
                out.append(None)
                continue
            if f.tag is not None:
                if len(v) < f.tag or v[f.tag - 1] is None:
                    raise Reject
                tv = v[f.tag - 1]
                if not isinstance(tv, (str, int)):
                    raise Reject
                byid = f.node.idopt or (not api and not mode[1])
                out.append(conv(self.alt(f.node, tv if api or not byid else idkey(tv), byid).node, x, mode))
            else:
                out.append(conv(f.node, x, mode))
        fm = n.o.get('format')
        if fm and api:
            return F.arr_text(fm, v)
        while out and out[-1] is None:
            out.pop()
        return out

    def dec_Array(self, n, v, mode):
        if fm := n.o.get('format'):
            if not isinstance(v, str):
                raise Reject
            a = F.text_arr(fm, v)
            self.array(n, a, mode, self.enc, True)
            return a
        if not isinstance(v, list):
            raise Reject
        return self.array(n, v, mode, self.dec, False)

    def uniq(self, n, a, b):
        if 'unique' in n.o or 'set' in n.o:
            ra, rb = dups(a), dups(b)
            if ra != rb:
                raise Unspec
            if ra:
                raise Reject

    def enc_ArrayOf(self, n, v, mode):
        if not isinstance(v, list):
            raise Reject
        self.chk_len(n, len(v))
        out = [self.enc(n.elem, x, mode) for x in v]
        self.uniq(n, v, out)
        return out

    def dec_ArrayOf(self, n, v, mode):
        if not isinstance(v, list):
            raise Reject
        self.chk_len(n, len(v))
        out = [self.dec(n.elem, x, mode) for x in v]
        self.uniq(n, out, out)
        return out

    def enc_MapOf(self, n, v, mode):
        if not isinstance(v, dict):
            raise Reject
        self.chk_len(n, len(v))
        if any(x is None for x in v.values()):
            raise Reject
        out = {}
        for k, x in v.items():
            k = self.enc(n.key, k, mode)
            if k in out:
                raise Unspec
            out[k] = self.enc(n.elem, x, mode)
        return out

    def dec_MapOf(self, n, v, mode):
        if not isinstance(v, dict):
            raise Reject
        self.chk_len(n, len(v))
        if any(x is None for x in v.values()):
            raise Reject
        out = {}
        for k, x in v.items():
            k = self.dec_key(n.key, k, mode)
            if k in out:        # one value has one form for each key
                raise Reject
            out[k] = self.dec(n.elem, x, mode)
        return out

    def dec_key(self, n, k, mode):
        """Keys of JSON objects are text, also those of numbers and booleans"""
        res = []
        try:
            res.append(self.dec(n, k, mode))
        except Reject:
            pass
        if isinstance(k, str) and re.fullmatch(r'true|false|-?(0|[1-9][0-9]*)([.][0-9]+)?([eE][-+]?[0-9]+)?', k):
            try:
                res.append(self.dec(n, json.loads(k), mode))
                if json.dumps(json.loads(k)) != k:
                    raise Unspec('non canonical number')
            except Reject:
                pass
        if not res:
            raise Reject
        if len(res) > 1 and not same(*res):
            raise Unspec('key is text and number')
        return res[0]


def idkey(k):
    """Integer identifier of a JSON object key or value"""
    if isinstance(k, bool) or isinstance(k, float):
        raise Unspec
    if isinstance(k, str):
        if re.fullmatch(r'-?(0|[1-9][0-9]*)', k) and k != '-0':
            return int(k)
        raise Reject
    if isinstance(k, int):
        return k
    raise Reject


def dups(lst):
    """Duplicate values by JSON equality; mixtures of int/float that Python equates are unspecified, booleans are no numbers"""
    seen = []
    for x in lst:
        for y in seen:
            if same(x, y):
                return True
            if loose(x, y):
                raise Unspec
        seen.append(x)
    return False


def untag(x):
    """Value in which booleans differ from all numbers"""
    if isinstance(x, bool):
        return ('bool', str(x))
    if isinstance(x, dict):
        return {k if not isinstance(k, bool) else untag(k): untag(v) for k, v in x.items()}
    return [untag(v) for v in x] if isinstance(x, (list, tuple)) else x


def loose(a, b):
    try:
        return untag(a) == untag(b)
    except Exception:
        return False


def same(a, b):
    """Type-strict deep equality"""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        if len(a) != len(b):
            return False
        for k, v in a.items():
            for k2 in b:
                if type(k) is type(k2) and k == k2:
                    break
            else:
                return False
            if not same(v, b[k2]):
                return False
        return True
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float):
        return a == b or (a != a and b != b)
    return a == b
