"""Seeded generators: JADN schemas, valid values of their types, near-miss and hostile values."""
import re
import random
import string

from . import fmt as F
from .model import CORE, FIELDED, Model, Node, Reject, Unspec, opts

TNAMES = ['Alpha', 'Beta-Two', 'Gamma3', 'D', 'Epsilon', 'Zeta-z-9', 'ETA', 'Theta', 'I0ta', 'Kappa-K', 'Lambda', 'Mu-', 'Nu', 'Xi-xI',
          'Omicron', 'Pi314', 'Rho', 'Sigma', 'Tau', 'Upsilon', 'Phi', 'Chi', 'Psi', 'Omega', 'RecordX', 'MapOfThings', 'StringLike',
          'Enum', 'Pointer', 'Key', 'Link', 'Extra', 'Zz9-plural', 'ALPHA', 'Alp', 'Alpha-1', 'Eta', 'Gamma', 'D-d', 'Record-', 'Int', 'StringL', 'Long' + 'name' * 15, 'TypeRef', 'Schema', 'Types', 'Alpha$b', '$Gen', 'Theta$name$1', 'Alpha$', 'Unordered', 'A-unique', '$set', 'Subsequence', 'Offset-unordered']
FNAMES = ['a', 'b', 'name', 'id', 'key', 'val_ue', 'x9', 'fooBar', 'list', 'tags', 'kind', 'type', 'ref', 'src_dst', 'q', 'set', 'map', 'optional',
          'items', 'z_', 'n0', 'value', 'size', 'none', 'inner', 'data', 'u1', 'when', 'where_', 'f' + 'ield' * 15, 'nAME', 'x', 'x99', 'foobar', 'va', 'a_b', 'string', 'integer', 'x$y', '$f', 'b$']
ITEMS = ['red', 'Green', 'blue-ish', 'two words', 'a/b', 'x.y', '1', '2', 'é', '日本', 'UPPER', 'snake_case', 'with(paren)', 'a,b', "it's", '100%',
         'a=b', '-', 'null', 'true', '$x', '@me', '#1', 'tab-less', 'q?', 'a+b', 'a*b', '[x]', '{y}', 'c:d', '_', '<t>', '&amp', 'a|b', 'semi;', 'RED', 'Re', 'red2', 'two', 'blue_ish']
DESCS = ['', '', '', 'plain text', 'two  blanks   and more', 'With "quotes" inside', "apostrophe's", 'braces {1..2} [0..1] optional', 'slashes http://x.y/z // inner', 'pipe | star *',
         'unicode é ü 日本語', 'a', 'ends with colon:', 'tag::like text', '<b>markup</b> & amp;', 'x = y', '1 digit first', 'percent %s {}', 'unique set /date',
         'trailing backslash \\', '{pattern="x"}', 'equals=Record', 'Key(String)', '(TagId[kind])', 'sequence', 'long ' + 'words ' * 20 + 'end']
PATTERNS = [    # (pattern, matching, not matching)
    ('^[a-z]{2,4}$', ['ab', 'abcd', 'xyz'], ['a', 'abcde', 'AB', '', 'a1']),
    (r'^\d+$', ['0', '12345'], ['', 'x', '-1', '1.5']),
    ('^(foo|bar)$', ['foo', 'bar'], ['foobar', 'fo', 'FOO', '']),
    (r'^[A-Z][-\w]*$', ['A', 'Ab-c_9'], ['a', '', '9A']),
    (r'^.{3}$', ['abc', 'é日x', '   '], ['ab', 'abcd', '']),
    (r'^(\w+ )?set /date \w$', ['set /date x', 'a set /date y'], ['set', '']),
    (r'^a\.b|c$', ['a.b', 'c'], ['ab', 'd', '']),
    (r'^"[^"]*"$', ['""', '"x y"'], ['"', 'x', '']),
    (r'^x{1,2}y$', ['xy', 'xxy'], ['y', 'xxxy']),
    (r'^[^/ ]+//[a-z]+$', ['a//b'], ['a/b', '']),
    (r'^\(\[\{<>\}\]\)$', ['([{<>}])'], ['', '()']),
    ('$|^abc$', ['', 'abc'], ['ab', 'x', 'abcd']),
    ('^a*b*$', ['aab', 'b', 'aaa'], ['ba', 'c', 'aabx']),
]
FIXED_BIN = {'ipv4-addr': (4,), 'ipv6-addr': (16,), 'eui': (6, 8), 'uuid': (16,)}

ALL = dict(formats=True, patterns=True, unions=True, links=True, tags=True, mult=True, derived=True, mapofenum=True, recursion=True, config=True,
           anon=True, desc=True, info=True, ids=True, arrays=True, collide=True, extras=True, wide=True)


def r_sample(xs, r):
    return r.sample(xs, len(xs))


class SchemaGen:
    """Random schema accepted by the JADN rules. Feature flags switch constructs off."""

    def __init__(self, rng, ntypes=None, **feat):
        self.r = rng
        self.f = {**ALL, **feat}
        self.n = ntypes or rng.choice([2, 3, 4, 5, 6, 8, 10, 14])
        self.types = []             # type definitions
        self.by = {}
        self.keys = {}              # type name -> True if it has a primary key
        self.conf = {}

    def p(self, x):
        return self.r.random() < x

    def desc(self):
        return self.r.choice(DESCS) if self.f['desc'] else ''

    def pick(self, pred):
        c = [t[0] for t in self.types if pred(t)]
        return self.r.choice(c) if c else None

    # ---- primitive type options
    def prim_opts(self, base):
        r, o = self.r, []
        if base == 'Integer':
            k = r.random()
            if k < .2 and self.f['formats']:
                f = r.choice(['i8', 'i16', 'i32', 'i64', 'datetime-ms'])
                o.append('/' + f)
                if self.p(.3):
                    lo = r.randint(-200, 50) if f != 'datetime-ms' else r.choice([0, -1000, 86400000, 1700000000123, r.randint(-10 ** 12, 10 ** 12)])
                    o += r.sample([f'{{{lo}', f'}}{lo + r.randint(0, 300)}'], r.randint(1, 2))
            elif k < .7:
                lo = r.choice([0, 0, 1, -1, -128, -5, 10, 2 ** 31, -2 ** 63, r.randint(-1000, 1000)])
                hi = lo + r.choice([0, 1, 2, 9, 255, 10 ** 6, 2 ** 40])
                if self.p(.15):
                    lo, hi = -r.randint(1, 50), 0       # zero is a real maximum for Integer
                o += r.choice([[f'{{{lo}'], [f'}}{hi}'], [f'{{{lo}', f'}}{hi}']])
        elif base == 'Number':
            if self.p(.2) and self.f['formats']:
                o.append('/' + r.choice(['f16', 'f32', 'f64']))
            if self.p(.6):
                lo = r.choice([0.0, 1.0, -1.5, -273.15, 0.001, r.uniform(-100, 100), -1e10, 1e-07, 1e16, -2.5e+22])
                hi = lo + r.choice([0.0, 0.5, 1.0, 100.25, 1e6])
                if self.p(.15):
                    lo, hi = -abs(lo), 0.0
                o += r.choice([[f'y{lo}'], [f'z{hi}'], [f'y{lo}', f'z{hi}']])
        elif base == 'String':
            k = r.random()
            if k < .3 and self.f['formats']:
                o.append('/' + r.choice(F.STRING_FORMATS))
            elif k < .5 and self.f['patterns']:
                o.append('%' + r.choice(PATTERNS)[0])
            elif k < .8:
                o += self.size(r.choice([0, 0, 1, 2, 3, 7]), r.choice([0, 1, 2, 5, 30]))
            if o and o[0][0] in '/%' and self.f['extras']:      # several constraints on one string
                if o[0][0] == '/' and self.p(.15):
                    k = len(r.choice(F.GOOD[o[0][1:]]))
                    o += r.choice([[f'{{{k}'], [f'}}{k}'], [f'{{{k}', f'}}{k + 2}']]) if k else []
                elif o[0][0] == '/' and self.f['patterns'] and self.p(.15):
                    o.append('%' + r.choice(['^.*$', '^[a-z]', '^.{3}', '^[^@]']))
        elif base == 'Binary':
            if self.p(.5) and self.f['formats']:
                f = r.choice(['b', 'x', 'X', 'ipv4-addr', 'ipv6-addr', 'eui', 'uuid'])
                o.append('/' + f)
                if f in 'bxX' and self.p(.3):
                    o += self.size(r.choice([0, 1, 2]), r.choice([0, 1, 4]))
            elif self.p(.4):
                o += self.size(r.choice([0, 1, 4]), r.choice([0, 1, 2, 12]))
        r.shuffle(o)
        return o

    def size(self, lo, extra):
        hi = lo + extra
        o = []
        if lo or self.p(.1):
            o.append(f'{{{lo}')
        if hi and (self.p(.7) or not o):
            o.append(f'}}{hi}')
        return o

    def prim(self):
        return self.r.choice(['String', 'String', 'Integer', 'Integer', 'Number', 'Boolean', 'Binary'])

    # ---- references
    def vref(self, enums=True):
        """Type usable as vtype: builtin primitive, defined type or derived enum"""
        r = self.r
        if self.types and self.p(.65):
            return r.choice(self.types)[0]
        if enums and self.f['derived'] and self.p(.2) and (d := self.dref()):
            return d
        return self.prim()

    def dref(self):
        """Derived enum reference: #Type or >Type"""
        if self.p(.7):
            t = self.pick(lambda t: t[1] in FIELDED and t[4] and 'combine' not in opts(t[2]) or t[1] == 'Enumerated')
            return t and '#' + t
        t = self.pick(lambda t: (t[1] in ('Map', 'Record') or t[1] in FIELDED and self.p(.4)) and t[4] and 'combine' not in opts(t[2]))
        return t and '>' + t

    def kref(self):
        r = self.r
        k = r.random()
        if k < .3:
            return 'String'
        if k < .46:
            return 'Integer'
        if k < .5:
            return r.choice(['Number', 'Boolean', 'Binary'])
        if k < .8:
            t = self.pick(lambda t: t[1] in ('String', 'Integer', 'Binary', 'Number', 'Boolean') or t[1] == 'Choice' and any(x[0] == 'C' for x in t[2]) and self.p(.5))
            if t:
                return t
        if self.f['mapofenum']:
            t = self.pick(lambda t: t[1] == 'Enumerated' and '=' not in t[2] and (t[4] or any(x[0] in '#>' for x in t[2])))
            if t and self.p(.6):
                return t
            if self.f['derived'] and (d := self.dref()) and not (d[1:] in self.by and '=' in self.by[d[1:]][2] and self.by[d[1:]][1] == 'Enumerated'):
                return d
        return 'String'

    def anon(self):
        """(FieldType, type options) of a field"""
        r = self.r
        k = r.random()
        if self.types and k < .45:
            return r.choice(self.types)[0], []
        if not self.f['anon'] or k < .65:
            return self.prim(), []
        if k < .8:
            b = self.prim()
            return b, self.prim_opts(b)
        if k < .88 and self.f['derived'] and (d := self.dref()):
            return 'Enumerated', ['='] * (self.p(.3) and d[0] == '#' and self.f['ids']) + [d]
        if k < .95:
            return 'ArrayOf', self.arrayof()
        kt = self.kref()
        return 'MapOf', ['+' + kt, '*' + self.vref()] + ([] if self.m().is_enum(kt) else self.size(0, r.choice([0, 2, 4])))

    def m(self):
        return Model({'types': self.types, 'info': {'config': self.conf}})

    def arrayof(self):
        r = self.r
        vt = self.vref()
        o = ['*' + vt] + self.size(r.choice([0, 0, 1, 2]), r.choice([0, 1, 3, 8]))
        k = r.random()
        if k < .2:
            o.append('q')
        elif k < .3:
            o.append('s')
        elif k < .35:
            o.append('b')
        elif k < .4 and self.f['extras']:
            o += r.choice(['qs', 'qb', 'sb', 'qsb'])
        lo = opts(o).get('minv', 0)
        if lo > 1 and ('q' in o or 's' in o):
            if not self.roomy(vt, max(lo, 2)):
                o = [x for x in o if x not in 'qs']
        return o

    def roomy(self, vt, n):
        """Does the type have at least n values (conservative)"""
        g = ValueGen(self.r, self.m())
        seen = []
        for _ in range(30):
            try:
                v = g.value(g.m.ref(vt))
            except (Unspec, NoValue):
                return False
            if v not in seen:
                seen.append(v)
            if len(seen) >= n + 1:
                return True
        return False

    # ---- fields
    def fields(self, n, base, ordinal):
        r = self.r
        names = r.sample(FNAMES, n)
        ids = list(range(1, n + 1)) if ordinal else sorted(r.sample([*range(0, 20), 100, 255, 1000, 65536], n), key=lambda x: r.random() if self.p(.5) else x)
        out = []
        haskey = False
        for i, (fid, nm) in enumerate(zip(ids, names)):
            t, to = self.anon()
            fo = []
            if base == 'Choice':
                if self.f['mult'] and self.p(.1):
                    fo += r.choice([[']0'], ['[2', ']3'], [']2']])
                if self.f['links'] and self.keys and self.p(.08):
                    t, to = r.choice(list(self.keys)), []
                    fo.append('L')
            elif self.f['links'] and not haskey and base in ('Map', 'Record', 'Array') and self.p(.15 if base != 'Array' else .06):
                b = r.choice(['String', 'Integer'])
                k = r.random()
                if k < .55:
                    t, to = b, self.prim_opts(b)
                elif k < .75:
                    t, to = self.pick(lambda t: t[1] in ('String', 'Integer')) or b, []
                # else a key of any type
                fo.append('K')
                haskey = True
            elif self.f['links'] and self.keys and self.p(.15):
                t, to = r.choice(list(self.keys)), []
                fo += ['L']
                fo += self.card() if self.p(.5) else []
            else:
                fo += self.card()
                if opts(fo).get('maxc', 1) != 1 and self.p(.25) and 'q' not in to and (t not in CORE or t == 'ArrayOf'):
                    need = opts(fo).get('minc', 1)
                    if need < 2 or self.roomy(t, need) if t not in CORE or not to else False:
                        to = to + ['q']
            o = fo + to
            r.shuffle(o)
            out.append([fid, nm, t, o, self.desc()])
        if self.f['derived'] and (base in ('Map', 'Record') or self.p(.3)) and self.p(.15):
            for f in out:
                if f[2] not in CORE and self.by[f[2]][1] in FIELDED and 'combine' not in opts(self.by[f[2]][2]) and (self.by[f[2]][1] in ('Map', 'Record') or self.p(.4)) and self.by[f[2]][4] and 'K' not in f[3] and 'L' not in f[3] and opts(f[3]).get('maxc', 1) == 1:
                    f[3].append('<')
        return out, haskey

    def card(self):
        r = self.r
        if self.p(.3):
            return ['[0']
        if self.f['mult'] and self.p(.25):
            return r.choice([[']0'], ['[0', ']0'], ['[2', ']3'], ['[0', ']3'], ['[1', ']0'], ['[3', ']3'], [']2'], ['[0', ']1'], ['[1', ']1']])
        return []

    def add_tag(self, base, fs):
        """Append a pair of fields: tag (enumeration of a Choice) and value selected by the tag"""
        ch = self.pick(lambda t: t[1] == 'Choice' and 'combine' not in opts(t[2]) and t[4])
        if not ch:
            return
        used = {f[0] for f in fs}
        a, b = ((len(fs) + 1, len(fs) + 2) if base in ('Record', 'Array') else
                [x for x in r_sample((0, 3, 7, 8, 21, 22, 23, 40, 41), self.r) if x not in used][:2])
        idch = '=' in self.by[ch][2]
        free = [x for x in FNAMES if x not in {f[1] for f in fs}]
        na, nb = self.r.sample(free, 2)
        tag = [a, na, 'Enumerated', ['='] * idch + ['#' + ch], self.desc()]
        if self.p(.3) and (nm := f'{ch[:16]}-Tag') not in self.by:       # the tag has a defined type
            t = [nm, 'Enumerated', list(tag[3]), self.desc(), []]
            self.types.append(t)
            self.by[nm] = t
        if nm := self.pick(lambda t: t[1] == 'Enumerated' and sorted(t[2]) == sorted(tag[3])) if self.p(.6) else None:
            tag[2:4] = nm, []
        val = [b, nb, ch, [], self.desc()]
        if base in ('Record', 'Array') and self.p(.3):     # value precedes tag
            tag[0], val[0] = b, a
            val[3] = [f'&{tag[0]}']
            fs += [val, tag]
        else:
            val[3] = [f'&{tag[0]}'] + (['[0'] if self.p(.3) else [])
            fs += [tag, val]

    # ---- type definitions
    def deftype(self, name):
        r = self.r
        base = r.choice(['Record'] * 4 + ['Map'] * 3 + ['Enumerated'] * 2 + ['Choice'] * 2 + ['Array'] * 2 + ['ArrayOf'] * 2 + ['MapOf'] * 2
                        + ['String', 'Integer', 'Number', 'Binary', 'Boolean'])
        if len(self.types) < 2 and self.p(.6):
            base = r.choice(['String', 'Integer', 'Enumerated', 'Binary', 'Number'])
        o, fs = [], []
        if base in ('String', 'Integer', 'Number', 'Binary', 'Boolean'):
            o = self.prim_opts(base)
        elif base == 'Enumerated':
            if self.f['derived'] and self.p(.25) and (d := self.dref()):
                o = [d] + (['='] if d[0] == '#' and self.f['ids'] and self.p(.3) else [])
            else:
                n = r.choice([1, 2, 3, 5, 8])
                ids = r.sample([*range(0, 15), 127, 200, 1000], n)
                fs = [[i, x, self.desc()] for i, x in zip(ids, r.sample(ITEMS, n))]
                o = ['='] if self.f['ids'] and self.p(.3) else []
                if any(':' in x[1] for x in fs) and o:
                    o = []
        elif base == 'Choice':
            if self.f['unions'] and self.p(.35):
                return self.union(name)
            fs, _ = self.fields(r.choice([1, 2, 3, 4]), base, False)
            o = ['='] if self.f['ids'] and self.p(.3) else []
        elif base == 'Array' and self.f['formats'] and self.p(.2):
            f = r.choice(['ipv4-net', 'ipv6-net', 'tag-uuid'])
            o = ['/' + f]
            fs = [[1, 'addr', 'Binary', ['/' + f[:4] + '-addr'] if self.p(.5) else [], ''], [2, 'len', 'Integer', ['{0'] if self.p(.3) else [], '']]
            if f == 'tag-uuid':
                fs = [[1, 'tag', 'String', ['{1'] if self.p(.3) else [], ''], [2, 'id', 'Binary', ['/uuid'] if self.p(.5) else [], '']]
        elif base in ('Array', 'Map', 'Record'):
            n = r.choice([0, 1, 2, 2, 3, 3, 4, 5, 7]) if base != 'Array' else r.choice([1, 2, 3, 4])
            fs, key = self.fields(n, base, base != 'Map')
            if key:
                self.keys[name] = True
            if self.f['tags'] and self.p(.3) and n < 6:
                self.add_tag(base, fs)
            nreq = sum(1 for f in fs if opts(f[3]).get('minc', 1) > 0)
            if self.p(.25) and fs and not any(f[2] not in CORE and 0 for f in fs):
                lo = r.randint(0, len(fs)) if not any('&' in x[0] for f in fs for x in f[3]) else 0
                hi = r.randint(max(lo, nreq, 1), len(fs))
                zero = self.p(.1)
                if lo or zero:
                    o.append(f'{{{lo}')
                if hi < len(fs) or self.p(.3):
                    o.append(f'}}{hi}')
            if base == 'Map' and self.f['ids'] and self.p(.3):
                o.append('=')
            if base != 'Array' and self.p(.08) and self.f['extras']:
                o.append('o')
            if self.p(.05) and self.f['extras']:
                o.append('X')
        elif base == 'ArrayOf':
            o = self.arrayof()
        elif base == 'MapOf':
            kt = self.kref()
            o = ['+' + kt, '*' + self.vref()]
            self.keys_mapof(name)
            if not self.m().is_enum(kt):
                o += self.size(0 if not self.p(.3) or not self.roomy(kt, 3) else 1, r.choice([0, 1, 2, 5]))
        r.shuffle(o)
        if name == 'TypeRef' and base == 'String' and o in ([], ['{0']):    # means any type name, as in the metaschema
            o = ['{1']
        return [name, base, o, self.desc(), fs]

    def keys_mapof(self, name):
        if self.f['links'] and self.p(.5):
            self.keys[name] = True

    def union(self, name):
        r = self.r
        c = r.choice('OOAX')
        alts = []
        if c == 'A' or (c == 'X' and self.p(.5)):     # overlapping constraints on one base type
            k = r.random()
            if k < .5:
                a, b = r.randint(-10, 5), r.randint(6, 20)
                cons = [['{%d' % a], ['}%d' % b], ['{%d' % (a + 3), '}%d' % (b + 4)]]
                alts = [('Integer', x) for x in cons[:r.randint(2, 3)]]
            else:
                alts = [('String', ['%^[a-z]']), ('String', ['}5']), ('String', ['{2'])][:r.randint(2, 3)]
        else:
            cl = [('Boolean', []), ('Integer', self.prim_opts('Integer')), ('Number', self.prim_opts('Number')), ('String', self.prim_opts('String')),
                  ('Binary', self.prim_opts('Binary')), ('ArrayOf', self.arrayof())]
            if self.p(.3):
                cl.append(('MapOf', ['+String', '*' + self.vref()]))
            if self.f['derived'] and self.p(.3) and (d := self.dref()):
                cl.append(('Enumerated', [d]))
            alts = r.sample(cl, r.randint(1, 4))
            for _ in range(r.randint(0, 2)):
                if t := self.pick(lambda t: True):
                    alts.append((t, []))
            r.shuffle(alts)
        ids = r.sample(range(0, 20), len(alts))
        fs = [[i, n, t, o, self.desc()] for i, n, (t, o) in zip(ids, r.sample(FNAMES, len(alts)), alts)]
        return [name, 'Choice', ['C' + c], self.desc(), fs]

    def schema(self):
        r = self.r
        if self.f['config'] and self.p(.25):
            self.conf = {k: v for k, v in {'$MaxString': r.choice([80, 100, 300]), '$MaxBinary': r.choice([16, 20, 64, 300]),
                                           '$MaxElements': r.choice([40, 60, 150])}.items() if self.p(.6)}
        names = r.sample(TNAMES, self.n)
        for n in names:
            if n in ('Enum', 'Pointer', 'Key', 'Link') and not self.f['collide']:
                continue
            for _ in range(20):
                k = dict(self.keys)
                t = self.deftype(n)
                if sum(len(x) for x in t[2]) < 240 and len(t[2]) <= 10 and self.usable(t):
                    break
                self.keys = k
            else:
                t = [n, 'Boolean', [], '', []]
                self.keys = k
            self.types.append(t)
            self.by[n] = t
        if self.f['recursion'] and self.p(.4):
            for t in self.types:
                if t[1] in ('Map', 'Record', 'Array') and self.p(.3) and not any(x[0] in '{}/' for x in t[2]):
                    used = {f[0] for f in t[4]}
                    i = len(t[4]) + 1 if t[1] != 'Map' else next(x for x in (5, 30, 31, 32, 33) if x not in used)
                    free = [x for x in FNAMES if x not in {f[1] for f in t[4]}]
                    o = ['[0'] + ([']0'] if self.f['mult'] and self.p(.3) else [])
                    to = t[0] if self.p(.25) else r.choice(self.types)[0]
                    if self.f['links'] and to in self.keys and self.p(.5):
                        o.append('L')
                    t[4].append([i, r.choice(free), to, o, self.desc()])
        if self.f['derived'] and self.p(.06):
            self.collections()
        if self.f['wide'] and self.p(.05):
            self.widen()
        self.fix_mult()
        if self.p(.7):
            r.shuffle(self.types)
        sc = {}
        info = {}
        if self.f['info'] and self.p(.7) or self.conf:
            info['package'] = r.choice(['http://example.com/pkg', 'urn:x:y', 'https://example.org/a/b/v1.0'])
            for k, v in (('version', '1.0-wd01'), ('title', 'A "title" & more'), ('description', 'Some: text // with [stuff] é'), ('comment', "c'mon"),
                         ('copyright', '(c) 2020'), ('license', 'CC0-1.0')):
                if self.p(.3):
                    info[k] = v
            if self.p(.5):
                info[r.choice(['roots', 'exports'])] = r.sample([t[0] for t in self.types], r.randint(1, min(3, len(self.types))))
            if self.conf:
                info['config'] = self.conf
            items = list(info.items())
            r.shuffle(items)
            sc['info'] = dict(items)
        sc['types'] = self.types
        return sc

    def collections(self):
        """Collections nested several levels deep, and an enumeration of pointers to their leaves"""
        r = self.r
        free = [n for n in TNAMES if n not in self.by and n not in ('Enum', 'Pointer', 'Key', 'Link')]
        if len(free) < 5:
            return
        *tn, last = r.sample(free, r.choice([4, 5]))
        for k, n in enumerate(tn):
            base = r.choice(['Map', 'Record'])
            fs = [[t, ['<']] for t in tn[:k][-2:]] + [[r.choice(['Integer', 'String', 'Boolean']), []] for _ in range(r.randint(0 if k else 1, 2))]
            r.shuffle(fs)
            ids = range(1, len(fs) + 1) if base == 'Record' else r.sample(range(1, 40), len(fs))
            t = [n, base, [], self.desc(), [[i, f, ft, ['[0'] * self.p(.3) + o, self.desc()] for i, f, (ft, o) in zip(ids, r.sample(FNAMES, len(fs)), fs)]]
            self.types.append(t)
            self.by[n] = t
        d = '>' + tn[-1]
        t = r.choice([[last, 'Enumerated', [d], self.desc(), []], [last, 'ArrayOf', ['*' + d], self.desc(), []], [last, 'MapOf', ['+' + d, '*Integer'], self.desc(), []],
                      [last, 'Record', [], self.desc(), [[1, r.choice(FNAMES), 'Enumerated', [d], self.desc()]]]])
        if t[1] == 'MapOf' and not self.f['mapofenum']:
            t = [last, 'Enumerated', [d], self.desc(), []]
        self.types.append(t)
        self.by[last] = t

    def widen(self):
        """Many fields or items in one type"""
        r = self.r
        c = [t for t in self.types if t[1] in FIELDED and t[4] and not any(x[0] in '{}/C' for x in t[2])]
        if not c:
            return
        tagged = [t for t in c if any(x[0] == '&' for f in t[4] for x in (f[3] if t[1] != 'Enumerated' else ()))]
        t = r.choice(tagged if tagged and self.p(.5) else c)
        n = min(r.choice([12, 20, 33, 40, 64, 70]), self.conf.get('$MaxElements', 100) - len(t[4]) - 3)
        used = {f[0] for f in t[4]}
        ids = iter(range(len(t[4]) + 1, 500)) if t[1] in ('Record', 'Array') else iter(r.sample([i for i in range(300) if i not in used], n))
        have = {f[1] for f in t[4]}
        last = t[4][:]
        for k in range(n):
            i = next(ids)
            nm = r.choice(['w%d', 'w_%d', 'wide%d']) % k
            if nm in have:
                continue
            if t[1] == 'Enumerated':
                t[4].append([i, nm, self.desc()])
            else:
                b = self.prim()
                t[4].append([i, nm, b, ['[0'] * (t[1] != 'Choice' and self.p(.85)), self.desc()])
        if self.p(.5):      # the new fields come first
            t[4] = t[4][len(last):] + last
            if t[1] in ('Record', 'Array'):
                new = {f[0]: k for k, f in enumerate(t[4], 1)}
                for f in t[4]:
                    f[0] = new[f[0]]
                    f[3][:] = [f'&{new[int(o[1:])]}' if o[0] == '&' else o for o in f[3]]

    def fix_mult(self):
        """fields of a type with a pointer/dir option must not lead to a cycle"""
        def cyc(tn, seen):
            if tn in seen:
                return True
            t = self.by.get(tn)
            return bool(t) and t[1] in FIELDED and any(cyc(f[2], seen | {tn}) for f in t[4] if '<' in f[3])
        for t in self.types:
            if t[1] in FIELDED:
                for f in t[4]:
                    if '<' in f[3] and cyc(t[0], set()):
                        f[3].remove('<')

    def usable(self, t):
        """Every type must have at least one value the generator can find"""
        self.types.append(t)
        self.by[t[0]] = t
        try:
            g = ValueGen(self.r, self.m())
            for _ in range(3):
                v = g.value(g.m.ref(t[0]))
                g.m.encode(t[0], v, (True, True))
            return True
        except (NoValue, Unspec, Reject):
            return False
        finally:
            self.types.pop()
            del self.by[t[0]]


class NoValue(Exception):
    pass


CHARS = 'abcXYZ019 _-./:"\\\'<>&{}[]é日😀\u00df%$#@!,;=|\t\n'


class ValueGen:
    """Valid API values of a type, biased to boundaries"""

    def __init__(self, rng, model, maxdepth=6, big=.02):
        self.r, self.m, self.maxdepth, self.big = rng, model, maxdepth, big
        self.budget = 400

    def p(self, x):
        return self.r.random() < x

    def top(self, tname):
        self.budget = 400
        return self.value(self.m.ref(tname), 0)

    def value(self, n, d=0):
        self.budget -= 1
        if d > 25 or self.budget < -2000:
            raise NoValue
        return getattr(self, 'v_' + n.kind)(n, d)

    def length(self, n, d, most=6):
        lo, hi = n.size()
        r = self.r
        if lo > hi:
            raise NoValue
        if d > self.maxdepth or self.budget < 0:
            return lo
        k = r.random()
        if k < .2:
            return lo
        if k < .4 and hi <= 20:
            return hi
        if k < .4 + self.big:
            return hi if hi <= 400 else lo
        return r.randint(lo, min(hi, lo + most))

    def v_Boolean(self, n, d):
        return self.p(.5)

    def v_Integer(self, n, d):
        o, r = n.o, self.r
        lo, hi = o.get('minv'), o.get('maxv')
        f = o.get('format', '')
        if f == 'datetime-ms':
            lo, hi = max(F.MS_MIN, lo if lo is not None else F.MS_MIN), min(F.MS_MAX, hi if hi is not None else F.MS_MAX)
        elif f:
            b = int(f[1:])
            lo, hi = max(-2 ** (b - 1), lo if lo is not None else -2 ** 99), min(2 ** (b - 1) - 1, hi if hi is not None else 2 ** 99)
        if lo is None:
            lo = (hi if hi is not None else 0) - r.choice([1, 10, 2 ** 33, 10 ** 20])
        if hi is None:
            hi = lo + r.choice([1, 10, 2 ** 33, 10 ** 20])
        if lo > hi:
            raise NoValue
        return r.choice([lo, hi, min(lo + 1, hi), max(hi - 1, lo), r.randint(lo, hi), r.randint(lo, hi), min(max(0, lo), hi)])

    def v_Number(self, n, d):
        lo, hi, r = n.o.get('minf'), n.o.get('maxf'), self.r
        if lo is None:
            lo = (hi if hi is not None else 0) - r.choice([1.0, 1e3, 1e15])
        if hi is None:
            hi = lo + r.choice([1.0, 1e3, 1e15])
        c = [lo, hi, min(max(r.uniform(lo, hi), lo), hi), min(max(0.0, lo), hi)]
        i = int(lo) + 1
        if lo <= i <= hi:
            c.append(i)
        return r.choice(c)

    def text(self, k):
        return ''.join(self.r.choice(CHARS) for _ in range(k))

    def v_String(self, n, d):
        o, r = n.o, self.r
        lo, hi = n.size()
        if 'format' in o:
            c = [s for s in F.GOOD[o['format']] if lo <= len(s) <= hi and ('pattern' not in o or re.match(o['pattern'], s))]
        elif 'pattern' in o:
            c = next((p[1] for p in PATTERNS if p[0] == o['pattern']), None)
            if c is None:
                c = {'^[a-z]': ['abc', 'x', 'zé'], '$TypeName': ['Abc', 'X-1'], '$FieldName': ['abc', 'x_1'], '$NSID': ['ns', 'a1']}.get(o['pattern'], [])
            c = [s for s in c if lo <= len(s) <= hi]
        else:
            return self.text(self.length(n, d, 8))
        if not c:
            raise NoValue
        return r.choice(c)

    def v_Binary(self, n, d):
        f, r = n.o.get('format'), self.r
        lo, hi = n.size()
        if f in FIXED_BIN:
            c = [k for k in FIXED_BIN[f] if lo <= k <= hi]
            if not c:
                raise NoValue
            b = bytearray(r.randbytes(r.choice(c)))
            if f == 'uuid':
                b[6] = (b[6] & 15) | (r.randint(1, 5) << 4)
                b[8] = (b[8] & 0x3f) | 0x80
            else:
                b = self.address(len(b))
            return bytes(b)
        return r.randbytes(self.length(n, d, 8))

    def address(self, k):
        """Bytes of an address, often with runs of equal bytes at either end or in the middle"""
        r = self.r
        b = bytearray(r.randbytes(k))
        m = r.randrange(8)
        if m < 5:
            i, j = [(0, k), (0, r.randint(1, k)), (r.randrange(k), k), sorted(r.sample(range(k + 1), 2)), (0, k - 1)][m]
            b[i:j] = bytes([r.choice([0, 0, 0, 255, r.randrange(256)])]) * (j - i)
            if self.p(.2) and k == 16:
                b[:12] = bytes(10) + b'\xff\xff'
        return bytes(b)

    def v_Enumerated(self, n, d):
        if not n.items:
            raise NoValue
        i, x = self.r.choice(n.items)
        return i if n.idopt else x

    def v_Choice(self, n, d):
        if not n.flds:
            raise NoValue
        if c := n.o.get('combine'):
            for _ in range(8):
                v = self.value(self.r.choice(n.flds).node, d + 1)
                try:
                    self.m.enc(n, v, (True, True))
                    return v
                except (Reject, Unspec):
                    pass
            raise NoValue
        f = self.r.choice(n.flds)
        return {f.id if n.idopt else f.name: self.value(f.node, d + 1)}

    def subset(self, n, d):
        lo, hi = n.size()
        r = self.r
        req = [f for f in n.flds if f.req]
        opt = [f for f in n.flds if not f.req]
        a, b = max(0, lo - len(req)), min(len(opt), hi - len(req))
        if a > b:
            raise NoValue
        k = a if d > self.maxdepth or self.budget < 0 else r.choice([a, b, r.randint(a, b), r.randint(a, b)])
        s = {f.id for f in req + r.sample(opt, k)}
        for f in n.flds:        # optional value with a tag requires the tag field
            if f.id in s and f.tag is not None and f.tag not in s:
                s.add(f.tag)
        if not lo <= len(s) <= hi:
            raise NoValue
        return s

    def struct(self, n, d):
        s = self.subset(n, d)
        out = {}
        for f in sorted(n.flds, key=lambda f: f.tag is not None):
            if f.id in s:
                if f.tag is not None:
                    t = out[f.tag]
                    c = next((c for c in f.node.flds if t == (c.id if f.node.idopt else c.name)), None)
                    if c is None:
                        raise NoValue
                    out[f.id] = self.value(c.node, d + 1)
                else:
                    out[f.id] = self.value(f.node, d + 1)
        return out

    def v_Map(self, n, d):
        s = self.struct(n, d)
        names = {f.id: f.name for f in n.flds}
        items = [(names[k], v) for k, v in s.items()]
        self.r.shuffle(items)
        return dict(items)
    v_Record = v_Map

    def v_Array(self, n, d):
        f = n.o.get('format')
        if f in ('ipv4-net', 'ipv6-net'):
            w = 4 if f == 'ipv4-net' else 16
            return [self.address(w), self.r.choice([0, w * 8, w * 8 - 1, self.r.randint(0, w * 8)])]
        if f == 'tag-uuid':
            return [self.value(n.flds[0].node, d + 1), self.v_Binary(Node(self.m, 'Binary', {'format': 'uuid'}), d)]
        s = self.struct(n, d)
        out = [s.get(i + 1) for i in range(len(n.flds))]
        while out and out[-1] is None:
            out.pop()
        return out

    def v_ArrayOf(self, n, d):
        k = self.length(n, d, 4)
        uniq = 'unique' in n.o or 'set' in n.o
        out = []
        lo = n.size()[0]
        tries = 0
        while len(out) < k:
            v = self.value(n.elem, d + 1)
            tries += 1
            if uniq and any(v == x for x in out):
                if tries > 3 * k + 30:
                    if len(out) >= lo:
                        break
                    raise NoValue
                continue
            out.append(v)
        return out

    def v_MapOf(self, n, d):
        k = self.length(n, d, 3)
        lo = n.size()[0]
        out = {}
        tries = 0
        while len(out) < k:
            tries += 1
            key = self.value(n.key, d + 1)
            if isinstance(key, (list, dict)) or key in out:
                if tries > 3 * k + 30:
                    if len(out) >= lo:
                        break
                    raise NoValue
                continue
            out[key] = self.value(n.elem, d + 1)
        return out


JUNK = [None, True, False, 0, 1, -1, 2 ** 70, 1.5, -0.0, '', 'x', 'name', '1', b'', b'\x00\xff', [], {}, [None], [[]], {'a': 1}, {1: 2}, {'x': None},
        [1, 'a', None, {}], {'': ''}, 'é' * 300, [0] * 150, {str(i): i for i in range(120)}, (1, 2), {1, 2}, 1 + 2j, object, [True, 1], {'1': 1},
        '2020-01-01T00:00:00Z', '::1', '1.2.3.4', 'AAAA', 'ff', b'abcd', float('nan'), float('inf'), {None: 1}, [{}], range(3), bytearray(b'ab')]


def mutate(r, v, n=None, m=None, serial=False, mode=None):
    """One structural mutation of a value at a random place: near misses of the schema's constraints and type confusions"""
    paths = []

    def walk(x, path):
        paths.append(path)
        if isinstance(x, dict):
            for k in x:
                walk(x[k], path + [('v', k)])
        elif isinstance(x, list):
            for i in range(len(x)):
                walk(x[i], path + [('v', i)])
    walk(v, [])
    path = r.choice(paths)
    return replace(v, path, lambda x: tweak(r, x))


def replace(v, path, f):
    if not path:
        return f(v)
    k = path[0][1]
    if isinstance(v, dict):
        return {a: (replace(b, path[1:], f) if a == k and type(a) is type(k) else b) for a, b in v.items()}
    return [replace(b, path[1:], f) if i == k else b for i, b in enumerate(v)]


def tweak(r, x):
    k = r.random()
    if k < .12:
        return r.choice(JUNK[:30])
    if isinstance(x, bool):
        return r.choice([not x, int(x), str(x).lower(), None])
    if isinstance(x, int):
        return r.choice([x + 1, x - 1, -x, x * 2 + 1, float(x) + .5, str(x), x + 256, x ^ 1, bool(x & 1), x - 2 ** 31, 10 ** 25, x + 1, x - 1, 0])
    if isinstance(x, float):
        return r.choice([x + .25, x - .25, -x, x + 1, x - 1, str(x), x * 1.001, x - 1e-9, x + 1e-9, x + 1e6])
    if isinstance(x, str):
        c = [x + 'a', x[:-1], x.upper(), x.lower(), x.swapcase(), ' ' + x, x + ' ', x + x, x[1:], 'a' + x, x + '/24', x.replace('-', ''), x.encode(), x + '=',
             ''.join(reversed(x)), x + '\u0660', x[:1] * 300, x + '0', '']
        if x and r.random() < .4:
            i = r.randrange(len(x))
            c = [x[:i] + r.choice('aZ09-_:./g =') + x[i + 1:], x[:i] + x[i + 1:], x[:i] + r.choice('aZ09-_:./') + x[i:]]
        if re.fullmatch('-?[0-9]+', x):
            c += [int(x) if x.isascii() else x, str(int(x) + 1) if x.isascii() else x, '0' + x]
        return r.choice(c)
    if isinstance(x, bytes):
        return r.choice([x + b'\x00', x[:-1], x[1:], x * 2, x.hex(), bytes(reversed(x)), b'', x + x[:1], list(x), x * 40,
                         bytes(16), bytes([255]) * 8, x[:6] + bytes([(x[6] & 15) | (r.randint(0, 15) << 4)]) + x[7:] if len(x) == 16 else x + b'1'])
    if isinstance(x, list):
        y = list(x)
        c = r.randrange(11)
        if c == 0:
            return y + [r.choice(JUNK[:20])]
        if c == 1 and y:
            del y[r.randrange(len(y))]
            return y
        if c == 2 and y:
            return y + [r.choice(y)]
        if c == 3 and y:
            y[r.randrange(len(y))] = None
            return y
        if c == 4 and len(y) > 1:
            i, j = r.sample(range(len(y)), 2)
            y[i], y[j] = y[j], y[i]
            return y
        if c == 5:
            return y + y
        if c == 6:
            return y[:-1]
        if c == 7:
            return {str(i): e for i, e in enumerate(y, 1)}
        if c == 8 and y:
            return (y * 101)[:101]
        if c == 9:
            return [y]
        return y[:len(y) // 2]
    if isinstance(x, dict):
        y = dict(x)
        keys = list(y)
        c = r.randrange(11)
        if c in (0, 1) and keys:
            del y[r.choice(keys)]
            return y
        if c == 2:
            y[r.choice(FNAMES + ['extra', '99', '1'])] = r.choice(JUNK[:20])
            return y
        if c == 3 and keys:
            k1 = r.choice(keys)
            return {tweakkey(r, a) if a == k1 else a: b for a, b in y.items()}
        if c == 4 and keys:
            y[r.choice(keys)] = None
            return y
        if c == 5:
            return list(y.values())
        if c == 6 and len(keys) > 1:
            i, j = r.sample(keys, 2)
            y[i], y[j] = y[j], y[i]
            return y
        if c == 7:
            return {**{f'k{i}': 0 for i in range(101)}, **y}
        if c == 8 and keys:
            y[tweakkey(r, r.choice(keys))] = y[r.choice(keys)]
            return y
        if c == 9:
            return {str(a): b for a, b in y.items()}
        return {r.choice(['0', '5', 'zz', 7]): r.choice(JUNK[:15])}
    return r.choice(JUNK[:20])


def tweakkey(r, k):
    if isinstance(k, int):
        return r.choice([k + 1, str(k), k - 1, f'0{k}', f' {k}', -k])
    if isinstance(k, str) and re.fullmatch('-?[0-9]+', k) and k.isascii() and r.random() < .6:
        return r.choice(['0' + k, ' ' + k, '+' + k, k + ' ', k + '.0', k + 'e0', k[:1] + '_' + k[1:], k[:-1] + chr(0x660 + int(k[-1])), '-' + k, k + '\n'])
    if isinstance(k, str):
        return r.choice([k + '_', k.upper(), k[:-1], k + ' ', 'x' + k, k.swapcase(), '1', 1, str(int(k) + 1) if k.isascii() and k.isdigit() else k + '1', ''])
    return 'k'
