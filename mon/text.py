"""Hostile descriptions and information for the text format checks"""
from . import gen as G
from .model import CORE, FIELDED, opts

PIECES = ['a', 'B', '7', ' ', ' ', 'c  d', ' // ', '//', '/', ':', '::', '=', ' = ', '{', '}', '[', ']', '(', ')', '"', "'", '\\', '|', '*', '#', '%', '&', '<', '>', '&lt;', '&amp;',
          '<b>', '</div>', '<!--', '-->', 'é', '日', '..', '1..2', '[0..1]', 'optional', 'Key(', 'Link(', 'TagId[', 'unique', '/date', '.ID', '{pattern="', '"}', '\\n', '\\u0041',
          'x: "y"', '$', '@', '~', '`', '^', '_', '- ', ', ', 'String', 'Record', 'Map.ID', '1 a String', '/*', '*/', '?', '!', ';', '\u00a0', '\u2022', '\u200b', 'Ω']
MULTI = PIECES + ['\n', '\n\n', '\t', '\r', '\r\n', '\x00', '\x1f', '\x7f', '\x85', '\u2028', '\u2029', '\ufeff', '\x0b', '\x0c', '\U0001f600', '\x1b[0m', '\b']
WS = ' \u00a0'


def line(r, label=False):
    """Single-line trimmed text that does not start like a comment (or, for labels, contain the label separator)"""
    if r.random() < .45:
        return r.choice(G.DESCS)
    while True:
        s = ''.join(r.choice(PIECES) for _ in range(r.choice([1, 2, 3, 5, 9])))
        s = s.strip()
        if s.startswith('//') or (label and '::' in s):
            continue
        return s


def any_text(r):
    return ''.join(r.choice(MULTI) for _ in range(r.choice([0, 1, 1, 2, 3, 6, 12])))


def numbers(r, sc):
    """Multiplicities, sizes and ids of any magnitude"""
    for t in sc['types']:
        if t[1] in ('Map', 'Choice', 'Enumerated') and r.random() < .2:
            k, used = r.choice([1, 10, 111, 99991, 10 ** 12]), {f[0] for f in t[4]}
            new = {i: n for i, n in zip(used, r.sample(range(k + 99), len(used)))} if len(used) < 99 else {}
            for f in t[4]:
                f[0] = new.get(f[0], f[0])
                if t[1] == 'Map':
                    f[3] = [f'&{new.get(int(o[1:]), int(o[1:]))}' if o[0] == '&' else o for o in f[3]]
        if t[1] in FIELDED:
            for f in t[4]:
                if r.random() < .25 and (t[1] == 'Choice' or any(o[0] in '[]' for o in f[3])) and not any(o[0] in '&<KLq' for o in f[3]):
                    lo = r.choice([0, 0, 1, 2, 3, 9, 10, 12, r.randint(2, 40)])
                    hi = r.choice([0, max(lo, 1), max(lo, 1), max(lo, 1) + 1, lo + r.choice([9, 10, 99, 100, 1000000]), 99, 100])
                    f[3] = [o for o in f[3] if o[0] not in '[]'] + r.choice([[f'[{lo}', f']{hi}']] + [[f']{hi}']] * (lo == 1) + [[f'[{lo}']] * (hi == 1))
                    r.shuffle(f[3])
    return sc


def decorate(r, sc, multi=False):
    """Random descriptions and information items in place"""
    if r.random() < .3:
        numbers(r, sc)
    for t in sc['types']:
        t[3] = any_text(r) if multi else line(r)
        for f in t[4]:
            f[-1] = any_text(r) if multi else line(r)
    if r.random() < .6:
        i = sc.get('info', {})
        i.setdefault('package', r.choice(['http://example.com/pkg', 'urn:x:y', 'https://example.org/a?b=c&d#e', "http://x.y/~z/(a)'b'"]))
        for k in ('version', 'title', 'description', 'comment', 'copyright', 'license'):
            if r.random() < .5:
                i[k] = ((any_text(r) if multi or (k != 'title' and r.random() < .3) else line(r)) or 'x')[:60].strip(WS) or 'x'
        if r.random() < .4:
            ns = {p: u for p, u in zip(r.sample(['p', 'ls', 'Abc', 'n1', 'a2345678'], r.randint(1, 3)), ['http://a.b/c', 'urn:q:r', 'https://d.e?f=g'])}
            i['namespaces'] = ns if r.random() < .4 else [[p, u] for p, u in ns.items()]
        if r.random() < .3:
            i[r.choice(['roots', 'exports'])] = [t[0] for t in sc['types']][:r.randint(1, 3)]
        it = list(i.items())
        r.shuffle(it)
        sc['info'] = dict(it)
    if 'namespaces' in sc.get('info', {}) and r.random() < .7:      # imported types
        ns = sc['info']['namespaces']
        p = r.choice(list(ns) if type(ns) is dict else [x[0] for x in ns])
        for t in sc['types']:
            if t[1] in FIELDED:
                for f in t[4]:
                    if f[2] not in CORE and not any(x[0] in '&<L' for x in f[3]) and r.random() < .2:
                        f[2] = f'{p}:{f[2]}'
            for i, x in enumerate(t[2]):
                if x[0] in '*+' and x[1:] not in CORE and x[1] not in '#>' and r.random() < .2:
                    t[2][i] = f'{x[0]}{p}:{x[1:]}'
    return sc


def items(r, sc, bad):
    """Item values that are hard to write as text"""
    for t in sc['types']:
        if t[1] == 'Enumerated' and r.random() < .4:
            used = {f[1] for f in t[4]}
            for f in t[4]:
                s = ''.join(r.choice(PIECES) for _ in range(r.choice([1, 2, 3]))).strip()
                if s and s not in used and not bad(s, '=' in t[2]) and r.random() < .5:
                    f[1] = s
                    used.add(s)
    return sc


__all__ = ['line', 'any_text', 'decorate', 'items', 'opts']
