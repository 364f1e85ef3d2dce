"""C22: malformed schema text is refused, not misread"""
import copy
import html
import io
import json
import re

import jadn
from jadn.convert import html_dumps, html_loads, jidl_dumps, jidl_load, jidl_loads
from jadn.utils import fielddef2jadn, typestr2jadn

from ..common import canon, diff, schema
from ..text import line

CASES = {'quick': 2500, 'thorough': 60000}
RULE = 'one evaluation = one text with one malformation, which must be refused, or the same text without it, which must be read; distinct = distinct malformed texts'
NEED = {'sound': 6000, 'typestr': 60000, 'field': 15000, 'jidl': 30000, 'html': 12000, 'tagged': 1000, 'jadn': 20000, 'after': 6000,
        **{'t:' + k: 250 for k in ('word', 'case', 'paren', 'brace', 'range', 'format', 'option', 'argument', 'glued', 'pattern', 'id')},
        **{'j:' + k: 1500 for k in ('type', 'field', 'multiplicity', 'line', 'assign', 'number', 'info', 'first')}}
ASSUME = ['descriptions and item values may be any text, so nothing written there is malformed', 'repeated keywords, extra blanks and leading zeros are not malformations']
KW = {'unique', 'set', 'unordered', 'sequence', 'extend', 'optional'}
WORDS = ['uniqe', 'Unique', 'sets', 'un ordered', 'sequenc', 'extends', 'extend.', 'junk', ',', ';', 'x', '1', '-', '=', '*', '|', 'unique,', '{', '}', '(x)', '()', '[]', ')', '(', '"', '!', 'é', '/', '{}', '{1}', '{x..}', '.ID', 'id', 'optionl', '\\', '%', '#x', 'String', '<b>']
MULT = ['x', '1.2', '1..x', '..2', '*..2', '1..2..3', '1...2', '', '-1', '1,3', '1-3', '1..-2', ' 1', '1..2 x', '0x1', '1..+', '**', '1. .2', '+1', 'n', '1..two', '?', '0..1]', '[0..1', 'optionl']
LINES = ['???', 'foo bar baz', 'Abc Record', '= Record', '}{', '----', '* x', '1', ' x name String', '{ }', '[1..2]', 'a', '# comment', '; x', '-1 foo String', '1. foo String', 'x: = y', 'type', '"abc"', '<div>', '/x', '/ / x', '1foo String', '*/', ';', ':', ';;', ',', '.', '=', '{}', '-', '!', '"', '()', '[]', '::', '%', '\\', '~', '_', '0', '٣', '\ufeff;']


def structure(s):
    """Type string as head (name, id, arguments), rest; None when it has a pattern"""
    return None if 'pattern=' in s else re.match(r'^([-$:\w]+)(\.ID)?(\(.*?\))?( .*|\{.*)?$', s)


def typestr_damages(r, s, name_only=False):
    """Malformed versions of a type string: (kind, text)"""
    out = []
    w = r.choice(WORDS)
    out.append(('word', f'{s} {w}'))
    if 'pattern="' in s:
        a = s.index('{pattern="')
        b = s.rindex('"}')
        out += [('pattern', s[:b] + s[b + 1:]), ('pattern', s[:b + 1] + s[b + 2:]), ('pattern', s[:b + 1] + r.choice('xé1,') + s[b + 1:]), ('pattern', s[:a + 9] + s[a + 10:]),
                ('pattern', s[:a + 1] + r.choice(['patern', 'Pattern', 'regex', 'pattern:', '']) + s[a + (9 if r.random() < .5 else 8):])]
        if re.search(r'["{}\\]', s[a + 10:b]):      # What the pattern itself contains could close it
            out = out[:1]
        return out
    m = structure(s)
    if not m:
        return out
    name, idt, args, rest = m.groups()
    if name in ('Key', 'Link') and args and 'TagId[' not in args:
        x = s[len(name) + 1:-1]
        return out + [('glued', f'{s}x'), ('paren', s[:-1]), ('paren', s + ')'), ('paren', f'{name}{x})'), ('paren', f'{name}[{x}]'), *([] if '[' in x else [('option', f'{name}s({x})')])]
    i, j = m.span(3) if args else (m.end(2) if idt else m.end(1),) * 2
    for k in KW & set((rest or '').split()):
        bad = r.choice([k[:-1], k + k[-1], k.capitalize(), k.upper(), k[1:], '-' + k, k + '=true', k + ','])
        out.append(('case', s[:i] + s[i:].replace(' ' + k, ' ' + bad, 1)))
    if idt:
        out.append(('id', s[:m.start(2)] + r.choice(['.Id', '.id', '.IDX', '.I', '.', '.ID.ID', '.ID=1', ' .ID', '.TAG']) + s[m.end(2):]))
    if args:
        x = args[1:-1]
        out += [('paren', s[:i] + args[:-1] + s[j:]), ('paren', s[:i] + args[1:] + s[j:]), ('paren', s[:i] + args + ')' + s[j:]), ('paren', s[:i] + '[' + x + ']' + s[j:]), ('paren', s[:i] + '()' + s[j:])]
        out.append(('glued', s[:j] + r.choice(['x', ';', ',', '.ID', '(x)', '1', ')']) + s[j:]))
        if name == 'MapOf':
            out.append(('argument', s[:i] + '(' + x.split(',')[0] + ')' + s[j:]))
            out.append(('argument', s[:i] + '(' + x + ', String)' + s[j:]))
        else:
            out.append(('argument', s[:i] + '(' + x + ', ' + r.choice(['String', 'Abc', '1']) + ')' + s[j:]))
        if '[' in x:
            f = re.search(r'(\w+)\[([^\]]*)\]', x)
            a, b = f.span()
            a, b = a + i + 1, b + i + 1
            out += [('option', s[:a] + r.choice(['Enumx', 'Foo', 'En um', 'Poin', 'Enums', 'Tag', 'T', '']) + s[a + len(f.group(1)):]), ('option', s[:b - 1] + s[b:]), ('option', s[:a] + s[a:].replace('[', '', 1)), ('option', s[:b] + 'x' + s[b:])]
        elif name not in ('ArrayOf', 'MapOf'):
            out.append(('option', s[:i] + '(' + r.choice(['anyof', 'AnyOf', 'any', 'someOf', 'noneOf', 'allof', 'one Of', 'anyOf allOf']) + ')' + s[j:]))
    elif name not in ('ArrayOf', 'MapOf', 'Choice', 'Key', 'Link'):
        out.append(('argument', s[:i] + r.choice(['(String)', '(Abc)', '(x)', '(anyOf)']) + s[i:]))
    g = re.search(r'\{([^{}]*)\.\.([^{}]*)\}', rest or '')
    if g:
        a, b = (x + m.start(4) for x in g.span())
        lo, hi = g.groups()
        out += [('brace', s[:a] + s[a + 1:]), ('brace', s[:b - 1] + s[b:]), ('brace', s[:a] + '[' + s[a + 1:b - 1] + ']' + s[b:]), ('brace', s[:b] + '}' + s[b:]), ('brace', s[:a] + '{' + s[a:])]
        n = r.choice(['x', '', '1,5', '--1', '1x', '0x1', 'a..', '/', '1..', '?', '**', 'one', '1 2'])
        out.append(('range', s[:a] + '{' + (f'{n}..{hi}' if r.random() < .5 else f'{lo}..{n}') + '}' + s[b:]))
        out.append(('range', s[:a] + '{' + lo + r.choice(['.', '-', ',', ' ', ':', 'to', '']) + hi + '}' + s[b:]))
        out.append(('range', s[:b] + g.group(0) + s[b:]))
        if name not in ('Number',):
            out.append(('range', s[:a] + '{' + r.choice(['1.5..2', '1..2.5', '1e1..20', '0.0..4']) + '}' + s[b:]))
    else:
        out.append(('range', s[:j] + r.choice(['{x..y}', '{1....5}', '{1}', '{1..5', '1..5}', '{..}', '{}', '{1..5..9}', '{1,5}', '[1..5]', '{patern="x"}', '{"x"}']) + s[j:]))
    f = re.search(r' (/[-\w]+)', rest or '')
    if f:
        a, b = (x + m.start(4) for x in f.span(1))
        out.append(('format', s[:a] + r.choice(['/', '//' + s[a + 1:b], s[a + 1:b], s[a:b] + '/x', s[a:b] + '=1', s[a:b] + ' ' + s[a:b], s[a:b] + ' /i8', '/ ' + s[a + 1:b], s[a:b] + ',', '\\' + s[a + 1:b]]) + s[b:]))
        out.append(('format', s[:a - 1] + s[a:]))
    else:
        out.append(('format', s + r.choice([' /', ' //date', ' / date', '/date', ' /i8 /date', ' /date/x', ' date'])))
    return out


def refused(ctx, kind, f, text, **extra):
    ctx.event(kind.split(':')[0] if kind[:2] not in ('t:', 'j:') else kind, text)
    try:
        got = f(text)
    except Exception as e:      # any exception is a refusal; see C05 for the classes of the codec
        return e
    ctx.fail('malformed text is read as something else', malformation=kind, text=text, read=got, **extra)


def typestrings(ctx, sc):
    r = ctx.rng
    todo = []
    for t in sc['types']:
        todo.append((jadn.jadn2typestr(t[1], list(t[2])), None, None))
        if t[1] not in ('Enumerated',):
            todo += [(x[1], x[2], x) for x in (jadn.jadn2fielddef(f, t) for f in t[4])]
    r.shuffle(todo)
    for s, mult, fd in todo[:12]:
        ds = typestr_damages(r, s)
        r.shuffle(ds)
        for kind, d in ds[:4]:
            ctx.event('typestr')
            refused(ctx, 't:' + kind, typestr2jadn, d, original=s)
            if fd and r.random() < .5:
                refused(ctx, 'field', lambda x: fielddef2jadn(1, fd[0], x, mult, fd[3]), d, original=s)


def jidl(ctx, sc):
    r = ctx.rng
    text = jidl_dumps(copy.deepcopy(sc))
    try:
        got = jidl_loads(text)
    except Exception:
        return None         # see C10
    ctx.event('sound')
    ls = text.split('\n')
    kinds = []      # kind of each line, with its definition
    for k in sc.get('info', {}):
        kinds.append(('info', None))
    body = []
    for t in sc['types']:
        body.append(('type', t, None))
        body += [('field', t, f) for f in t[4]]
    at = [i for i, x in enumerate(ls) if x.strip()]
    if len(at) != len(kinds) + len(body):
        return None
    where = dict(zip(at[len(kinds):], body))
    info = at[:len(kinds)]
    seps = {}

    def split(n):
        """Text and description of a line that has no pattern"""
        x = ls[n]
        if '{pattern=' in x:
            return None
        h, s, d = x.partition(' //')
        return h.rstrip(), '   ' + s.strip(' ') + d if s else ''

    def doc(n, new):
        return '\n'.join(ls[:n] + new + ls[n + 1:])

    def gone(kind, text, **kw):
        ctx.event('jidl')
        kw['damaged_lines'] = [x for x in text.split('\n') if x not in ls]
        refused(ctx, 'j:' + kind, lambda x: jidl_loads(x) if r.random() < .7 else jidl_load(io.StringIO(x)), text, **kw)

    for n in r.sample(list(where), min(len(where), 5)):
        k, t, f = where[n]
        hd = split(n)
        if not hd:
            continue
        h, d = hd
        if k == 'type':
            m = re.match(r'^(\S+) = (.*)$', h)
            if not m:
                continue
            ds = typestr_damages(r, m.group(2))
            kind, s = r.choice(ds)
            if r.random() < .15 and '(' not in m.group(2):
                kind, s = 'tag', re.sub(r'^[\w.]+', lambda x: x.group(0) + tag(r), m.group(2))
            if not s.endswith('{') and '//' not in s:
                gone('type', doc(n, [f'{m.group(1)} = {s}{d}']), line=ls[n], damage=kind)
            gone('assign', doc(n, [m.group(1) + r.choice([' ', ' : ', ' - ', ' := ', ' -> ', ' is ', '']) + m.group(2) + d]), line=ls[n])
            gone('assign', doc(n, [r.choice([f'{m.group(1)} ={d}', f'= {m.group(2)}{d}', f'{m.group(1)}{d}', f'{m.group(2)} {d}'])]), line=ls[n])
        elif t[1] != 'Enumerated':
            _, ts, mult, _ = jadn.jadn2fielddef(f, t)
            idt = '=' in t[2] or t[1] == 'Array'
            pre = f'  {f[0]}' + ('' if idt else ' ' + f[1] + ('/' if '<' in f[3] else ''))
            if mult and (any(c in mult for c in '[]{}') or not re.fullmatch(r'[\d.*]+', mult)):
                continue
            ms = '' if not mult or mult == '1' else ' optional' if mult == '0..1' and r.random() < .5 else f' [{mult}]'
            kind, s = r.choice(typestr_damages(r, ts))
            if re.search(r'(\[[.*\w]+\]|\boptional)$| //', s):
                continue
            gone('field', doc(n, [f'{pre} {s}{ms}{d}']), line=ls[n], damage=kind)
            gone('multiplicity', doc(n, [f'{pre} {ts} ' + r.choice([f'[{r.choice(MULT)}]', '[0..1', '0..1]', '[1..2] optional', 'optional [1..2]', 'optional optional', 'optionl', 'Optional', '(1..2)', '{x}', '[1..2] [1..2]', 'optional,', '[0..1],']) + d]), line=ls[n])
            gone('number', doc(n, [f'  {r.choice(["x", "-1", "1x", "", "1.", "0x1", "#1", "(1)", "é", "1,", "one", "*"])}{"" if idt else " " + f[1]} {ts}{ms}{d}']), line=ls[n])
        elif t[1] == 'Enumerated' and t[4]:
            gone('number', doc(n, [f'  {r.choice(["x", "-", "*", "", "#1", "(1)", "one", "."])} foo'.rstrip() + d]), line=ls[n])
    n = r.choice(list(where))
    pool = [x for x in LINES if not re.match(r'\s*\d', x)] if any(t[1] == 'Enumerated' for t in sc['types']) else LINES   # "1foo" is an item
    rem = lambda: r.choice(['', '', ' // note', '  //', ' // 1 foo String'])
    gone('line', doc(n, [ls[n], r.choice(pool) + rem()]))
    gone('line', doc(n, [r.choice(['  ', '', '\t', '    ']) + r.choice(pool) + rem(), ls[n]]))
    gone('first', '\n'.join([r.choice(['  1 foo String', '1', 'foo String', '  1 foo', '= String', 'x', '  1 String // foo::', 'package', '???', '[0..1]', '"x"', '}{']), *ls]))
    for i in info[:2]:
        a, _, b = ls[i].partition(':')
        gone('info', doc(i, [r.choice([f'{a}: {b.strip()[:-1]}', f'{a}:', f'{a} = {b.strip()}x', f'{a} {b.strip()}', f'{a}: {b.strip()} x', f'{a}: x{b.strip()}', f': {b.strip()}', f'{a}; {b.strip()}', f'{a}: \'x\'', f'{a}: {{'])]), line=ls[i])
    if not info:
        gone('info', '\n'.join([r.choice(['package: "http://x', 'package: http://x', 'package:', 'title: \'x\'', 'roots: ["A"', 'config: {"a": }', 'package "http://x.y"', 'namespaces: [["a", "b"],]']), *ls]))
    return text, got


def tag(r):
    return f"(TagId[{r.choice(['1', '2', 'x', 'type', '0'])}])"


def pages(ctx, sc):
    r = ctx.rng
    text = html_dumps(copy.deepcopy(sc))
    try:
        got = html_loads(text)
    except Exception:
        return None         # see C11
    ctx.event('sound')

    def cells(c):
        return [m for m in re.finditer(r'<(\w+) class="[^"]*\b%s\b[^"]*">([^<]*)</\1>' % c, text)]

    def gone(m, new, what):
        a, b = m.span(2)
        d = text[:a] + html.escape(new, quote=False) + text[b:]
        ctx.event('html', d)
        try:
            x = html_loads(d)
        except Exception:
            return
        ctx.fail('malformed text is read as something else', malformation=what, cell=m.group(0), text_of_cell=new, read=x, schema=sc)
    ts = cells('jTstr') + cells('jFstr')
    for m in r.sample(ts, min(4, len(ts))):
        s = html.unescape(m.group(2))
        if not s.strip():
            continue
        kind, d = r.choice(typestr_damages(r, s.strip()))
        gone(m, d, kind)
        if s.strip().startswith('= ') and '(' not in s:
            ctx.event('tagged')
            gone(m, re.sub(r'= [\w.]+', lambda x: x.group(0) + tag(r), s), 'external tag of a definition')
    for m in (lambda x: r.sample(x, min(2, len(x))))([c for c in cells('jFmult')]):
        gone(m, r.choice([x for x in MULT if x.strip() and not re.fullmatch(r'\s*\d+\s*', x)]), 'multiplicity')
    for m in (lambda x: r.sample(x, min(1, len(x))))(cells('jFid')):
        gone(m, r.choice(['x', '1x', '', '1.5', '#1', '-', 'one']), 'field id')
    for m in (lambda x: r.sample(x, min(1, len(x))))(cells('jVal')):
        v = html.unescape(m.group(2)).strip()
        gone(m, r.choice([v[:-1], v + ' x', 'x' + v, '{', "'x'", '']), 'information')
    return text, got


def documents(ctx, sc):
    r = ctx.rng
    text = jadn.dumps(sc, strip=r.random() < .5)
    try:
        got = jadn.loads(text)
    except Exception:
        return None         # see C12
    ctx.event('sound')
    k = r.randint(0, len(text.rstrip()) - 1)
    for kind, d in (('cut', text[:k]), ('trailing', text + r.choice(['x', ']', '}', '{}', ', ', '[]', '"'])), ('leading', r.choice(['x', '// c\n', ',', '{}', '[', "'"]) + text),
                    ('comma', text.rstrip()[:-1] + ',}'), ('quote', text.replace('"', "'", r.randint(1, 3)))):
        ctx.event('jadn')
        refused(ctx, 'jadn', lambda x: jadn.loads(x) if r.random() < .6 else jadn.load(io.StringIO(x)), d, malformation_of_json=kind)
    return text, got


def case(ctx, i):
    r = ctx.rng
    sc = schema(ctx)
    for t in sc['types']:
        t[3] = line(r) if r.random() < .5 else ''
        for f in t[4]:
            f[-1] = line(r) if r.random() < .4 else ''
            if t[1] == 'Enumerated':
                f[1] = re.sub(r'\W', '_', f[1]) or 'x'
    if r.random() < .7:
        sc['info'] = {'package': 'http://x.y/z', **({'title': 'a b'} if r.random() < .5 else {}), **sc.get('info', {})}
    for t in sc['types']:
        seen = set()
        for f in t[4]:
            while t[1] == 'Enumerated' and f[1] in seen:
                f[1] += '_'
            seen.add(f[1])
    typestrings(ctx, sc)
    for f, load in ((jidl, jidl_loads), (pages, html_loads), (documents, jadn.loads)):
        x = f(ctx, sc)
        if x:
            ctx.event('after')
            again = load(x[0])
            if json.dumps(again) != json.dumps(x[1]) or diff(canon(sc), canon(again)):
                ctx.fail('text is read differently after refused texts', reader=f.__name__, text=x[0], before=x[1], after=again)
