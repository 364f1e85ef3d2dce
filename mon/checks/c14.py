"""C14: Markdown tables and diagrams are complete and well formed"""
import collections
import copy
import json
import os
import re
import shutil
import subprocess
import xml.etree.ElementTree as ET

import jadn
from jadn.convert import diagram_dump, diagram_dumps, markdown_dump, markdown_dumps
from jadn.utils import fielddef2jadn, typestr2jadn

from ..common import jcopy, schema, tmpdir
from ..run import reader
from ..model import CORE, FIELDED, opts
from ..text import decorate, items

CASES = {'quick': 8000, 'thorough': 150000}
RULE = 'one evaluation = one Markdown row, diagram node, field line or edge compared with the definition it stands for; distinct = distinct output documents'
NEED = {'markdown': 7800, 'row': 70000, 'title': 20000, 'single': 25000, 'diagram': 40000, 'graphviz': 15000, 'plantuml': 20000, 'node': 200000, 'line': 200000, 'edge': 120000, 'dashed': 5000, 'file': 1000}
ASSUME = ['line breaks in descriptions may be shown as <br> or white space', 'item values and labels are single-line', 'the DOT parser of the check covers the attribute, node and edge statements and HTML labels; where the dot program is installed it judges a sample too']
PRIM = CORE[:5]
DOT = shutil.which('dot')


def mult(o):
    lo, hi = o.get('minc', 1), o.get('maxc', 1)
    return '1' if (lo, hi) == (1, 1) else f'{lo}..{hi if hi >= 1 else "*"}'


@reader
def norm(base, olist):
    """Options without explicit defaults"""
    o = opts(olist)
    if base != 'Integer' and o.get('minv') == 0:
        del o['minv']
    for k in ('minc', 'maxc'):
        if o.get(k) == 1:
            del o[k]
    return o


def labelled(t):
    return t[1] == 'Array' or '=' in t[2] or any(x[0] == 'C' for x in t[2])


def same_typedef(t, s):
    """Does the type string define the type"""
    try:
        b, o, fo = typestr2jadn(s)
    except Exception:
        return False
    return b == t[1] and not fo and norm(b, o) == norm(b, t[2])


def same_fielddef(t, f, typ, mul):
    """Do the type and multiplicity text define the field"""
    try:
        g = fielddef2jadn(f[0], f[1], typ, mul, '')
    except Exception:
        return False
    want, got = norm(f[2], f[3]), norm(f[2], [x for x in g[3] if x[0] != '&'])
    tag = want.pop('tagid', None)
    gtag = next((x[1:] for x in g[3] if x[0] == '&'), None)
    want.pop('dir', None)
    got.pop('dir', None)
    if tag is not None and gtag is not None:
        gtag = next((x[0] for x in t[4] if x[1] == gtag), int(gtag) if gtag.isdigit() else None)
    return g[2] == f[2] and got == want and gtag == tag


# ---------------------------------------------------------------- Markdown
@reader
def cells(row):
    """Cells of a table row: split at bars that are not escaped"""
    if not re.fullmatch(r'\|.*\|', row, re.S):
        return None
    return [c.strip().replace('\\|', '|') for c in re.split(r'(?<!\\)\|', row)[1:-1]]


def plain(c):
    return c.replace('\\*', '*').replace('\\#', '#')


def ws(s):
    """Text with line breaks as one line"""
    return re.sub(r'(<br>|\s)+', ' ', s).strip()


def emphasis(c):
    """Are there asterisks in a type or multiplicity text that Markdown can read as emphasis"""
    return len(re.findall(r'(?<!\\)\*', c)) > 0


def unbold(c):
    return c[2:-2] if len(c) > 4 and c.startswith('**') and c.endswith('**') else c


def described(cell, label, desc):
    """Description cell shows the label (if any) and the description"""
    full = (f'{label}:: ' if label else '') + desc
    p = full.split('::')
    return ws(cell) == ws(full) or (len(p) == 2 and ws(cell) == ws(f'**{p[0]}** - {p[1].strip()}'))


@reader
def markdown(ctx, sc, text):
    ctx.event('markdown', text)
    at = end = 0
    for k, v in sc.get('info', {}).items():
        m = re.search(rf'^\s*{re.escape(k)}: (.*)$', text, re.M)
        if not m or json.loads(m.group(1)) != v:
            ctx.fail('information item is missing from the Markdown output', item=k, value=v, text=text)
    ls = text.split('\n')
    for n, t in enumerate(sc['types']):
        # next table: header followed by rule
        while at + 1 < len(ls) and not (ls[at].startswith('| ') and re.fullmatch(r'\|(-{3,}\|)+', ls[at + 1])):
            at += 1
        if at + 1 >= len(ls):
            ctx.fail('Markdown output has no table for a type', type=t, text=text)
            return
        head = [plain(c) for c in cells(ls[at])]
        w = len(ls[at + 1].split('|')) - 2
        before, start = ls[:at], at
        at += 2
        rows = []
        while at < len(ls) and ls[at].startswith('|'):
            rows.append(cells(ls[at]))
            at += 1
        last, end = end, at
        if w != len(head) or any(x is None or len(x) != len(head) for x in rows):
            ctx.fail('Markdown row does not have as many cells as the header', type=t, header=head, rows=[x for x in rows if x is None or len(x) != len(head)], source=ls[start:at])
            continue
        fs = t[4] if len(t) > 4 else []
        if not fs:
            ctx.event('single')
            if len(rows) != 1 or len(head) != 3 or unbold(rows[0][0]) != t[0] or not same_typedef(t, plain(rows[0][1])) or emphasis(rows[0][1]) or ws(rows[0][2]) != ws(t[3]):
                ctx.fail('Markdown table of a type without fields is not its definition', type=t, rows=rows)
            continue
        ctx.event('title')
        title = next((x for x in reversed(before) if x.strip()), '')
        m = re.fullmatch(r'\*\*Type: (\S+) \((.*)\)\*\*', title)
        if not m or m.group(1) != t[0] or emphasis(m.group(2)) or not same_typedef(t, plain(m.group(2))):
            ctx.fail('Markdown heading is not the definition of the type', type=t, heading=title)
        if ws(t[3]) not in ws('\n'.join(before[last:])):
            ctx.fail('Markdown output does not show the description of a type', type=t, lines=before[last:])
        lab, enum = labelled(t), t[1] == 'Enumerated'
        if len(rows) != len(fs) or len(head) != 2 + (not lab) + 2 * (not enum):
            ctx.fail('Markdown table does not have one row per field', type=t, header=head, rows=rows)
            continue
        for f, row in zip(fs, rows):
            ctx.event('row')
            c = list(row)
            ok = c.pop(0) == str(f[0])
            d = not enum and 'dir' in opts(f[3])
            if not lab:
                x = c.pop(0)
                ok = ok and x in (f'**{f[1]}{"/" if d else ""}**', f'{f[1]}{"/" if d else ""}')
            if not enum:
                ok = ok and same_fielddef(t, f, plain(c[0]), plain(c[1])) and plain(c[1]) == mult(opts(f[3])) and not emphasis(c[0]) and not emphasis(c[1])
                c = c[2:]
            ok = ok and described(c[0], (f[1] + ('/' if d else '')) if lab else '', f[-1])
            if not ok:
                ctx.fail('Markdown row does not show its field', type=t, field=f, row=row)
    if any(x.startswith('| ') for x in ls[at:]):
        ctx.fail('Markdown output has more tables than types', text='\n'.join(ls[at:]))


# ---------------------------------------------------------------- GraphViz
class Syntax(Exception):
    pass


@reader
def tokens(s):
    i = 0
    while i < len(s):
        ch = s[i]
        if ch.isspace():
            i += 1
        elif ch == '#' and (i == 0 or s[i - 1] == '\n'):
            i = s.find('\n', i) if '\n' in s[i:] else len(s)
        elif s.startswith('//', i):
            i = s.find('\n', i) if '\n' in s[i:] else len(s)
        elif s.startswith('->', i):
            yield '->', '->'
            i += 2
        elif ch in '{}[];,=':
            yield ch, ch
            i += 1
        elif ch == '"':
            j = i + 1
            while j < len(s) and s[j] != '"':
                j += 2 if s[j] == '\\' else 1
            if j >= len(s):
                raise Syntax('string is not closed')
            yield 'id', s[i + 1:j]
            i = j + 1
        elif ch == '<':
            j, n = i + 1, 1
            while j < len(s) and n:
                n += {'<': 1, '>': -1}.get(s[j], 0)
                j += 1
            if n:
                raise Syntax('HTML string is not closed')
            yield 'html', s[i + 1:j - 1]
            i = j
        elif m := re.compile(r'[A-Za-z_\u0080-\uffff][A-Za-z_0-9\u0080-\uffff]*|-?(?:\.[0-9]+|[0-9]+(?:\.[0-9]*)?)').match(s, i):
            yield 'id', m.group(0)
            i = m.end()
        else:
            raise Syntax(f'unexpected {s[i:i + 20]!r}')


@reader
def dot(s):
    """Parse a digraph: ([(node, attributes)], [(from, to, attributes)])"""
    tk = list(tokens(s)) + [('end', None)]
    p = 0

    def take(kind, val=None):
        nonlocal p
        if tk[p][0] != kind or (val is not None and tk[p][1] != val):
            raise Syntax(f'expected {val or kind}, found {tk[p]}')
        p += 1
        return tk[p - 1][1]

    def value():
        nonlocal p
        if tk[p][0] not in ('id', 'html'):
            raise Syntax(f'expected value, found {tk[p]}')
        p += 1
        return tk[p - 1]

    def attrs():
        nonlocal p
        out = {}
        while tk[p][0] == '[':
            p += 1
            while tk[p][0] != ']':
                k = take('id')
                take('=')
                if k in out:
                    raise Syntax(f'attribute {k} repeated')
                out[k] = value()
                if tk[p][0] in (',', ';'):
                    p += 1
            p += 1
        return out

    take('id', 'digraph')
    if tk[p][0] == 'id':
        p += 1
    take('{')
    nodes, edges = [], []
    while tk[p][0] != '}':
        n = take('id')
        if tk[p][0] == '=':
            p += 1
            value()
        elif tk[p][0] == '->':
            p += 1
            to = take('id')
            edges.append((n, to, attrs()))
        elif n in ('graph', 'node', 'edge'):
            attrs()
        else:
            nodes.append((n, attrs()))
        if tk[p][0] == ';':
            p += 1
    take('}')
    take('end')
    return nodes, edges


@reader
def html(s):
    """Title and lines of an HTML label"""
    try:
        x = ET.fromstring(f'<x>{s}</x>')
    except ET.ParseError as e:
        raise Syntax(f'HTML label: {e}')

    def txt(e):
        if e.tag not in ('b', 'td', 'i'):
            raise Syntax(f'HTML label: element {e.tag} among text')
        return (e.text or '') + ''.join(txt(c) + (c.tail or '') for c in e)

    (e,) = x
    if e.tag == 'b':
        return txt(e).strip(), []
    if e.tag != 'table':
        raise Syntax(f'HTML label: {e.tag}')
    out, hr = [], True
    for c in e:
        if c.tag == 'hr':
            if hr:
                raise Syntax('HTML label: rule is not between rows')
            hr = True
            continue
        if c.tag != 'tr' or len(c) != 1 or c[0].tag != 'td':
            raise Syntax('HTML label: not a row of one cell')
        hr = False
        out.append(txt(c[0]).strip())
    if hr:
        raise Syntax('HTML label: rule is not between rows')
    return out[0], out[1:]


@reader
def read_graphviz(text):
    nodes, edges = dot(text)
    out = []
    for n, a in nodes:
        k, lab = a.get('label', (None, None))
        if k != 'html':
            raise Syntax(f'node {n} has no label')
        out.append((n, *html(lab)))
    es = [(a, b, o.get('label', ('', None))[1], o.get('headlabel', ('', None))[1], o.get('style', ('', ''))[1] == 'dashed') for a, b, o in edges]
    return out, es


@reader
def read_plantuml(text):
    ls = text.split('\n')
    i = ls.index('@startuml')
    if ls.count('@startuml') != 1 or '@enduml' not in ls[-2:] or any(x.strip() and not x.startswith("'") for x in ls[:i]):
        raise Syntax('PlantUML: start and end')
    nodes, edges, idx = [], [], {}
    for x in ls[i + 1:ls.index('@enduml')]:
        x = x.strip(' ')
        if not x or x.startswith("'") or re.match(r'(hide|skinparam|title) ', x):
            continue
        if m := re.fullmatch(r'class "(.*)" as (\w+)', x):
            idx[m.group(2)] = len(nodes)
            nodes.append((m.group(2), m.group(1), []))
        elif m := re.fullmatch(r'(\w+) (?:"([^"]*)" )?(--|\.\.?)>(?: "([^"]*)")? (\w+)(?: : (.*))?', x):
            edges.append((m.group(1), m.group(5), m.group(6), m.group(4), m.group(3) != '--'))
        elif m := re.fullmatch(r'(\w+) : (.*)', x):
            nodes[idx[m.group(1)]][2].append(m.group(2).strip())
        else:
            raise Syntax(f'PlantUML: {x!r}')
    return nodes, edges


@reader
def diagram(ctx, sc, st, text):
    f = st['format']
    ctx.event('diagram', text)
    ctx.event(f)
    try:
        nodes, edges = (read_graphviz if f == 'graphviz' else read_plantuml)(text)
    except (Syntax, ValueError, KeyError) as e:
        ctx.fail(f'{f} output cannot be parsed', error=f'{type(e).__name__}: {e}', style=st, text=text)
        return
    info = st['detail'] == 'information'
    shown = [t for t in sc['types'] if st['attributes'] or t[1] not in PRIM + ('Enumerated',)]
    if len({n[0] for n in nodes}) != len(nodes):
        ctx.fail('node appears twice in a diagram', nodes=[n[:2] for n in nodes], style=st)
        return
    lab = {}
    for n, title, lines in nodes:
        name = title.split(' : ')[0] if info else title
        if name in lab:
            ctx.fail('type has two nodes in a diagram', type=name, style=st)
        lab[name] = (n, title, lines)
    if set(lab) != {t[0] for t in shown}:
        ctx.fail('diagram does not show the types to be shown', missing=[t for t in shown if t[0] not in lab], extra=[x for x in lab if x not in [t[0] for t in shown]], style=st, text=text)
        return
    want = collections.Counter()
    for t in shown:
        ctx.event('node')
        n, title, lines = lab[t[0]]
        if info and not same_typedef(t, title.split(' : ', 1)[-1]):
            ctx.fail('node label does not show the type definition', type=t, label=title, style=st)
        fs = t[4]
        if st['detail'] == 'conceptual':
            if lines:
                ctx.fail('conceptual diagram shows fields', type=t, lines=lines)
        elif len(lines) != len(fs):
            ctx.fail('node does not have one line per field', type=t, lines=lines, style=st)
        else:
            for fd, x in zip(fs, lines):
                ctx.event('line')
                enum = t[1] == 'Enumerated'
                if st['detail'] == 'logical':
                    ok = x == fd[1].strip()
                elif enum:
                    ok = x == (f'{fd[0]} {fd[1]}' if not labelled(t) else f'{fd[0]}')
                else:
                    nm = '' if labelled(t) else fd[1] + ('/' if 'dir' in opts(fd[3]) else '')
                    pre = f'{fd[0]} {nm} :'
                    y = re.sub(r'^\{field\} ', '', x[len(pre):].strip())
                    mu = mult(opts(fd[3]))
                    ok = x.startswith(pre)
                    if ok and mu != '1':
                        ok = y.endswith(f' [{mu}]')
                        y = y[:-len(mu) - 3]
                    ok = ok and same_fielddef(t, fd, y, mu)
                if not ok:
                    ctx.fail('diagram line does not show its field', type=t, field=fd, line=x, style=st)

        def edge(to, label, mul, link):
            if to in lab:
                ctx.event('edge')
                ctx.event('dashed', n=link)
                want[(n, lab[to][0], (label.replace('-', '_') if f == 'graphviz' else label) if st['edge_label'] else None, mul if st['edge_mult'] else None, link)] += 1

        o = opts(t[2])
        if t[1] in ('ArrayOf', 'MapOf'):
            for k, label in (('ktype', 'key'), ('vtype', 'value')):
                if k in o:
                    edge(o[k], label, '1', False)
        elif t[1] != 'Enumerated' and t[1] in FIELDED:
            for fd in fs:
                o = opts(fd[3])
                edge(o['vtype'] if fd[2] in ('ArrayOf', 'MapOf') else fd[2], fd[1], mult(o), 'link' in o)
    got = collections.Counter(edges)
    if got != want:
        ctx.fail('edges of the diagram are not the references of the schema', missing=list((want - got).elements())[:5], extra=list((got - want).elements())[:5], nodes={k: v[0] for k, v in lab.items()}, style=st, schema=sc)


def style(r):
    st = {'format': r.choice(['graphviz', 'plantuml']), 'detail': r.choice(['conceptual', 'logical', 'information', 'information']), 'attributes': r.random() < .5,
          'edge_label': r.random() < .7, 'edge_mult': r.random() < .7, 'links': True, 'link_horizontal': r.random() < .5}
    return st


def case(ctx, i):
    r = ctx.rng
    sc = schema(ctx)
    if i % 3 == 0:      # unfolded schemas are documented too
        try:
            sc = jadn.transform.unfold_extensions(sc)
        except Exception:
            ctx.count['unspecified'] += 1       # see C08
            return
        sc = jcopy(sc)
    sc = items(r, decorate(r, sc, i % 2 == 0), lambda s, idt: s != s.strip() or '::' in s)
    if 'info' in sc:
        sc['info'] = {k: v for k, v in sc['info'].items() if type(v) is not str or not re.search('[\x00\r]', v)}
    a = copy.deepcopy(sc)
    md = markdown_dumps(a)
    markdown(ctx, sc, md)
    default = {'format': 'plantuml', 'detail': 'conceptual', 'attributes': False, 'edge_label': True, 'edge_mult': True}
    last = None
    diagram(ctx, sc, default, diagram_dumps(a))
    for _ in range(5):
        st = style(r)
        give = {k: v for k, v in st.items() if k not in default or v != default[k] or r.random() < .7}
        text = diagram_dumps(a, dict(give))
        diagram(ctx, sc, st, text)
        if st['format'] == 'graphviz':
            last = (st, text)
    if i % 5 == 0:
        with tmpdir() as d:
            ctx.event('file')
            p = os.path.join(d, 'a')
            markdown_dump(a, p, **({'source': 'a.jadn'} if r.random() < .5 else {}))
            with open(p, encoding='utf8', newline='') as f:
                if not f.read().endswith(md):
                    ctx.fail('Markdown file differs from the Markdown text', schema=sc)
            if last:
                diagram_dump(a, p, style=last[0])
                with open(p, encoding='utf8', newline='') as f:
                    if f.read().strip() != last[1].strip():
                        ctx.fail('diagram file differs from the diagram text', schema=sc)
    if DOT and last and i % 20 == 0:
        x = subprocess.run([DOT, '-Tplain'], input=last[1].encode(), capture_output=True, timeout=35)
        ctx.event('dot_program')
        if x.returncode or b'rror' in x.stderr or b'ot well-formed' in x.stderr:
            ctx.fail('dot refuses the GraphViz output', stderr=x.stderr.decode('utf8', 'replace')[:800], text=last[1])
    ctx.sample(markdown=md[:400])
