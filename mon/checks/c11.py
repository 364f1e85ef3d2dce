"""C11: HTML tables load back to the same schema"""
import copy
import json
import os

from jadn.convert import html_dump, html_dumps, html_load, html_loads
from lxml import etree

from ..common import canon, diff, schema, tmpdir
from ..run import reader
from ..text import decorate, items

CASES = {'quick': 2500, 'thorough': 25000}
RULE = 'one evaluation = one dump of a schema as HTML loaded back and compared in canonical form, or one document read by an independent HTML parser; distinct = distinct documents'
NEED = {'string': 2400, 'file': 2400, 'cells': 50000}
ASSUME = ['item values do not start or end with a space or, with the id option, contain ":"; descriptions are single-line, trimmed and do not start with "//"']


def bad_item(s, idt):
    return (idt and ':' in s) or s != s.strip() or s.startswith('//')


def same_schema(ctx, sc, got, how, text, **kw):
    a, b = canon(sc), canon(got)
    if json.dumps(a) != json.dumps(b) and (d := diff(a, b)):
        ctx.fail(f'schema loaded from {how} differs from the schema dumped', difference=d, text=text, schema=sc, **kw)


@reader
def cells(ctx, sc, text):
    """Independent reading of the document: names, ids, descriptions are the text of their cells, in order"""
    doc = etree.HTML(text)

    def col(c):
        return [''.join(e.itertext()) for e in doc.iter('div') if c in (e.get('class') or '').split()]
    fs = [(t, f) for t in sc['types'] for f in t[4]]
    idt = {t[0]: t[1] == 'Array' or '=' in t[2] or any(x[0] == 'C' for x in t[2]) for t in sc['types']}
    want = {'jKey': [k + ':' for k in sc.get('info', {})], 'jTname': [t[0] for t in sc['types']], 'jTdesc': [t[3] for t in sc['types']], 'jFid': [str(f[0]) for _, f in fs],
            'jFname': ['' if idt[t[0]] else f[1] + '/' * (t[1] != 'Enumerated' and '<' in f[3]) for t, f in fs],
            'jFdesc': [(f[1] + ('/:: ' if t[1] != 'Enumerated' and '<' in f[3] else ':: ') if idt[t[0]] else '') + f[-1] for t, f in fs]}
    for c, w in want.items():
        g = col(c)
        ctx.event('cells', n=len(g))
        if (sorted(g) if c == 'jKey' else g) != (sorted(w) if c == 'jKey' else w):
            ctx.fail('HTML cells do not show the schema', column=c, cells=g, expected=w, schema=sc)
    vals = [json.loads(x) for x in col('jVal')]
    info = sc.get('info', {})
    if {k[:-1]: v for k, v in zip(col('jKey'), vals)} != info:
        ctx.fail('HTML package information does not show the schema information', cells=vals, expected=info)


def case(ctx, i):
    r = ctx.rng
    sc = items(r, decorate(r, schema(ctx)), bad_item)
    text = html_dumps(copy.deepcopy(sc))
    ctx.event('string', text)
    cells(ctx, sc, text)
    try:
        got = html_loads(text)
    except Exception as e:
        ctx.fail('HTML written by the package is refused', error=f'{type(e).__name__}: {str(e)[:500]}', text=text, schema=sc)
        return
    same_schema(ctx, sc, got, 'HTML text', text)
    if html_dumps(got) != html_dumps(html_loads(html_dumps(got))):
        ctx.fail('dumping the loaded schema gives another text', schema=sc)
    with tmpdir() as d:
        p = os.path.join(d, 'a.html')
        src = r.choice(['', '', 'some.jadn', 'dir/a b.jadn', 'é.jadn'])
        html_dump(copy.deepcopy(sc), p, source=src)
        try:
            if r.random() < .5:
                got = html_load(p)
            else:
                with open(p, encoding='utf8') as f:
                    got = html_load(f)
        except Exception as e:
            ctx.fail('HTML file written by the package is refused', error=f'{type(e).__name__}: {str(e)[:500]}', source=src, schema=sc)
            return
        ctx.event('file', (src, text))
        same_schema(ctx, sc, got, 'an HTML file', text, source=src)
    ctx.sample(text=text[:600])
