"""C12: JADN text and files load back to the same schema"""
import copy
import io
import json
import os

import jadn
from jadn.convert import html_dump, jidl_dump

from ..common import canon, diff, schema, tmpdir
from ..model import FIELDED
from ..text import any_text, decorate, items, line

CASES = {'quick': 3000, 'thorough': 30000}
RULE = 'one evaluation = one dump of a schema as JADN text or a file of a known type loaded back and compared with the schema dumped; distinct = distinct documents'
NEED = {'text': 5900, 'file': 5900, 'load_any': 5900, 'refused': 1000}
ASSUME = ['the optional source banner of jadn.dump, which is not JSON, is not used']
EXT = ['.json', '.txt', '', '.JADN', '.jad', '.jadnx', '.htm', '.jidl2', '.md', '.xsd', '.html.bak']


def escape(r, sc):
    """Options, items and information with characters that JSON must escape"""
    for t in sc['types']:
        if t[1] == 'String' and r.random() < .3:
            t[2] = ['%' + ''.join(r.choice(['"', '\\\\', '\\"', 'é', '\n', '\t', '\\n', '/', '\u2028', 'a']) for _ in range(r.randint(1, 5)))]
        if t[1] in FIELDED:
            for f in t[4]:
                if f[2] == 'String' and not f[3] and r.random() < .3:
                    f[3] = ['%' + r.choice(['"', '\\\\x', '^\\d"$', '\u00e9\u2029', '\x07'])]
    return sc


def compare(ctx, before, got, how, **kw):
    full = {**before, 'types': [[*t] + [None, None, [], '', []][len(t):] for t in before['types']]}
    if json.dumps(got) != json.dumps(full):
        ctx.fail(f'schema loaded from {how} differs from the schema dumped', difference=diff(full, got), schema=before, **kw)


def case(ctx, i):
    r = ctx.rng
    sc = escape(r, items(r, decorate(r, schema(ctx), multi=r.random() < .7), lambda s, idt: False))
    for t in sc['types']:       # absent columns
        while len(t) > 2 and t[-1] in ('', []) and r.random() < .2:
            t.pop()
    before = copy.deepcopy(sc)
    for strip in (False, True):
        text = jadn.dumps(sc, strip=strip)
        ctx.event('text', text)
        try:
            raw = json.loads(text)
        except ValueError as e:
            ctx.fail('JADN text is not JSON', error=str(e), text=text, schema=before)
            return
        if json.dumps(raw) != json.dumps(before):
            ctx.fail('JADN text is not the schema dumped', difference=diff(before, raw), text=text)
        compare(ctx, before, jadn.loads(text), 'JADN text', text=text)
        with tmpdir() as d:
            p = os.path.join(d, 'x.jadn')
            jadn.dump(sc, p, strip=strip)
            with open(p, encoding='utf8', newline='') as f:
                ftext = f.read()
            if ftext != text + '\n':
                ctx.fail('JADN file is not the JADN text', file=ftext, text=text)
            with open(p, encoding='utf8') as f:
                compare(ctx, before, jadn.load(f), 'a JADN file')
            with open(p, encoding='utf8') as f:
                compare(ctx, before, jadn.load_any(f), 'a JADN file by extension')
            ctx.event('file', ftext)
    if json.dumps(sc) != json.dumps(before):
        ctx.fail('dumping modified the schema', before=before, after=sc)
    # the three file types
    sc = decorate(r, schema(ctx))
    for t in sc['types']:
        for f in t[4]:
            f[-1] = line(r)
    want = canon(sc)
    with tmpdir() as d:
        for ext, w in (('.jadn', jadn.dump), ('.jidl', jidl_dump), ('.html', html_dump)):
            p = os.path.join(d, r.choice(['a', 'a.b', 'x.jadn', 'y.html', 'z.jidl', 'é']) + ext)
            w(copy.deepcopy(sc), p, **({} if ext == '.jadn' or r.random() < .5 else {'source': 'src.jadn'}))
            ctx.event('load_any', (ext, json.dumps(sc)))
            try:
                with open(p, encoding='utf8') as f:
                    got = jadn.load_any(f)
            except Exception as e:
                ctx.fail(f'{ext} file written by the package is refused by extension loading', error=f'{type(e).__name__}: {str(e)[:500]}', schema=sc)
                continue
            if (x := diff(want, canon(got))):
                ctx.fail(f'{ext} file loaded by extension differs from the schema dumped', difference=x, schema=sc)
        ext = r.choice(EXT)
        p = os.path.join(d, 'a' + ext)
        r.choice([jadn.dump, jidl_dump, html_dump])(sc, p)
        ctx.event('refused', ext)
        try:
            with open(p, encoding='utf8') as f:
                jadn.load_any(f)
            ctx.fail('file with another extension was loaded', extension=ext)
        except Exception:
            pass
    ctx.sample(text=text[:500])


assert any_text and io
