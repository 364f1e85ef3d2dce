"""C10: JIDL text loads back to the same schema"""
import copy
import io
import json
import os

import jadn
from jadn.convert import jidl_dump, jidl_dumps, jidl_load, jidl_loads

from ..common import canon, diff, schema, tmpdir
from ..run import reader
from ..model import CORE
from ..text import decorate, items

CASES = {'quick': 4000, 'thorough': 40000}
RULE = 'one evaluation = one dump of a schema as JIDL loaded back and compared in canonical form; distinct = distinct (text, style)'
NEED = {'string': 12000, 'file': 2000, 'banner': 700, 'stable': 10000, 'lines': 50000}
ASSUME = ['item values do not start with "=", contain " //" or, with the id option, ":"; descriptions are single-line, trimmed and do not start with "//"; the page style truncates text and is not used']


def bad_item(s, idt):
    return s[0] == '=' or ' //' in s or s.startswith('//') or (idt and ':' in s) or s != s.strip()


def style(r):
    return {k: v for k, v in {'info': r.choice([1, 5, 12, 40]), 'id': r.choice([1, 2, 4, 9]), 'name': r.choice([1, 3, 16, 30, 80]), 'type': r.choice([1, 10, 35, 70]),
                              'desc': r.choice([None, 1, 10, 40, 100])}.items() if r.random() < .6}


def same_schema(ctx, sc, got, how, text, **kw):
    a, b = canon(sc), canon(got)
    if json.dumps(a, sort_keys=False) != json.dumps(b) and (d := diff(a, b)):
        ctx.fail(f'schema loaded from {how} differs from the schema dumped', difference=d, text=text, schema=sc, **kw)


@reader
def lines(ctx, sc, text):
    """Every definition is on its own line, in order, and nothing else is in the text"""
    got = [x for x in text.split('\n') if x.strip()]
    want = [('info', k) for k in sc.get('info', {})]
    for t in sc['types']:
        want.append(('type', t[0]))
        want += [('field', f[0]) for f in t[4]]
    if len(got) != len(want):
        ctx.fail('JIDL text does not have one line per definition', lines=len(got), definitions=len(want), text=text, schema=sc)
        return
    for g, (k, n) in zip(got, want):
        ctx.event('lines')
        s = g.strip()
        if k == 'type' and s.split(' ')[0] != n or k == 'field' and s.split(' ')[0] != str(n):
            ctx.fail('JIDL line is not the definition expected at this place', line=g, expected=n, text=text)


def case(ctx, i):
    r = ctx.rng
    sc = items(r, decorate(r, schema(ctx)), bad_item)
    for st in (None, style(r), style(r)):
        text = jidl_dumps(copy.deepcopy(sc), *([st] if st is not None else []))
        ctx.event('string', (text, st))
        if st is None:
            lines(ctx, sc, text)
        try:
            got = jidl_loads(text)
        except Exception as e:
            ctx.fail('JIDL text written by the package is refused', error=f'{type(e).__name__}: {str(e)[:500]}', style=st, text=text, schema=sc)
            continue
        same_schema(ctx, sc, got, 'JIDL text', text, style=st)
        t2 = jidl_dumps(got, st)
        ctx.event('stable')
        if t2 != text:
            d = next(((a, b) for a, b in zip(text.split('\n'), t2.split('\n')) if a != b), None)
            ctx.fail('dumping the loaded schema gives another text', lines=d, style=st, schema=sc)
    if i % 2 == 0:
        with tmpdir() as d:
            p = os.path.join(d, 'a.jidl')
            src = r.choice(['', '', 'some.jadn', 'dir/a b.jadn', 'x = y // z', 'é.jadn'])
            st = style(r) if r.random() < .5 else None
            jidl_dump(copy.deepcopy(sc), p, source=src, style=st)
            ctx.event('file')
            ctx.event('banner', n=bool(src))
            with open(p, encoding='utf8') as f:
                text = f.read()
            plain = jidl_dumps(copy.deepcopy(sc), st)
            if not text.endswith(plain) or (not src and text != plain):
                ctx.fail('JIDL file is not the text written to a string', file=text, string=plain)
            try:
                with open(p, encoding='utf8') as f:
                    got = jidl_load(f)
            except Exception as e:
                ctx.fail('JIDL file written by the package is refused', error=f'{type(e).__name__}: {str(e)[:500]}', source=src, text=text, schema=sc)
                return
            same_schema(ctx, sc, got, 'a JIDL file', text, source=src)
            got = jidl_load(io.StringIO(text))
            same_schema(ctx, sc, got, 'a JIDL stream', text, source=src)
    ctx.sample(text=text[:600])


assert CORE and jadn
