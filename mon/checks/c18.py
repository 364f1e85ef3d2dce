"""C18: schema processing is pure and reproducible"""
import copy
import json
import os
import subprocess
import sys

import jadn
from jadn.convert import diagram_dumps, jidl_dumps, markdown_dumps

from .. import ops
from ..common import jcopy, same, schema, tmpdir
from ..run import ROOT, SRC
from ..text import decorate, items
from .c17 import Family

CASES = {'quick': 72, 'thorough': 1600}
LIMIT = 180
SCHEMAS, PROCS, CALLS = 12, 4, 200
RULE = 'one evaluation = one operation on one schema whose result is compared with the result of the same operation earlier in the history or in another process with another string hash seed; distinct = distinct (operation, schema)'
NEED = {'history_call': 8000, 'repeated': 2500, 'vandalised': 1500, 'schema_unchanged': 10000, 'processes': 250, 'process_result': 60000, 'hash_seeds': 250, 'ascii_locale': 90, 'resolve': 400, 'resolve_again': 300, 'style_unchanged': 3000}
ASSUME = ['outputs with a source banner contain the time and are not compared']
NAMES = list(ops.OPS)


def spoil(x, depth=0):
    """Change a result in place, everywhere"""
    if isinstance(x, dict):
        for v in list(x.values()):
            spoil(v, depth + 1)
        x['spoiled'] = 'X'
        if depth % 2:
            x.clear()
    elif isinstance(x, list):
        for v in x:
            spoil(v, depth + 1)
        if depth % 2 and x:
            x.pop()
        x.append('spoiled')
        x.reverse()
    elif isinstance(x, set):
        x.clear()


def make(ctx, k):
    r = ctx.rng
    sc = jcopy(schema(ctx))
    if k % 3:
        sc = items(r, decorate(r, sc, k % 2 == 0), lambda s, idt: False)
    if k % 6 == 5:
        try:
            sc = jcopy(jadn.transform.unfold_extensions(sc))
        except Exception:
            pass
    return sc


def first_diff(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return a[max(0, i - 80):i + 200], b[max(0, i - 80):i + 200]


def case(ctx, i):
    r = ctx.rng
    scs = [make(ctx, k) for k in range(SCHEMAS)]
    mine = copy.deepcopy(scs)
    texts = [json.dumps(s) for s in scs]
    seen = {}

    # histories of calls in this process, with results changed by the caller
    for _ in range(CALLS):
        k = r.randrange(3) if r.random() < .6 else r.randrange(SCHEMAS)
        op = r.choice(NAMES)
        x = ops.run(op, mine[k])
        t = ops.show(x)
        ctx.event('history_call', (op, texts[k]))
        if json.dumps(mine[k]) != texts[k] or not same(mine[k], scs[k]):
            ctx.fail(f'{op} modified the schema', before=scs[k], after=mine[k])
            mine[k] = copy.deepcopy(scs[k])
        ctx.event('schema_unchanged')
        if (k, op) in seen:
            ctx.event('repeated')
            if seen[k, op] != t:
                ctx.fail(f'{op} gives another result when it is called again', first_second=first_diff(seen[k, op], t), schema=scs[k])
        seen.setdefault((k, op), t)
        if r.random() < .5:
            ctx.event('vandalised')
            spoil(x[1])
            if json.dumps(mine[k]) != texts[k]:
                ctx.fail(f'changing the result of {op} modified the schema', before=scs[k], after=mine[k])
                mine[k] = copy.deepcopy(scs[k])

    # caller's style options
    for f, st in ((jidl_dumps, {'desc': 30, 'name': 12}), (markdown_dumps, {'links': False}), (diagram_dumps, {'format': 'graphviz', 'detail': 'information', 'header': {'graphviz': ['rankdir=LR;'], 'plantuml': []}}),
                  (diagram_dumps, {'attributes': True, 'header': {'graphviz': [], 'plantuml': ['hide circle']}})):
        for k in range(SCHEMAS):
            keep = copy.deepcopy(st)
            a = ops.show(call2(f, mine[k], st))
            b = ops.show(call2(f, mine[k], st))
            ctx.event('style_unchanged')
            if st != keep or a != b or json.dumps(mine[k]) != texts[k]:
                ctx.fail(f'{f.__name__} modified its arguments or gives another result', style=keep, after=st, first_second=first_diff(a, b), schema=scs[k])
                return

    # other processes
    with tmpdir() as d:
        jobs = [[s, NAMES, None] for s in scs]
        for j in range(2):
            fam = Family(r, jcopy(schema(ctx, r.choice([7, 10, 14]))))
            fd = os.path.join(d, f'f{j}')
            os.mkdir(fd)
            for n, p in enumerate(fam.packages + fam.extra):
                for t in p['types']:
                    t[3] = r.choice([t[3], 'é ü 日本語', '\U0001f600'])
                p['info']['title'] = 'ß'
                if n % 2 and r.random() < .5:
                    with open(os.path.join(fd, f'{n}.jidl'), 'w', encoding='utf8') as f:
                        f.write(jidl_dumps(jcopy(p)))
                    continue
                with open(os.path.join(fd, f'{n}.jadn'), 'w', encoding='utf8') as f:
                    json.dump(p, f, ensure_ascii=r.random() < .2)
            jobs.append([fam.root, ['resolve', 'analyze', 'build_deps'], fd])
        want = []
        for s, names, fd in jobs:
            want.append({o: ops.show(ops.resolve(copy.deepcopy(s), fd) if o == 'resolve' else ops.run(o, copy.deepcopy(s))) for o in names})
        for (k, op), t in seen.items():
            if want[k][op] != t:
                ctx.fail(f'{op} gives another result after other calls', first_second=first_diff(t, want[k][op]), schema=scs[k])
        for s, names, fd in jobs:
            if fd:
                mine, text = copy.deepcopy(s), json.dumps(s)
                for _ in range(3):
                    x = ops.resolve(mine, fd)
                    ctx.event('resolve_again', n=x[0] == 'ok')
                    if ops.show(x) != want[[j[2] for j in jobs].index(fd)]['resolve']:
                        ctx.fail('resolve_imports gives another result when it is called again', schema=s)
                    spoil(x[1])
                    if json.dumps(mine) != text:
                        ctx.fail('changing the result of resolve_imports modified the root schema', before=s, after=mine)
                        mine = copy.deepcopy(s)
        for pn in range(PROCS):
            order = list(range(len(jobs)))
            r.shuffle(order)
            js = []
            for k in order:
                o = list(jobs[k][1])
                r.shuffle(o)
                js.append([jobs[k][0], o, jobs[k][2]])
            path = os.path.join(d, f'j{pn}.json')
            with open(path, 'w') as f:
                json.dump(js, f)
            hs = str(r.choice([0, 1, 2]) if r.random() < .2 else r.randint(3, 4294967295))
            ascii_locale = r.random() < .5
            env = {**os.environ, 'PYTHONHASHSEED': hs, 'PYTHONPATH': f'{ROOT}{os.pathsep}{SRC}', 'PYTHONDONTWRITEBYTECODE': '1'}
            if ascii_locale:
                env.update(LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0')
            p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'mon.ops', path], cwd=r.choice([ROOT, d]), capture_output=True, timeout=120, env=env)
            if p.returncode:
                raise AssertionError(f'harness: {p.stderr.decode()[-2000:]}')
            ctx.event('processes')
            ctx.event('hash_seeds', hs)
            ctx.event('ascii_locale', n=ascii_locale)
            for k, g in zip(order, json.loads(p.stdout)):
                if not g['same']:
                    ctx.fail('schema modified in another process', schema=jobs[k][0])
                for o in jobs[k][1]:
                    ctx.event('process_result', (o, json.dumps(jobs[k][0])))
                    ctx.event('resolve', n=o == 'resolve')
                    if g['out'][o] != want[k][o]:
                        ctx.fail(f'{o} gives another result in another process', hash_seed=hs, ascii_locale=ascii_locale, first_second=first_diff(want[k][o], g['out'][o]), schema=jobs[k][0])
    ctx.sample(operations=NAMES[:5], calls=CALLS)


def call2(f, s, st):
    try:
        return 'ok', f(s, st)
    except Exception as e:
        return 'exc', f'{type(e).__name__}: {e}'
