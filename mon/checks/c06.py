"""C06: no side effects, no dependence on history or threads"""
import copy
import sys
import threading
import time

import jadn

from ..common import G, M, MODES, call, expect, jcopy, names, same, schema, values
from .c17 import subst

CASES = {'quick': 700, 'thorough': 6000}
LIMIT = 120
RULE = ('one evaluation = one codec call whose outcome is compared with that of a fresh codec, or one check that the value, the schema or the result is untouched; '
        'distinct = distinct (kind of check, type, mode, input); thread interleavings are counted by the distinct sequences of thread switches observed inside the package')
NEED = {'history': 40000, 'aliasing': 10000, 'schema_untouched': 500, 'threaded_calls': 20000, 'thread_switches': 5000, 'other_codecs': 5000, 'endurance': 200000}
ASSUME = ['threads are interleaved by a 1 microsecond switch interval and yields injected at package lines']


def out(f, t, v):
    """Outcome as comparable text"""
    try:
        return 'ok ' + repr(f(t, v))
    except (ValueError, TypeError) as e:
        return type(e).__name__
    except RecursionError:
        return 'recursion'


def parts(x, acc):
    if isinstance(x, dict):
        acc[id(x)] = x
        for v in x.values():
            parts(v, acc)
    elif isinstance(x, (list, set, bytearray)):
        acc[id(x)] = x
        if isinstance(x, list):
            for v in x:
                parts(v, acc)
    return acc


def scramble(x):
    """Destroy all mutable parts of x"""
    for p in list(parts(x, {}).values()):
        if isinstance(p, list):
            p.append('scrambled')
            p.reverse()
        elif isinstance(p, dict):
            p.clear()
            p['scrambled'] = 1


def work(ctx, sc, m, n):
    """Calls to make: (op, type, value, mode or None)"""
    r, ops = ctx.rng, []
    for t in names(sc):
        for v in values(ctx, m, t, n):
            for j, md in enumerate(MODES):
                ops.append(('encode', t, v, j))
                ops.append(('encode', t, G.mutate(r, v), j))
                k, s = expect(m.encode, t, v, md)
                if k == 'ok':
                    s = jcopy(s)
                    ops.append(('decode', t, s, j))
                    ops.append(('decode', t, G.mutate(r, s), j))
    return [o for o in ops if plain(o[2])]


def plain(x):
    """Value made of JSON types and bytes, so that repr is a faithful snapshot"""
    if isinstance(x, dict):
        return all(isinstance(k, (str, int, type(None))) and plain(v) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return all(plain(v) for v in x)
    return x is None or type(x) in (str, int, float, bool, bytes)


def fresh(sc, md, conf=None):
    return jadn.codec.Codec(copy.deepcopy(sc), verbose_rec=md[0], verbose_str=md[1], **({'config': copy.deepcopy(conf)} if conf else {}))


def ref(sc, ops, conf=None):
    """Outcome of each call on a codec that has done nothing else in that mode but calls of the same type before it"""
    res, cs = [], {}
    for op, t, v, j in ops:
        c = cs.get((t, j))
        if c is None:
            cs.clear()
            c = cs[(t, j)] = fresh(sc, MODES[j], conf)
        res.append(out(getattr(c, op), t, copy.deepcopy(v)))
    return res


def case(ctx, i):
    r = ctx.rng
    sc = schema(ctx, r.choice([3, 4, 6, 8]))
    m = M.Model(sc)
    ops = work(ctx, sc, m, 2)
    if not ops:
        return
    want = ref(sc, ops)
    mine = copy.deepcopy(sc)
    snap = repr(mine)
    c = jadn.codec.Codec(mine, *r.choice(MODES))
    ctx.event('schema_untouched', snap)
    if repr(mine) != snap:
        ctx.fail('creating a codec modified the schema', before=sc, after=mine)
    # history: shuffled calls, mode switches
    order = list(range(len(ops)))
    r.shuffle(order)
    c.set_mode(*MODES[ops[order[0]][3]])
    cur = ops[order[0]][3]
    order.sort(key=lambda k: (hash((k // r.choice([7, 50, 400]), 5)) % 97) if r.random() < .5 else 0)
    for n, k in enumerate(order):
        op, t, v, j = ops[k]
        if j != cur:
            c.set_mode(*MODES[j]) if r.random() < .5 else c.set_mode(verbose_str=MODES[j][1], verbose_rec=MODES[j][0])
            cur = j
        if n == len(order) // 2:
            scramble(mine['types'])        # the caller may reuse its schema
            mine.clear()
        arg = copy.deepcopy(v)
        a0 = repr(arg)
        try:
            e = getattr(c, op)(t, arg)
            got = 'ok ' + repr(e)
        except (ValueError, TypeError) as x:
            e, got = None, type(x).__name__
        except RecursionError:
            continue
        ctx.event('history', (op, t, j, a0[:500]))
        if repr(arg) != a0:
            ctx.fail(f'{op} modified its argument', type=t, mode=MODES[j], before=v, after=arg, definition=sc['types'])
        if got != want[k]:
            ctx.fail(f'{op} gives another outcome after earlier calls', type=t, mode=MODES[j], value=v, outcome=got, fresh_codec=want[k], definition=sc['types'])
        if isinstance(e, (list, dict)):
            ctx.event('aliasing', (op, t, j, got[:500]))
            if shared := set(parts(e, {})) & set(parts(arg, {})):
                ctx.fail(f'result of {op} shares a mutable part with its argument', type=t, mode=MODES[j], value=v, shared=[parts(e, {})[x] for x in shared], definition=sc['types'])
            scramble(e)
            if repr(arg) != a0:
                ctx.fail(f'changing the result of {op} changed its argument', type=t, mode=MODES[j], value=v)
            if n % 3 == 0:
                again = out(getattr(c, op), t, arg)
                ctx.event('history')
                if again != got:
                    ctx.fail(f'changing the result of {op} changed a later result', type=t, mode=MODES[j], value=v, first=got, second=again, definition=sc['types'])
            scramble(arg)
    # other codecs in the process: same type names with other definitions and configuration
    sc2 = schema(ctx, r.choice([3, 5]))
    ren = dict(zip(names(sc2), [*(n for n in names(sc) if n != 'TypeRef'), *[f'More{k}' for k in range(len(sc2['types']))]]))
    sc2 = jcopy({'types': [[ren[t[0]], *subst(t, ren.get)[1:]] for t in sc2['types']]})
    conf2 = {'info': {'package': 'urn:p', 'config': {'$MaxString': 80, '$MaxBinary': 30, '$MaxElements': 50}}}
    c2 = fresh(sc2, r.choice(MODES), conf2)
    m2 = M.Model(sc2, conf2)
    if r.random() < .5:         # nothing but the definitions tells the schemas apart
        info = {k: v for k, v in (sc.get('info') or {}).items() if k != 'config'}
        sc2 = {'info': {'package': 'urn:p', **info}, **sc2}
        if r.random() < .5:
            info |= {'package': 'urn:p', 'version': '1.0'}
            sc, sc2 = {**sc, 'info': {**info, **(sc.get('info') or {})}}, {**sc2, 'info': info}
    o2 = []
    for t in names(sc2):
        for v in values(ctx, m2, t, 1):
            o2.append((t, v))
    cc = {j: fresh(sc, MODES[j]) for j in range(4)}
    for n, k in enumerate(r.sample(range(len(ops)), min(len(ops), 60))):
        if o2:
            (t, v), md = r.choice(o2), r.choice(MODES)
            k2, w2 = expect(m2.encode, t, v, md)
            c2.set_mode(*md)
            got = out(c2.encode, t, copy.deepcopy(v))
            ctx.event('other_codecs', (t, md))
            if k2 == 'ok' and got != 'ok ' + repr(w2) or k2 == 'rej' and got[:3] == 'ok ':
                ctx.fail('encode gives another outcome than the definition when other codecs are in use', type=t, mode=md, value=v, outcome=got, model=w2, definition=sc2['types'])
            if n % 10 == 0:
                c2.set_mode(*r.choice(MODES))
                fresh(sc2, r.choice(MODES), conf2)
        op, t, v, j = ops[k]
        ctx.event('other_codecs', (op, t, j))
        got = out(getattr(cc[j], op), t, copy.deepcopy(v))
        if got != want[k]:
            ctx.fail(f'{op} gives another outcome when other codecs are in use', type=t, mode=MODES[j], value=v, outcome=got, alone=want[k], definition=sc['types'])
    if i % 10 == 1:
        endurance(ctx, r, sc, ops, want)
    if i % 2 == 0:
        threads(ctx, r, sc, sc2, conf2, ops, want)
    ctx.sample(calls=len(ops), first=ops[0], outcome=want[0])


def endurance(ctx, r, sc, ops, want, calls=6000):
    """A long life of one codec: thousands of calls, most of them refused, must leave no trace"""
    j = r.randrange(4)
    mine = [k for k in range(len(ops)) if ops[k][3] == j and want[k] != 'recursion']
    bad = [k for k in mine if not want[k].startswith('ok ')]
    if not mine:
        return
    c = fresh(sc, MODES[j])
    for n in range(calls):
        op, t, v, _ = ops[r.choice(bad if bad and n % 5 else mine)]
        out(getattr(c, op), t, v)
    ctx.event('endurance', n=calls)
    for k in mine:
        op, t, v, _ = ops[k]
        got = out(getattr(c, op), t, v)
        ctx.event('history')
        if got != want[k]:
            ctx.fail(f'{op} gives another outcome after {calls} calls', type=t, mode=MODES[j], value=v, outcome=got, fresh_codec=want[k], definition=sc['types'])


def threads(ctx, r, sc, sc2, conf2, ops, want):
    cc = {j: fresh(sc, MODES[j]) for j in range(4)}
    pick = r.sample(range(len(ops)), min(len(ops), 150))
    errs, trace, calls = [], [], [0]
    nth = r.choice([2, 4, 8])
    barrier = threading.Barrier(nth)
    from ..run import PKG
    mon, tool = sys.monitoring, 4
    yields = r.choice([.002, .02, .2])
    rnd = r.random
    last = [0]

    def online(code, no):
        if code.co_filename.startswith(PKG):
            me = threading.get_ident()
            if me != last[0]:
                last[0] = me
                trace.append((me, code.co_name, no))
            if rnd() < yields:
                time.sleep(0)

    def body(seed, mine):
        barrier.wait()
        for n, k in enumerate(mine):
            op, t, v, j = ops[k]
            arg = copy.deepcopy(v)
            a0 = repr(arg)
            try:
                got = out(getattr(cc[j], op), t, arg)
            except Exception as e:
                got = f'{type(e).__name__}: {e}'
            calls[0] += 1
            if got != want[k]:
                errs.append((op, t, v, j, got, want[k]))
            if repr(arg) != a0:
                errs.append((op, t, v, j, 'argument modified', ''))
            if seed == 0 and n % 20 == 0:
                fresh(sc2, MODES[n // 20 % 4], conf2)
    shares = [r.sample(pick, max(1, len(pick) // 2)) for _ in range(nth)]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    mon.use_tool_id(tool, 'yield')
    mon.register_callback(tool, mon.events.LINE, online)
    mon.set_events(tool, mon.events.LINE)
    try:
        ts = [threading.Thread(target=body, args=(n, s), daemon=True) for n, s in enumerate(shares)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        mon.set_events(tool, 0)
        mon.register_callback(tool, mon.events.LINE, None)
        mon.free_tool_id(tool)
        sys.setswitchinterval(old)
    ctx.event('threaded_calls', None, calls[0])
    ids = {}
    sig = tuple((ids.setdefault(a, len(ids)), b, c) for a, b, c in trace)
    ctx.event('thread_switches', sig, len(sig))
    for op, t, v, j, got, w in errs[:2]:
        ctx.fail(f'{op} gives another outcome when other threads use the codec', type=t, mode=MODES[j], value=v, outcome=got, alone=w, definition=sc['types'])
