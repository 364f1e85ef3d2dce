"""
Check runner: seeds, worker processes, watchdog, monitors of what was executed, verdicts, evidence, replay files.

Verdict: exit 0 held on everything observed; exit 1 with VIOLATION lines; exit 2 inconclusive (harness error, or the
monitors observed too little to conclude anything).
"""
import argparse
import collections
import copy
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'distribution', 'src')
PKG = os.path.join(SRC, 'jadn') + os.sep
NPROC = int(os.environ.get('VERIF_NPROC', '8'))


class Hang(BaseException):
    pass


class Stop(BaseException):
    """Enough violations in this case"""


def setup_path():
    sys.dont_write_bytecode = True
    sys.path.insert(0, SRC)
    warnings.simplefilter('ignore')
    import jadn
    assert os.path.abspath(jadn.__file__).startswith(PKG), jadn.__file__


LINES = set()


def line_monitor():
    """Record every distinct line of the package that is executed"""
    m = sys.monitoring
    tool = 3
    m.use_tool_id(tool, 'verif')

    def line(code, no):
        if code.co_filename.startswith(PKG):
            LINES.add((code.co_filename[len(PKG):], no))
        return m.DISABLE
    m.register_callback(tool, m.events.LINE, line)
    m.set_events(tool, m.events.LINE)


def show(x, n=600):
    try:
        s = repr(x)
    except Exception as e:
        s = f'<{type(x).__name__}: repr failed with {type(e).__name__}>'
    return s if len(s) <= n else s[:n] + f'...({len(s)})'


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.count = collections.Counter()
        self.keys = set()
        self.samples = []
        self.viol = []
        self.case = None
        self.rng = None

    def begin(self, i):
        self.case = i
        self.rng = random.Random(f'{self.seed}:{self.prop}:{i}')

    def event(self, kind, key=None, n=1):
        """One observation judged by the oracle; key identifies its distinct content when it is non-trivial"""
        self.count[kind] += n
        if key is not None:
            self.keys.add(hashlib.blake2b(repr((kind, key)).encode('utf8', 'replace'), digest_size=8).digest())

    def sample(self, **kw):
        if len(self.samples) < 3:
            self.samples.append({'case': self.case, **{k: show(v, 300) for k, v in kw.items()}})

    def fail(self, what, /, key=None, **detail):
        """The oracle refuted the property. key names a mechanism that may be listed as a known finding."""
        if len(self.viol) < 20:
            self.viol.append({'property': self.prop, 'case': self.case, 'seed': self.seed, 'tier': self.tier, 'what': what, 'key': key,
                              'detail': {k: show(v, 3000) for k, v in detail.items()}})
        if sum(1 for v in self.viol if v['case'] == self.case) >= 3:
            raise Stop

    def unchanged(self, before, after, what, /, **detail):
        from .model import same
        if not same(before, after):
            self.fail(f'{what} was modified', before=before, after=after, **detail)
            return False
        return True


class Raised(Exception):
    """Outcome of a call: unexpected exception of the package"""


def alarm(_s, _f):
    raise Hang


def from_package(tb):
    """Was the exception raised by the package (or by a library it called) rather than by the harness"""
    last = None
    for f, _ in traceback.walk_tb(tb):
        fn = f.f_code.co_filename
        if fn.startswith(PKG):
            last = 'pkg'
        elif fn.startswith(ROOT) and f.f_code is not alarm.__code__:
            last = 'own'
    return last == 'pkg'


READERS = set()


def reader(f):
    """Mark a function that reads well-formed schemas or text: if it cannot, what the package produced is malformed"""
    READERS.add(f.__code__)
    return f


def from_reader(tb):
    return any(f.f_code in READERS for f, _ in traceback.walk_tb(tb))


def run_case(mod, ctx, i, limit):
    ctx.begin(i)
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(limit)
    try:
        mod.once(ctx) if i == -1 else mod.case(ctx, i)
        ctx.count['cases'] += 1
    except Stop:
        ctx.count['cases'] += 1
    except Hang as e:
        signal.alarm(0)
        ctx.count['watchdog'] += 1
        try:
            if from_package(e.__traceback__):
                ctx.fail('the package did not finish', seconds=limit, trace=traceback.format_exc()[-2500:])
        except Stop:
            pass
    except Exception as e:
        if from_package(e.__traceback__):
            try:
                ctx.fail(f'unexpected {type(e).__name__} from the package', error=str(e), trace=traceback.format_exc()[-2500:])
            except Stop:
                pass
            ctx.count['cases'] += 1
        elif from_reader(e.__traceback__) and isinstance(e, (LookupError, ValueError, TypeError, AttributeError, AssertionError)):
            try:
                ctx.fail('the package produced something malformed', error=f'{type(e).__name__}: {e}', trace=traceback.format_exc()[-2500:])
            except Stop:
                pass
            ctx.count['cases'] += 1
        else:
            ctx.count['harness_error'] += 1
            ctx.err = traceback.format_exc()
    finally:
        signal.alarm(0)


def worker(args):
    modname, prop, tier, seed, cases, deadline, limit = args
    mod = importlib.import_module(modname)
    ctx = Ctx(prop, tier, seed)
    ctx.err = None
    before = len(LINES)
    for i in cases:
        if time.time() > deadline:
            ctx.count['skipped_for_time'] += 1
            continue
        run_case(mod, ctx, i, limit)
        if len(ctx.viol) >= 10:
            break
    return ctx.count, ctx.keys, ctx.samples, ctx.viol, (set(LINES) if len(LINES) != before else set()), ctx.err


def known_findings():
    out = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            if ln.startswith('finding: '):
                f = dict(x.split('=', 1) for x in ln.split()[1:3])
                out[(f['property'], f['key'])] = ln.split(None, 3)[3].strip()
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--case', type=int)
    ap.add_argument('--cases', type=int)
    a = ap.parse_args(argv)
    t0 = time.time()
    try:
        setup_path()
    except Exception:
        # The package cannot even be imported: nothing it guarantees holds
        traceback.print_exc()
        path = save({'property': a.prop, 'what': 'the package cannot be imported', 'trace': traceback.format_exc()}, a.prop, 0)
        evidence(a, None, collections.Counter(), set(), [], [1], {}, t0, 'package import')
        print(f'VIOLATION property={a.prop} replay={path}')
        return 1
    modname = f'mon.checks.{a.prop.lower()}'
    mod = importlib.import_module(modname)
    if a.replay:
        d = json.load(open(a.replay))
        a.seed, a.tier, a.case = d['seed'], d['tier'], d['case']
    line_monitor()
    limit = getattr(mod, 'LIMIT', 40)
    if a.case is not None:
        ctx = Ctx(a.prop, a.tier, a.seed)
        ctx.err = None
        run_case(mod, ctx, a.case, limit * 10)
        for v in ctx.viol:
            print(json.dumps(v, indent=1))
        print(dict(ctx.count), ctx.err or '')
        return 1 if ctx.viol else 0
    n = a.cases or mod.CASES[a.tier]
    cap = getattr(mod, 'TIME', {'quick': 150, 'thorough': 700})[a.tier]
    deadline = t0 + cap
    idx = list(range(n))
    if hasattr(mod, 'once'):
        idx = [-1] + idx
    csize = max(1, min(20, len(idx) // (NPROC * 6) or 1))
    chunks = [idx[i:i + csize] for i in range(0, len(idx), csize)]
    count, keys, samples, viol, lines, errs = collections.Counter(), set(), [], [], set(), []
    jobs = [(modname, a.prop, a.tier, a.seed, c, deadline, limit) for c in chunks]
    with multiprocessing.get_context('fork').Pool(NPROC, maxtasksperchild=50) as pool:
        for c, k, s, v, ln, e in pool.imap_unordered(worker, jobs):
            count += c
            keys |= k
            samples += s[:1] if len(samples) > 2 else s
            viol += v
            lines |= ln
            if e:
                errs.append(e)
            if len(viol) >= 25:
                pool.terminate()
                break
    kf = known_findings()
    real, known = [], {}
    for v in viol:
        if v['key'] and (a.prop, v['key']) in kf:
            known[v['key']] = kf[(a.prop, v['key'])]
        else:
            real.append(v)
    for k, txt in sorted(known.items()):
        print(f'KNOWN-FINDING: property={a.prop} {k}: {txt}')
    evidence(a, mod, count, keys, samples, real, lines, t0, None)
    real.sort(key=lambda v: (v['case'], v['what']))
    shown = set()
    for v in real:
        if v['what'] not in shown and len(shown) < 5:
            shown.add(v['what'])
            path = save(v, a.prop, len(shown))
            print(f'{v["what"]}: {json.dumps(v["detail"])[:1500]}')
            print(f'VIOLATION property={a.prop} replay={path}')
    print(f'{a.prop} {a.tier} seed={a.seed} {time.time() - t0:.1f}s {dict(count)} distinct={len(keys)} lines={len(lines)}')
    if real:
        return 1
    if errs:
        print(f'harness errors: {len(errs)}\n{errs[0]}')
        return 2
    need = getattr(mod, 'NEED', {})
    scale = min(1.0, count['cases'] / max(1, mod.CASES['quick']))
    lack = {k: (count[k], v) for k, v in need.items() if count[k] < v * min(1.0, max(scale, .05))}
    if lack or not lines or not keys:
        print(f'inconclusive: monitors observed too little: {lack}')
        return 2
    return 0


def save(v, prop, n):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f'{prop}-{n}.json')
    with open(p, 'w') as f:
        json.dump(v, f, indent=1)
    return p


def evidence(a, mod, count, keys, samples, viol, lines, t0, note):
    per = collections.Counter(f for f, _ in lines)
    ev = {
        'property': a.prop, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': int(sum(v for k, v in count.items() if k not in ('cases', 'skipped_for_time', 'unspecified', 'watchdog', 'harness_error'))),
            'distinct_nontrivial': len(keys),
            'rule': getattr(mod, 'RULE', note or ''),
            'samples': samples[:8] or [{'note': note or 'none'}],
            'observed_events': {k: int(v) for k, v in sorted(count.items())},
            'package_lines_executed': dict(sorted(per.items())),
        },
        'assumptions': getattr(mod, 'ASSUME', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viol),
    }
    d = os.path.join(ROOT, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f'{a.prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
