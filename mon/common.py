"""Shared helpers of the check modules"""
import copy
import json
import os
import shutil
import tempfile
from contextlib import contextmanager

import jadn

from . import gen as G
from . import model as M
from .model import MODES, Reject, Unspec, same
from .run import reader


def jcopy(x):
    return json.loads(json.dumps(x))


def schema(ctx, n=None, **feat):
    """A generated schema that follows the JADN rules"""
    sc = G.SchemaGen(ctx.rng, n, **feat).schema()
    ctx.event('schemas', json.dumps(sc['types']))
    if ctx.rng.random() < .15:
        share(sc)
    return sc


def share(sc):
    """Let equal lists of options be one list, as in a schema that a program builds from common parts"""
    one = {}
    for t in sc['types']:
        t[2] = one.setdefault(tuple(t[2]), t[2])
        if t[1] != 'Enumerated':
            for f in t[4]:
                f[3] = one.setdefault(tuple(f[3]), f[3])


def codec(sc, mode, config=None):
    return jadn.codec.Codec(copy.deepcopy(sc), *mode, **({'config': config} if config else {}))


def call(f, *a):
    """('ok', result) or ('rej', exception); any other exception of the package is a violation (see run.py)"""
    try:
        return 'ok', f(*a)
    except (ValueError, TypeError) as e:
        return 'rej', e


def expect(f, *a):
    """Answer of the reference model: ok / rej / None when unspecified"""
    try:
        return 'ok', f(*a)
    except Reject:
        return 'rej', None
    except (Unspec, RecursionError):
        return None, None


def names(sc):
    return [t[0] for t in sc['types']]


def values(ctx, m, tname, n):
    g = G.ValueGen(ctx.rng, m)
    out = []
    for _ in range(n):
        try:
            out.append(g.top(tname))
        except (G.NoValue, Unspec):
            ctx.count['generator_gave_up'] += 1
    return out


def mixed(r, n=12):
    """A list type without repetitions over a union of types whose values are easily confused, and values of it"""
    c = r.choice('OX')
    alts = ['Boolean', 'Integer' if c == 'X' else r.choice(['Integer', 'Number']), 'String', 'L2', r.choice(['Mp', 'Rc'])]
    r.shuffle(alts)
    sc = {'types': [['L', 'ArrayOf', ['*U', r.choice('qs')] + r.choice([[], ['}9'], ['{2']]), '', []],
                    ['U', 'Choice', ['C' + c], '', [[k, f'f{k}', a, [], ''] for k, a in enumerate(alts, 1)]],
                    ['L2', 'ArrayOf', ['*U', '{1'], '', []],
                    ['Mp', 'Map', [], '', [[1, 'a', 'U', ['[0'], ''], [2, 'b', 'U', ['[0'], '']]],
                    ['Rc', 'Record', ['{1'], '', [[1, 'a', 'U', ['[0'], ''], [2, 'b', 'U', ['[0'], '']]]]}
    low = ['a', 'b', 'L2']

    def val(d):
        if d < 2 and r.random() < .35:
            if r.random() < .5:
                return [val(d + 1) for _ in range(r.randint(1, 3))]
            return {k: val(d + 1) for k in r.sample(low[:2], r.randint(1, 2))}
        return r.choice([True, False, 0, 1, 1, True, 2, '0', '1', '', 'True', 'true', -1, '\u00e9', 'e\u0301'])

    def dup(x):         # the same value in another guise
        if isinstance(x, dict):
            return {k: dup(x[k]) for k in reversed(list(x))}
        if isinstance(x, list):
            return [dup(v) for v in x]
        return r.choice([x, x, x, bool(x) if type(x) is int and x in (0, 1) else int(x) if type(x) is bool else x])
    out = []
    for _ in range(n):
        v = [val(0) for _ in range(r.randint(1, 5))]
        if r.random() < .6:
            v.insert(r.randrange(len(v) + 1), dup(r.choice(v)))
        out.append(v)
    return sc, out


@contextmanager
def tmpdir():
    d = tempfile.mkdtemp(prefix='verif-')
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


@reader
def canon(sc):
    """Own canonical form of a schema: option order and explicit defaults do not matter, absent columns are empty"""
    def co(olist, base):
        o = M.opts(olist)
        if base != 'Integer' and o.get('minv') == 0:
            del o['minv']
        if o.get('minc') == 1:
            del o['minc']
        if o.get('maxc') == 1:
            del o['maxc']
        return o
    types = []
    for t in sc['types']:
        t = [*t] + [None, None, [], '', []][len(t):]
        fs = t[4]
        types.append([t[0], t[1], co(t[2], t[1]), t[3], [list(f) if t[1] == 'Enumerated' else [f[0], f[1], f[2], co(f[3], f[2]), f[4]] for f in fs]])
    return {**({'info': sc['info']} if sc.get('info') else {}), 'types': types}


@reader
def diff(a, b, path=''):
    """First difference of two values"""
    if type(a) is not type(b):
        return f'{path}: {a!r} / {b!r}'
    if isinstance(a, dict):
        if set(a) != set(b):
            return f'{path}: keys {sorted(map(str, a))} / {sorted(map(str, b))}'
        for k in a:
            if d := diff(a[k], b[k], f'{path}.{k}'):
                return d
    elif isinstance(a, list):
        if len(a) != len(b):
            return f'{path}: length {len(a)} / {len(b)}: {a!r} / {b!r}'
        for i, (x, y) in enumerate(zip(a, b)):
            if d := diff(x, y, f'{path}[{i}]'):
                return d
    elif not same(a, b):
        return f'{path}: {a!r} / {b!r}'
    return None


def metaschema(v='1.1'):
    with open(os.path.join(jadn.data_dir(), f'jadn_v{v}_schema.jadn'), encoding='utf8') as f:
        return json.load(f)
