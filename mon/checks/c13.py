"""C13: the generated JSON Schema agrees with the codec"""
import copy
import json
import os
import re

import jadn
import jsonschema
from jadn.translate import json_schema_dump, json_schema_dumps

from ..edges import edges, lenient
from . import c20 as C20
from ..common import G, M, call, codec, expect, jcopy, names, same, schema, tmpdir, values
from ..run import reader
from ..text import decorate

CASES = {'quick': 3000, 'thorough': 60000}
RULE = 'one evaluation = one serialized value validated by the jsonschema package against the definition generated for its type: values written by the codec must validate, values with one of the listed structural faults must not; distinct = distinct (type, value)'
NEED = {'valid_schema': 4800, 'codec_value': 40000, 'near_miss': 80000, 'top_level': 1000, 'sized_within': 10000, 'sized_beyond': 6000, 'top_level_bad': 800, 'twins': 90, 'refs': 40000, 'miss:kind': 6000, 'miss:required': 1000, 'miss:unknown': 1000,
        'miss:item': 1000, 'miss:range': 600, 'miss:string': 600, 'miss:count': 1000, 'miss:repeat': 60, 'miss:several': 300}
ASSUME = ['the jsonschema package implements draft-07 correctly; its optional format checks are not used', 'verbose mode only (property names and item names), as in the documentation of the translator']
VERBOSE = (True, True)


class Bad(Exception):
    pass


def bad(n, v):
    """Raise Bad(class) if the serialized value has one of the listed structural faults"""
    k, o = n.kind, n.o
    if k == 'Boolean':
        need(isinstance(v, bool), 'kind')
    elif k == 'Integer':
        if o.get('format') == 'datetime-ms':
            need(isinstance(v, str), 'kind')
            return
        need(isinstance(v, (int, float)) and not isinstance(v, bool) and v == v and abs(v) < 1e300 and v == int(v), 'kind')
        lo, hi = o.get('minv', v), o.get('maxv', v)
        if m := re.fullmatch(r'i(\d+)', o.get('format', '')):
            b = int(m.group(1))
            lo, hi = max(lo, -2 ** (b - 1)), min(hi, 2 ** (b - 1) - 1)
        need(lo <= v <= hi, 'range')
    elif k == 'Number':
        need(isinstance(v, (int, float)) and not isinstance(v, bool), 'kind')
        need(o.get('minf', v) <= v <= o.get('maxf', v), 'range')
    elif k == 'String':
        need(isinstance(v, str), 'kind')
        lo, hi = n.size()
        need(lo <= len(v) <= hi, 'string')
        if 'pattern' in o:
            need(re.search(o['pattern'], v), 'string')
    elif k == 'Binary':
        need(isinstance(v, str), 'kind')
    elif k == 'Enumerated':
        if isinstance(v, (float, bool)) and n.idopt:
            need(not isinstance(v, bool), 'kind')
            return
        need(isinstance(v, int if n.idopt else str), 'kind')
        if not n.idopt and v.endswith('\n'):
            return
        need(v in [x[0 if n.idopt else 1] for x in n.items], 'item')
    elif k == 'Choice' and 'combine' in o:
        res = [fault(a.node, v) for a in n.flds]
        need(any(res) is False if o['combine'] == 'A' else not all(res), next((x for x in res if x), None))
        need(o['combine'] != 'X' or sum(1 for a, x in zip(n.flds, res) if not x and written(a.node, v)) < 2, 'several')
    elif k == 'Choice':
        need(isinstance(v, dict), 'kind')
        need(len(v) == 1, 'count')
        (key, x), = v.items()
        f = [f for f in n.flds if key == (str(f.id) if n.idopt else f.name)]
        need(f, 'unknown')
        bad(f[0].node, x)
    elif k in ('Map', 'Record'):
        need(isinstance(v, dict), 'kind')
        keys = {str(f.id) if n.idopt else f.name: f for f in n.flds}
        need(not set(v) - set(keys), 'unknown')
        need(all(x in v for x, f in keys.items() if f.req), 'required')
        lo, hi = n.size()
        need(lo <= len(v) <= hi, 'count')
        for key, x in v.items():
            field(keys[key], x)
    elif k == 'Array':
        if 'format' in o:
            need(isinstance(v, str), 'kind')
            return
        need(isinstance(v, list), 'kind')
        need(len(v) <= len(n.flds), 'count')
        need(all(i < len(v) for i, f in enumerate(n.flds) if f.req), 'required')
        lo, hi = n.size()
        need(len(v) >= lo, 'count')
        for f, x in zip(n.flds, v):
            if x is not None or f.req:
                field(f, x)
    elif k == 'ArrayOf':
        need(isinstance(v, list), 'kind')
        lo, hi = n.size()
        need(lo <= len(v) <= hi, 'count')
        for x in v:
            bad(n.elem, x)
        if 'unique' in o or 'set' in o:
            need(not any(same(x, y) for i, x in enumerate(v) for y in v[:i]), 'repeat')
    elif k == 'MapOf':
        need(isinstance(v, dict), 'kind')
        lo, hi = n.size()
        need(lo <= len(v) <= hi, 'count')
        for key, x in v.items():
            if n.key.kind == 'Integer':
                if n.key.o.get('format') != 'datetime-ms':
                    need(re.fullmatch(r'-?[0-9]+\n?', key), 'kind')
            elif n.key.kind == 'Number':
                need(re.fullmatch(r'-?[0-9]+([.][0-9]+)?([eE][-+]?[0-9]+)?\n?', key), 'kind')
            elif n.key.kind == 'Boolean':
                need(key in ('true', 'false'), 'kind')
            elif n.key.kind == 'String':
                bad(n.key, key)
            bad(n.elem, x)


def written(n, v):
    """Serialized form of some value of the type, as the codec writes it"""
    k, a = expect(n.m.dec, n, v, VERBOSE)
    k, e = expect(n.m.enc, n, a, VERBOSE) if k == 'ok' else (k, None)
    return k == 'ok' and same(jcopy(e), v) and not ambiguous(n, v)


def need(ok, what):
    if not ok:
        raise Bad(what)


def fault(n, v):
    try:
        bad(n, v)
    except Bad as e:
        return str(e)
    return None


def ambiguous(n, v):
    """Serialized form fits none or several alternatives of a one-of choice, as far as JSON Schema can tell, or different elements of a unique list have the same form"""
    if n.kind == 'Choice' and 'combine' in n.o:
        if n.o['combine'] == 'X' and sum(1 for a in n.flds if not fault(a.node, v)) != 1:
            return True
        return any(ambiguous(a.node, v) for a in n.flds if not fault(a.node, v))
    if n.kind in ('Choice', 'Map', 'Record') and isinstance(v, dict):
        return any(ambiguous_field(f, v[k]) for f in n.flds for k in [str(f.id) if n.idopt else f.name] if k in v)
    if n.kind == 'Array' and isinstance(v, list):
        return any(ambiguous_field(f, x) for f, x in zip(n.flds, v))
    if n.kind == 'ArrayOf' and isinstance(v, list):
        if ('unique' in n.o or 'set' in n.o) and any(same(x, y) for i, x in enumerate(v) for y in v[:i]):
            return True     # values of different alternatives of a union
        return any(ambiguous(n.elem, x) for x in v)
    if n.kind == 'MapOf' and isinstance(v, dict):
        return any(ambiguous(n.elem, x) for x in v.values())
    return False


def ambiguous_field(f, x):
    if f.tag is not None:
        return any(ambiguous(a.node, x) for a in f.node.flds)
    return ambiguous(f.node, x)


def field(f, x):
    if f.tag is not None:       # bare value of one of the alternatives
        res = [fault(a.node, x) for a in f.node.flds]
        need(not all(res), res[0] if res else 'kind')
    else:
        bad(f.node, x)


@reader
def check_refs(ctx, js, x, sc):
    if isinstance(x, dict):
        if isinstance(x.get('$ref'), str):
            ctx.event('refs')
            p = x['$ref']
            t = js
            for part in p.lstrip('#').split('/')[1:]:
                t = t.get(part.replace('~1', '/').replace('~0', '~')) if isinstance(t, dict) else None
            if not p.startswith('#/') or t is None:
                ctx.fail('reference in the JSON Schema does not resolve', reference=p, schema=sc)
        for v in x.values():
            check_refs(ctx, js, v, sc)
    elif isinstance(x, list):
        for v in x:
            check_refs(ctx, js, v, sc)


def generate(ctx, sc, style):
    mine = copy.deepcopy(sc)
    text = json_schema_dumps(mine, enum_style=style)
    ctx.event('valid_schema', text[:4000])
    if not same(mine, sc):
        ctx.fail('JSON Schema generation modified the schema', before=sc, after=mine)
    js = json.loads(text)
    try:
        jsonschema.Draft7Validator.check_schema(js)
    except jsonschema.SchemaError as e:
        ctx.fail('generated JSON Schema is not a valid draft-07 schema', error=str(e)[:800], schema=sc)
        return None
    js.setdefault('definitions', {})
    if miss := [n for n in names(sc) if n not in js['definitions']]:
        ctx.fail('JSON Schema has no definition of a type', missing=miss, schema=sc)
        return None
    if extra := [n for n in js['definitions'] if n not in names(sc)]:
        ctx.fail('JSON Schema defines types that the schema does not', extra=extra, schema=sc)
    check_refs(ctx, js, js, sc)
    return js


def valid(v, x):
    return v.is_valid(x)


def sized(ctx):
    """Sizes around configured and explicit limits, in every kind of place"""
    r = ctx.rng
    conf = C20.config(r) if r.random() < .8 else {}
    sc = {'info': {'package': 'http://p.q/r', **({'config': conf} if conf else {})}}
    sc['types'], pl = C20.package(r, conf, r.randint(6, 14))
    st = r.choice(('enum', 'const', 'regex'))
    js = generate(ctx, sc, st)
    if js is None:
        return
    m = M.Model(sc)
    c = codec(sc, VERBOSE)
    for name, (tn, lo, hi, expl) in pl.items():
        v = jsonschema.Draft7Validator({'$ref': f'#/definitions/{tn}', 'definitions': js['definitions']})
        api, ser, most = C20.PLACES[name][2], C20.PLACES[name][3], C20.PLACES[name][6]
        ks = {hi, hi - 1, hi + 1, lo, lo - 1, r.randint(0, hi), hi + r.randint(2, 40), r.choice([100, 101, 255, 256])}
        for k in sorted(x for x in ks if 0 <= x <= (9999 if most is None else most)):
            y = jcopy(ser(api(k), VERBOSE))
            if lo <= k <= hi:
                if call(c.encode, tn, api(k))[0] != 'ok':
                    continue        # see C20
                ctx.event('sized_within', (name, lo, hi, k))
                if not valid(v, y):
                    ctx.fail('value within the limits on size does not validate', type=tn, place=name, size=k, low=lo, high=hi, error=next(v.iter_errors(y)).message[:500], definition=js['definitions'][tn], schema=sc)
            elif fault(m.ref(tn), y):
                ctx.event('sized_beyond', (name, lo, hi, k))
                if valid(v, y):
                    ctx.fail('value beyond the limits on size validates', type=tn, place=name, size=k, low=lo, high=hi, definition=js['definitions'][tn], schema=sc)


def case(ctx, i):
    r = ctx.rng
    if i % 6 == 3:
        sized(ctx)
    if i % 6 == 0:      # references to other packages
        sc = decorate(r, schema(ctx))
        sc = jcopy(sc)
        for t in sc['types']:
            t[2] = [x for x in t[2]]
        for st in ('enum', 'const', 'regex'):
            generate(ctx, sc, st)
        return
    sc = schema(ctx)
    if r.random() < .08:        # roots whose names differ in case only
        t = r.choice(sc['types'])
        twin = t[0].upper() if t[0].upper() != t[0] else t[0].capitalize()
        if twin not in names(sc) and twin != t[0]:
            sc = jcopy(sc)
            u = r.choice(sc['types'])
            sc['types'].insert(r.randint(0, len(sc['types'])), [twin, *copy.deepcopy(u[1:])])
            rs = [t[0], twin, *[x for x in r.sample(names(sc), min(2, len(sc['types']))) if x not in (t[0], twin)]]
            r.shuffle(rs)
            sc.setdefault('info', {'package': 'http://example.com/p'}).pop('exports', None)
            sc['info']['roots'] = rs
            jadn.check(jcopy(sc))
            ctx.event('twins')
    m = M.Model(sc)
    ml = lenient(sc)
    c = codec(sc, VERBOSE)
    styles = ('enum', 'const', 'regex')
    jss = {st: generate(ctx, sc, st) for st in styles}
    if None in jss.values():
        return
    with tmpdir() as d:
        p = os.path.join(d, 'a.json')
        json_schema_dump(copy.deepcopy(sc), p)
        with open(p) as f:
            if json.load(f) != jss['enum']:
                ctx.fail('JSON Schema file differs from the JSON Schema text', schema=sc)
    vs = {}
    for t in names(sc):
        st = r.choice(styles)
        js = jss[st]
        v = jsonschema.Draft7Validator({'$ref': f'#/definitions/{t}', 'definitions': js['definitions']})
        node = m.ref(t)
        for x in values(ctx, m, t, 4):
            k, e = call(c.encode, t, x)
            if k != 'ok':
                continue        # see C02
            e = jcopy(e)
            if ambiguous(node, e):
                ctx.count['unspecified'] += 1
                continue
            vs.setdefault(t, e)
            ctx.event('codec_value', (t, repr(e)[:800]))
            if not valid(v, e):
                err = next(v.iter_errors(e))
                ctx.fail('value written by the codec does not validate', type=t, style=st, value=e, error=err.message[:500], path=list(err.absolute_path), definition=js['definitions'][t], schema=sc)
            if why := fault(node, e):
                raise AssertionError(f'harness: codec value has fault {why}: {t} {e} {sc}')
            near = [G.mutate(r, e) for _ in range(4)]
            for _, y in edges(r, m, node, x, 5):
                try:
                    near.append(ml.encode(t, y, VERBOSE))
                except (M.Reject, M.Unspec, TypeError, ValueError):
                    pass
            if node.kind == 'Choice' and node.o.get('combine') == 'X':
                g = G.ValueGen(r, m)
                for a in node.flds:
                    try:
                        g.budget = 400
                        near += [m.enc(a.node, g.value(a.node), VERBOSE) for _ in range(3)]
                    except (G.NoValue, M.Reject, M.Unspec):
                        pass
            for y in near:
                try:
                    y = jcopy(y)
                except (TypeError, ValueError):
                    continue
                why = fault(node, y)
                if not why:
                    continue
                if expect(m.decode, t, y, VERBOSE)[0] == 'ok':
                    raise AssertionError(f'harness: fault {why} in a value that decodes: {t} {y} {sc}')
                ctx.event('near_miss', (t, repr(y)[:800]))
                ctx.count['miss:' + why] += 1
                if valid(v, y):
                    ctx.fail(f'value with a structural fault ({why}) validates', type=t, style=st, value=y, definition=js['definitions'][t], schema=sc)
    info = sc.get('info', {})
    roots = info.get('roots', info.get('exports', []))
    if roots and all(t in vs for t in roots):
        st = r.choice(styles)
        v = jsonschema.Draft7Validator(jss[st])
        keys = [t.lower().replace('-', '_') for t in roots]
        for t, key in zip(roots, keys):
            if keys.count(key) > 1:     # names that coincide have to be told apart somehow
                key = next((k for k, x in jss[st].get('properties', {}).items() if x.get('$ref') == f'#/definitions/{t}'), key)
            top = vs[t] if len(roots) == 1 else {key: vs[t]}
            ctx.event('top_level', (t, repr(top)[:500]))
            if not valid(v, top):
                ctx.fail('top level does not accept a root type', type=t, roots=roots, value=top, error=next(v.iter_errors(top)).message[:500], schema=sc)
            y = G.mutate(r, vs[t])
            try:
                y = jcopy(y)
            except (TypeError, ValueError):
                continue
            if fault(m.ref(t), y):
                ctx.event('top_level_bad')
                if valid(v, y if len(roots) == 1 else {key: y}):
                    ctx.fail('top level accepts a value with a structural fault', type=t, value=y, schema=sc)
        other = [t for t in vs if t not in roots]
        if len(roots) > 1 and other:
            key = r.choice(other).lower().replace('-', '_')
            if key not in [t.lower().replace('-', '_') for t in roots]:
                ctx.event('top_level_bad')
                if valid(v, {key: vs[next(t for t in other if t.lower().replace('-', '_') == key)]}):
                    ctx.fail('top level accepts a type that is not a root', type=key, roots=roots)
    ctx.sample(types=sc['types'][:2], value=next(iter(vs.values()), None))


assert jadn
