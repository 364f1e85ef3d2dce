"""Schema operations of the package, by name, with serialized results (C18)"""
import copy
import io
import json
import contextlib
import locale
import os
import sys
import tempfile

import jadn
from jadn.convert import diagram_dump, diagram_dumps, diagram_style, html_dump, html_dumps, html_load, html_loads, jidl_dump, jidl_dumps, jidl_loads, jidl_style, markdown_dump, markdown_dumps, markdown_style
from jadn.transform import resolve_imports, strip_comments, unfold_extensions
from jadn.translate import json_schema_dump, json_schema_dumps
from jadn.utils import canonicalize


def _file(f, *a, **k):
    fd, p = tempfile.mkstemp(prefix='verif-')
    os.close(fd)
    try:
        f(*a[:1], p, *a[1:], **k)
        with open(p, encoding='utf8', newline='') as x:
            return x.read()
    finally:
        os.unlink(p)


def _html_load(s):
    fd, p = tempfile.mkstemp(prefix='verif-')
    os.close(fd)
    try:
        with open(p, 'w', encoding='utf8') as x:
            x.write(html_dumps(s))
        return html_load(p)
    finally:
        os.unlink(p)


def _diag(fmt, detail, attr, **k):
    return lambda s: diagram_dumps(s, {'format': fmt, 'detail': detail, 'attributes': attr, **k})


OPS = {
    'jadn.dumps': lambda s: jadn.dumps(s),
    'jadn.dumps strip': lambda s: jadn.dumps(s, strip=True),
    'jadn.dump': lambda s: _file(jadn.dump, s),
    'jidl_dumps': lambda s: jidl_dumps(s),
    'jidl_dumps style': lambda s: jidl_dumps(s, {'info': 20, 'id': 9, 'name': 30, 'type': 50, 'desc': 60}),
    'jidl_dump': lambda s: _file(jidl_dump, s),
    'html_dumps': lambda s: html_dumps(s),
    'html_dump': lambda s: _file(html_dump, s),
    'markdown_dumps': lambda s: markdown_dumps(s),
    'markdown_dump': lambda s: _file(markdown_dump, s),
    'diagram default': lambda s: diagram_dumps(s),
    'diagram_dump': lambda s: _file(diagram_dump, s),
    'plantuml logical': _diag('plantuml', 'logical', False),
    'plantuml information': _diag('plantuml', 'information', True, edge_label=False),
    'graphviz conceptual': _diag('graphviz', 'conceptual', True, edge_mult=False),
    'graphviz logical': _diag('graphviz', 'logical', True),
    'graphviz information': _diag('graphviz', 'information', False),
    'json schema enum': lambda s: json_schema_dumps(s),
    'json schema const': lambda s: json_schema_dumps(s, enum_style='const'),
    'json schema regex': lambda s: json_schema_dumps(s, enum_style='regex', import_style='ref'),
    'json_schema_dump': lambda s: _file(json_schema_dump, s),
    'jidl_loads': lambda s: jidl_loads(jidl_dumps(s)),
    'html_loads': lambda s: html_loads(html_dumps(s)),
    'html_load': _html_load,
    'jadn.loads': lambda s: jadn.loads(jadn.dumps(s)),
    'check': lambda s: jadn.check(copy.deepcopy(s)),
    'analyze': lambda s: jadn.analyze(s),
    'build_deps': lambda s: jadn.build_deps(s),
    'topo_sort': lambda s: jadn.topo_sort(jadn.build_deps(s), [t[0] for t in s['types']][:2]),
    'unfold': lambda s: unfold_extensions(s),
    'unfold anonymous': lambda s: unfold_extensions(s, {'AnonymousType'}),
    'unfold multiplicity': lambda s: unfold_extensions(s, {'Multiplicity', 'Link'}),
    'unfold enum': lambda s: unfold_extensions(s, {'DerivedEnum', 'AnonymousType', 'MapOfEnum'}),
    'strip': lambda s: strip_comments(s),
    'strip 10': lambda s: strip_comments(s, 10),
    'canonicalize': lambda s: canonicalize(s),
    'styles': lambda s: [jidl_style(), markdown_style(), diagram_style()],
}
IMPORTS_REFUSED = ()


def run(name, s):
    """('ok', result) or ('exc', type)"""
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return 'ok', OPS[name](s)
    except Exception as e:
        return 'exc', f'{type(e).__name__}: {e}'


def resolve(root, d):
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return 'ok', resolve_imports(root, d)
    except Exception as e:
        return 'exc', f'{type(e).__name__}: {e}'


def show(res):
    """Serialized form that keeps the order of everything"""
    return json.dumps(res, default=lambda x: f'{type(x).__name__}:{x!r}')


def main(path):
    """Batch in another process: [[schema, [ops], dir or None], ...] -> [[digest, ...], ...]"""
    with open(path, encoding='utf8') as f:
        jobs = json.load(f)
    out, places = [], [os.getcwd(), os.path.dirname(path)]
    for s, ops, d in jobs:
        mine = copy.deepcopy(s)
        got = []
        for o in ops:
            os.chdir(places[len(got) % 2])      # the working directory changes during the process
            got.append(show(resolve(mine, d) if o == 'resolve' else run(o, mine)))
        out.append({'out': dict(zip(ops, got)), 'same': json.dumps(mine) == json.dumps(s)})
    if 'LC_ALL' in os.environ and os.environ.get('PYTHONUTF8') == '0':
        assert locale.getencoding() != 'utf-8', locale.getencoding()     # files really are opened with another encoding
    print(json.dumps(out))


if __name__ == '__main__':
    main(sys.argv[1])
