"""P01: a scaffolded config reproduces the source signature."""
import ast
import importlib
import inspect
import types

from hypothesis import strategies as st

from lib import gen
from lib.vh import Info, Sub, Violation, World, check, check_eq

PROPERTY = 'P01'
TECHNIQUE = 'property-based testing: generated signatures, differential against inspect.signature of the imported source'
LEVEL_NOTE = ('Random source modules (defaults from an expression grammar over literals, containers, operators, calls, '
              'module constants, imports, local definitions and builtins; annotations plain, quoted, generic, union, '
              'dotted; functions and classes; direct, renamed, re-exported and package-relative sources).')
RULE = ('a case is a generated source layout with 1-4 items; non-trivial when a default or annotation needs an import, '
        'a source definition or a compound expression')
ASSUMPTIONS = ['no *args/**kwargs/positional-only arguments, no star imports, one definition per name, no argument called s']

PRELUDE = '''import gm_log
import functools


def early(X=0):
    # names of this function and of the class below are not names of the module
    import string as math
    from math import e as P
    max = 3
    tau = Z = int = 4
    Thing, OBJ = 1, 2
    return max


class Early:
    tau = 3
    import string as t
    X = min = 9
    pi: int = 3

    def inner(self):
        from math import inf as e, pi as inf
        return e


def deco(func):
    @functools.wraps(func)
    def wrapper(*args, **kwargs):
        return func(*args, **kwargs)
    return wrapper


import math
import math as m
import os.path
from math import pi as P, e
from math import (tau,
                  inf)
import typing
import typing as t
from typing import List, Optional, Dict, Tuple, Union, Callable, Any
import collections.abc
%(relimp)s

X = 7
Y: str = 'why'
Z = X + 1
CONST_LIST = [1, 2]
CONST_DICT = {'k': X}
C1 = C2 = 3
T1, T2 = 1, (2, X)
(T3, [T4, *T5]) = 'three', 'four'
CONST_DICT['new'], CONST_LIST[1:] = 2, [2]
N1 = N2, N3 = [X, Z]


def helper(x=3):
    def f1():
        return 0
    inner = 5
    return [x]


class Thing:
    attr = 11

    class Nested:
        def __init__(self, q=1):
            self.q = q

    def __init__(self, unrelated=1, other=2):
        self.unrelated = unrelated

    def f1(self, nope=3):
        return nope


OBJ = Thing()


'''

lit = st.one_of(
    st.sampled_from(['0', '1', '-1', '2.5', '-0.25', '1e10', '1e-7', 'True', 'False', 'None', '...', '1j', '0x1f',
                     "b'by\\x00'", '10**20', '1_000', "'it\\'s'", '"dq\\"s"', "'''tri\\nple'''", "r'\\d+'", "''", "'é😀'",
                     "'%s {}'", "'a' 'b'", "'x' * 3"]),
    st.integers(-10 ** 12, 10 ** 12).map(repr),
    st.floats(allow_nan=False, allow_infinity=False).map(repr),
    gen.text.map(repr),
)
names = st.sampled_from(['X', 'Y', 'Z', 'CONST_LIST', 'CONST_DICT', 'math.pi', 'm.e', 'P', 'e', 'tau', 'inf', 'os.path.sep',
                         'Thing', 'Thing.attr', 'OBJ', 'OBJ.attr', 'helper', 'int', 'len', 'dict', 'typing.Any', 'List[int]',
                         'Thing.Nested', 'os.path.join', 'NotImplemented', 'ValueError', 'C1', 'C2', 'T1', 'T2', 'T3', 'T4', 'T5', 'N1', 'N3', 'max', 'min'])
num = st.one_of(st.integers(2, 9).map(repr), st.sampled_from(['X', 'Z', 'math.pi', 'P', 'Thing.attr', 'm.e']))


def compound(ch):
    return st.one_of(
        st.lists(ch, max_size=3).map(lambda xs: '[' + ', '.join(xs) + ']'),
        st.lists(ch, min_size=1, max_size=3).map(lambda xs: '(' + ', '.join(xs) + ',)'),
        st.just('()'), st.just('set()'), st.just('{}'), st.just('{1, 2}'), st.just("{'a': 1, **CONST_DICT}"),
        st.lists(st.tuples(st.sampled_from(["'k'", '3', 'Y', "'two words'"]), ch), max_size=3).map(
            lambda kv: '{' + ', '.join(f'{k}: {v}' for k, v in kv) + '}'),
        st.tuples(num, st.sampled_from(['+', '-', '*', '**', '//', '%', '/', '|' if False else '+']), num).map(
            lambda x: f'{x[0]} {x[1]} {x[2]}'),
        st.tuples(num, num, num).map(lambda x: f'({x[0]} + {x[1]}) * {x[2]}'),
        st.tuples(num, num).map(lambda x: f'-({x[0]} - {x[1]})'),
        st.tuples(num, num, ch, ch).map(lambda x: f'{x[2]} if {x[0]} < {x[1]} else {x[3]}'),
        ch.map(lambda x: f'helper({x})'), ch.map(lambda x: f'helper(x={x})'), ch.map(lambda x: f'dict(a={x})'),
        st.sampled_from(['CONST_LIST[0]', "CONST_DICT['k']", 'CONST_LIST[::-1]', "float('inf')", '[i * 2 for i in range(3)]',
                         '{i: X for i in CONST_LIST}', "f'{X}-{Y!r}'", "f'{X:>5}'", 'not X', 'X and Y', 'None or X', 'list(range(3))',
                         'X in CONST_LIST', 'X == 7', '[*CONST_LIST, 3]', "Y.upper()", 'lambda q: q', 'lambda q, r=X: [q, r]',
                         'sorted(CONST_LIST, reverse=True)', '2 ** -1', '(-2) ** 2', '-2 ** 2', '~X', '1 < X <= 9']),
    )


exprs = st.one_of(lit, names, st.recursive(st.one_of(lit, names), compound, max_leaves=4), compound(st.one_of(lit, names)))

annots = st.one_of(st.none(), st.sampled_from([
    'int', 'str', "'str'", 'List[int]', "'List[int]'", 'Optional[str]', 'Dict[str, List[int]]', 'Tuple[int, ...]', 'Union[int, str]',
    'Thing', "'Thing'", "List['Thing']", "'Optional[Thing]'", 'typing.List[int]', 't.Optional[Thing]', 'Callable[[int, str], None]',
    'Callable[..., Any]', 'int | None', 'list[int]', 'dict[str, int] | None', 'collections.abc.Mapping', 'Thing.Nested', 'None', 'Any',
    "typing.Literal['a', 3]", 'type', 'object', "'int | str'", 'X', "Dict[str, 'Thing']"]))


@st.composite
def signature(draw):
    n = draw(st.integers(0, 5))
    pool = draw(st.permutations(gen.ARGS + ['config', 'path', 'self_', 'kwargs_']))[:n]
    n_kw = draw(st.integers(0, n)) if draw(st.booleans()) else 0
    out, seen = [], False
    for i, a in enumerate(pool):
        kw = i >= n - n_kw
        has = draw(st.booleans()) or (seen and not kw)
        seen = seen or has
        out.append([a, draw(exprs) if has else None, draw(annots), kw])
    return out


@st.composite
def cases(draw):
    items = []
    for name in draw(st.permutations(['f1', 'compute', 'Klass', 'Other']))[:draw(st.integers(1, 3))]:
        items.append([name, draw(signature())])
    return dict(items=items,
                layout=draw(st.sampled_from(['direct', 'direct', 'package', 'reexport', 'reexport_rename', 'dict_rename', 'relative_reexport'])),
                spec=draw(st.booleans()) and draw(signature()), noise=draw(st.booleans()), wraps=draw(st.integers(0, 3)) == 0)


def render_sig(sig, self_arg):
    parts, star = (['self'] if self_arg else []), False
    for a, d, ann, kw in sig:
        if kw and not star:
            parts.append('*')
            star = True
        parts.append(a + (f': {ann}' if ann else '') + ('' if d is None else f' = {d}'))
    return ',\n        '.join(parts)


def render_item(name, sig, wraps=False):
    d = ', '.join(f'{a[0]}={a[0]}' for a in sig)
    if name[0].isupper():
        body = ''.join(f'        self.{a[0]} = {a[0]}\n' for a in sig) or '        pass\n'
        d = ', '.join(f'{a[0]}=self.{a[0]}' for a in sig)
        return (f'class {name}:\n    cls_var = 3\n\n    def other(self, a=99):\n        return a\n\n{"    @deco" if wraps else ""}\n    def __init__({render_sig(sig, True)}):\n{body}\n'
                f'    def __call__(self):\n        return [{name!r}, dict({d})]\n\n\n')
    return ('@deco\n' if wraps else '') + f'def {name}({render_sig(sig, False)}):\n    return [{name!r}, dict({d})]\n\n\n'


def same(a, b, depth=0):
    if isinstance(a, types.FunctionType) and isinstance(b, types.FunctionType) and a.__name__ == b.__name__ == '<lambda>':
        return a(4) == b(4)
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, float):
        return repr(a) == repr(b)
    return a is b or a == b


def expected_defaults(func):
    out = {}
    for name, p in inspect.signature(func).parameters.items():
        if name == 'self':
            continue
        out[name] = None if p.default is inspect.Parameter.empty else p.default
    return out


def check_file(w, rel, args, func, mod, always, preset=None):
    text = w.read(rel)
    tree = ast.parse(text)
    assigned = []
    for node in tree.body:
        if isinstance(node, ast.Assign):
            for tgt in node.targets:
                check(isinstance(tgt, ast.Name), f'{rel}: unexpected assignment', text=text)
                assigned.append((tgt.id, None))
        elif isinstance(node, ast.AnnAssign):
            assigned.append((node.target.id, node.annotation))
        else:
            check(isinstance(node, (ast.Import, ast.ImportFrom)), f'{rel}: unexpected statement', text=text)
    check_eq([a for a, _ in assigned if a not in always], args, f'{rel}: variables\n{text}')
    ns = {'__name__': 'gm_cfg_exec'}
    try:
        exec(compile(tree, rel, 'exec'), ns)
    except Exception as e:
        raise Violation(f'{rel} is not importable on its own: {type(e).__name__}: {e}\n{text}')
    want = expected_defaults(func)
    want.update(preset or {})
    for a in args:
        check(same(ns[a], want[a]), f'{rel}: value of {a}', actual=ns[a], expected=want[a], text=text)
    raw = {k: v for k, v in func.__annotations__.items() if k != 'return'}
    got = ns.get('__annotations__', {})
    check_eq(sorted(k for k in got if k in args), sorted(raw), f'{rel}: annotated arguments\n{text}')
    for a, ann in raw.items():
        if isinstance(ann, str):
            ann = eval(ann, vars(mod))
        check(got[a] == ann, f'{rel}: annotation of {a}', actual=got[a], expected=ann, text=text)
    return ns


def run(case):
    with World() as w:
        import sys
        sys.modules['gm_log'] = types.ModuleType('gm_log')
        layout = case['layout']
        body = PRELUDE % dict(relimp='from . import sibling\nfrom .sibling import Y2, deep as RD' if layout in ('package', 'relative_reexport') else '')
        for name, sig in case['items']:
            body += render_item(name, sig, case.get('wraps'))
        if case['noise']:
            body += 'def tail(a=1, b=2):\n    def compute():\n        pass\n    return a\n'
        names_ = [n for n, _ in case['items']]
        dict_names = list(names_)
        if layout in ('package', 'relative_reexport'):
            w.module('gm_pkg.__init__', 'from .impl import ' + ', '.join(names_) + '\n' if layout == 'relative_reexport' else '')
            w.module('gm_pkg.sibling', 'Y2 = 5\n\ndef deep(): return 1\n')
            w.module('gm_pkg.impl', body)
            src = 'gm_pkg.impl'
            imp = f'from {"gm_pkg" if layout == "relative_reexport" else src} import {", ".join(names_)}\n'
        elif layout in ('reexport', 'reexport_rename'):
            src = 'gm_impl'
            w.module(src, body)
            if layout == 'reexport':
                w.module('gm_front', f'import math\nfrom {src} import ' + ', '.join(names_) + '\n')
            else:
                dict_names = [n + '_r' for n in names_]
                w.module('gm_front', f'from {src} import (\n' + ',\n'.join(f'    {n} as {n}_r' for n in names_) + '\n)\n')
            imp = f'from gm_front import {", ".join(dict_names)}\n'
        else:
            src = 'gm_src'
            w.module(src, body)
            imp = f'from {src} import {", ".join(names_)}\n'
            if layout == 'dict_rename':
                dict_names = [n + '_r' for n in names_]
                imp = f'from {src} import ' + ', '.join(f'{n} as {n}_r' for n in names_) + '\n'
        w.write('proj/pipeline_dict.py', imp + '\npipeline_dict = {"sec": [' + ', '.join(dict_names) + ']}\n')
        kw = {}
        spec_sig = case['spec']
        if spec_sig is not False:
            key_has_default = any(d is not None and not k for _, d, _, k in spec_sig)
            n_pos = len([x for x in spec_sig if not x[3]])
            sig = spec_sig[:n_pos] + [['name', 'None' if key_has_default else None, None, False]] + spec_sig[n_pos:]
            w.module('gm_spec', PRELUDE % dict(relimp='') + render_item('Spec', sig, case.get('wraps')))
            w.write('proj/things_dict.py', "class_dict = {'grp': ['e1', 'e2']}\n")
            kw = dict(specific_class_config_dicts=[{'name': 'things', 'class': importlib.import_module('gm_spec').Spec}])
        # the library warns when it cannot find an import; only outcomes count here
        pm = w.manager(**kw)
        mod = importlib.import_module(src)
        hard = False
        for n, dn in zip(names_, dict_names):
            sig = dict(case['items'])[n]
            obj = getattr(mod, n)
            func = obj.__init__ if inspect.isclass(obj) else obj
            rel = f'proj/defaults/sec/{dn}.py'
            args = [a[0] for a in sig]
            check_file(w, rel, args, func, mod, {'s'})
            want = expected_defaults(func)
            cfg = pm.config.get(f'sec.{dn}')
            check(all(a in cfg and same(cfg[a], want[a]) for a in args), f'config of {dn}', actual=dict(cfg), expected=want)
            res = pm.run(f'sec.{dn}')
            check(same(res, [n, want]), f'running {dn} with an untouched config', actual=res, expected=[n, want])
            hard = hard or any((a[1] and not a[1].lstrip('-').isalnum()) or (a[2] and a[2] not in ('int', 'str', 'None')) for a in sig)
        if spec_sig is not False:
            smod = importlib.import_module('gm_spec')
            for ent in ('e1', 'e2'):
                rel = f'proj/defaults/things/grp/{ent}.py'
                args = [a[0] for a in sig_args(sig_of(spec_sig))]
                check_file(w, rel, args, smod.Spec.__init__, smod, {'s'}, preset={'name': ent})
                want = expected_defaults(smod.Spec.__init__)
                want['name'] = ent
                res = pm.run(f'things.grp.{ent}')
                check(same(res, ['Spec', want]), f'running things.grp.{ent}', actual=res, expected=['Spec', want])
        return Info(hard, layout, 'spec' if spec_sig is not False else '',
                    'annot' if any(a[2] for _, s in case['items'] for a in s) else '',
                    'kwonly' if any(a[3] for _, s in case['items'] for a in s) else '')


def sig_of(spec_sig):
    n_pos = len([x for x in spec_sig if not x[3]])
    return spec_sig[:n_pos] + [['name', None, None, False]] + spec_sig[n_pos:]


def sig_args(sig):
    return sig


SUBS = [Sub('scaffold', cases(), run, quick=700, thorough=40000)]
