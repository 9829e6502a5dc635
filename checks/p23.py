"""P23: config files and their statements survive parse and render."""
import ast
import os
import types

from hypothesis import strategies as st

from lib.vh import Info, Sub, Violation, World, check, check_eq, pfc

PROPERTY = 'P23'
TECHNIQUE = 'property-based testing: round trips of generated statements and files, oracle is the Python parser and the executed namespace'
LEVEL_NOTE = ('Random import statements (every form), assignments of random expressions with annotations and subscript / attribute targets, '
              'and whole files mixing them with docstrings, comments and blocks; read, rendered, re-read and re-rendered.')
RULE = ('a case is a statement or a file; non-trivial for an import with a rename, several names or several lines, for an assignment with an '
        'annotation or a compound expression, for a file with an import and an assignment')
ASSUMPTIONS = ['star imports, tuple targets and chained assignments are outside the supported grammar (documented)']

# ---------------------------------------------------------------- imports ---

MODS = ['math', 'string', 'os', 'os.path', 'collections.abc', 'json', 'json.decoder', 'pkg_a', 'pkg_a.sub_b.c']
NAMES = ['x', 'alpha', 'Beta', 'path', 'math', '_p']
ident = st.sampled_from(NAMES)


@st.composite
def import_stmts(draw):
    kind = draw(st.sampled_from(['mod', 'obj', 'rel']))
    pool = MODS if kind == 'mod' else NAMES
    names = [[draw(st.sampled_from(pool)), draw(st.one_of(st.none(), st.sampled_from(['ren', 'x2', 'Alpha', 'math'])))]
             for _ in range(draw(st.integers(1, 4)))]
    mod = None
    if kind == 'obj':
        mod = draw(st.sampled_from(MODS))
    elif kind == 'rel':
        mod = '.' * draw(st.integers(1, 3)) + draw(st.sampled_from(['', 'sib', 'sib.deep']))
    return dict(mod=mod, names=names, layout=draw(st.sampled_from(['plain', 'plain', 'paren', 'backslash', 'spaces'])))


def render_import(s):
    parts = [n + (f' as {a}' if a else '') for n, a in s['names']]
    if s['mod'] is None:
        sep = ', \\\n    ' if s['layout'] == 'backslash' else (' ,  ' if s['layout'] == 'spaces' else ', ')
        return 'import ' + sep.join(parts)
    if s['layout'] == 'paren':
        return f'from {s["mod"]} import (\n    ' + ',\n    '.join(parts) + ',\n)'
    if s['layout'] == 'backslash':
        return f'from {s["mod"]} \\\n    import ' + ', \\\n    '.join(parts)
    if s['layout'] == 'spaces':
        return f'from  {s["mod"]}  import  ' + ' ,  '.join(p.replace(' as ', '  as  ') for p in parts)
    return f'from {s["mod"]} import ' + ', '.join(parts)


def import_meaning(text):
    body = ast.parse(text).body
    out = []
    for node in body:
        check(isinstance(node, (ast.Import, ast.ImportFrom)), 'an import turned into something else', text=text)
        mod = None if isinstance(node, ast.Import) else ('.' * node.level + (node.module or ''))
        out += sorted((mod or '', a.name, a.asname if a.asname != a.name else '') if a.asname else (mod or '', a.name, '') for a in node.names)
    return out


def classes_of():
    pfc()
    from pyfileconf.imports.models.statements.module import ModuleImportStatement
    from pyfileconf.imports.models.statements.obj import ObjectImportStatement
    from pyfileconf.imports.models.statements.container import ImportStatementContainer
    from pyfileconf.assignments.models.statement import AssignmentStatement
    from pyfileconf.assignments.models.container import AssignmentStatementContainer
    return ModuleImportStatement, ObjectImportStatement, ImportStatementContainer, AssignmentStatement, AssignmentStatementContainer


def as_obj(s, text=None):
    M, O, _, _, _ = classes_of()
    return (M if s['mod'] is None else O).from_str(text or render_import(s))


def same_meaning(a, b):
    def names(s):
        return sorted((n, r or n) for n, r in s['names'])
    return a['mod'] == b['mod'] and names(a) == names(b)


def run_import(case):
    M, O, C, _, _ = classes_of()
    objs = []
    for s in case['stmts']:
        text = render_import(s)
        obj = as_obj(s)
        out = str(obj)
        check_eq(import_meaning(out), import_meaning(text), f'{text!r} rendered as {out!r}')
        check_eq(str(as_obj(s, out)), out, f'second round trip of {text!r}')
        node = ast.parse(text).body[0]
        obj2 = M.from_ast_import(node) if s['mod'] is None else O.from_ast_import_from(node)
        check(obj2 == obj and obj == obj2, f'from AST and from text differ for {text!r}', ast=obj2, text_=obj)
        check_eq(str(obj2), out, f'{text!r} from AST')
        check(obj == as_obj(s), f'equal texts {text!r} give different objects')
        objs.append(obj)
    for i, a in enumerate(case['stmts']):
        for j, b in enumerate(case['stmts']):
            if a == b:
                check(objs[i] == objs[j], f'{render_import(a)!r} compares unequal to itself')
            eq = objs[i] == objs[j]
            if eq:
                check(same_meaning(a, b), f'{render_import(a)!r} compares equal to {render_import(b)!r}')
            check_eq(bool(eq), bool(objs[j] == objs[i]), 'symmetry of ==')
            check_eq(bool(objs[i] != objs[j]), not eq, '!= against ==')
    cont = C([as_obj(s) for s in case['stmts']])
    want = [m for s in case['stmts'] for m in import_meaning(render_import(s))]
    check_eq(import_meaning(str(cont)), want, 'rendered container')
    return Info(any(len(s['names']) > 1 or s['names'][0][1] or s['layout'] != 'plain' for s in case['stmts']),
                *[s['layout'] for s in case['stmts']])


# ------------------------------------------------------------ assignments ---

# texts whose rendering may be wrapped or written in triple quotes
long_texts = st.builds(lambda parts, quote: repr((quote + ' ').join(parts)) if parts else repr(quote),
                       st.lists(st.sampled_from(['words which make it long enough ', 'blanks at the end  \n', '\ttab\t\n', '\r\n', "'''", '"""', '\\', '\\n', '\n\n', 'é', '{nm}', '%s', '#', '\x00', '\x0c']), max_size=8),
                       st.sampled_from(['', '"', "'", '\n']))
short_atoms = st.sampled_from(['1', '-3', '2.5', '1e-7', '10**40', '1j', "'txt'", "\"it's\"", "'a\\nb'", "b'x\\xff'", 'None', 'True', 'nm', 'nm.attr', "'é😀'", '...',
                         "'''m\nl'''", "r'\\d'", "''", '()', '[]', '{}', "'" + 'long ' * 30 + "'", "'a' 'b'"])
atoms = st.one_of(short_atoms, short_atoms, short_atoms, long_texts)


num = st.sampled_from(['', '1', '-3', 'nm', 'nm.attr'])


def compound(ch):
    return st.one_of(
        st.lists(ch, min_size=1, max_size=3).map(lambda x: '[' + ', '.join(x) + ']'),
        st.lists(ch, min_size=1, max_size=3).map(lambda x: '(' + ', '.join(x) + ',)'),
        st.lists(st.tuples(atoms, ch), min_size=1, max_size=3).map(lambda x: '{' + ', '.join(f'{k}: {v}' for k, v in x) + '}'),
        st.tuples(ch, st.sampled_from(['+', '-', '*', '/', '//', '%', '**', '@', '<', '==', 'in', 'not in', 'is', 'and', 'or', '|', '&', '^', '<<']), ch)
        .map(lambda t: f'({t[0]} {t[1]} {t[2]})'),
        st.tuples(st.sampled_from(['-', '+', '~', 'not ']), ch).map(lambda t: f'({t[0]}({t[1]}))'),
        st.tuples(ch, ch, ch).map(lambda t: f'({t[0]}) if ({t[1]}) else ({t[2]})').map(lambda s: f'({s})'),
        ch.map(lambda c: f'fn({c}, *nm, k={c}, **nm)'),
        ch.map(lambda c: f'(lambda p, q={c}, *r, s=1, **t: {c})'),
        ch.map(lambda c: f'[i for i in {c} if i]'),
        ch.map(lambda c: f'{{i: j for i, j in {c}}}'),
        st.tuples(num, num, ch).map(lambda t: f'nm[{t[0]}:{t[1]}, ::2, {t[2]}]'),
        ch.map(lambda c: f'nm[{c}].meth()'),
        st.sampled_from(["f'{nm!r:>{nm}}'", "f'{{}}{nm}'", "f'a\\nb{nm.attr:%Y}'", "f'{nm}' 'tail'"]),
        ch.map(lambda c: f'[*nm, {c}]'), ch.map(lambda c: f'{{**nm, "k": {c}}}'),
    )


exprs = st.recursive(atoms, compound, max_leaves=6)
targets = st.sampled_from(['v', 'other', '_u', 'v', 'v.attr', "v['k']", 'v[0].x'])
anns = st.sampled_from([None, None, 'int', 'Optional[Dict[str, int]]', "'Later'", 'Union[int, None]', 'int | None', 'Literal["a b"]', 'a.b.C', 'Callable[[int], str]'])


@st.composite
def assign_stmts(draw):
    t = draw(targets)
    return dict(target=t, ann=draw(anns), value=draw(exprs))


def render_assign(s):
    return s['target'] + (f': {s["ann"]}' if s['ann'] else '') + f' = {s["value"]}'


def dump(text):
    return ast.dump(ast.parse(text))


def run_assign(case):
    _, _, _, A, AC = classes_of()
    objs = []
    for s in case['stmts']:
        text = render_assign(s)
        node = ast.parse(text).body[0]
        obj = A.from_ast_assign(node)
        out = str(obj)
        check_eq(dump(out), dump(text), f'{text!r} rendered from AST as {out!r}')
        check_eq(ast.dump(obj.to_ast()) == ast.dump(node) or dump(ast.unparse(ast.fix_missing_locations(obj.to_ast()))) == dump(text), True, f'to_ast of {text!r}')
        obj2 = A.from_str(text)
        check_eq(dump(str(obj2)), dump(text), f'{text!r} rendered from text as {str(obj2)!r}')
        check_eq(str(A.from_str(str(obj2))), str(obj2), f'second round trip of {text!r}')
        check(obj == obj2 and obj2 == obj, f'from AST and from text differ for {text!r}')
        check(obj == node, f'{text!r} differs from its own AST')
        if s['target'].isidentifier():
            check_eq(obj.varname, s['target'], f'varname of {text!r}')
            d, a = AC([obj]).to_default_dict_and_annotation_dict()
            check_eq(list(d), [s['target']], f'names assigned by {text!r}')
            check_eq(ast.dump(d[s['target']]), ast.dump(node.value), f'value of {text!r}')
            check_eq(list(a), [s['target']] if s['ann'] else [], f'annotations of {text!r}')
            back = AC.from_dict_of_varnames_and_ast(d, a)
            check_eq(dump(str(back)), dump(text.replace('other: ', 'other: ')), f'{text!r} through dicts')
        objs.append(obj)
    for i, a in enumerate(case['stmts']):
        for j, b in enumerate(case['stmts']):
            eq = bool(objs[i] == objs[j])
            if a['target'] == b['target'] and a['value'] == b['value']:
                check(eq, f'{render_assign(a)!r} != {render_assign(b)!r}')
            elif dump(a['target'] + '=' + a['value']) != dump(b['target'] + '=' + b['value']):
                check(not eq, f'{render_assign(a)!r} == {render_assign(b)!r}')
    cont = AC([A.from_ast_assign(ast.parse(render_assign(s)).body[0]) for s in case['stmts']])
    text = '\n'.join(render_assign(s) for s in case['stmts'])
    check_eq(dump(str(cont)), dump(text), 'rendered container')
    for name in ['v', 'other', '_u', 'zzz']:
        check_eq(cont.contains_varname(name), any(s['target'] == name for s in case['stmts']), f'contains_varname({name!r})')
    return Info(any(s['ann'] or s['value'][0] in '[({' or not s['target'].isidentifier() for s in case['stmts']),
                *['annotated' if s['ann'] else '' for s in case['stmts']], *['' if s['target'].isidentifier() else 'into' for s in case['stmts']])


# ------------------------------------------------------------------ files ---

FILE_IMPORTS = ['import math', 'import os.path as osp', 'from math import (\n    e,\n    tau as T,\n)', 'import math, string', 'from math import \\\n    inf',
                'import os; import json', 'from gm_help import helper, helper as hh', 'import gm_help', 'from gm_help import CONST']
FILE_BLOCKS = ['v1 = 1', 'v2: int = 2', "v3 = {'a': 1}\nv3['b'] = 2", 'if True:\n    v4 = 1\nelse:\n    v4 = 2', '# a comment about import', '', 'v5 = [\n    1,\n\n    2,\n]',
               "'''a string\nstatement'''", 'for i_ in range(3):\n    v6 = i_', 'v7 = 1; v8 = 2', 'class C_:\n    pass\nv9 = C_()\nv9.attr = 4', 'v10 = 1\nv10 += 5',
               'import collections\nv11 = collections.OrderedDict', "v12 = 'import os'", "v13 = '''\nimport nothing_\nv1 = 3\n'''", 'def fn():\n    return 5\nv14 = fn()',
               'v15 = 3  # trailing import', 'important = 4', 'from_ = 5', "v16 = '#no comment'", 'v17 = 1 if True else 2', 'v18: "int" = 5', 'v19 = lambda: 3',
               'try:\n    import nonexistent_mod_\nexcept ImportError:\n    v20 = 1', 'with open(__import__("os").devnull) as f_:\n    v21 = f_.read()', 'v22 = "é😀"']


@st.composite
def file_cases(draw):
    imps = draw(st.lists(st.integers(0, len(FILE_IMPORTS) - 1), unique=True, max_size=4))
    blocks = draw(st.lists(st.integers(0, len(FILE_BLOCKS) - 1), unique=True, min_size=1, max_size=6))
    return dict(doc=draw(st.sampled_from(['', '', '"""Doc of import"""', "'''Multi\n\nline doc = 3\n'''", '# comment first', '#!/usr/bin/env python\n# -*- coding: utf-8 -*-', '\n\n'])),
                future=draw(st.integers(0, 7)) == 0, imports=imps, blocks=blocks, sep=draw(st.sampled_from(['', '\n', '\n\n\n', '# between', '# between\n'])),
                end=draw(st.sampled_from(['', '\n', '\n\n'])),
                adds=draw(st.lists(st.sampled_from([['n1', '1', ''], ['n2', "{'k': [1]}", ''], ['n3', 'math.pi', 'import math'], ['n4', 'helper', 'from gm_help import helper'],
                                                    ['n5', 'CONST + 1', 'from gm_help import CONST'], ['v1', '99', ''], ['n6', 'osp.sep', 'import os.path as osp']]), max_size=3, unique_by=lambda a: a[0])))


def render_file(c):
    parts = [c['doc']] if c['doc'] else []
    if c['future']:
        parts.append('from __future__ import annotations')
    for n, i in enumerate(c['imports']):
        parts.append(FILE_IMPORTS[i])
        if n == 0 and c['sep']:
            parts.append(c['sep'])
    parts += [FILE_BLOCKS[i] for i in c['blocks']]
    return '\n'.join(parts) + c['end']


def execute(text):
    ns = {'__name__': 'gm_cfg_exec'}
    exec(compile(text, 'cfg', 'exec'), ns)
    return ns


def norm(v):
    if isinstance(v, types.FunctionType) and v.__module__ == 'gm_cfg_exec':
        return ('fn', v())
    if type(v).__name__ == 'C_':
        return ('C_', dict(vars(v)))
    if isinstance(v, type) and v.__name__ == 'C_':
        return 'type C_'
    if type(v).__name__ == 'TextIOWrapper':
        return 'file'
    return v


def names_of(ns):
    return {k: norm(v) for k, v in ns.items() if k not in ('__builtins__', '__annotations__', '__name__', '__doc__', 'annotations')}


def check_ns(got_text, want_ns, what, extra=()):
    try:
        got = execute(got_text)
    except Exception as e:
        raise Violation(f'{what}: does not execute: {type(e).__name__}: {e}\n--- text\n{got_text}')
    g, w_ = names_of(got), names_of(want_ns)
    for k in w_:
        check(k in g, f'{what}: {k} is gone', text=got_text)
        check(g[k] is w_[k] or (type(g[k]) is type(w_[k]) and g[k] == w_[k]), f'{what}: {k} changed', was=w_[k], now=g[k], text=got_text)
    check(set(g) - set(w_) <= set(extra), f'{what}: new names {sorted(set(g) - set(w_) - set(extra))}', text=got_text)
    ga, wa = got.get('__annotations__', {}), want_ns.get('__annotations__', {})
    check_eq({k: str(v) for k, v in ga.items() if k in wa}, {k: str(v) for k, v in wa.items()}, f'{what}: annotations')
    check_eq(got.get('__doc__'), want_ns.get('__doc__'), f'{what}: docstring')


def run_file(case):
    M, O, C, _, _ = classes_of()
    from pyfileconf.basemodels.config import ConfigBase
    with World() as w:
        w.module('gm_help', 'CONST = 41\n\ndef helper():\n    return 1\n')
        w.write('proj/pipeline_dict.py', 'pipeline_dict = {}\n')
        w.manager()
        text = render_file(case)
        ns = execute(text)
        path = w.write('proj/defaults/orig.py', text)
        conf = ConfigBase.from_file(path)
        # what was read
        names = {t.id for node in ast.walk(ast.parse(text)) if isinstance(node, (ast.Assign, ast.AnnAssign))
                 for t in (node.targets if isinstance(node, ast.Assign) else [node.target]) if isinstance(t, ast.Name)}
        check_eq(set(conf), names, f'names read from\n{text}\n')
        # unchanged: saved over itself
        conf.to_file(path)
        check_eq(w.read('proj/defaults/orig.py'), text, 'file written back over itself')
        # saved as another file: the whole content is there, and the original is untouched
        conf = ConfigBase.from_file(path)
        conf.to_file(w.path('proj/defaults/copy.py'))
        check_eq(w.read('proj/defaults/orig.py'), text, 'original after it was saved as another file')
        check(os.path.exists(w.path('proj/defaults/copy.py')), 'saving as another file wrote nothing')
        check_ns(w.read('proj/defaults/copy.py'), ns, 'file saved as another file')
        # with additions
        conf = ConfigBase.from_file(path)
        for name, val, imp in case['adds']:
            conf[name] = ast.parse(val).body[0].value
            if imp:
                conf.imports.add_if_missing((O if imp.startswith('from') else M).from_str(imp))
        conf.to_file(path)
        out = w.read('proj/defaults/orig.py')
        extra = {a[0] for a in case['adds']} | {'math', 'helper', 'CONST', 'osp'}
        check_ns(out, ns, f'file with additions, was\n{text}\n---', extra)
        got = execute(out)
        env = execute('import math\nimport os.path as osp\nfrom gm_help import helper, CONST\n')
        for name, val, imp in case['adds']:
            if name not in names:
                check(name in got and got[name] == eval(val, env), f'added {name} = {val}', text=out)
        # once more: nothing to add, byte-identical
        conf = ConfigBase.from_file(path)
        for name, val, imp in case['adds']:
            conf[name] = ast.parse(val).body[0].value
            if imp:
                conf.imports.add_if_missing((O if imp.startswith('from') else M).from_str(imp))
        conf.to_file(path)
        check_eq(w.read('proj/defaults/orig.py'), out, 'second round trip')
        # the same file again through an unmodified config
        conf = ConfigBase.from_file(path)
        conf.to_file(path)
        check_eq(w.read('proj/defaults/orig.py'), out, 'third round trip')
        return Info(bool(case['imports']) and any('=' in FILE_BLOCKS[i] for i in case['blocks']), 'adds' if case['adds'] else '',
                    'doc' if case['doc'] else '', 'future' if case['future'] else '')


SUBS = [
    Sub('imports', st.lists(import_stmts(), min_size=1, max_size=4).map(lambda s: dict(stmts=s)), run_import, quick=4000, thorough=200000),
    Sub('assigns', st.lists(assign_stmts(), min_size=1, max_size=3).map(lambda s: dict(stmts=s)), run_assign, quick=2400, thorough=100000),
    Sub('files', file_cases(), run_file, quick=1600, thorough=60000),
]
