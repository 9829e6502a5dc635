"""P02: user edits of config files survive every re-scaffold."""
import ast
import importlib
import sys
import types

from hypothesis import strategies as st

from lib import gen
from lib.vh import Info, Sub, Violation, World, check, check_eq

PROPERTY = 'P02'
TECHNIQUE = 'property-based testing: generated user edits and re-scaffold histories, oracle is the executed namespace of the user text'
LEVEL_NOTE = ('Random user-written config files (docstrings, comments, single and multi-line imports at the top and later, renamed imports, '
              'annotated, subscript, attribute and conditional assignments, multi-line values) re-scaffolded by load, reload, create and '
              'fresh managers while sources gain arguments.')
RULE = ('a case is a set of user files and a history; non-trivial when a user file differs from the scaffold and the source gains an '
        'argument, or when a user file contains an import, multi-line, docstring or conditional block')
ASSUMPTIONS = ['user files bind arguments with assignments at the top level of the file, not with for, with, := or imports']

GAIN = [['g1', '11', None], ['g2', '[X, 2]', None], ['g3', 'math.pi', 'float'], ['g4', 'None', 'Optional[str]'],
        ['g5', "{'k': helper}", 'Dict[str, Any]'], ['g6', 'P', None], ['g7', None, 'int']]

SRC_HEAD = '''import math
from math import pi as P
from typing import Optional, Dict, Any

X = 7


def helper():
    return 1


'''

vals = st.sampled_from(['5', '-3', "'txt'", "'import os'", '[1,2]', "{'a': 1}", 'None', "'''multi\nimport math\nline'''", '(1, 2)', '2.5',
                        '{\n    "a": 1,\n    "b": [\n        2,\n    ],\n}', '"dq"', "dict(\n    a=1,\n)", 'E_ + 1', '1 +  2', "'a'  # trailing comment",
                        "'''\na = 99\n'''", 'lambda: 3'])
IMPORTS = [['import math\n', 'math.pi'], ['import os.path as osp\n', 'osp.sep'], ['from math import (\n    e,\n    tau as T,\n)\n', '[e, T]'],
           ['from math import e as E2, pi\n', '[E2, pi]'], ['import math, string\n', 'string.digits'], ['from math import \\\n    inf\n', 'inf'],
           ['import os; import json\n', 'json.dumps(1)'], ['from pyfileconf import Selector as Sel, context\n', '1'],
           ['from gm_src import X\n', 'X'], ['from gm_src import helper as hh\n', 'hh()']]
EXTRA = ['extra_1 = 3\n', 'extra_2: int = 4\n', "extra_3 = {'a': 1}\nextra_3['b'] = 2\n", 'if True:\n    extra_4 = 1\nelse:\n    extra_4 = 2\n',
         '# a comment about import\n', '\n\n', 'import collections\nextra_5 = collections.OrderedDict\n', 'important = 5\n',
         'extra_6 = [\n    1,\n\n    2,\n]\n', "'''a string\nstatement'''\n", 'for i_ in range(3):\n    extra_7 = i_\n', 'extra_8 = 1; extra_9 = 2\n',
         'class C_:\n    pass\nextra_10 = C_()\nextra_10.attr = 4\n', 'try:\n    import nonexistent_mod_\nexcept ImportError:\n    extra_11 = 1\n',
         'extra_12 = 1\nextra_12 += 5\n', 'del_me_ = 1\ndel del_me_\n',
         'extra_13 = extra_14 = [1]\n', 'extra_15, extra_16 = 1, (2, 3)\n', '(extra_17, [*extra_18]) = 4, [5, 6]\n', "extra_19 = {}\nextra_19['k'] = extra_20 = 8\n",
         # names of functions and classes are not names of the file
         'def C_helper_():\n    import math\n    from math import pi as P\n    a = 3\n    b, c = d = 1, 2\n    from typing import Optional\n    return a\n',
         'class C_2_:\n    import math\n    a = value = 3\n    c: int = 4\n    from gm_src import helper, X\n    from typing import Dict, Any\n']


@st.composite
def user_file(draw, args):
    style = draw(st.sampled_from(['keep', 'edit', 'edit', 'rewrite', 'rewrite', 'rewrite', 'empty']))
    if style in ('keep', 'empty'):
        return dict(style=style)
    if style == 'edit':
        return dict(style=style, edits=draw(st.lists(st.tuples(st.integers(0, 5), vals), min_size=1, max_size=3)))
    imps = draw(st.lists(st.integers(0, len(IMPORTS) - 1), unique=True, max_size=3))
    blocks = []
    present = draw(st.lists(st.sampled_from(args), unique=True)) if args else []
    for a in present:
        ann = draw(st.sampled_from(['', '', '', ': int', ': "str"']))
        v = draw(vals) if not imps or draw(st.booleans()) else IMPORTS[draw(st.sampled_from(imps))][1]
        blocks.append(f'{a}{ann} = {v}\n')
    if len(present) >= 2 and draw(st.integers(0, 3)) == 0:
        # several arguments in one statement
        a, b = present[:2]
        v, v2 = draw(st.sampled_from(['5', '[1, 2]', "'txt'", 'None', '(1, 2)'])), draw(st.sampled_from(['6', '{}', "'x'"]))
        blocks[:2] = [draw(st.sampled_from([f'{a} = {b} = {v}\n', f'{a}, {b} = {v}, {v2}\n', f'({a}, [{b}]) = {v}, [{v2}]\n', f'{b}, *{a} = {v2}, {v}\n',
                                            f'{a} = other_ = {v}\n{b} = {a}\n', f'{a}, {b} = pair_ = [{v}, {v2}]\n']))]
    for i in draw(st.lists(st.integers(0, len(EXTRA) - 1), unique=True, max_size=3)):
        blocks.insert(draw(st.integers(0, len(blocks))), EXTRA[i])
    return dict(style=style, doc=draw(st.sampled_from(['', '', '"""Doc of import"""\n', "'''Multi\nline doc\n'''\n\n", '# comment first\n', '#!/usr/bin/env python\n', '\n\n'])),
                future=draw(st.integers(0, 9)) == 0, selector=draw(st.sampled_from(['yes', 'yes', 'no', 'late', 'alias'])),
                imports=imps, sep=draw(st.sampled_from(['', '\n', '# between\n', '\n# between import\n\n'])), blocks=blocks,
                newline=draw(st.booleans()))


def render_user(u):
    out = u['doc']
    if u['future']:
        out += 'from __future__ import annotations\n'
    sel = {'yes': 'from pyfileconf import Selector\n', 'alias': 'from pyfileconf import Selector as Sl\n'}.get(u['selector'], '')
    out += sel
    for n, i in enumerate(u['imports']):
        out += IMPORTS[i][0] + (u['sep'] if n == 0 else '')
    out += 'E_ = 3\n'
    if u['selector'] == 'yes':
        out += '\ns = Selector()\n'
    elif u['selector'] == 'alias':
        out += 's = Sl()\n'
    out += ''.join(u['blocks'])
    if u['selector'] == 'late':
        out += 'from pyfileconf import Selector\ns = Selector()\n'
    return out if u['newline'] else out.rstrip('\n')


ARGS = ['a', 'b', 'c', 'value']


@st.composite
def cases(draw):
    items = []
    for name in ['f1', 'Klass', 'f2'][:draw(st.integers(1, 3))]:
        args = draw(st.permutations(ARGS))[:draw(st.integers(0, 4))]
        gain = draw(st.lists(st.integers(0, len(GAIN) - 1), unique=True, max_size=3))
        items.append(dict(name=name, args=args, defaults=draw(st.lists(st.sampled_from(['1', '"d"', 'X', 'math.pi', '[P]']), min_size=4, max_size=4)),
                          gain=gain, pos=draw(st.sampled_from(['first', 'last'])), file=draw(user_file(args))))
    spec = None
    if draw(st.booleans()):
        args = draw(st.permutations(ARGS))[:draw(st.integers(0, 3))]
        spec = dict(name='Spec', args=args, defaults=['1', 'X', '"d"'], gain=draw(st.lists(st.integers(0, len(GAIN) - 1), unique=True, max_size=2)),
                    pos='last', file=draw(user_file(args + ['name'])))
    return dict(items=items, spec=spec, nested=draw(st.booleans()),
                sections=draw(st.lists(st.sampled_from(['', 'sk = 1\n', '# only comment', 'import os\nsk = os.sep\n', 'from pyfileconf import Selector\n\n\n\nsk2=3']),
                                       min_size=3, max_size=3)),
                ops=draw(st.lists(st.sampled_from(['reload', 'fresh', 'gain', 'create', 'use']), min_size=1, max_size=5)))


def sig_of(it, gained):
    old = [[a, d, None] for a, d in zip(it['args'], it['defaults'])]
    new = [GAIN[i] for i in it['gain']] if gained else []
    out = new + old if it['pos'] == 'first' else old + new
    return out


def render_source(items, gained):
    out = SRC_HEAD
    for it in items:
        sig = sig_of(it, gained)
        parts = [a + (f': {ann}' if ann else '') + (f' = {d}' if d is not None else '') for a, d, ann in sig if d is None] + \
                [a + (f': {ann}' if ann else '') + f' = {d}' for a, d, ann in sig if d is not None]
        names = [p.split(':')[0].split(' ')[0] for p in parts]
        if it['name'][0].isupper():
            if it['name'] == 'Spec':
                parts, names = ['name=None'] + [p if '=' in p else p + ' = None' for p in parts], ['name'] + names
            body = ''.join(f'        self.{n} = {n}\n' for n in names) or '        pass\n'
            out += f'class {it["name"]}:\n    def __init__({", ".join(["self"] + parts)}):\n{body}\n    def __call__(self):\n        return 1\n\n\n'
        else:
            out += f'def {it["name"]}({", ".join(parts)}):\n    return [{", ".join(names)}]\n\n\n'
    return out


def execute(text):
    ns = {'__name__': 'gm_cfg_exec'}
    exec(compile(text, 'cfg', 'exec'), ns)
    ann = ns.pop('__annotations__', {})
    doc = ns.pop('__doc__', None)
    return {k: v for k, v in ns.items() if not k.startswith('__') and not isinstance(v, types.ModuleType)}, ann, doc, ns


def same(a, b):
    if type(a).__name__ == type(b).__name__ and type(a).__name__ in ('function', 'C_', 'Selector', 'type'):
        return True
    return type(a) is type(b) and a == b


def comments_of(text):
    import io
    import tokenize
    return [t.string for t in tokenize.generate_tokens(io.StringIO(text).readline) if t.type == tokenize.COMMENT]


def run(case):
    with World() as w:
        items = case['items']
        allit = items + ([case['spec']] if case['spec'] else [])
        w.module('gm_src', render_source(allit, False))
        w.module('gm_new', 'def created(a=1):\n    return a\n')
        names = [i['name'] for i in items]
        tree = "{'sec': {'inner': [%s]}, 'other': []}" if case['nested'] else "{'sec': [%s], 'other': []}"
        w.write('proj/pipeline_dict.py', f'from gm_src import {", ".join(names)}\n\npipeline_dict = ' + tree % ', '.join(names) + '\n')
        kw = {}
        if case['spec']:
            w.write('proj/things_dict.py', "class_dict = {'grp': ['e1']}\n")
            kw = dict(specific_class_config_dicts=[{'name': 'things', 'class': importlib.import_module('gm_src').Spec}])
        pm = w.manager(**kw)
        first = w.snapshot()
        base = 'sec.inner' if case['nested'] else 'sec'
        secs = [s for s in ['proj/defaults/section.py', 'proj/defaults/sec/section.py', f'proj/defaults/{base.replace(".", "/")}/section.py']]
        section_text = dict(zip(secs, case['sections']))
        for s, text in section_text.items():
            w.write(s, text)
        where, user_ns, texts = {}, {}, {}
        hard = False
        for it in allit:
            path = f'{base}.{it["name"]}' if it is not case['spec'] else 'things.grp.e1'
            rel = 'proj/defaults/' + path.replace('.', '/') + '.py'
            where[path] = (it, rel)
            u = it['file']
            text = w.read(rel)
            if u['style'] == 'edit':
                lines = text.split('\n')
                idx = [n for n, l in enumerate(lines) if ' = ' in l and not l.startswith('s =')]
                for i, v in u['edits']:
                    if idx:
                        n = idx[i % len(idx)]
                        lines[n] = lines[n].split(' = ')[0] + ' = ' + v.replace('E_', '3')
                        if '\n' in v:
                            idx = [k for k in idx if k != n]
                text = '\n'.join(lines)
            elif u['style'] == 'rewrite':
                text = render_user(u)
                hard = hard or bool(u['imports'] or u['doc'].strip() or any('\n' in b.rstrip('\n') for b in u['blocks']))
            elif u['style'] == 'empty':
                text = ''
            if u['style'] != 'keep' and it['gain']:
                hard = hard or 'gain' in case['ops']
            w.write(rel, text)
            user_ns[path] = execute(text)
            texts[path] = text
        gained = False
        created = False
        settled = None

        def verify(what):
            for path, (it, rel) in where.items():
                text = w.read(rel)
                try:
                    ns, ann, doc, full = execute(text)
                except Exception as e:
                    raise Violation(f'{what}: {rel} does not execute any more: {type(e).__name__}: {e}\n--- user text\n{texts[path]}\n--- now\n{text}')
                uns, uann, udoc, ufull = user_ns[path]
                for k, v in uns.items():
                    check(k in ns and same(ns[k], v), f'{what}: {rel}: user value of {k} changed', user=v, now=ns.get(k, '<missing>'),
                          user_text=texts[path], text=text)
                for k, v in ufull.items():
                    if isinstance(v, types.ModuleType):
                        check(full.get(k) is v, f'{what}: {rel}: imported module {k} changed', user_text=texts[path], text=text)
                for k, v in uann.items():
                    check(ann.get(k) == v, f'{what}: {rel}: annotation of {k} changed', user_text=texts[path], text=text)
                check(doc == udoc, f'{what}: {rel}: docstring changed', user=udoc, now=doc, text=text)
                for c in comments_of(texts[path]):
                    check(c in text, f'{what}: {rel}: comment {c!r} lost', user_text=texts[path], text=text)
                # the arguments the user file lacks are appended with their defaults
                env = vars(importlib.import_module('gm_src'))
                argset = [[a, d] for a, d, _ in sig_of(it, gained)] + ([['name', "'e1'"]] if it is case['spec'] else [])
                for a, d in argset:
                    if a in uns:
                        continue
                    want = eval(d, env) if d is not None else None
                    check(a in ns and same(ns[a], want), f'{what}: {rel}: argument {a} is not there with its default', default=want,
                          now=ns.get(a, '<missing>'), text=text)
                extra = set(ns) - set(uns) - {a for a, _ in argset} - {'s', 'Selector', 'X', 'P', 'Optional', 'Dict', 'Any', 'helper'}
                check(not extra, f'{what}: {rel}: unexpected names {sorted(extra)}', text=text)
            for s, text in section_text.items():
                check_eq(w.read(s), text, f'{what}: {s}')

        for n, op in enumerate(['reload'] + case['ops']):
            what = f'after step {n} {op}'
            before = w.snapshot('proj/defaults')
            unchanged = n > 0
            if op == 'gain' and not gained:
                gained, unchanged = True, False
                w.module('gm_src', render_source(allit, True))
                pm.reload()
            elif op == 'fresh':
                w.forget('pm')
                pm = w.manager(**kw)
            elif op == 'create':
                if not created:
                    pm.create('other', importlib.import_module('gm_new').created)
                    created = True
                    before['other/created.py'] = w.read('proj/defaults/other/created.py')
            elif op == 'use':
                for path in where:
                    with_values = pm.config.get(path)
                    for k, v in user_ns[path][0].items():
                        check(k in with_values and same(with_values[k], v), f'{what}: config value {k} of {path}', user=v, now=with_values.get(k))
            else:
                pm.reload()
            verify(what)
            if unchanged:
                after = w.snapshot('proj/defaults')
                for k in before:
                    check_eq(after.get(k), before[k], f'{what}: {k} of an unchanged project')
                check_eq(sorted(after), sorted(before), f'{what}: set of files')
        return Info(hard, 'gain' if gained else '', 'spec' if case['spec'] else '', *[it['file']['style'] for it in allit], *sorted(set(case['ops'])))


SUBS = [Sub('edits', cases(), run, quick=700, thorough=40000)]
