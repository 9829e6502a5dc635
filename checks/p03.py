"""P03: the project tree mirrors the dict files."""
import importlib
import os
import shutil

from hypothesis import strategies as st

from lib import gen
from lib.proj import Proj, projects
from lib.vh import Info, Sub, Violation, World, check, check_eq, must_raise

PROPERTY = 'P03'
TECHNIQUE = 'property-based testing: generated nested pipeline and class dicts, oracle is the dict itself as a tree of paths'
LEVEL_NOTE = ('Random nested pipeline dicts and specific class dicts (empty dicts and sections, one object in several sections, equal names on several levels, '
              'dict files written by hand with comments and other statements), loaded, reloaded and loaded by a second manager.')
RULE = 'a case is a project; non-trivial when it nests, has an empty section or dict, registers one object twice or has a specific class dict'
ASSUMPTIONS = ['section and item names do not collide with attributes of the library collections and managers']

UNKNOWN = ['nope', 'alpha.nope', 'alpha.alpha.alpha.nope', 'f1', 'Klass', 'beta.f9', 'x.x', 'section', 'alpha.section', 'things.nope', 'things.e9', 'stuff.alpha.nope',
           'defaults', 'pm', 'pm.alpha', 'alph', 'alpha2', 'Alpha']


@st.composite
def cases(draw):
    empty = draw(st.booleans())
    spec = draw(projects(odd_spec_names=True, funcs=(0, 3), classes=(0, 2), specs=(0, 2), allow_empty=empty, mixed=draw(st.booleans()), max_depth=4, max_params=2, min_params=0))
    if empty and draw(st.integers(0, 4)) == 0:
        spec['tree'] = {}
    for s in spec['specs']:
        if empty and draw(st.integers(0, 3)) == 0:
            s['tree'] = {}
    return dict(project=spec, style=draw(st.sampled_from(['plain', 'plain', 'commented', 'oneline', 'separate', 'renamed_mod', 'several'])),
                spec_style=draw(st.sampled_from(['plain', 'plain', 'commented', 'multiline', 'several'])),
                folder=draw(st.sampled_from(['defaults', 'defaults', 'cfg', 'my_configs'])),
                again=draw(st.lists(st.sampled_from(['reload', 'load', 'fresh']), max_size=3)),
                unknown=draw(st.lists(st.sampled_from(UNKNOWN), max_size=4, unique=True)),
                cut=draw(st.integers(0, 99)))


SEVERAL = '''n1_, (n2_, *n3_) = 1, [2, 3]
n4_ = n5_ = {}
n4_['k'], n6_ = 5, 6


def helper_():
    from os import path as f1, sep as K1
    %s = n1_ = {'wrong': []}
    return f1


'''


def restyle(p, case):
    """The same dict, written differently by the user."""
    w = p.w
    text = p.pipeline_dict_text()
    st_ = case['style']
    names = [x[0] for x in p.spec['funcs']] + [x[0] for x in p.spec['classes']]
    tree = gen.render_pipeline_dict(p.spec['tree'])
    if st_ == 'commented':
        text = '"""My project"""\n# imports\n' + text.replace('pipeline_dict = ', 'OTHER = 1  # pipeline_dict = 3\n\n# the dict\npipeline_dict = ') + "\n\nafter = {'a': [1]}\n"
    elif st_ == 'oneline':
        text = text.replace(tree, ' '.join(tree.split()))
    elif st_ == 'separate':
        text = ''.join(f'from {p.src} import {n}\n' for n in names) + 'import os\n\npipeline_dict: dict = ' + tree + '\n'
    elif st_ == 'renamed_mod' and names:
        text = f'import string\nfrom {p.src} import (\n    ' + ',\n    '.join(names) + ',\n)\nfrom os import path as p_\n\npipeline_dict = ' + tree
    elif st_ == 'several':
        # assignments to several names, and names of functions and classes which are not names of the file
        text = SEVERAL % 'pipeline_dict' + text + 'n3_ = n4_ = [1]\n'
    w.write('proj/pipeline_dict.py', text)
    for s in p.spec['specs']:
        t = gen.render_class_dict(s['tree'])
        if case['spec_style'] == 'commented':
            text = f'"""Entries"""\nimport os\nunused = os.sep\n# entries\nclass_dict = {t}  # done\n'
        elif case['spec_style'] == 'several':
            text = SEVERAL % 'class_dict' + f'class_dict = {t}\n'
        elif case['spec_style'] == 'multiline':
            text = 'class_dict = ' + t.replace('[', '[\n    ').replace(', ', ',\n    ').replace(']', '\n]') + '\n\n'
        else:
            text = f'class_dict = {t}\n'
        w.write(f'proj/{s["name"]}_dict.py', text)


def expected_files(p, folder):
    out = {f'{folder}/section.py'}
    for s in p.section_paths():
        out.add(f'{folder}/' + s.replace('.', '/') + '/section.py')
    for path in p.items:
        out.add(f'{folder}/' + path.replace('.', '/') + '.py')
    return out


def registered(p, path):
    it = p.items[path]
    if it.kind == 'spec':
        return getattr(importlib.import_module(p.src + '_spec'), it.tag)
    return getattr(importlib.import_module(p.src), it.tag)


def run(case):
    with World() as w:
        p = Proj(w, case['project'])
        p.write_sources()
        restyle(p, case)
        folder = case['folder']
        before = w.snapshot('proj')
        pm = p.manager(default_config_folder_name=folder)

        def verify(what):
            files = {f for f in w.snapshot('proj') if f.startswith(folder + '/')}
            check_eq(sorted(f for f in files if not f.endswith('/')), sorted(expected_files(p, folder)), f'{what}: files of {folder}/')
            for f, text in before.items():
                if not f.endswith('/'):
                    check_eq(w.read('proj/' + f), text, f'{what}: {f} after load')
            for path, it in p.items.items():
                obj = pm.get(path)
                if it.kind == 'func':
                    check(getattr(obj, 'func', None) is registered(p, path) or getattr(obj, '__wrapped__', None) is registered(p, path),
                          f'{what}: get({path!r}) is not the registered function', got=obj)
                    if it.kind == 'func':
                        check_eq(dict(obj.keywords), it.defaults, f'{what}: values of {path}')
                else:
                    check(type(obj) is registered(p, path), f'{what}: get({path!r}) is not of the registered class', got=obj)
                    check_eq({a: getattr(obj, a) for a in it.args}, it.defaults, f'{what}: values of {path}')
                check_eq(pm.run(path), p.result(path, it.defaults), f'{what}: result of {path}')
                view = pm
                for part in path.split('.'):
                    view = getattr(view, part)
                check(w.p.is_item_view(view) or view is obj or type(view) is type(obj), f'{what}: attribute access to {path}', got=view)
                check(path in [x for x in p.items], path)
            for s in p.section_paths() + p.spec_section_paths():
                if p.has_mixed(s):
                    continue     # get() of a section of both items and sections is documented to raise
                got = pm.get(s)
                check(len(got) == len(p.members(s)), f'{what}: get({s!r}) has {len(got)} members', expected=p.members(s))
            sel = w.p.Selector()
            for path in list(p.items) + p.section_paths() + p.spec_section_paths():
                check(f'pm.{path}' in sel, f'{what}: pm.{path} is not in the selector')
            known = set(p.items) | set(p.section_paths()) | set(p.spec_section_paths())
            # paths that look similar but are not in the dicts
            bad = list(case['unknown'])
            some = sorted(known)
            if some:
                a = some[case['cut'] % len(some)]
                b = some[(case['cut'] * 7 + 3) % len(some)]
                bad += [a[:-1], a + 'x', '.'.join(reversed(a.split('.'))), b + '.' + a.split('.')[-1], a.split('.', 1)[-1]]
            for path in bad:
                parent_items = ['.'.join(path.split('.')[:i]) for i in range(1, len(path.split('.')))]
                if not path or path in known or any(x in p.items for x in parent_items) or '..' in path or path.endswith('.'):
                    continue
                must_raise(None, pm.get, path, what=f'{what}: get of unknown path {path!r}')
                must_raise(None, pm.run, path, what=f'{what}: run of unknown path {path!r}')
                check(f'pm.{path}' not in sel, f'{what}: pm.{path} is in the selector')

        verify('after load')
        snap = w.snapshot('proj')
        for how in case['again']:
            if how == 'fresh':
                w.forget('pm')
                pm = p.manager(default_config_folder_name=folder)
            else:
                getattr(pm, how)()
            verify(f'after {how}')
            check_eq(w.snapshot('proj'), snap, f'project files after {how}')
        tree = p.spec['tree']
        names = [leaf for _, leaf in gen.leaves(tree)]
        nested = any(isinstance(v, dict) for v in tree.values())
        empty = not tree or any(gen.subtree(tree, s) in ([], {}) for s in gen.sections(tree)) or any(not s['tree'] for s in p.spec['specs'])
        return Info(nested or empty or len(set(names)) < len(names) or p.spec['specs'], 'nested' if nested else '', 'empty' if empty else '',
                    'mixed' if gen.is_mixed(tree) else '', 'twice' if len(set(names)) < len(names) else '', 'specs' if p.spec['specs'] else '')


PARTS = ['pipeline_dict.py', 'one_dict.py', 'two_dict.py', 'defaults', 'logs']
STARTS = [dict(have=[x for i, x in enumerate(PARTS) if bits & 1 << i], log=log, folder=folder, specs=specs, extra=extra)
          for specs in (0, 2) for bits in range(32) if specs or not bits & 6 for log in (True, False) if log or not bits & 16
          for folder, extra in [('defaults', False), ('cfg', True)]]


def run_start(case):
    """The constructor makes what is missing of a project, as an empty one, and keeps what is there."""
    with World() as w:
        w.module('gm_src', 'def f(a=1):\n    return ["f", a]\n\n\nclass A:\n\n    def __init__(self, name=None, b=2):\n        self.name = name\n        self.b = b\n\n    def __call__(self):\n        return self.b\n')
        A = importlib.import_module('gm_src').A
        have, folder = case['have'], case['folder']
        texts = {'pipeline_dict.py': 'from gm_src import f\n\n# mine\npipeline_dict = {"sec": [f]}\n', 'one_dict.py': '# mine\nclass_dict = {"s": ["x"]}\n', 'two_dict.py': 'class_dict = {"s": ["x", "y"]}  # mine\n'}
        for x in have:
            if x in texts:
                w.write('proj/' + x, texts[x])
            elif x == 'defaults':
                os.makedirs(w.path('proj', folder))
                if case['extra']:
                    w.write(f'proj/{folder}/mine.txt', 'mine')
            else:
                os.makedirs(w.path('logs'))
        if case['extra'] and have:
            w.write('proj/mine.py', 'MINE = 1\n')
        if case['log']:
            # only the manager makes the folder: the handler of the option opens its file when the option is set
            w.p.options.log_folder.value = w.path('logs')
            if 'logs' not in have:
                shutil.rmtree(w.path('logs'))
        before = w.snapshot('proj') if os.path.isdir(w.path('proj')) else {}
        names = ['one', 'two'][:case['specs']]
        specs = [{'name': n, 'class': A} for n in names] or None
        pm = w.manager('proj', 'pm', load=False, default_config_folder_name=folder, specific_class_config_dicts=specs)
        after = w.snapshot('proj')
        want = {'pipeline_dict.py', *([] if f'{folder}/mine.txt' in before else [folder + '/']), *(f'{n}_dict.py' for n in names), *before}
        check_eq(sorted(after), sorted(want), 'files of the project after the constructor')
        for x, text in before.items():
            check_eq(after[x], text, f'{x}, which existed before the constructor')
        check(os.path.isdir(w.path('logs')) == bool(case['log'] or 'logs' in have), 'log folder after the constructor')
        for x in ['pipeline_dict.py', *(f'{n}_dict.py' for n in names)]:
            if x not in have:
                ns = {}
                exec(w.read('proj/' + x), ns)
                check_eq(ns['pipeline_dict' if x[0] == 'p' else 'class_dict'], {}, f'the dict in the new {x}')
        pm.load()
        items = (['sec.f'] if 'pipeline_dict.py' in have else []) + (['one.s.x'] if 'one_dict.py' in have else []) + (['two.s.x', 'two.s.y'] if 'two_dict.py' in have else [])
        files = {f'{folder}/{q.replace(".", "/")}.py' for q in items} | {f'{folder}/section.py'} | ({f'{folder}/sec/section.py'} if 'sec.f' in items else set())
        now = {x for x in w.snapshot('proj') if not x.endswith('/')}
        check_eq(sorted(now), sorted({x for x in want if not x.endswith('/')} | files), 'files of the project after load')
        for q in items:
            check_eq(pm.run(q), ['f', 1] if q == 'sec.f' else 2, f'result of {q}')
        return Info(0 < len(have) < 5, f'{len(have)} of 5 there')


SUBS = [Sub('tree', cases(), run, quick=700, thorough=30000), Sub('start', None, run_start, exhaustive=STARTS)]
