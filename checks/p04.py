"""P04: create() is equivalent to editing the dict file."""
import ast
import importlib
import os
import sys

from hypothesis import strategies as st

from lib import gen
from lib.model import CfgModel, render_config
from lib.proj import WRAP, CLASSES, ENTRIES, Proj, projects, render_class, render_func
from lib.vh import Info, Sub, Violation, World, check, check_eq, must_raise

PROPERTY = 'P04'
TECHNIQUE = 'property-based testing: random create() histories, oracle is the project with hand-written dict files (differential) and a tree model'
LEVEL_NOTE = ('Random starting projects (several import styles, empty and mixed sections, specific class dicts) and histories of create() into new, nested, '
              'existing and empty sections, mixed with updates, resets, reloads and left-over config files; live manager, reloaded manager, fresh manager '
              'and hand-written project are compared.')
RULE = 'a case is a starting project and a history; non-trivial when at least one create() was legal'
ASSUMPTIONS = ['dict files hold imports and the dict only (a rewritten dict file loses comments and unrelated assignments, by design)',
               'an item is created once per section; two objects of the same name cannot both be in one dict file']

NEWSECS = [['alpha'], ['beta'], ['new_one'], ['alpha', 'beta'], ['new_one', 'inner'], ['new_one', 'inner', 'third'], ['gamma', 'x'], ['x']]


@st.composite
def cases(draw):
    spec = draw(projects(funcs=(1, 4), classes=(0, 2), specs=(0, 2), allow_empty=draw(st.booleans()), mixed=draw(st.booleans()),
                         max_params=2, min_params=0, max_sections=2, hooks=False))
    leaf_names = [x[0] for x in spec['funcs']] + [x[0] for x in spec['classes']]
    used = draw(st.lists(st.sampled_from(leaf_names), unique=True, min_size=0, max_size=len(leaf_names)))
    for s in spec['specs']:
        if draw(st.integers(0, 5)) == 0:
            s['tree'] = {}

    def only(node):
        if isinstance(node, dict):
            return {k: only(v) for k, v in node.items()}
        return [only(x) if isinstance(x, dict) else x for x in node if isinstance(x, dict) or x in used]
    spec['tree'] = only(spec['tree'])
    if draw(st.integers(0, 5)) == 0:
        spec['tree'] = {}
    own = gen.sections(spec['tree'])
    sec = st.sampled_from(NEWSECS + [list(s) for s in own] * 2)
    ops = [st.tuples(st.just('create'), sec, st.integers(0, 5)),
           st.tuples(st.just('create'), sec, st.integers(0, 5)),
           st.tuples(st.just('update'), st.integers(0, 9), st.integers(2, 50)),
           st.tuples(st.just('get'), st.integers(0, 9)),
           st.tuples(st.sampled_from(['reset', 'refresh']), st.integers(0, 9)),
           st.tuples(st.just('reload')),
           st.tuples(st.just('leftover'), sec, st.integers(0, 5), st.integers(60, 90))]
    if spec['specs']:
        own_s = [list(s) for x in spec['specs'] for s in gen.sections(x['tree'])]
        sec_s = st.sampled_from(NEWSECS + own_s * 2)
        ops += [st.tuples(st.just('create_spec'), st.integers(0, 1), sec_s, st.sampled_from(ENTRIES + ['e9']))] * 2
    return dict(spec=spec, ops=draw(st.lists(st.one_of(*ops), min_size=1, max_size=7)),
                elsewhere=draw(st.lists(st.sampled_from(leaf_names), unique=True, max_size=2)),
                script=draw(st.integers(0, 3)) == 0, facade=draw(st.booleans()),
                style=draw(st.sampled_from(['joint', 'separate', 'extra', 'multiline', 'several'])),
                old_selector=draw(st.booleans()))


class Living(Proj):
    """A project whose trees change."""

    def __init__(self, w, spec, elsewhere=(), **kw):
        super().__init__(w, spec, **kw)
        self.elsewhere = set(elsewhere)

    def module_of(self, leaf):
        return 'gm_pkg.sub' if leaf in self.elsewhere else self.src

    def write_sources(self):
        keep = self.spec
        self.spec = {**keep, 'funcs': [f for f in keep['funcs'] if f[0] not in self.elsewhere],
                     'classes': [c for c in keep['classes'] if c[0] not in self.elsewhere]}
        super().write_sources()
        self.spec = keep
        text = 'import gm_log\n\n\n'
        for n, ps in keep['funcs']:
            if n in self.elsewhere:
                text += render_func(n, ps, special=self.special(n))
        for n, ps, hook in keep['classes']:
            if n in self.elsewhere:
                text += render_class(n, ps, hook, special=self.special(n))
        self.w.write('src/gm_pkg/__init__.py', '')
        self.w.module('gm_pkg.sub', WRAP + text if 'gm_wrap' in text else text)

    def object(self, leaf):
        return getattr(importlib.import_module(self.module_of(leaf)), leaf)

    def dict_text(self, style):
        names = []
        for _, leaf in gen.leaves(self.spec['tree']):
            if leaf not in names:
                names.append(leaf)
        by_mod = {}
        for n in names:
            by_mod.setdefault(self.module_of(n), []).append(n)
        imp = ''
        if style == 'separate':
            imp = ''.join(f'from {self.module_of(n)} import {n}\n' for n in names)
        elif style == 'multiline':
            imp = ''.join(f'from {m} import (\n    ' + ',\n    '.join(ns) + ',\n)\n' for m, ns in by_mod.items())
        else:
            imp = ''.join(f'from {m} import {", ".join(ns)}\n' for m, ns in by_mod.items())
        if style == 'extra':
            imp = 'import os\nfrom string import digits as digits_\n' + imp + 'from os import path, sep\n'
        if style == 'several':
            imp += 'n1_, (n2_, *n3_) = 1, [2, 3]\nn4_ = n5_ = {}\n\n\ndef helper_():\n    from os import path, sep\n    pipeline_dict = n1_ = {"wrong": []}\n    return path\n\n\n'
        return imp + '\npipeline_dict = ' + gen.render_pipeline_dict(self.spec['tree']) + '\n'

    def write_dicts(self, style='joint'):
        self.w.write(f'{self.folder}/pipeline_dict.py', self.dict_text(style))
        for s in self.spec['specs']:
            self.w.write(f'{self.folder}/{s["name"]}_dict.py', 'class_dict = ' + gen.render_class_dict(s['tree']) + '\n')

    @staticmethod
    def can_create(tree, sec, leaf):
        """Only what is documented to work: the last section must hold no sub-sections only."""
        node = tree
        for s in sec:
            if isinstance(node, list):
                return False
            if s not in node:
                return True
            node = node[s]
        if isinstance(node, dict):
            return node == {}
        return leaf not in [k for k, _ in gen.children(node)]

    @staticmethod
    def do_create(tree, sec, leaf):
        node = tree
        for s in sec[:-1]:
            node = node.setdefault(s, {})
        if node.get(sec[-1]) in (None, {}):
            node[sec[-1]] = []
        node[sec[-1]].append(leaf)

    def refresh_items(self):
        new = Proj(self.w, self.spec, self.folder, self.name, self.src)
        self.items = new.items


def exec_dict(p, w, rel, var, what):
    ns = {}
    try:
        exec(compile(w.read(rel), rel, 'exec'), ns)
    except Exception as e:
        raise Violation(f'{what}: {rel} does not execute: {type(e).__name__}: {e}\n{w.read(rel)}')
    return ns, ns[var]


def imports_of(text):
    out = []
    for node in ast.parse(text).body:
        if isinstance(node, ast.Import):
            out += [('import', a.name, a.asname) for a in node.names]
        elif isinstance(node, ast.ImportFrom):
            out += [(node.module, a.name, a.asname) for a in node.names]
    return out


def objects(p, node):
    if isinstance(node, dict):
        return {k: objects(p, v) for k, v in node.items()}
    if isinstance(node, list):
        return [objects(p, x) for x in node]
    return p.object(node)


def expected_run(p, vals, section):
    out = []
    for m, is_sec in p.members(section):
        out.append(expected_run(p, vals, m) if is_sec else p.result(m, vals(m)))
    return out


def strict_keys(x):
    """dict order matters in a dict file."""
    if isinstance(x, dict):
        return [[k, strict_keys(v)] for k, v in x.items()]
    if isinstance(x, list):
        return [strict_keys(v) for v in x]
    return x


def run(case):
    import __main__
    main_before = set(vars(__main__))
    try:
        return run_(case, __main__)
    finally:
        for k in set(vars(__main__)) - main_before:
            delattr(__main__, k)


def run_(case, main):
    with World() as w:
        p = Living(w, case['spec'], case['elsewhere'])
        p.write_sources()
        leaf_names = [x[0] for x in p.spec['funcs']] + [x[0] for x in p.spec['classes']]
        if case['facade']:
            w.module('gm_facade', ''.join(f'from {p.module_of(n)} import {n}, {n} as renamed_{n}\n' for n in leaf_names))
            importlib.import_module('gm_facade')
        if case['script']:
            # what a script that imports the objects looks like to the library
            for n in leaf_names:
                setattr(main, n, p.object(n))
            if p.spec['specs']:
                mod = importlib.import_module(p.src + '_spec')
                for s in p.spec['specs']:
                    setattr(main, s['cls'], getattr(mod, s['cls']))
        p.write_dicts(case['style'])
        pm = p.manager()
        old_sel = w.p.Selector() if case['old_selector'] else None
        model = CfgModel({k: it.defaults for k, it in p.items.items()})
        leftovers = {}
        n_created = 0
        start_imports = imports_of(w.read('proj/pipeline_dict.py'))
        held = {}

        def verify(pm, what, live=False):
            vals = lambda path: model.cfg[path]
            for path, it in p.items.items():
                check_eq(p.config(pm, path), {a: vals(path)[a] for a in it.args}, f'{what}: config of {path}')
                check_eq(pm.run(path), p.result(path, vals(path)), f'{what}: result of {path}')
                check_eq(p.observe(pm, path), {a: vals(path)[a] for a in it.args}, f'{what}: object of {path}')
                obj = pm.get(path)
                if it.kind == 'func':
                    check(obj.func is p.object(it.tag), f'{what}: {path} is not the function', got=obj)
                elif it.kind == 'class':
                    check(type(obj) is p.object(it.tag), f'{what}: {path} is not of the class', got=obj)
                else:
                    check(type(obj).__name__ == it.tag, f'{what}: {path} is not of the class', got=obj)
            for sec in p.section_paths() + p.spec_section_paths():
                check_eq(pm.run(sec), expected_run(p, vals, sec), f'{what}: result of section {sec}')
            sel = w.p.Selector()
            for path in list(p.items) + p.section_paths() + p.spec_section_paths():
                check(f'pm.{path}' in sel, f'{what}: pm.{path} is not in a selector')
            if live:
                for path, obj in held.items():
                    check(pm.get(path) is obj, f'{what}: get({path!r}) is another object than before')
            for sec in p.section_paths():
                cfg = pm.config.get(sec)
                check(cfg is not None, f'{what}: section {sec} has no config')
                check_eq({k: v for k, v in cfg.items()}, {}, f'{what}: config of section {sec}')

        def dict_files(what):
            ns, d = exec_dict(p, w, 'proj/pipeline_dict.py', 'pipeline_dict', what)
            check(strict_keys(d) == strict_keys(objects(p, p.spec['tree'])), f'{what}: pipeline_dict', actual=d, expected=p.spec['tree'])
            now = imports_of(w.read('proj/pipeline_dict.py'))
            it = iter(now)
            check(all(i in it for i in start_imports), f'{what}: imports of the dict file are not kept in order', before=start_imports, after=now)
            for s in p.spec['specs']:
                ns, d = exec_dict(p, w, f'proj/{s["name"]}_dict.py', 'class_dict', what)
                check_eq(strict_keys(d), strict_keys(s['tree']), f'{what}: {s["name"]}_dict.py')

        verify_start = [op for op in case['ops'] if op[0] != 'create']
        if len(verify_start) % 2:
            verify(pm, 'at the start')
        for i, op in enumerate(case['ops']):
            what = f'step {i} {op}'
            paths = sorted(p.items)
            if op[0] == 'create':
                sec, leaf = op[1], leaf_names[op[2] % len(leaf_names)]
                if sec[0] in [s['name'] for s in p.spec['specs']] or not p.can_create(p.spec['tree'], sec, leaf):
                    continue
                pm.create('.'.join(sec), p.object(leaf))
                p.do_create(p.spec['tree'], sec, leaf)
                new = '.'.join(sec + [leaf])
            elif op[0] == 'create_spec':
                s = p.spec['specs'][op[1] % len(p.spec['specs'])]
                sec, leaf = op[2], op[3]
                if not p.can_create(s['tree'], sec, leaf):
                    continue
                new = '.'.join([s['name']] + sec + [leaf])
                pm.create(new)
                p.do_create(s['tree'], sec, leaf)
            elif op[0] == 'leftover':
                # a config file from before, for an item that is not (yet) registered
                sec, leaf = op[1], leaf_names[op[2] % len(leaf_names)]
                path = '.'.join(sec + [leaf])
                if path in p.items or not p.can_create(p.spec['tree'], sec, leaf):
                    continue
                it = p._main_item(path, leaf)
                vals = {a: op[3] for a in it.args}
                w.write(p.config_file(path), render_config(vals))
                for n in range(len(sec)):
                    # its sections were there as well
                    if not os.path.exists(w.path('proj/defaults', *sec[:n + 1], 'section.py')):
                        w.write('/'.join(['proj/defaults', *sec[:n + 1], 'section.py']), '\n')
                leftovers[path] = vals
                continue
            elif op[0] == 'reload':
                pm.reload()
                model.reload()
                held.clear()
                old_sel = None     # a selector stands for the loaded state it was made from
                verify(pm, what)
                continue
            elif not paths:
                continue
            else:
                path = paths[op[1] % len(paths)]
                it = p.items[path]
                if op[0] == 'get':
                    held[path] = pm.get(path)
                elif op[0] == 'update':
                    args = [a for a in it.args if a != it.key]
                    if args:
                        pm.update({args[0]: op[2]}, section_path_str=path)
                        model.update(path, {args[0]: op[2]})
                elif op[0] == 'reset':
                    pm.reset(path)
                    model.reset(path)
                else:
                    pm.refresh(path)
                    model.refresh(path)
                continue
            # an item was created
            n_created += 1
            p.refresh_items()
            it = p.items[new]
            vals = {**it.defaults, **leftovers.get(new, {})}
            model.files[new] = dict(vals)
            model.cfg[new] = dict(vals)
            model.applied[new] = {}
            check_eq(p.config(pm, new), {a: vals[a] for a in it.args}, f'{what}: config of the created item')
            check_eq(pm.run(new), p.result(new, vals), f'{what}: result of the created item')
            dict_files(what)
            if old_sel is not None:
                view = old_sel.pm
                for part in new.split('.'):
                    view = getattr(view, part)
                check(w.p.is_item_view(view), f'{what}: an earlier selector gives no view of the created item', got=view)
                check_eq(pm.run(view), p.result(new, vals), f'{what}: result through a view')
        verify(pm, 'live', live=True)
        live = w.snapshot('proj')
        pm.reload()
        model.reload()
        verify(pm, 'after reload')
        check_eq(w.snapshot('proj'), live, 'project files after reload')
        w.forget('pm')
        fresh = p.manager()
        verify(fresh, 'fresh manager')
        check_eq(w.snapshot('proj'), live, 'project files after loading a fresh manager')
        w.forget('pm')
        hand = Living(w, p.spec, case['elsewhere'], folder='hand')
        hand.write_dicts('joint')
        for path, vals in leftovers.items():
            if path in p.items:
                w.write(hand.config_file(path), render_config(vals))
        pm2 = hand.manager()
        verify(pm2, 'hand-written project')
        a = {k: v for k, v in live.items() if k.startswith('defaults/')}
        b = {k: v for k, v in w.snapshot('hand').items() if k.startswith('defaults/')}
        left = ['defaults/' + x.replace('.', '/') + '.py' for x in leftovers if x not in p.items]
        if left:
            a = {k: v for k, v in a.items() if k in b}
        check_eq(a, b, 'defaults folder of the created and of the hand-written project')
        return Info(n_created > 0, 'several' if n_created > 2 else '', 'leftover' if any(x in p.items for x in leftovers) else '',
                    'script' if case['script'] else '', 'mixed' if gen.is_mixed(p.spec['tree']) else '')


SUBS = [Sub('create', cases(), run, quick=400, thorough=20000)]
