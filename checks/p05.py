"""P05: a rejected call changes nothing."""
import importlib
import os
import sys

from hypothesis import strategies as st

from lib import gen
from lib.model import CfgModel
from lib.proj import Proj, projects
from lib.vh import Discard, Info, Sub, Violation, World, check, check_eq, must_raise

PROPERTY = 'P05'
TECHNIQUE = 'property-based testing: random valid histories with random invalid calls in between, oracle is the model of the valid history alone'
LEVEL_NOTE = ('Random projects and histories; before and after every invalid call the files, the dependency maps, the stack and the registered managers are '
              'compared, at the end every config, object and result with a model that never saw the invalid calls.')
RULE = 'a case is a history with invalid calls; non-trivial when at least two different kinds of invalid call were made between valid operations'
ASSUMPTIONS = ['run_product and batch calls are sequences of updates and runs, of which the earlier ones stay (see P13, P14)']

BAD = ['nope', 'nope.f1', '{sec}.nope', '{sec}.nope.nope', '{item}x', '{item}.nope', '{item}.{arg}', 'pm.{item}', '{sec}.{item}', '{Item}', 'things.nope', 'things.alpha.nope',
       '_general', 'defaults.{item}', '{item}.{item}', 'general.{item}', '{spec}.{item}', '{spec}.nope']
ATTRS = ['nope', '{sec}.nope', '{sec}.{leaf}x', '{sec}.{sec}.nope', 'nope.nope', '{item}.nope']
CREATES = ['no_func', 'func_for_spec', 'short_spec', 'shorter_spec', 'over_sections', 'below_items', 'spec_over_sections', 'spec_below_items', 'clash', 'local', 'alias', 'script', 'replaced', 'method']
MANAGERS = ['options', 'duplicate_specs', 'taken_spec', 'taken_reload', 'options_same_name']


@st.composite
def cases(draw):
    spec = draw(projects(funcs=(1, 3), classes=(0, 2), specs=(0, 2), mixed=draw(st.booleans()), max_params=2, min_params=1, hooks=draw(st.booleans())))
    n = st.integers(0, 50)
    val = st.integers(2, 60)
    bad = st.one_of(
        st.tuples(st.just('bad'), st.sampled_from(['run', 'get', 'update', 'update_view', 'reset', 'refresh', 'runlist', 'config', 'product', 'batch']), st.sampled_from(BAD), n, n),
        st.tuples(st.just('attr'), st.sampled_from(ATTRS), st.sampled_from(['manager', 'selector', 'hasattr', 'runner', 'view']), n),
        st.tuples(st.just('create'), st.sampled_from(CREATES), n),
        st.tuples(st.just('manager'), st.sampled_from(MANAGERS)),
        st.tuples(st.just('type'), st.sampled_from(['run', 'get', 'reset', 'runlist']), st.sampled_from([5, None, 2.5])),
    )
    good = st.one_of(
        st.tuples(st.just('update'), n, val, st.booleans()),
        st.tuples(st.sampled_from(['get', 'run', 'reset', 'refresh', 'observe', 'lookup']), n),
        st.tuples(st.just('reload')))
    return dict(spec=spec, ops=draw(st.lists(st.one_of(bad, bad, good), min_size=2, max_size=10)))


def run(case):
    import __main__
    before = set(vars(__main__))
    try:
        return run_(case, __main__)
    finally:
        for k in set(vars(__main__)) - before:
            delattr(__main__, k)


def run_(case, main):
    with World() as w:
        p = Proj(w, case['spec']).write()
        w.module('gm_other', ''.join(f'def {x[0]}(a=1):\n    return a\n\n' for x in p.spec['funcs'])
                 + 'def _make():\n    def inner(a=1):\n        return a\n    return inner\n\nalias = _make()\n\n\n'
                 + 'def renewed(a=1):\n    return a\n\nthe_old_one = renewed\nrenewed = alias\n\n\n'
                 + 'class Holder:\n    def renewed(self=None, a=1):\n        return a\n')
        other = importlib.import_module('gm_other')
        pm = p.manager()
        ctx = w.p.context
        model = CfgModel({k: it.defaults for k, it in p.items.items()})
        paths = sorted(p.items)
        secs = p.section_paths() + p.spec_section_paths()
        if not paths:
            raise Discard('no items')
        held, kinds, n_good = {}, set(), 0

        def global_state():
            return dict(config={k: sorted(x.path_str for x in v) for k, v in ctx.config_dependencies.items() if v},
                        force={k: sorted(x.path_str for x in v) for k, v in ctx.force_update_dependencies.items() if v},
                        stack=len(ctx.stack.frames), managers={k: id(v) for k, v in ctx.active_managers.items()})

        def observe(path, what):
            it = p.items[path]
            want = {a: model.cfg[path][a] for a in it.args}
            check_eq(p.config(pm, path), want, f'{what}: config of {path}')
            obj = pm.get(path)
            if path in held:
                check(obj is held[path], f'{what}: get({path!r}) is another object than before')
            held[path] = obj
            check_eq(p.observe(pm, path), want, f'{what}: object of {path}')
            check_eq(pm.run(path), p.result(path, want), f'{what}: result of {path}')

        def fill(pattern, n):
            item = paths[n % len(paths)]
            sec = secs[n % len(secs)]
            text = pattern.format(sec=sec, item=item, Item=item.swapcase(), leaf=item.split('.')[-1], arg=p.items[item].args[0] if p.items[item].args else 'a',
                                  spec=p.spec['specs'][0]['name'] if p.spec['specs'] else 'things')
            return text

        def unknown(path):
            """Not an item or section (and not the attribute of an item)."""
            return path not in p.items and path not in secs

        def guarded(what, fn, kind):
            files, glob, log = w.snapshot(), global_state(), len(p.log.LOG)
            names = set(os.listdir(w.dir))
            must_raise(None, fn, what=what)
            check_eq(w.snapshot(), files, f'{what}: project files')
            check_eq(global_state(), glob, f'{what}: dependencies, stack and managers')
            check_eq(set(os.listdir(w.dir)), names, f'{what}: folders')
            kinds.add(kind)

        for i, op in enumerate(case['ops']):
            what = f'step {i} {op}'
            if op[0] == 'bad':
                path = fill(op[2], op[3])
                good = paths[op[4] % len(paths)]
                if not unknown(path):
                    continue
                below = any('.'.join(path.split('.')[:k]) in p.items for k in range(1, len(path.split('.'))))
                if op[1] == 'product':
                    # rejected before any case is run
                    fn = lambda: pm.run_product(good, [dict(section_path_str=path, a=5)])
                elif op[1] == 'batch':
                    fn = lambda: pm.update_batch([dict(section_path_str=path, a=5)])
                elif op[1] in ('run', 'get', 'reset', 'refresh'):
                    fn = lambda: getattr(pm, op[1])(path)
                elif op[1] == 'runlist':
                    fn = lambda: pm.run([good, path])
                elif op[1] == 'config':
                    fn = lambda: pm.config.get(path)
                elif op[1] == 'update':
                    fn = lambda: pm.update({'a': 77, 'b': 78}, section_path_str=path)
                else:
                    view = w.p.ItemView.from_section_path_str('pm.' + good)
                    fn = lambda: pm.update({'a': view}, section_path_str=path)
                guarded(what + f' path {path!r}', fn, op[1] + ('_below' if below else ''))
            elif op[0] == 'attr':
                path = fill(op[1], op[3])
                if not unknown(path):
                    continue
                start = pm if op[2] in ('manager', 'hasattr') else pm.runner if op[2] == 'runner' else w.p.Selector().pm
                last = path.split('.')[-1]
                if op[2] == 'view' and not (path.rsplit('.', 1)[0] in p.items):
                    continue

                def fn():
                    x = start
                    for part in path.split('.')[:-1]:
                        x = getattr(x, part)
                    if op[2] == 'hasattr':
                        try:
                            has = hasattr(x, last)
                        except Exception:
                            raise
                        if not has:
                            raise AttributeError(last)
                        return
                    y = getattr(x, last)
                    if w.p.is_item_view(y):
                        return y.item
                    return y
                guarded(what + f' path {path!r}', fn, 'attr_' + op[2])
            elif op[0] == 'create':
                fns = [x[0] for x in p.spec['funcs']]
                mod = importlib.import_module(p.src)
                f = getattr(mod, fns[op[2] % len(fns)])
                spec_names = [s['name'] for s in p.spec['specs']]
                tree = p.spec['tree']
                dict_secs = ['.'.join(s) for s in gen.sections(tree) if isinstance(gen.subtree(tree, s), dict) and gen.subtree(tree, s)]
                list_secs = ['.'.join(s) for s in gen.sections(tree) if isinstance(gen.subtree(tree, s), list)]
                s_dict = [f'{s["name"]}.' + '.'.join(x) for s in p.spec['specs'] for x in gen.sections(s['tree']) if isinstance(gen.subtree(s['tree'], x), dict) and gen.subtree(s['tree'], x)]
                s_list = [f'{s["name"]}.' + '.'.join(x) for s in p.spec['specs'] for x in gen.sections(s['tree']) if isinstance(gen.subtree(s['tree'], x), list)]
                pick = lambda xs: xs[op[2] % len(xs)]
                k = op[1]
                if k == 'no_func':
                    fn = lambda: pm.create(pick(['newsec', 'newsec.sub', paths[0].rsplit('.', 1)[0]]) if paths[0].split('.')[0] not in spec_names else 'newsec')
                elif k == 'func_for_spec' and spec_names:
                    fn = lambda: pm.create(spec_names[0] + '.newsec.e', f)
                elif k == 'short_spec' and spec_names:
                    fn = lambda: pm.create(spec_names[0] + '.' + pick(['e', 'alpha']))
                elif k == 'shorter_spec' and spec_names:
                    fn = lambda: pm.create(spec_names[0])
                elif k == 'over_sections' and dict_secs:
                    fn = lambda: pm.create(pick(dict_secs), f)
                elif k == 'below_items' and list_secs:
                    fn = lambda: pm.create(pick(list_secs) + '.newsub', f)
                elif k == 'spec_over_sections' and s_dict:
                    fn = lambda: pm.create(pick(s_dict) + '.enew')
                elif k == 'spec_below_items' and s_list:
                    fn = lambda: pm.create(pick(s_list) + '.newsub.enew')
                elif k == 'clash':
                    # dict files of these projects import every function
                    fn = lambda: pm.create('newsec', getattr(other, f.__name__))
                elif k == 'local':
                    def inner(a=1):
                        return a
                    fn = lambda: pm.create('newsec', inner)
                elif k == 'alias':
                    fn = lambda: pm.create('newsec', other.alias)
                elif k == 'replaced':
                    # what its name means in its module is another function
                    fn = lambda: pm.create('newsec', other.the_old_one)
                elif k == 'method':
                    fn = lambda: pm.create('newsec', other.Holder.renewed)
                elif k == 'script':
                    # defined in the running script, there is nothing to import it from
                    def scripted(a=1):
                        return a
                    scripted.__module__ = '__main__'
                    main.scripted = scripted
                    fn = lambda: pm.create('newsec', scripted)
                else:
                    continue
                guarded(what, fn, 'create_' + k)
            elif op[0] == 'manager':
                PM = w.p.PipelineManager
                mod = importlib.import_module(p.src)
                k = op[1]
                klass = type('Thing', (), {})
                if k == 'options':
                    guarded(what, lambda: PM(w.path('other'), name='other', auto_pdb=True, force_continue=True), k)
                elif k == 'options_same_name':
                    guarded(what, lambda: PM(w.path('proj'), name='pm', auto_pdb=True, force_continue=True), k)
                elif k in ('duplicate_specs', 'taken_spec'):
                    w.module('gm_things', 'class Thing:\n    def __init__(self, name=None):\n        self.name = name\n    def __call__(self):\n        return self.name\n')
                    klass = importlib.import_module('gm_things').Thing
                    names = ['dup', 'dup'] if k == 'duplicate_specs' else ['one', 'taken']
                    fns = [x[0] for x in p.spec['funcs']]
                    w.write('other/pipeline_dict.py', f'from {p.src} import {fns[0]}\npipeline_dict = {{"taken": [{fns[0]}]}}\n')
                    for n in names:
                        w.write(f'other/{n}_dict.py', 'class_dict = {"s": ["e1"]}\n')
                    bad_pm = w.manager('other', 'other', load=False, specific_class_config_dicts=[{'name': n, 'class': klass, 'key_attr': 'name'} for n in names])
                    before = w.snapshot('other')
                    guarded(what, bad_pm.load, k)
                    check_eq(w.snapshot('other'), before, f'{what}: files of the rejected project')
                    w.managers.remove(bad_pm)
                    del bad_pm
                    w.forget('other')
                    import shutil
                    shutil.rmtree(w.path('other'))
                elif k == 'taken_reload':
                    if not p.spec['specs']:
                        continue
                    text = w.read('proj/pipeline_dict.py')
                    w.write('proj/pipeline_dict.py', text.replace('pipeline_dict = {', 'pipeline_dict = {' + repr(p.spec['specs'][0]['name']) + ': [' + p.spec['funcs'][0][0] + '],', 1))
                    guarded(what, pm.reload, k)
                    w.write('proj/pipeline_dict.py', text)
            elif op[0] == 'type':
                arg = op[2]
                fn = {'run': lambda: pm.run(arg), 'get': lambda: pm.get(arg), 'reset': lambda: pm.reset(arg),
                      'runlist': lambda: pm.run([paths[0], arg])}[op[1]]
                guarded(what, fn, 'type')
            elif op[0] == 'reload':
                pm.reload()
                model.reload()
                held.clear()
                n_good += 1
            else:
                n_good += 1
                path = paths[op[1] % len(paths)]
                it = p.items[path]
                if op[0] == 'update':
                    args = [a for a in it.args if a != it.key]
                    if args:
                        pm.update({args[0]: op[2]}, section_path_str=path, pyfileconf_persist=op[3])
                        model.update(path, {args[0]: op[2]}, op[3])
                elif op[0] == 'get':
                    obj = pm.get(path)
                    if path in held:
                        check(obj is held[path], f'{what}: another object than before')
                    held[path] = obj
                elif op[0] == 'run':
                    check_eq(pm.run(path), p.result(path, model.cfg[path]), f'{what}: result')
                elif op[0] == 'reset':
                    pm.reset(path)
                    model.reset(path)
                elif op[0] == 'refresh':
                    pm.refresh(path)
                    model.refresh(path)
                elif op[0] == 'observe':
                    observe(path, what)
                elif op[0] == 'lookup':
                    x = pm
                    for part in path.split('.'):
                        x = getattr(x, part)
                    if path in held:
                        check(x is held[path], f'{what}: attribute access gives another object')
                    held[path] = x
                    if it.kind == 'func':
                        check_eq(dict(x.keywords), {a: model.cfg[path][a] for a in it.args}, f'{what}: values by attribute access')
        for path in paths:
            observe(path, 'at the end')
        for path in paths:
            x = pm
            for part in path.split('.'):
                x = getattr(x, part)
            check(x is held[path], f'at the end: attribute access to {path} gives another object')
        pm.reload()
        model.reload()
        held.clear()
        for path in paths:
            observe(path, 'after reload')
        return Info(len(kinds) > 1 and n_good > 0, *sorted(kinds))


SUBS = [Sub('rejected', cases(), run, quick=700, thorough=30000)]
