"""P27: completion lists exactly what can be reached."""
import copy

from hypothesis import strategies as st

from checks.p04 import ENTRIES, NEWSECS, Living
from lib import gen, model, proj
from lib.proj import projects
from lib.vh import Info, Sub, Violation, World, check, check_eq

PROPERTY = 'P27'
TECHNIQUE = 'stateful property-based testing: dir() of managers, selectors, views and configs of generated projects against the tree of the dict files after every change'
LEVEL_NOTE = ('Random projects (nested, empty and mixed sections, specific class dicts, one or two managers) which change by create() and by edits of the dict files with '
              'reload(); every level is listed, every listed name is looked up, nothing may be loaded by listing.')
RULE = 'a case is a project and a history of changes; non-trivial when a section below the top level is listed after a change'
ASSUMPTIONS = ['names of the project do not collide with names of the manager']


@st.composite
def cases(draw):
    mixed, empty = draw(st.booleans()), draw(st.booleans())

    def one():
        return draw(projects(funcs=(1, 4), classes=(0, 2), specs=(0, 2), allow_empty=empty, mixed=mixed, max_params=2, min_params=0, max_sections=3))
    spec = one()
    leaf_names = [x[0] for x in spec['funcs']] + [x[0] for x in spec['classes']]
    ops = []
    for _ in range(draw(st.integers(0, 4))):
        kind = draw(st.sampled_from(['create', 'create', 'edit', 'reload', 'use', 'update', 'create_spec']))
        if kind == 'edit':
            tree = draw(gen.trees(leaf_names, max_depth=3, allow_empty=empty, max_sections=3, mixed=mixed))
            specs = [draw(gen.trees(ENTRIES, max_depth=2, max_sections=2, allow_empty=empty, mixed=mixed)) for _ in spec['specs']]
            ops.append([kind, tree, specs])
        elif kind == 'create':
            own = gen.sections(spec['tree'])
            ops.append([kind, draw(st.sampled_from(NEWSECS + [list(s) for s in own] * 2)), draw(st.integers(0, 5))])
        elif kind == 'create_spec':
            ops.append([kind, draw(st.integers(0, 1)), draw(st.sampled_from(NEWSECS)), draw(st.sampled_from(ENTRIES + ['e9']))])
        else:
            ops.append([kind, draw(st.integers(0, 20))])
    return dict(spec=spec, ops=ops, two=draw(st.booleans()), idle=draw(st.integers(0, 4)) == 0)


def names_of(x, what):
    try:
        return set(dir(x))
    except Exception as e:
        raise Violation(f'{what}: dir() raises {type(e).__name__}: {e}')


def lookup(x, name, what):
    try:
        return getattr(x, name)
    except Exception as e:
        raise Violation(f'{what}: the listed name {name} cannot be looked up: {type(e).__name__}: {e}')


def run(case):
    with World() as w:
        # what is listed besides the project
        other = w.manager('bare', 'bare')
        fixed_pm = names_of(other, 'dir of an empty manager')
        fixed_sel = names_of(w.p.Selector(), 'dir of a selector') - {'bare'}
        fixed_view = names_of(w.p.Selector().bare, 'dir of a view of an empty manager')
        for n in sorted(fixed_pm):
            lookup(other, n, 'dir of an empty manager')
        if case.get('idle'):
            # a manager which is not loaded yet has nothing but its own names
            specs = proj.Proj(w, case['spec'], folder='idle', name='idle').write()
            idle = w.manager('idle', 'idle', load=False, specific_class_config_dicts=specs.specific_config())
            spec_names = {s['name'] for s in case['spec']['specs']}
            check_eq(names_of(idle, 'dir of a manager which is not loaded') - spec_names, fixed_pm - spec_names, 'dir of a manager which is not loaded')
            check_eq(names_of(w.p.Selector(), 'dir of a selector') - fixed_sel, {'bare', 'idle'}, 'dir of a selector with a manager which is not loaded')
            check_eq(names_of(w.p.Selector().idle, 'dir of a view of a manager which is not loaded') - spec_names, fixed_view - spec_names,
                     'dir of a view of a manager which is not loaded')
            w.forget('idle')
        p = Living(w, case['spec'])
        p.write()
        pm = p.manager()
        names = ['bare', 'pm']
        if case['two']:
            w.write('proj2/pipeline_dict.py', p.pipeline_dict_text())
            w.manager('proj2', 'pm2')
            names.append('pm2')
        leaf_names = [x[0] for x in p.spec['funcs']] + [x[0] for x in p.spec['classes']]
        kept = w.p.Selector()
        changed = deep = False
        fixed_section = None

        def logs():
            return len(p.log.LOG), len(p.log.INITS)

        def compare(what):
            nonlocal deep
            before = logs()
            p.refresh_items()
            top = set(p.spec['tree']) | {s['name'] for s in p.spec['specs']}
            got = names_of(pm, f'{what}: dir(pm)')
            check_eq(got - fixed_pm, top - fixed_pm, f'{what}: dir(pm) besides the fixed names')
            check(fixed_pm <= got, f'{what}: dir(pm) lacks fixed names', actual=sorted(fixed_pm - got))
            for s in (w.p.Selector(), kept):
                listed = names_of(s, f'{what}: dir(Selector())')
                check_eq(listed - fixed_sel, set(names), f'{what}: managers in dir(Selector())')
            v = w.p.Selector().pm
            got = names_of(v, f'{what}: dir(view of the manager)')
            check_eq(got - fixed_view, top - fixed_view, f'{what}: dir(view of the manager) besides the fixed names')
            for sec in p.section_paths() + p.spec_section_paths():
                v = w.p.Selector().pm
                for part in sec.split('.'):
                    v = getattr(v, part)
                want = {m.rsplit('.', 1)[-1] for m, _ in p.members(sec)}
                got = names_of(v, f'{what}: dir(view of {sec})')
                check(want <= got, f'{what}: dir(view of {sec}) lacks members', actual=sorted(got), expected=sorted(want))
                extra = {n for n in got - want if not n.startswith('_')}
                check(extra <= {'type', 'item'}, f'{what}: dir(view of {sec}) lists other names', actual=sorted(extra))
                if '.' in sec:
                    deep = True
                for n in sorted(want):
                    x = lookup(v, n, f'{what}: view of {sec}')
                    check(w.p.is_item_view(x), f'{what}: {n} of the view of {sec} is no view')
            check_eq(logs(), before, f'{what}: listing runs or creates items')
            # every name can be looked up
            for n in sorted(top):
                lookup(pm, n, f'{what}: dir(pm)')
            for path, it in p.items.items():
                got = names_of(pm.config.get(path), f'{what}: dir(config of {path})')
                check(set(it.args) <= got, f'{what}: dir(config of {path}) lacks arguments', actual=sorted(got), expected=it.args)

        compare('after load')
        for n, op in enumerate(case['ops']):
            what = f'after step {n} {op[0]}'
            if op[0] == 'create':
                leaf = leaf_names[op[2] % len(leaf_names)]
                if not Living.can_create(p.spec['tree'], op[1], leaf) or op[1][0] in [s['name'] for s in p.spec['specs']]:
                    continue
                pm.create('.'.join(op[1]), p.object(leaf))
                Living.do_create(p.spec['tree'], op[1], leaf)
                changed = True
            elif op[0] == 'create_spec':
                if not p.spec['specs']:
                    continue
                s = p.spec['specs'][op[1] % len(p.spec['specs'])]
                if not Living.can_create(s['tree'], op[2], op[3]):
                    continue
                pm.create('.'.join([s['name'], *op[2], op[3]]))
                Living.do_create(s['tree'], op[2], op[3])
                changed = True
            elif op[0] == 'edit':
                p.spec['tree'] = copy.deepcopy(op[1])
                for s, t in zip(p.spec['specs'], op[2]):
                    s['tree'] = copy.deepcopy(t)
                p.write_dicts()
                pm.reload()
                kept = w.p.Selector()
                changed = True
            elif op[0] == 'reload':
                pm.reload()
                kept = w.p.Selector()
            elif op[0] in ('use', 'update'):
                paths = list(p.items)
                if not paths:
                    continue
                path = paths[op[1] % len(paths)]
                if op[0] == 'use':
                    pm.get(path)
                else:
                    a = [x for x in p.items[path].args if x != p.items[path].key]
                    if a:
                        pm.update({a[0]: 77}, path)
            compare(what)
        return Info(changed and deep, *sorted({o[0] for o in case['ops']}), 'two managers' if case['two'] else '')


SUBS = [Sub('listing', cases(), run, quick=600, thorough=30000)]
