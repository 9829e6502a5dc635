"""P09: items, sections and managers are isolated."""
import copy
import inspect

from hypothesis import strategies as st

from lib import gen, model, proj
from lib.vh import Info, Sub, Violation, World, check, check_eq, must_raise

PROPERTY = 'P09'
TECHNIQUE = 'stateful property-based testing with a frame condition: after every generated operation everything except its target must equal the snapshot taken before'
LEVEL_NOTE = ('Two managers with the same names (and a third which is not loaded or whose load failed), the same functions in several sections, several dicts of one class, mutable defaults mutated in place; configs, held objects (identity and '
              'values), config files and finally results of all other items are compared before and after each operation; the target itself with a reference model.')
RULE = 'a case is a pair of projects and an operation history; non-trivial when at least two operations change a config'
ASSUMPTIONS = ['no dependencies between the items (P15)', 'values passed to update() are the caller\'s objects; they are not shared in these histories']

ARG_POOL = ['a', 'b', 'd', 'value']
vals = st.one_of(st.integers(2, 6), st.just('txt'), st.lists(st.integers(2, 4), max_size=2), st.lists(st.integers(2, 4), max_size=2),
                 st.dictionaries(st.sampled_from(['k', 'j']), st.integers(2, 4), max_size=2))


@st.composite
def cases(draw):
    spec = draw(proj.projects(odd_spec_names=True, vals=vals, funcs=(1, 2), classes=(0, 2), specs=(0, 2), min_params=1, max_params=2, max_sections=3, arg_names=ARG_POOL))
    if len(spec['specs']) == 2 and draw(st.booleans()):
        spec['specs'][1] = dict(spec['specs'][0], name=spec['specs'][1]['name'])     # same class, same tree
    op = st.tuples(st.sampled_from(['update', 'update', 'reset', 'refresh', 'run', 'view', 'edit', 'mutate', 'mutate', 'mutateobj', 'get', 'batch', 'product', 'addsection']),
                   st.integers(0, 40), st.integers(0, 3), vals)
    ops = draw(st.lists(st.one_of(op, op, op, st.tuples(st.sampled_from(['reload', 'other manager', 'update']), st.integers(0, 40), st.integers(0, 3), vals)), min_size=2, max_size=12))
    return dict(spec=spec, two=draw(st.integers(0, 2)) > 0, idle=draw(st.sampled_from(['', '', 'unloaded', 'failed', 'early'])), ops=[list(o) for o in ops], held=draw(st.lists(st.integers(0, 40), max_size=6)))


def run(case):
    with World() as w:
        projects = {}
        for name, folder in [('pm', 'proj'), ('pm2', 'proj2')][:2 if case['two'] else 1]:
            projects[name] = proj.Proj(w, case['spec'], folder=folder, name=name)
            projects[name].write()
        p = projects['pm']
        idle = case.get('idle')
        if idle:
            # a manager of a project with the same names which is not loaded, or whose load failed
            other = proj.Proj(w, case['spec'], folder='idle', name='idle')
            other.write_dicts()
            if idle == 'failed':
                w.write('idle/pipeline_dict.py', other.pipeline_dict_text() + 'oops = (\n')

        def make_idle():
            pm = w.manager('idle', 'idle', load=False, specific_class_config_dicts=p.specific_config())
            if idle == 'failed':
                must_raise(SyntaxError, pm.load, what='loading a broken project')
        if idle == 'early':
            make_idle()
        pms = {n: q.manager() for n, q in projects.items()}
        full = [f'{n}.{q}' for n, pr in projects.items() for q in pr.items]
        if idle and idle != 'early':
            make_idle()
        m = model.CfgModel({f: p.items[f.split('.', 1)[1]].defaults for f in full})
        sel = w.p.Selector()
        if idle:
            for f in full:
                check(f in sel, f'{f} is not in a selector made next to a manager which is not loaded')
                check(f'idle.{f.split(".", 1)[1]}' not in sel, f'the {f.split(".", 1)[1]} of the manager which is not loaded is in the selector')

        def rel(f):
            return f.split('.', 1)[1]

        def item(f):
            return p.items[rel(f)]

        def pm_of(f):
            return pms[f.split('.')[0]]

        held = {}
        for i in case['held']:
            f = full[i % len(full)]
            held[f] = pm_of(f).get(rel(f))

        def values(f, o):
            return dict(o.keywords) if item(f).kind == 'func' else {a: getattr(o, a) for a in item(f).args}

        def snap():
            return {f: copy.deepcopy([p.config(pm_of(f), rel(f)), values(f, held[f]) if f in held else None, w.read(projects[f.split('.')[0]].config_file(rel(f)))]) for f in full}

        usable = [f for f in full if any(a != item(f).key for a in item(f).args)]
        if not usable:
            return Info(False)
        changed, dirty, tags, extra = 0, set(), set(), 0
        before = snap()
        for n, (op, i, k, val) in enumerate(case['ops']):
            f = usable[i % len(usable)]
            pm, it, q = pm_of(f), item(f), rel(f)
            args = [a for a in it.args if a != it.key]
            a = args[k % len(args)]
            what = f'step {n} {op} {f}'
            target = {f}
            tags.add(op)
            if op == 'update':
                pm.update({a: copy.deepcopy(val)}, q)
                changed += m.update(f, {a: val})
            elif op == 'batch':
                pm.update_batch([{'section_path_str': q, a: copy.deepcopy(val)}])
                changed += m.update(f, {a: val})
            elif op == 'view':
                v = sel
                for part in f.split('.'):
                    v = getattr(v, part)
                setattr(v, a, copy.deepcopy(val))
                changed += m.update(f, {a: val})
            elif op == 'product':
                if f in dirty:
                    continue
                got = pm.run_product(q, [{'section_path_str': q, a: copy.deepcopy(val)}])
                m.update(f, dict(m.cfg[f]))
                changed += m.update(f, {a: val})
                check_eq(got[0][1], p.result(q, m.cfg[f]), f'{what}: result')
            elif op == 'reset':
                pm.reset(q)
                changed += m.reset(f)
                dirty.discard(f)
            elif op == 'refresh':
                if f in dirty:
                    continue
                pm.refresh(q)
                changed += m.refresh(f)
            elif op == 'run':
                got = pm.run(q)
                if f not in dirty:
                    check_eq(got, p.result(q, m.cfg[f]), f'{what}: result')
                check_eq(values(f, pm.get(q)) if f not in dirty else None, m.cfg[f] if f not in dirty else None, f'{what}: values after running')
                held.setdefault(f, pm.get(q))
            elif op == 'get':
                held.setdefault(f, pm.get(q))
            elif op == 'edit':
                m.edit(f, {a: val})
                w.write(projects[f.split('.')[0]].config_file(q), model.render_config(m.files[f]))
            elif op in ('mutate', 'mutateobj'):
                box = pm.config.get(q)[a] if op == 'mutate' else values(f, pm.get(q))[a]
                if isinstance(box, list):
                    box.append(77)
                elif isinstance(box, dict):
                    box['new'] = 77
                else:
                    continue
                dirty.add(f)
                changed += 1
            elif op == 'reload':
                pm.reload()
                for g in full:
                    if g.split('.')[0] == f.split('.')[0]:
                        m.reset(g)
                        dirty.discard(g)
                        held.pop(g, None)
                        target.add(g)
            elif op == 'other manager':
                # a third manager with the same section and item names comes and goes
                other = proj.Proj(w, case['spec'], folder=f'third{n}', name=f'third{n}')
                other.write_dicts()
                pm3 = w.manager(f'third{n}', f'third{n}', specific_class_config_dicts=p.specific_config())
                pm3.update({a: copy.deepcopy(val)}, q)
                pm3.run(q)
                w.forget(f'third{n}')
                target = set()
            elif op == 'addsection':
                # a new section registering the same function or class
                if it.kind == 'spec':
                    continue
                extra += 1
                import importlib
                pm.create(f'added{extra}', getattr(importlib.import_module('gm_src'), it.tag))
                pm.update({a: copy.deepcopy(val)}, f'added{extra}.{it.tag}')
                conf = pm.config.get(f'added{extra}.{it.tag}')
                check_eq(conf[a], val, f'{what}: config of the added item')
                target = set()
            after = snap()
            for g in full:
                if g not in target:
                    check_eq(after[g], before[g], f'{what}: changed {g} (config, held object, file)')
                if g not in dirty:
                    check_eq(after[g][0], m.cfg[g], f'{what}: config of {g}')
                    if g in held:
                        check_eq(after[g][1], m.cfg[g], f'{what}: held object of {g}')
            for g, o in held.items():
                check(pm_of(g).get(rel(g)) is o, f'{what}: {g} is another object now')
            before = after
        # the source defaults were never touched
        import gm_src
        for f in full:
            it = item(f)
            if it.kind != 'spec':
                sig = inspect.signature(getattr(gm_src, it.tag))
                for name, has, default, _ in it.params:
                    if has:
                        check_eq(sig.parameters[name].default, default, f'default of {name} in the source of {f}')
        for f in full:
            if f not in dirty:
                check_eq(pm_of(f).run(rel(f)), p.result(rel(f), m.cfg[f]), f'at the end: run {f}')
        for pm in pms.values():
            pm.reload()
        for f in full:
            check_eq(p.config(pm_of(f), rel(f)), m.files[f], f'after reload: config of {f}')
            check_eq(pm_of(f).run(rel(f)), p.result(rel(f), m.files[f]), f'after reload: run {f}')
        return Info(changed >= 2, *sorted(tags), 'two' if case['two'] else '', idle)


SUBS = [Sub('frame', cases(), run, quick=350, thorough=20000)]
