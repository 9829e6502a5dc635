"""P19: an ItemView behaves as the item it stands for."""
import copy
import functools
import itertools
import types

from hypothesis import strategies as st

from lib import gen, model, proj
from lib.vh import Info, Sub, Violation, World, check, check_eq

PROPERTY = 'P19'
TECHNIQUE = 'stateful property-based testing: generated sequences of view operations compared with the item and a reference model of its config'
LEVEL_NOTE = ('Views of functions, classes and specific classes (one or two managers with the same names, two dicts of one class with different execute_attr), built by '
              'every route, before and after the item is loaded and across reload(); equality and hash over all pairs of views; loading observed through side effects of the config files.')
RULE = 'a case is a project and a sequence of view operations; non-trivial when at least two operations of different kinds act on views'
ASSUMPTIONS = ['argument names do not collide with attributes of ItemView (type, item, selector, section_path_str)']

ARG_POOL = ['a', 'b', 'd', 'value', 'E', 'keys']
vals = st.one_of(st.integers(2, 6), st.sampled_from(['txt', '']), st.none(), st.lists(st.integers(2, 3), max_size=2))
SAFE = {'int': 3, 'str': 'pm.a.b', 'none': None, 'list': [1], 'dict': {'_is_item_view': True}, 'func': len, 'class': int, 'obj': object()}


class Look:
    """Looks like a view, is none."""
    section_path_str = 'pm.alpha.f1'
    _is_item_view = 'yes'


@st.composite
def cases(draw):
    spec = draw(proj.projects(odd_spec_names=True, vals=vals, min_params=1, max_params=3, max_sections=2, classes=(0, 2), specs=(0, 2), arg_names=ARG_POOL))
    if len(spec['specs']) == 2 and draw(st.booleans()):
        # two dicts configuring the same class
        spec['specs'][1] = dict(spec['specs'][0], name=spec['specs'][1]['name'], tree=spec['specs'][1]['tree'], exec=spec['specs'][1]['exec'])
    ops = draw(st.lists(st.one_of(
        st.tuples(st.sampled_from(['call', 'callkw', 'type', 'attr', 'deepcopy', 'item', 'eq', 'is', 'rebuild', 'callkw', 'call']), st.integers(0, 30), st.integers(0, 3), vals),
        st.tuples(st.just('set'), st.integers(0, 30), st.integers(0, 3), vals),
        st.tuples(st.sampled_from(['set', 'update', 'reset', 'get', 'reload']), st.integers(0, 30), st.integers(0, 3), vals),
    ), min_size=2, max_size=10))
    focus = draw(st.integers(0, 30))
    ops = [[o[0], focus if draw(st.integers(0, 2)) else o[1], o[2], o[3]] for o in ops]
    return dict(spec=spec, two=draw(st.booleans()), ops=ops, route=draw(st.integers(0, 4)))


def run(case):
    with World() as w:
        class_names = {s['cls'] for s in case['spec']['specs']}
        execs = {s['name']: s['exec'] for s in case['spec']['specs']}
        projects = {}
        for name, folder in [('pm', 'proj'), ('pm2', 'proj2')][:2 if case['two'] else 1]:
            projects[name] = proj.Proj(w, case['spec'], folder=folder, name=name)
            projects[name].write()
        p = projects['pm']
        if len(class_names) == 1 and len(execs) == 2:
            # one class with all the execute methods; results name the one used
            s = case['spec']['specs'][0]
            text = 'import gm_log\n\n\n' + proj.render_class(s['cls'], s['params'], s['hook'], '_unused')
            d = ', '.join(f'{q[0]}=self.{q[0]}' for q in s['params'])
            for e in sorted(set(execs.values())):
                text += f'    def {e}(self):\n        return [{s["cls"] + "/" + e!r}, dict({d})]\n\n'
            w.module('gm_src_spec', text)
        pms = {n: q.manager() for n, q in projects.items()}
        marked = 0
        for n, q in projects.items():
            for path in q.items:
                f = q.config_file(path)
                w.write(f, w.read(f) + f'import gm_log\ngm_log.LOG.append(["file", {n + "." + path!r}])\n')
                marked += 1
        start = len(p.log.INITS), len(p.log.UPDATES), len(p.log.LOG)
        full = [f'{n}.{path}' for n, q in projects.items() for path in q.items]
        m = model.CfgModel({f: p.items[f.split('.', 1)[1]].defaults for f in full})
        sel = w.p.Selector()

        def build(f, k):
            k %= 5
            if k == 0:
                v = sel
                for part in f.split('.'):
                    v = getattr(v, part)
                return v
            if k == 1:
                return w.p.ItemView.from_section_path_str(f)
            if k == 2:
                return sel(f)
            if k == 3:
                return w.p.ItemView(f)
            return w.p.ItemView(f, sel)

        views = {f: build(f, case['route'] + i) for i, f in enumerate(full)}
        sections = [f'{n}.{x}' for n, q in projects.items() for x in q.section_paths()] + list(projects)
        secviews = {f: build(f, 0) for f in sections}
        for v in itertools.chain(views.values(), secviews.values()):
            check(w.p.is_item_view(v) is True, 'is_item_view of a view', actual=repr(v))
            hash(v)
            repr(v)
        for f, v in views.items():
            isinstance(v, int)
        check_eq((len(p.log.INITS), len(p.log.UPDATES), len(p.log.LOG)), start, 'building views: objects created, configs applied, config files read')

        def it_of(f):
            return p.items[f.split('.', 1)[1]]

        def pm_rel(f):
            n, path = f.split('.', 1)
            return pms[n], path

        def result(f):
            it = it_of(f)
            tag = it.tag
            if it.kind == 'spec' and len(class_names) == 1 and len(execs) == 2:
                tag += '/' + execs[f.split('.')[1]]
            return [tag, dict(m.cfg[f])]

        def source_class(f):
            import importlib
            it = it_of(f)
            return getattr(importlib.import_module('gm_src_spec' if it.kind == 'spec' else 'gm_src'), it.tag)

        loaded = set()
        done = set()
        usable = [f for f in full if any(a != it_of(f).key for a in it_of(f).args)]
        for n, (op, i, k, val) in enumerate(case['ops']):
            f = usable[i % len(usable)]
            v, it = views[f], it_of(f)
            pm, path = pm_rel(f)
            args = [a for a in it.args if a != it.key]
            a = args[k % len(args)]
            what = f'step {n} {op} {f}'
            done.add(op + ':' + it.kind)
            if op == 'rebuild':
                views[f] = build(f, k + case['route'])
                continue
            if op == 'type':
                cls = types.FunctionType if it.kind == 'func' else source_class(f)
                check(v.type is cls, f'{what}: type', actual=v.type, expected=cls)
                check(v.__class__ is cls, f'{what}: __class__', actual=v.__class__, expected=cls)
                check(isinstance(v, cls), f'{what}: isinstance(view, {cls})')
                check(not isinstance(v, (int, dict, str)), f'{what}: isinstance of an unrelated class')
                for other in class_names | {'Klass', 'Other', 'K3'}:
                    if other != getattr(cls, '__name__', None):
                        import gm_src
                        o = getattr(gm_src, other, None)
                        check(o is None or not isinstance(v, o), f'{what}: isinstance(view, {other})')
                continue
            if op == 'eq':
                for (f1, v1), (f2, v2) in itertools.product(list(views.items()) + list(secviews.items()), repeat=2):
                    check((v1 == v2) is (f1 == f2), f'{what}: {f1} == {f2}')
                    check((v1 != v2) is (f1 != f2), f'{what}: {f1} != {f2}')
                    if f1 == f2:
                        check(hash(v1) == hash(v2), f'{what}: hash of {f1}')
                again = build(f, k)
                check(again == v and hash(again) == hash(v) and len({again, v}) == 1, f'{what}: views built in two ways differ')
                for o in (3, 'x', None, [f], f):
                    check(not (v == o) and v != o, f'{what}: equal to {o!r}')
                continue
            if op == 'is':
                for name, o in [*SAFE.items(), ('look', Look()), ('selector', sel), ('manager', pm), ('path', w.p.SectionPath(f))]:
                    check(w.p.is_item_view(o) is False, f'{what}: is_item_view({name})')
                check(w.p.is_item_view(pm.get(path)) is False, f'{what}: is_item_view of the real item')
                loaded.add(f)
                continue
            if op == 'call':
                got = v()
                if it.kind == 'class':
                    check(got is pm.get(path), f'{what}: calling the view of a class', actual=got)
                    got = got()
                check_eq(got, result(f), f'{what}: result')
                loaded.add(f)
            elif op == 'callkw':
                if it.kind != 'func':
                    continue
                got = v(**{a: val})
                check_eq(got, [it.tag, {**m.cfg[f], a: val}], f'{what}: result with {a}={val!r}')
                check_eq(v(), result(f), f'{what}: result after a call with keyword')
                loaded.add(f)
            elif op == 'attr':
                if it.kind == 'func':
                    check_eq(v.keywords, m.cfg[f], f'{what}: keywords of the view of a function')
                    try:
                        got = v.no_such_attribute
                    except Exception:
                        pass
                    else:
                        raise Violation(f'{what}: missing attribute gave {got!r}')
                else:
                    for b in it.args:
                        check_eq(getattr(v, b), m.cfg[f][b], f'{what}: attribute {b}')
                    check(not hasattr(v, 'no_such_attribute'), f'{what}: has a missing attribute')
                loaded.add(f)
            elif op == 'item':
                check(v.item is pm.get(path), f'{what}: item')
                loaded.add(f)
            elif op == 'deepcopy':
                c = copy.deepcopy(v)
                real = pm.get(path)
                check(not w.p.is_item_view(c), f'{what}: the copy is a view')
                check(c is not real and type(c) is type(real), f'{what}: not a copy of the item', actual=c, expected=real)
                if it.kind == 'func':
                    check_eq(dict(c.keywords), m.cfg[f], f'{what}: keywords of the copy')
                    c.keywords[a] = 'changed'
                else:
                    check_eq({b: getattr(c, b) for b in it.args}, m.cfg[f], f'{what}: attributes of the copy')
                    setattr(c, a, 'changed')
                nested = copy.deepcopy([v, {'k': v}, build(f, n + 1), real])
                parts = [nested[0], nested[1]['k'], *nested[2:]]
                check(not any(w.p.is_item_view(x) for x in parts), f'{what}: deepcopy of a structure holds a view')
                check(all(x is parts[0] for x in parts), f'{what}: deepcopy of a structure with views of one item gives several copies')
                loaded.add(f)
            elif op == 'set':
                setattr(v, a, val)
                m.update(f, {a: val})
            elif op == 'update':
                pm.update({a: val}, path)
                m.update(f, {a: val})
            elif op == 'reset':
                pm.reset(v if k % 2 else path)
                m.reset(f)
            elif op == 'get':
                pm.get(path)
                loaded.add(f)
            elif op == 'reload':
                pm.reload()
                for g in full:
                    if g.split('.')[0] == f.split('.')[0]:
                        m.reset(g)
            for g in full:
                q, rel = pm_rel(g)
                check_eq(p.config(q, rel), m.cfg[g], f'{what}: config of {g}')
                check_eq(projects[g.split('.')[0]].observe(q, rel), m.cfg[g], f'{what}: object of {g}')
        return Info(len({d.split(':')[0] for d in done}) > 1, *sorted(done), 'same class' if len(class_names) == 1 and len(execs) == 2 else '')


SUBS = [Sub('views', cases(), run, quick=600, thorough=30000)]
