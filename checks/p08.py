"""P08: a loaded object is unique and follows its config."""
import functools

from hypothesis import strategies as st

from lib import frames, gen, model, proj
from lib.vh import Info, Sub, Violation, World, check, check_eq

PROPERTY = 'P08'
TECHNIQUE = 'stateful model-based testing: references held across generated operation histories, with an application log, against a reference model'
LEVEL_NOTE = ('Random histories over projects of functions, classes with and without the update hook and specific classes. References taken at random '
              'points are compared with the model after every step; every __init__ and _pyfileconf_update_ call is logged by the generated classes. A sub-check uses data frames and series as values, which only compare as wholes.')
RULE = 'a case is a project and an operation history; non-trivial when a held object has to follow at least one effective config change'
ASSUMPTIONS = ['values compare with == exactly when they are the same value', 'sections set no values (their effect on objects is P06)']

ARG_POOL = ['a', 'b', 'd', 'value', 'keys']
vals = st.one_of(st.integers(2, 6), st.sampled_from(['txt', '']), st.none(), st.lists(st.integers(2, 3), max_size=2))
plain_vals = vals


@st.composite
def histories(draw, vals=vals):
    spec = draw(proj.projects(odd_spec_names=True, vals=plain_vals, min_params=1, max_params=3, max_sections=2, classes=(1, 3), arg_names=ARG_POOL))
    pairs = st.lists(st.tuples(st.integers(0, 3), vals), min_size=1, max_size=3)
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just('hold'), st.integers(0, 30)), st.tuples(st.just('hold'), st.integers(0, 30)),
        st.tuples(st.just('update'), st.integers(0, 30), pairs, st.sampled_from(['plain', 'irrelevant', 'nopersist', 'same', 'view'])),
        st.tuples(st.just('update'), st.integers(0, 30), pairs, st.sampled_from(['plain', 'irrelevant', 'nopersist', 'same', 'view'])),
        st.tuples(st.sampled_from(['reset', 'refresh', 'run', 'config']), st.integers(0, 30)),
        st.tuples(st.just('edit'), st.integers(0, 30), pairs),
        st.tuples(st.just('getsection'), st.integers(0, 30)),
        st.tuples(st.just('reload'), st.just(0)),
    ), min_size=3, max_size=14))
    focus = draw(st.integers(0, 30))
    if draw(st.integers(0, 3)):
        ops = [('hold', focus)] + ops
    return dict(spec=spec, ops=[[o[0], focus if draw(st.integers(0, 2)) else o[1]] + list(o[2:]) for o in ops])


def run(case):
    with World() as w:
        p = proj.Proj(w, case['spec']).write()
        frames.install()
        pm = frames.Manager(p.manager())
        sel = w.p.Selector()
        m = model.CfgModel({q: it.defaults for q, it in p.items.items()})
        paths = [q for q in p.items if any(a != p.items[q].key for a in p.items[q].args)] or list(p.items)
        held, old, followed, tags = {}, [], 0, set()

        def values_of(path, obj):
            it = p.items[path]
            if it.kind == 'func':
                check(isinstance(obj, functools.partial), f'get({path!r}) of a function', actual=obj)
                return frames.encoded(dict(obj.keywords))
            check(type(obj).__name__ == it.tag, f'get({path!r}) is not a {it.tag}', actual=obj)
            return frames.encoded({a: getattr(obj, a) for a in it.args})

        def view(path):
            v = sel
            for part in ('pm.' + path).split('.'):
                v = getattr(v, part)
            return v

        for n, op in enumerate(case['ops']):
            path = paths[op[1] % len(paths)]
            it = p.items[path]
            what = f'step {n} {op[0]} {path}'
            marks = len(p.log.UPDATES), len(p.log.INITS)
            args = [a for a in it.args if a != it.key]
            changed = False
            if op[0] == 'hold':
                obj = pm.get(path)
                check(held.setdefault(path, obj) is obj, f'{what}: another object than before')
                check(all(o is not obj for o in old), f'{what}: an object from before reload()')
            elif op[0] == 'update':
                u = {args[i % len(args)]: v for i, v in op[2]} if args else {}
                if not u:
                    continue
                if op[3] == 'same':
                    u = {k: m.cfg[path][k] for k in u}
                if op[3] == 'view':
                    k, v = list(u.items())[0]
                    u = {k: v}
                    if hasattr(w.p.ItemView, k):
                        continue
                    setattr(view(path), k, frames.real(v))
                elif op[3] == 'irrelevant':
                    pm.update({**u, 'not_an_argument': 5, 'b_': 'x'}, path)
                else:
                    pm.update(dict(u), path, pyfileconf_persist=op[3] != 'nopersist')
                changed = m.update(path, u, op[3] != 'nopersist')
                tags.add('update ' + op[3])
            elif op[0] == 'reset':
                pm.reset(path)
                changed = m.reset(path)
            elif op[0] == 'refresh':
                pm.refresh(path)
                changed = m.refresh(path)
            elif op[0] == 'edit':
                pm.config.get(path)
                m.edit(path, {args[i % len(args)]: v for i, v in op[2]} if args else {})
                w.write(p.config_file(path), model.render_config(frames.code(m.files[path]), frames.HEADER))
            elif op[0] == 'run':
                check_eq(pm.run(path), p.result(path, m.cfg[path]), f'{what}: result')
                held.setdefault(path, pm.get(path))
            elif op[0] == 'config':
                check_eq(p.config(pm, path), m.cfg[path], f'{what}: config')
            elif op[0] == 'getsection':
                sec = path.rsplit('.', 1)[0]
                if p.items[path].kind == 'spec' or p.items[path].kind == 'func':
                    kids = p.members(sec)
                    if not any(s for _, s in kids):
                        obj = pm.get(sec)[[k for k, _ in kids].index(path)]
                        check(held.setdefault(path, obj) is obj, f'{what}: get({sec!r}) gives another object')
                        for (k, _), o in zip(kids, pm.get(sec)):
                            if p.items[k].kind != 'class':
                                check(held.setdefault(k, o) is o, f'{what}: get({sec!r}) gives another object for {k}')
            elif op[0] == 'reload':
                pm.reload()
                old += held.values()
                held = {}
                m.reload()
                continue
            # applications: exactly the changed item, once, only argument keys
            ups, inits = p.log.UPDATES[marks[0]:], p.log.INITS[marks[1]:]
            if op[0] in ('update', 'reset', 'refresh'):
                for tag, kw in ups:
                    known = [i for i in p.items.values() if i.tag == tag]
                    check(set(kw) <= set(known[0].args), f'{what}: _pyfileconf_update_ got keys that are no arguments', actual=kw, expected=known[0].args)
                expect = path in held and it.kind != 'func' and changed
                n_up, n_init = [t for t, _ in ups], [t for t, _ in inits]
                check_eq(n_up, [it.tag] if expect and it.hook else [], f'{what}: calls of _pyfileconf_update_ (config changed: {changed}, loaded: {path in held})')
                check_eq(n_init, [it.tag] if expect and not it.hook else [], f'{what}: calls of __init__ (config changed: {changed}, loaded: {path in held})')
                if path in held and changed:
                    followed += 1
                    tags.add('follow:' + it.kind + ('+hook' if it.hook else ''))
            elif ups or inits:
                loaded_now = op[0] in ('hold', 'run', 'getsection')
                check(loaded_now, f'{what}: applied a config', actual=ups + inits)
            for q, obj in held.items():
                check_eq(values_of(q, obj), m.cfg[q], f'{what}: object of {q} held since before')
                check(pm.get(q) is obj, f'{what}: {q} is another object now')
        return Info(followed, *sorted(tags))


SUBS = [Sub('held', histories(), run, quick=800, thorough=40000),
        # data frames are compared as wholes
        Sub('frames', histories(vals=st.one_of(frames.whole, frames.whole, vals)), run, quick=250, thorough=10000)]


def run_inherited_probe(case):
    """An item's update of a key which its section also sets, then an update of another key."""
    with World() as w:
        w.module('gm_src', 'def f(a=1, b=2):\n    return [a, b]\n')
        w.write('proj/pipeline_dict.py', 'from gm_src import f\npipeline_dict = {"sec": [f]}\n')
        pm = w.manager()
        pm.update(dict(a=case['section']), section_path_str='sec')
        check_eq(pm.run('sec.f'), [case['section'], 2], 'value of the section at first load')
        pm.update(dict(a=case['item']), section_path_str='sec.f')
        check_eq(pm.run('sec.f'), [case['item'], 2], 'after updating the item')
        pm.update(dict(b=case['other']), section_path_str='sec.f')
        check_eq(pm.run('sec.f'), [case['item'], case['other']], 'after updating another key of the item')
        return Info(True)


# deterministic probes of the known findings (known_findings.json)
PROBES = {'inherited': Sub('inherited', None, run_inherited_probe)}
