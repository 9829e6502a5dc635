"""P07: config state follows update / reset / refresh / reload exactly."""
import copy

from hypothesis import strategies as st

from lib import frames, gen, model, proj
from lib.vh import Info, Sub, Violation, World, check, check_eq

PROPERTY = 'P07'
TECHNIQUE = 'stateful model-based testing: generated operation histories against a reference model of item configs'
LEVEL_NOTE = ('Random histories (up to 14 operations) over generated projects mixing functions, classes with and '
              'without the update hook and specific classes; every item is compared with the model along the way. '
              'Sections set no values in these histories (precedence is P06). A sub-check uses data frames, series, arrays and objects which cannot be compared as values.')
RULE = ('a case is a project and an operation history; non-trivial when the history contains at least two config '
        'changing operations on one item')
ASSUMPTIONS = ['values compare with == exactly when they are the same value',
               'config files are edited only after the item config was first accessed (files are read lazily)']

ARG_POOL = ['a', 'b', 'd', 'E', 'value', 'keys', 'kwargs_', 'config']
vals = st.one_of(st.integers(2, 6), st.sampled_from(['txt', "it's", '']), st.none(), st.lists(st.integers(2, 3), max_size=2))

plain_vals = vals


# 9 stands for a name the item has no argument for
keys = st.sampled_from([0, 1, 2, 3, 0, 1, 2, 3, 9])


SAME = '__same__'       # an update to the value the config has already


@st.composite
def histories(draw, max_ops=14, vals=vals):
    spec = draw(proj.projects(odd_spec_names=True, vals=plain_vals, min_params=1, max_params=3, max_sections=2, arg_names=ARG_POOL))
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just('update'), st.integers(0, 30), st.lists(st.tuples(keys, st.one_of(vals, vals, vals, st.just(SAME))), min_size=1, max_size=3),
                  st.sampled_from(['dict', 'kw', 'both']), st.booleans(), st.booleans()),
        st.tuples(st.sampled_from(['reset', 'refresh', 'reset', 'refresh', 'refresh', 'run', 'get']), st.integers(0, 30)),
        st.tuples(st.just('edit'), st.integers(0, 30), st.lists(st.tuples(st.integers(0, 3), vals), min_size=1, max_size=2)),
        st.tuples(st.just('update'), st.integers(0, 30), st.lists(st.tuples(keys, st.one_of(vals, vals, vals, st.just(SAME))), min_size=1, max_size=3),
                  st.sampled_from(['dict', 'kw', 'both']), st.booleans(), st.booleans()),
        st.tuples(st.just('reload'), st.just(0)),
        st.tuples(st.just('observe'), st.integers(0, 30)),
    ), min_size=3, max_size=max_ops))
    # concentrate the history on few items so that steps interact
    focus = draw(st.integers(0, 30))
    ops = [[o[0], focus if draw(st.integers(0, 3)) else o[1]] + [x for x in o[2:]] for o in ops]
    return dict(spec=spec, ops=ops, full=draw(st.booleans()))


def pick_updates(item, pairs):
    args = [a for a in item.args if a != item.key]
    if not args:
        return {}
    return {'not_an_arg' if i == 9 else args[i % len(args)]: v for i, v in pairs}


def run(case):
    with World() as w:
        p = proj.Proj(w, case['spec']).write()
        frames.install()
        pm = frames.Manager(p.manager())
        paths = list(p.items)
        m = model.CfgModel({q: it.defaults for q, it in p.items.items()})
        touched = {}
        tags = set()

        def compare(path, what):
            it = p.items[path]
            check_eq(p.config(pm, path), m.cfg[path], f'{what}: config of {path}')
            conf = pm.config.get(path)
            for a in it.args:
                if not hasattr(dict, a) and a not in ('config', 'name'):
                    check_eq(frames.encoded(getattr(conf, a)), m.cfg[path][a], f'{what}: config.{a} of {path}')
            check_eq(p.observe(pm, path), m.cfg[path], f'{what}: loaded object of {path}')
            check_eq(pm.run(path), p.result(path, m.cfg[path]), f'{what}: run {path}')
            check_eq(p.config(pm, path), m.cfg[path], f'{what}: config of {path} after running it')

        usable = [q for q in paths if any(a != p.items[q].key for a in p.items[q].args)] or paths
        for n, op in enumerate(case['ops']):
            path = usable[op[1] % len(usable)]
            it = p.items[path]
            what = f'after step {n} {op[0]} {path}'
            if op[0] == 'update':
                u = pick_updates(it, op[2])
                if not u:
                    continue
                u = {k: copy.deepcopy(m.cfg[path][k]) if v == SAME and k in m.cfg[path] else v for k, v in u.items()}
                kw = {} if op[4] else {'pyfileconf_persist': False}
                if op[3] == 'dict':
                    pm.update(dict(u), path, **kw)
                elif op[3] == 'kw':
                    pm.update(section_path_str=path, **u, **kw)
                else:
                    keys = list(u)
                    # keywords take precedence over the dictionary, as in dict.update
                    pm.update({k: u[k] if k == keys[0] else ['overridden'] for k in (keys if op[1] % 2 else keys[:1])}, section_path_str=path, **{k: u[k] for k in keys[1:]}, **kw)
                tags.add('unknown name' if 'not_an_arg' in u else 'known names')
                if m.update(path, {k: v for k, v in u.items() if k != 'not_an_arg'}, op[4]):
                    touched[path] = touched.get(path, 0) + 1
                tags.add('persist' if op[4] else 'nopersist')
            elif op[0] == 'reset':
                pm.reset(path)
                if m.reset(path):
                    touched[path] = touched.get(path, 0) + 1
            elif op[0] == 'refresh':
                pm.refresh(path)
                if m.refresh(path):
                    touched[path] = touched.get(path, 0) + 1
                    tags.add('effective refresh')
            elif op[0] == 'edit':
                u = pick_updates(it, op[2])
                pm.config.get(path)
                m.edit(path, u)
                w.write(p.config_file(path), model.render_config(frames.code(m.files[path]), frames.HEADER))
                if u:
                    touched[path] = touched.get(path, 0) + 1
            elif op[0] == 'reload':
                pm.reload()
                m.reload()
            elif op[0] == 'run':
                check_eq(pm.run(path), p.result(path, m.cfg[path]), f'{what}: result')
            elif op[0] == 'get':
                check_eq(p.observe(pm, path), m.cfg[path], f'{what}: object')
            elif op[0] == 'observe':
                for q in paths:
                    compare(q, what)
            if op[4:] and len(op) > 5 and op[5] or case['full']:
                compare(path, what)
            tags.add(op[0] + ':' + it.kind)
        for q in paths:
            compare(q, 'at the end')
        return Info(max(touched.values(), default=0) >= 2, *sorted(tags))


SUBS = [Sub('history', histories(), run, quick=900, thorough=40000),
        # data frames, arrays and other values which have no plain ==
        Sub('frames', histories(vals=st.one_of(frames.all_values, frames.all_values, vals)), run, quick=300, thorough=10000)]
