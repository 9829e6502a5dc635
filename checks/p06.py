"""P06: configuration precedence."""
import os

from hypothesis import strategies as st

from lib import gen, proj
from lib.vh import Info, Sub, World, check, check_eq

PROPERTY = 'P06'
TECHNIQUE = 'property-based testing: generated assignments of values to levels, by files and by updates, against the precedence rule'
LEVEL_NOTE = ('Random trees (up to three nested sections, mixed lists, specific class dicts), random values at every level written to files or set by update, reset and '
              'refresh in between; every item is loaded at a random point of the history by get, run, running its section, or attribute access.')
RULE = 'a case is a project, values for levels and a history; non-trivial when an item was loaded for which two different levels set the same argument'
ASSUMPTIONS = ['values set at section or local level after an item was loaded, and those of the item itself where a section sets the same key, are the subject of a known finding']

ARG_POOL = ['a', 'b', 'value']
KEYS = ['a', 'a', 'b', 'b', 'value', 'extra', 'other_key']


@st.composite
def cases(draw, max_ops=12):
    spec = draw(proj.projects(odd_spec_names=True, min_params=1, max_params=3, funcs=(1, 3), classes=(0, 2), specs=(0, 1), max_depth=4, max_sections=2, arg_names=ARG_POOL, mixed=draw(st.booleans())))
    n = st.integers(0, 60)
    falsy = st.sampled_from([None, '', 0, []])
    # the number of the assignment, so that every value tells where it comes from, or something falsy
    value = st.one_of(st.just('id'), st.just('id'), st.just('id'), falsy.map(lambda v: ['v', v]))
    sets = st.lists(st.tuples(st.sampled_from(KEYS), value), min_size=1, max_size=4)
    files = draw(st.lists(st.tuples(st.sampled_from(['root', 'section', 'section', 'section', 'item']), n, sets), min_size=draw(st.integers(0, 5)), max_size=6))
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just('update'), st.sampled_from(['section', 'section', 'item', 'local']), n, sets, st.sampled_from(['dict', 'kw']), st.booleans()),
        st.tuples(st.sampled_from(['reset', 'refresh']), st.sampled_from(['section', 'item', 'local']), n),
        st.tuples(st.just('load'), st.sampled_from(['get', 'run', 'attr', 'get', 'runsection', 'config']), n),
        st.tuples(st.just('look'), st.just('section'), n),
        st.tuples(st.just('reload'), st.just(''), st.just(0)),
    ), min_size=draw(st.integers(0, 6)), max_size=max_ops))
    return dict(spec=spec, files=files, ops=ops, spec_files=draw(st.booleans()), drop=draw(st.one_of(st.none(), n)), focus=draw(n))


def run(case):
    with World() as w:
        p = proj.Proj(w, case['spec']).write()
        pm = p.manager()
        count = [100]

        def values(sets):
            out = {}
            for k, v in sets:
                count[0] += 1
                out[k] = count[0] if v == 'id' else v[1]
            return out

        secs = p.section_paths()
        if case['spec_files']:
            # no section.py is scaffolded for these, but the user may add one
            secs = secs + p.spec_section_paths()
        paths = sorted(p.items)
        usable = [q for q in paths if any(a != p.items[q].key for a in p.items[q].args)] or paths
        # two thirds of the history are about one item and the sections around it
        focus = usable[case['focus'] % len(usable)]
        around = [s for s in secs if focus.startswith(s + '.')]

        def choose(candidates, close, n):
            close = [x for x in candidates if x in close]
            return (close if close and n % 3 else candidates)[n // 3 % len(close if close and n % 3 else candidates)]
        item_files = {q: dict(p.items[q].defaults) for q in paths}
        files = {s: {} for s in secs}
        files['<root>'] = {}
        for level, n, sets in case['files']:
            u = values(sets)
            if level == 'item':
                q = choose(usable, [focus], n)
                item_files[q].update({k: v for k, v in u.items() if k != p.items[q].key})
            elif level == 'section' and secs:
                files[choose(secs, around, n)].update(u)
            else:
                files['<root>'].update(u)

        def render(d):
            return 'from pyfileconf import Selector\n\ns = Selector()\n' + ''.join(f'{k} = {v!r}\n' for k, v in d.items())

        def file_of(level):
            return 'proj/defaults/' + ('' if level == '<root>' else level.replace('.', '/') + '/') + 'section.py'
        for level, d in files.items():
            if d or case['spec_files']:
                w.write(file_of(level), render(d))
        for q, d in item_files.items():
            if d != p.items[q].defaults:
                w.write(p.config_file(q), render(d))
        if case['drop'] is not None and secs and not files[secs[case['drop'] % len(secs)]]:
            # comes back by load
            os.remove(w.path(file_of(secs[case['drop'] % len(secs)])))
        pm.reload()
        has_file = {s for s in secs if os.path.exists(w.path(file_of(s)))}
        tags, state, loaded = set(), {}, {}

        def fresh():
            state.clear()
            loaded.clear()
            for s, d in files.items():
                state[s] = [dict(d), {}]
            for q, d in item_files.items():
                state[q] = [dict(d), {}]
            state['<local>'] = [{}, {}]
        fresh()

        def levels(q):
            parts = q.split('.')
            return [q, '<root>'] + ['.'.join(parts[:i]) for i in range(1, len(parts)) if '.'.join(parts[:i]) in state] + ['<local>']

        def expected(q):
            out = {}
            for level in levels(q):
                for a in p.items[q].args:
                    if a in state[level][0]:
                        out[a] = state[level][0][a]
            for a in p.items[q].args:
                setters = [x for x in levels(q)[1:] if a in state[x][0]]
                for x in setters:
                    tags.add('set by ' + ('section' if x not in ('<root>', '<local>') else x))
                if len(setters) > 1:
                    tags.add('contested')
                if len([x for x in setters if x not in ('<root>', '<local>')]) > 1:
                    tags.add('nested sections contested')
            return out

        def first_load(q, how, what):
            it = p.items[q]
            want = expected(q)
            if it.key and it.key in {k for x in levels(q)[1:] for k in state[x][0]}:
                return
            if how == 'run':
                check_eq(pm.run(q), p.result(q, want), f'{what}: result of {q}')
            elif how == 'attr':
                x = pm
                for part in q.split('.'):
                    x = getattr(x, part)
                check_eq(dict(x.keywords) if it.kind == 'func' else {a: getattr(x, a) for a in it.args}, want, f'{what}: {q} by attribute')
            elif how == 'config':
                check_eq({a: v for a, v in pm.config.get(q).items() if a in it.args}, want, f'{what}: config.get({q!r})')
            check_eq(p.observe(pm, q), want, f'{what}: object of {q}')
            check_eq(pm.run(q), p.result(q, want), f'{what}: result of {q}')
            check_eq(p.config(pm, q), want, f'{what}: config of {q}')
            if it.kind == 'func':
                check_eq(sorted(pm.get(q).keywords), sorted(it.args), f'{what}: arguments passed to {q}')
            else:
                for k in ('extra', 'other_key'):
                    check(not hasattr(pm.get(q), k), f'{what}: {q} got {k}, which is not an argument')
            loaded[q] = want
            tags.add('load:' + how)

        for i, op in enumerate(case['ops']):
            what = f'step {i} {op}'
            if op[0] == 'reload':
                pm.reload()
                fresh()
                continue
            if op[0] == 'load':
                q = choose(usable, [focus], op[2])
                if op[1] == 'runsection':
                    sec = q.rsplit('.', 1)[0]
                    inside = [x for x in paths if x.startswith(sec + '.')]
                    if any(x in loaded for x in inside) or any(p.items[x].kind == 'spec' for x in inside):
                        continue
                    wants = {x: expected(x) for x in inside}
                    flat, stack = [], [pm.run(sec)]
                    while stack:
                        r = stack.pop(0)
                        if isinstance(r, list) and len(r) == 2 and isinstance(r[0], str) and isinstance(r[1], dict):
                            flat.append(r)
                        else:
                            stack = list(r) + stack
                    order = [q for q, _ in flatten(p, sec)]
                    check_eq(flat, [p.result(x, wants[x]) for x in order], f'{what}: results of {sec}')
                    for x in inside:
                        loaded[x] = wants[x]
                        check_eq(p.observe(pm, x), wants[x], f'{what}: object of {x} after running {sec}')
                    tags.add('load:section')
                elif q not in loaded:
                    first_load(q, op[1], what)
                continue
            if op[1] == 'local':
                target = None
                level = '<local>'
            elif op[1] == 'section':
                cand = [s for s in secs if s in has_file]
                if not cand:
                    continue
                target = level = choose(cand, around + [focus], op[2])
            else:
                cand = [q for q in usable if q not in loaded]
                if not cand:
                    continue
                target = level = choose(cand, around + [focus], op[2])
            if op[0] == 'look':
                # reading a section's config must not change what items get
                pm.config.get(target)
                continue
            if op[0] == 'update':
                u = values(op[3])
                if op[1] == 'item':
                    u = {k: v for k, v in u.items() if k != p.items[target].key}
                if not u:
                    continue
                kw = {} if op[5] else {'pyfileconf_persist': False}
                if op[4] == 'dict':
                    pm.update(u, section_path_str=target, **kw)
                else:
                    pm.update(section_path_str=target, **u, **kw)
                if op[1] == 'item':
                    u = {k: v for k, v in u.items() if k in state[level][0]}
                state[level][0].update(u)
                if op[5]:
                    state[level][1].update(u)
                tags.add('update ' + op[1])
            elif op[0] == 'reset':
                pm.reset(target) if target else pm.runner.reset()
                state[level] = [dict(files[level] if op[1] == 'section' else item_files[level] if op[1] == 'item' else {}), {}]
                tags.add('reset ' + op[1])
            elif op[0] == 'refresh':
                if target is None:
                    continue
                pm.refresh(target)
                state[level][0] = {**(files[level] if op[1] == 'section' else item_files[level]), **state[level][1]}
                tags.add('refresh ' + op[1])
        for i, q in enumerate(paths):
            if q not in loaded:
                first_load(q, ['get', 'run', 'attr', 'config'][i % 4], 'at the end')
        return Info('contested' in tags, *sorted(tags))


def flatten(p, sec):
    out = []
    for sub, is_sec in p.members(sec):
        out += flatten(p, sub) if is_sec else [(sub, None)]
    return out


SUBS = [Sub('precedence', cases(), run, quick=700, thorough=40000)]
