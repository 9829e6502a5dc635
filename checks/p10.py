"""P10: run and get results have the documented shape and order."""
import functools

from hypothesis import strategies as st

from lib import gen, model
from lib.proj import Proj, projects
from lib.vh import Info, Sub, Violation, World, check, check_eq, must_raise

PROPERTY = 'P10'
TECHNIQUE = 'property-based testing: generated trees and run / get targets against the tree itself as a model of shape, order and execution log'
LEVEL_NOTE = ('Random projects mixing functions, classes and specific classes (nested, empty and mixed sections), random lists of item and section paths or views '
              'with repetitions, after random config updates; results, the order of executions and object identities are compared with the tree.')
RULE = 'a case is a project and a sequence of run / get targets; non-trivial when a target is a section or a list with two or more entries'
ASSUMPTIONS = ['get() of a section that holds both items and sections raises (documented)']

vals = st.integers(2, 99)


@st.composite
def cases(draw):
    spec = draw(projects(odd_spec_names=True, funcs=(1, 3), classes=(0, 2), specs=(0, 2), vals=vals, allow_empty=draw(st.integers(0, 2)) == 0, mixed=draw(st.booleans()), max_depth=4, max_params=2))
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just('run'), st.integers(0, 60)),
        st.tuples(st.just('runlist'), st.lists(st.integers(0, 60), max_size=4)),
        st.tuples(st.just('get'), st.integers(0, 60)),
        st.tuples(st.just('update'), st.integers(0, 60), st.integers(0, 3), vals),
    ), min_size=1, max_size=8))
    return dict(spec=spec, ops=[list(o) for o in ops], view=draw(st.lists(st.booleans(), min_size=8, max_size=8)), loaded_first=draw(st.booleans()))


def run(case):
    with World() as w:
        p = Proj(w, case['spec']).write()
        pm = p.manager()
        m = model.CfgModel({q: it.defaults for q, it in p.items.items()})
        items, secs = list(p.items), p.section_paths() + p.spec_section_paths()
        targets = items + secs
        if not targets:
            return Info(False)
        hard = False
        tags, loaded = set(), set()
        sel = w.p.Selector()

        def expected(path):
            """(results, executions) of running a path."""
            if path in p.items:
                r = p.result(path, m.cfg[path])
                return r, [r]
            out, log = [], []
            for sub, _ in p.members(path):
                r, l = expected(sub)
                out.append(r)
                log += l
            return out, log

        def as_target(path, k):
            if not case['view'][k % 8] or path not in p.items:
                return path
            view = sel
            for part in ('pm.' + path).split('.'):
                view = getattr(view, part)
            tags.add('view')
            return view

        def ran(call, want, paths, what):
            start = len(p.log.LOG)
            got = call()
            loaded.update(q for q in items if any(q == t or q.startswith(t + '.') for t in paths))
            check_eq(got, want[0], f'{what}: result')
            check_eq(p.log.LOG[start:], want[1], f'{what}: executions')

        def same(got, path, what):
            if path in p.items:
                it = p.items[path]
                if it.kind == 'class' and isinstance(got, functools.partial) and path not in loaded:
                    # a class that was never loaded is handed out uncalled, with its config
                    check_eq(dict(got.keywords), m.cfg[path], f'{what}: arguments of {path}')
                    check(got.func.__name__ == it.tag, f'{what}: not the class {it.tag}', actual=got)
                    return
                check(got is pm.get(path), f'{what}: another object than get({path!r}) gives', actual=got)
                loaded.add(path)
                return
            kids = p.members(path)
            if any(is_sec for _, is_sec in kids):
                check(isinstance(got, dict) and list(got) == [sub.split('.')[-1] for sub, _ in kids], f'{what}: keys of {path}', actual=got, expected=kids)
                for sub, _ in kids:
                    same(got[sub.split('.')[-1]], sub, what)
            else:
                check(isinstance(got, list) and len(got) == len(kids), f'{what}: not the list of members of {path}', actual=got, expected=kids)
                for g, (sub, _) in zip(got, kids):
                    same(g, sub, what)

        for n, op in enumerate(case['ops']):
            if op[0] == 'update':
                cand = [q for q in items if any(a != p.items[q].key for a in p.items[q].args)]
                if cand:
                    q = cand[op[1] % len(cand)]
                    args = [a for a in p.items[q].args if a != p.items[q].key]
                    u = {args[op[2] % len(args)]: op[3]}
                    pm.update(u, q)
                    m.update(q, u)
                continue
            if op[0] == 'run':
                path = targets[op[1] % len(targets)]
                ran(lambda: pm.run(as_target(path, n)), expected(path), [path], f'step {n} run {path}')
                hard = hard or path in secs
                tags.add('section' if path in secs else p.items[path].kind)
            elif op[0] == 'runlist':
                paths = [targets[i % len(targets)] for i in op[1]]
                want = [expected(q) for q in paths]
                ran(lambda: pm.run([as_target(q, n + k) for k, q in enumerate(paths)]), ([r for r, _ in want], [x for _, l in want for x in l]), paths, f'step {n} run {paths}')
                hard = hard or len(paths) > 1
                tags.add('list')
            else:
                path = targets[op[1] % len(targets)]
                if path in secs and p.has_mixed(path):
                    continue
                start = len(p.log.LOG)
                below = [q for q in items if q == path or q.startswith(path + '.')]
                if case['loaded_first']:
                    for q in below:
                        pm.get(q)
                        loaded.add(q)
                if path in p.items:
                    loaded.add(path)
                same(pm.get(as_target(path, n)), path, f'step {n} get {path}')
                check_eq(len(p.log.LOG), start, f'step {n} get {path}: executed items')
                for q in below:
                    check_eq(p.observe(pm, q), m.cfg[q], f'step {n}: values of {q}')
                    loaded.add(q)
                hard = hard or path in secs
                tags.add('get')
        return Info(hard, *sorted(tags), 'mixed' if gen.is_mixed(p.spec['tree']) else '')


SUBS = [Sub('shapes', cases(), run, quick=1000, thorough=50000)]
