"""P11: all access routes to an item agree."""
from hypothesis import strategies as st

from lib import gen, model, proj
from lib.vh import Info, Sub, Violation, World, check, check_eq

PROPERTY = 'P11'
TECHNIQUE = 'metamorphic and model-based testing: every operation of a generated history goes through a randomly chosen access route and must equal the same operation by section path'
LEVEL_NOTE = ('One or two managers (same section and item names), deep and mixed trees, items named like sections; routes: path, attributes of the manager (also through kept section '
              'handles), Selector attributes, Selector call, ItemView construction, kept and fresh selectors and views; misspelt and partial lookups in between; membership over all paths and their mutations.')
RULE = 'a case is a project and an interleaving of accesses; non-trivial when at least three routes are used after at least one config change'
ASSUMPTIONS = ['selectors see the structure of their creation time: new items need a new Selector', 'methods of specific class objects count as members (they are callable through views)']

ARG_POOL = ['a', 'b', 'd', 'value', 'E']
vals = st.one_of(st.integers(2, 6), st.sampled_from(['txt', '']), st.none(), st.lists(st.integers(2, 3), max_size=2))


@st.composite
def cases(draw):
    spec = draw(proj.projects(odd_spec_names=True, vals=vals, min_params=1, max_params=3, max_sections=2, classes=(0, 2), specs=(0, 2), arg_names=ARG_POOL, mixed=draw(st.booleans()), max_depth=4))
    one = st.tuples(st.sampled_from(['get', 'get', 'run', 'run', 'update', 'update', 'update', 'reset', 'below', 'section', 'typo', 'partial', 'list', 'typo']),
                    st.integers(0, 40), st.integers(0, 11), st.integers(0, 3), vals)
    ops = draw(st.lists(one, min_size=6, max_size=16))
    focus = draw(st.integers(0, 40))
    ops = [[o[0], focus if draw(st.integers(0, 2)) else o[1]] + list(o[2:]) for o in ops]
    return dict(spec=spec, two=draw(st.booleans()), ops=ops, reload_at=draw(st.integers(0, 20)))


def run(case):
    with World() as w:
        projects = {}
        for name, folder in [('pm', 'proj'), ('pm2', 'proj2')][:2 if case['two'] else 1]:
            projects[name] = proj.Proj(w, case['spec'], folder=folder, name=name)
            projects[name].write()
        p = projects['pm']
        pms = {n: q.manager() for n, q in projects.items()}
        full = [f'{n}.{q}' for n, pr in projects.items() for q in pr.items]
        m = model.CfgModel({f: p.items[f.split('.', 1)[1]].defaults for f in full})
        sections = [f'{n}.{s}' for n, pr in projects.items() for s in pr.section_paths() + pr.spec_section_paths()]
        if not full:
            return Info(False)
        keep = {'sel': w.p.Selector(), 'views': {}, 'handles': {}}

        def chain(o, f):
            for part in f.split('.'):
                o = getattr(o, part)
            return o

        def rel(f):
            return f.split('.', 1)[1]

        def pm_of(f):
            return pms[f.split('.')[0]]

        def view(f, route):
            if route == 3:
                return chain(keep['sel'], f)
            if route == 4:
                return chain(w.p.Selector(), f)
            if route == 5:
                return w.p.ItemView.from_section_path_str(f)
            if route == 6:
                return w.p.ItemView(f)
            if route == 7:
                return keep['sel'](f)
            if route == 8:
                sec, name = f.rsplit('.', 1)
                return getattr(w.p.ItemView(sec, keep['sel']), name)
            return keep['views'].setdefault(f, chain(keep['sel'], f))

        def access(f, route):
            """The configured object, by some route."""
            pm = pm_of(f)
            if route == 0:
                return pm.get(rel(f))
            if route == 1:
                return chain(pm, rel(f))
            if route == 2:
                sec, name = rel(f).rsplit('.', 1)
                h = keep['handles'].setdefault(f.rsplit('.', 1)[0], chain(pm, sec))
                return getattr(h, name)
            if route == 10:
                return pm.get(view(f, 3))
            if route == 11:
                return pm.get(view(f, 9))
            return view(f, route).item

        def item(f):
            return p.items[rel(f)]

        def values(f, o):
            return dict(o.keywords) if item(f).kind == 'func' else {a: getattr(o, a) for a in item(f).args}

        routes, changed, tags = set(), 0, set()
        objects = {}
        for n, (op, i, route, k, val) in enumerate(case['ops']):
            if n == case['reload_at']:
                for pm in pms.values():
                    pm.reload()
                m.reload()
                objects.clear()
                keep['handles'].clear()     # handles of sections belong to one load
            f = full[i % len(full)]
            it, pm = item(f), pm_of(f)
            what = f'step {n} {op} {f} by route {route}'
            args = [a for a in it.args if a != it.key]
            tags.add(f'{op}')
            if op == 'get':
                o = access(f, route)
                check(objects.setdefault(f, o) is o, f'{what}: another object than by the other routes', actual=o, expected=objects[f])
                check(pm.get(rel(f)) is o, f'{what}: another object than get')
                check_eq(values(f, o), m.cfg[f], f'{what}: values')
            elif op == 'run':
                if route < 2:
                    got = pm.run(rel(f))
                elif route < 9:
                    got = pm.run(view(f, max(route, 3)))
                elif route == 9:
                    v = view(f, 9)
                    got = v() if it.kind != 'class' else v()()
                elif it.kind == 'func':
                    got = access(f, 1)()
                else:
                    got = pm.run(rel(f))
                check_eq(got, p.result(rel(f), m.cfg[f]), f'{what}: result')
            elif op == 'list':
                other = [g for g in full if g.split('.')[0] == f.split('.')[0]]
                pick = [f, other[(i + k) % len(other)], f][:1 + k % 3]
                got = pm.run([rel(g) if (route + j) % 2 else view(g, 3 + (route + j) % 7) for j, g in enumerate(pick)])
                check_eq(got, [p.result(rel(g), m.cfg[g]) for g in pick], f'{what}: results of {pick}')
            elif op == 'update':
                if not args:
                    continue
                a = args[k % len(args)]
                if route < 3:
                    pm.update({a: val}, rel(f))
                elif route < 6:
                    setattr(view(f, route), a, val)
                elif route < 8:
                    pm.update_batch([{'section_path_str': view(f, route), a: val}])
                elif route == 8:
                    w.p.BatchUpdater().update([{'section_path_str': view(f, 3), a: val}])
                elif route == 9:
                    w.p.BatchUpdater().update([{'section_path_str': f, a: val}])
                else:
                    pm.update_batch([{'section_path_str': rel(f), a: val}])
                changed += m.update(f, {a: val})
            elif op == 'reset':
                if route < 3:
                    pm.reset(rel(f))
                elif route < 10:
                    pm.reset(view(f, route))
                else:
                    w.p.BatchUpdater().reset([view(f, 3) if route == 10 else f])
                changed += m.reset(f)
            elif op == 'below':
                if it.kind == 'func' or not it.args:
                    continue
                a = it.args[k % len(it.args)]
                got = [getattr(access(f, route), a), getattr(view(f, max(3, min(route, 9))), a), chain(keep['sel'], f'{f}.{a}'), w.p.ItemView.from_section_path_str(f'{f}.{a}'), w.p.ItemView(f'{f}.{a}').item]
                for x, how in zip(got, ['object', 'view', 'selector', 'from_section_path_str', 'ItemView of the attribute']):
                    check_eq(x, m.cfg[f][a], f'{what}: attribute {a} through {how}')
            elif op == 'section':
                if not sections:
                    continue
                s = sections[i % len(sections)]
                pr = projects[s.split('.')[0]]
                if pr.has_mixed(rel(s)) or any(x.kind == 'class' for q, x in pr.items.items() if q.startswith(rel(s) + '.')):
                    continue
                a, b = pm_of(s).get(rel(s)), pm_of(s).get(view(s, 3 + route % 7))

                def same(x, y):
                    if isinstance(x, dict):
                        check(isinstance(y, dict) and list(x) == list(y), f'{what}: section {s} through a view', actual=y, expected=x)
                        for key in x:
                            same(x[key], y[key])
                    elif isinstance(x, list):
                        check(isinstance(y, list) and len(x) == len(y), f'{what}: section {s} through a view', actual=y, expected=x)
                        for c, d in zip(x, y):
                            same(c, d)
                    else:
                        check(x is y, f'{what}: section {s} through a view gives another object', actual=y, expected=x)
                same(a, b)
                check_eq(pm_of(s).run(view(s, 3 + route % 7)), pm_of(s).run(rel(s)), f'{what}: running section {s} through a view')
            elif op == 'typo':
                sec, name = rel(f).rsplit('.', 1)
                bad = [f'{sec}.{name}x', f'nope.{name}', f'{sec}.nope.{name}', f'{name}_', f'nope.{rel(f)}'][k]
                if bad in p.items or f'pm.{bad}' in sections:
                    continue
                for how, fn in [('get', lambda: pm.get(bad)), ('attribute', lambda: chain(pm, bad)), ('view', lambda: chain(keep['sel'], f'{pm.name}.{bad}').item),
                                ('run', lambda: pm.run(bad)), ('from_section_path_str', lambda: w.p.ItemView.from_section_path_str(f'{pm.name}.{bad}').item), ('get of a view', lambda: pm.get(w.p.ItemView(f'{pm.name}.{bad}')))][route % 6:][:2]:
                    try:
                        got = fn()
                    except Exception:
                        pass
                    else:
                        raise Violation(f'{what}: {how} of {bad!r} gave {got!r}')
            elif op == 'partial':
                parts = rel(f).split('.')
                o = pm
                for part in parts[:1 + k % len(parts)]:
                    o = getattr(o, part)
                chain(keep['sel'], '.'.join(f.split('.')[:1 + k % len(parts)]))
            routes.add((op, route))
        # membership
        members = set(full) | set(sections) | set(projects)
        for sel in (keep['sel'], w.p.Selector()):
            for f in sorted(members):
                check((f in sel) is True, f'{f!r} is not in the selector')
                check((w.p.SectionPath(f) in sel) is True, f'SectionPath {f!r} is not in the selector')
                parts = f.split('.')
                for bad in {f + 'x', f + '.nope', 'nope.' + f, '.'.join(parts[1:]), '.'.join(parts[:1] + ['nope'] + parts[1:]), '.'.join(parts[:-1] + [parts[-1][:-1]]), '.'.join(parts[:-1] + ['x' + parts[-1]]), f.upper(), '.'.join(parts + parts[-1:]), '.'.join(parts[:-1] + ['nope', parts[-1]])}:
                    if bad and '..' not in bad and not bad.endswith('.') and bad not in members:
                        try:
                            got = bad in sel
                        except Exception as e:
                            raise Violation(f'{bad!r} in selector raised {type(e).__name__}: {e}')
                        check(got is False, f'{bad!r} is in the selector, expected only {sorted(members)}')
                it = p.items.get(f.split('.', 1)[-1])
                for a in it.args if it and it.kind != 'class' else []:
                    check((f'{f}.{a}' in sel) is False, f'the attribute {f}.{a} is in the selector')
        return Info(changed and len({r for _, r in routes}) >= 3, *sorted(tags), 'two' if case['two'] else '')


SUBS = [Sub('routes', cases(), run, quick=500, thorough=25000)]
