"""P14: batch operations equal the sequence of single operations."""
import copy

from hypothesis import strategies as st

from lib import frames, proj
from lib.vh import Info, Sub, Violation, World, check, check_eq

PROPERTY = 'P14'
TECHNIQUE = 'differential property-based testing: the same generated history is executed with batch calls and with single calls in two fresh worlds'
LEVEL_NOTE = ('Random projects (one or two managers), update dictionaries in keyword and d_ form with persistence flags, targets given as string, SectionPath or '
              'ItemView, items and sections, one possibly invalid element; all configs, held objects, application logs, results and files are compared. A sub-check uses data frames, arrays and objects which cannot be compared as values.')
RULE = 'a case is a project and a list of batches; non-trivial when a batch has two or more updates that change a config'
ASSUMPTIONS = ['update() hooks do not fire for batches (documented)', 'ItemViews given to update_batch belong to that manager']

vals = st.one_of(st.integers(2, 6), st.just('txt'), st.lists(st.integers(2, 3), max_size=2))


@st.composite
def cases(draw, vals=vals):
    spec = draw(proj.projects(odd_spec_names=True, vals=vals, min_params=1, max_params=3, max_sections=2, max_depth=2))
    upd = st.fixed_dictionaries(dict(
        t=st.integers(0, 30), kind=st.sampled_from(['str', 'str', 'path', 'view']), form=st.sampled_from(['kw', 'kw', 'd_', 'both']),
        pairs=st.lists(st.tuples(st.integers(0, 3), vals), min_size=1, max_size=3), persist=st.sampled_from([None, True, False]),
        section=st.integers(0, 5).map(lambda i: i == 0), extra=st.integers(0, 5).map(lambda i: i == 0)))
    batch = st.fixed_dictionaries(dict(
        op=st.sampled_from(['update', 'update', 'update', 'reset', 'edit', 'run', 'refresh']), items=st.lists(upd, max_size=5), bad=st.integers(0, 20),
        gen=st.sampled_from(['list', 'list', 'tuple', 'generator'])))
    return dict(spec=spec, two=draw(st.booleans()), route=draw(st.sampled_from(['manager', 'updater'])),
                held=draw(st.lists(st.integers(0, 20), max_size=4)), batches=draw(st.lists(batch, min_size=1, max_size=5)))


def execute(case, batched):
    with World() as w:
        frames.install()
        p = proj.Proj(w, case['spec']).write()
        pms = {'pm': p.manager()}
        if case['two'] and case['route'] == 'updater':
            p2 = proj.Proj(w, case['spec'], folder='proj2', name='pm2')
            p2.write()
            pms['pm2'] = p2.manager()
        sel = w.p.Selector()
        full = [f'{m}.{q}' for m in pms for q in p.items]
        secs = [f'{m}.{s}' for m in pms for s in p.section_paths()]
        route = case['route']

        def rel(f):
            return f.split('.', 1)[1]

        def pm_of(f):
            return pms[f.split('.')[0]]

        held = {}
        for i in case['held']:
            f = full[i % len(full)]
            held[f] = pm_of(f).get(rel(f))
        trace, changes = [], 0

        def state():
            out = {}
            for f in full:
                it = p.items[rel(f)]
                conf = {k: v for k, v in pm_of(f).config.get(rel(f)).items() if k != 's'}
                o = held.get(f)
                seen = None if o is None else (dict(o.keywords) if it.kind == 'func' else {a: getattr(o, a) for a in it.args})
                out[f] = [conf, seen]
            return copy.deepcopy(frames.encoded(out))

        def target(f, kind):
            name = f if route == 'updater' else rel(f)
            if kind == 'str':
                return name
            if kind == 'path':
                return w.p.SectionPath(name)
            v = sel
            for part in f.split('.'):
                v = getattr(v, part)
            return v

        for b in case['batches']:
            todo = []
            for u in b['items']:
                if u['section'] and secs and b['op'] == 'update':
                    f = secs[u['t'] % len(secs)]
                    args = [a for q, it in p.items.items() if q.startswith(rel(f) + '.') for a in it.args if a != it.key]
                else:
                    f = full[u['t'] % len(full)]
                    it = p.items[rel(f)]
                    args = [a for a in it.args if a != it.key]
                kw = {args[i % len(args)]: v for i, v in u['pairs']} if args else {}
                if u['extra']:
                    kw['not_an_arg'] = 3
                first = dict(list(kw.items())[:1])
                d = None
                if u['form'] == 'd_':
                    d, kw = kw, {}
                elif u['form'] == 'both':
                    d, kw = first, {k: v for k, v in kw.items() if k not in first or u['t'] % 2}
                    if u['t'] % 2:
                        d = {k: 'overridden' for k in first}
                extra = {} if u['persist'] is None else {'pyfileconf_persist': u['persist']}
                todo.append((f, u['kind'], frames.real(d), {**frames.real(kw), **extra}))
            if b['bad'] < 2 and todo:
                todo.insert(b['bad'] * len(todo) // 2, (full[0].split('.')[0] + '.not.there', 'str', None, {'a': 3}))
            raised = None
            start = len(p.log.UPDATES), len(p.log.INITS), len(p.log.LOG)
            before = state()
            if b['op'] == 'update':
                dicts = []
                for f, kind, d, kw in todo:
                    x = dict(kw, section_path_str=target(f, kind))
                    if d is not None:
                        x['d_'] = d
                    dicts.append(x)
                plain = [{k: copy.deepcopy(frames.encoded(v)) for k, v in x.items() if k != 'section_path_str'} for x in dicts]
                targets = [x['section_path_str'] for x in dicts]
                given = {'list': lambda: dicts, 'tuple': lambda: tuple(dicts), 'generator': lambda: (x for x in dicts)}[b['gen']]()
                try:
                    if not batched:
                        for f, kind, d, kw in todo:
                            pm_of(f).update(*([d] if d is not None else []), section_path_str=rel(f), **kw)
                    elif route == 'manager':
                        pms['pm'].update_batch(given)
                    else:
                        w.p.BatchUpdater().update(given)
                except Exception as e:
                    raised = type(e).__name__
                if batched:
                    now = [{k: frames.encoded(v) for k, v in x.items() if k != 'section_path_str'} for x in dicts]
                    check_eq(now, plain, 'the update dictionaries passed to the batch')
                    check(all(x.get('section_path_str') is t for x, t in zip(dicts, targets)), 'the batch replaced section_path_str in the passed dictionaries', actual=dicts)
            elif b['op'] == 'reset':
                try:
                    if batched:
                        if route == 'manager':
                            bu = w.p.BatchUpdater(base_section_path_str='pm', strip_manager_from_iv=True)
                        else:
                            bu = w.p.BatchUpdater()
                        names = [target(f, k) for f, k, _, _ in todo]
                        bu.reset({'list': lambda: names, 'tuple': lambda: tuple(names), 'generator': lambda: iter(names)}[b['gen']]())
                    else:
                        for f, k, _, _ in todo:
                            pm_of(f).reset(rel(f))
                except Exception as e:
                    raised = type(e).__name__
            else:
                for f, _, d, kw in todo:
                    if 'not.there' in f:
                        continue
                    if b['op'] == 'run':
                        trace.append(frames.encoded(pm_of(f).run(rel(f))))
                    elif b['op'] == 'refresh':
                        pm_of(f).refresh(rel(f))
                    else:
                        vals_ = frames.encoded({**(d or {}), **kw})
                        text = w.read(f'{"proj2" if f.startswith("pm2.") else "proj"}/defaults/{rel(f).replace(".", "/")}.py')
                        args = p.items[rel(f)].args
                        text += frames.HEADER if frames.code(vals_) != vals_ else ''
                        text += ''.join(f'{k} = {v!r}\n' for k, v in frames.code(vals_).items() if k in args)
                        w.write(f'{"proj2" if f.startswith("pm2.") else "proj"}/defaults/{rel(f).replace(".", "/")}.py', text)
            after = state()
            if b['op'] in ('update', 'reset') and len(todo) > 1 and sum(before[f] != after[f] for f in full) > 0:
                changes += 1
            trace.append([b['op'], raised, after, copy.deepcopy(frames.encoded(p.log.UPDATES[start[0]:])), copy.deepcopy(frames.encoded(p.log.INITS[start[1]:])), list(p.log.LOG[start[2]:])])
        for f in full:
            trace.append(frames.encoded(pm_of(f).run(rel(f))))
        trace.append({k: v for d in ('proj', 'proj2') for k, v in w.snapshot(d).items()})
        return trace, changes


def run(case):
    a, changes = execute(case, True)
    b, _ = execute(case, False)
    for i, (x, y) in enumerate(zip(a, b)):
        check_eq(x, y, f'observation {i} (batch call vs single calls)')
    return Info(changes, case['route'], 'two' if case['two'] and case['route'] == 'updater' else '', *[x['op'] for x in case['batches']])


SUBS = [Sub('batch', cases(), run, quick=600, thorough=30000),
        # data frames, arrays and other values which have no plain ==
        Sub('frames', cases(vals=st.one_of(frames.all_values, frames.all_values, vals)), run, quick=100, thorough=5000)]
