"""P13: run_product runs exactly the cartesian product."""
import copy
import itertools

from hypothesis import strategies as st

from lib import frames, model, proj
from lib.vh import Info, Sub, Violation, World, check, check_eq

PROPERTY = 'P13'
TECHNIQUE = 'property-based testing: generated update lists against itertools.product over a reference model; differential between the list, generator and not-collecting forms'
LEVEL_NOTE = ('Random projects (one or two managers with the same names), prior updates, update lists with repeated and interleaved section paths, several run '
              'items (items, sections, views); the execution log, the cases, the results and the untouched configs are compared with the product of the model. A sub-check uses data frames, arrays and objects which cannot be compared as values.')
RULE = 'a case is a project, prior updates, an update list and the items to run; non-trivial when the product has at least two cases and an updated item is run'
ASSUMPTIONS = ['updates target items by string path', 'running a one-element list of items may give the bare result or a list of it',
               'results of items which change their arguments in place are not compared, only the updates of the caller']

vals = plain_vals = st.integers(2, 5)


@st.composite
def cases(draw, vals=vals):
    spec = draw(proj.projects(odd_spec_names=True, vals=plain_vals, funcs=(1, 3), classes=(0, 2), specs=(0, 1), min_params=1, max_params=3, max_sections=2, max_depth=2))
    pair = st.tuples(st.integers(0, 3), vals)
    return dict(
        spec=spec, two=draw(st.booleans()),
        prior=draw(st.lists(st.tuples(st.integers(0, 20), pair, st.booleans()), max_size=3)),
        loaded=draw(st.lists(st.integers(0, 20), max_size=2)),
        focus=draw(st.lists(st.integers(0, 20), min_size=1, max_size=3)),
        updates=draw(st.lists(st.tuples(st.integers(0, 2), st.lists(pair, max_size=2)), min_size=0, max_size=6)),
        runs=draw(st.lists(st.tuples(st.integers(0, 1), st.integers(0, 30), st.booleans()), min_size=1, max_size=3)),
        route=draw(st.sampled_from(['run_product', 'runner'])),
        single=draw(st.booleans()), skip=draw(st.integers(0, 3)), second=draw(st.sampled_from(['run', 'gen', 'nocollect'])),
        reuse=draw(st.lists(st.tuples(st.sampled_from(['run', 'gen', 'nocollect', 'part', 'fail']), st.integers(0, 5), st.booleans()), max_size=3)),
        kind=draw(st.sampled_from(['list', 'tuple'])))


class Boom(Exception):
    pass


class FailingLog(frames.Log):
    """The log of the items, which lets the item fail which would write entry number `at`."""
    def __init__(self, entries, at):
        super().__init__(entries)
        self.at = at

    def append(self, x):
        if len(self) == self.at:
            raise Boom()
        super().append(x)


def run(case):
    with World() as w:
        route = case['route']
        p = proj.Proj(w, case['spec']).write()
        frames.install()
        pms = {'pm': frames.Manager(p.manager())}
        if case['two'] and route == 'runner':
            p2 = proj.Proj(w, case['spec'], folder='proj2', name='pm2')
            p2.write()
            pms['pm2'] = frames.Manager(p2.manager())
        full = [f'{m}.{q}' for m in pms for q in p.items]
        mod = model.CfgModel({f'{m}.{q}': it.defaults for m in pms for q, it in p.items.items()})
        secs = p.section_paths() + p.spec_section_paths()
        full_targets = full + [f'{m}.{s}' for m in pms for s in secs]

        def rel(f):
            return f.split('.', 1)[1]

        def args(f):
            it = p.items[rel(f)]
            return [a for a in it.args if a != it.key]

        usable = [f for f in full if args(f)]
        if not usable:
            return Info(False)
        for i, (k, v), persist in case['prior']:
            f = usable[i % len(usable)]
            u = {args(f)[k % len(args(f))]: v}
            pms[f.split('.')[0]].update(u, rel(f), pyfileconf_persist=persist)
            mod.update(f, u, persist)
        for i in case['loaded']:
            f = full[i % len(full)]
            pms[f.split('.')[0]].get(rel(f))

        targets = [usable[i % len(usable)] for i in case['focus']]
        updates, groups = [], {}
        for i, pairs in case['updates']:
            f = targets[i % len(targets)]
            u = {args(f)[k % len(args(f))]: v for k, v in pairs}
            name = f if route == 'runner' else rel(f)
            updates.append(dict(section_path_str=name, **u))
            groups.setdefault(f, []).append(u)
        prod = list(itertools.product(*groups.values()))
        if len(prod) > 40:
            return Info(False)

        runs = []
        for which, i, as_view in case['runs']:
            # prefer running something that is updated
            pool = targets if which == 0 else full_targets
            runs.append((pool[i % len(pool)], as_view))
        if case['single']:
            runs = runs[:1]
        sel = w.p.Selector()

        def as_arg(f, as_view):
            if not as_view:
                return f if route == 'runner' else rel(f)
            v = sel
            for part in f.split('.'):
                v = getattr(v, part)
            return v

        def expected(cfg, f):
            if rel(f) in p.items:
                r = p.result(rel(f), cfg[f])
                return r, [r]
            out, log = [], []
            for sub, _ in p.members(rel(f)):
                r, l = expected(cfg, f.split('.')[0] + '.' + sub)
                out.append(r)
                log += l
            return out, log

        want, skipped = [], []
        for n, combo in enumerate(prod):
            cfg = copy.deepcopy(mod.cfg)
            for f, u in zip(groups, combo):
                cfg[f].update(u)
            confs = tuple(dict(section_path_str=f if route == 'runner' else rel(f), **u) for f, u in zip(groups, combo))
            rs = [expected(cfg, f) for f, _ in runs]
            want.append((confs, [r for r, _ in rs], [x for _, l in rs for x in l], cfg))

        run_arg = [as_arg(*r) for r in runs]
        if case['single']:
            run_arg = run_arg[0]
        given = frames.real(updates if case['kind'] == 'list' else tuple(updates))
        before = copy.deepcopy(frames.encoded(given))

        class Chosen(w.p.IterativeRunner):
            def should_run(self, c):
                keep = not case['skip'] or (self.n + 1) % (case['skip'] + 1)
                self.n += 1
                return bool(keep)
        Chosen.n = 0

        def compare(got, sofar, wanted, what):
            got = frames.encoded(got)
            check_eq(len(got), len(wanted), f'{what}: number of cases')
            for n, ((c, r), (confs, rs, _, _)) in enumerate(zip(got, wanted)):
                check_eq(tuple(c), confs, f'{what}: case {n}')
                if len(rs) == 1:
                    check(r == rs[0] or (not case['single'] and r == rs), f'{what}: result of case {n} {confs}', actual=r, expected=rs[0])
                else:
                    check_eq(r, rs, f'{what}: result of case {n} {confs}')

        def log_of(wanted):
            return [x for _, _, l, _ in wanted for x in l]

        def restore():
            for f in groups:
                m = f.split('.')[0]
                pms[m].update({a: mod.cfg[f][a] for a in args(f)}, rel(f), pyfileconf_persist=False)

        modes = ['run', case['second']]
        for mode in modes:
            start = len(p.log.LOG)
            wanted = want
            if route == 'runner':
                r = Chosen(run_arg, given)
                if case['skip']:
                    wanted = [x for n, x in enumerate(want) if (n + 1) % (case['skip'] + 1)]
                call = {'run': r.run, 'gen': r.run_gen, 'nocollect': lambda: r.run(collect_results=False)}[mode]
            else:
                call = {'run': lambda: pms['pm'].pm.run_product(run_arg, given), 'gen': lambda: pms['pm'].pm.run_product_gen(run_arg, given),
                        'nocollect': lambda: pms['pm'].pm.run_product(run_arg, given, collect_results=False)}[mode]
            if mode == 'gen':
                got = []
                for n, x in enumerate(call()):
                    got.append(x)
                    check_eq(p.log.LOG[start:], log_of(wanted[:n + 1]), f'generator: executions up to case {n}')
            else:
                got = call()
            check_eq(p.log.LOG[start:], log_of(wanted), f'{mode}: executions')
            if mode == 'nocollect':
                check_eq(got, [], 'collect_results=False: result')
            else:
                compare(got, None, wanted, mode)
            check_eq(frames.encoded(given), before, f'{mode}: the caller\'s updates')
            for f in full:
                if f not in groups:
                    check_eq(p.config(pms[f.split('.')[0]], rel(f)), mod.cfg[f], f'{mode}: config of {f}, which is not in the updates')
            restore()
        if case['reuse']:
            # One runner used several times: every use runs the same cases
            runner = w.p.IterativeRunner(run_arg, given) if route == 'runner' else None
            for how, k, restored in case['reuse']:
                if runner is None:
                    runner = w.p.IterativeRunner(
                        [f'pm.{x}' if isinstance(x, str) else x for x in (run_arg if isinstance(run_arg, list) else [run_arg])],
                        [{**u, 'section_path_str': 'pm.' + u['section_path_str']} for u in given]) 
                start = len(p.log.LOG)
                wanted = want
                if route != 'runner':
                    wanted = [(tuple({**c, 'section_path_str': 'pm.' + c['section_path_str']} for c in cs), *rest) for cs, *rest in want]
                stop = k % (len(want) + 1)
                what = f'the same runner again ({how})'
                if how == 'run':
                    compare(runner.run(), None, wanted, what)
                elif how == 'nocollect':
                    check_eq(runner.run(collect_results=False), [], what)
                elif how == 'gen':
                    compare(list(runner.run_gen()), None, wanted, what)
                elif how == 'part':
                    g = runner.run_gen()
                    compare(list(itertools.islice(g, stop)), None, wanted[:stop], what)
                    g.close()
                    wanted = wanted[:stop]
                elif how == 'fail':
                    total = len(log_of(want))
                    if not total:
                        continue
                    p.log.LOG = FailingLog(p.log.LOG, start + k % total)
                    try:
                        runner.run()
                        raise Violation(f'{what}: the error of a run item does not reach the caller')
                    except Boom:
                        pass
                    got = list(p.log.LOG)
                    check_eq(got[start:], log_of(want)[:k % total], f'{what}: executions before the error')
                    p.log.LOG = frames.Log(got)
                if how != 'fail':
                    check_eq(p.log.LOG[start:], log_of(wanted), f'{what}: executions')
                if restored:
                    restore()
        updated_run = any(g == f or g.startswith(f + '.') for g in groups for f, _ in runs)
        return Info(len(prod) > 1 and updated_run, route, case['second'], 'skip' if case['skip'] and route == 'runner' else '', 'two managers' if len(pms) > 1 else '')


# --------------------------------------------------------------------------- #
# Items which work on the values they are given in place: the updates of the caller stay what they were

@st.composite
def inplace_cases(draw):
    value = st.recursive(st.lists(st.integers(0, 3), max_size=2), lambda inner: st.one_of(st.lists(inner, min_size=1, max_size=2), st.fixed_dictionaries(dict(k=inner))), max_leaves=3)
    return dict(updates=draw(st.lists(st.tuples(st.sampled_from(['f', 'K', 'g']), value), min_size=1, max_size=4)), runs=draw(st.lists(st.sampled_from(['f', 'K', 'g', 'sec']), min_size=1, max_size=2, unique=True)),
                how=draw(st.sampled_from(['run', 'gen', 'nocollect', 'runner', 'twice'])), kind=draw(st.sampled_from(['list', 'tuple'])))


INPLACE = """LOG = []


def work(x):
    LOG.append(1)
    while isinstance(x, dict) or (x and isinstance(x[0], (list, dict))):
        x = x['k'] if isinstance(x, dict) else x[0]
    x.append(7)


def f(a=None, b=1):
    work(a) if a is not None else None
    return b


def g(a=None):
    work(a) if a is not None else None


class K:
    def __init__(self, a=None):
        self.a = a

    def __call__(self):
        work(self.a) if self.a is not None else None
"""


def run_inplace(case):
    with World() as w:
        src = w.module('gm_src', INPLACE)
        w.write('proj/pipeline_dict.py', 'from gm_src import f, g, K\n\npipeline_dict = {"sec": [f, g, K]}\n')
        pm = w.manager()
        prefix = 'pm.sec.' if case['how'] == 'runner' else 'sec.'
        items = [(prefix + r) if r != 'sec' else prefix[:-1] for r in case['runs']]
        given = (list if case['kind'] == 'list' else tuple)({'section_path_str': prefix + name, 'a': value} for name, value in copy.deepcopy(case['updates']))
        before = copy.deepcopy(given)
        n = 1
        for name in {u[0] for u in case['updates']}:
            n *= sum(u[0] == name for u in case['updates'])
        if case['how'] == 'runner':
            got = len(w.p.IterativeRunner(items, given).run())
        elif case['how'] == 'gen':
            got = len(list(pm.run_product_gen(items, given)))
        elif case['how'] == 'nocollect':
            got = n + len(pm.run_product(items, given, collect_results=False))
        else:
            got = len(pm.run_product(items, given))
            if case['how'] == 'twice':
                check_eq(given, before, 'the updates of the caller after the first product')
                got = len(pm.run_product(items, given))
        check_eq(given, before, 'the updates of the caller')
        check_eq(got, n, 'number of cases')
        return Info(getattr(src, 'LOG', None), case['how'])


SUBS = [Sub('product', cases(), run, quick=1200, thorough=60000),
        # data frames, arrays and other values which have no plain ==
        Sub('frames', cases(vals=st.one_of(frames.all_values, frames.all_values, vals)), run, quick=200, thorough=8000),
        Sub('inplace', inplace_cases(), run_inplace, quick=60, thorough=2000)]
