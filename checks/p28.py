"""P28: the context tells which item is running and which config file is being loaded."""
import importlib
import re
import sys
import types

from hypothesis import strategies as st

from lib import gen
from lib.vh import Info, Sub, World, check

PROPERTY = 'P28'
TECHNIQUE = 'property-based testing: random programs of nested runs, views, selections, updates and failing files in items, constructors and config files of two managers, each of which compares the context with what it was entered for'
LEVEL_NOTE = ('Items, constructors and config files execute generated programs (run of items, lists and sections, get, views, attributes, iterative runners, updates, caught and '
              'uncaught failures); at entry and after every single action they compare the running path, whether a file is being loaded and which, with an explicit shadow stack.')
RULE = 'a case is two projects of programs and a history; non-trivial when the context was looked at within nested runs and within a config file that was loaded while an item was running'
ASSUMPTIONS = ['an item called through a view or as attribute is not started by run: the context keeps naming the item started last',
               'single threaded use: the context is one per process']

LEAVES = ['f0', 'K0', 'f1', 'S0', 'f2', 'K1', 'f3']         # items may use items of later leaves only
ENTRIES = ['e1', 'e2']
ACTS = ['run', 'run', 'run', 'view', 'view', 'attr', 'get', 'runlist', 'runsection', 'getsection', 'iter', 'runview', 'config', 'update', 'fail']


@st.composite
def cases(draw):
    n = st.integers(0, 80)
    names = [x for x in LEAVES if x != 'S0']
    trees = [draw(gen.trees(names, max_depth=3, max_sections=2)), draw(gen.trees(names[2:], max_depth=2, max_sections=1))]
    act = st.tuples(st.sampled_from(ACTS), n, st.booleans())
    programs = {leaf: draw(st.lists(act, min_size=draw(st.integers(0, 2)), max_size=3)) for leaf in LEAVES}
    files = draw(st.lists(st.tuples(n, st.lists(act, min_size=1, max_size=2)), min_size=draw(st.integers(0, 2)), max_size=4))
    inits = {leaf: draw(st.lists(act, max_size=1)) for leaf in LEAVES if leaf[0] != 'f' and draw(st.integers(0, 2)) == 0}
    op = st.tuples(st.sampled_from([a for a in ACTS if a != 'fail'] + ['refresh', 'reset', 'update']), n, st.just(True))
    return dict(trees=trees, specs=draw(st.lists(st.sampled_from(ENTRIES), unique=True, min_size=draw(st.integers(0, 1)), max_size=2)), programs=programs, files=files, inits=inits,
                names=draw(st.sampled_from([['pm', 'pm2'], ['zz', 'a'], ['one', 'onetwo']])), mode=draw(st.sampled_from(['plain', 'plain', 'force'])),
                ops=draw(st.lists(op, min_size=draw(st.integers(1, 6)), max_size=10)))


class Failure(Exception):
    pass


def run(case):
    try:
        with World() as w:
            return run_(case, w)
    finally:
        sys.modules.pop('gm_ctl', None)


def run_(case, w):
    specs, (name0, name1) = case['specs'], case['names']
    ctl = types.ModuleType('gm_ctl')
    sys.modules['gm_ctl'] = ctl
    pms = {}
    paths, secs = [], []
    for m, tree in zip(case['names'], case['trees']):
        paths += [f'{m}.' + '.'.join(s + (l,)) for s, l in gen.leaves(tree)]
        secs += [f'{m}.' + '.'.join(s) for s in gen.sections(tree)]
    paths += [f'{name0}.S.sec.{e}' for e in specs]
    secs += [f'{name0}.S', f'{name0}.S.sec'] if specs else []
    leaf_of = {q: 'S0' if '.S.sec.' in q else q.split('.')[-1] for q in paths}
    in_section = lambda sec: [q for q in paths if q.startswith(sec + '.')]
    mixed = lambda sec: len({q[len(sec) + 1:].count('.') > 0 for q in in_section(sec)}) > 1
    rel = lambda q: q.split('.', 1)[1]

    def resolve(actions, leaf):
        """Actions with their targets, which come later in LEAVES than leaf."""
        later = [q for q in paths if leaf is None or LEAVES.index(leaf_of[q]) > LEAVES.index(leaf)]
        later_secs = [s for s in secs if in_section(s) and all(q in later for q in in_section(s))]
        out = []
        for kind, n, caught in actions:
            if kind in ('runsection', 'getsection'):
                options = [s for s in later_secs if kind == 'runsection' or not mixed(s)]
                if options:
                    sec = options[n % len(options)]
                    out.append((kind, sec, in_section(sec), caught))
            elif kind == 'fail':
                out.append((kind, None, [], caught))
            elif later:
                q = later[n % len(later)]
                if kind == 'runlist':
                    same = [x for x in later if x.split('.')[0] == q.split('.')[0]]
                    both = [q, same[n // 3 % len(same)]]
                    out.append((kind, both, both, caught))
                else:
                    out.append((kind, q, [q], caught))
        return out

    programs = {leaf: resolve(a, leaf) for leaf, a in case['programs'].items()}
    inits = {leaf: resolve(a, leaf) for leaf, a in case['inits'].items()}
    files = {}
    for i, actions in case['files']:
        q = paths[i % len(paths)]
        files[q] = resolve(actions, leaf_of[q])

    # ---- the shadow: what the innermost thing was entered for ---------------------
    running, loading = [None], []
    current = [('none', [])]        # the action under way: (kind, targets)
    problems, looks = [], set()
    RUNS = ('run', 'runlist', 'runsection', 'iter', 'runview')

    def look(where):
        c = w.p.context
        got = (c.currently_running_section_path_str, c.file_is_currently_being_loaded,
               None if c.stack.currently_loading_file_section_path is None else c.stack.currently_loading_file_section_path.path_str)
        want = (running[-1], bool(loading), loading[-1] if loading else None)
        if got != want and not problems:
            problems.append(f'{where}: the context says (running, loading, path of the file) {got}, expected {want}')
        if len(running) > 2 and running[-1] is not None:
            looks.add('nested')
        if loading and running[-1]:
            looks.add('file within run')
        if len(loading) > 1:
            looks.add('nested files')

    def entered(who):
        """What runs when something of item who is entered by the action under way."""
        kind, targets = current[-1]
        return who if kind in RUNS and who in targets else running[-1]

    def perform(actions, where):
        for action in actions:
            kind, q, targets, caught = action
            if kind == 'fail':
                raise Failure(where)
            if loading and kind in ('update', 'iter'):
                continue        # a file which updates what it depends on refreshes itself without end
            try:
                do(kind, q, targets)
            except Failure:
                if not caught:
                    raise
                looks.add('failure')
            finally:
                look(f'{where} after {action[:2]}')

    def do(kind, q, targets):
        pm = pms[targets[0].split('.')[0]]
        s = w.p.Selector()
        current.append((kind, targets))
        try:
            x = s if kind in ('view', 'runview') else pm
            if kind in ('view', 'attr', 'runview'):
                for part in (q if kind != 'attr' else rel(q)).split('.'):
                    x = getattr(x, part)
            if kind in ('run', 'runsection'):
                pm.run(rel(q))
            elif kind == 'runlist':
                pm.run([rel(y) for y in q])
            elif kind == 'runview':
                pm.run(x)
            elif kind == 'iter':
                w.p.IterativeRunner(rel(q), [dict(section_path_str=rel(q), b=v) for v in (1, 2)], base_section_path_str=targets[0].split('.')[0]).run()
            elif kind in ('view', 'attr'):
                if leaf_of[q][0] == 'K' or (kind == 'attr' and leaf_of[q] == 'S0'):
                    x.a
                else:
                    x()
            elif kind in ('get', 'getsection'):
                pm.get(rel(q))
            elif kind == 'config':
                pm.config.get(rel(q))
            elif kind == 'update':
                pm.update(b=5, section_path_str=rel(q))
            else:
                getattr(pm, kind)(rel(q))
        finally:
            current.pop()

    def inside(what, who, actions, is_file=False):
        expected = entered(who)
        if current[-1][0] == 'iter' and what != 'body':
            # the update of a case loads the config and may make the object before the run
            now = w.p.context.currently_running_section_path_str
            expected = now if now in (expected, running[-1]) else expected
        running.append(expected)
        if is_file:
            loading.append(who)
        current.append(('none', []))
        try:
            look(f'{what} of {who}')
            perform(actions, f'{what} of {who}')
        finally:
            current.pop()
            running.pop()
            if is_file:
                loading.pop()

    def body(leaf, who):
        inside('body', who, programs[leaf])
        return who

    ctl.body = body
    ctl.init = lambda leaf, who: inside('constructor', who, inits.get(leaf, []) if len(pms) == 2 else [])
    ctl.file = lambda who: inside('config file', who, files.get(who, []), is_file=True)

    src = 'import gm_ctl\n\n\n'
    for leaf in LEAVES:
        if leaf[0] == 'f':
            src += f'def {leaf}(who=None, b=2):\n    return gm_ctl.body({leaf!r}, who)\n\n\n'
        else:
            name = 'name=None, ' if leaf == 'S0' else ''
            src += (f'class {leaf}:\n\n    def __init__(self, {name}who=None, b=2, a=1):\n        gm_ctl.init({leaf!r}, who)\n        self.who = who\n        self.a = a\n        self.b = b\n'
                    + ('        self.name = name\n' if name else '') + f'\n    def __call__(self):\n        return gm_ctl.body({leaf!r}, self.who)\n\n\n')
    w.module('gm_src', src)
    for i, (m, tree) in enumerate(zip(case['names'], case['trees'])):
        names = sorted({l for _, l in gen.leaves(tree)})
        w.write(f'proj{i}/pipeline_dict.py', f'from gm_src import {", ".join(names)}\n\npipeline_dict = {gen.render_pipeline_dict(tree)}\n')
        spec_arg = None
        if i == 0 and specs:
            w.write('proj0/S_dict.py', f'class_dict = {{"sec": {specs!r}}}\n')
            spec_arg = [{'name': 'S', 'class': importlib.import_module('gm_src').S0, 'key_attr': 'name'}]
        pms[m] = w.manager(f'proj{i}', m, specific_class_config_dicts=spec_arg, **(dict(force_continue=True) if case['mode'] == 'force' else {}))
    for q in paths:
        f = f'proj{case["names"].index(q.split(".")[0])}/defaults/{rel(q).replace(".", "/")}.py'
        old = w.read(f)
        new = re.sub(r'(?m)^who = .*$', lambda m_: f'who = gm_ctl.WHO[{q!r}]', old)
        check(new != old, f'no argument who in {f}: {old!r}')
        w.write(f, f'import gm_ctl\n\n{new}\n\ngm_ctl.file({q!r})\n')
    ctl.WHO = {q: q for q in paths}

    look('before anything')
    for i, (kind, n, _) in enumerate(case['ops']):
        for kind, q, targets, _ in resolve([(kind, n, True)], None):
            what = f'step {i} {kind} {q}'
            try:
                do(kind, q, targets)
            except Failure:
                looks.add('failure')
            look(f'after {what}')
            check(not problems, f'{what}: {"".join(problems[:1])}')
            check(len(running) == 1 and not loading, f'{what}: harness')
    return Info({'nested', 'file within run'} <= looks, *sorted(looks))


SUBS = [Sub('context values', cases(), run, quick=700, thorough=14000)]
