"""P17: a failing item leaves no trace and force_continue isolates it."""
import builtins
import copy
import importlib
import io
import pdb
import sys
import types

from hypothesis import strategies as st

from lib import gen
from lib.vh import Discard, Info, Sub, Violation, World, check, check_eq

PROPERTY = 'P17'
TECHNIQUE = 'fault injection in generated histories: random programs of nested runs with failures switched on and off at random places, against an interpreter of the same programs'
LEVEL_NOTE = ('Items execute generated programs (nested runs, view calls, attribute access, caught or not, prints); failures of many exception types are placed in bodies, '
              'constructors and config files; plain, force_continue and auto_pdb managers, with and without log_stdout. Stack and sys.stdout are compared '
              'around every nested call as well as after every call.')
RULE = 'a case is a project of programs and a history; non-trivial when a failure passed through at least one running item or file and a later run succeeded'
ASSUMPTIONS = ['force_continue works on the entries of the list given to run; a failing section entry has no result',
               'the debug function of auto_pdb is called without arguments while the exception is being handled, as pdb.post_mortem is']

LEAVES = ['f0', 'K0', 'f1', 'S0', 'f2', 'K1', 'f3']       # items may use items of later leaves only
ENTRIES = ['e1', 'e2']
EXCS = ['Custom', 'ValueError', 'KeyError', 'AttributeError', 'RuntimeError', 'RecursionError', 'ImportError', 'StopIteration', 'TypeError', 'OSError', 'NotLoaded',
        'KeyboardInterrupt', 'SystemExit']
FILE_FAILS = ['raise', 'zero', 'name', 'item', 'attr']


class Custom(Exception):
    pass


@st.composite
def cases(draw):
    n = st.integers(0, 40)
    tree = draw(gen.trees([x for x in LEAVES if x != 'S0'], max_depth=2, max_sections=3))
    action = st.one_of(
        st.tuples(st.just('print')),
        st.tuples(st.sampled_from(['run', 'view', 'attr', 'get', 'read', 'runlist', 'runsection']), n, st.booleans()),
        st.tuples(st.sampled_from(['run', 'view', 'attr']), n, st.booleans()),
        st.tuples(st.just('fail')),       # the place where the item fails when it is switched to
    )
    programs = {leaf: draw(st.lists(action, max_size=3)) for leaf in LEAVES}
    calls = draw(st.lists(st.tuples(n, n), max_size=2))     # config files which call an item
    op = st.one_of(
        st.tuples(st.just('run'), n), st.tuples(st.just('run'), n), st.tuples(st.just('get'), n), st.tuples(st.just('section'), n),
        st.tuples(st.just('list'), st.lists(n, min_size=1, max_size=4)), st.tuples(st.just('list'), st.lists(n, min_size=2, max_size=4)),
        st.tuples(st.just('view'), n), st.tuples(st.just('read'), n), st.tuples(st.just('refresh'), n), st.tuples(st.just('reset'), n), st.tuples(st.just('config'), n),
        st.tuples(st.just('switch'), n, st.sampled_from(EXCS), st.sampled_from(['body', 'body', 'init'])),
        st.tuples(st.just('switch'), n, st.sampled_from(EXCS), st.sampled_from(['body', 'body', 'init'])),
        st.tuples(st.just('heal'), n), st.tuples(st.just('healall')),
        st.tuples(st.just('breakfile'), n, st.sampled_from(FILE_FAILS)), st.tuples(st.just('repair'), n),
        st.tuples(st.just('log_stdout'), st.booleans()),
    )
    nothing = draw(st.sets(st.sampled_from(LEAVES), max_size=3))     # items whose result is an empty one
    empty = draw(st.sampled_from([None, None, [], '', 0, False, {}]))
    return dict(nothing=sorted(nothing), empty=empty, tree=tree, specs=draw(st.lists(st.sampled_from(ENTRIES), unique=True, max_size=2)), programs=programs, calls=calls,
                mode=draw(st.sampled_from(['plain', 'plain', 'force', 'force', 'pdb', 'pdb_true'])), ops=draw(st.lists(op, min_size=draw(st.integers(4, 12)), max_size=16)))


class Control(types.ModuleType):
    """What the generated source calls; knows the programs and the failures switched on."""


SOURCE = '''import gm_ctl

{funcs}
'''


def run(case):
    old_stdin, old_pm = sys.stdin, pdb.post_mortem
    try:
        with World() as w:
            return run_(case, w)
    finally:
        sys.stdin, pdb.post_mortem = old_stdin, old_pm
        sys.modules.pop('gm_ctl', None)


def run_(case, w):
    tree, specs = case['tree'], case['specs']
    ctl = Control('gm_ctl')
    ctl.Custom = Custom
    not_loaded = importlib.import_module('pyfileconf.exceptions.pipelinemanager').PipelineManagerNotLoadedException
    sys.modules['gm_ctl'] = ctl
    ctl.LOG, ctl.PROBLEMS, ctl.FAIL, ctl.RAISED = [], [], {}, []
    paths = ['.'.join(s + (l,)) for s, l in gen.leaves(tree)] + [f'S.sec.{e}' for e in specs]
    leaf_of = {q: 'S0' if q.startswith('S.') else q.split('.')[-1] for q in paths}
    secs = ['.'.join(s) for s in gen.sections(tree)] + (['S', 'S.sec'] if specs else [])

    def in_section(sec):
        return [q for q in paths if q.startswith(sec + '.')]

    def targets(leaf):
        later = [q for q in paths if LEAVES.index(leaf_of[q]) > LEAVES.index(leaf)]
        return later, [s for s in secs if all(q in later for q in in_section(s))]

    # the programs, with their targets
    programs = {}
    for leaf, actions in case['programs'].items():
        out = []
        later, later_secs = targets(leaf)
        for a in actions:
            if a[0] in ('run', 'view', 'attr', 'get', 'read', 'runlist'):
                if not later:
                    continue
                q = later[a[1] % len(later)]
                if a[0] in ('view', 'attr') and leaf_of[q][0] == 'K':
                    a = ('run',) + tuple(a[1:])      # views of classes give the object
                out.append((a[0], [q, later[a[1] // 3 % len(later)]] if a[0] == 'runlist' else q, a[2]))
            elif a[0] == 'runsection':
                if later_secs:
                    out.append(('runsection', later_secs[a[1] % len(later_secs)], a[2]))
            else:
                out.append(tuple(a))
        if ('fail',) not in out:
            out.append(('fail',))
        programs[leaf] = out
    calls = {}
    for i, j in case['calls']:
        src = [q for q in paths if leaf_of[q] != 'S0']
        if not src:
            continue
        q = src[i % len(src)]
        later = [x for x in targets(leaf_of[q])[0] if leaf_of[x][0] != 'K']
        if later:
            calls[q] = later[j % len(later)]

    def exc_class(name):
        return {'Custom': Custom, 'file': Custom, 'NotLoaded': not_loaded}.get(name) or getattr(builtins, name)

    def make_exc(name, where):
        return exc_class(name)('failure switched on', where)

    def fail(leaf, where):
        if leaf in ctl.FAIL and ctl.FAIL[leaf][1] == where:
            e = make_exc(ctl.FAIL[leaf][0], leaf)
            ctl.RAISED.append(e)
            raise e

    def body(leaf, a):
        from pyfileconf import Selector, context
        pm = context.active_managers['pm']
        ctl.LOG.append(leaf)
        out = []
        for action in programs[leaf]:
            if action[0] == 'print':
                print('printed by', leaf)
                continue
            if action[0] == 'fail':
                fail(leaf, 'body')
                continue
            kind, q, caught = action
            stdout, frames = sys.stdout, list(context.stack.frames)
            try:
                if kind in ('run', 'runlist', 'runsection'):
                    r = pm.run(q)
                elif kind == 'get':
                    pm.get(q)
                    r = 'got'
                elif kind == 'read':
                    r = read(q)
                else:
                    x = Selector().pm if kind == 'view' else pm
                    for part in q.split('.'):
                        x = getattr(x, part)
                    r = x()
                out.append(r)
            except Exception as e:
                if not caught:
                    raise
                out.append(['caught', type(e).__name__])
            finally:
                if sys.stdout is not stdout:
                    ctl.PROBLEMS.append(f'{leaf}: sys.stdout is another one after {action}')
                if context.stack.frames != frames:
                    ctl.PROBLEMS.append(f'{leaf}: the stack is another one after {action}: {context.stack.frames}')
        return copy.deepcopy(case.get('empty')) if leaf in case.get('nothing', ()) else [leaf, a, out]
    ctl.body, ctl.fail = body, fail

    def read(q):
        """An attribute of the item through a view."""
        x = w.p.Selector().pm
        for part in q.split('.'):
            x = getattr(x, part)
        return x.keywords['a'] if leaf_of[q][0] == 'f' else x.a

    src = 'import gm_ctl\n\n\n'
    for leaf in LEAVES:
        if leaf[0] == 'f':
            src += f'def {leaf}(a=1):\n    return gm_ctl.body({leaf!r}, a)\n\n\n'
        else:
            name = 'name=None, ' if leaf == 'S0' else ''
            src += (f'class {leaf}:\n\n    def __init__(self, {name}a=1):\n        gm_ctl.fail({leaf!r}, "init")\n        self.a = a\n'
                    + ('        self.name = name\n' if name else '') + f'\n    def __call__(self):\n        return gm_ctl.body({leaf!r}, self.a)\n\n\n')
    w.module('gm_src', src)
    leaf_names = [x for x in LEAVES if x != 'S0']
    w.write('proj/pipeline_dict.py', f'from gm_src import {", ".join(leaf_names)}\n\npipeline_dict = {gen.render_pipeline_dict(tree)}\n')
    spec_arg = None
    if specs:
        w.write('proj/S_dict.py', f'class_dict = {{"sec": {specs!r}}}\n')
        spec_arg = [{'name': 'S', 'class': importlib.import_module('gm_src').S0, 'key_attr': 'name'}]
    seen_by_debugger = []
    debug = lambda *a, **k: seen_by_debugger.append(sys.exc_info()[1])
    kw = {'plain': {}, 'force': dict(force_continue=True), 'pdb': dict(auto_pdb=debug), 'pdb_true': dict(auto_pdb=True)}[case['mode']]
    pdb.post_mortem = debug
    pm = w.manager('proj', 'pm', specific_class_config_dicts=spec_arg, **kw)
    mode = case['mode']
    good_text = {}
    for q in paths:
        f = 'proj/defaults/' + q.replace('.', '/') + '.py'
        if q in calls:
            w.write(f, f'from pyfileconf import Selector\n\ns = Selector()\na = s.pm.{calls[q]}()\n')
        good_text[q] = w.read(f)

    # ---- the interpreter ---------------------------------------------------------
    broken = {}
    loaded_file, loaded_obj, values = set(), set(), {}
    log = []

    class Fails(Exception):
        def __init__(self, name, user=False):
            self.name = name        # type of the exception
            self.user = user        # raised as BaseException

    def m_fail(leaf, where):
        if leaf in ctl.FAIL and ctl.FAIL[leaf][1] == where:
            raise Fails(ctl.FAIL[leaf][0])

    def is_user(name):
        return name in ('KeyboardInterrupt', 'SystemExit')

    def m_execute_file(q):
        if q in broken:
            raise Fails({'raise': 'Custom', 'zero': 'ZeroDivisionError', 'name': 'NameError', 'item': 'file', 'attr': 'AttributeError'}[broken[q]])
        if q in calls:
            m_load(calls[q])
            return m_body(calls[q])
        return 1

    def m_file(q):
        if q not in loaded_file:
            values[q] = m_execute_file(q)
            loaded_file.add(q)

    def m_load(q):
        m_file(q)
        if q not in loaded_obj:
            if leaf_of[q][0] == 'K':
                m_fail(leaf_of[q], 'init')
            loaded_obj.add(q)

    def m_body(q):
        leaf = leaf_of[q]
        log.append(leaf)
        out = []
        for action in programs[leaf]:
            if action[0] == 'print':
                continue
            if action[0] == 'fail':
                m_fail(leaf, 'body')
                continue
            kind, t, caught = action
            try:
                if kind in ('run', 'runlist', 'runsection'):
                    out.append(m_pm_run(t))
                elif kind == 'get':
                    m_load(t)
                    out.append('got')
                elif kind == 'read':
                    m_load(t)
                    out.append(values[t])
                else:
                    m_load(t)
                    out.append(m_body(t))
            except Fails as e:
                if not caught or is_user(e.name):
                    raise
                out.append(['caught', exc_class(e.name).__name__])
        return copy.deepcopy(case.get('empty')) if leaf in case.get('nothing', ()) else [leaf, values[q], out]

    def m_run_item(q):
        m_load(q)
        return m_body(q)

    def m_run_section(sec):
        def go(node, path):
            return [go(sub, path + [k]) if sub is not None else m_run_item('.'.join(path + [k])) for k, sub in gen.children(node)]
        parts = sec.split('.')
        if parts[0] == 'S':
            inner = [m_run_item(f'S.sec.{e}') for e in specs]
            return [inner] if sec == 'S' else inner
        return go(gen.subtree(tree, parts), parts)

    def m_one(x):
        return m_run_section(x) if x in secs else m_run_item(x)

    def m_pm_run(arg):
        if mode == 'plain':
            return [m_one(x) for x in arg] if isinstance(arg, list) else m_one(arg)
        try:
            if mode == 'force':
                results = []
                for x in arg if isinstance(arg, list) else [arg]:
                    try:
                        results.append(m_one(x))
                    except Fails as e:
                        if is_user(e.name):
                            raise
                return results if isinstance(arg, list) else results[0] if results else []
            return [m_one(x) for x in arg] if isinstance(arg, list) else m_one(arg)
        except Fails as e:
            if is_user(e.name):
                raise Fails('SystemExit')
            expected_debug.append(e.name)
            return None

    expected_debug = []

    def guarded(what, fn, model):
        ctl.LOG.clear(), log.clear(), ctl.PROBLEMS.clear(), ctl.RAISED.clear(), seen_by_debugger.clear(), expected_debug.clear()
        stdout = sys.stdout
        sys.stdin = io.StringIO()
        stack = list(w.p.context.stack.frames)
        real_exc = m_exc = result = want = None
        try:
            want = model()
        except Fails as e:
            m_exc = e.name
        ctl_fail = dict(ctl.FAIL)
        try:
            result = fn()
        except BaseException as e:
            if type(e).__name__ == 'CaseTimeout':
                raise
            real_exc = e
        finally:
            now, sys.stdout = sys.stdout, stdout
        check(now is stdout, f'{what}: sys.stdout is {now!r} after the call')
        check_eq(list(w.p.context.stack.frames), stack, f'{what}: context stack after the call')
        check_eq(ctl.PROBLEMS, [], f'{what}: inside the call')
        if m_exc is None:
            if real_exc is not None:
                raise Violation(f'{what}: unexpected {type(real_exc).__name__}: {real_exc}') from real_exc
            check_eq(result, want, f'{what}: result')
        else:
            if real_exc is None:
                raise Violation(f'{what}: expected {m_exc}, got result {result!r}')
            cls = exc_class(m_exc)
            check(type(real_exc) is cls, f'{what}: expected {m_exc}, got {type(real_exc).__name__}: {real_exc}')
            if ctl.RAISED and not (m_exc == 'SystemExit' and mode != 'plain') and m_exc not in ('ZeroDivisionError', 'NameError') and real_exc.args[:1] == ('failure switched on',):
                check(real_exc is ctl.RAISED[-1], f'{what}: the exception is another object than the one raised')
        check_eq(ctl.LOG, log, f'{what}: items executed')
        names = [type(e).__name__ for e in seen_by_debugger]
        want_names = [exc_class(x).__name__ for x in expected_debug]
        check_eq(names, want_names, f'{what}: exceptions the debug function was called for')
        return m_exc is not None or bool(expected_debug) or (mode == 'force' and bool(ctl.RAISED))

    failed = [0]
    recovered = [0]
    tags = set()

    def note(was_failure, kind):
        if was_failure:
            failed[0] += 1
            tags.add('failed ' + kind)
        elif failed[0]:
            recovered[0] += 1

    for i, op in enumerate(case['ops']):
        what = f'step {i} {op} ({mode})'
        if op[0] in ('run', 'get', 'view', 'read', 'refresh', 'reset', 'config', 'breakfile', 'repair'):
            q = paths[op[1] % len(paths)]
            what += f' {q}'
        if op[0] == 'run':
            note(guarded(what, lambda: pm.run(q), lambda: m_pm_run(q)), 'run')
        elif op[0] == 'section':
            sec = secs[op[1] % len(secs)]
            note(guarded(what + f' {sec}', lambda: pm.run(sec), lambda: m_pm_run(sec)), 'section')
        elif op[0] == 'list':
            targets_ = [(paths + secs)[k % len(paths + secs)] for k in op[1]]
            note(guarded(what + f' {targets_}', lambda: pm.run(list(targets_)), lambda: m_pm_run(targets_)), 'list')
        elif op[0] == 'get':
            note(guarded(what, lambda: pm.get(q) and None, lambda: m_load(q)), 'get')
        elif op[0] == 'config':
            note(guarded(what, lambda: pm.config.get(q) and None, lambda: m_file(q)), 'config')
        elif op[0] == 'read':
            def m_read():
                m_load(q)
                return values[q]
            note(guarded(what, lambda: read(q), m_read), 'read')
        elif op[0] == 'view':
            if leaf_of[q][0] == 'K':
                continue

            def by_view():
                x = w.p.Selector().pm
                for part in q.split('.'):
                    x = getattr(x, part)
                return x()

            def m_view():
                m_load(q)
                return m_body(q)
            note(guarded(what, by_view, m_view), 'view')
        elif op[0] in ('refresh', 'reset'):
            if q in calls:
                continue

            def m_reread():
                if op[0] == 'refresh' or q not in broken:
                    m_file(q)
                m_execute_file(q)
            note(guarded(what, lambda: getattr(pm, op[0])(q), m_reread), op[0])
            # reset replaces the config, whether it was loaded before or not
            if op[0] == 'reset' and q not in broken:
                loaded_file.add(q)
        elif op[0] == 'switch':
            leaf = leaf_of[paths[op[1] % len(paths)]]
            ctl.FAIL[leaf] = (op[2], op[3] if leaf[0] == 'K' else 'body')
        elif op[0] == 'heal':
            ctl.FAIL.pop(leaf_of[paths[op[1] % len(paths)]], None)
        elif op[0] == 'healall':
            ctl.FAIL.clear()
        elif op[0] == 'breakfile':
            kinds = {'raise': 'import gm_ctl\nraise gm_ctl.Custom("failing file")\n', 'zero': 'a = 1 / 0\n', 'name': 'a = not_defined_here\n', 'attr': 'a = (1).no_such_attribute\n',
                     'item': 'import gm_ctl\nfrom pyfileconf import Selector\n\ns = Selector()\na = s.pm\nraise gm_ctl.Custom("failing file")\n'}
            w.write('proj/defaults/' + q.replace('.', '/') + '.py', kinds[op[2]])
            broken[q] = op[2]
        elif op[0] == 'repair':
            w.write('proj/defaults/' + q.replace('.', '/') + '.py', good_text[q])
            broken.pop(q, None)
        elif op[0] == 'log_stdout':
            w.p.options.log_stdout.value = op[1]
    # everything healed: all results are the normal ones
    ctl.FAIL.clear()
    for q in list(broken):
        w.write('proj/defaults/' + q.replace('.', '/') + '.py', good_text[q])
    broken.clear()
    for q in paths:
        note(guarded(f'at the end: run {q} ({mode})', lambda: pm.run(q), lambda: m_pm_run(q)), 'end')
    pm.reload()
    loaded_file.clear(), loaded_obj.clear()
    for q in paths:
        note(guarded(f'after reload: run {q} ({mode})', lambda: pm.run(q), lambda: m_pm_run(q)), 'end')
    return Info(failed[0] and recovered[0], mode, *sorted(tags))


SUBS = [Sub('faults', cases(), run, quick=1200, thorough=40000)]
