"""P26: captured output and logs are complete and scoped."""
import importlib
import io
import logging
import os
import sys
import types

from hypothesis import strategies as st

from lib.vh import Info, Sub, Violation, World, check, check_eq

PROPERTY = 'P26'
TECHNIQUE = 'stateful property-based testing: random programs that print, fail and nest runs under random option histories, against a model of the two streams'
LEVEL_NOTE = ('Random item programs (prints, direct writes, failures, nested runs, log messages) run singly, as sections, lists and products with force_continue '
              'on and off while log_stdout and log_folder change; captured log messages, the real stream and the log files are compared with a model.')
RULE = 'a case is a set of item programs and a history; non-trivial when something is printed both while and while not log_stdout is set, or in a failing or nested run'
ASSUMPTIONS = ['a lone newline carries no message']

TEXTS = ['plain', 'two words', 'line1\nline2', 'tail\n', ' lead', 'é😀', '%s %d', '{x}', 'a\tb', '100%']
BLANKS = ['   ', '\t', '    \t']


@st.composite
def programs(draw, n):
    """For item i: statements; 'call' j only with j > i, so nesting is finite."""
    out = []
    for i in range(n):
        stmts = draw(st.lists(st.one_of(
            st.tuples(st.just('print'), st.sampled_from(TEXTS)), st.tuples(st.just('print'), st.sampled_from(TEXTS)),
            st.tuples(st.just('print2'), st.sampled_from(TEXTS)),
            st.tuples(st.just('write'), st.sampled_from(TEXTS)),
            st.tuples(st.just('end'), st.sampled_from(TEXTS)),
            st.tuples(st.just('writelines'), st.sampled_from(TEXTS)),
            st.tuples(st.just('attrs'), st.just('')),
            st.tuples(st.just('log'), st.sampled_from(['info', 'warning', 'error', 'debug'])),
            st.tuples(st.just('fail'), st.just('')),
            st.tuples(st.just('blank'), st.sampled_from(BLANKS)),
            st.tuples(st.just('call'), st.integers(i + 1, n)),
            st.tuples(st.just('trycall'), st.integers(i + 1, n)),
            st.tuples(st.just('stderr'), st.just('')),
            st.tuples(st.just('option'), st.booleans()),
        ), min_size=1 if i == 0 else 0, max_size=4))
        out.append([[k, v] for k, v in stmts if not (k in ('call', 'trycall') and v >= n)])
    return out


@st.composite
def cases(draw):
    n = draw(st.integers(1, 4))
    return dict(programs=draw(programs(n)), force=draw(st.booleans()),
                ops=draw(st.lists(st.one_of(
                    st.tuples(st.just('run'), st.integers(0, n - 1)), st.tuples(st.just('run'), st.integers(0, n - 1)),
                    st.tuples(st.just('list'), st.lists(st.integers(0, n - 1), min_size=1, max_size=3)),
                    st.tuples(st.just('section'), st.just(0)),
                    st.tuples(st.just('product'), st.integers(0, n - 1)),
                    st.tuples(st.just('stdout'), st.booleans()), st.tuples(st.just('stdout'), st.just(True)),
                    st.tuples(st.just('folder'), st.sampled_from(['logs/a', 'logs/b', None])),
                    st.tuples(st.just('reset'), st.just(0)),
                    st.tuples(st.just('outside'), st.sampled_from(TEXTS)),
                    st.tuples(st.just('message'), st.sampled_from(['info', 'warning', 'debug', 'debug'])),
                    st.tuples(st.just('level'), st.sampled_from([logging.DEBUG, logging.DEBUG, logging.INFO])),
                ), min_size=2, max_size=9).map(list)), start=draw(st.booleans()))


class Boom(Exception):
    pass


class Capture(logging.Handler):
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.records = []

    def emit(self, record):
        self.records.append(record)


def run(case):
    try:
        return run_(case)
    finally:
        logging.getLogger('pyfileconf').setLevel(logging.INFO)


def run_(case):
    with World() as w:
        n = len(case['programs'])
        real = io.StringIO()
        sys.stdout = real
        h = types.ModuleType('gm_io')
        sys.modules['gm_io'] = h
        state = dict(pm=None, tok=0, log=[], folder_log={}, real=[], opt=False, folder=None, kinds=set())
        # log: what has to be logged; real: what has to arrive on the real stream

        def tok():
            state['tok'] += 1
            return f'<{state["tok"]:04d}>'

        def logged(msg):
            state['log'].append(msg)
            if state['folder']:
                state['folder_log'].setdefault(state['folder'], []).append(msg)

        def emit(text, captured, tail):
            if captured:
                state['kinds'].add('captured')
                logged(text)
            else:
                state['kinds'].add('plain')
                state['real'].append(text + tail)

        # the programs themselves: `body(i)` is what item i executes; `depth` counts capturing runs around it
        captured = [False]

        def call(i):
            before = captured[0]
            captured[0] = before or state['opt']
            try:
                state['pm'].run(f'sec.f{i}')
            finally:
                captured[0] = before

        depth = [0]

        def body(i):
            if state.get('resample') and not depth[0]:
                captured[0] = state['opt']      # every case of a product is a run of its own
            depth[0] += 1
            try:
                return body_(i)
            finally:
                depth[0] -= 1

        def body_(i):
            for kind, v in case['programs'][i]:
                t = tok()
                if kind == 'print':
                    emit(t + v, captured[0], '\n')
                    print(t + v)
                elif kind == 'blank':
                    emit(v, captured[0], '\n')
                    print(v)
                elif kind == 'print2':
                    t2 = tok()
                    if captured[0]:
                        emit(t + v, True, '')
                        state['seps'] = state.get('seps', 0) + 1
                        emit(t2, True, '')
                    else:
                        emit(t + v + ' ' + t2, False, '\n')
                    print(t + v, t2)
                elif kind == 'write':
                    emit(t + v, captured[0], '')
                    check_eq(sys.stdout.write(t + v), len(t + v), 'what writing to stdout returns')
                elif kind == 'writelines':
                    t2 = tok()
                    if captured[0]:
                        emit(t + v, True, '')
                        emit(t2, True, '')
                    else:
                        emit(t + v + t2, False, '')
                    sys.stdout.writelines([t + v, t2])
                elif kind == 'attrs':
                    # what libraries ask a stream before they print
                    try:
                        got = [sys.stdout.isatty(), sys.stdout.encoding, sys.stdout.writable(), sys.stdout.closed, hasattr(sys.stdout, 'no_such_attr')]
                    except Exception as e:
                        raise Violation(f'stdout cannot be used as a file (log_stdout={captured[0]}): {type(e).__name__}: {e}')
                    check_eq(got, [real.isatty(), real.encoding, real.writable(), False, False], f'attributes of stdout (log_stdout={captured[0]})')
                elif kind == 'end':
                    emit(t + v, captured[0], '')
                    print(t + v, end='', flush=True)
                elif kind == 'log':
                    if v != 'debug' or w.p.logger.level == logging.DEBUG:
                        logged(t)
                    getattr(w.p.logger, v)(t)
                elif kind == 'stderr':
                    pass
                elif kind == 'option':
                    state['opt'] = v
                    w.p.options.log_stdout.value = v
                elif kind == 'fail':
                    state['kinds'].add('fail')
                    raise Boom(t)
                elif kind == 'call':
                    state['kinds'].add('nested')
                    call(v)
                elif kind == 'trycall':
                    state['kinds'].add('nested')
                    try:
                        call(v)
                    except Boom:
                        pass
            return i

        h.body = body
        w.module('gm_src', 'import gm_io\n\n' + ''.join(f'def f{i}(a=1):\n    return gm_io.body({i})\n\n' for i in range(n)))
        names = ', '.join(f'f{i}' for i in range(n))
        w.write('proj/pipeline_dict.py', f'from gm_src import {names}\n\npipeline_dict = {{"sec": [{names}]}}\n')
        pm = state['pm'] = w.manager(force_continue=case['force'])
        cap = Capture()
        w.p.logger.addHandler(cap)

        def top(fn):
            captured[0] = state['opt']
            try:
                fn()
            except Boom:
                pass
            finally:
                captured[0] = False
            check(sys.stdout is real, 'sys.stdout is not what it was before the run')

        if case['start']:
            case['ops'] = [['run', 0], ['stdout', True], ['run', 0]] + case['ops']
        for op, v in case['ops']:
            if op == 'run':
                top(lambda: pm.run(f'sec.f{v}'))
            elif op == 'list':
                top(lambda: pm.run([f'sec.f{i}' for i in v]))
            elif op == 'section':
                top(lambda: pm.run('sec'))
            elif op == 'product':
                state['resample'] = True
                top(lambda: pm.run_product(f'sec.f{v}', [dict(section_path_str=f'sec.f{v}', a=x) for x in (5, 6)]))
                state['resample'] = False
            elif op == 'stdout':
                state['opt'] = v
                w.p.options.set_option('log_stdout', v)
            elif op == 'folder':
                state['folder'] = v
                w.p.options.log_folder.value = v
            elif op == 'reset':
                state['opt'], state['folder'] = False, None
                w.p.options.reset()
            elif op == 'level':
                # the messages wanted, also those of the library itself
                w.p.logger.setLevel(v)
                state['kinds'].add('level')
            elif op == 'outside':
                t = tok()
                state['real'].append(t + v + '\n')
                print(t + v)
            elif op == 'message':
                t = tok()
                if v != 'debug' or w.p.logger.level == logging.DEBUG:
                    logged(t)
                getattr(w.p.logger, v)(t)
            check_eq(real.getvalue(), ''.join(state['real']), f'real stream after {op} {v!r}')
            got = ours([r.getMessage() for r in cap.records])
            check_eq(got, clean(state['log']), f'logged messages after {op} {v!r}')
            check(all(r.name == 'pyfileconf' for r in cap.records), 'logger name')
            for folder, want in state['folder_log'].items():
                for hd in w.p.logger.handlers:
                    hd.flush()
                with open(os.path.join(folder, 'pyfileconf.log'), encoding='utf8') as f:
                    text = f.read()
                check_eq(toks(text), toks(''.join(want)), f'{folder}/pyfileconf.log after {op} {v!r}')
                for m in clean(want):
                    check(m in text, f'{m!r} is not in {folder}/pyfileconf.log after {op}')
        return Info({'captured', 'plain'} <= state['kinds'] or ('captured' in state['kinds'] and state['kinds'] & {'fail', 'nested'}), *sorted(state['kinds']),
                    'folder' if state['folder_log'] else '')


def ours(messages):
    """Messages of the items (they carry a token), without the separators print writes and without error reports."""
    return clean([m for m in messages if m.startswith('<') or m in BLANKS])


def clean(messages):
    return [m.rstrip('\n') for m in messages]


def toks(text):
    import re
    # failures are reported as well (Boom: <0001>), those are not messages of the items
    lines = [l for l in text.split('\n') if 'Boom' not in l]
    return re.findall(r'<(\d{4})>', '\n'.join(lines))


SUBS = [Sub('streams', cases(), run, quick=1400, thorough=60000)]
