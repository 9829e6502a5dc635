"""P21: options behave as a resettable map."""
import logging
import os
from logging.handlers import TimedRotatingFileHandler

from hypothesis import strategies as st

from lib.vh import Info, Sub, Violation, World, check, check_eq, must_raise

PROPERTY = 'P21'
TECHNIQUE = 'stateful property-based testing: random option histories (with nested and failing with-blocks) against a plain map model'
LEVEL_NOTE = ('Random histories of every way to set and reset options, nested and failing with-blocks, several log folders; after every step all option values, '
              'the file handlers of the logger and the file a message arrives in are compared with a map model.')
RULE = 'a case is a history of option operations; non-trivial when at least three operations change a value and log_folder is set, or a with-block is used'
ASSUMPTIONS = ['log folders are creatable directories']

DEFAULTS = dict(log_stdout=False, log_folder=None, log_file_rollover_freq='D', log_file_num_keep=0)
VALUES = dict(log_stdout=[True, False], log_folder=['logs/a', 'logs/b', 'logs/a/deep', '@logs/abs', None, 'logs/a'],
              log_file_rollover_freq=['H', 'D', 'midnight', 'W0'], log_file_num_keep=[0, 3, 7])
attrs = st.sampled_from(['log_stdout', 'log_folder', 'log_folder', 'log_folder', 'log_file_rollover_freq', 'log_file_num_keep'])


@st.composite
def settings_(draw):
    a = draw(attrs)
    return [a, draw(st.sampled_from(VALUES[a]))]


base_ops = st.one_of(
    st.tuples(st.just('set_option'), settings_()),
    st.tuples(st.just('set_options'), st.lists(settings_(), max_size=4)),
    st.tuples(st.just('value'), settings_()),
    st.tuples(st.just('assign'), settings_()),
    st.tuples(st.just('reset_option'), attrs),
    st.tuples(st.just('reset_attr'), attrs),
    st.tuples(st.just('reset_options'), st.lists(attrs, max_size=3)),
    st.tuples(st.just('reset')),
    st.tuples(st.just('unknown'), st.sampled_from(['nope', 'log_stdou', 'LOG_FOLDER'])),
)
ops = st.recursive(
    base_ops,
    lambda ch: st.one_of(base_ops, st.tuples(st.just('with'), st.sampled_from(['plain', 'set_option', 'set_options']), st.lists(settings_(), min_size=1, max_size=3),
                                             st.lists(ch, max_size=4), st.sampled_from(['', '', 'ValueError', 'KeyboardInterrupt']))),
    max_leaves=8)


class _Fail(Exception):
    pass


def run(case):
    with World() as w:
        o = w.p.options
        from pyfileconf.opts import options as raw
        model = dict(DEFAULTS)
        files = {}
        count = dict(n=0, changes=0, withs=0, folder=0)

        def val(a, v):
            if a == 'log_folder' and v is not None and v.startswith('@'):
                return w.path(v[1:])
            return v

        at_change = {}

        def setm(a, v):
            count['changes'] += model[a] != v
            if a == 'log_folder' and model[a] != v:
                at_change.update(model)
            model[a] = v

        def verify(what):
            for a, v in model.items():
                check_eq(getattr(o, a).value, v, f'{what}: option {a}')
                check_eq(getattr(raw, a), v, f'{what}: option {a} as the library reads it')
                check_eq(getattr(o, a).default_value, DEFAULTS[a], f'{what}: default of {a}')
            hs = [h for h in w.p.logger.handlers if isinstance(h, logging.FileHandler)]
            folder = model['log_folder']
            check_eq(len(hs), 0 if folder is None else 1, f'{what}: number of file handlers with log_folder={folder!r}')
            count['n'] += 1
            msg = f'message {count["n"]} end'
            w.p.logger.info(msg)
            if folder is not None:
                count['folder'] += 1
                full = os.path.abspath(folder)
                check_eq(os.path.dirname(hs[0].baseFilename), full, f'{what}: folder of the handler')
                # The file rolls over as the options say which were set along with the folder (or are now)
                check((hs[0].when, hs[0].backupCount) in [(m['log_file_rollover_freq'].upper(), m['log_file_num_keep']) for m in (at_change, model)],
                      f'{what}: the log file rolls over {hs[0].when!r} and {hs[0].backupCount} files are kept, options {model} (when the folder was set: {at_change})')
                hs[0].flush()
                files.setdefault(full, []).append(msg)
            for full, msgs in files.items():
                text = ''
                for name in sorted(os.listdir(full)):
                    if os.path.isfile(os.path.join(full, name)):
                        with open(os.path.join(full, name)) as f:
                            text += f.read()
                got = [int(x.split()[0]) for x in text.split('message ')[1:]]
                check_eq(sorted(got), [int(m.split()[1]) for m in msgs], f'{what}: messages in {full}')

        def do(op, depth):
            kind = op[0]
            if kind == 'set_option':
                a, v = op[1]
                check(o.set_option(a, val(a, v)) is o, 'set_option does not return the options')
                setm(a, val(a, v))
            elif kind == 'set_options':
                o.set_options([(a, val(a, v)) for a, v in op[1]])
                for a, v in op[1]:
                    setm(a, val(a, v))
            elif kind == 'value':
                a, v = op[1]
                getattr(o, a).value = val(a, v)
                setm(a, val(a, v))
            elif kind == 'assign':
                a, v = op[1]
                setattr(o, a, val(a, v))
                setm(a, val(a, v))
            elif kind == 'reset_option':
                o.reset_option(op[1])
                setm(op[1], DEFAULTS[op[1]])
            elif kind == 'reset_attr':
                getattr(o, op[1]).reset()
                setm(op[1], DEFAULTS[op[1]])
            elif kind == 'reset_options':
                o.reset_options(list(op[1]))
                for a in op[1]:
                    setm(a, DEFAULTS[a])
            elif kind == 'reset':
                o.reset()
                for a in DEFAULTS:
                    setm(a, DEFAULTS[a])
            elif kind == 'unknown':
                must_raise(None, o.set_option, op[1], True, what=f'set_option({op[1]!r})')
                must_raise(None, o.reset_option, op[1], what=f'reset_option({op[1]!r})')
            else:
                _, how, sets, body, fail = op
                count['withs'] += 1
                exc = {'': None, 'ValueError': ValueError('planned'), 'KeyboardInterrupt': KeyboardInterrupt()}[fail]
                if how == 'plain':
                    cm, sets = o, []
                elif how == 'set_option':
                    sets = sets[:1]
                    cm = o.set_option(sets[0][0], val(*sets[0]))
                else:
                    cm = o.set_options([(a, val(a, v)) for a, v in sets])
                for a, v in sets:
                    setm(a, val(a, v))
                try:
                    with cm:
                        verify('inside a with-block')
                        for sub in body:
                            do(sub, depth + 1)
                        if exc is not None:
                            raise exc
                except BaseException as e:
                    if e is not exc:
                        raise
                else:
                    check(exc is None, 'the exception raised inside a with-block was swallowed')
                for a in DEFAULTS:
                    setm(a, DEFAULTS[a])
            verify(f'after {op!r}')

        for op in case['ops']:
            do(op, 0)
        o.reset()
        model.update(DEFAULTS)
        verify('after the final reset')
        return Info((count['changes'] >= 3 and count['folder']) or count['withs'], 'with' if count['withs'] else '', 'folder' if count['folder'] else '')


SUBS = [Sub('history', st.lists(ops, min_size=1, max_size=10).map(lambda x: dict(ops=x)), run, quick=2400, thorough=100000)]
