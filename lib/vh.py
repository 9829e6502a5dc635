"""Shared harness for the /verif checks.

A check module (checks/pNN.py) exports

    PROPERTY = 'P01'
    RULE     = 'what a case is, and what makes one non-trivial'
    SUBS     = [Sub(name, strategy, run, quick=<n>, thorough=<n>), ...]

`strategy` draws a JSON-serialisable value (the *case*); `run(case)` executes the
real pyfileconf code on it and compares it with the oracle.  It raises
`Violation` if the property is broken and otherwise returns an `Info`.
Because a case is plain JSON, a shrunk failure is replayed without Hypothesis.
"""
import contextlib
import gc
import hashlib
import importlib
import json
import logging
import os
import shutil
import signal
import sys
import tempfile
import traceback
import warnings

REPO = '/repo'
sys.dont_write_bytecode = True
VT_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


class Violation(Exception):
    """The property does not hold for the case being run."""


class Discard(Exception):
    """The generated case is outside the domain (counted, never a failure)."""


class Info:
    __slots__ = ('nontrivial', 'tags')

    def __init__(self, nontrivial, *tags):
        self.nontrivial = bool(nontrivial)
        self.tags = [t for t in tags if t]


class Sub:
    def __init__(self, name, strategy, run, quick=200, thorough=4000, exhaustive=None):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough
        # a finite list of cases to enumerate completely instead of drawing
        self.exhaustive = exhaustive


def check(cond, msg, **details):
    if not cond:
        extra = ''.join(f'\n    {k} = {v!r}' for k, v in details.items())
        raise Violation(msg + extra)


def check_eq(actual, expected, msg):
    try:
        same = bool(actual == expected) and _same_types(actual, expected)
    except Exception as e:  # comparing must never fail for plain data
        raise Violation(f'{msg}: could not compare {actual!r} with {expected!r}: {e!r}')
    if not same:
        raise Violation(f'{msg}\n    actual   = {actual!r}\n    expected = {expected!r}')


def _same_types(a, b):
    """1 == True == 1.0 must not hide a changed value."""
    if isinstance(b, (bool, int, float, str)) or b is None:
        return type(a) is type(b)
    if isinstance(b, dict) and isinstance(a, dict):
        return all(_same_types(a[k], b[k]) for k in b)
    if isinstance(b, (list, tuple)) and isinstance(a, (list, tuple)):
        return type(a) is type(b) and all(_same_types(x, y) for x, y in zip(a, b))
    return True


def must_raise(exc_types, fn, *args, what='', **kwargs):
    """fn(*args) must raise one of exc_types (any Exception if exc_types is None)."""
    try:
        res = fn(*args, **kwargs)
    except Exception as e:
        if exc_types is not None and not isinstance(e, exc_types):
            raise Violation(f'{what}: expected {exc_types}, got {type(e).__name__}: {e}')
        return e
    raise Violation(f'{what}: expected an exception, got result {res!r}')


# --------------------------------------------------------------------------- #
# Loading the code under test
# --------------------------------------------------------------------------- #

_loaded = None


class _NS:
    pass


def pfc():
    """Import pyfileconf from /repo and return a namespace of the API."""
    global _loaded
    if _loaded is not None:
        return _loaded
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    os.environ.setdefault('MPLBACKEND', 'Agg')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        import pyfileconf
        import pyfileconf.main
        import pyfileconf.iterate
        import pyfileconf.batch
        import pyfileconf.plugin.manager_utils
        import pyfileconf.selector.models.itemview
        import pyfileconf.selector.models.selector
        import pyfileconf.sectionpath.sectionpath
    where = os.path.realpath(pyfileconf.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f'pyfileconf imported from {where}, not from {REPO}')
    ns = _NS()
    ns.PipelineManager = pyfileconf.PipelineManager
    ns.Selector = pyfileconf.Selector
    ns.context = pyfileconf.context
    ns.options = pyfileconf.options
    ns.IterativeRunner = pyfileconf.iterate.IterativeRunner
    ns.BatchUpdater = pyfileconf.batch.BatchUpdater
    ns.ItemView = pyfileconf.selector.models.itemview.ItemView
    ns.is_item_view = pyfileconf.selector.models.itemview.is_item_view
    ns.SectionPath = pyfileconf.sectionpath.sectionpath.SectionPath
    ns.plugin_utils = pyfileconf.plugin.manager_utils
    from pyfileconf.plugin import manager as plugin_manager
    from pyfileconf.plugin.impl import hookimpl
    ns.plugin_manager = plugin_manager
    ns.hookimpl = hookimpl
    ns.mod = pyfileconf
    ns.logger = logging.getLogger('pyfileconf')
    ns.orig_handlers = list(ns.logger.handlers)
    _loaded = ns
    return ns


# --------------------------------------------------------------------------- #
# Scratch space and process-global state
# --------------------------------------------------------------------------- #

_scratch_root = None


def scratch_root():
    global _scratch_root
    if _scratch_root is None:
        base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
        _scratch_root = tempfile.mkdtemp(prefix='vpfc-', dir=base)
        import atexit
        atexit.register(shutil.rmtree, _scratch_root, ignore_errors=True)
    return _scratch_root


_fresh = False


def start_fresh():
    """The next World starts from what importing pyfileconf sets up, without a reset."""
    global _fresh
    _fresh = True


class World:
    """A fresh scratch directory plus clean pyfileconf global state.

    Generated source modules live in <dir>/src (on sys.path), projects next to it.
    """

    def __init__(self, quiet=True):
        self.quiet = quiet
        self.dir = None
        self.managers = []

    # -- context ------------------------------------------------------------
    def __enter__(self):
        self.p = pfc()
        self.dir = os.path.join(scratch_root(), 'case')
        if os.path.exists(self.dir):
            shutil.rmtree(self.dir)
        self.src = os.path.join(self.dir, 'src')
        os.makedirs(self.src)
        self._saved = dict(
            path=list(sys.path), cwd=os.getcwd(), stdout=sys.stdout, modules=set(sys.modules),
            handlers=list(self.p.logger.handlers), level=self.p.logger.level,
            propagate=self.p.logger.propagate,
        )
        os.chdir(self.dir)
        sys.path.insert(0, self.src)
        importlib.invalidate_caches()
        global _fresh
        if not _fresh:
            self._reset_globals()
        _fresh = False
        if self.quiet:
            self.p.logger.handlers = [logging.NullHandler()]
            self.p.logger.propagate = False
        self._warn = warnings.catch_warnings()
        self._warn.__enter__()
        warnings.simplefilter('ignore')
        return self

    def __exit__(self, *exc):
        try:
            self._warn.__exit__(None, None, None)
        finally:
            s = self._saved
            sys.stdout = s['stdout']
            os.chdir(s['cwd'])
            sys.path[:] = s['path']
            for pm in self.managers:
                pm.__dict__.pop('runner', None)
            self.managers.clear()
            for h in self.p.logger.handlers:
                if h not in s['handlers']:
                    with contextlib.suppress(Exception):
                        h.close()
            self.p.logger.handlers = s['handlers']
            self.p.logger.setLevel(s['level'])
            self.p.logger.propagate = s['propagate']
            self._reset_globals()
            for name in list(sys.modules):
                if name in s['modules']:
                    continue
                mod = sys.modules.get(name)
                f = getattr(mod, '__file__', None) or ''
                if name.startswith('gm_') or f.startswith(scratch_root()):
                    sys.modules.pop(name, None)
            for cached in [k for k in sys.path_importer_cache if k.startswith(scratch_root())]:
                sys.path_importer_cache.pop(cached, None)
            shutil.rmtree(self.dir, ignore_errors=True)
        return False

    def _reset_globals(self):
        p = self.p
        from pyfileconf.opts import options as raw_options, DEFAULT_OPTIONS
        for attr in raw_options.option_attrs:
            setattr(raw_options, attr, getattr(DEFAULT_OPTIONS, attr))
        p.context.reset()
        p.plugin_utils.reset_plugins()

    # -- files --------------------------------------------------------------
    def path(self, *parts):
        return os.path.join(self.dir, *parts)

    def write(self, relpath, text):
        full = self.path(relpath)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, 'w', encoding='utf8', newline='\n') as f:
            f.write(text)
        return full

    def read(self, relpath):
        with open(self.path(relpath), encoding='utf8') as f:
            return f.read()

    def module(self, name, src):
        """Write an importable source module (name must start with gm_)."""
        assert name.startswith('gm_'), name
        self.write(os.path.join('src', *name.split('.')) + '.py', src)
        importlib.invalidate_caches()
        return name

    def manager(self, folder='proj', name='pm', load=True, **kw):
        pm = self.p.PipelineManager(self.path(folder), name=name, **kw)
        self.managers.append(pm)
        if load:
            pm.load()
        return pm

    def forget(self, name):
        """Drop a manager from the registry the way the end of its life would."""
        self.p.context.active_managers.pop(name, None)

    def snapshot(self, relpath='proj'):
        """{relative path: text} of every file below relpath."""
        return tree_snapshot(self.path(relpath))


def tree_snapshot(root):
    out = {}
    for base, dirs, files in os.walk(root):
        dirs[:] = sorted(d for d in dirs if d != '__pycache__')
        if not files and not dirs:
            out[os.path.relpath(base, root) + os.sep] = None
        for f in sorted(files):
            full = os.path.join(base, f)
            with open(full, encoding='utf8') as fh:
                out[os.path.relpath(full, root)] = fh.read()
    return out


# --------------------------------------------------------------------------- #
# Classifying exceptions
# --------------------------------------------------------------------------- #

def raised_in_code_under_test(exc):
    """Did this exception pass through a pyfileconf frame?"""
    seen = set()
    pkg = os.path.realpath(os.path.join(REPO, 'pyfileconf')) + os.sep
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        for fr in traceback.extract_tb(exc.__traceback__):
            if os.path.realpath(fr.filename).startswith(pkg):
                return True
        exc = exc.__cause__ or exc.__context__
    return False


CASE_SECONDS = 60     # a case takes well below a second; this is non-termination


@contextlib.contextmanager
def time_limit(seconds):
    def on_alarm(signum, frame):
        raise Violation(f'no answer within {seconds} s (endless loop or propagation)')
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def run_case(sub, case):
    """Run one case; raise Violation, Discard, or a harness error."""
    # `copy` protects the recorded case from checks that mutate their input
    case = json.loads(json.dumps(case))
    try:
        with time_limit(CASE_SECONDS):
            return sub.run(case)
    except (Violation, Discard):
        raise
    except SystemExit as e:
        raise Violation(f'pyfileconf tried to exit the interpreter: {e!r}')
    except Exception as e:
        if raised_in_code_under_test(e):
            tb = traceback.format_exc()
            raise Violation(f'unexpected {type(e).__name__}: {e}\n{tb[-3000:]}') from e
        if isinstance(e, (ImportError, NameError)) and not isinstance(e, UnboundLocalError):
            raise  # most likely this harness is wrong about the code's layout
        # Otherwise the code under test handed back something that the oracle
        # could not even take apart (wrong shape, wrong length, missing key).
        raise Violation(f'result could not be interpreted: {type(e).__name__}: {e}\n'
                        f'{traceback.format_exc()[-3000:]}') from e


def case_hash(sub_name, case):
    return hashlib.sha1((sub_name + json.dumps(case, sort_keys=True)).encode()).hexdigest()


def case_size(case):
    s = json.dumps(case, sort_keys=True)
    return (len(s), s)
