"""Values which have no plain `==`: data frames, series, arrays and objects which refuse to be compared.

In cases and models they are strings such as 'df:3', which are turned into the real
values on the way into the library and back on the way out of it.
"""
import re
import types
import sys

from hypothesis import strategies as st

# compared by the library as wholes
WHOLE = ['df:2', 'df:3', 'df:2:index', 'df:2:float', 'df:2:columns', 'ser:2', 'ser:3', 'ser:2:index', 'df:0']
# not comparable, taken as different
OTHER = ['arr:2', 'arr:3', 'arr:0', 'bad:2', 'bad:3', 'listdf:2', 'listarr:2']
whole = st.sampled_from(WHOLE)
all_values = st.sampled_from(WHOLE + OTHER)
PATTERN = re.compile(r'(df|ser|arr|bad|listdf|listarr):(\d)(:\w+)?$')
HEADER = 'import gm_frames\n'


class Bad:
    """An object which cannot be compared."""
    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        raise TypeError('cannot be compared')

    __hash__ = None


def make(s):
    import numpy as np
    import pandas as pd
    kind, n, variant = PATTERN.match(s).groups()
    n = int(n)
    rows = [n, n + 1] if n else []
    if kind == 'df':
        return pd.DataFrame({'y' if variant == ':columns' else 'x': rows}, index=['i', 'j'][:len(rows)] if variant == ':index' else None,
                            dtype=float if variant == ':float' else None)
    if kind == 'ser':
        return pd.Series(rows, index=['i', 'j'] if variant == ':index' else None)
    if kind == 'arr':
        return np.array(rows)
    if kind == 'listdf':
        return [make('df:%d' % n)]
    if kind == 'listarr':
        return [1, make('arr:%d' % n)]
    return Bad(n)


def install():
    mod = types.ModuleType('gm_frames')
    mod.make = make
    sys.modules['gm_frames'] = mod


class _Code:
    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return f'gm_frames.make({self.s!r})'


def _is(v):
    return isinstance(v, str) and PATTERN.match(v)


def real(v):
    if _is(v):
        return make(v)
    if type(v) in (list, tuple):
        return type(v)(real(x) for x in v)
    if type(v) is dict:
        return {k: real(x) for k, x in v.items()}
    return v


def code(values):
    """The same dictionary, rendered as source which makes the real values."""
    return {k: _Code(v) if _is(v) else v for k, v in values.items()}


def encoded(v):
    if isinstance(v, Bad):
        return f'bad:{v.n}'
    t = type(v)
    if t.__module__.split('.')[0] in ('pandas', 'numpy'):
        for s in WHOLE + OTHER:
            try:
                m = make(s)
            except Exception:
                continue
            if type(m) is t and (m.equals(v) if hasattr(m, 'equals') else m.shape == v.shape and bool((m == v).all())):
                return s
        return repr(v)
    if t in (list, tuple):
        out = t(encoded(x) for x in v)
        if len(out) == 1 and out[0] == 'df:2':
            return 'listdf:2'
        if t is list and out == [1, 'arr:2']:
            return 'listarr:2'
        return out
    if t is dict:
        return {k: encoded(x) for k, x in v.items()}
    return v


class Log(list):
    def append(self, x):
        super().append(encoded(x))


class Manager:
    """A manager which takes and gives the encoded values."""
    def __init__(self, pm):
        self.pm = pm

    def __getattr__(self, name):
        return getattr(self.pm, name)

    def update(self, d_=None, *args, **kw):
        return self.pm.update(real(d_), *args, **real(kw))

    def update_batch(self, updates):
        return self.pm.update_batch([real(u) for u in updates])

    def run(self, *args):
        return encoded(self.pm.run(*args))

    def run_product(self, items, updates, **kw):
        return encoded(self.pm.run_product(items, real(updates), **kw))

    def run_product_gen(self, items, updates):
        for x in self.pm.run_product_gen(items, real(updates)):
            yield encoded(x)
