"""Hypothesis strategies and source renderers shared by the checks.

Everything drawn is JSON-serialisable.  Values are chosen so that `==` implies
"same value" (no 1/True/1.0 mix-ups): the library decides whether a config
changes with `==`, so 1 -> True is legitimately "no change" there.
"""
from hypothesis import strategies as st

# names that collide neither with Python keywords nor with attributes of the
# library's collections/managers (a section called `items` or `run` is not usable)
# names which mean something elsewhere (managers, the folder of the config files, the suffix of files)
ODD_SECTIONS = ['pm', 'pm2', 'defaults', 'py', 'pypy', 'pipeline_dict', 'proj', 'alpha', 'x', '_private', '__x']
SECTIONS = ['alpha', 'beta', 'gamma', 'delta', 'sec_1', 'Upper', 'long_section_name', 'x']
ARGS = ['a', 'b', 'c', 'd', 'arg_e', 'value', 'zz']

text = st.text(
    alphabet=st.sampled_from(list("abcXYZ019 _-.,:;#'\"\\/{}[]()=%\n\té😀")), max_size=8)

scalars = st.one_of(
    st.none(),
    st.integers(2, 9999), st.integers(-9999, -2),
    st.integers(2, 50).map(lambda i: i + 0.5),
    text,
)


def _no_bool(x):
    return x


values = st.recursive(
    scalars,
    lambda ch: st.one_of(
        st.lists(ch, max_size=3),
        st.dictionaries(st.sampled_from(['k1', 'k2', 'key three', "q'uote"]), ch, max_size=3),
    ),
    max_leaves=5,
)

simple_values = st.one_of(st.integers(2, 999), st.sampled_from(['txt', 'other', "it's", 'multi\nline', '']),
                          st.lists(st.integers(2, 9), max_size=2), st.none())


@st.composite
def params(draw, min_size=0, max_size=4, vals=simple_values, kwonly=True, names=None):
    """[[name, has_default, default, kwonly], ...] forming a valid signature.

    Keyword-only arguments without a default are legal but rare; they are
    generated too.
    """
    pool = names or ARGS
    n = draw(st.integers(min_size, min(max_size, len(pool))))
    chosen = draw(st.permutations(pool))[:n]
    n_kw = draw(st.integers(0, n)) if kwonly and draw(st.booleans()) else 0
    out = []
    seen_default = False
    for i, name in enumerate(chosen):
        kw = i >= n - n_kw
        if kw:
            has = draw(st.booleans())
        else:
            has = seen_default or draw(st.booleans())
            seen_default = seen_default or has
        out.append([name, has, draw(vals) if has else None, kw])
    return out


def defaults_of(ps):
    """What the documentation promises: the source default, None when there is none."""
    return {p[0]: (p[2] if p[1] else None) for p in ps}


def render_sig(ps, self_arg=False, expr=repr, annotations=None):
    annotations = annotations or {}
    parts = ['self'] if self_arg else []
    star = False
    for name, has, default, kw in ps:
        if kw and not star:
            parts.append('*')
            star = True
        ann = annotations.get(name)
        s = name + (f': {ann}' if ann else '')
        if has:
            s += (' = ' if ann else '=') + expr(default)
        parts.append(s)
    return ', '.join(parts)


def render_func(name, ps, tag=None, annotations=None, body=None, returns=None):
    sig = render_sig(ps, annotations=annotations)
    d = ', '.join(f'{p[0]}={p[0]}' for p in ps)
    body = body or f'    return [{(tag or name)!r}, dict({d})]\n'
    ret = f' -> {returns}' if returns else ''
    return f'def {name}({sig}){ret}:\n{body}\n\n'


def render_class(name, ps, tag=None, annotations=None, call=True, extra='', first=''):
    sig = render_sig(ps, self_arg=True, annotations=annotations)
    out = f'class {name}:\n\n    def __init__({sig}):\n'
    out += first
    if not ps and not first:
        out += '        pass\n'
    for p in ps:
        out += f'        self.{p[0]} = {p[0]}\n'
    d = ', '.join(f'{p[0]}=self.{p[0]}' for p in ps)
    if call:
        out += f'\n    def __call__(self):\n        return [{(tag or name)!r}, dict({d})]\n'
    out += extra
    return out + '\n\n'


# ---- nested section trees ------------------------------------------------ #
#
# {'section': [leaf, ...] | {...}}; with mixed=True a list may also hold dicts,
# whose keys are sub-sections next to the leaves: {'s': [f1, {'sub': [f2]}, f3]}

@st.composite
def trees(draw, leaf_names, max_depth=3, min_leaves=1, max_sections=3, allow_empty=False, reuse=True, mixed=False):
    """Nested {'section': [leaf, ...] | {...}} (pipeline_dict / class_dict shape)."""
    pool = ODD_SECTIONS if draw(st.integers(0, 3)) == 3 else SECTIONS

    def go(depth, avail):
        n = draw(st.integers(1, max_sections))
        names_ = draw(st.permutations(pool))[:n]
        out = {}
        for s in names_:
            if depth < max_depth and draw(st.integers(0, 3)) == 0:
                out[s] = go(depth + 1, avail)
            else:
                out[s] = draw(st.lists(st.sampled_from(leaf_names), unique=True,
                                       min_size=0 if allow_empty else 1, max_size=min(3, len(leaf_names))))
                if mixed and depth < max_depth and draw(st.integers(0, 2)) == 0:
                    out[s].insert(draw(st.integers(0, len(out[s]))), {k: v for k, v in go(depth + 1, avail).items() if k not in out[s]})
        return out
    return go(1, leaf_names)


def children(node):
    """[(name, subtree or None for a leaf)] of a section, in definition order."""
    if isinstance(node, dict):
        return list(node.items())
    out = []
    for x in node:
        out += list(x.items()) if isinstance(x, dict) else [(x, None)]
    return out


def leaves(tree, prefix=()):
    """[(section path tuple, leaf name)] in definition order."""
    out = []
    for k, v in children(tree):
        out += [(prefix, k)] if v is None else leaves(v, prefix + (k,))
    return out


def sections(tree, prefix=()):
    out = []
    for k, v in children(tree):
        if v is not None:
            out.append(prefix + (k,))
            out += sections(v, prefix + (k,))
    return out


def is_mixed(tree):
    return any(v is not None and ((isinstance(v, list) and any(isinstance(x, dict) for x in v)) or is_mixed(v)) for _, v in children(tree))


def render_node(node, leaf=str, indent=1):
    """Python source of a tree; every dict key on a line of its own."""
    pad = '    ' * indent
    if isinstance(node, dict):
        return '{\n' + ''.join(f'{pad}{k!r}: {render_node(v, leaf, indent + 1)},\n' for k, v in node.items()) + '    ' * (indent - 1) + '}'
    if isinstance(node, list):
        return '[' + ', '.join(render_node(x, leaf, indent + 1) for x in node) + ']'
    return leaf(node)


def render_pipeline_dict(tree, indent=1):
    return render_node(tree, str, indent)


def render_class_dict(tree):
    return render_node(tree, repr).replace('\n', ' ')


def subtree(tree, path):
    for p in path:
        tree = dict((k, v) for k, v in children(tree) if v is not None)[p]
    return tree
