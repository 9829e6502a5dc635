"""P16: recorded dependencies are exactly the accesses made."""
import importlib
import sys
import types

from hypothesis import strategies as st

from lib import gen
from lib.vh import Info, Sub, World, check, check_eq

PROPERTY = 'P16'
TECHNIQUE = 'property-based testing: random programs of nested runs, file loads and view accesses against a reference recorder with an explicit stack'
LEVEL_NOTE = ('Items and config files of two managers execute generated programs over all access routes (run, get, attribute, views: mention, call, attribute, method, '
              '.item, .type, membership); after every step both dependency maps are compared in full, so missing and superfluous edges are both found.')
RULE = 'a case is two projects of programs and a history; non-trivial when both maps are non-empty, they differ, and edges from files as well as from running items were made'
ASSUMPTIONS = ['files reference items through a Selector by attribute access', 'without failures and without reload in between (P17, P18)']

MAIN = ['f0', 'K0', 'f1', 'S0', 'f2', 'K1', 'f3']         # items may use items of later leaves only
OTHER = ['g0', 'L0', 'g1']
LEAVES = MAIN + OTHER
ENTRIES = ['e1', 'e2']
BODY = ['run', 'runlist', 'runsection', 'get', 'getsection', 'attr', 'view', 'call', 'item', 'look', 'method', 'type', 'in', 'config']
FILE = ['view', 'call', 'item', 'look', 'method', 'type', 'in', 'sectionview', 'isinstance', 'from_str', 'has', 'value']


@st.composite
def cases(draw):
    n = st.integers(0, 60)
    tree = draw(gen.trees([x for x in MAIN if x != 'S0'], max_depth=3, max_sections=2))
    tree2 = draw(gen.trees(OTHER, max_depth=2, max_sections=1))
    body = st.tuples(st.sampled_from(BODY), n)
    programs = {leaf: draw(st.lists(body, min_size=draw(st.integers(0, 2)), max_size=4)) for leaf in LEAVES}
    files = draw(st.lists(st.tuples(n, st.lists(st.tuples(st.sampled_from(FILE), n), min_size=1, max_size=4)), min_size=draw(st.integers(0, 3)), max_size=5))
    op = st.one_of(
        st.tuples(st.sampled_from(['run', 'run', 'run', 'get', 'section', 'attr', 'section', 'config', 'refresh', 'reset', 'observe']), n),
        st.tuples(st.just('update'), n, n, st.sampled_from(['dict', 'kw', 'both', 'overriding', 'overridden', 'setattr', 'batch', 'plain', 'temp', 'str', 'two', 'two kw'])),
        st.tuples(st.just('update'), n, n, st.sampled_from(['dict', 'kw', 'section'])),
        st.tuples(st.just('outside'), st.sampled_from(FILE), n),
    )
    return dict(tree=tree, tree2=tree2, specs=draw(st.lists(st.sampled_from(ENTRIES), unique=True, min_size=draw(st.integers(0, 1)), max_size=2)), programs=programs, files=files,
                ops=draw(st.lists(op, min_size=draw(st.integers(1, 6)), max_size=9)))


def run(case):
    try:
        with World() as w:
            return run_(case, w)
    finally:
        sys.modules.pop('gm_ctl', None)


def run_(case, w):
    tree, tree2, specs = case['tree'], case['tree2'], case['specs']
    ctl = types.ModuleType('gm_ctl')
    sys.modules['gm_ctl'] = ctl
    paths = ['pm.' + '.'.join(s + (l,)) for s, l in gen.leaves(tree)] + [f'pm.S.sec.{e}' for e in specs]
    paths += ['pm2.' + '.'.join(s + (l,)) for s, l in gen.leaves(tree2)]
    leaf_of = {q: 'S0' if q.startswith('pm.S.') else q.split('.')[-1] for q in paths}
    secs = ['pm.' + '.'.join(s) for s in gen.sections(tree)] + (['pm.S', 'pm.S.sec'] if specs else []) + ['pm2.' + '.'.join(s) for s in gen.sections(tree2)]
    is_class = lambda q: leaf_of[q][0] in 'KL'
    in_section = lambda sec: [q for q in paths if q.startswith(sec + '.')]

    def is_mixed(sec):
        kinds = {q[len(sec) + 1:].count('.') > 0 for q in in_section(sec)}
        return len(kinds) > 1

    def resolve(actions, leaf):
        """Actions with their targets, which come later in LEAVES than leaf."""
        later = [q for q in paths if leaf is None or LEAVES.index(leaf_of[q]) > LEAVES.index(leaf)]
        later_secs = [s for s in secs if all(q in later for q in in_section(s))]
        out = []
        for kind, n in actions:
            if kind in ('runsection', 'getsection', 'sectionview'):
                if later_secs:
                    out.append([kind, later_secs[n % len(later_secs)]])
            elif later:
                q = later[n % len(later)]
                if kind == 'runlist':
                    same = [x for x in later if x.split('.')[0] == q.split('.')[0]]
                    out.append([kind, [q, same[n // 3 % len(same)]]])
                elif kind == 'method':
                    objs = [x for x in later if leaf_of[x][0] in 'SKL']
                    if objs:
                        out.append([kind, objs[n % len(objs)]])
                else:
                    out.append([kind, q])
        return out

    programs = {leaf: resolve(a, leaf) for leaf, a in case['programs'].items()}
    files = {}
    for i, actions in case['files']:
        q = paths[i % len(paths)]
        files[q] = resolve(actions, leaf_of[q])

    def expr(kind, q):
        """Source text of an access through a Selector."""
        v = f's.{q}'
        return {'view': v, 'sectionview': v, 'call': f'{v}()', 'item': f'{v}.item is None', 'type': f'{v}.type.__name__', 'in': f'{q!r} in s', 'isinstance': f'isinstance({v}, int)',
                'from_str': f'ItemView.from_section_path_str({q!r})', 'look': f'{v}.' + ('keywords' if leaf_of.get(q, ' ')[0] in 'fg' else 'a'), 'has': f'hasattr({v}, "nope")',
                'value': v, 'method': f'{v}.value_of_a()'}[kind]

    def body(leaf, a):
        from pyfileconf import Selector, context
        from pyfileconf.selector.models.itemview import ItemView
        s = Selector()
        for kind, q in programs[leaf]:
            first = q[0] if isinstance(q, list) else q
            pm = context.active_managers[first.split('.')[0]]
            rel = lambda x: x.split('.', 1)[1]
            if kind in ('run', 'runsection'):
                pm.run(rel(q))
            elif kind == 'runlist':
                pm.run([rel(x) for x in q])
            elif kind == 'get':
                pm.get(rel(q))
            elif kind == 'getsection':
                if not is_mixed(q):
                    pm.get(rel(q))
            elif kind == 'attr':
                x = pm
                for part in rel(q).split('.'):
                    x = getattr(x, part)
            elif kind == 'config':
                pm.config.get(rel(q))
            else:
                eval(expr(kind, q), dict(s=s, ItemView=ItemView))
        return leaf
    ctl.body = body

    src = 'import gm_ctl\n\n\n'
    for leaf in LEAVES:
        if leaf[0] in 'fg':
            src += f'def {leaf}(a=1, b=2):\n    return gm_ctl.body({leaf!r}, a)\n\n\n'
        else:
            name = 'name=None, ' if leaf == 'S0' else ''
            src += (f'class {leaf}:\n\n    def __init__(self, {name}a=1, b=2):\n        self.a = a\n        self.b = b\n' + ('        self.name = name\n' if name else '')
                    + f'\n    def __call__(self):\n        return gm_ctl.body({leaf!r}, self.a)\n\n    def value_of_a(self):\n        return "value"\n\n\n')
    w.module('gm_src', src)
    w.write('proj/pipeline_dict.py', f'from gm_src import {", ".join(x for x in MAIN if x != "S0")}\n\npipeline_dict = {gen.render_pipeline_dict(tree)}\n')
    w.write('proj2/pipeline_dict.py', f'from gm_src import {", ".join(OTHER)}\n\npipeline_dict = {gen.render_pipeline_dict(tree2)}\n')
    spec_arg = None
    if specs:
        w.write('proj/S_dict.py', f'class_dict = {{"sec": {specs!r}}}\n')
        spec_arg = [{'name': 'S', 'class': importlib.import_module('gm_src').S0, 'key_attr': 'name'}]
    pm2 = w.manager('proj2', 'pm2')
    pm = w.manager('proj', 'pm', specific_class_config_dicts=spec_arg)
    pms = {'pm': pm, 'pm2': pm2}
    ctx = w.p.context
    for q, actions in files.items():
        text = 'from pyfileconf import Selector\nfrom pyfileconf.selector.models.itemview import ItemView\n\ns = Selector()\n'
        for i, (kind, t) in enumerate(actions):
            # one may be the value of the argument itself
            text += f'{"a" if kind == "value" else f"helper_{i}"} = {expr(kind, t)}\n'
        m, rel = q.split('.', 1)
        w.write(f'proj{m[2:]}/defaults/{rel.replace(".", "/")}.py', text)

    # ---- reference recorder --------------------------------------------------------
    stack = []                 # ('run' | 'load', item)
    plain, forced = set(), set()       # (depends on, dependent)
    loaded = set()
    made = {'run': 0, 'load': 0, 'update': 0}

    def add(dependent, depends_on, force, how):
        if dependent == depends_on:
            return
        made[how] += 1
        plain.add((depends_on, dependent))
        if force:
            forced.add((depends_on, dependent))

    def innermost(kind):
        return next((q for k, q in reversed(stack) if k == kind), None)

    def mention(q):
        """A view of q is made through a Selector."""
        if innermost('load'):
            add(innermost('load'), q, False, 'load')

    def used(q):
        if innermost('run'):
            add(innermost('run'), q, True, 'run')

    def m_execute(q):
        if q in files:
            stack.append(('load', q))
            for kind, t in files[q]:
                m_access(kind, t)
            stack.pop()

    def m_load(q):
        if q not in loaded:
            m_execute(q)
            loaded.add(q)

    def m_body(q):
        for kind, t in programs[leaf_of[q]]:
            m_access(kind, t)

    def m_run(q):
        stack.append(('run', q))
        m_load(q)
        m_body(q)
        stack.pop()
        used(q)

    def ordered(sec):
        return in_section(sec)

    def m_access(kind, q):
        if kind == 'run':
            m_run(q)
        elif kind == 'runlist':
            for x in q:
                m_run(x)
        elif kind == 'runsection':
            for x in ordered(q):
                m_run(x)
        elif kind in ('get', 'attr'):
            m_load(q)
            used(q)
        elif kind == 'getsection':
            if not is_mixed(q):
                for x in ordered(q):
                    m_load(x)
                    used(x)
        elif kind == 'config':
            m_load(q)
        elif kind == 'sectionview':
            pass
        else:
            mention(q)
            if kind in ('call', 'item', 'look', 'method', 'has'):
                if innermost('load'):
                    add(innermost('load'), q, True, 'load')
                m_load(q)
                if kind != 'has':
                    used(q)
                else:
                    used(q)
                if kind == 'call' and not is_class(q):
                    m_body(q)

    def compare(what):
        def as_dict(edges):
            out = {}
            for on, dep in edges:
                out.setdefault(on, set()).add(dep)
            return {k: sorted(v) for k, v in sorted(out.items())}
        real = lambda d: {k: sorted(x.path_str for x in v) for k, v in sorted(d.items()) if v}
        check_eq(real(ctx.force_update_dependencies), as_dict(forced), f'{what}: force_update_dependencies (item: its dependents)')
        check_eq(real(ctx.config_dependencies), as_dict(plain), f'{what}: config_dependencies (item: its dependents)')
        check_eq(len(ctx.stack.frames), 0, f'{what}: stack')

    compare('after load')
    count = 100
    tags = set()
    for i, op in enumerate(case['ops']):
        q = paths[op[-1 if op[0] == 'outside' else 1] % len(paths)]
        what = f'step {i} {op} {q}'
        m, rel = q.split('.', 1)
        man = pms[m]
        tags.add(op[0])
        if op[0] == 'run':
            man.run(rel)
            m_run(q)
        elif op[0] == 'get':
            man.get(rel)
            m_load(q)
        elif op[0] == 'attr':
            x = man
            for part in rel.split('.'):
                x = getattr(x, part)
            m_load(q)
        elif op[0] == 'section':
            sec = secs[op[1] % len(secs)]
            m, rel = sec.split('.', 1)
            what += f' {sec}'
            pms[m].run(rel)
            m_access('runsection', sec)
        elif op[0] == 'config':
            man.config.get(rel)
            m_load(q)
        elif op[0] == 'observe':
            dir(w.p.Selector()), repr(w.p.Selector().pm), list(dir(getattr(w.p.Selector(), m)))
        elif op[0] == 'refresh':
            man.refresh(rel)
            m_load(q)
            m_execute(q)
        elif op[0] == 'reset':
            man.reset(rel)
            m_load(q)
            m_execute(q)
        elif op[0] == 'update':
            t = paths[op[2] % len(paths)]
            what += f' with view of {t}'
            view = w.p.ItemView.from_section_path_str(t)
            if op[3] == 'dict':
                man.update({'b': view}, section_path_str=rel)
            elif op[3] == 'kw':
                man.update(section_path_str=rel, b=view)
            elif op[3] == 'both':
                man.update({'a': 5}, section_path_str=rel, b=view)
            elif op[3] in ('two', 'two kw'):
                # several views at once, all of them count
                other = paths[(op[2] // 3 + op[1]) % len(paths)]
                given = {'a': w.p.ItemView.from_section_path_str(other), 'b': view}
                if op[3] == 'two':
                    man.update(given, section_path_str=rel)
                else:
                    man.update({'a': given['a']}, section_path_str=rel, b=view)
            elif op[3] == 'overriding':
                man.update({'b': 7}, section_path_str=rel, b=view)
            elif op[3] == 'overridden':
                # the keyword takes precedence, as in the config itself
                count += 1
                man.update({'b': view}, section_path_str=rel, b=count)
            elif op[3] == 'setattr':
                setattr(w.p.ItemView.from_section_path_str(q), 'b', view)
            elif op[3] == 'batch':
                man.update_batch([dict(section_path_str=rel, b=view)])
            elif op[3] == 'temp':
                man.update({'b': view}, section_path_str=rel, pyfileconf_persist=False)
            elif op[3] == 'section':
                if m == 'pm' and rel.startswith('S.'):
                    continue
                man.update({'zz': view}, section_path_str=rel.rsplit('.', 1)[0])
            elif op[3] == 'str':
                # only a string, not a view
                man.update({'b': t}, section_path_str=rel)
            else:
                count += 1
                man.update({'b': count}, section_path_str=rel)
            if op[3] == 'section':
                add(q.rsplit('.', 1)[0], t, False, 'update')
            else:
                m_load(q)
                if op[3] not in ('plain', 'str', 'overridden'):
                    add(q, t, False, 'update')
                if op[3] in ('two', 'two kw'):
                    add(q, other, False, 'update')
        elif op[0] == 'outside':
            kind = op[1]
            if kind == 'method' and leaf_of[q][0] not in 'SKL':
                continue
            if kind == 'sectionview':
                q = secs[op[2] % len(secs)]
            eval(expr(kind, q), dict(s=w.p.Selector(), ItemView=w.p.ItemView))
            m_access(kind, q)
        compare(what)
    return Info(forced and plain != forced and made['run'] and made['load'], *sorted(tags), *[f'edges by {k}' for k, v in made.items() if v])


SUBS = [Sub('recorded', cases(), run, quick=900, thorough=30000)]
