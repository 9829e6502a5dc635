"""P15: changing a config refreshes everything that depends on it."""
import importlib
import sys
import types

from hypothesis import strategies as st

from lib import gen
from lib.vh import Info, Sub, World, check, check_eq

PROPERTY = 'P15'
TECHNIQUE = 'stateful model-based testing: generated dependency graphs and histories of changes against a model that evaluates config files anew'
LEVEL_NOTE = ('Random acyclic graphs of references between the config files of two managers (attributes, calls, methods, conditions), items that read others while running '
              '(also in cycles), and histories of updates, resets, refreshes, file edits and reloads; all configs, held objects and results are compared after every step.')
RULE = 'a case is a graph and a history; non-trivial when a change reached the config of at least one other item'
ASSUMPTIONS = ['references go through a Selector', 'updates with pyfileconf_persist=False are made only to items which do not depend on others',
               'all managers involved are reloaded together', 'config files do not depend on each other in a cycle']

MAIN = ['f0', 'K0', 'f1', 'S0', 'f2', 'K1']
OTHER = ['g0', 'L0', 'g1', 'L1']
ENTRIES = ['e1', 'e2', 'e3']
VIAS = ['plain', 'plain', 'item', 'from_str', 'helper', 'method']


@st.composite
def exprs(draw):
    n = st.integers(0, 60)
    ref = st.tuples(n, st.sampled_from(['a', 'b']), st.sampled_from(VIAS))
    return draw(st.one_of(st.tuples(st.just('const')), st.tuples(st.just('ref'), ref), st.tuples(st.just('ref'), ref),
                          st.tuples(st.just('sum'), ref, ref), st.tuples(st.just('cond'), ref, ref)))


@st.composite
def cases(draw):
    n = st.integers(0, 60)
    shape = draw(st.sampled_from(['tree', 'chain', 'free']))
    tree = draw(gen.trees([x for x in MAIN if x != 'S0'], max_depth=2, max_sections=2))
    # the second manager may have items of the same section paths
    tree2 = draw(st.one_of(gen.trees(OTHER, max_depth=2, max_sections=1), gen.trees(OTHER, max_depth=2, max_sections=1), st.just(tree)))
    files = draw(st.lists(st.tuples(n, st.sampled_from(['a', 'b']), exprs()), min_size=draw(st.integers(1, 6)), max_size=12))
    reads = draw(st.lists(st.tuples(n, n, st.sampled_from(['a', 'b'])), max_size=4))
    forms = st.sampled_from(['dict', 'kw', 'setattr', 'batch', 'temp'])
    op = st.one_of(
        st.tuples(st.just('update'), n, st.sampled_from(['a', 'b']), forms), st.tuples(st.just('update'), n, st.sampled_from(['a', 'b']), forms),
        st.tuples(st.just('same'), n, st.sampled_from(['a', 'b'])),
        st.tuples(st.sampled_from(['reset', 'refresh', 'get', 'run', 'run', 'config', 'section']), n),
        st.tuples(st.just('edit'), n, st.sampled_from(['a', 'b']), exprs(), st.sampled_from(['refresh', 'reset', 'late'])),
        # an item which changes a config (its own, or another one) while it runs
        st.tuples(st.just('selfwrite'), n, st.sampled_from(['a', 'b']), st.booleans(), n),
        st.tuples(st.just('loadall')), st.tuples(st.just('reload')), st.tuples(st.just('remove'), n),
    )
    return dict(tree=tree, tree2=tree2, specs=draw(st.lists(st.sampled_from(ENTRIES), unique=True, max_size=3)), shape=shape, order=draw(st.integers(0, 10 ** 6)),
                files=files, reads=reads, loadall=draw(st.booleans()), ops=draw(st.lists(op, min_size=draw(st.integers(2, 6)), max_size=10)))


def run(case):
    try:
        with World() as w:
            return run_(case, w)
    finally:
        sys.modules.pop('gm_ctl', None)


def run_(case, w):
    import random
    tree, tree2, specs = case['tree'], case['tree2'], case['specs']
    ctl = types.ModuleType('gm_ctl')
    sys.modules['gm_ctl'] = ctl
    in_order = ['pm.' + '.'.join(s + (l,)) for s, l in gen.leaves(tree)] + [f'pm.S.sec.{e}' for e in specs] + ['pm2.' + '.'.join(s + (l,)) for s, l in gen.leaves(tree2)]
    paths = list(in_order)
    random.Random(case['order']).shuffle(paths)      # files may only refer to items after their own
    leaf_of = {q: 'S0' if q.startswith('pm.S.') else q.split('.')[-1] for q in paths}
    is_func = lambda q: leaf_of[q][0] in 'fg'
    secs = ['pm.' + '.'.join(s) for s in gen.sections(tree)] + (['pm.S', 'pm.S.sec'] if specs else []) + ['pm2.' + '.'.join(s) for s in gen.sections(tree2)]
    count = [100]

    def number():
        count[0] += 1
        return count[0]

    def resolve(q, e):
        """An expression with its targets; nothing to refer to gives a constant."""
        later = paths[paths.index(q) + 1:]
        if case['shape'] == 'chain':
            later = later[:2]
        if e[0] == 'const' or not later:
            return ['const', number()]
        refs = [[later[n % len(later)], attr, via] for n, attr, via in e[1:]]
        return [e[0]] + refs + ([number()] if e[0] == 'cond' else [])

    exprs_ = {q: {'a': ['const', 1], 'b': ['const', 2]} for q in paths}
    for i, arg, e in case['files']:
        q = paths[i % len(paths)]
        exprs_[q][arg] = resolve(q, e)
    # a function may be called by a file, so it reads only items after its own; classes may read any
    reads = {}
    for i, j, attr in case['reads']:
        q = paths[i % len(paths)]
        cand = [x for x in (paths[paths.index(q) + 1:] if is_func(q) else paths) if not is_func(x) and x != q and (is_func(q) is False or True)]
        if cand:
            reads.setdefault(leaf_of[q] if not is_func(q) else q, []).append([cand[j % len(cand)], attr])
    # the source of a function is shared by all its paths
    reads_of_leaf = {}
    for key, lst in reads.items():
        leaf = leaf_of.get(key, key)
        for x, attr in lst:
            same = [p for p in paths if leaf_of[p] == leaf]
            if leaf[0] in 'fg' and not all(paths.index(p) < paths.index(x) for p in same):
                continue
            reads_of_leaf.setdefault(leaf, []).append([x, attr])

    def body(leaf, a, b):
        from pyfileconf import Selector
        s = Selector()
        if armed and armed[0][0] == leaf:
            _, path, u, form = armed.pop()
            m, rel = path.split('.', 1)
            if form % 2:
                setattr(getattr_path(s, path), *u)
            else:
                pms[m].update(dict([u]), rel)
        return a + b + sum(getattr(getattr_path(s, x), attr) for x, attr in reads_of_leaf.get(leaf, []) if x in alive)

    def getattr_path(x, path):
        for part in path.split('.'):
            x = getattr(x, part)
        return x
    armed = []
    m_armed = []
    ctl.body = body

    def ref_text(ref, helper):
        q, attr, via = ref
        view = f's.{q}'
        if via == 'from_str':
            view = f'ItemView.from_section_path_str({q!r})'
        elif via == 'helper':
            helper.append(f'helper_{len(helper)} = {view}')
            view = f'helper_{len(helper) - 1}'
        if is_func(q):
            return f'{view}()' if attr == 'a' else f"{view}.{'item.' if via == 'item' else ''}keywords['b']"
        if via == 'method':
            return f'{view}.value_of_{attr}()'
        return f'{view}.{"item." if via == "item" else ""}{attr}'

    def expr_text(e, helper):
        if e[0] == 'const':
            return repr(e[1])
        if e[0] == 'ref':
            return ref_text(e[1], helper) + ' + 1'
        if e[0] == 'sum':
            return f'{ref_text(e[1], helper)} + {ref_text(e[2], helper)}'
        return f'{ref_text(e[1], helper)} if {ref_text(e[2], helper)} % 2 else {e[3]}'

    def write_file(q):
        helper = []
        lines = [f'{arg} = {expr_text(exprs_[q][arg], helper)}' for arg in ('a', 'b')]
        m, rel = q.split('.', 1)
        if leaf_of[q] == 'S0':
            lines.append(f"name = {q.split('.')[-1]!r}")
        w.write(f'proj{m[2:]}/defaults/{rel.replace(".", "/")}.py',
                'from pyfileconf import Selector\nfrom pyfileconf.selector.models.itemview import ItemView\n\ns = Selector()\n' + '\n'.join(helper + lines) + '\n')

    src = 'import gm_ctl\n\n\n'
    for leaf in MAIN + OTHER:
        if leaf[0] in 'fg':
            src += f'def {leaf}(a=1, b=2):\n    return gm_ctl.body({leaf!r}, a, b)\n\n\n'
        else:
            name = 'name=None, ' if leaf == 'S0' else ''
            src += (f'class {leaf}:\n\n    def __init__(self, {name}a=1, b=2):\n        self.a = a\n        self.b = b\n' + ('        self.name = name\n' if name else '')
                    + f'\n    def __call__(self):\n        return gm_ctl.body({leaf!r}, self.a, self.b)\n\n    def value_of_a(self):\n        return self.a\n\n    def value_of_b(self):\n        return self.b\n')
            if leaf in ('K1', 'S0'):
                src += '\n    def _pyfileconf_update_(self, **kwargs):\n        for k, v in kwargs.items():\n            setattr(self, k, v)\n'
            src += '\n\n'
    w.module('gm_src', src)
    alive = set(paths)

    def write_dicts():
        def prune(node, prefix):
            if isinstance(node, dict):
                return {k: prune(v, prefix + [k]) for k, v in node.items()}
            return [x for x in node if '.'.join(prefix + [x]) in alive]
        w.write('proj/pipeline_dict.py', f'from gm_src import {", ".join(x for x in MAIN if x != "S0")}\n\npipeline_dict = {gen.render_pipeline_dict(prune(tree, ["pm"]))}\n')
        w.write('proj2/pipeline_dict.py', f'from gm_src import {", ".join([x for x in MAIN if x != "S0"] + OTHER)}\n\npipeline_dict = {gen.render_pipeline_dict(prune(tree2, ["pm2"]))}\n')
        if specs:
            w.write('proj/S_dict.py', f'class_dict = {{"sec": {[e for e in specs if f"pm.S.sec.{e}" in alive]!r}}}\n')
    write_dicts()
    spec_arg = None
    if specs:
        spec_arg = [{'name': 'S', 'class': importlib.import_module('gm_src').S0, 'key_attr': 'name'}]
    pms = {'pm': w.manager('proj', 'pm', specific_class_config_dicts=spec_arg), 'pm2': w.manager('proj2', 'pm2')}
    for q in paths:
        if any(e[0] != 'const' or e[1] > 2 for e in exprs_[q].values()):
            write_file(q)

    # ---- model ----------------------------------------------------------------------
    cfg, applied, loaded, stack = {}, {q: {} for q in paths}, set(), []
    forced = {}         # depends on -> dependents
    reached = set()
    trail = []

    def used(q):
        for kind in ('load', 'run'):
            x = next((x for k, x in reversed(stack) if k == kind), None)
            if x is not None and x != q:
                forced.setdefault(q, set()).add(x)

    def m_ref(ref):
        q, attr, via = ref
        used(q)
        m_load(q)
        if is_func(q) and attr == 'a':
            return m_body(q)
        return cfg[q][attr]

    def m_eval(e):
        if e[0] == 'const':
            return e[1]
        if e[0] == 'ref':
            return m_ref(e[1]) + 1
        if e[0] == 'sum':
            return m_ref(e[1]) + m_ref(e[2])
        return m_ref(e[1]) if m_ref(e[2]) % 2 else e[3]

    def m_file(q):
        stack.append(('load', q))
        out = {arg: m_eval(exprs_[q][arg]) for arg in ('a', 'b')}
        stack.pop()
        return out

    def m_config(q):
        if q not in cfg:
            cfg[q] = m_file(q)

    def m_load(q):
        m_config(q)
        loaded.add(q)

    def m_body(q):
        total = cfg[q]['a'] + cfg[q]['b']
        if m_armed and m_armed[0][0] == leaf_of[q]:
            _, path, u, form = m_armed.pop()
            if form % 2:
                used(path)
                m_load(path)
            m_update(path, dict([u]), True)
        for x, attr in reads_of_leaf.get(leaf_of[q], []):
            if x in alive:
                total += m_ref([x, attr, 'plain'])
        return total

    def m_run(q):
        stack.append(('run', q))
        m_load(q)
        out = m_body(q)
        stack.pop()
        return out

    def m_set(q, new, depth=0):
        if new == cfg[q]:
            return
        cfg[q] = new
        trail.append(q)
        if q not in loaded:
            return
        done = set()
        while True:
            todo = forced.get(q, set()) - done
            if not todo:
                return
            for d in sorted(todo):
                done.add(d)
                m_refresh(d)

    def m_refresh(q):
        m_config(q)
        late.discard(q)
        m_set(q, {**m_file(q), **applied[q]})

    def m_update(q, u, persist):
        m_config(q)
        if persist:
            applied[q].update(u)
        m_set(q, {**cfg[q], **u})

    def m_reset(q):
        late.discard(q)
        applied[q] = {}
        new = m_file(q)
        m_config(q)
        m_set(q, new)

    late = set()
    held = {}

    def compare(what, full):
        for q in paths:
            if q not in alive or (q not in cfg and not full):
                continue
            m, rel = q.split('.', 1)
            m_config(q)
            c = pms[m].config.get(rel)
            check_eq({k: c[k] for k in ('a', 'b')}, cfg[q], f'{what}: config of {q} ({text_of(q)})')
            if q in loaded or full:
                obj = pms[m].get(rel)
                m_load(q)
                if q in held:
                    check(held[q] is obj, f'{what}: get({q}) is another object')
                held[q] = obj
                check_eq(dict(obj.keywords) if is_func(q) else dict(a=obj.a, b=obj.b), cfg[q], f'{what}: object of {q} ({text_of(q)})')

    def text_of(q):
        h = []
        return '; '.join(f'{arg} = {expr_text(exprs_[q][arg], h)}' for arg in ('a', 'b')) + ''.join('; ' + x for x in h)

    def depends_on_others(q):
        return any(e[0] != 'const' for e in exprs_[q].values()) or bool(reads_of_leaf.get(leaf_of[q]))

    def load_all():
        for q in in_order:
            if q in alive:
                m, rel = q.split('.', 1)
                check_eq(pms[m].run(rel), m_run(q), f'loading all: result of {q}')

    tags = {'same paths in both managers'} if tree2 == tree else set()
    if case['loadall']:
        load_all()
        compare('after loading all', True)
    for i, op in enumerate(case['ops']):
        live = [q for q in paths if q in alive]
        if not live:
            break
        q = live[op[1] % len(live)] if len(op) > 1 else None
        what = f'step {i} {op} {q}'
        m, rel = q.split('.', 1) if q else (None, None)
        man = pms.get(m)
        trail.clear()
        if op[0] in ('update', 'same'):
            arg = op[2]
            if op[0] == 'same':
                if q not in cfg:
                    continue
                u = {arg: cfg[q][arg]}
            else:
                u = {arg: number()}
            form = op[3] if op[0] == 'update' else 'dict'
            if form == 'temp' and depends_on_others(q):
                form = 'dict'
            if form == 'dict' or form == 'temp':
                man.update(u, section_path_str=rel, pyfileconf_persist=form == 'dict')
            elif form == 'kw':
                man.update(section_path_str=rel, **u)
            elif form == 'setattr':
                setattr(w.p.ItemView.from_section_path_str(q), arg, u[arg])
            else:
                man.update_batch([dict(section_path_str=rel, **u)])
            m_update(q, u, form != 'temp')
            tags.add('update ' + form)
        elif op[0] == 'reset':
            man.reset(rel)
            m_reset(q)
        elif op[0] == 'refresh':
            man.refresh(rel)
            m_refresh(q)
        elif op[0] == 'get':
            man.get(rel)
            m_load(q)
        elif op[0] == 'config':
            man.config.get(rel)
            m_config(q)
        elif op[0] == 'run':
            check_eq(man.run(rel), m_run(q), f'{what}: result')
        elif op[0] == 'selfwrite':
            target = q if op[3] else live[op[4] % len(live)]
            man.get(rel)
            m_load(q)
            write = (leaf_of[q], target, (op[2], number()), op[4])
            armed[:], m_armed[:] = [write], [write]
            check_eq(man.run(rel), m_run(q), f'{what}: result (updates {write[1:3]} while it runs)')
            check(not armed and not m_armed, f'{what}: not executed')
            tags.add('update while running: ' + ('itself' if target == q else 'another item'))
        elif op[0] == 'section':
            sec = secs[op[1] % len(secs)]
            inside = [x for x in in_order if x.startswith(sec + '.') and x in alive]
            m, rel = sec.split('.', 1)
            flat, todo = [], [pms[m].run(rel)]
            while todo:
                r = todo.pop(0)
                if isinstance(r, list):
                    todo = r + todo
                else:
                    flat.append(r)
            check_eq(flat, [m_run(x) for x in inside], f'{what}: results of {sec}')
        elif op[0] == 'edit':
            e = resolve(q, op[3])
            refs = [r[0] for r in e[1:] if isinstance(r, list)]
            if any(x not in alive for x in refs):
                continue
            if op[4] == 'late':
                # edited now, read when something it depends on changes
                on = [x for x in forced if q in forced[x] and x in alive]
                if forced.get(q) or q not in cfg or len(on) != 1 or (late - {q}):
                    continue
                upstream = on[0]
                exprs_[q][op[2]] = e
                write_file(q)
                late.add(q)
                compare(what, False)
                before = dict(cfg[upstream])
                um, urel = upstream.split('.', 1)
                u = {'b': number()}
                pms[um].update(u, section_path_str=urel)
                m_update(upstream, u, True)
                tags.add('late edit')
            else:
                exprs_[q][op[2]] = e
                write_file(q)
                getattr(man, op[4])(rel)
                if op[4] == 'refresh':
                    m_refresh(q)
                else:
                    m_reset(q)
        elif op[0] == 'loadall':
            load_all()
        elif op[0] in ('reload', 'remove'):
            if op[0] == 'remove':
                # an item nobody refers to disappears from the project
                if any(r[0] == q for x in alive for e in exprs_[x].values() for r in e[1:] if isinstance(r, list)):
                    continue
                if any(x == q for lst in reads_of_leaf.values() for x, _ in lst):
                    continue
                if len([x for x in alive if x.rsplit('.', 1)[0] == q.rsplit('.', 1)[0]]) < 2:
                    continue
                alive.discard(q)
                write_dicts()
                import os
                os.remove(w.path(f'proj{m[2:]}/defaults/{rel.replace(".", "/")}.py'))
                held.pop(q, None)
            pms['pm'].reload()
            pms['pm2'].reload()
            cfg.clear(), loaded.clear(), held.clear(), late.clear()
            for x in applied:
                applied[x] = {}
            forced.clear()
            tags.add(op[0])
        if [x for x in trail if x != q]:
            reached.update(x for x in trail if x != q)
            tags.add(f'reach {min(len(set(trail)), 6)}')
        compare(what, False)
    compare('at the end', True)
    for q in in_order:
        if q in alive:
            m, rel = q.split('.', 1)
            check_eq(pms[m].run(rel), m_run(q), f'at the end: result of {q}')
    return Info(bool(reached), *sorted(tags))


SUBS = [Sub('propagation', cases(), run, quick=700, thorough=30000)]
