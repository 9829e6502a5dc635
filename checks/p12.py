"""P12: specific class dicts configure objects of the given class."""
import ast
import copy

from hypothesis import strategies as st

from checks.p04 import Living
from lib import gen, model
from lib.vh import Info, Sub, Violation, World, check, check_eq

PROPERTY = 'P12'
TECHNIQUE = 'property-based testing: generated specific class dicts (classes, key_attr, execute_attr, always imports and assigns) against a direct model of the documented configuration'
LEVEL_NOTE = ('One to three specific class dicts over one to three classes (the same class may be used by several dicts with other settings), generated signatures '
              'with annotations, imported and module-level defaults; config files are parsed and executed on their own, objects and results compared, then updates, edits, reloads and creation of entries in existing and new sections applied.')
RULE = 'a case is a set of specific class dicts; non-trivial when there are at least two dicts or one with non-default settings'
ASSUMPTIONS = ['always assigns do not reuse names of init arguments', 'class dict entries are strings']

KEYS = ['name', 'key', 'ident']
EXECS = ['__call__', 'go', 'execute_it']
DICTS = ['things', 'stuff', 'more_things']
ENTRIES = ['e1', 'e2', 'entry_three', 'Cap', 'go']
vals = st.one_of(st.integers(2, 99), st.sampled_from(['txt', "it's", '']), st.lists(st.integers(2, 4), max_size=2), st.none())
IMPORTS = [None, [], ['import os'], ['from os import sep'], ['import os', 'from os.path import join as j'], ['from pyfileconf import Selector', 'import json']]
ASSIGNS = [None, [], ['extra_1 = 5'], ['extra_1 = 5', "extra_2 = 'x y'"], ["extra_2 = ['a', 'b']", 'extra_1: int = 7', 'extra_3 = None'], ['extra_3 = {"k": 1}']]
NAMES = {'extra_1', 'extra_2', 'extra_3'}


@st.composite
def cases(draw):
    classes = []
    for i in range(draw(st.integers(1, 3))):
        ps = draw(gen.params(0, 3, vals))
        for p in ps:
            # exotic defaults: a module level name, an attribute of an import, an imported name
            p.append(draw(st.sampled_from(['lit', 'lit', 'lit', 'name', 'attr', 'from'])) if p[1] else 'lit')
            p.append(draw(st.sampled_from([None, None, 'int', 'Optional[int]', 'ann.Dict[str, int]', "'Later'"])))
        classes.append(dict(params=ps, hook=draw(st.booleans()), first=draw(st.sampled_from(KEYS)), key_default=draw(st.sampled_from([None, None, 'unnamed', ''])), keys_annotated=draw(st.booleans())))
    dicts = []
    for i in range(draw(st.integers(1, 3))):
        dicts.append(dict(name=DICTS[i], cls=draw(st.integers(0, len(classes) - 1)), key=draw(st.sampled_from([None] + KEYS)),
                          exec=draw(st.sampled_from([None] + EXECS)), imports=draw(st.integers(0, len(IMPORTS) - 1)),
                          assigns=draw(st.integers(0, len(ASSIGNS) - 1)), tree=draw(gen.trees(ENTRIES, max_depth=2, max_sections=2))))
    return dict(classes=classes, dicts=dicts,
                ops=draw(st.lists(st.tuples(st.sampled_from(['update', 'edit', 'reset', 'reload', 'refresh', 'runsection', 'create', 'create']), st.integers(0, 30), st.integers(0, 5), st.integers(2, 99)), max_size=6)))


def default_text(p):
    if p[4] == 'name':
        return 'MODULE_LEVEL'
    if p[4] == 'attr':
        return 'ann.__name__'
    if p[4] == 'from':
        return 'sentinel'
    return repr(p[2])


def default_value(p):
    if not p[1]:
        return None
    return {'name': 'module-level', 'attr': 'typing', 'from': '/'}.get(p[4], p[2])


def class_source(i, c):
    n_pos = len([p for p in c['params'] if not p[3]])
    keys = [c['first']] + [k for k in KEYS if k != c['first']]
    ann = ': Optional[str]' if c['keys_annotated'] else ''
    parts, star = ['self'], False
    order = c['params'][:n_pos] + [[k, True, c.get('key_default'), False, 'key', None] for k in keys] + c['params'][n_pos:]
    for p in order:
        if p[3] and not star:
            parts.append('*')
            star = True
        a = ann if p[4] == 'key' else (': ' + p[5] if p[5] else '')
        parts.append(p[0] + a + ('' if not p[1] else (' = ' if a else '=') + (repr(p[2]) if p[4] == 'key' else default_text(p))))
    out = f'class Klass{i}:\n\n    def __init__({", ".join(parts)}):\n'
    for p in order:
        out += f'        self.{p[0]} = {p[0]}\n'
    d = ', '.join(f'{p[0]}=self.{p[0]}' for p in order)
    for e in EXECS:
        out += f'\n    def {e}(self):\n        return ["Klass{i}", {e!r}, dict({d})]\n'
    if c['hook']:
        out += '\n    def _pyfileconf_update_(self, **kw):\n        for k, v in kw.items():\n            setattr(self, k, v)\n'
    return out + '\n\n', order


def run(case):
    case = copy.deepcopy(case)
    with World() as w:
        src, orders = 'from typing import Optional\nimport typing as ann\nfrom os import sep as sentinel\n\nMODULE_LEVEL = "module-level"\n\n\n', []
        for i, c in enumerate(case['classes']):
            t, o = class_source(i, c)
            src += t
            orders.append(o)
        w.module('gm_spec', src + 'class Later:\n    pass\n')
        w.module('gm_src', 'def func(a=2):\n    return ["func", a]\n')
        w.write('proj/pipeline_dict.py', 'from gm_src import func\n\npipeline_dict = {\n    "main": [func],\n}\n')
        import gm_spec
        conf, items = [], {}
        for d in case['dicts']:
            entry = {'name': d['name'], 'class': getattr(gm_spec, f'Klass{d["cls"]}')}
            if d['key']:
                entry['key_attr'] = d['key']
            if d['exec']:
                entry['execute_attr'] = d['exec']
            if IMPORTS[d['imports']] is not None or d['cls']:
                entry['always_import_strs'] = IMPORTS[d['imports']]
            if ASSIGNS[d['assigns']] is not None:
                entry['always_assign_strs'] = ASSIGNS[d['assigns']]
            conf.append(entry)
            w.write(f'proj/{d["name"]}_dict.py', 'class_dict = ' + gen.render_class_dict(d['tree']) + '\n')
            for sec, e in gen.leaves(d['tree']):
                cfg = {p[0]: default_value(p) for p in orders[d['cls']]}
                cfg[d['key'] or 'name'] = e
                items['.'.join((d['name'],) + sec + (e,))] = (d, cfg)
        given = [dict(x) for x in conf]
        # default assigns need the default imports: `s = Selector()`
        for d in case['dicts']:
            if ASSIGNS[d['assigns']] is None and 'Selector' not in str(IMPORTS[d['imports']] if IMPORTS[d['imports']] is not None else 'Selector'):
                return Info(False, 'incompatible')
        pm = w.manager(specific_class_config_dicts=conf)
        check_eq([list(x) for x in conf], [list(x) for x in given], 'the specific class dicts passed in')
        m = model.CfgModel({q: cfg for q, (_, cfg) in items.items()})

        def file_of(q):
            return 'proj/defaults/' + q.replace('.', '/') + '.py'

        def check_file(q):
            d, cfg = items[q]
            text = w.read(file_of(q))
            names = [ast.unparse(t) for n in ast.parse(text).body if isinstance(n, (ast.Assign, ast.AnnAssign)) for t in (n.targets if isinstance(n, ast.Assign) else [n.target])]
            want_args = [p[0] for p in orders[d['cls']]]
            assigns = ASSIGNS[d['assigns']]
            extra = ['s'] if assigns is None else [a.split(':')[0].split('=')[0].strip() for a in assigns]
            check_eq(sorted(names), sorted(want_args + extra), f'variables of {q}:\n{text}')
            check_eq([x for x in names if x in want_args], want_args, f'order of the arguments in {q}')
            ns = {}
            try:
                exec(compile(text, q, 'exec'), ns)
            except Exception as e:
                raise Violation(f'config file of {q} does not execute: {e!r}\n{text}')
            check_eq({k: ns[k] for k in want_args}, cfg, f'values in the config file of {q}:\n{text}')
            wanted = {}
            for line in (IMPORTS[d['imports']] if IMPORTS[d['imports']] is not None else ['from pyfileconf import Selector']):
                exec(line, wanted)
            for a in assigns or []:
                exec(a, wanted)
            wanted.pop('__builtins__', None)
            wanted.pop('__annotations__', None)
            for k, v in wanted.items():
                check(k in ns and (ns[k] is v or ns[k] == v), f'always import or assign {k} in the config file of {q}:\n{text}', actual=ns.get(k), expected=v)
            # annotations
            anns = {n.target.id: ast.unparse(n.annotation) for n in ast.parse(text).body if isinstance(n, ast.AnnAssign)}
            c = case['classes'][d['cls']]
            want_ann = {p[0]: ('Optional[str]' if c['keys_annotated'] else None) if p[4] == 'key' else p[5] for p in orders[d['cls']]}
            check_eq({k: v for k, v in anns.items() if k in want_ann}, {k: v.strip("'") for k, v in want_ann.items() if v}, f'annotations in {q}')

        for q in items:
            check_file(q)

        def result(q):
            d = items[q][0]
            return [f'Klass{d["cls"]}', d['exec'] or '__call__', m.cfg[q]]

        def compare(what):
            for q, (d, _) in items.items():
                o = pm.get(q)
                check(type(o).__name__ == f'Klass{d["cls"]}', f'{what}: class of {q}', actual=o)
                check_eq(getattr(o, d['key'] or 'name'), q.split('.')[-1], f'{what}: key attribute of {q}')
                check_eq({k: getattr(o, k) for k in m.cfg[q]}, m.cfg[q], f'{what}: attributes of {q}')
                check_eq(pm.run(q), result(q), f'{what}: run {q}')
            check_eq(pm.run('main.func'), ['func', 2], f'{what}: run main.func')

        if case['ops'] and case['ops'][0][1] % 2:
            compare('after load')
        paths = list(items)
        for n, (op, i, k, v) in enumerate(case['ops']):
            q = paths[i % len(paths)]
            d = items[q][0]
            args = [a for a in m.cfg[q] if a != (d['key'] or 'name')]
            u = {args[k % len(args)]: v}
            what = f'step {n} {op} {q}'
            if op == 'create':
                # an entry created into an existing or a new section gets the settings of its dict
                base = q.rsplit('.', 1)[0]
                up = base.rsplit('.', 1)[0]
                sec = [base, up + '.fresh', up + '.fresh.inner', d['name'] + '.fresh', d['name'] + '.other.inner', up + '.Other'][k]
                if not Living.can_create(d['tree'], sec.split('.')[1:], f'made{n}'):
                    continue
                Living.do_create(d['tree'], sec.split('.')[1:], f'made{n}')
                new = f'{sec}.made{n}'
                cfg = {p[0]: default_value(p) for p in orders[d['cls']]}
                cfg[d['key'] or 'name'] = f'made{n}'
                pm.create(new)
                items[new] = (d, cfg)
                m.add(new, cfg)
                check_file(new)
                paths.append(new)
            elif op == 'update':
                pm.update(u, q)
                m.update(q, u)
            elif op == 'edit':
                pm.config.get(q)
                text = w.read(file_of(q)) + ''.join(f'{a} = {x!r}\n' for a, x in u.items())
                w.write(file_of(q), text)
                m.edit(q, u)
                pm.refresh(q)
                m.refresh(q)
            elif op in ('reset', 'refresh'):
                getattr(pm, op)(q)
                getattr(m, op)(q)
            elif op == 'reload':
                before = w.snapshot()
                pm.reload()
                m.reload()
                now = w.snapshot()
                for f in now:
                    if f.startswith('defaults') and f.endswith('.py') and before[f] != now[f]:
                        # an edit appended below is merged with the scaffolded assignment; nothing else may change
                        ns1, ns2 = {}, {}
                        exec(before[f], ns1)
                        exec(now[f], ns2)
                        drop = ('__builtins__', '__annotations__', 's')
                        check_eq({a: b for a, b in ns2.items() if a not in drop}, {a: b for a, b in ns1.items() if a not in drop}, f'{what}: {f} after reload')
            else:
                sec = q.rsplit('.', 1)[0]
                tree = gen.subtree(d['tree'], sec.split('.')[1:])
                if all(sub is None for _, sub in gen.children(tree)):
                    check_eq(pm.run(sec), [result(f'{sec}.{e}') for e, _ in gen.children(tree)], f'{what}: run section')
            if v % 2:
                compare(what)
        compare('at the end')
        settings = any(d['key'] or d['exec'] or IMPORTS[d['imports']] or ASSIGNS[d['assigns']] for d in case['dicts'])
        same = len({d['cls'] for d in case['dicts']}) < len(case['dicts'])
        return Info(settings or len(case['dicts']) > 1, 'same class twice' if same else '', *['imports' if IMPORTS[d['imports']] else '' for d in case['dicts']],
                    *['assigns' if ASSIGNS[d['assigns']] else '' for d in case['dicts']])


SUBS = [Sub('dicts', cases(), run, quick=500, thorough=25000)]
