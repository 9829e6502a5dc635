"""P18: loads are repeatable and recoverable."""
import importlib
import os
import sys

from hypothesis import strategies as st

from lib import gen
from lib.vh import Info, Sub, World, check, check_eq, must_raise

PROPERTY = 'P18'
TECHNIQUE = 'stateful fault-injection testing: generated histories of edits, breakages, repairs, loads and reloads against a model of the state a fresh manager would have'
LEVEL_NOTE = ('Edits of dict files, signatures, sources, helper modules, config files and section files; ten kinds of breakage at every one of those places; load and reload. '
              'After each success all configs, the items that exist, the files and (when run) the results are compared; after each failure it must have raised and be repairable.')
RULE = 'a case is a project and a history; non-trivial when a load failed and a later one succeeded, or a reload had to show an edit of at least two kinds'
ASSUMPTIONS = ['modules imported later than load (by the first use of an item) are not reloaded: a known finding', 'one manager per project and process', 'a name is not an item in one version of the project and a section in another']

SOURCES = {'gm_a': ['f0', 'f1'], 'gm_b': ['f2', 'K0'], 'gm_pkg.mod': ['f3', 'f4']}
MODULE_OF = {n: m for m, names in SOURCES.items() for n in names}
LEAVES = list(MODULE_OF)
ENTRIES = ['e1', 'e2', 'e3']
HELPERS = ['gm_h0', 'gm_h1', 'gm_hp.inner', 'gm_hq']
PACKAGES = ['gm_hq']


@st.composite
def cases(draw):
    n = st.integers(0, 60)
    small = st.integers(1, 9)
    edit = st.one_of(
        st.tuples(st.just('add'), n, st.sampled_from(LEAVES)), st.tuples(st.just('add'), n, st.sampled_from(LEAVES)),
        st.tuples(st.just('remove'), n), st.tuples(st.just('remove'), n),
        st.tuples(st.just('tree'), gen.trees(LEAVES, max_depth=3, max_sections=2)),
        st.tuples(st.just('specs'), st.lists(st.sampled_from(ENTRIES), unique=True)),
        st.tuples(st.just('sig'), st.sampled_from(LEAVES), st.sampled_from(['a', 'b', 'c', 'd']), small),
        st.tuples(st.just('version'), st.sampled_from(list(SOURCES))), st.tuples(st.just('version'), st.sampled_from(list(SOURCES))),
        st.tuples(st.just('helper'), st.sampled_from(HELPERS)), st.tuples(st.just('helper'), st.sampled_from(HELPERS)),
        st.tuples(st.just('config'), n, st.sampled_from(['a', 'b']), small), st.tuples(st.just('delete config'), n),
        st.tuples(st.just('section'), n, st.lists(st.tuples(st.sampled_from(['a', 'b', 'c']), st.one_of(small, st.sampled_from(HELPERS + list(SOURCES)))), max_size=3)),
        st.tuples(st.just('section'), n, st.lists(st.tuples(st.sampled_from(['a', 'b', 'c']), st.sampled_from(HELPERS + list(SOURCES))), max_size=3)),
        st.tuples(st.just('imports'), st.sampled_from(['together', 'each', 'alias'])),
    )
    faults = st.lists(st.one_of(
        st.tuples(st.sampled_from(['dict syntax', 'dict gone', 'dict import', 'dict raises', 'specs syntax']), st.just(0)),
        st.tuples(st.sampled_from(['source syntax', 'source gone', 'source lacks']), n),
        st.tuples(st.sampled_from(['helper raises', 'helper syntax', 'helper gone']), n),
        st.tuples(st.sampled_from(['section raises', 'section syntax', 'config syntax']), n),
    ), min_size=1, max_size=2)
    meanwhile = st.lists(st.one_of(st.tuples(st.just('helper'), st.sampled_from(HELPERS)), st.tuples(st.just('helper'), st.sampled_from(HELPERS)),
                                   st.tuples(st.just('version'), st.sampled_from(list(SOURCES))), edit), max_size=4)
    step = st.one_of(
        st.tuples(st.just('good'), st.lists(edit, max_size=4), st.sampled_from(['reload', 'reload', 'load'])),
        st.tuples(st.just('good'), st.lists(edit, min_size=2, max_size=4), st.just('reload')),
        st.tuples(st.just('bad'), st.lists(edit, max_size=2), faults, st.sampled_from(['reload', 'load']), st.sampled_from(['reload', 'load']), meanwhile),
        st.tuples(st.just('use'), st.sampled_from(['run', 'get', 'update', 'section', 'config']), n),
    )
    return dict(tree=draw(gen.trees(LEAVES, max_depth=3, max_sections=2)), specs=draw(st.one_of(st.none(), st.lists(st.sampled_from(ENTRIES), unique=True))),
                setup=draw(st.lists(edit, max_size=5)), first=draw(st.one_of(st.none(), faults)), meanwhile=draw(meanwhile), steps=draw(st.lists(step, min_size=draw(st.integers(1, 4)), max_size=7)))


class Project:
    """The project as it should be, and what is known of its config files."""

    def __init__(self, case, w):
        self.w = w
        self.tree = case['tree']
        self.specs = case['specs']
        self.sigs = {n: dict(a=1, b=2) for n in LEAVES}
        self.versions = {m: 1 for m in SOURCES}
        self.helpers = {m: 10 for m in HELPERS}
        self.sections = {}          # section -> [[key, value or helper]]
        self.files = {}             # item path -> {arg: value}; those not there are to be scaffolded
        self.allowed = {}           # item path -> signatures it may have been scaffolded from by a failing load
        self.imports = 'together'
        self.faults = []
        self.broken_configs = set()
        self.imported = {}          # module -> value it was imported with
        self.tracked = set()
        self.number = 100

    def leaf(self, path):
        return 'S0' if path.startswith('S.') else path.split('.')[-1]

    def sig(self, path):
        return dict(name=path.split('.')[-1], a=1, b=2) if path.startswith('S.') else self.sigs[self.leaf(path)]

    def items(self):
        out = ['.'.join(s + (l,)) for s, l in gen.leaves(self.tree)]
        return out + [f'S.sec.{e}' for e in self.specs or []]

    def all_sections(self):
        return [''] + ['.'.join(s) for s in gen.sections(self.tree)]

    def value_of(self, mod):
        return self.helpers[mod] if mod in self.helpers else self.versions[mod]

    # ---- edits ------------------------------------------------------------------
    def edit(self, e):
        """Apply to the model; False if it does not apply."""
        kind = e[0]
        if kind in ('add', 'remove'):
            lists = []

            def collect(node):
                for k, v in node.items():
                    collect(v) if isinstance(v, dict) else lists.append(v)
            collect(self.tree)
            lst = lists[e[1] % len(lists)]
            if kind == 'add':
                if e[2] in lst:
                    return False
                lst.append(e[2])
            else:
                if len(lst) < 2:
                    return False
                lst.pop(e[1] % len(lst))
        elif kind == 'tree':
            self.tree = e[1]
        elif kind == 'specs':
            if self.specs is None:
                return False
            self.specs = e[1]
        elif kind == 'sig':
            if not self.editable(MODULE_OF[e[1]]):
                return False
            self.number += 1
            self.sigs[e[1]][e[2]] = self.number
        elif kind == 'version':
            if not self.editable(e[1]):
                return False
            self.versions[e[1]] += 1
        elif kind == 'helper':
            if not self.editable(e[1]):
                return False
            self.number += 1
            self.helpers[e[1]] = self.number
        elif kind == 'config':
            known = sorted(p for p in self.files if p in self.items())
            if not known:
                return False
            p = known[e[1] % len(known)]
            self.number += 1
            self.files[p][e[2]] = self.number
            self.write_config(p)
        elif kind == 'delete config':
            known = sorted(self.files)
            if not known:
                return False
            p = known[e[1] % len(known)]
            os.remove(self.w.path('proj/defaults/' + p.replace('.', '/') + '.py'))
            del self.files[p]
        elif kind == 'section':
            secs = self.all_sections()
            sec = secs[e[1] % len(secs)]
            self.sections[sec] = [kv for i, kv in enumerate(e[2]) if kv[0] not in [x[0] for x in e[2][i + 1:]]]
            self.write_section(sec)
        elif kind == 'imports':
            self.imports = e[1]
        return True

    def editable(self, mod):
        return mod not in self.imported or mod in self.tracked

    def write_config(self, p, text=None):
        body = ''.join(f'{k} = {v!r}\n' for k, v in self.files.get(p, self.sig(p)).items())
        self.w.write('proj/defaults/' + p.replace('.', '/') + '.py', text or 'from pyfileconf import Selector\n\ns = Selector()\n' + body)

    def write_section(self, sec, last='', text=None):
        body = ''
        for k, v in self.sections.get(sec, []):
            body += f'from {v} import VALUE as VALUE_{k}\n' if isinstance(v, str) else ''
        body += '\n'
        for k, v in self.sections.get(sec, []):
            body += f'{k} = VALUE_{k}\n' if isinstance(v, str) else f'{k} = {v!r}\n'
        self.w.write('proj/defaults/' + (sec.replace('.', '/') + '/' if sec else '') + 'section.py', text or body + last)

    def write(self):
        """All files but those of defaults, with the present faults."""
        w = self.w
        faults = [f[0] for f in self.faults]
        self.expect = None           # 'raise' or 'may'
        for m in list(SOURCES) + HELPERS:
            fault = next((f for f, i in self.faults if f.startswith('source' if m in SOURCES else 'helper')
                          and (list(SOURCES) if m in SOURCES else HELPERS)[i % (len(SOURCES) if m in SOURCES else len(HELPERS))] == m), None)
            if '.' in m:
                w.write('src/' + m.split('.')[0] + '/__init__.py', '')
            path = 'src/' + m.replace('.', '/') + ('/__init__.py' if m in PACKAGES else '.py')
            text = f'VALUE = {self.value_of(m)}\n\n\n'
            for n in SOURCES.get(m, []):
                if fault == 'source lacks' and n == SOURCES[m][0]:
                    continue
                sig = ', '.join(f'{k}={v!r}' for k, v in self.sigs[n].items())
                res = f'[{n!r}, {self.versions[m]}, dict({{}})]'
                if n[0].isupper():
                    d = ', '.join(f'{k}=self.{k}' for k in self.sigs[n])
                    text += f'class {n}:\n\n    def __init__(self, {sig}):\n' + ''.join(f'        self.{k} = {k}\n' for k in self.sigs[n]) + \
                            f'\n    def __call__(self):\n        return {res.format(d)}\n\n\n'
                else:
                    text += f'def {n}({sig}):\n    return {res.format(", ".join(f"{k}={k}" for k in self.sigs[n]))}\n\n\n'
            if fault in ('source syntax', 'helper syntax'):
                text = 'def broken(:\n'
            if fault == 'helper raises':
                text += 'raise RuntimeError("helper")\n'
            w.write(path, text)
            if fault in ('source gone', 'helper gone'):
                os.remove(w.path(path))
            users = [s for s, kvs in self.sections.items() if any(v == m for _, v in kvs)]
            if fault and users and fault != 'source lacks' and (m not in self.imported):
                self.expect = 'raise'
            elif fault and m in SOURCES and any(self.leaf(p) in (SOURCES[m][:1] if fault == 'source lacks' else SOURCES[m]) and p not in self.files for p in self.items()):
                self.expect = 'raise'
            elif fault:
                self.expect = self.expect or 'may'
        used = {l for _, l in gen.leaves(self.tree)}
        text, text_tree = '', gen.render_pipeline_dict(self.tree)
        for m, names in SOURCES.items():
            names = [n for n in names if n in used]
            if self.imports == 'together' and names:
                text += f'from {m} import {", ".join(names)}\n'
            elif self.imports == 'each':
                text += ''.join(f'from {m} import {n}\n' for n in names)
            elif names:
                text += f'from {m} import (\n    ' + ',\n    '.join(names) + ',\n)\n'
        text += f'\npipeline_dict = {text_tree}\n'
        if 'dict syntax' in faults:
            text += 'oops = (\n'
        if 'dict import' in faults:
            text = 'from gm_nowhere import new_item\n' + text.replace('pipeline_dict = {', 'pipeline_dict = {"added": [new_item], ', 1)
        if 'dict raises' in faults:
            text = text.replace('pipeline_dict = {', 'pipeline_dict = {"added": [not_imported], ', 1)
        w.write('proj/pipeline_dict.py', text)
        if 'dict gone' in faults:
            os.remove(w.path('proj/pipeline_dict.py'))
        if self.specs is not None:
            w.write('proj/S_dict.py', f'class_dict = {{"sec": {self.specs!r}}}\n' + ('class_dict = (\n' if 'specs syntax' in faults else ''))
        if set(faults) & {'dict syntax', 'dict import', 'dict raises'} or 'specs syntax' in faults and self.specs is not None:
            self.expect = 'raise'
        if 'dict gone' in faults:
            self.expect = 'may'     # taken for an empty one
        self.broken_configs = set()
        for f, i in self.faults:
            if f.startswith('section'):
                secs = self.all_sections()
                sec = secs[i % len(secs)]
                self.write_section(sec, 'raise RuntimeError("section")\n') if f == 'section raises' else self.write_section(sec, text='a = (\n')
                self.expect = 'raise'
            elif f == 'config syntax' and self.files:
                p = sorted(self.files)[i % len(self.files)]
                self.write_config(p, 'a = 5\nb = (\n')
                self.broken_configs.add(p)
                self.expect = self.expect or 'may'
        importlib.invalidate_caches()

    def repair(self):
        for f, i in self.faults:
            if f.startswith('section'):
                secs = self.all_sections()
                self.write_section(secs[i % len(secs)])
        for p in self.broken_configs:
            self.write_config(p)
        self.faults, self.broken_configs = [], set()
        self.write()

    # ---- what a load does -----------------------------------------------------------
    def wiped(self):
        for m in self.tracked:
            self.imported.pop(m, None)
        self.tracked = set()

    def attempted(self):
        """A load failed: what is missing may have been scaffolded."""
        for p in self.items():
            if not set(self.sig(p)) <= set(self.files.get(p, {})):
                self.allowed.setdefault(p, []).append(dict(self.sig(p)))

    def import_for_sections(self):
        for kvs in self.sections.values():
            for _, v in kvs:
                if isinstance(v, str) and v not in self.imported:
                    self.imported[v] = self.value_of(v)
                    self.tracked.add(v)

    def loaded(self):
        self.import_for_sections()
        for p in self.items():
            # arguments which the file does not have yet are added with their defaults
            sigs = self.allowed.pop(p, []) + [dict(self.sig(p))]
            ns = {}
            exec(self.w.read('proj/defaults/' + p.replace('.', '/') + '.py').replace('from pyfileconf import Selector', 'Selector = dict'), ns)
            got = {k: ns[k] for k in ns if k not in ('__builtins__', 'Selector', 's')}
            kept = self.files.get(p, {})
            check(all(got.get(k) == v for k, v in kept.items()), f'the config of {p} was {kept}, is now {got}')
            check(set(got) == set(kept) | set(sigs[-1]) and all(got[k] in [s.get(k) for s in sigs] for k in got if k not in kept),
                  f'the scaffolded config of {p} is {got}, was {kept}, its signature {sigs}')
            self.files[p] = got

    def config(self, p):
        out = dict(self.files[p])
        parts = p.split('.')
        for i in range(len(parts)):
            for k, v in self.sections.get('.'.join(parts[:i]), []):
                if k in out:
                    out[k] = self.imported[v] if isinstance(v, str) else v
        return out

    def used(self, p):
        if not p.startswith('S.'):
            m = MODULE_OF[self.leaf(p)]
            self.imported.setdefault(m, self.versions[m])

    def result(self, p):
        self.used(p)
        if p.startswith('S.'):
            return ['S0', self.config(p)]
        return [self.leaf(p), self.versions[MODULE_OF[self.leaf(p)]], {**self.sigs[self.leaf(p)], **self.config(p)}]


def flat(x):
    return [z for y in x for z in flat(y)] if isinstance(x, list) and (not x or isinstance(x[0], list)) else [x]


def run(case):
    with World() as w:
        p = Project(case, w)
        spec = None
        if p.specs is not None:
            w.module('gm_spec', 'class S0:\n\n    def __init__(self, name=None, a=1, b=2):\n        self.name = name\n        self.a = a\n        self.b = b\n'
                                '\n    def __call__(self):\n        return ["S0", dict(name=self.name, a=self.a, b=self.b)]\n')
            spec = [{'name': 'S', 'class': importlib.import_module('gm_spec').S0, 'key_attr': 'name'}]
        for e in case['setup']:
            p.edit(e)
        pm = w.manager('proj', 'pm', load=False, specific_class_config_dicts=spec)
        tags = set()
        failed = [0, 0]

        def load(how, what):
            """Returns whether it succeeded."""
            before_items = p.items()
            if how == 'reload':
                p.wiped()
            p.write()
            try:
                getattr(pm, how)()
            except Exception as e:
                check(p.expect is not None, f'{what}: {how} of a sound project raised {e!r}')
                check_eq(list(w.p.context.stack.frames), [], f'{what}: frames left on the stack')
                p.attempted()
                p.wiped()
                tags.add('failed ' + '+'.join(sorted(f[0] for f in p.faults)))
                failed[0] = 1
                return False
            check(p.expect != 'raise', f'{what}: {how} did not raise although {p.faults}')
            if p.expect == 'may':
                # works, but what is broken cannot be looked at
                p.attempted()
                p.import_for_sections()
                return True
            p.loaded()
            if failed[0]:
                failed[1] = 1
            return True

        def compare(what, full=False):
            for q in p.items():
                cfg = pm.config.get(q)
                got = {k: cfg[k] for k in cfg if k in p.files[q] or k in p.sig(q)}
                check_eq(got, p.config(q), f'{what}: config of {q}')
            for sec, leaf in [(s, l) for s in p.all_sections() if s for l in LEAVES[:3]]:
                q = f'{sec}.{leaf}'
                if q not in p.items() and q not in p.all_sections():
                    must_raise(Exception, pm.get, q, what=f'{what}: {q} is not in the project; get')
            if full:
                for q in p.items():
                    check_eq(pm.run(q), p.result(q), f'{what}: result of {q}')
                for sec in p.all_sections()[1:]:
                    want = [p.result(q) for q in p.items() if q.startswith(sec + '.')]
                    check_eq(flat(pm.run(sec)), want, f'{what}: results of {sec}')

        ok = False
        if case['first']:
            p.faults = case['first']
            ok = load('load', 'first load')
            p.repair()
            for e in case['meanwhile']:
                if p.edit(e):
                    tags.add('first repaired and edited')
        p.write()
        if not ok or case['first']:
            load('reload' if ok else 'load', 'first good load')
        compare('after the first load')
        kinds = 0
        for i, step in enumerate(case['steps']):
            what = f'step {i} {step}'
            if step[0] == 'use':
                items = p.items()
                q = items[step[2] % len(items)]
                if step[1] == 'run':
                    check_eq(pm.run(q), p.result(q), f'{what}: result of {q}')
                elif step[1] == 'get':
                    pm.get(q)
                    p.used(q)
                elif step[1] == 'config':
                    pm.config.get(q)
                elif step[1] == 'section' and '.' in q:
                    sec = q.rsplit('.', 1)[0]
                    check_eq(flat(pm.run(sec)), [p.result(x) for x in items if x.startswith(sec + '.')], f'{what}: results of {sec}')
                elif step[1] == 'update':
                    pm.update(dict(a=99), section_path_str=q)
                    load('reload', what)
                    compare(what)
                continue
            done = [e for e in step[1] if p.edit(e)]
            if step[0] == 'good':
                # a plain load does not import again
                how = step[2] if not any(e[0] in ('helper', 'version', 'sig') for e in done) else 'reload'
                check(load(how, what), what)
                if how == 'reload':
                    kinds = max(kinds, len({e[0] for e in done}))
            else:
                p.faults = step[2]
                how = step[3] if not any(e[0] in ('helper', 'version', 'sig') for e in done) else 'reload'
                ok = load(how, what + ' (broken)')
                p.repair()
                meanwhile = [e for e in step[5] if p.edit(e)]
                # whatever a failed load imported must be imported again, what was imported before it only by reload()
                again = 'reload' if ok or (meanwhile and how == 'load') else step[4]
                check(load(again, what + ' (repaired)'), what)
                if meanwhile:
                    tags.add('repaired and edited')
            tags.update(e[0] for e in done)
            compare(what)
        compare('at the end', full=True)
        return Info(failed[1] or kinds >= 2, *sorted(tags))


SUBS = [Sub('loads', cases(), run, quick=800, thorough=30000)]


def run_used_source_probe(case):
    """The source of an item which was run, or a module its config file imports, is edited before reload."""
    with World() as w:
        w.module('gm_values', 'VALUE = 1\n')
        w.module('gm_src', 'def f(a=1):\n    return ["old", a]\n')
        w.write('proj/pipeline_dict.py', 'from gm_src import f\npipeline_dict = {"sec": [f]}\n')
        pm = w.manager()
        w.write('proj/defaults/sec/f.py', 'from gm_values import VALUE\n\na = VALUE\n')
        check_eq(pm.run('sec.f'), ['old', 1], 'before the edit')
        if case['edit'] == 'source':
            w.module('gm_src', 'def f(a=1):\n    return ["edited", a]\n')
        else:
            w.module('gm_values', 'VALUE = 2000\n')
        pm.reload()
        check_eq(pm.run('sec.f'), ['edited', 1] if case['edit'] == 'source' else ['old', 2000], f'after editing the {case["edit"]} and reload()')
        return Info(True)


# deterministic probes of the known findings (known_findings.json)
PROBES = {'used_source': Sub('used_source', None, run_used_source_probe)}
