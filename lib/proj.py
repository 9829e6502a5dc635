"""A generated project: source modules, dict files, specific classes, and its model.

Spec (JSON):
  {'funcs':   [[name, params], ...],
   'classes': [[name, params, hook], ...],      hook: defines _pyfileconf_update_
   'tree':    {'section': [leaf, ...] | {...}},  leaves are func / class names
   'specs':   [{'name', 'cls', 'params', 'key', 'exec', 'hook', 'tree'}, ...],
  'special': {class name: 'eq' / 'falsy' / 'slots' and / or 'wraps', function name: 'wraps'}}       wraps: (init) decorated
"""
import sys
import types

from hypothesis import strategies as st

from lib import frames, gen
from lib.vh import Violation

FUNCS = ['f1', 'f2', 'f3', 'make_it', 'alpha']     # 'alpha' is also a section name
CLASSES = ['Klass', 'Other', 'K3']
ENTRIES = ['e1', 'e2', 'entry_three', 'e4', 'f1']
SPEC_NAMES = ['things', 'stuff', 'more_things']
ODD_SPEC_NAMES = ['pm', 'proj', 'defaults', 'f1', 'Klass', 'e1', 'things', 'stuff']
KEYS = ['name', 'key', 'ident']
EXECS = ['__call__', 'go', 'execute_it']


def _copy(x):
    import json
    return json.loads(json.dumps(x))


@st.composite
def projects(draw, funcs=(1, 3), classes=(0, 2), specs=(0, 2), vals=gen.simple_values, max_params=3,
             min_params=0, hooks=True, allow_empty=False, max_depth=3, kwonly=True, max_sections=3, arg_names=None, mixed=False, odd_spec_names=False):
    nf = draw(st.integers(*funcs))
    nc = draw(st.integers(*classes))
    fn = draw(st.permutations(FUNCS))[:nf]
    cn = CLASSES[:nc]
    spec = dict(funcs=[[n, draw(gen.params(min_params, max_params, vals, kwonly, arg_names))] for n in fn],
                classes=[[n, draw(gen.params(min_params, max_params, vals, kwonly, arg_names)), draw(st.booleans()) if hooks else False]
                         for n in cn],
                specs=[])
    leaf_names = fn + cn
    spec['tree'] = draw(gen.trees(leaf_names, max_depth=max_depth, allow_empty=allow_empty,
                                  max_sections=max_sections, mixed=mixed)) if leaf_names else {}
    ns = draw(st.integers(*specs))
    spec_names = SPEC_NAMES
    if odd_spec_names and draw(st.booleans()):
        top = [k for k, _ in gen.children(spec['tree'])]
        spec_names = [n for n in draw(st.permutations(ODD_SPEC_NAMES)) if n not in top]
    # classes whose objects are all equal to each other, or are false
    spec['special'] = {c: draw(st.sampled_from(['eq', 'falsy', 'eq falsy', 'slots', 'slots falsy'])) for c in cn + [f'Spec{i}' for i in range(ns)] if draw(st.integers(0, 3)) == 3}
    # decorated functions and init methods
    for n in fn + cn + [f'Spec{i}' for i in range(ns)]:
        if draw(st.integers(0, 3)) == 3:
            spec['special'][n] = (spec['special'].get(n, '') + ' wraps').strip()
    for i in range(ns):
        key = draw(st.sampled_from(KEYS))
        ps = draw(gen.params(min_params, max_params, vals, kwonly, arg_names))
        # the key attribute must be an argument; put it somewhere legal
        key_param = [key, True, None, False]
        n_pos = len([p for p in ps if not p[3]])
        at = draw(st.sampled_from(['first', 'last']))
        if at == 'first' and not any(not p[1] and not p[3] for p in ps):
            ps = [key_param] + ps
        elif at == 'first':
            ps = [[key, False, None, False]] + ps
        else:
            ps = ps[:n_pos] + [key_param] + ps[n_pos:]
        tree = draw(gen.trees(ENTRIES, max_depth=2, max_sections=2, allow_empty=allow_empty, mixed=mixed))
        spec['specs'].append(dict(name=spec_names[i], cls=f'Spec{i}', params=ps, key=key,
                                  exec=draw(st.sampled_from(EXECS)),
                                  hook=draw(st.booleans()) if hooks else False, tree=tree))
    return spec


class Item:
    def __init__(self, path, kind, params, tag, defaults, key=None, hook=False):
        self.path = path            # 'a.b.f1'
        self.kind = kind            # func / class / spec
        self.params = params
        self.args = [p[0] for p in params]
        self.tag = tag
        self.defaults = defaults
        self.key = key
        self.hook = hook


FUNC_BODY = '    gm_log.LOG.append([{tag!r}, dict({d})])\n    return [{tag!r}, dict({d})]\n'


WRAP = '''import functools


def gm_wrap(fn):
    @functools.wraps(fn)
    def wrapper(*args, **kwargs):
        return fn(*args, **kwargs)
    return wrapper


'''


def render_func(name, ps, body=None, special=''):
    d = ', '.join(f'{p[0]}={p[0]}' for p in ps)
    return ('@gm_wrap\n' if 'wraps' in special else '') + gen.render_func(name, ps, body=body or FUNC_BODY.format(tag=name, d=d))


SPECIAL = {'eq': '\n    def __eq__(self, other):\n        return type(other) is type(self)\n\n    __hash__ = None\n', 'falsy': '\n    def __bool__(self):\n        return False\n'}


def render_class(name, ps, hook=False, exec_attr='__call__', special=''):
    d = ', '.join(f'{p[0]}=self.{p[0]}' for p in ps)
    extra = (f'\n    def {exec_attr}(self):\n        gm_log.LOG.append([{name!r}, dict({d})])\n'
             f'        return [{name!r}, dict({d})]\n')
    if hook:
        extra += (f'\n    def _pyfileconf_update_(self, **kwargs):\n'
                  f'        gm_log.UPDATES.append([{name!r}, dict(kwargs)])\n'
                  f'        for k, v in kwargs.items():\n            setattr(self, k, v)\n')
    extra += ''.join(SPECIAL.get(x, '') for x in special.split())
    text = gen.render_class(name, ps, call=False, extra=extra, first=f'        gm_log.INITS.append([{name!r}, dict({", ".join(f"{p[0]}={p[0]}" for p in ps)})])\n')
    if 'slots' in special:
        # accepts no attributes besides its arguments
        head, rest = text.split('\n', 1)
        text = f'{head}\n    __slots__ = {tuple(p[0] for p in ps)!r}\n\n{rest}'
    if 'wraps' in special:
        text = text.replace('    def __init__(', '    @gm_wrap\n    def __init__(', 1)
    return text


class Proj:
    """Writes a spec into a World and models it."""

    def __init__(self, world, spec, folder='proj', name='pm', src='gm_src', dict_imports='from'):
        self.w = world
        self.spec = _copy(spec)
        self.folder = folder
        self.name = name
        self.src = src
        self.items = {}
        for sec, leaf in gen.leaves(self.spec['tree']):
            path = '.'.join(sec + (leaf,))
            self.items[path] = self._main_item(path, leaf)
        for s in self.spec['specs']:
            for sec, entry in gen.leaves(s['tree']):
                path = '.'.join((s['name'],) + sec + (entry,))
                d = gen.defaults_of(s['params'])
                d[s['key']] = entry
                self.items[path] = Item(path, 'spec', s['params'], s['cls'], d, key=s['key'], hook=s['hook'])

    def _main_item(self, path, leaf):
        for n, ps in self.spec['funcs']:
            if n == leaf:
                return Item(path, 'func', ps, leaf, gen.defaults_of(ps))
        for n, ps, hook in self.spec['classes']:
            if n == leaf:
                return Item(path, 'class', ps, leaf, gen.defaults_of(ps), hook=hook)
        raise KeyError(leaf)

    # -- source ----------------------------------------------------------------
    def write_sources(self):
        log = sys.modules.get('gm_log')
        if log is None:
            log = types.ModuleType('gm_log')
            log.LOG, log.UPDATES, log.INITS = frames.Log(), frames.Log(), frames.Log()
            sys.modules['gm_log'] = log
        self.log = log
        text = 'import gm_log\n\n\n'
        for n, ps in self.spec['funcs']:
            text += render_func(n, ps, special=self.special(n))
        for n, ps, hook in self.spec['classes']:
            text += render_class(n, ps, hook, special=self.special(n))
        self.w.module(self.src, WRAP + text if 'gm_wrap' in text else text)
        if self.spec['specs']:
            text = 'import gm_log\n\n\n'
            for s in {s['cls']: s for s in reversed(self.spec['specs'])}.values():
                text += render_class(s['cls'], s['params'], s['hook'], s['exec'], special=self.special(s['cls']))
            self.w.module(self.src + '_spec', WRAP + text if 'gm_wrap' in text else text)

    def special(self, cls):
        return self.spec.get('special', {}).get(cls, '')

    def pipeline_dict_text(self):
        names = [x[0] for x in self.spec['funcs']] + [x[0] for x in self.spec['classes']]
        imp = f'from {self.src} import {", ".join(names)}\n\n' if names else ''
        return imp + 'pipeline_dict = ' + gen.render_pipeline_dict(self.spec['tree']) + '\n'

    def write_dicts(self):
        self.w.write(f'{self.folder}/pipeline_dict.py', self.pipeline_dict_text())
        for s in self.spec['specs']:
            self.w.write(f'{self.folder}/{s["name"]}_dict.py', 'class_dict = ' + gen.render_class_dict(s['tree']) + '\n')

    def write(self):
        self.write_sources()
        self.write_dicts()
        return self

    def specific_config(self):
        if not self.spec['specs']:
            return None
        import importlib
        mod = importlib.import_module(self.src + '_spec')
        return [{'name': s['name'], 'class': getattr(mod, s['cls']), 'key_attr': s['key'],
                 'execute_attr': s['exec']} for s in self.spec['specs']]

    def manager(self, load=True, **kw):
        return self.w.manager(self.folder, self.name, load=load,
                              specific_class_config_dicts=self.specific_config(), **kw)

    # -- model -------------------------------------------------------------------
    def section_paths(self):
        out = ['.'.join(s) for s in gen.sections(self.spec['tree'])]
        return out

    def spec_section_paths(self):
        out = []
        for s in self.spec['specs']:
            out.append(s['name'])
            out += ['.'.join((s['name'],) + sec) for sec in gen.sections(s['tree'])]
        return out

    def has_mixed(self, section):
        kinds = {is_sec for _, is_sec in self.members(section)}
        return len(kinds) > 1 or any(self.has_mixed(m) for m, is_sec in self.members(section) if is_sec)

    def members(self, section):
        """(subpath, is_section) of the direct members of a section, in definition order."""
        parts = section.split('.')
        tree = self.spec['tree']
        for s in self.spec['specs']:
            if parts[0] == s['name'] and parts[0] not in tree:
                tree = s['tree']
                node = gen.subtree(tree, parts[1:])
                break
        else:
            node = gen.subtree(tree, parts)
        return [(section + '.' + k, v is not None) for k, v in gen.children(node)]

    def config_file(self, path):
        return f'{self.folder}/defaults/' + path.replace('.', '/') + '.py'

    def result(self, path, values):
        it = self.items[path]
        return [it.tag, {a: values[a] for a in it.args}]

    def observe(self, pm, path):
        """What the *object* currently would use, without running it: {arg: value}."""
        it = self.items[path]
        obj = pm.get(path)
        if it.kind == 'func':
            try:
                return frames.encoded(dict(obj.keywords))
            except AttributeError:
                raise Violation(f'get({path!r}) of a function returned {obj!r}')
        return frames.encoded({a: getattr(obj, a) for a in it.args})

    def config(self, pm, path):
        c = pm.config.get(path)
        return frames.encoded({a: c[a] for a in self.items[path].args if a in c})
