"""P20: plugin hooks see every change exactly once and their results count."""
import copy
import itertools

from hypothesis import strategies as st

from lib import frames, model, proj
from lib.vh import Info, Sub, Violation, World, check, check_eq

PROPERTY = 'P20'
TECHNIQUE = 'stateful model-based testing with recording and modifying plugins: hook call histories against a reference model of effective changes, hook results against the documented use of them'
LEVEL_NOTE = ('One to three plugins registered with the real plugin manager; the histories cover update / reset / refresh / reload / view assignment / batches / products over functions, classes '
              'and specific classes, effective and ineffective changes; pre_run, post_run, pre_update, batch and iteration hooks return additions of every documented form. A sub-check uses data frames and series as values, which only compare as wholes.')
RULE = 'a case is a project, plugins and calls; non-trivial when a hook fires for an effective change or a hook result has an effect'
ASSUMPTIONS = ['plugins do not return conflicting values for the same key', 'items have no dependencies (P15)', 'post_run with force_continue fires per item (not checked)']

ARG_POOL = ['a', 'b', 'd', 'value']
vals = st.one_of(st.integers(2, 5), st.just('txt'), st.lists(st.integers(2, 3), max_size=2))


def base(draw, **kw):
    return draw(proj.projects(odd_spec_names=True, vals=vals, funcs=(1, 3), classes=(0, 2), specs=(0, 1), min_params=2, max_params=3, max_sections=2, max_depth=2, arg_names=ARG_POOL, **kw))


class Setup:
    def __init__(self, w, spec):
        self.w = w
        self.p = p = proj.Proj(w, spec).write()
        self.pm = p.manager()
        self.m = model.CfgModel({q: it.defaults for q, it in p.items.items()})
        self.usable = [q for q in p.items if any(a != p.items[q].key for a in p.items[q].args)]

    def args(self, q):
        return [a for a in self.p.items[q].args if a != self.p.items[q].key]

    def register(self, **hooks):
        plugin = type('Plugin', (), {n: staticmethod(self.w.p.hookimpl(f)) for n, f in hooks.items()})()
        self.w.p.plugin_manager.plm.register(plugin)


# --------------------------------------------------------------------------- #
@st.composite
def change_cases(draw, vals=vals):
    ops = draw(st.lists(st.tuples(
        st.sampled_from(['update', 'update', 'same', 'irrelevant', 'nopersist', 'nopersist', 'reset', 'reset', 'refresh', 'refresh', 'refresh', 'edit', 'edit', 'view', 'batch', 'run', 'product', 'reload', 'updatesection']),
        st.integers(0, 20), st.integers(0, 3), vals), min_size=2, max_size=12))
    focus = draw(st.integers(0, 20))
    return dict(spec=base(draw), ops=[[o[0], focus if draw(st.integers(0, 3)) else o[1], o[2], o[3]] for o in ops],
                loaded=draw(st.booleans()), plugins=draw(st.integers(1, 3)))


def run_changes(case):
    with World() as w:
        frames.install()
        s = Setup(w, case['spec'])
        p, pm, m = s.p, frames.Manager(s.pm), s.m
        if not s.usable:
            return Info(False)
        events = []

        def recorder(k):
            def pyfileconf_pre_config_changed(manager, orig_config, updates, section_path_str):
                it = p.items.get(section_path_str)
                events.append([k, 'pre', section_path_str, {a: copy.deepcopy(frames.encoded(orig_config[a])) for a in it.args} if it else None, {a: copy.deepcopy(frames.encoded(v)) for a, v in updates.items() if it and a in it.args}])

            def pyfileconf_post_config_changed(manager, new_config, updates, section_path_str):
                it = p.items.get(section_path_str)
                events.append([k, 'post', section_path_str, {a: copy.deepcopy(frames.encoded(new_config[a])) for a in it.args} if it else None, {a: copy.deepcopy(frames.encoded(v)) for a, v in updates.items() if it and a in it.args}])
            return dict(pyfileconf_pre_config_changed=pyfileconf_pre_config_changed, pyfileconf_post_config_changed=pyfileconf_post_config_changed)

        n_plugins = case['plugins']
        for k in range(n_plugins):
            s.register(**recorder(k))
        loaded, fired, tags = set(), 0, set()
        if case['loaded']:
            for q in p.items:
                pm.get(q)
                loaded.add(q)
        for n, (op, i, k, val) in enumerate(case['ops']):
            q = s.usable[i % len(s.usable)]
            a = s.args(q)[k % len(s.args(q))]
            before = copy.deepcopy(m.cfg[q])
            start = len(events)
            what = f'step {n} {op} {q}'
            changed = None
            if op == 'update':
                pm.update({a: copy.deepcopy(val)}, q)
                changed = m.update(q, {a: val})
            elif op == 'same':
                u = copy.deepcopy(m.cfg[q])
                pm.update(u, q)
                changed = m.update(q, u)
            elif op == 'irrelevant':
                pm.update({'not_there': 3}, q)
                changed = False
            elif op == 'nopersist':
                pm.update({a: copy.deepcopy(val)}, q, pyfileconf_persist=False)
                changed = m.update(q, {a: val}, False)
            elif op == 'view':
                v = w.p.Selector().pm
                for part in q.split('.'):
                    v = getattr(v, part)
                setattr(v, a, frames.real(copy.deepcopy(val)))
                changed = m.update(q, {a: val})
            elif op == 'batch':
                pm.update_batch([{'section_path_str': q, a: copy.deepcopy(val)}])
                changed = m.update(q, {a: val})
            elif op in ('reset', 'refresh'):
                getattr(pm, op)(q)
                changed = getattr(m, op)(q)
            elif op == 'edit':
                pm.config.get(q)
                m.edit(q, {a: val})
                w.write(p.config_file(q), model.render_config(frames.code(m.files[q]), frames.HEADER))
                changed = False
            elif op == 'run':
                check_eq(pm.run(q), p.result(q, m.cfg[q]), f'{what}: result')
                loaded.add(q)
                changed = False
            elif op == 'product':
                pm.run_product(q, [{'section_path_str': q, a: copy.deepcopy(val)}])
                # the configs of the product are complete: they become the persistent updates
                changed = m.update(q, {**m.cfg[q], a: val})
                if q not in loaded:
                    loaded.add(q)
                    continue
            elif op == 'reload':
                pm.reload()
                m.reload()
                loaded.clear()
                check_eq(events[start:], [], f'{what}: hooks fired by reload')
                continue
            else:
                pm.update({'not_an_arg': 3}, q.rsplit('.', 1)[0] if p.items[q].kind != 'spec' else None)
                got = [e for e in events[start:] if e[2] in p.items]
                check_eq(got, [], f'{what}: item hooks fired by a section update')
                continue
            got = events[start:]
            if q in loaded:
                want_pre = [[j, 'pre', q, before] for j in range(n_plugins)] if changed else []
                want_post = [[j, 'post', q, m.cfg[q]] for j in range(n_plugins)] if changed else []
                check(all(e[1] == 'pre' for e in got[:len(want_pre)]), f'{what}: hooks not in the order pre, post', actual=got)
                key = lambda e: e[0]
                check_eq([e[:4] for e in sorted(got[:len(want_pre)], key=key)], want_pre, f'{what}: pre_config_changed (config changed: {changed})')
                check_eq([e[:4] for e in sorted(got[len(want_pre):], key=key)], want_post, f'{what}: post_config_changed (config changed: {changed})')
                for e in got:
                    new = {**before, **e[4]}
                    check_eq(new, m.cfg[q], f'{what}: updates given to {e[1]}_config_changed')
                if changed:
                    fired += 1
                    tags.add(f'{op}:{p.items[q].kind}')
            else:
                check(changed or not got, f'{what}: hooks fired although nothing changed', actual=got)
                check(all(e[2] == q for e in got) and len(got) <= 2 * n_plugins, f'{what}: hooks for other items', actual=got)
        for q in p.items:
            check_eq(p.config(pm, q), m.cfg[q], f'at the end: config of {q}')
        return Info(fired, *sorted(tags))


# --------------------------------------------------------------------------- #
@st.composite
def call_cases(draw):
    plugin = st.fixed_dictionaries(dict(
        add=st.sampled_from([None, None, None, None, None, 'str', 'list', 'view', 'viewlist', 'section', 'inplace']), add_i=st.integers(0, 20),
        res=st.sampled_from([None, 'value', 'value', 'inplace']), res_value=st.sampled_from(['text', 'text', 0, '', [], False, {}]), upd_value=st.sampled_from(['text', 'text', None, '', [], 0]), upd=st.sampled_from([None, 'return', 'return', 'inplace', 'none', 'empty']), batch=st.sampled_from([None, 'return', 'return', 'record', 'empty'])))
    ops = st.tuples(st.sampled_from(['run', 'run', 'runlist', 'update', 'batch', 'updatekw']), st.integers(0, 20), st.integers(0, 3), vals)
    return dict(spec=base(draw), plugins=draw(st.lists(plugin, min_size=1, max_size=3)), ops=[list(o) for o in draw(st.lists(ops, min_size=1, max_size=5))])


def run_calls(case):
    with World() as w:
        s = Setup(w, case['spec'])
        p, pm, m = s.p, s.pm, s.m
        if not s.usable:
            return Info(False)
        calls = []
        depth = [0]
        sel = w.p.Selector()

        def view(q):
            v = sel.pm
            for part in q.split('.'):
                v = getattr(v, part)
            return v

        def expected(path):
            if path in p.items:
                r = p.result(path, m.cfg[path])
                return r, [r]
            out, log = [], []
            for sub, _ in p.members(path):
                r, l = expected(sub)
                out.append(r)
                log += l
            return out, log

        def result_of(k, conf):
            v = conf.get('res_value', 'text')
            return f'extra {k}' if v == 'text' else v

        def value_of(k, conf):
            v = conf.get('upd_value', 'text')
            return f'by {k}' if v == 'text' else v

        additions = {}     # plugin -> paths it adds
        special = {}       # keys that plugins set, one per plugin

        def make(k, conf):
            hooks = {}
            q = s.usable[conf['add_i'] % len(s.usable)]

            def pyfileconf_pre_run(section_path_str_or_list, pm):
                calls.append([k, 'pre_run', copy.copy(section_path_str_or_list) if isinstance(section_path_str_or_list, list) else section_path_str_or_list, pm])
                if conf['add'] == 'inplace' and isinstance(section_path_str_or_list, list):
                    section_path_str_or_list.append(q)
                    return None
                return {'str': q, 'list': [q, q], 'view': view(q), 'viewlist': [view(q)], 'section': q.rsplit('.', 1)[0]}.get(conf['add'])
            additions[k] = {'str': [q], 'list': [q, q], 'view': [q], 'viewlist': [q], 'section': [q.rsplit('.', 1)[0]]}.get(conf['add'], [])
            hooks['pyfileconf_pre_run'] = pyfileconf_pre_run

            def pyfileconf_post_run(results, runner):
                calls.append([k, 'post_run', copy.deepcopy(results), runner])
                if conf['res'] == 'inplace' and isinstance(results, list):
                    results.append(('inplace', k))
                    return None
                return copy.deepcopy(result_of(k, conf)) if conf['res'] == 'value' else None
            hooks['pyfileconf_post_run'] = pyfileconf_post_run

            if conf['upd']:
                def pyfileconf_pre_update(pm, d_, section_path_str, kwargs):
                    calls.append([k, 'pre_update', copy.deepcopy(d_), section_path_str, copy.deepcopy(kwargs)])
                    if conf['upd'] == 'inplace':
                        (kwargs if d_ is None else d_)[special[k]] = copy.deepcopy(value_of(k, conf))
                    return {'return': {special[k]: copy.deepcopy(value_of(k, conf))}, 'empty': {}}.get(conf['upd'])
                hooks['pyfileconf_pre_update'] = pyfileconf_pre_update

                def pyfileconf_post_update(pm, d_, section_path_str, kwargs):
                    calls.append([k, 'post_update', copy.deepcopy(d_), section_path_str, copy.deepcopy(kwargs)])
                hooks['pyfileconf_post_update'] = pyfileconf_post_update
            if conf['batch']:
                def pyfileconf_pre_update_batch(pm, updates):
                    calls.append([k, 'pre_batch', copy.deepcopy(updates)])
                    if conf['batch'] == 'return':
                        return [{'section_path_str': 'pm.' + q if pm.base_section_path_str is None else q, special[k]: copy.deepcopy(value_of(k, conf))}]
                    return [] if conf['batch'] == 'empty' else None
                hooks['pyfileconf_pre_update_batch'] = pyfileconf_pre_update_batch

                def pyfileconf_post_update_batch(pm, updates):
                    calls.append([k, 'post_batch', copy.deepcopy(updates)])
                hooks['pyfileconf_post_update_batch'] = pyfileconf_post_update_batch
            s.register(**hooks)

        for k, conf in enumerate(case['plugins']):
            make(k, conf)
        plugins = list(enumerate(case['plugins']))
        effect, tags = 0, set()
        for n, (op, i, ai, val) in enumerate(case['ops']):
            q = s.usable[i % len(s.usable)]
            what = f'step {n} {op} {q}'
            del calls[:]
            start = len(p.log.LOG)
            # each plugin gets a key of its own where there are enough of them
            free = [a for a in s.args(q)]
            for k, conf in plugins:
                target = q if op != 'batch' else s.usable[conf['add_i'] % len(s.usable)]
                names = s.args(target)
                special[k] = names[k] if k < len(names) - 1 else f'unknown_{k}'
            if op in ('run', 'runlist'):
                given = q if op == 'run' else [q, s.usable[(i + ai) % len(s.usable)]][:1 + ai % 2]
                orig = copy.copy(given)
                paths = [given] if op == 'run' else list(given)
                inplace = [s.usable[c['add_i'] % len(s.usable)] for k, c in plugins if c['add'] == 'inplace' and op == 'runlist']
                added = [a for k, _ in plugins for a in additions[k]]
                got = pm.run(given)
                pre = [c for c in calls if c[1] == 'pre_run']
                check_eq(sorted(c[0] for c in pre), [k for k, _ in plugins], f'{what}: calls of pre_run')
                if op == 'run':
                    check(all(c[2] == orig for c in pre), f'{what}: argument of pre_run', actual=pre)
                else:
                    check(all(c[2][:len(orig)] == orig for c in pre), f'{what}: argument of pre_run', actual=pre)
                check(all(c[3] is pm for c in pre), f'{what}: pm given to pre_run')
                want = [expected(x) for x in paths]
                multiple = op == 'runlist' or added
                log = p.log.LOG[start:]
                count = len(paths) + len(inplace) + len(added)
                appended = sorted([result_of(k, c) for k, c in plugins if c['res'] == 'value'], key=repr)
                check_eq(log[:sum(len(l) for _, l in want)], [x for _, l in want for x in l], f'{what}: executions of the given items')
                extra_log = [x for y in inplace + added for x in expected(y)[1]]
                check(sorted(map(repr, log[len(log) - len(extra_log):])) == sorted(map(repr, extra_log)) and len(log) == len(extra_log) + sum(len(l) for _, l in want),
                      f'{what}: executions of the added items', actual=log, expected=extra_log)
                own = [r for r, _ in want]
                mut = [('inplace', k) for k, c in plugins if c['res'] == 'inplace']
                if not multiple:
                    # a list result of the item itself may have been extended in place
                    res = own[0]
                    body = got[0] if appended else got
                    check(body[:2] == res and sorted(body[2:]) == mut, f'{what}: result of the item', actual=got, expected=[res, mut])
                    if appended:
                        check(isinstance(got, list) and sorted(got[1:], key=repr) == appended, f'{what}: results added by post_run', actual=got, expected=appended)
                else:
                    check(isinstance(got, list), f'{what}: not a list of results', actual=got)
                    check_eq(got[:len(own)], own, f'{what}: results of the given items')
                    mid = got[len(own):count]
                    check_eq(sorted(map(repr, mid)), sorted(repr(expected(y)[0]) for y in inplace + added), f'{what}: results of the added items')
                    check_eq(sorted(map(repr, got[count:])), sorted(map(repr, mut + appended)), f'{what}: results added by post_run')
                post = [c for c in calls if c[1] == 'post_run']
                check_eq(sorted(c[0] for c in post), [k for k, _ in plugins], f'{what}: calls of post_run')
                check(all(c[3] is pm.runner for c in post), f'{what}: runner given to post_run')
                effect += bool(added or inplace or appended or mut)
                tags.add('run+' + ','.join(sorted({c['add'] or '' for _, c in plugins} - {''})))
            elif op in ('update', 'updatekw'):
                a = free[-1]
                u = {a: val}
                if op == 'update':
                    pm.update(dict(u), q)
                else:
                    pm.update(section_path_str=q, **u)
                hooked = [k for k, c in plugins if c['upd']]
                pre, post = [c for c in calls if c[1] == 'pre_update'], [c for c in calls if c[1] == 'post_update']
                check_eq(sorted(c[0] for c in pre), hooked, f'{what}: calls of pre_update')
                check_eq(sorted(c[0] for c in post), hooked, f'{what}: calls of post_update')
                returned = {special[k]: copy.deepcopy(value_of(k, c)) for k, c in plugins if c['upd'] in ('return', 'inplace')}
                for c in pre:
                    d = {**(c[2] or {}), **c[4]}
                    check(d.get(a) == val and c[3] == q and set(d) <= {a, *returned}, f'{what}: arguments of pre_update', actual=c)
                    check((c[2] is None) == (op == 'updatekw'), f'{what}: d_ given to pre_update', actual=c)
                for c in post:
                    d = {**(c[2] or {}), **c[4]}
                    check(d.get(a) == val and c[3] == q, f'{what}: arguments of post_update', actual=c)
                m.update(q, {**u, **returned})
                effect += bool(returned)
                tags.add('update')
            else:
                a = free[-1]
                updates = [{'section_path_str': q, a: val}]
                pm.update_batch(updates)
                hooked = [k for k, c in plugins if c['batch']]
                pre, post = [c for c in calls if c[1] == 'pre_batch'], [c for c in calls if c[1] == 'post_batch']
                check_eq(sorted(c[0] for c in pre), hooked, f'{what}: calls of pre_update_batch')
                check_eq(sorted(c[0] for c in post), hooked, f'{what}: calls of post_update_batch')
                check(all(c[2] == [{'section_path_str': q, a: val}] for c in pre + post), f'{what}: updates given to the batch hooks', actual=pre + post)
                m.update(q, {a: val})
                for k, c in plugins:
                    if c['batch'] == 'return':
                        t = s.usable[c['add_i'] % len(s.usable)]
                        if t == q and special[k] == a:
                            return Info(False, 'conflict')
                        m.update(t, {special[k]: copy.deepcopy(value_of(k, c))})
                        effect += 1
                tags.add('batch')
            for g in p.items:
                check_eq(p.config(pm, g), m.cfg[g], f'{what}: config of {g}')
        return Info(effect, *sorted(tags))


# --------------------------------------------------------------------------- #
@st.composite
def iter_cases(draw):
    pair = st.tuples(st.integers(0, 2), st.integers(0, 3), st.integers(2, 5))
    return dict(spec=base(draw), updates=draw(st.lists(pair, min_size=1, max_size=4)), targets=draw(st.lists(st.integers(0, 20), min_size=1, max_size=2)),
                added=draw(st.lists(st.lists(pair, min_size=1, max_size=2), max_size=3)), split=draw(st.booleans()),
                modify=draw(st.sampled_from([None, 'reverse', 'drop', 'set', 'append', 'clear'])), own_update=draw(st.booleans()), gen=draw(st.booleans()))


def run_iter(case):
    with World() as w:
        s = Setup(w, case['spec'])
        p, pm, m = s.p, s.pm, s.m
        if not s.usable:
            return Info(False)
        targets = [s.usable[i % len(s.usable)] for i in case['targets']]

        def conf(t):
            q = targets[t[0] % len(targets)]
            return q, {s.args(q)[t[1] % len(s.args(q))]: t[2]}

        updates, groups = [], {}
        for t in case['updates']:
            q, u = conf(t)
            updates.append({'section_path_str': q, **u})
            groups.setdefault(q, []).append({'section_path_str': q, **u})
        cases = list(itertools.product(*groups.values()))
        paths = list(groups)
        extra = []
        for group in case['added']:
            # plugin cases name every item of the product, so that each case is complete
            c = {q: {'section_path_str': q} for q in paths}
            for t in group:
                q, u = conf(t)
                if q in c:
                    c[q].update(u)
            extra.append(tuple(c.values()))
        seen = {'get': [], 'modify': [], 'update': []}
        hooks = {}
        # the added cases come from one plugin or from several
        sources = [extra] if not case.get('split') else [[c] for c in extra]
        if not case['added']:
            sources = []

        def getter(own):
            def pyfileconf_iter_get_cases(config_updates, runner):
                seen['get'].append(copy.deepcopy(list(config_updates)))
                return copy.deepcopy(own)
            return pyfileconf_iter_get_cases
        for own in sources:
            s.register(pyfileconf_iter_get_cases=getter(own))

        def modify(cases):
            if case['modify'] == 'reverse':
                cases.reverse()
            elif case['modify'] == 'drop':
                cases.pop()
            elif case['modify'] == 'clear':
                cases.clear()
            elif case['modify'] == 'append':
                cases.append(copy.deepcopy(cases[0]))
            elif case['modify'] == 'set':
                q = paths[0]
                for n, c in enumerate(cases):
                    c[0][s.args(q)[0]] = 50 + n

        if case['modify']:
            def pyfileconf_iter_modify_cases(cases, runner):
                seen['modify'].append(len(cases))
                modify(cases)
            hooks['pyfileconf_iter_modify_cases'] = pyfileconf_iter_modify_cases
        if case['own_update']:
            def pyfileconf_iter_update_for_case(case, runner):
                seen['update'].append([dict(c) for c in case])
            hooks['pyfileconf_iter_update_for_case'] = pyfileconf_iter_update_for_case
        s.register(**hooks)
        run_items = list(dict.fromkeys(targets))
        call = (lambda: list(pm.run_product_gen(run_items, updates))) if case['gen'] else (lambda: pm.run_product(run_items, updates))
        orig = copy.deepcopy(updates)
        got = call()
        check_eq(updates, orig, 'the updates of the caller')
        if case['added']:
            check_eq(seen['get'], [orig] * len(sources), 'calls of iter_get_cases')
        if case['modify']:
            check_eq(seen['modify'], [len(cases) + len(extra)], 'calls of iter_modify_cases')

        def outcome(c):
            cfg = copy.deepcopy(m.cfg)
            for u in c:
                cfg[u['section_path_str']].update({k: v for k, v in u.items() if k != 'section_path_str'})
            rs = [p.result(q, cfg[q]) for q in run_items]
            return rs if len(rs) > 1 else rs[0]

        # plugin cases come before or after those of the product, in any order of the plugins
        for blocks in itertools.permutations([cases, *sources]):
            order = [c for block in blocks for c in block]
            want = copy.deepcopy(order)
            if want:
                modify(want)
            ok = len(want) == len(got) and all(tuple(g[0]) == tuple(c) for g, c in zip(got, want))
            if ok:
                break
        check(ok, 'cases that were run', actual=[g[0] for g in got], expected=want)
        for n, (g, c) in enumerate(zip(got, want)):
            r, e = g[1], outcome(c)
            check(r == e or (len(run_items) == 1 and r == [e]), f'result of case {n} {c}', actual=r, expected=e)
        if case['own_update']:
            check_eq(len(seen['update']), len(want), 'calls of iter_update_for_case')
            for u, c in zip(seen['update'], want):
                check_eq([x['section_path_str'] for x in u], [x['section_path_str'] for x in c], 'case given to iter_update_for_case')
                for x, y in zip(u, c):
                    check(all(x[k] == v for k, v in y.items()), 'case given to iter_update_for_case', actual=u, expected=c)
        return Info(case['added'] or case['modify'] or case['own_update'], f'{len(sources)} plugins with cases' if len(sources) > 1 else '', 'added' if case['added'] else '', case['modify'] or '', 'gen' if case['gen'] else '')


SUBS = [Sub('changes', change_cases(), run_changes, quick=350, thorough=15000),
        # data frames are compared as wholes
        Sub('frames', change_cases(vals=st.one_of(frames.whole, frames.whole, vals)), run_changes, quick=150, thorough=5000),
        Sub('calls', call_cases(), run_calls, quick=350, thorough=15000),
        Sub('iter', iter_cases(), run_iter, quick=250, thorough=10000)]
