"""P22: section path algebra."""
import copy
import os

from hypothesis import strategies as st

from lib.vh import Info, Sub, World, check, check_eq, must_raise, pfc
from lib import gen

PROPERTY = 'P22'
TECHNIQUE = 'property-based testing: algebraic laws and differential list model over generated section paths'
LEVEL_NOTE = ('Random search over section paths (1-6 sections of letters, digits, underscores and some unusual '
              'characters), base folders and ItemViews of generated projects; oracle is a plain list-of-names model.')
RULE = 'a case is a tuple of generated paths/bases; non-trivial when some path has at least two sections'

name = st.one_of(
    st.sampled_from(gen.SECTIONS + ['a', 'b', 'section', 'py', 'a1', '_x', '__init__', 'x-y', 'file name', 'é', 'defaults']),
    st.text(alphabet='ab_1Z-', min_size=1, max_size=4))
path = st.lists(name, min_size=1, max_size=6)
bases = st.sampled_from(['/', '/base', '/base/', '/base/x.py/y', 'rel', 'rel/deep', '.', './rel', '../up', '/a/../b', '/base with space'])


def run_laws(case):
    SP = pfc().SectionPath
    p, q, r, base = case['p'], case['q'], case['r'], case['base']
    P, Q, R = (SP('.'.join(x)) for x in (p, q, r))
    # string <-> list
    check_eq(list(P), p, 'iteration gives the sections')
    check_eq(P.path_str, '.'.join(p), 'path_str')
    check_eq(len(P), len(p), 'len')
    check_eq(list(P.sections), p, 'sections')
    check_eq([P[i] for i in range(len(p))], p, 'indexing')
    check_eq(P[-1], p[-1], 'negative index')
    check_eq(list(P[1:]), p[1:], 'slicing')
    parts = list(p)
    L = SP.from_section_str_list(parts)
    check(L == P and L.path_str == P.path_str, 'from_section_str_list(sections) == path', got=L.path_str)
    check_eq(parts, p, 'from_section_str_list mutated its argument')
    # filepath
    fp = P.to_filepath(base)
    check_eq(fp, os.path.join(base, *p), 'to_filepath')
    for f in (fp, fp + '.py'):
        back = SP.from_filepath(base, f)
        check_eq(back.path_str, P.path_str, f'from_filepath(base, {f!r})')
        # the same file named absolutely, below a relative base, and vice versa
        back = SP.from_filepath(base, os.path.abspath(f))
        check_eq(back.path_str, P.path_str, f'from_filepath(base, abspath {f!r})')
        back = SP.from_filepath(os.path.abspath(base), f)
        check_eq(back.path_str, P.path_str, f'from_filepath(abspath base, {f!r})')
    # join
    PQ = SP.join(P, Q)
    check_eq(list(PQ), p + q, 'join')
    check_eq(PQ.path_str, '.'.join(p + q), 'join path_str')
    check_eq(len(PQ), len(P) + len(Q), 'len(join)')
    for a in (P, P.path_str):
        for b in (Q, Q.path_str):
            check_eq(SP.join(a, b).path_str, PQ.path_str, f'join of {type(a).__name__} and {type(b).__name__}')
    check(SP.join(SP.join(P, Q), R) == SP.join(P, SP.join(Q, R)), 'join is associative')
    check(type(PQ) is SP, 'join returns a SectionPath')
    must_raise(ValueError, SP.join, P, 5, what='join with a non path')
    must_raise(ValueError, SP.join, None, P, what='join with a non path')
    # suffixes
    for whole, w in ((P, p), (PQ, p + q), (SP.join(PQ, R), p + q + r)):
        for suf, s in ((P, p), (Q, q), (PQ, p + q), (R, r), (SP.join(Q, R), q + r)):
            check_eq(whole.endswith(suf), w[len(w) - len(s):] == s if len(s) <= len(w) else False,
                     f'{whole.path_str!r}.endswith({suf.path_str!r})')
    # equality / hash
    for A, a in ((P, p), (Q, q), (R, r)):
        for B, b in ((P, p), (Q, q), (R, r)):
            check_eq(A == B, a == b, 'equality')
            if a == b:
                check_eq(hash(A), hash(B), 'hash of equal paths')
                check_eq(len({A, B}), 1, 'equal paths in a set')
    check_eq(P == SP('.'.join(p)), True, 'equality with a new equal path')
    check_eq(P == 5, False, 'equality with an int')
    # nothing above changed the operands
    for A, a in ((P, p), (Q, q), (R, r)):
        check_eq(list(A.sections), a, 'operand mutated (sections)')
        check_eq(A.path_str, '.'.join(a), 'operand mutated (path_str)')
    return Info(len(p) + len(q) > 2 and max(len(p), len(q)) > 1)


def run_ambiguous(case):
    SP = pfc().SectionPath
    with World() as w:
        tree = case['tree']
        w.module('gm_f', gen.render_func('f1', []) + gen.render_func('f2', []))
        w.write('proj/pipeline_dict.py', 'from gm_f import f1, f2\n\npipeline_dict = ' + gen.render_pipeline_dict(tree) + '\n')
        w.manager(name=case['pm'])
        s = w.p.Selector()
        paths = [[case['pm']]] + [[case['pm']] + list(x) for x in gen.sections(tree)] \
            + [[case['pm']] + list(sec) + [leaf] for sec, leaf in gen.leaves(tree)]
        base = case['base']
        given, expected = [], []
        n_iv = 0
        for idx, kind in case['items']:
            pth = paths[idx % len(paths)]
            st_ = '.'.join(pth)
            if kind == 'iv' and len(pth) > 1:
                iv = w.p.ItemView(st_, s) if idx % 2 else w.p.ItemView.from_section_path_str(st_)
                given.append(iv)
                exp = pth[1:] if case['strip'] else pth
                n_iv += 1
            elif kind == 'sp':
                given.append(SP(st_))
                exp = pth
            else:
                given.append(st_)
                exp = pth
            expected.append('.'.join(([base] if base else []) + exp))
        kw = dict(strip_manager_from_iv=case['strip'], base_section_path_str=base)
        for g, e in zip(given, expected):
            res = SP.from_ambiguous(g, **kw)
            check_eq(res.path_str, e, 'from_ambiguous path_str')
            check_eq(list(res.sections), e.split('.'), 'from_ambiguous sections')
            single = SP.list_from_ambiguous(g, **kw)
            check_eq([x.path_str for x in single], [e], 'list_from_ambiguous(single)')
        for coll in (list(given), tuple(given)):
            res = SP.list_from_ambiguous(coll, **kw)
            check_eq([x.path_str for x in res], expected, 'list_from_ambiguous')
        for g, (idx, kind) in zip(given, case['items']):
            pth = '.'.join(paths[idx % len(paths)])
            have = g if isinstance(g, str) else (g.path_str if type(g) is SP else g.section_path_str)
            check_eq(have, pth, 'argument mutated')
        for bad in (5, None, 1.5, object()):
            must_raise(ValueError, SP.from_ambiguous, bad, what='from_ambiguous of an unrelated object')
        return Info(n_iv > 0 and len(given) > 1, 'iv' if n_iv else '', 'strip' if case['strip'] else '', 'base' if base else '')


SUBS = [
    Sub('laws', st.fixed_dictionaries(dict(p=path, q=path, r=path, base=bases)), run_laws, quick=4000, thorough=200000),
    Sub('ambiguous', st.fixed_dictionaries(dict(
        tree=gen.trees(['f1', 'f2']), pm=st.sampled_from(['pm', 'manager', 'f1', 'alpha']),
        base=st.sampled_from([None, 'base', 'two.parts', 'pm']), strip=st.booleans(),
        items=st.lists(st.tuples(st.integers(0, 20), st.sampled_from(['str', 'sp', 'iv'])).map(list), max_size=5))),
        run_ambiguous, quick=400, thorough=8000),
]
