"""P24: import containers find and deduplicate by meaning."""
import ast

from hypothesis import strategies as st

from lib.vh import Info, Sub, Violation, check, check_eq, pfc
from checks.p23 import classes_of, import_meaning

PROPERTY = 'P24'
TECHNIQUE = 'property-based testing: generated import containers and lookups, oracle is the set of name bindings computed with the Python parser'
LEVEL_NOTE = ('Random lists of import statements (module, dotted, from, relative, renamed, several names, comments in between) with lookups of bound and '
              'unbound names and sequences of add_if_missing with and without a position preference, against a binding-set model.')
RULE = 'a case is a container with lookups and additions; non-trivial when a statement has several names or a rename and at least one name is found and one is not'
ASSUMPTIONS = ['when several statements bind the same name differently, any of them may be returned']

MODS = ['m', 'n', 'm.sub', 'm.sub.deep', 'other', 'pkg.m']
NAMES = ['x', 'y', 'm', 'sub', 'z']
RENAMES = [None, None, 'r', 'x', 'q', 'm', 'sub']
LOOKUPS = ['x', 'y', 'z', 'm', 'n', 'm.sub', 'm.sub.deep', 'sub', 'deep', 'other', 'pkg', 'pkg.m', 'r', 'q', 'nothing', 'm.x', 'x.y', 'su', 'subb', '']


@st.composite
def stmts(draw):
    kind = draw(st.sampled_from(['mod', 'obj', 'obj']))
    pool = MODS if kind == 'mod' else NAMES
    names = draw(st.lists(st.tuples(st.sampled_from(pool), st.sampled_from(RENAMES)), min_size=1, max_size=3))
    names = [[n, a if a != n else None] for n, a in names]
    mod = draw(st.sampled_from(MODS + ['.', '..rel'])) if kind == 'obj' else None
    return dict(mod=mod, names=names)


def render(s):
    parts = ', '.join(n + (f' as {a}' if a else '') for n, a in s['names'])
    return f'import {parts}' if s['mod'] is None else f'from {s["mod"]} import {parts}'


def atoms_of(text):
    """{(module or None, item, bound name)} of one statement or several lines."""
    out = []
    for node in ast.parse(text).body:
        for a in node.names:
            if isinstance(node, ast.Import):
                out.append((None, a.name, a.asname or a.name))
            else:
                out.append(('.' * node.level + (node.module or ''), a.name, a.asname or a.name))
    return out


def binders(atoms, name):
    return [(m, i, n) for m, i, n in atoms if n == name or (m is None and i == n and i.split('.')[0] == name)]


def make(s, pos=None):
    M, O, _, _, _ = classes_of()
    return (M if s['mod'] is None else O).from_str(render(s), preferred_position=pos)


@st.composite
def cases(draw):
    return dict(stmts=draw(st.lists(stmts(), min_size=0, max_size=5)), comments=draw(st.booleans()),
                lookups=draw(st.lists(st.sampled_from(LOOKUPS), min_size=2, max_size=6, unique=True)),
                adds=draw(st.lists(st.tuples(st.one_of(st.just('copy'), st.just('subset'), st.just('new')), st.integers(0, 9), stmts(),
                                             st.sampled_from([None, 'begin', 'end', 'beginning'])), max_size=4)))


def run(case):
    pfc()
    M, O, C, _, _ = classes_of()
    from pyfileconf.imports.models.statements.comment import Comment
    from pyfileconf.exceptions.imports import NoImportMatchingNameException
    objs = [make(s) for s in case['stmts']]
    if case['comments']:
        objs.insert(len(objs) // 2, Comment(' a comment'))
    cont = C(objs)
    texts = lambda c: [str(i) for i in c]
    before = texts(cont)
    atoms = [a for s in case['stmts'] for a in atoms_of(render(s))]
    found = missed = False
    for name in case['lookups']:
        want = binders(atoms, name)
        try:
            imp = cont.get_import_for_module_or_obj_name(name)
        except NoImportMatchingNameException:
            check(not want, f'{name!r} is bound but was not found', container=before)
            missed = True
            continue
        check(want, f'{name!r} is not bound but was found as {imp}', container=before)
        found = True
        got = atoms_of(str(imp))
        check_eq(len(got), 1, f'lookup of {name!r} returned {str(imp)!r}: number of names')
        check(got[0] in want, f'lookup of {name!r} returned {str(imp)!r}, which is not in the container', container=before)
        check(imp in cont, f'{imp} was returned by the lookup but is not contained', container=before)
        check_eq(texts(cont), before, f'container after a lookup of {name!r}')
        # a name in an expression is looked up likewise
        if name and name.isidentifier():
            node = ast.parse(name).body[0].value
            check_eq(str(cont.get_import_for_ast_obj(node)), str(imp), f'lookup of the AST of {name!r}')
    check_eq(sorted(cont.modules), sorted(m for s in case['stmts'] for m in ([s['mod']] if s['mod'] else [n for n, _ in s['names']])), 'modules')
    check_eq(sorted(cont.objs), sorted(n for s in case['stmts'] if s['mod'] for n, _ in s['names']), 'objs')
    # containment
    for s in case['stmts']:
        check(make(s) in cont, f'{render(s)!r} is not in the container it was put into', container=before)
    # additions
    model = list(before)
    frozen = cont.copy()
    plus = C([make(s) for s in case['stmts']]) + C([])
    for how, n, new, pos in case['adds']:
        if how == 'copy' and case['stmts']:
            new = case['stmts'][n % len(case['stmts'])]
        elif how == 'subset' and case['stmts']:
            base = case['stmts'][n % len(case['stmts'])]
            new = dict(mod=base['mod'], names=base['names'][:1 + n % len(base['names'])])
        imp = make(new, pos)
        own = set(atoms_of(render(new)))
        per_stmt = [set(atoms_of(t)) for t in model if not t.startswith('#')]
        there = any(own <= p for p in per_stmt)
        check_eq(imp in cont, there, f'{render(new)!r} in container {model}')
        cont.add_if_missing(imp)
        if not there:
            model.insert(0 if pos in ('begin', 'beginning') else len(model), str(imp))
        check_eq(texts(cont), model, f'container after adding {render(new)!r} with preference {pos}')
        cont.add_if_missing(imp)
        check_eq(texts(cont), model, f'container after adding {render(new)!r} a second time')
        all_atoms = {a for t in model if not t.startswith('#') for a in atoms_of(t)}
        check(own <= all_atoms, f'names of {render(new)!r} are not bound afterwards', container=model)
        for m, i, name in own:
            got = atoms_of(str(cont.get_import_for_module_or_obj_name(name)))[0]
            check(got in binders(all_atoms, name), f'lookup of the added {name!r} gave {got}')
    check_eq(texts(frozen), before, 'copy made before the additions')
    check_eq([str(i) for i in plus], [render_norm(s) for s in case['stmts']], 'sum of containers')
    check_eq(len(cont), len(model), 'len')
    check_eq(import_meaning(str(cont)), [m for t in model if not t.startswith('#') for m in import_meaning(t)], 'rendered container')
    return Info(found and missed and any(len(s['names']) > 1 or s['names'][0][1] for s in case['stmts']),
                'adds' if case['adds'] else '', 'found' if found else '', 'missed' if missed else '')


def render_norm(s):
    return str(make(s))


SUBS = [Sub('containers', cases(), run, quick=6000, thorough=400000)]
