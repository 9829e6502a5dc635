"""P25: managers are found by file path and section path."""
import gc
import os

from hypothesis import strategies as st

from lib.vh import Info, Sub, World, check, check_eq, must_raise

PROPERTY = 'P25'
TECHNIQUE = 'stateful property-based testing: random lifetimes of managers in prefix-sharing folders, looked up by generated paths, against a registry model'
LEVEL_NOTE = ('Random creations (also under a taken name), removals and lookups over folders that share prefixes or are nested, given absolute, relative, '
              'with trailing slashes or dot segments; lookups of files inside, beside and above the folders and of section paths of every manager.')
RULE = 'a case is a history of creations, endings and lookups; non-trivial when two managers whose folders share a prefix or whose names coincide were created'
ASSUMPTIONS = ['the working directory does not change between creating a manager with a relative folder and looking it up']

FOLDERS = ['proj', 'proj2', 'proj_two', 'pro', 'deep/proj', 'deep/proj/inner', 'proj.d', 'PROJ', 'pr oj']
NAMES = ['pm', 'pm2', 'p', 'pm_', 'other']
FILES = ['defaults/a.py', 'defaults/sec/section.py', 'pipeline_dict.py', 'x', 'defaults', '.hidden', 'a/../b.py']
BESIDE = ['../x.py', '../{base}2/defaults/a.py', '../{base}x.py', '../{base}.py', '', '.', '..', '../other/{base}/a.py', 'defaults/../../up.py', '../{base}']


@st.composite
def cases(draw):
    folder = st.sampled_from(FOLDERS)
    how = st.sampled_from(['abs', 'rel', 'slash', 'dot', 'updown'])
    op = st.one_of(
        st.tuples(st.just('new'), folder, st.sampled_from(NAMES), how), st.tuples(st.just('new'), folder, st.sampled_from(NAMES), how),
        st.tuples(st.just('end'), st.integers(0, 5)), st.tuples(st.just('drop'), st.integers(0, 5)),
        st.tuples(st.just('in'), folder, st.sampled_from(FILES), how), st.tuples(st.just('in'), folder, st.sampled_from(FILES), how),
        st.tuples(st.just('beside'), folder, st.sampled_from(BESIDE), how),
        st.tuples(st.just('sp'), st.sampled_from(NAMES + ['pmx', 'nothing', 'sec']), st.sampled_from(['', '.sec', '.sec.item', '.pm', '.pm2.x'])))
    return dict(ops=[list(o) for o in draw(st.lists(op, min_size=3, max_size=14))])


def spell(w, rel, how):
    full = w.path(rel)
    return {'abs': full, 'rel': rel, 'slash': full + '/', 'dot': './' + rel, 'updown': os.path.join(w.dir, 'src', '..', rel)}[how]


def run(case):
    with World() as w:
        from pyfileconf.exceptions.pipelinemanager import NoPipelineManagerForFilepathException, NoPipelineManagerForSectionPathException
        PM = w.p.PipelineManager
        reg, created = {}, []
        shared = False

        def lookup_file(path, what):
            full = os.path.normpath(os.path.join(w.dir, path))
            want = [m for m, folder in reg.values() if full.startswith(folder + '/') and full != folder]
            if want:
                # within the folders of several managers, the innermost one counts
                inner = max(len(m_folder) for m, m_folder in reg.values() if m in want)
                want = [m for m, folder in reg.values() if m in want and len(folder) == inner]
                got = PM.get_manager_by_filepath(path)
                check(any(got is m for m in want), f'{what}: manager of {path!r} is {got.folder!r}', expected=[m.folder for m in want])
            else:
                must_raise(NoPipelineManagerForFilepathException, PM.get_manager_by_filepath, path, what=f'{what}: manager of {path!r}')

        def lookup_sp(sp, what):
            first = sp.split('.')[0]
            if first in reg:
                got = PM.get_manager_by_section_path_str(sp)
                check(got is reg[first][0], f'{what}: manager of section path {sp!r}')
            else:
                must_raise(NoPipelineManagerForSectionPathException, PM.get_manager_by_section_path_str, sp, what=f'{what}: manager of section path {sp!r}')

        for n, op in enumerate(case['ops']):
            what = f'step {n} {op}'
            kind = op[0]
            if kind == 'new':
                folder, name = spell(w, op[1], op[3]), op[2]
                m = PM(folder, name=name)
                full = os.path.normpath(w.path(op[1]))
                shared = shared or name in reg or any(f != full and (f.startswith(full) or full.startswith(f)) for _, f in reg.values())
                reg[name] = (m, full)
                created.append(m)
                w.managers.append(m)
                del m
            elif kind == 'end' and created:
                m = created[op[1] % len(created)]
                m.__del__()          # what the interpreter runs when the object ceases to exist
                if m.name in reg and reg[m.name][0] is m:
                    del reg[m.name]
                del m
            elif kind == 'drop' and created:
                m = created.pop(op[1] % len(created))
                w.managers[:] = [x for x in w.managers if x is not m]
                del m                # really goes away if it has been replaced under its name
                gc.collect()
            elif kind == 'in':
                lookup_file(os.path.join(spell(w, op[1], op[3]), op[2]), what)
            elif kind == 'beside':
                lookup_file(os.path.join(spell(w, op[1], op[3]), op[2].format(base=os.path.basename(op[1]))), what)
            elif kind == 'sp':
                lookup_sp(op[1] + op[2], what)
            check_eq(sorted(w.p.context.active_managers), sorted(reg), f'{what}: registered names')
            for name, (m, full) in reg.items():
                check(w.p.context.active_managers[name] is m, f'{what}: {name} is registered to another manager')
                lookup_file(os.path.join(full, 'defaults', 'some.py'), what)
                lookup_sp(name + '.x', what)
        return Info(shared, 'ended' if any(o[0] in ('end', 'drop') for o in case['ops']) else '', 'shared' if shared else '')


SUBS = [Sub('registry', cases(), run, quick=2000, thorough=150000)]
