"""Writes properties.jsonl (run after editing a property here)."""
import json
import os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state='',observe=''):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=state,meaning='state the property reads or changes',where='see mechanism')] if state and state!='none' else [],
      observe_at=[observe] if observe else [],hook_needed=None))
    P.append(d)

p('P01','A scaffolded config reproduces the source signature',
 "For every function or class registered in pipeline_dict, the config file that load() scaffolds assigns exactly one variable per argument (positional-or-keyword and keyword-only), in signature order, with the argument's annotation and a value equal to the source default, or None when the argument has no default. The file is importable on its own, with whatever imports the defaults and annotations need (names imported or assigned at module level of the source). Running the item with an untouched config gives the same result as calling the source with its own defaults (None for required arguments).",
 ['inputs','programs'],'all function/class signatures over positional, keyword-only, annotated and defaulted arguments, with literal, imported and module-level-name defaults',
 'tests pin a few signatures; the mapping from AST to file goes through rendering, import resolution and re-parsing, each of which can drop or reorder something only for particular shapes',
 ['pyfileconf/io/func/load/config.py','pyfileconf/io/func/load/args.py','pyfileconf/io/func/load/extractimp.py','pyfileconf/pipelines/models/collection.py','pyfileconf/assignments/models/container.py','pyfileconf/io/file/write/asttosource.py'],
 [('signature to config dict','io/func/load/config.py function_args_as_arg_and_annotation_dict'),('imports needed by defaults','io/func/load/extractimp.py'),('writing the file','io/file/interfaces, basemodels/file.py save')],
 'config files below defaults/','generated files, pm.config.get, pm.run')

p('P02','User edits of config files survive every re-scaffold',
 "load(), reload() and create() never change what the user wrote in an existing config file: edited argument values, extra variables, imports, annotations and module docstring keep their meaning, and section.py files are never rewritten. When the source gains arguments, only the missing ones are appended with their defaults. Re-scaffolding an unchanged project leaves every file byte-identical, however often it is repeated.",
 ['inputs','histories'],'all sequences of user edits, source signature changes and loads/reloads/creates',
 'tests check one edit followed by one load; loss of user data depends on combinations of edit kind, source change and number of round trips',
 ['pyfileconf/basemodels/file.py','pyfileconf/io/file/interfaces/config.py','pyfileconf/io/file/interfaces/base.py','pyfileconf/io/file/load/active/userdef.py','pyfileconf/io/file/load/parsers/extname.py','pyfileconf/basemodels/config.py'],
 [('merging user content with scaffold','basemodels/config.py to_file, io/file/interfaces'),('section config only if missing','pipelines/models/collection.py _output_section_config_file')],
 'config files on disk','file text and executed file namespaces before/after')

p('P03','The project tree mirrors the dict files',
 "After load(), the defaults folder contains exactly one config file per item of pipeline_dict and of every specific class dict and one section.py per section of pipeline_dict (and for the whole project), nested as the dicts are. Every item and section of the dicts resolves by its section path, as the object that was registered there, and no other path resolves. Empty dicts, empty sections and the same object registered in several sections are all legal. Constructing a manager creates what is missing of its project (folder, dict files holding an empty dict, the defaults folder, the log folder) and nothing else, and leaves what is there as it is.",
 ['inputs','configurations'],'all nested pipeline dicts and specific class dicts',
 'tests use one or two fixed trees; wrong nesting, dropped or duplicated entries show only for particular shapes (depth, same names at different levels, shared items)',
 ['pyfileconf/basemodels/collection.py','pyfileconf/pipelines/models/collection.py','pyfileconf/data/models/collection.py','pyfileconf/basemodels/registrar.py','pyfileconf/config/models/section.py','pyfileconf/main.py'],
 [('collections from dicts','basemodels/collection.py from_dict/from_list'),('file output','_output_config_files'),('project creation','main.py create_project')],
 'registrars, config files','file tree, pm.get on every path')

p('P04','create() is equivalent to editing the dict file',
 "After any sequence of create() calls, the live manager, the same manager after reload(), and a fresh manager on the same folder all expose the same items, config values and results, and the same project that a user obtains by writing the entries and imports into the dict files by hand. Entries, imports and order that were in the dict file before are kept. Creating works into new, nested, existing and previously empty sections, for functions, classes and specific class entries.",
 ['histories','inputs'],'all sequences of create() calls on all starting projects',
 'tests create one item in a fresh project; equivalence with the hand-written project must hold after any history',
 ['pyfileconf/main.py','pyfileconf/dictfiles/modify.py','pyfileconf/basemodels/registrar.py','pyfileconf/config/models/manager.py','pyfileconf/imports/logic/load/name.py'],
 [('dict file editing','dictfiles/modify.py'),('live registration','main.py create, registrar.set'),('config creation','config/models/manager.py set with allow_create')],
 'dict files, registrars, config tree','dict file text, pm.get/run on all paths')

p('P05','A rejected call changes nothing',
 "Invalid requests raise an exception and leave files, configs, loaded objects and later results exactly as they were: unknown section paths given to run/get/update/reset/refresh, create() with missing or superfluous arguments, with a too short specific class path or into a section holding sub-sections, contradictory manager options, and specific class dicts with duplicate names or names taken by a top-level section. This includes lookups by misspelt attribute: the next valid lookup gives its normal result.",
 ['histories','inputs'],'all valid histories interleaved with all invalid calls listed',
 'tests check that an exception is raised, not that every later operation is unaffected',
 ['pyfileconf/main.py','pyfileconf/runner/models/runner.py','pyfileconf/dictfiles/modify.py','pyfileconf/config/models/manager.py'],
 [('validation','main.py create/_validate_options/_validate_registrars'),('attribute lookup state','runner.py __getattr__ _full_getattr')],
 'runner lookup state, dict files, config tree','file snapshot, results before/after')

p('P06','Configuration precedence',
 "When an item is first loaded, the value of each of its arguments is the one given by the most specific level that sets it, in increasing priority: the item's own config file, the project-level section.py, the section.py of each enclosing section from outermost to innermost, and the local config set by update() without a section path; updates applied to these levels by then count at the level they were applied to. A section value never reaches items outside that section, and a key that is not an argument of the item is never passed to it.",
 ['configurations','inputs'],'all trees, all assignments of values to levels (in files or by update), all items',
 'the number of level combinations is exponential; tests pick a handful',
 ['pyfileconf/config/models/manager.py','pyfileconf/config/models/config.py','pyfileconf/config/models/section.py','pyfileconf/runner/models/runner.py'],
 [('inheritance','config/models/manager.py get'),('argument filter','config/models/config.py for_function')],
 'ConfigManager section tree and local_config','pm.run results, pm.config.get')

p('P07','Config state follows update, reset, refresh and reload exactly',
 "After any history of update() (dict and keyword form), update with pyfileconf_persist=False, reset(), refresh(), reload() and edits of the config file, an item's config and its run result equal those of a simple model: updates override the file; refresh re-reads the file and re-applies only the persistent updates made since the last reset; reset returns to the current file; reload discards everything but the files. This holds alike for functions, classes and specific class objects whose sections set no values, whether or not they were loaded before.",
 ['histories'],'all interleavings of config operations over several items',
 'the outcome depends on the whole history; tests check single steps',
 ['pyfileconf/basemodels/config.py','pyfileconf/config/models/manager.py','pyfileconf/runner/models/runner.py','pyfileconf/config/logic/apply.py'],
 [('tracked updates','basemodels/config.py update/refresh/_applied_updates'),('reset/set','config/models/manager.py reset/set'),('applying to loaded objects','runner.py update/reset/refresh')],
 'ConfigBase contents and _applied_updates, Runner._loaded_objects','pm.config.get, pm.get, pm.run after each step')

p('P08','A loaded object is unique and follows its config',
 "Between loads, every access to the same item returns the same object, and after any update, reset or refresh of its config that object itself (already handed out references included) carries the new values, through its _pyfileconf_update_ method when it defines one and its __init__ otherwise. Only argument keys are applied, and objects are not re-applied when nothing changes. After reload() new objects are built.",
 ['histories'],'all histories of accesses and config changes, for functions, classes with and without the update hook, and specific classes',
 'needs long histories holding references; tests check one update',
 ['pyfileconf/config/logic/apply.py','pyfileconf/runner/models/runner.py'],
 [('applying configs','config/logic/apply.py'),('object cache','runner.py _loaded_objects')],
 'Runner._loaded_objects','identity and attributes of held references, call counts')

p('P09','Items, sections and managers are isolated',
 "An operation on one item (update, reset, refresh, run, attribute assignment through a view) changes no other item's config, object, file or result, unless a dependency between them exists; likewise for two sections registering the same function, two specific class dicts of the same class, and two managers whose projects use the same names. Mutable values read from the items' own config files or source defaults are not shared between items: changing one in place is seen by that item only, and reset or reload bring back the value of the file. A manager which is not loaded, or whose load failed, affects no other manager and no selector.",
 ['histories'],'all histories over several items, sections and managers that share names and functions',
 'cross-talk appears only when names, functions or mutable values coincide; tests use distinct ones',
 ['pyfileconf/runner/models/runner.py','pyfileconf/config/models/manager.py','pyfileconf/pmcontext/main.py','pyfileconf/basemodels/registrar.py'],
 [('per-manager state','main.py PipelineManager, pmcontext/main.py active_managers'),('per-item config','config/models/manager.py')],
 'active_managers, per-manager ConfigManager and Runner','all other items observed after each step')

p('P10','run and get results have the documented shape and order',
 "run(path) returns the item's result, run(section) the list of results of its members in definition order, nested like the section, and run(list) the list of those results index by index; every item is executed exactly once per mention, in order, with its current config. get(section) returns the configured members, as a list for a section of items and as a dict by name for a section of sections, in order and identical to the objects that get gives for each member path (a plain class that was never loaded is given uncalled, as a partial with its config). Functions, plain classes and specific classes may be mixed.",
 ['inputs','configurations'],'all trees and all lists of paths of items and sections',
 'tests run one flat section; nesting, mixing of item kinds and repetition are unbounded',
 ['pyfileconf/runner/models/runner.py','pyfileconf/main.py','pyfileconf/logic/combine.py'],
 [('section traversal','runner.py _run_section/_get_section'),('argument normalisation','main.py run, logic/combine.py')],
 'none','return values and execution log')

p('P11','All access routes to an item agree',
 "Section path string, attribute access on the manager, Selector attribute access, Selector/ItemView construction from a path, and ItemView passed to run, get, reset and the batch operations all denote the same item: they give the same object, the same result and the same effect, in any order of use. A path of sections and items is contained in a Selector exactly when it is an item or section of a manager, and accessing a path below an item gives that attribute of the configured object.",
 ['histories','inputs'],'all projects, items, routes and interleavings of routes, including lookups of missing names and partial section accesses in between',
 'tests use each route once in isolation; hidden lookup state makes the order matter',
 ['pyfileconf/runner/models/runner.py','pyfileconf/selector/models/selector.py','pyfileconf/selector/models/itemview.py','pyfileconf/main.py'],
 [('attribute route','runner.py __getattr__'),('selector route','selector.py __contains__/_get_real_item, itemview.py __getattr__/__call__')],
 'Runner._full_getattr','object identity, results, configs')

p('P12','Specific class dicts configure objects of the given class',
 "For each specific class dict, every entry is an instance of the configured class whose key_attr attribute is the entry's name, whose other init arguments come from its config, and which running executes through execute_attr; entries scaffold a config file with exactly the class's init arguments (key attribute preset to the entry name) plus the always-imports and always-assigns. Different specific class dicts with different classes, key_attr and execute_attr settings do not influence each other.",
 ['inputs','configurations'],'all class signatures, key/execute attribute names, always import/assign strings and nested entry dicts',
 'tests use two fixed classes; generalisation over class shapes and options is unchecked',
 ['pyfileconf/data/models/collection.py','pyfileconf/data/models/file.py','pyfileconf/data/models/config.py','pyfileconf/data/logic/convert.py','pyfileconf/runner/models/runner.py','pyfileconf/main.py'],
 [('scaffold','data/models/collection.py _output_config_files'),('empty objects','data/logic/convert.py'),('execution','runner.py _run_one_specific_class')],
 'specific registrars','config files, pm.get attributes, pm.run')

p('P13','run_product runs exactly the cartesian product',
 "run_product (and IterativeRunner, across managers) runs the items once for each element of the product of the given updates grouped by section path, in the order of the input (later groups varying fastest), and each result is the one obtained by applying that case's updates alone on top of the configs the items had before the call. run_product_gen and the collecting form agree case by case, collect_results=False runs the same cases and returns an empty list, and the caller's updates are not modified. A runner can be run again, also after a partly consumed generator or a failing item, and runs the same cases with the same results.",
 ['inputs','histories'],'all lists of updates over any items, including cases that set different keys of one item, and section or list run targets',
 'tests use two values of one key; carry-over between cases that set different keys needs generated combinations',
 ['pyfileconf/iterate.py','pyfileconf/plugin/default_hooks.py','pyfileconf/main.py'],
 [('product','iterate.py get_config_product'),('restoring defaults','iterate.py get_defaults/_fill_case_with_defaults'),('minimal updates','default_hooks.py pyfileconf_iter_update_for_case')],
 'IterativeRunner.defaults/last_case','cases and results, execution log')

p('P14','Batch operations equal the sequence of single operations',
 "update_batch and BatchUpdater.update leave every config, object and result as the same updates applied one by one with update() would, in order, across managers and for string paths, SectionPaths and ItemViews as targets; BatchUpdater.reset likewise equals the sequence of resets. The update dictionaries passed in are not modified.",
 ['histories','inputs'],'all lists of updates and resets over items, sections and managers',
 'differential property over arbitrary lists; tests check one batch',
 ['pyfileconf/batch.py','pyfileconf/main.py','pyfileconf/sectionpath/sectionpath.py'],
 [('batch loop','batch.py update/reset'),('target resolution','sectionpath.py from_ambiguous')],
 'configs of all managers','twin projects compared after each batch')

p('P15','Changing a config refreshes everything that depends on it',
 "When a config file reads an attribute of another item (through a Selector) or an item reads another item while running, then after any update, reset or refresh that changes the latter (since both were last loaded), the dependent's config and already loaded objects equal what loading the file anew (plus its own updates) would give, transitively along any dependency graph and across managers. Propagation always terminates, also on diamonds and cycles, and updates applied to the dependents themselves are kept.",
 ['histories','configurations'],'all dependency graphs among configs and items, all histories of changes',
 'order, depth and sharing in the graph matter; tests use chains of two or three',
 ['pyfileconf/config/models/manager.py','pyfileconf/plugin/default_hooks.py','pyfileconf/pmcontext/main.py','pyfileconf/selector/models/selector.py','pyfileconf/selector/models/itemview.py','pyfileconf/runner/models/runner.py'],
 [('propagation','config/models/manager.py refresh_dependent_configs'),('trigger','plugin/default_hooks.py pyfileconf_post_config_changed')],
 'context.force_update_dependencies','configs, objects and results of dependents')

p('P16','Recorded dependencies are exactly the accesses made',
 "context.config_dependencies and force_update_dependencies contain an edge from B to A exactly when, since A's manager was last loaded, A's config was given a view of B by update(), or its file referenced B through a Selector while being executed, or A used B while running; the forced set contains exactly the edges where the value of B was really looked up. No edge is recorded from an item to itself, and none for accesses made outside any running item or loading file.",
 ['histories','configurations'],'all programs of nested runs, file loads and view accesses',
 'recording is implicit in many access paths; tests check a few edges and never the absence of others',
 ['pyfileconf/pmcontext/main.py','pyfileconf/pmcontext/stack.py','pyfileconf/pmcontext/tracing.py','pyfileconf/selector/models/selector.py','pyfileconf/selector/models/itemview.py','pyfileconf/main.py'],
 [('recording','pmcontext/main.py add_config_dependency*'),('who is running','pmcontext/stack.py')],
 'context.config_dependencies, context.force_update_dependencies, context.stack','the two dependency maps')

p('P17','A failing item leaves no trace and force_continue isolates it',
 "When a run, a config file or a source raises, the original exception reaches the caller (by whichever route the item was used, also when an attribute is read through a view), the context stack and sys.stdout are as before the call, and later operations on all items give their normal results. With force_continue, running a list returns the results of exactly the items that succeed, in order, and still runs those after a failure; with auto_pdb the debug function is called, once, while the exception is being handled, and run returns None.",
 ['fault_sequences','histories'],'all placements of failures in nested runs, files and lists, with and without log_stdout, force_continue, auto_pdb',
 'tests raise in one place; restoring global state must hold for every failure point',
 ['pyfileconf/pmcontext/tracing.py','pyfileconf/main.py','pyfileconf/logger/bind_stdout.py','pyfileconf/debug.py'],
 [('stack frames','pmcontext/tracing.py __exit__'),('stdout binding','logger/bind_stdout.py'),('force continue','main.py _run_with_force_continue')],
 'context.stack, sys.stdout','stack, stdout, results after each failure')

p('P18','Loads are repeatable and recoverable',
 "reload() after any edits of dict files, config files, section files, sources or modules they import gives the state that a fresh manager (in a new process) on the edited project would have; runtime updates are forgotten and existing values of config files kept. A load that fails (broken dict file, missing import, missing name, failing source) raises, and after the project is repaired load() succeeds and gives that same state.",
 ['fault_sequences','histories'],'all sequences of edits, breakages, repairs, loads and reloads',
 'stale modules and half-built registrars only show after particular sequences',
 ['pyfileconf/main.py','pyfileconf/imports/models/tracker.py','pyfileconf/imports/logic/load/ext_importlib.py','pyfileconf/io/file/load/lazy/base/loader.py'],
 [('module wiping','main.py load/reload/_wipe_loaded_modules'),('import tracking','imports/models/tracker.py')],
 'sys.modules, registrars','configs, results and files against a fresh process-like manager')

p('P19','An ItemView behaves as the item it stands for',
 "A view's type and isinstance are those of the configured item (the class for classes and specific classes, a function type for functions), calling it gives the item's result (for a plain class of pipeline_dict, the configured object), reading an attribute gives the item's current attribute, assigning one updates the item's config, and deepcopy gives an independent copy of the item. Views are equal and hash alike exactly when their section paths are equal; is_item_view is true for views and false for everything else; building views loads no item.",
 ['inputs','histories'],'all item kinds, attributes and config histories',
 'proxies leak in ways a single assertion does not show; several upstream tests of isinstance even fail on current Python',
 ['pyfileconf/selector/models/itemview.py','pyfileconf/selector/models/selector.py'],
 [('proxying','itemview.py __getattr__/__setattr__/__call__/__class__'),('types','selector.py get_type')],
 'none','views compared with pm.get')

p('P20','Plugin hooks see every change exactly once and their results count',
 "pyfileconf_pre_config_changed and post_config_changed fire, in that order, exactly once per effective change of a loaded item's config, with the section path and the config before and after, and not at all when an operation changes nothing; pre/post update, run and batch hooks fire once per call with the caller's arguments. Items returned by pre_run are run too, results returned by post_run are appended, updates returned by pre_update and pre_update_batch are applied, and cases from iter hooks are added, modified or applied as returned, for any number of registered plugins.",
 ['histories','configurations'],'all histories of operations with all sets of registered plugins',
 'tests register one plugin per hook; combination and exactly-once need histories',
 ['pyfileconf/plugin/hookspecs.py','pyfileconf/plugin/default_hooks.py','pyfileconf/main.py','pyfileconf/runner/models/runner.py','pyfileconf/config/models/manager.py','pyfileconf/batch.py','pyfileconf/iterate.py'],
 [('hook calls','main.py run/update, runner.py run, config manager _track_pre_update/track_post_update, batch.py, iterate.py')],
 'plugin manager','log of hook calls against model')

p('P21','Options behave as a resettable map',
 "After any sequence of set_option, set_options, value assignment, reset_option, reset_options, reset and (possibly nested or failing) with-blocks, every option has the value that a plain map of the same operations has; leaving a with-block, normally or by exception, restores the defaults. Exactly when log_folder is set, one file handler exists, it writes below the current log_folder and rolls over as the options of the log file say; changing or resetting options never raises and never leaves stale handlers.",
 ['histories'],'all sequences of option operations',
 'tests set and reset one option; the handler bookkeeping depends on the sequence',
 ['pyfileconf/opts/__init__.py','pyfileconf/opts/filelog.py','pyfileconf/logger/logger.py'],
 [('option map','opts/__init__.py'),('handler callback','opts/filelog.py, logger/logger.py')],
 'options singleton, logger handlers','option values, handlers, log files')

p('P22','Section paths obey their algebra',
 "SectionPath round-trips between string, section list and file path (below any base folder, with or without .py), join is associative with lengths adding up, endswith holds exactly for suffixes, and from_ambiguous/list_from_ambiguous accept strings, SectionPaths and ItemViews interchangeably with base path and manager stripping applied to each kind consistently. Equality and hash agree with the path string, and no operation mutates its operands.",
 ['inputs'],'all section paths and bases',
 'laws over all paths; tests check single examples',
 ['pyfileconf/sectionpath/sectionpath.py'],
 [('conversions','sectionpath.py')],'none','returned paths')

p('P23','Config and dict files survive parse and render',
 "Reading a file of imports and assignments and writing it back executes to the same namespace: every import form (module, from, rename, several names, several lines), assignment and annotation keeps its meaning and order, and a second round trip is byte-identical. Import and assignment statements individually round-trip between text, AST and object form, and equal texts give equal objects.",
 ['inputs','programs'],'all files of imports, (annotated) assignments of arbitrary expressions, comments and docstrings within the supported grammar',
 'the grammar is infinite; tests cover a few statements',
 ['pyfileconf/imports/models/statements/module.py','pyfileconf/imports/models/statements/obj.py','pyfileconf/imports/models/statements/rename.py','pyfileconf/assignments/models/statement.py','pyfileconf/assignments/models/container.py','pyfileconf/io/file/load/parsers/imp.py','pyfileconf/io/file/load/parsers/assign.py','pyfileconf/io/file/interfaces'],
 [('parsing','io/file/load/parsers'),('rendering','imports/models/statements, io/file/write')],'none','executed namespaces, statement objects')

p('P24','Import containers find and deduplicate by meaning',
 "Looking up a name in an import container returns the statement that binds it (also under a rename, among multiple names and multiple statements), and raises its documented exception exactly when none does; add_if_missing leaves a container in which the given import's names are bound, adds nothing when an equal import is there, and keeps the existing statements and their order.",
 ['inputs'],'all lists of import statements and names',
 'combinatorial in statements, renames and order',
 ['pyfileconf/imports/models/statements/container.py','pyfileconf/basemodels/container.py','pyfileconf/assignments/models/container.py'],
 [('lookup','container.py get_import_for_module_or_obj_name'),('dedupe','container.py add_if_missing')],'none','container contents')

p('P25','Managers are found by file path and section path',
 "get_manager_by_filepath returns a manager exactly for the files inside that manager's folder (the innermost one when project folders are nested; never for sibling folders sharing a prefix, relative and absolute paths alike), get_manager_by_section_path_str returns the manager whose name is the first section, and both raise their documented exception otherwise. A name belongs to the newest manager created with it, and a manager that ceases to exist gives up its own registration only.",
 ['histories','inputs'],'all sets of folders, names and lifetimes of managers',
 'prefix-sharing folders and replaced managers are untested combinations',
 ['pyfileconf/main.py','pyfileconf/pmcontext/main.py'],
 [('lookup','main.py get_manager_by_filepath/get_manager_by_section_path_str'),('registration','main.py __init__/__del__')],
 'context.active_managers','returned managers')

p('P26','Captured output and logs are complete and scoped',
 "With log_stdout, everything a run prints is logged, in order and once, and nothing printed outside the run is; without it, stdout reaches the real stream unchanged; either way items can use stdout as the file it is (write, writelines, isatty, encoding). With log_folder set, the log file receives every message the logger emits while it is set and none afterwards.",
 ['histories','inputs'],'all programs that print, fail and nest runs under all option histories',
 'needs interleavings of prints, failures and option changes',
 ['pyfileconf/logger/bind_stdout.py','pyfileconf/logger/logger.py','pyfileconf/opts/filelog.py','pyfileconf/main.py'],
 [('stdout binding','logger/bind_stdout.py'),('file handler','logger/logger.py')],
 'sys.stdout, logger handlers','captured log records, stdout, log files')

p('P27','Completion lists exactly what can be reached',
 "dir() of a manager and of a view of it lists every top-level section and every specific class dict besides the manager's own fixed names (before a load only those and the names of the specific class dicts), dir() of a Selector lists exactly the registered managers besides its fixed names, dir() of a view of a section lists exactly the members of the section besides fixed names, and dir() of an item's config its arguments. Every listed name can be looked up, listing neither creates nor runs items, and the lists follow create() and edits of the dict files with reload().",
 ['inputs','histories'],'all project trees, after any changes of the project',
 'no test lists names; wrong lists show only at particular depths or after changes of the tree',
 ['pyfileconf/main.py','pyfileconf/selector/models/selector.py','pyfileconf/selector/models/itemview.py','pyfileconf/basemodels/collection.py','pyfileconf/basemodels/registrar.py','pyfileconf/basemodels/config.py'],
 [('listing','__dir__ of manager, registrar, collection, selector, view, config')],
 'none','dir() and getattr on every level')

p('P28','The context tells what is running and what is being loaded',
 "While an item started by run() executes (alone, in a list, in a section, through a view or by an IterativeRunner), including the loading of its config file and the construction of its object, context.currently_running_section_path_str is its full path with the manager name; within nested runs it is the item started last, again the outer one when the inner one has ended normally or with an exception, and None outside; items called through views do not change it. While a config file is executed, context.file_is_currently_being_loaded is True and context.stack.currently_loading_file_section_path is the path of the item of this file, the innermost one when files use items whose files are loaded in turn; outside they are False and None.",
 ['inputs','histories','faults'],'all projects of up to two managers, all nestings of runs, views and file loads, all failures in between',
 'no test looks at the context within nested runs, in files loaded during a run or after failures',
 ['pyfileconf/pmcontext/stack.py','pyfileconf/pmcontext/tracing.py','pyfileconf/pmcontext/main.py','pyfileconf/runner/models/runner.py','pyfileconf/io/file/load/active/loader.py'],
 [('context','PyfileconfStack, StackTracker, and the places which enter it')],
 'failures raised by items, constructors and files','values of the context at entry of every body, constructor and file and after every action')

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
