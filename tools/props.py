MC = 'explicit-state exploration of the real implementation (fork at every step, all operation sequences to a depth) against a reference model'
NOTES = (
    'All checks run the code in /repo directly: every trace of the explored model is executed on the implementation, '
    'so there is no separate conformance step. /repo carries no hooks, only fix: commits.'
)
NOT_APPLICABLE = []

PROPS = [
    dict(
        id='C01',
        title='The effective configuration follows the history of changes',
        statement='After any sequence of updates (by keyword, dictionary, item view, batch or cross-manager batch, persistent or not), resets, refreshes, reloads, config file edits and runs, what an item gives on get and what it is called with on run is exactly the values in its config file with the surviving updates applied on top, whatever the values and their types are (True replaces 1). A reset forgets all updates, a refresh re-reads the file and keeps only the persistent updates, and a reload forgets everything. Updates with unknown keys change nothing, and no operation affects other items or the config files on disk.',
        over=['histories'],
        quantifier='All sequences of up to 3 (quick) or 4-5 (thorough) operations from a 14 operation alphabet on each of the four kinds of item (function, class, specific class, specific class with a custom update method), all interleavings on several items at once, and all sequences of two updates between values of all types.',
        why='The tests run single updates, or one update and one reset, on one item. What survives is decided by the order of persistent and not persistent updates, refreshes and resets, which the tests never combine.',
        files=['pyfileconf/config/models/manager.py', 'pyfileconf/runner/models/runner.py', 'pyfileconf/main.py', 'pyfileconf/basemodels/config.py'],
        mechanism=[
            ('ConfigManager.update/reset/refresh', 'pyfileconf/config/models/manager.py'),
            ('Runner.update/reset/refresh apply configuration to loaded objects', 'pyfileconf/runner/models/runner.py'),
            ('PipelineManager.update/update_batch/reset/refresh/reload', 'pyfileconf/main.py'),
        ],
        observe=['PipelineManager.get', 'PipelineManager.run', 'config files'],
        technique=MC, level='model_checking',
        level_note='Exhaustive within the depth and alphabet; each prefix gets its own final observation (get, run, get again, files). Values come from a small domain; behaviour which depends on longer histories or other values is not covered.',
    ),
    dict(
        id='C02',
        title='Observations do not change anything',
        statement='Getting, viewing, selecting, listing, comparing, printing, failed lookups, mistyped names and runs which raise never change the configuration of any item, the config files, the global context or what any later operation does. Every history gives the same results with and without such observations in between.',
        over=['histories'],
        quantifier='All sequences of up to 2-3 (quick) or 3-4 (thorough) operations mixing 26 kinds of observation with configuration changes.',
        why='Tests look at the result of one lookup. State which leaks from an abandoned or failed lookup only shows in a later, unrelated operation.',
        files=['pyfileconf/runner/models/runner.py', 'pyfileconf/selector/models/selector.py', 'pyfileconf/selector/models/itemview.py', 'pyfileconf/main.py', 'pyfileconf/pmcontext/main.py'],
        mechanism=[
            ('Runner.__getattr__ and SectionPath building', 'pyfileconf/runner/models/runner.py'),
            ('Selector and ItemView attribute lookups', 'pyfileconf/selector/models/itemview.py'),
            ('context stack is popped when items raise', 'pyfileconf/pmcontext/stack.py'),
        ],
        observe=['PipelineManager.get', 'PipelineManager.run', 'Selector', 'pyfileconf.context'],
        technique=MC, level='model_checking',
        level_note='Exhaustive within the depth and the menu of observations.',
    ),
    dict(
        id='C03',
        title='An item is one live object which is configured in place',
        statement='All ways to reach an item (get by path or view, attribute lookup on the manager, item view, section get for items other than plain classes) give the same object until the project is reloaded, and that object is created at most once. Every reference handed out earlier shows the current configuration after every update, reset, refresh and run, and calling the object directly gives the same result as running the item.',
        over=['histories'],
        quantifier='All sequences of up to 3 (quick) or 4 (thorough) accesses of 5 kinds and changes of 6 kinds, per kind of item, for four items of different kinds at once, and for objects which are false, empty, not hashable or equal to everything.',
        why='Tests compare two lookups right after each other. Whether the object is replaced depends on which access came first and on what changed between accesses.',
        files=['pyfileconf/runner/models/runner.py', 'pyfileconf/config/logic/apply.py', 'pyfileconf/selector/models/itemview.py'],
        mechanism=[
            ('loaded object cache', 'pyfileconf/runner/models/runner.py'),
            ('in-place configuration of loaded objects', 'pyfileconf/config/logic/apply.py'),
        ],
        observe=['PipelineManager.get', 'PipelineManager.__getattr__', 'ItemView.item'],
        technique=MC, level='model_checking',
        level_note='Exhaustive within the depth and alphabet. What stands for a plain class in the result of getting a section is not specified, only that it does not replace the item.',
    ),
    dict(
        id='C05',
        title='Hooks see each configuration change exactly once',
        statement='Each update calls the pre and post update hooks once, in order, and each batch the batch hooks; what pre hooks return or add to the updates is applied, without changing the dictionaries of the caller. The configuration change hooks are called exactly once, before and after, for every operation which really changes the configuration of an item, with the configuration before and after, and not at all if nothing changes.',
        over=['histories'],
        quantifier='All sequences of up to 3 (quick) or 4 (thorough) of 15 operations with a recording and injecting plugin, for several pairs of kinds of item, and of 17 operations on sections and items in them.',
        why='The tests trigger each hook once. Whether a change is real depends on the history: the same update is a change the first time, not the second time, and again after a reset.',
        files=['pyfileconf/config/models/manager.py', 'pyfileconf/plugin/hookspecs.py', 'pyfileconf/plugin/default_hooks.py', 'pyfileconf/main.py', 'pyfileconf/batch.py'],
        mechanism=[
            ('change detection and hook calls', 'pyfileconf/config/models/manager.py'),
            ('update and batch hooks', 'pyfileconf/main.py'),
        ],
        observe=['hook calls received by a registered plugin'],
        technique=MC, level='model_checking',
        level_note='Exhaustive within the depth and alphabet. Changes which follow from dependencies are covered by C04.',
    ),
    dict(
        id='C04',
        title='Configuration computed from other items follows their changes',
        statement='When the configuration of an item is computed in its config file from other items (by calling them, reading their attributes, or using views bound to them), or an item uses others while it runs, every change to a provider is seen by all of its direct and indirect dependents the next time they are got or run, across sections and managers. Dependents keep their own surviving updates, unrelated items are not touched, and the result never depends on which items were loaded first.',
        over=['histories', 'configurations'],
        quantifier='Every dependency graph (DAG) on 3 items and selected shapes on 4, over all kinds of provider and consumer and all forms of reference, with all sequences of up to 2-3 (quick) or 3-4 (thorough) updates, resets, refreshes, gets and runs; every way of using an item while another one runs.',
        why='The tests use one or two fixed dependency pairs with a single change. Missed or doubled refreshes need particular graph shapes, load orders and repeated changes.',
        files=['pyfileconf/main.py', 'pyfileconf/runner/models/runner.py', 'pyfileconf/pmcontext/stack.py', 'pyfileconf/plugin/default_hooks.py', 'pyfileconf/selector/models/itemview.py'],
        mechanism=[
            ('dependency tracking through the stack of loading and running items', 'pyfileconf/pmcontext/stack.py'),
            ('refresh of dependents on change', 'pyfileconf/main.py'),
        ],
        observe=['PipelineManager.get', 'PipelineManager.run', 'hook calls'],
        technique=MC, level='model_checking',
        level_note='Exhaustive over graph shapes and operation sequences within the bounds. Circular references between config files are not supported by pyfileconf and not covered.',
    ),
    dict(
        id='C06',
        title='Results of a run have the structure of what was run',
        statement='Running an item, section, view or list of these runs every contained item exactly once per occurrence, in declaration order, with its configuration, and the results are nested the same way as what was run. Pre and post run hooks are called once around each run and may add items or replace results. With force_continue whatever was asked for and raises is left out of the results and reported in the log at the end without affecting the others, with auto_pdb the debugger is called once and there is no result, otherwise the exception is raised and later items do not run.',
        over=['inputs', 'histories'],
        quantifier='Every item and section of a project with nested, empty and single item sections, by path and by view, every list of up to 3 of them, with every hook behaviour, with force_continue, auto_pdb or neither, with errors and interrupts, and sequences of up to 2 (quick) or 3 (thorough) runs; sections without any items at any level.',
        why='The tests run one section and one list. Whether nesting, order and failures are reported properly depends on the combination of kinds and positions of what is run.',
        files=['pyfileconf/main.py', 'pyfileconf/runner/models/runner.py', 'pyfileconf/logic/combine.py'],
        mechanism=[
            ('PipelineManager.run and force_continue', 'pyfileconf/main.py'),
            ('Runner.run of sections and lists', 'pyfileconf/runner/models/runner.py'),
        ],
        observe=['PipelineManager.run', 'calls received by the functions and classes', 'hook calls'],
        technique=MC, level='model_checking',
        level_note='Exhaustive over what can be run in one fixture project within the list length.',
    ),
    dict(
        id='C07',
        title='A product run runs each combination once with its own configuration',
        statement='Running a product of updates runs exactly the combinations which take one update per distinct set of keys and item, each once, in order, with exactly the configuration of that combination, independent of what the previous combinations left behind. The results report the combination which they belong to, and iterating lazily gives the same results as running all at once even when other changes happen in between.',
        over=['inputs', 'histories'],
        quantifier='Every list of up to 3 updates out of 7 on 4 items for each of several run lists, all sequences of 2 (quick) or 3 (thorough) product runs in 8 forms and changes, and all interleavings of two lazy product runs with changes up to depth 5 (quick) or 6 (thorough); runs in which an item raises, product runs over sections, and cases added or taken out by plugins.',
        why='The tests run one product once. Leaks between combinations need combinations which set different keys, and lazily run products interleaved with changes.',
        files=['pyfileconf/iterate.py', 'pyfileconf/main.py', 'pyfileconf/batch.py', 'pyfileconf/plugin/default_hooks.py'],
        mechanism=[
            ('IterativeRunner cases', 'pyfileconf/iterate.py'),
            ('batch update between cases', 'pyfileconf/batch.py'),
        ],
        observe=['PipelineManager.run_product', 'PipelineManager.run_product_gen', 'IterativeRunner'],
        technique=MC, level='model_checking',
        level_note='Exhaustive within the lists and depths given.',
    ),
    dict(
        id='C08',
        title='Scaffolded config files represent the signature of the item',
        statement='For every function, class and specific class, the config file created for it is valid on its own and assigns exactly the parameters of the signature, in order, with their default values and annotations. Loading it passes exactly these values, whatever way the names used in the signature were imported or defined. Loading the project again leaves the file as it is.',
        over=['inputs', 'programs'],
        quantifier='Every combination of 35 annotations and over 100 default value expressions on a parameter, all pairs and triples of parameters out of smaller sets with every position of the keyword only marker, 12 import forms, 29 forms of module source, for functions, classes and specific classes, with names which are bound several times in the module.',
        why='The tests scaffold a handful of signatures. The source generator and import tracking treat each syntactic form separately.',
        files=['pyfileconf/io/func/load/args.py', 'pyfileconf/io/func/load/extractimp.py', 'pyfileconf/io/file/write/asttosource.py', 'pyfileconf/io/file/write/base.py', 'pyfileconf/pipelines/models/file.py', 'pyfileconf/config/models/file.py', 'pyfileconf/imports/models/statements/container.py'],
        mechanism=[
            ('arguments and imports are extracted from the source of the function', 'pyfileconf/io/func/load/args.py'),
            ('imports which the signature needs', 'pyfileconf/io/func/load/extractimp.py'),
            ('source generation', 'pyfileconf/io/file/write/asttosource.py'),
        ],
        observe=['config files', 'PipelineManager.get', 'PipelineManager.run'],
        technique='exhaustive enumeration of a bounded grammar of programs, each executed on the real implementation in its own process, against the interpreter\'s own view of the signature',
        level='exploration',
        level_note='Every program of the grammar is executed, no sampling. Classes without their own __init__, *args, **kwargs and positional only parameters are not supported by pyfileconf and not covered.',
    ),
    dict(
        id='C09',
        title='Scaffolding preserves what users write in config files',
        statement='Loading a project never removes, reorders or changes the meaning of anything which the user wrote in a config file, whether or not the signature of the item changed. It only adds imports and parameters which are missing, and a second load changes nothing further. The values in the file are the ones which the item is called with.',
        over=['inputs', 'programs', 'histories'],
        quantifier='Every config file built of one to three (quick) or four (thorough) blocks out of about 60 (comments, imports, control flow, multi-line values, docstrings, ...), for functions, classes and specific classes, and all sequences of up to three changes to the signature and edits of the file.',
        why='The tests load a few hand written config files. The file is taken apart and put together again by code which treats each kind of line separately, so that which lines survive depends on their combination and position.',
        files=['pyfileconf/io/file/interfaces/config.py', 'pyfileconf/io/file/load/parsers/assign.py', 'pyfileconf/config/models/file.py', 'pyfileconf/basemodels/file.py', 'pyfileconf/imports/models/statements/container.py', 'pyfileconf/assignments/models/container.py'],
        mechanism=[
            ('config files are split into imports, assignments and the rest', 'pyfileconf/io/file/interfaces/config.py'),
            ('assignments are parsed', 'pyfileconf/io/file/load/parsers/assign.py'),
            ('missing imports and assignments are added', 'pyfileconf/config/models/file.py'),
        ],
        observe=['config files', 'PipelineManager.run'],
        technique='exhaustive enumeration of config files out of a grammar and of histories of edits, each loaded by the real implementation, against executing the file as plain Python', level='model_checking',
        level_note='All combinations of the blocks up to the bound are loaded. Files which are not valid Python are the subject of C12.',
    ),
    dict(
        id='C10',
        title='Creating items at runtime equals declaring them',
        statement='After any sequence of creates, the project is in the same state as one where the same items had been declared in the dict files from the start, both for the running manager and for the next session which loads it. Items, configuration changes and user code which were there before stay as they were. A create which fails changes nothing.',
        over=['histories', 'configurations'],
        quantifier='All sequences of up to 3 (quick) or 4 (thorough) operations out of creates in existing, new and nested sections (functions, classes, modules of the same name, specific classes), updates, runs and reloads, from several shapes of dict files, with customised specific classes; every kind of function and class.',
        why='The tests create a single item in a project of one shape and look at the file which results.',
        files=['pyfileconf/main.py', 'pyfileconf/io/file/interfaces/pipeline.py', 'pyfileconf/io/file/interfaces/datadict.py', 'pyfileconf/pipelines/models/dictfile.py', 'pyfileconf/pipelines/models/registrar.py', 'pyfileconf/data/models/dictfile.py'],
        mechanism=[
            ('PipelineManager.create', 'pyfileconf/main.py'),
            ('dict files are read and written', 'pyfileconf/io/file/interfaces/pipeline.py'),
            ('registrars scaffold and register new items', 'pyfileconf/basemodels/registrar.py'),
        ],
        observe=['dict files', 'config files', 'PipelineManager.get', 'PipelineManager.run'],
        technique=MC, level='model_checking',
        level_note='Creating an item which exists already is not specified by pyfileconf and not covered.',
    ),
    dict(
        id='C11',
        title='Crashes and failed file operations lose nothing',
        statement='If the process is stopped, or a file operation fails, at any point of loading a project, creating items or reloading, then every project file still has its complete contents from before or after. The project loads again without any intervention, its items work as they did before or do afterwards, and doing the interrupted operations again ends in the same state as if they had not been interrupted.',
        over=['crash_points', 'fault_sequences'],
        quantifier='Every file operation (open for writing, write, rename, mkdir, unlink, ...) of each of 12 scenarios: stopped before it, stopped half way through it, or failing with ENOSPC, and every file or folder which cannot be read (EIO); with a second crash at every operation of the recovery.',
        why='No test interrupts pyfileconf. Config files are read, changed and written back, on every load, so any of the writes could lose what the user wrote.',
        files=['pyfileconf/io/file/interfaces/config.py', 'pyfileconf/io/file/interfaces/pipeline.py', 'pyfileconf/io/file/interfaces/datadict.py', 'pyfileconf/main.py', 'pyfileconf/pipelines/models/registrar.py', 'pyfileconf/basemodels/registrar.py'],
        mechanism=[
            ('config files are written', 'pyfileconf/io/file/interfaces/config.py'),
            ('dict files are written', 'pyfileconf/io/file/interfaces/pipeline.py'),
            ('order of scaffolding and registration', 'pyfileconf/basemodels/registrar.py'),
        ],
        observe=['project files', 'PipelineManager.load', 'PipelineManager.run'],
        technique='exhaustive injection of crashes and errors at every file operation of the real implementation (interposed libc calls), with recovery checked after each', level='fault_enumeration',
        level_note='Every operation of every scenario is a fault point. Data which was passed to the operating system is not lost (process crashes, no power failures).',
    ),
    dict(
        id='C13',
        title='Managers are isolated, and each path belongs to exactly one of them',
        statement='Whatever is done with one manager (updates, resets, reloads, loads which fail, creating it, replacing it by a new manager of the same name) does not change the configuration, the objects or the results of another, even if they share item paths, classes and folders within each other. Each item runs with the execute attribute of its own specific class dict, also when several dicts use the same class. A file belongs to the active manager with the closest folder, a section path to the active manager of that name, selectors show exactly the active managers, and managers which are not loaded give a clear error without affecting others.',
        over=['histories', 'configurations'],
        quantifier='All sequences of up to 3 operations on the same item of two managers, one within the folder of the other, and of up to 5 (quick) or 6 (thorough) creations, loads, failing loads and replacements of three managers, with the path lookups of all files and names after each.',
        why='Nearly all tests have one manager. State which is shared by all managers of a process (active managers, selectors, plugins, modules, maps by class) only shows with several of them, in particular orders.',
        files=['pyfileconf/main.py', 'pyfileconf/pmcontext/main.py', 'pyfileconf/selector/models/selector.py', 'pyfileconf/selector/models/itemview.py', 'pyfileconf/runner/models/runner.py', 'pyfileconf/batch.py'],
        mechanism=[
            ('context.active_managers and the lookups by path', 'pyfileconf/main.py'),
            ('structure of selectors', 'pyfileconf/selector/models/selector.py'),
            ('execute attribute of specific classes', 'pyfileconf/runner/models/runner.py'),
        ],
        observe=['PipelineManager.get_manager_by_filepath', 'PipelineManager.get_manager_by_section_path_str', 'Selector', 'PipelineManager.run'],
        technique=MC, level='model_checking',
        level_note='Exhaustive within the depth and alphabet. Managers which were replaced by one of the same name are not used any more, pyfileconf warns about that.',
    ),
    dict(
        id='C19',
        title='Items inherit configuration from sections, the project and local config',
        statement='What an item is called with is its own configuration, overlaid by the values which the project, its outer sections, its inner sections and the local configuration have for its arguments, in that order, no matter how it is loaded and whether it was loaded before or after the sections changed. Updating, refreshing or resetting a section has that effect on all items and sections within it, and on nothing else. Operations never undo an update of another item or key.',
        over=['histories', 'configurations'],
        quantifier='Every subset of the places which can give a value (item file, project, two levels of sections, local) with five ways to load the items, and all sequences of up to 3 (quick) or 4 (thorough) updates, resets, refreshes, edits, reloads and runs of sections and items within them, of sections which are blank at first, and of specific classes.',
        why='The tests do not use section configs at all. Which value wins depends on all levels at once, and on whether the item was loaded when the section changed.',
        files=['pyfileconf/config/models/manager.py', 'pyfileconf/config/models/section.py', 'pyfileconf/runner/models/runner.py', 'pyfileconf/main.py'],
        mechanism=[
            ('ConfigManager.get merges the levels', 'pyfileconf/config/models/manager.py'),
            ('ConfigSection.from_files reads section.py', 'pyfileconf/config/models/section.py'),
            ('section changes are applied to loaded items', 'pyfileconf/runner/models/runner.py'),
        ],
        observe=['PipelineManager.get', 'PipelineManager.run', 'section.py'],
        technique=MC, level='model_checking',
        level_note='Exhaustive within the depth and alphabet. Whether an update of an item or its section wins for the same key is not specified and left out, except for the known finding that it is not stable.',
    ),
    dict(
        id='C14',
        title='The context tells what is running and is restored whatever happens',
        statement='While an item runs, the context names exactly the items which are being run around it, from the outermost to the innermost, over all managers, and says that no file is being loaded. However a run ends (with a result, any exception, force_continue, auto_pdb, or within items which catch exceptions of items they run), the context and stdout are what they were before. Results, exceptions and the order of what happens are the ones which the same nested calls have in plain Python, with the documented handling of exceptions by the settings of the manager.',
        over=['programs', 'fault_sequences'],
        quantifier='All programs of two (quick) or three (thorough) nested invocations: six forms of invoking (run, list, section, view, product run, call) x four items of two managers x five ways to end x catching or not x settings of the manager x logging of stdout.',
        why='Tests run items one level deep and rarely raise. A frame which stays on the stack or a redirected stdout shows only in what happens after a particular nesting with a particular exception.',
        files=['pyfileconf/pmcontext/stack.py', 'pyfileconf/pmcontext/main.py', 'pyfileconf/pmcontext/tracing.py', 'pyfileconf/runner/models/runner.py', 'pyfileconf/main.py', 'pyfileconf/logger/bind_stdout.py'],
        mechanism=[
            ('frames are pushed and popped', 'pyfileconf/pmcontext/stack.py'),
            ('runs depending on settings', 'pyfileconf/main.py'),
            ('stdout is redirected', 'pyfileconf/logger/bind_stdout.py'),
        ],
        observe=['pyfileconf.context', 'sys.stdout', 'results and exceptions of PipelineManager.run'],
        technique='exhaustive exploration of all nested invocation programs on the real implementation, in lockstep with an interpreter of the reference semantics', level='model_checking',
        level_note='Exhaustive within the nesting depth. Calls of item views do not add frames, as in the current implementation. Threads are not supported by pyfileconf.',
    ),
    dict(
        id='C18',
        title='Section paths, their parts and file paths correspond one to one',
        statement='A section path is the sequence of its parts: joining, slicing, comparing, hashing and testing the end of section paths do to them exactly what the same operation does to the list of parts, whether given as strings, section paths or item views. Every item has exactly one config file, whose path and the section path of the item can be computed from each other, for absolute and relative folders and with the file extension or not. A config file knows the section path of its own item while it is loaded, and a file is always matched to the manager with the closest folder.',
        over=['inputs', 'configurations'],
        quantifier='All section paths of up to 4 (quick) or 5 (thorough) parts over an alphabet of names which are prefixes and suffixes of each other, all pairs of these, and all arrangements of up to two (quick) or three (thorough) managers in eight folders with all files of each.',
        why='The tests use a handful of paths. Mistakes in path handling need particular paths, e.g. one which ends with the start of another or folders whose names are prefixes of each other.',
        files=['pyfileconf/sectionpath/sectionpath.py', 'pyfileconf/pmcontext/stack.py', 'pyfileconf/main.py'],
        mechanism=[
            ('SectionPath', 'pyfileconf/sectionpath/sectionpath.py'),
            ('frames of files which are loaded', 'pyfileconf/pmcontext/stack.py'),
            ('get_manager_by_filepath', 'pyfileconf/main.py'),
        ],
        observe=['SectionPath', 'PipelineManager.get_manager_by_filepath', 'config files', 'pyfileconf.context'],
        technique='exhaustive enumeration of all section paths, pairs of these and layouts of folders within bounds, executed on the real implementation against lists of parts', level='model_checking',
        level_note='Exhaustive within the alphabet and lengths. Empty parts are not section paths.',
    ),
    dict(
        id='C20',
        title='Names of items, sections, managers and arguments do not matter',
        statement='An item works in the same way whatever the name of it, its arguments, sections, specific class dict and manager is, unless the name is documented to be used by pyfileconf. In particular, a name which pyfileconf uses for its own attributes, methods, parameters or files never gives another object, is never mistaken for something else and never leads to an error. This is so for declared items and for items which are created at runtime.',
        over=['inputs'],
        quantifier='All names of about 270 (quick) or 800 (thorough) attributes and variables within pyfileconf, as name of functions, sections on all levels, classes, managers, specific class dicts and their items, and all names of about 600 parameters and local variables as argument names. Each is run, got, viewed, updated, refreshed, reset, iterated, edited, reloaded and created.',
        why='pyfileconf looks up items as attributes of objects which have attributes of their own, and passes arguments of items as keyword arguments of its own functions. Tests use names like stuff and function.',
        files=['pyfileconf/logic/get.py', 'pyfileconf/basemodels/collection.py', 'pyfileconf/basemodels/registrar.py', 'pyfileconf/config/models/manager.py', 'pyfileconf/config/models/section.py', 'pyfileconf/basemodels/config.py', 'pyfileconf/main.py'],
        mechanism=[
            ('lookup of items in collections and sections', 'pyfileconf/logic/get.py'),
            ('items are created in registrars', 'pyfileconf/basemodels/registrar.py'),
            ('arguments are passed on as dictionaries', 'pyfileconf/config/models/manager.py'),
        ],
        observe=['PipelineManager.get', 'PipelineManager.run', 'PipelineManager.create', 'Selector'],
        technique='exhaustive execution of all uses of all names of a finite set on the real implementation, each in a process of its own', level='exploration',
        level_note='The set of names is finite and fixed. Attribute access is not checked for names of attributes of the manager, its sections and views, get and run are.',
    ),
    dict(
        id='C12',
        title='A failed load changes nothing and works once its cause is repaired',
        statement='Whatever fails while files are loaded (dict files, modules of items, configs of items and sections, in any phase from load to replacing the manager), the error is reported rather than swallowed, and context, stdout, files and everything which was usable before are as before. Only the items which depend on the broken file fail, and all others keep working. Once the file is repaired, the same operation works, with the results of a project which never was broken.',
        over=['fault_sequences', 'histories'],
        quantifier='All combinations of ten files x up to 17 kinds of faults (syntax, encoding, exceptions including KeyboardInterrupt and SystemExit) x seven phases x ways to repair, and all histories of up to 3 (quick) or 4 (thorough) operations in which two configs, one of which depends on the other, break and are repaired, or in which managers get one of 13 kinds of invalid arguments or dict files which clash with these.',
        why='Tests load valid projects. A half-finished load shows only in later operations, for particular combinations of what failed, when, and what was loaded before.',
        files=['pyfileconf/main.py', 'pyfileconf/io/file/load/active/loader.py', 'pyfileconf/config/models/file.py', 'pyfileconf/pmcontext/main.py', 'pyfileconf/config/models/section.py'],
        mechanism=[
            ('loads and cancels loading', 'pyfileconf/main.py'),
            ('imports of modules', 'pyfileconf/io/file/load/active/loader.py'),
            ('configs are loaded from files', 'pyfileconf/config/models/file.py'),
            ('context of what is being loaded', 'pyfileconf/pmcontext/main.py'),
        ],
        observe=['exceptions of PipelineManager operations', 'results of items before and after the repair', 'pyfileconf.context', 'files'],
        technique='exhaustive fault injection into the real implementation, for all places, kinds, phases and repairs, and exhaustive exploration of all histories of faults and operations in lockstep with a reference model', level='model_checking',
        level_note='Exhaustive within the faults and depths. Faults of the file system itself are those of C08.',
    ),
    dict(
        id='C15',
        title='Options act at once, are reset by contexts, and log every line once',
        statement='An option always has the value set last, whichever way it was set, and resetting, or leaving a with block of the options normally or by an exception, restores the defaults of all of them. At every time, what is printed by items and logged goes to exactly the destinations which the current options say: each line once and in order to the console, and to the log file in the current folder if there is one, with a failed change of an option changing nothing.',
        over=['histories', 'fault_sequences'],
        quantifier='All sequences of up to 2 (quick) or 3 (thorough) operations over all options, values and ways to set and reset them, and of up to 3 or 4 over log folder and stdout, each with nested runs, errors and operations which log.',
        why='The tests set options once and reset them. Duplicate handlers, lost lines and files which stay open depend on the order of changes.',
        files=['pyfileconf/opts/filelog.py', 'pyfileconf/logger/logger.py', 'pyfileconf/logger/bind_stdout.py'],
        mechanism=[
            ('options with hooks for changes', 'pyfileconf/opts/filelog.py'),
            ('handlers of the logger', 'pyfileconf/logger/logger.py'),
            ('stdout is redirected to the logger', 'pyfileconf/logger/bind_stdout.py'),
        ],
        observe=['pyfileconf.options', 'log files', 'console', 'records of the pyfileconf logger'],
        technique='exhaustive exploration of all operation sequences up to a depth on the real implementation, in lockstep with a reference model', level='model_checking',
        level_note='Exhaustive within the depths. The rollover of log files over time is that of the standard library.',
    ),
    dict(
        id='C16',
        title='Views and selectors stand for the current item whenever they were taken',
        statement='A view stands for the item at its path in the current project, however and whenever it was taken: before the manager existed or was loaded, before updates, reloads, or the replacement of the manager. Its attributes, calls, methods, type and isinstance are those of the item. Two views are equal exactly if they have the same path, views can be used wherever paths can, and exactly the items and sections of the project are in the selector and in dir of it and of views.',
        over=['histories', 'inputs'],
        quantifier='All histories of up to 4 (quick) or 5 (thorough) operations from creating the manager, over taking views in three ways, loading, reloading, replacing, updating, setting attributes of views, creating, getting and running, for eight items of all kinds. All sequences of up to 4 (quick) or 5 (thorough) operations of two managers, with membership of over 300 paths after each.',
        why='Tests use a view directly after creating it. A view which keeps an object, or a selector which keeps a structure, is stale only after particular later operations.',
        files=['pyfileconf/views/object.py', 'pyfileconf/selector/models/selector.py', 'pyfileconf/selector/models/itemview.py', 'pyfileconf/selector/logic/get/frommanager.py', 'pyfileconf/main.py'],
        mechanism=[
            ('views look up items', 'pyfileconf/selector/models/itemview.py'),
            ('selector has the structure of all managers', 'pyfileconf/selector/models/selector.py'),
            ('attributes of views are updates', 'pyfileconf/main.py'),
        ],
        observe=['Selector', 'ItemView', 'PipelineManager.get', 'PipelineManager.run'],
        technique=MC, level='model_checking',
        level_note='Exhaustive within the depth and the kinds of items. Names which are attributes of views are described in C20.',
    ),
    dict(
        id='C17',
        title='Creating a project completes what is missing and overwrites nothing',
        statement='Creating and loading a manager for a folder creates exactly the files and folders of the project which are missing, and the project works afterwards, with what the existing files say. Files of the user are never removed or overwritten, and no line of an existing config or dict file is lost by creating, loading, reloading and running. Creating a manager for a complete project changes no file.',
        over=['configurations', 'histories'],
        quantifier='All subsets of the existing parts of a project (dict files, configs of items and sections, unrelated files, folders, log folder) x names of the defaults folder x log folder not used, before or later, and all histories of up to 3 (quick) or 4 (thorough) operations from subsets of the main parts.',
        why='Tests start from an empty or a complete folder. What is overwritten depends on which combination of parts exists.',
        files=['pyfileconf/main.py', 'pyfileconf/io/file/write/config.py', 'pyfileconf/basemodels/registrar.py'],
        mechanism=[
            ('creates projects', 'pyfileconf/main.py'),
            ('creates folders and configs', 'pyfileconf/basemodels/registrar.py'),
        ],
        observe=['files of the project', 'PipelineManager.run', 'PipelineManager.create'],
        technique='exhaustive enumeration of all initial states of a project folder and operation sequences up to a depth, executed on the real implementation', level='model_checking',
        level_note='Exhaustive within the parts and depths. Comments of dict files in which items are created are not kept.',
    ),
    dict(
        id='C21',
        title='Dict files mean what Python takes them to mean',
        statement='For every dict file which is written with dicts, lists and dicts within lists, whose items are imported by from-imports, under their own names or renamed, from where they are defined or from modules which import them, the project has exactly the sections and items which Python takes the file to have. Each item runs and has the arguments of the very object which Python binds to its name, at its place, and independently of other items. This stays so when items are created, updated, edited and reloaded, and the dict file then says the same and the new items.',
        over=['inputs', 'histories'],
        quantifier='All structures of dicts, lists and dicts within lists with up to 3 levels and 3 (quick) or 4 (thorough) items, eight forms of imports (renamed, swapped, multiple names of one object, same names from several modules, re-exported and renamed again, packages), three forms of the file around it, and for each form of import all sequences of up to 2 (quick) or 3 (thorough) updates, edits, creations and reloads.',
        why='Dict files are parsed rather than executed, and creating items writes them again. Tests use a few structures, without renamed imports.',
        files=['pyfileconf/basemodels/collection.py', 'pyfileconf/views/object.py', 'pyfileconf/imports/models/statements/container.py', 'pyfileconf/imports/models/statements/rename.py', 'pyfileconf/io/func/load/args.py', 'pyfileconf/io/file/load/parsers/collections.py', 'pyfileconf/io/file/load/lazy/pipelineast.py', 'pyfileconf/dictfiles/modify.py'],
        mechanism=[
            ('collections are made from dicts and lists', 'pyfileconf/basemodels/collection.py'),
            ('names are looked up in the imports', 'pyfileconf/imports/models/statements/container.py'),
            ('definitions of renamed and re-exported items', 'pyfileconf/io/func/load/args.py'),
            ('writes dict files', 'pyfileconf/dictfiles/modify.py'),
        ],
        observe=['results of PipelineManager.run', 'config files', 'dict files', 'Selector'],
        technique='exhaustive enumeration of all dict files of a grammar up to a size and of operation sequences on each, on the real implementation, against the evaluation of the file by Python', level='model_checking',
        level_note='Exhaustive within the grammar, forms of imports and depth. Names which are bound multiple times, imports of modules, tuples and computed values are not supported by dict files.',
    ),
    dict(
        id='C22',
        title='Config files of specific classes have the imports and assignments asked for',
        statement='Each config file of an item of a specific class has every import of its `always_import_strs` and every assignment of its `always_assign_strs` exactly once: the default ones if these are not given, and none if they are empty, for items at any place, whether declared or created. It works when Python executes it on its own, and the item has the arguments it says. Loading again, creating items or changing what is asked for adds what is missing, keeps what the user wrote, and has no effect on items of other class dicts or of the pipeline dict.',
        over=['inputs', 'histories'],
        quantifier='All pairs of six lists of imports (default, none, objects, renamed, modules, packages) and seven lists of assignments which work together, for two class dicts at once, each followed by every operation, and for several of them all sequences of up to 2 (quick) or 3 (thorough) reloads, new sessions, creations in all kinds of sections, user edits (values, always assigned values, imports, use of imported names), updates and changes of what is asked for.',
        why='Tests use one list of imports and assignments in one class dict. Both are merged into files with user edits on each load, and are passed on through all levels of sections and by creation.',
        files=['pyfileconf/data/models/file.py', 'pyfileconf/data/models/config.py', 'pyfileconf/data/models/collection.py', 'pyfileconf/basemodels/file.py', 'pyfileconf/basemodels/collection.py', 'pyfileconf/basemodels/registrar.py', 'pyfileconf/imports/models/statements/container.py'],
        mechanism=[
            ('imports and assignments of the class dict', 'pyfileconf/data/models/file.py'),
            ('added to config if missing', 'pyfileconf/basemodels/file.py'),
            ('passed to items in all sections', 'pyfileconf/basemodels/collection.py'),
            ('passed to items which are created', 'pyfileconf/basemodels/registrar.py'),
        ],
        observe=['config files', 'attributes of items'],
        technique='exhaustive enumeration of combinations of imports and assignments and of operation sequences on the real implementation, against a model of the lines and the execution of the file by Python', level='model_checking',
        level_note='Exhaustive within the lists of imports and assignments and the depth. Assignments to names of arguments, whose defaults take precedence, are not covered.',
    ),
    dict(
        id='C23',
        title='Plugins which are registered at the time are called and decide what happens',
        statement='At any time, each hook of each registered plugin is called exactly once, in order, for everything which happens to any manager or IterativeRunner, no matter whether these existed before the plugin was registered, and no plugin is called after it was unregistered or after `reset_plugins`. Without the default plugins no cases are made from the updates of products, no cases or batches are applied and no dependent configuration is refreshed, unless another plugin does it; `reset_plugins` restores exactly the default behavior.',
        over=['histories'],
        quantifier='All sequences of up to 4 (quick) or 5 (thorough) of registering and unregistering three plugins (all hooks, all hooks and own cases, one hook which adds results), removing the default plugins, resetting, updates, batch updates, runs, products and IterativeRunners which are created and run at different times, on items one of which depends on the other.',
        why='Tests register one plugin in one manager. Whether plugins and defaults which come and go take effect everywhere depends on the order of registrations, objects being created and operations.',
        files=['pyfileconf/plugin/manager_utils.py', 'pyfileconf/plugin/manager.py', 'pyfileconf/plugin/default_hooks.py', 'pyfileconf/plugin/hookspecs.py', 'pyfileconf/iterate.py', 'pyfileconf/batch.py', 'pyfileconf/main.py', 'pyfileconf/runner/models/runner.py', 'pyfileconf/config/models/manager.py'],
        mechanism=[
            ('reset and removal of plugins', 'pyfileconf/plugin/manager_utils.py'),
            ('default behavior of hooks', 'pyfileconf/plugin/default_hooks.py'),
            ('hooks of products', 'pyfileconf/iterate.py'),
            ('hooks of batches', 'pyfileconf/batch.py'),
        ],
        observe=['calls of plugins', 'results of runs and products', 'PipelineManager.get'],
        technique='exhaustive enumeration of operation sequences on the real implementation, with an executable model of the registered plugins and of what the defaults do', level='model_checking',
        level_note='Exhaustive within the alphabet and depth. The order of plugins and of their cases is not specified.',
    ),
    dict(
        id='C24',
        title='Objects of items know the section path at which they are',
        statement='Whatever way the object of an item is reached (get by path or view, section get, attribute lookup, calling views of classes, objects which run), its `_section_path_str` is the full path of that item, with the name of the manager, before, while and after it runs, and also when its class or function is at several paths or in several managers. This stays so for every object handed out earlier, through updates, resets, reloads, replaced managers, products and items which run each other. Results of runs do not have a section path.',
        over=['histories'],
        quantifier='All sequences of up to 3 operations on one manager (all ways to reach two items and four sections in quick, all items in thorough), and of up to 2 (quick) or 3 (thorough) on two managers with the same paths, of reaching each of six items (functions, class, objects of two specific class dicts with one class) and four sections in each way, running them on their own, in lists, sections, products, IterativeRunners and within each other, updates, resets, reloads, creating items and replacing the manager.',
        why='Tests reach one item of each kind once. That the path is the one of the item and not of the item which was last reached depends on which other items share the class and on the order in which they are reached.',
        files=['pyfileconf/runner/models/runner.py', 'pyfileconf/selector/models/itemview.py', 'pyfileconf/main.py', 'pyfileconf/iterate.py'],
        mechanism=[
            ('the path is set on objects', 'pyfileconf/runner/models/runner.py'),
            ('the path is set when views are called', 'pyfileconf/selector/models/itemview.py'),
        ],
        observe=['_section_path_str of objects', 'self._section_path_str in methods of items'],
        technique='exhaustive enumeration of operation sequences on the real implementation, against the paths at which the items are declared', level='model_checking',
        level_note='Exhaustive within the alphabet and depth. Classes whose objects do not accept further attributes cannot be items.',
    ),
]
PROPS.sort(key=lambda p: p['id'])
