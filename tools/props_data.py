SAVE = [('number and directory choice', 'inputoutput.py: next_output_stem'),
        ('numbered save', 'inputoutput.py: InputFileLoaderCheckerSaver._save_data, _save_figures')]
DST = 'deterministic simulation: seeded schedules and injected faults, '

prop('C01', 'Saving an analysis never overwrites or destroys an earlier result',
     'Whatever is in the output directory, whatever the prefix, and however saves of several '
     'analyses and processes interleave, fail or crash, files of earlier results stay as they '
     'were unless overwriting was asked for.  A new output gets the next free number, and with '
     'overwriting the highest existing one.',
     ['schedules', 'crash_points', 'histories', 'fault_sequences'],
     'All directory contents, prefixes, sequences of analyses and saves, interleavings of '
     'processes at file-system calls, and I/O failures and crashes at any call.',
     'The tests call the number chooser on one static directory; none runs two processes, fails '
     'an operation or reuses a directory after a crash.',
     [IO], SAVE,
     (DST + 'oracle: ownership of every file on the simulated disk after every operation',
      'real input/output code and two real analyses over a proxy of the operating system; the '
      'sampled interleavings switch at file-system calls only'),
     state=[('_file_stem', 'output stem chosen for an analysis object', IO)],
     observe=['the output directory'])

prop('C02', 'A save that succeeds is complete and right; one that fails loses nothing',
     'When saving returns normally every requested file (each data table, the parsed input, the '
     'original input, each figure) exists and holds exactly the analysis\' data.  When it cannot, '
     'it raises, the results in memory and the data handed to it are unchanged, and saving again '
     'writes everything.',
     ['fault_sequences', 'crash_points', 'histories', 'schedules'],
     'All requested outputs, all failures of I/O operations, repeated saves and saves of several '
     'objects in several processes and threads.',
     'The tests save once on a working disk to a fixed stem and look at the text of small tables.',
     [IO], [('grid data writer', 'inputoutput.py: save_grid_data_to_file'),
            ('numbered save', 'inputoutput.py: InputFileLoaderCheckerSaver._save_data'),
            ('parsed input text', 'inputoutput.py: object_members, PrefixNumpyArrayString')],
     (DST + 'oracle: parsing every file back and comparing it with the results in memory',
      'real code, pandas and the Python file stack over a fault-injecting proxy'),
     observe=['files written', 'results in memory after a failed save'])

prop('C03', 'Batch processing handles every file once, alone, and reports each failure',
     'Passing input files to the script runner processes each requested file exactly once, in '
     'order, in its own directory; a file that fails (unreadable, bad input, failing analysis) '
     'is reported and never stops, skips or disturbs the others.  Afterwards, also when it is '
     'interrupted, the working directory and the logging level are as before.',
     ['inputs', 'histories', 'fault_sequences', 'crash_points'],
     'All sets of files and ways to name them, all failures of files, analyses and I/O, '
     'interruption at any file-system call, nested batches.',
     'The tests process a few well-formed files with a working disk; no failing analysis, '
     'missing directory, interrupt or nested batch is tried.',
     [IO], [('runner', 'inputoutput.py: GenericInputFileArgParser.main, process, _process_files'),
            ('directory change', 'inputoutput.py: working_directory')],
     (DST + 'oracle: the record of which files were processed, where, what was logged, and '
      'process-wide state afterwards',
      'real runner, loader, saver and two analyses; argparse and logging are real'),
     observe=['callbacks', 'log records', 'working directory', 'output files'])

prop('C04', 'Process-wide settings are the caller\'s: no call leaves them changed',
     'Calling an analysis, plotting helper, quadrature, transform, loader or saver leaves the '
     'working directory, numpy print and error settings, random generators, warning filters, '
     'logging level, recursion limit, locale and multiprecision settings as they were, also when '
     'a function, value or file object passed to it, or the file system, fails part way.',
     ['inputs', 'fault_sequences', 'schedules'],
     'All calls of the public API in the corpus, all settings the caller may have made, failures '
     'of functions, values, files and system calls at any of their uses, and interleaved calls.',
     'The tests look at return values; none compares global state before and after, least of all '
     'after a failure.',
     [IO, 'geotecha/plotting/one_d.py', 'geotecha/mathematics/mp_laplace.py',
      'geotecha/mathematics/laplace.py', 'geotecha/speccon/integrals_generate_code.py'],
     [('array formatting', 'inputoutput.py: PrefixNumpyArrayString'),
      ('random marker positions', 'plotting/one_d.py: apply_markevery_to_sequence_of_lines'),
      ('multiprecision', 'mathematics/mp_laplace.py: Talbot')],
     (DST + 'oracle: a snapshot of process-wide state, set to unusual values before and compared '
      'after every call',
      'real code of all modules in the corpus, the plotting helpers, the staged programs and the '
      'file runner; failures come from user functions, values, files and system calls'),
     observe=['process-wide settings before and after each call'])

prop('C05', 'A time limit returns the function\'s own outcome or stops it in time',
     'A function wrapped with a time limit yields its own result or exception, whatever its size '
     'or type, when it finishes within the limit, and a timeout error when it does not, never '
     'earlier and not much later.  It never hangs, mixes up concurrent calls, or leaves a '
     'timed-out function running when it was told to kill it.',
     ['schedules', 'inputs', 'fault_sequences'],
     'All run times around the limit, result sizes, failures and deaths of the function, '
     'concurrent callers and clock jumps.',
     'The only test runs two fast examples on the real clock; large results, dying children and '
     'races at the limit need control of scheduling and time.',
     ['geotecha/inputoutput/timeout.py'],
     [('process wrapper', 'timeout.py: RunableProcessing'), ('decorator', 'timeout.py: timeout')],
     (DST + 'oracle: the outcome and finishing time of the wrapped function on a virtual clock',
      'the wrapper and pickling are real; multiprocessing is a simulated substitute with '
      'processes, bounded pipes, feeder threads and sentinels'),
     observe=['result, exception and duration of each call', 'processes left behind'])

prop('C06', 'A beam never takes an unfinished or unrelated file for its deflections',
     'A beam analysis that reuses saved deflections ends with the deflections a complete saved '
     'file of the same name holds for exactly its own times and positions, or with freshly '
     'computed ones; cut, damaged or other files never become results and never make it fail.  '
     'Recalculation when forced ignores the file, and what is saved can be loaded.',
     ['histories', 'crash_points', 'fault_sequences'],
     'All contents of the saved file, all crashes and failures while it is written or read, and '
     'all sequences of saves and loads of several beams.',
     'No test saves or loads deflections.',
     ['geotecha/beam_on_foundation/specbeam.py', IO],
     [('load', 'specbeam.py: SpecBeam.load_defl'), ('run', 'specbeam.py: SpecBeam.runme'),
      ('save', 'specbeam.py: SpecBeam.saveme')],
     (DST + 'oracle: deflections computed without files, and the set of completely saved tables',
      'real beam analysis and saver over a fault-injecting proxy of the operating system'),
     observe=['deflections after running', 'files'])

prop('C07', 'Unsaturated soil paths and profiles: repeatable, engine and thread independent',
     'An elasto-plastic unsaturated soil (EPUS) stress path or profile analysis gives the same '
     'results whether run with the compiled or the pure Python engine, alone or while others '
     'run in other threads, first or after any history of other analyses, also after failed or '
     'interrupted ones, and after edits of its inputs, which it never changes itself.',
     ['schedules', 'histories', 'fault_sequences', 'configurations'],
     'All interleavings of several analyses at lines, all orders of runs, edits and follow-up '
     'calculations of several objects, and failures between and inside runs.',
     'The tests run one object at a time in one thread, once, with one engine.',
     ['geotecha/constitutive_models/epus.py', 'geotecha/constitutive_models/epus_ext.f95'],
     [('engine choice', 'epus.py: EPUS.Calresults, _Calresults_fortran, _Calresults_scalar'),
      ('profile', 'epus.py: EpusProfile.calc, compression_indexes, water_permeability'),
      ('compiled engine state', 'epus_ext.f95: module variables, RfSr_value')],
     (DST + 'oracle: a new object with the same inputs in a fresh process with the pure Python '
      'engine, inputs compared with what was set',
      'EPUS and EpusProfile with both engines are real; threads switch and interruptions happen '
      'at lines; results agree to 6 digits'),
     observe=['results of every step or depth', 'inputs', 'saved profile'])

prop('C08', 'Re-running, editing or interrupting an analysis is as good as a new one',
     'Running an analysis object again, after its inputs were edited, or after a run that '
     'failed or was interrupted at any point, gives the results of a new object with the same '
     'inputs; other objects and the inputs themselves are never affected.',
     ['histories', 'fault_sequences', 'crash_points', 'configurations'],
     'All sequences of set, run, fail, re-run over several analysis objects of all the staged '
     'programs.',
     'Tests build each analysis from text and run it once.',
     ['geotecha/speccon/speccon1d_vr.py', 'geotecha/speccon/speccon1d_vrw.py',
      'geotecha/speccon/speccon1d_vrc.py', 'geotecha/speccon/speccon1d_unsat.py',
      'geotecha/speccon/speccon1d.py', 'geotecha/consolidation/schiffmanandstein1970.py',
      'geotecha/consolidation/nogamiandli2003.py', IO],
     [('staged assembly', 'speccon1d.py: Speccon1d.make_all, make_time_independent_arrays'),
      ('input state', 'inputoutput.py: InputFileLoaderCheckerSaver')],
     (DST + 'oracle: a new object with the same inputs, run once in a fresh process',
      'the six staged programs and three material and beam models are real; edits are those '
      'the generator knows, interruptions happen between lines'),
     observe=['results, saved tables and figures of each run', 'inputs', 'other objects'])

prop('C09', 'Compiled extensions are an optimisation: losing them changes no result',
     'When a compiled extension cannot be loaded, at some attempts or ever, everything still '
     'imports, and the calculations that would use it give the same results with the slower '
     'routines; loading it later changes nothing either.  All implementations on offer '
     '(compiled, vectorized, plain loops) agree.',
     ['fault_sequences', 'configurations', 'inputs'],
     'All moments of failing loads of each compiled extension, all calculations that use one, '
     'all loads, layers and times including steps and repeated points.',
     'The tests run in one configuration per build; a load that fails for some calls only is '
     'not tried.',
     ['geotecha/speccon/integrals.py', 'geotecha/speccon/speccon1d.py',
      'geotecha/speccon/ext_integrals.f95', 'geotecha/constitutive_models/epus.py',
      'geotecha/piecewise/piecewise_linear_1d.py'],
     [('dispatch', 'speccon/integrals.py: dim1sin_af_linear, Eload_linear and others, '
       'implementation='), ('engine import', 'constitutive_models/epus.py: epus_ext')],
     (DST + 'oracle: the same calculation in a fresh process that never loads an extension',
      'integrals, the four spectral programs, EPUS and EpusProfile are real; the import system '
      'fails at the attempts the seed chooses; results agree to 6 digits'),
     observe=['results and errors of each calculation', 'imports'])

prop('C10', 'Calculations do not depend on other threads, history or shared arrays',
     'A public calculation gives the same result in every thread schedule, after any history of '
     'other calls and whatever callers do with arrays they got or passed before.  It never '
     'changes the arrays, lists or functions it is given.',
     ['schedules', 'histories', 'inputs'],
     'All interleavings of several threads of calculations at lines, all histories, and edits '
     'of returned and passed objects between calls.',
     'Tests make single calls from one thread on fresh arguments.',
     ['geotecha/piecewise/piecewise_linear_1d.py', 'geotecha/speccon/integrals.py',
      'geotecha/mathematics', 'geotecha/consolidation', 'geotecha/beam_on_foundation',
      'geotecha/constitutive_models'],
     [('module and object state', 'all modules of the package')],
     (DST + 'oracle: the same call made first in a fresh process; arguments and results '
      'compared with their copies',
      'every public calculation of the corpus is real; threads switch at lines or bytecodes of '
      'the repository, not inside numpy or compiled code'),
     observe=['results', 'arguments', 'results the caller still holds'])

prop('C11', 'A failing or re-entrant user function is the only thing that fails',
     'When a function given to a solver, integrator, transform, material model or plotter '
     'raises, that very error reaches the caller, nothing stays half done, and the next call '
     'gives the right result; a function that itself calls the same routine gets right results '
     'at every level.',
     ['fault_sequences', 'histories', 'inputs'],
     'All routines that take functions, with the function failing at any of its calls or '
     'calling back into the routine at any depth.',
     'Tests pass functions that always succeed.',
     ['geotecha/mathematics/root_finding.py', 'geotecha/mathematics/quadrature.py',
      'geotecha/mathematics/laplace.py', 'geotecha/mathematics/hankel.py',
      'geotecha/mathematics/fourier.py', 'geotecha/consolidation/smear_zones.py'],
     [('callers of user functions', 'geotecha/mathematics')],
     (DST + 'oracle: identity of the error that reaches the caller, and the undisturbed result of '
      'every other call, nested or later',
      'routines, numpy, scipy and mpmath are real; the user functions are the simulator\'s'),
     observe=['result or error of each call'])

prop('C20', 'Piecewise-linear arithmetic, interpolation and integrals are exact',
     'Sums, products, interpolations and averages of piecewise-linear data equal the ones of the '
     'functions they stand for, for all layouts of points and steps.',
     ['inputs'], 'All piecewise-linear inputs.',
     'Tests sample a few layouts.',
     ['geotecha/piecewise/piecewise_linear_1d.py'],
     [('algebra', 'piecewise_linear_1d.py: PolyLine, interp_xa_ya_multipy_x1b_x2b_y1b_y2b')],
     na='pure function of its arguments: no schedule, time, I/O, randomness or fault to inject '
        '(the thread, history and aliasing part is C10)')
prop('C21', 'Numerical consolidation results agree with the exact solutions',
     'Spectral, semi-analytical and transform-based analyses converge to the solution of the '
     'governing equations for all admissible soil profiles, loads and boundary conditions.',
     ['inputs'], 'All admissible profiles and loads.',
     'Tests compare with published cases.',
     ['geotecha/speccon', 'geotecha/consolidation'],
     [('spectral solution', 'speccon/speccon1d.py')],
     na='pure numerical accuracy; nothing nondeterministic to simulate (repeatability is C07, '
        'C08, C10)')
prop('C22', 'Quadrature, root finding and inverse transforms reach their stated accuracy',
     'For the function classes they are meant for, the quadrature, root finding and transform '
     'routines return values within their stated tolerance.',
     ['inputs'], 'All functions of the stated classes.',
     'Tests sample known functions.',
     ['geotecha/mathematics'], [('routines', 'geotecha/mathematics')],
     na='pure numerical accuracy; nothing nondeterministic to simulate (failing functions are '
        'C11)')
prop('C23', 'Restricted input syntax: nothing outside the allowed syntax is ever evaluated',
     'Loading an input file evaluates only the allowed syntax and functions; anything else is '
     'rejected before any part of it has run.',
     ['inputs', 'programs'], 'All input texts.',
     'Tests reject a handful of snippets.',
     [IO], [('syntax check', 'inputoutput.py: SyntaxChecker')],
     na='a property of the text alone: a static whitelist over a syntax tree, with no schedule, '
        'time, I/O or fault dependence (files that cannot be read or parsed are faults in C03)')

NOTES = ('One simulator (sim/) for all checks; every check runs the code of /repo (or SIM_REPO) '
         'in-process from its working tree, builds the compiled extensions itself when it needs '
         'them into /verif/.build, and replays a failure with ./run.sh <id> --replay <file>.')
