#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (edit here, run, commit both)."""
import json, pathlib

P = []


def add(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text),
        why_tests_cant=why,
        anchors=dict(
            files=list(files),
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe),
            hook_needed=hook),
    ))


AP = 'aviary/core/aviary_problem.py'
AG = 'aviary/core/aviary_group.py'

add('P01', 'Saving sizing results replaces the file all-or-nothing',
    'Whatever I/O error, full disk, unserialisable value, interrupt or process crash strikes while an '
    'AviaryProblem saves its results to a JSON file, the path afterwards holds either the complete '
    'earlier file or the complete new one. A save that returns normally has stored the complete new '
    'results, and a save that could not store them raises.',
    ['crash_points', 'fault_sequences', 'histories'],
    'every history of saves of one or several problems to one path; every I/O step of a save at which '
    'a write fails, is short, the disk fills, an interrupt arrives or the process dies; every problem '
    'content including values JSON cannot represent',
    'Tests save once to a healthy disk and reload; none injects a failing write, a crash or a value '
    'that cannot be serialised, and none saves over an earlier file.',
    [AP], [('AviaryProblem.save_results', AP)],
    state=[('sizing_results.json', 'the sized aircraft that later off-design studies start from', 'working directory')],
    observe=['bytes of the JSON file after the fault', 'exception seen by the caller'])

add('P02', 'Saved results reload to the same aircraft, and saving changes nothing',
    'A sized problem saved to JSON and reloaded, in the same or another process, has for every saved '
    'aircraft input or option the same value, type and units, and as gross mass the sized one; saving '
    'the reloaded problem again yields the same contents. Saving never alters the live problem, and '
    'reloading never silently drops or alters a saved entry that the reader\'s metadata knows.',
    ['histories', 'inputs', 'fault_sequences'],
    'every history of value edits, saves, reloads, process restarts and re-saves over all value kinds '
    '(floats, ints, bools, strings, paths, enums, arrays, lists of each), units and metadata sets',
    'Tests reload two or three shipped models once; no test edits, saves, keeps using the problem, '
    'restarts, reloads and saves again, or compares every entry with its type and unit.',
    [AP, 'aviary/utils/functions.py', 'aviary/utils/aviary_values.py'],
    [('AviaryProblem.save_results', AP), ('_read_sizing_json / reload_aviary_problem', AP),
     ('convert_strings_to_data', 'aviary/utils/functions.py')],
    observe=['aviary_inputs of live and reloaded problem', 'JSON contents'])

add('P03', 'Problems living in one process do not affect each other',
    'When several AviaryProblems are created, loaded, configured, set up, run, saved or abandoned '
    'half-way in one process, in any interleaving of their API calls, each one ends with exactly the '
    'inputs, options, metadata, model, design variables and results it gets when it is the only '
    'problem in a fresh process. This includes problems using default phase information, problems '
    'given the same input objects, and neighbours whose calls raise.',
    ['schedules', 'histories', 'fault_sequences'],
    'every interleaving of the API calls of two or more problems over different aircraft, missions, '
    'external subsystems, metadata and verbosity, with calls of some problems failing part-way',
    'Each test builds one problem, usually alone in its process; no test interleaves two, and none '
    'compares the outcome with that of a solitary run.',
    [AP, AG, 'aviary/mission/energy_state_problem_configurator.py', 'aviary/mission/two_dof_problem_configurator.py',
     'aviary/subsystems/propulsion/engine_deck.py', 'aviary/variable_info/variable_meta_data.py'],
    [('load_inputs / check_and_preprocess_inputs / add_* / setup / run', AP),
     ('AviaryGroup', AG),
     ('get_default_phase_info', 'aviary/mission/energy_state_problem_configurator.py')],
    state=[('module-level phase_info, CoreMetaData, default arguments', 'process-wide objects every problem starts from', 'aviary/models/missions, aviary/variable_info')],
    observe=['per-problem snapshot of inputs, options, phase options, metadata, driver metadata and outputs'])

add('P04', 'Objects the caller passes in are not modified and can be reused',
    'Building and running problems never modifies an object the caller handed over: phase information '
    'dictionaries, aircraft-value containers, metadata dictionaries, lists of subsystems, and the '
    'arrays, lists and comment or alias arguments given to readers and writers. Handing the same '
    'object over again, after any number of earlier uses including failed ones, therefore gives the '
    'same result as a fresh copy of it would.',
    ['histories', 'schedules', 'fault_sequences', 'inputs'],
    'every sequence of uses of the same input objects by successive or interleaved problems and '
    'utility calls, including uses cut short by an error',
    'Tests deep-copy their inputs first or use them once; modification of the caller\'s objects or its '
    'effect on a later use is never observed.',
    [AG, AP, 'aviary/utils/process_input_decks.py', 'aviary/utils/preprocessors.py', 'aviary/utils/csv_data_file.py',
     'aviary/utils/merge_variable_metadata.py', 'aviary/mission/phase_builder.py'],
    [('load_inputs', AG), ('create_vehicle', 'aviary/utils/process_input_decks.py'),
     ('preprocess_options', 'aviary/utils/preprocessors.py'), ('read_data_file / write_data_file', 'aviary/utils/csv_data_file.py')],
    observe=['deep comparison of the caller\'s objects before and after', 'result of the second use'])

add('P05', 'Off-design and payload-range runs leave the sized problem intact',
    'Running off-design missions and payload-range analyses on a sized problem, any number of times, '
    'in any order, with any optimizer outcome or failure in between, changes neither the sized '
    'problem\'s inputs, phase information, design variables and values nor the result of a later '
    'off-design run. Each off-design result depends only on the sized problem and its own arguments, '
    'and an automatically named off-design run never reuses the output directory of an earlier run.',
    ['histories', 'schedules', 'fault_sequences'],
    'every sequence of off-design, payload-range and save calls on a sized problem, with converging, '
    'non-converging and raising off-design optimisations',
    'Tests run one or two off-design missions once each and check selected numbers; they never compare '
    'the sized problem before and after or permute the order of runs.',
    [AP], [('run_off_design_mission', AP), ('run_payload_range', AP)],
    state=[('mission_info of the sized problem', 'phase options shared with off-design problems by shallow copies', AG)],
    observe=['snapshot of the sized problem', 'snapshot of each off-design problem', 'created directories'])

add('P06', 'A failing user component or read surfaces and leaves a clean retry',
    'If a user-supplied phase-info modifier, subsystem or engine builder, or the reading of an input '
    'file fails at any call while a problem is being assembled, that failure reaches the caller '
    'instead of being swallowed or yielding a model that silently lacks the piece. Repeating the '
    'assembly afterwards in the same process, once the cause has gone, gives exactly the model of a '
    'process in which nothing had failed.',
    ['fault_sequences', 'histories'],
    'every call of a user-supplied callback and every read of an input file at which a failure may '
    'occur, followed by any number of retries',
    'Tests use builders that work and files that can be read; the nth call failing, and what is left '
    'behind for the next attempt, is not exercised.',
    [AG, AP, 'aviary/subsystems/premission.py', 'aviary/mission/phase_builder.py',
     'aviary/mission/flight_phase_builder.py', 'aviary/subsystems/propulsion/engine_deck.py'],
    [('AviaryGroup.load_inputs / check_and_preprocess_inputs / add_*', AG), ('CorePreMission.configure', 'aviary/subsystems/premission.py')],
    observe=['exception seen by the caller', 'snapshot of the problem assembled by the retry'])

add('P07', 'The outcome of a run is reported as it was',
    'However the optimizer ends (converged, iteration limit, infeasible, exception, interrupt) and at '
    'whatever verbosity, the problem\'s result, the run-status report, the failure warning and the '
    'decision to produce payload-range data agree with that outcome. A run that did not converge is '
    'never presented as a success anywhere, payload-range data is produced only when the sizing run '
    'and every run behind it converged, and an exception during the run reaches the caller.',
    ['fault_sequences', 'configurations', 'histories'],
    'every optimizer outcome of each run in a sizing, off-design and payload-range sequence, at every '
    'verbosity and run option',
    'Tests run optimizers that converge (or skip on missing optimizers); non-converging, raising and '
    'mixed outcomes are not produced.',
    [AP, 'aviary/interface/reports.py', 'aviary/interface/run_aviary.py'],
    [('run_aviary_problem', AP), ('run_payload_range', AP), ('status_report', 'aviary/interface/reports.py')],
    observe=['prob.result', 'reports/status.json', 'warnings', 'payload_range_data.csv'])

add('P08', 'Results do not depend on hash seed, listing order, clock, cwd or user',
    'The model built, its variable, constraint and design-variable order, its results, and the files '
    'written are the same for the same inputs whatever the interpreter\'s hash seed, the order in '
    'which the file system lists directories, the wall-clock time, time zone and its jumps, the '
    'working directory, and the user name. Only values that are by nature time stamps, user names or '
    'paths may differ.',
    ['schedules', 'configurations', 'inputs'],
    'every assignment of hash seed, directory listing order, clock behaviour, working directory and '
    'user identity to the processes that run the same inputs',
    'The test run fixes PYTHONHASHSEED, one machine, one directory and one user; two executions under '
    'different environments are never compared.',
    [AP, AG, 'aviary/utils/merge_variable_metadata.py', 'aviary/utils/merge_hierarchies.py', 'aviary/utils/fortran_to_aviary.py',
     'aviary/utils/functions.py', 'aviary/interface/reports.py'],
    [('merge_meta_data', 'aviary/utils/merge_variable_metadata.py'), ('get_path', 'aviary/utils/functions.py')],
    observe=['snapshot digests and written files across simulated hosts'])

add('P09', 'File and model lookup is deterministic, safe and never picks silently wrong',
    'Looking up a file or packaged model by name resolves by the documented precedence (an absolute or '
    'working-directory file first, then the Aviary package, then its packaged models) to the same '
    'file whatever the directory listing order. If nothing matches it raises an error naming the '
    'file; the lookup never creates, changes or caches anything, so it follows files that appear, '
    'move or vanish between calls.',
    ['histories', 'schedules', 'fault_sequences', 'inputs'],
    'every sequence of file creations, removals, directory changes and lookups, every listing order '
    'and every failure of a directory listing',
    'Tests look up a few existing names in a fixed tree with the listing order of one file system.',
    ['aviary/utils/functions.py'], [('get_path / get_model / get_aviary_resource_path', 'aviary/utils/functions.py')],
    observe=['returned path', 'exception', 'file system before and after'])

add('P10', 'File converters never damage existing files and report every failure',
    'The engine-deck, aero-table, Fortran-input and propeller-map converters and the command line in '
    'front of them never modify or delete any file other than the output they were asked to write; by '
    'default that is never the input, and the Fortran converter replaces an existing file only when '
    'told to. When a conversion cannot be completed because input is malformed, an I/O step fails or '
    'the process is killed, the output path holds what it held before or the complete output, and '
    'the failure is visible as an exception or a non-zero exit status; repeating it then succeeds.',
    ['fault_sequences', 'crash_points', 'histories', 'inputs'],
    'every sequence of conversions with and without overwriting, every malformed row and every I/O '
    'step that fails or at which the process dies',
    'Tests convert good files into fresh directories on a healthy disk.',
    ['aviary/utils/engine_deck_conversion.py', 'aviary/utils/aero_table_conversion.py', 'aviary/utils/fortran_to_aviary.py',
     'aviary/utils/propeller_map_conversion.py', 'aviary/utils/csv_data_file.py', 'aviary/interface/cmd_entry_points.py'],
    [('convert_engine_deck', 'aviary/utils/engine_deck_conversion.py'), ('convert_aero_table', 'aviary/utils/aero_table_conversion.py'),
     ('fortran_to_aviary', 'aviary/utils/fortran_to_aviary.py')],
    observe=['output directory contents', 'exception / exit status'])

add('P11', 'A conversion depends only on its own input, not on earlier ones',
    'Converting a legacy file gives the same output whatever was converted before it in the same '
    'process, in any order, including conversions that failed part-way. The same holds for every '
    'reader and parser: reading a file again after other files have been read gives the same data.',
    ['histories', 'schedules', 'fault_sequences'],
    'every sequence of conversions and reads of different legacy input files in one process, with '
    'some of them failing at any line or I/O step',
    'Each test converts one file and compares it with a stored result, in whatever order the runner '
    'picks; state left by an earlier conversion is not looked for.',
    ['aviary/utils/fortran_to_aviary.py', 'aviary/utils/engine_deck_conversion.py', 'aviary/utils/aero_table_conversion.py',
     'aviary/utils/propeller_map_conversion.py', 'aviary/utils/process_input_decks.py', 'aviary/utils/legacy_code_data'],
    [('fortran_to_aviary', 'aviary/utils/fortran_to_aviary.py'), ('convert_engine_deck', 'aviary/utils/engine_deck_conversion.py')],
    state=[('module-level default guesses and unit tables', 'process-wide state that a conversion could leave changed', 'aviary/utils')],
    observe=['output files of each conversion against a solitary conversion'])

add('P12', 'Data tables survive writing and reading, and I/O faults surface',
    'A data table (named columns with units and comments) written to a file and read back by any later '
    'process has the same columns, order, values, units and comments, and so does every rewrite. If '
    'opening, writing, flushing, closing or reading fails the caller gets an exception: a failed '
    'write is never reported as done and a failed read never returns partial data.',
    ['fault_sequences', 'crash_points', 'histories', 'inputs'],
    'every sequence of writes, rewrites, reads and restarts over tables of any shape, and every I/O '
    'step at which an error is injected',
    'Tests write and read two or three fixed tables on a healthy disk.',
    ['aviary/utils/csv_data_file.py', 'aviary/utils/named_values.py'],
    [('write_data_file / read_data_file', 'aviary/utils/csv_data_file.py')],
    observe=['data and comments read back', 'exceptions', 'file bytes'])

add('P13', 'Aircraft decks survive writing and reading, and I/O faults surface',
    'Aircraft values written to a deck file and loaded again give the same value, type and units for '
    'every entry the metadata knows, in any process, working directory and user environment, and '
    'again after any further write and load. If an I/O step fails the caller gets an exception rather '
    'than a truncated deck reported as saved or a partly read aircraft.',
    ['fault_sequences', 'histories', 'inputs'],
    'every sequence of edits, writes, loads and restarts over all value kinds, and every I/O step at '
    'which an error is injected',
    'The writer is tested on a single small example and the reader on shipped decks.',
    ['aviary/utils/aviary_inputs_to_csv.py', 'aviary/utils/process_input_decks.py', 'aviary/utils/functions.py'],
    [('save_to_csv_file', 'aviary/utils/aviary_inputs_to_csv.py'), ('create_vehicle / parse_inputs', 'aviary/utils/process_input_decks.py')],
    observe=['values reloaded', 'exceptions', 'file bytes'])

add('P14', 'Value containers follow a simple typed map under any client history',
    'Aircraft-value and named-value containers used by any number of clients through any interleaving '
    'of sets, gets, item reads, updates, deletes, copies and iterations behave as an insertion-ordered '
    'map from name to value and units: reads return the last accepted value converted to the units '
    'asked for, copies are independent, equality means equal contents. A single-entry operation that is '
    'rejected (unknown name, wrong type, incompatible units) raises and leaves the container unchanged.',
    ['histories', 'schedules', 'fault_sequences', 'inputs'],
    'every interleaved history of client operations, including rejected ones, over shared and copied '
    'containers',
    'Tests make short fixed sequences on one container; rejected operations are not followed by a '
    'check of the whole container.',
    ['aviary/utils/aviary_values.py', 'aviary/utils/named_values.py'],
    [('AviaryValues.set_val / get_val / _check_type', 'aviary/utils/aviary_values.py'), ('NamedValues', 'aviary/utils/named_values.py')],
    observe=['container contents after each step against a reference map'])

add('P15', 'Metadata and hierarchy registries stay isolated and order-stable',
    'Adding, updating and merging variable metadata and variable hierarchies by any number of clients '
    'in any order never changes the core registries, another client\'s registry or the arguments given '
    '(other than the target of an add or update), rejects duplicates, conflicts and invalid entries '
    'without partial effect, and a merge keeps every entry of every argument exactly once in an order '
    'that depends only on the arguments.',
    ['histories', 'schedules', 'fault_sequences', 'configurations'],
    'every interleaved history of adds, updates, merges and rejected operations of several clients, '
    'under every hash seed',
    'Tests merge a few fixed dictionaries once under a fixed hash seed.',
    ['aviary/utils/develop_metadata.py', 'aviary/utils/merge_variable_metadata.py', 'aviary/utils/merge_hierarchies.py',
     'aviary/variable_info/variable_meta_data.py'],
    [('add_meta_data / update_meta_data', 'aviary/utils/develop_metadata.py'), ('merge_meta_data', 'aviary/utils/merge_variable_metadata.py'),
     ('merge_hierarchies', 'aviary/utils/merge_hierarchies.py')],
    observe=['registries after each step against a reference map'])

add('P16', 'Result bundles are saved and opened all-or-nothing',
    'Saving a run\'s outputs as a dashboard bundle and opening it elsewhere reproduces every file of '
    'the run byte for byte under any listing order. If saving or opening fails or the process is '
    'killed at any step, the failure is visible, the run\'s own output directory is untouched, an '
    'existing directory or bundle is not replaced unless that was asked for, and no outside path is '
    'written.',
    ['crash_points', 'fault_sequences', 'histories'],
    'every sequence of bundle saves and opens with and without forcing, every I/O step that fails or '
    'at which the process dies, every directory content and listing order',
    'Tests save and open one bundle on a healthy disk.',
    ['aviary/visualization/dashboard_cmd.py', 'aviary/visualization/dashboard.py'], [('_dashboard_cmd / zip save and open', 'aviary/visualization/dashboard_cmd.py')],
    observe=['directory trees before and after', 'exception / exit status'])

add('P17', 'Reports describe the run that produced them, and I/O faults surface',
    'Each report written for a problem (mission, subsystem, time-series, status, overridden-variable, '
    'input-check and option reports) contains that problem\'s data from its latest run, goes only to '
    'that problem\'s reports directory, and is complete, however runs of several problems interleave '
    'and however often a problem is rerun. A report that cannot be written raises instead of leaving '
    'an incomplete file as if it were done.',
    ['schedules', 'histories', 'fault_sequences'],
    'every interleaving of runs and reruns of several problems and every I/O step of report writing '
    'that fails',
    'Tests check that report files exist for one problem after one run.',
    ['aviary/interface/reports.py', AP], [('report functions and hooks', 'aviary/interface/reports.py')],
    observe=['report files against values of the problem at that time'])

add('P18', 'The mission editor writes the mission the user drew',
    'After any sequence of editor events (adding, moving, deleting points, editing the table and options, '
    'toggling views, opening files, applying, resetting and cancelling dialogs), plots, table and labels '
    'agree, a saved mission file loads as valid phase information that describes the mission on screen '
    'to the digits shown, and opening a mission file shows its mission. A cancelled or refused dialog, '
    'a failed or cancelled save and a file that cannot be opened leave the earlier file, the mission on '
    'screen and the remembered settings as they were; a crash leaves every file old or new.',
    ['histories', 'fault_sequences', 'crash_points'],
    'every sequence of user events and every I/O failure or kill during starting, saving, opening and closing',
    'The editor has no event-sequence tests; only its phase-info generator is called once.',
    ['aviary/interface/graphical_input.py'], [('create_phase_info / event handlers', 'aviary/interface/graphical_input.py')],
    observe=['saved file re-imported', 'table cells, plot lines, slopes, labels and dialogs', 'settings file'])

add('P19', 'Builders answer the same however often and in whatever order they are asked',
    'A subsystem, engine, phase or interpolator builder gives the same systems and the same answers to '
    'its queries (states, controls, parameters, constraints, inputs, outputs) however often, in '
    'whatever order and for however many problems it is asked, as a freshly made builder would. '
    'Asking never changes the builder\'s data, the options passed to it or any module-wide default. '
    'A propulsion builder combines the answers of all its engines, and a phase builder stored as '
    'phase_info and made again from it builds the same phase.',
    ['histories', 'schedules'],
    'every sequence of builder queries and builds, interleaved between builders of the same kind and '
    'between problems sharing a builder',
    'The builder test base asks each method once on a fresh builder.',
    ['aviary/subsystems/subsystem_builder.py', 'aviary/subsystems/propulsion/engine_deck.py', 'aviary/subsystems/propulsion/propulsion_builder.py',
     'aviary/subsystems/aerodynamics/aerodynamics_builder.py', 'aviary/mission/phase_builder.py',
     'aviary/utils/data_interpolator_builder.py'],
    [('SubsystemBuilder API', 'aviary/subsystems/subsystem_builder.py'), ('EngineDeck.build_*', 'aviary/subsystems/propulsion/engine_deck.py')],
    observe=['answers against those of a fresh builder in a fresh process', 'module-level tables'])

add('P20', 'The inputs loaded last count, whatever was tried in the problem before',
    'When aircraft and missions are loaded, edited and checked in one AviaryProblem any number of times, '
    'with some attempts failing (a missing or unreadable file, a failing modifier, a wrong argument, an '
    'interrupt), the problem that results from the last load equals the one a fresh problem would give: no '
    'engine, option, guess, phase or requirement of an earlier attempt remains. A mission group that could '
    'not be loaded into a multi-mission problem can be added again, and calls a problem cannot carry out '
    'are refused.',
    ['histories', 'fault_sequences'],
    'every sequence of loads, edits, checks and wrong calls, and every failing read, user call or line in them',
    'Tests load each problem once.',
    ['aviary/core/aviary_problem.py', 'aviary/core/aviary_group.py', 'aviary/mission/energy_state_problem_configurator.py',
     'aviary/mission/two_dof_problem_configurator.py'],
    [('AviaryGroup.load_inputs / check_and_preprocess_inputs', 'aviary/core/aviary_group.py'), ('AviaryProblem.load_inputs / add_aviary_group', 'aviary/core/aviary_problem.py')],
    observe=['the built model, its inputs, phases and variables against a fresh problem in a fresh process'])

add('P21', 'The dashboard shows what the run left, whatever is missing or damaged',
    'Opening the dashboard on the output directory of a run shows, each in exactly one tab, the text of every text '
    'and markdown report, a link to every html report, the rows of the status and time series files, the payload/range '
    'points, the variables of the final case with their values and units, the recorded optimization history and plots of '
    'the recorded mission variables. A file that is missing, cut, empty, unreadable or not of the expected form gives a '
    'message in its own tab and leaves all other tabs as they are; nothing of an earlier run is shown for it. The title '
    'gives the exit status of the run. Opening the dashboard changes no file of the run.',
    ['histories', 'fault_sequences', 'crash_points'],
    'every run, every damage to the files it left, every sequence of reruns and openings, and every I/O fault while opening',
    'The dashboard module has no unit tests; one that opened it would see one complete run.',
    ['aviary/visualization/dashboard.py'],
    [('dashboard', 'aviary/visualization/dashboard.py'), ('_handle_pane_creation_errors', 'aviary/visualization/dashboard.py')],
    observe=['tabs, tables and plot data of the page handed to the web server', 'aviary_vars.json', 'files of the output directory'])

# ---- properties this technique family cannot address (pure functions of their inputs) -------------
add('N01', 'Component derivatives match their functions',
    'Every component\'s declared analytic partial derivatives equal the derivatives of the outputs it '
    'computes at every valid input point, and its declared sparsity covers every non-zero.',
    ['inputs', 'configurations'], 'every component, option set and valid input point',
    'Tests compare partials at one or two points per component.',
    ['aviary/subsystems', 'aviary/mission'], [('compute_partials', 'aviary/subsystems')], observe=['check_partials'])
add('N02', 'Mass, geometry, aerodynamics and propulsion relations hold',
    'Sizing relations give the FLOPS or GASP result for every valid aircraft: component masses are '
    'non-negative, totals are the sums of their parts, and results vary with their inputs as the '
    'source method prescribes.',
    ['inputs', 'configurations'], 'every valid aircraft and option set',
    'Tests compare stored aircraft with legacy results.',
    ['aviary/subsystems/mass', 'aviary/subsystems/geometry', 'aviary/subsystems/aerodynamics', 'aviary/subsystems/propulsion'],
    [('components', 'aviary/subsystems')], observe=['model outputs'])
add('N03', 'Mission equations of motion conserve energy and mass',
    'Along every converged trajectory, mass decreases exactly by the integrated fuel flow, distance is '
    'the integral of ground speed and specific energy changes by integrated specific excess power.',
    ['inputs', 'configurations'], 'every mission and aircraft',
    'Tests compare end values of a few missions.',
    ['aviary/mission'], [('ODE groups', 'aviary/mission')], observe=['timeseries'])
add('N04', 'Unit conversions and metadata units are consistent',
    'Every variable\'s declared units are valid and compatible wherever the variable is used, and '
    'values given in any compatible units lead to the same results.',
    ['inputs'], 'every variable and compatible units', 'Tests use one unit per variable.',
    ['aviary/variable_info/variable_meta_data.py'], [('CoreMetaData', 'aviary/variable_info/variable_meta_data.py')], observe=['model outputs'])
add('N05', 'Legacy decks translate to equivalent Aviary inputs',
    'Each legacy variable in a FLOPS or GASP deck becomes the Aviary variable, value and units with '
    'the same meaning, for every legal value including special codes and defaults.',
    ['inputs'], 'every legal legacy deck', 'Tests convert a few shipped decks.',
    ['aviary/utils/fortran_to_aviary.py', 'aviary/utils/legacy_code_data'], [('update_*_options', 'aviary/utils/fortran_to_aviary.py')], observe=['converted deck'])
add('N06', 'Interpolated tables agree with their data',
    'Engine decks, aero tables and propeller maps reproduce their data at every data point and stay '
    'within the data\'s local range between points, whatever the order of rows in the source.',
    ['inputs'], 'every valid table and query point', 'Tests query a few points of shipped tables.',
    ['aviary/subsystems/propulsion/engine_deck.py', 'aviary/utils/data_interpolator_builder.py'], [('interpolator', 'aviary/utils/data_interpolator_builder.py')], observe=['interpolated values'])
add('N07', 'Converged optimisations satisfy their constraints and optimality',
    'When the optimizer reports convergence, every constraint and design-variable bound holds within '
    'tolerance and no better feasible neighbouring design exists.',
    ['inputs', 'configurations'], 'every problem and optimizer', 'Benchmarks check stored optima.',
    [AP], [('add_driver / add_objective', AP)], observe=['driver result'])

out = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
for p in P:
    assert len(p['title']) <= 80, p['title']
out.write_text(''.join(json.dumps(p) + '\n' for p in P))
print(len(P), 'properties')
