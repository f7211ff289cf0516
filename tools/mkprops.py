"""Writes /verif/properties.jsonl (run by hand after editing)."""
import json, os
M = 'glompo/core/manager.py'
L = 'glompo/core/optimizerlogger.py'
B = 'glompo/optimizers/baseoptimizer.py'
Q = 'glompo/core/_backends.py'
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m} for n, m in state]
    if observe:
        a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})


p('C01', 'Running optimizers never occupy more worker slots than allowed',
  'The worker slots occupied by the optimizers which are alive never exceed the configured maximum number of jobs. '
  'Selectors only return an optimizer which fits in the slots offered to them (never fewer offered or more used than are free), '
  'every started optimizer is accounted with exactly the number of workers it was configured with, also when it is '
  'restarted from a checkpoint, and a resume with a lower maximum shrinks the optimizers to fit or fails.',
  ['configurations', 'histories', 'schedules'],
  'every maximum, every mix of optimizer worker counts, every order of optimizers starting and dying, every checkpoint',
  'Tests start a few one-worker optimizers; the slot arithmetic must hold for every combination of worker counts and liveness.',
  [M, 'glompo/opt_selectors/cycle.py', 'glompo/opt_selectors/chain.py', 'glompo/opt_selectors/random.py'],
  [('slot filling loop', M + ':_fill_optimizer_slots'), ('optimizer construction', M + ':_setup_new_optimizer'),
   ('restart', M + ':load_checkpoint'), ('selection', 'glompo/opt_selectors/*.py:select_optimizer')],
  [('_optimizer_packs', 'living optimizers with their slots'), ('max_jobs', 'slot limit')])

p('C02', 'Every function evaluation is delivered, logged and counted exactly once',
  'Every evaluation an optimizer makes of the task is put on the results channel exactly once with the evaluated vector and value, '
  'the optimizer receives the same value, and the manager records and counts each received evaluation exactly once, whatever chunk it arrives in. '
  'Evaluations of optimizers which have been killed are neither recorded nor counted.',
  ['schedules', 'inputs', 'histories'],
  'every interleaving of optimizers, every chunking of results, every function value (including nan and inf)',
  'Tests evaluate fixed functions with fixed chunks; accounting must hold on every path through the result loop.',
  [M, B], [('task wrapper', B + ':_MessagingWrapper._calculate'), ('result loop', M + ':_process_results')],
  [('f_counter', 'evaluations used')])

p('C03', 'The result is the best evaluation received, updated as one record',
  'The result reported is always the lowest function value received so far from any optimizer, together with the vector, evaluation number and '
  'optimizer which produced it; a worse, equal or nan value never replaces it. The result is refreshed after every recorded evaluation, and the '
  'final result returned keeps its vector, value and origin.',
  ['histories', 'inputs', 'schedules'],
  'every sequence of function values over every set of optimizers',
  'Tests use monotone or short sequences; the comparison must be right for every order of values, including nan.',
  [L, M], [('running minimum', L + ':BaseLogger.put_iteration'), ('lookup', L + ':BaseLogger.get_best_iter'),
           ('refresh', M + ':_update_best_result'), ('final result', M + ':start_manager')],
  [('_best_iter', 'overall best'), ('_best_iters', 'best per optimizer')])

p('C04', 'A hunt only kills running non-best optimizers that meet the conditions',
  'An optimizer is only killed by a hunt when it is still running, has evaluations, is not the optimizer which holds the best result, and the configured killing '
  'conditions evaluated with this hunter and this victim are true. Hunts only start when killing conditions were configured, a best optimizer exists, and '
  'at least the configured number of evaluations passed since the last hunt; every eligible optimizer is then considered.',
  ['histories', 'schedules', 'configurations'],
  'every population of optimizers in any life-cycle state, every hunting condition',
  'Tests call the hunt with fixed logs; the guards must hold for every population state.',
  [M], [('trigger', M + ':_process_results'), ('hunt', M + ':_start_hunt'), ('shutdown', M + ':_shutdown_job')],
  [('_graveyard', 'closed optimizers'), ('last_hunt', 'evaluation number of the last hunt')])

p('C05', 'Every optimizer end is recorded with a time and a reason',
  'Whenever the manager notices or causes the end of an optimizer (converged, died, crashed, hung, killed, or stopped at the end of the run) it marks it as closed and logs '
  'a stop time and an end condition for it, together. An optimizer already marked as closed never gets its recorded end overwritten by convergence or clean-up.',
  ['schedules', 'fault_sequences', 'histories'],
  'every way and every moment in which an optimizer can end',
  'Tests exercise one ending each; the record must be made on every path.',
  [M], [('signals', M + ':_check_signals'), ('inspection', M + ':_inspect_children'), ('kill', M + ':_shutdown_job'),
        ('clean-up', M + ':_stop_all_children'), ('checkpoint sync', M + ':_checkpoint_optimizers')])

p('C06', 'Converged, killed and crashed optimizers are counted exactly once',
  'The count of converged optimizers increases exactly once for each optimizer that finishes on its own and never for one that was killed, crashed or was already closed. '
  'An optimizer which was stopped by a hunt or by the user is counted as killed, with the time the stop was sent, and by no other path.',
  ['schedules', 'histories', 'fault_sequences'],
  'every order of finish messages, kills and process deaths, including finish messages arriving during a checkpoint',
  'Termination criteria read these counters; tests check single transitions only.',
  [M], [('signals', M + ':_check_signals'), ('inspection', M + ':_inspect_children'), ('kill', M + ':_shutdown_job'),
        ('checkpoint sync', M + ':_checkpoint_optimizers')],
  [('conv_counter', 'converged'), ('hunt_victims', 'killed, with time'), ('_graveyard', 'closed')])

p('C07', 'Optimizers are force-terminated only when allowed and possible',
  'A running optimizer is only terminated by force when it is a process (never a thread), and during the optimization only if forced terminations were enabled and it '
  'exceeded the configured silence after its last feedback or after its stop signal, or aggressive killing was chosen for a kill. '
  'At the end of a run force is only used on processes still alive after being asked to stop and waited for.',
  ['configurations', 'schedules', 'histories'],
  'every backend and force setting, every timing of feedback',
  'Timing dependent and destructive; tests cover a couple of settings with mocked clocks.',
  [M], [('hanging', M + ':_inspect_children'), ('kill', M + ':_shutdown_job'), ('end', M + ':_stop_all_children')])

p('C08', 'Every run ends by stopping optimizers, saving output and returning',
  'Once the optimization loop has been entered, every way of leaving it (convergence, user interrupt, or any error) stops all living optimizers, writes the requested summary, '
  'closes the log and returns the result with the reason; an interrupt or error is reported as such and never propagates. '
  'All living optimizers are signalled before the queue is purged and they are joined.',
  ['crash_points', 'fault_sequences', 'histories'],
  'an exception or interrupt raised at any statement of the optimization loop',
  'Tests raise at one or two points; the clean-up must be on all exception paths.',
  [M], [('main loop', M + ':start_manager'), ('clean-up', M + ':_stop_all_children')])

p('C09', 'Manager and optimizers agree on the signal protocol',
  'Every signal the manager can send is one that every bundled optimizer understands, with the number of arguments it expects, and every signal an optimizer can send is '
  'handled by the manager wherever it reads signals. Unknown signals to an optimizer are ignored with a warning and known ones are executed exactly once, in order, and reported back.',
  ['programs', 'schedules', 'histories'],
  'every send site and receive site in the package',
  'The two halves of the protocol run in different processes; tests mock one side.',
  [M, B, 'glompo/optimizers/*.py'], [('manager sends', M), ('dispatch', B + ':check_messages'),
                                     ('optimizer sends', 'glompo/optimizers/*.py'), ('manager receives', M + ':_check_signals')])

p('C10', 'Bundled optimizers cooperate: they poll signals, pause, stop and report',
  'Each bundled iterative optimizer, when run under the manager, reads its signals and honours the pause flag in every iteration of its loop, leaves the loop once asked to stop, and '
  'reports its own convergence to the manager exactly once when minimization ends, but never tries to contact a manager when used stand-alone.',
  ['programs', 'schedules', 'configurations'],
  'every iteration of every optimizer loop, every configuration (stand-alone or managed)',
  'The optional optimizer packages are not even installed where the tests run; the obligations are on all loop paths.',
  ['glompo/optimizers/cmawrapper.py', 'glompo/optimizers/gfls.py', 'glompo/optimizers/random.py', 'glompo/optimizers/nevergrad.py', 'glompo/optimizers/scipy.py'],
  [('loops', 'glompo/optimizers/*.py:minimize')])

p('C11', 'A crash inside an optimizer is contained and always announced',
  'Whatever an optimizer does (return, be interrupted, or raise), the manager is told that no more results will follow; an error additionally sends its traceback to the manager and ends '
  'that worker with a failure code, while an interrupt ends it quietly. An error in one worker never stops the manager, and repeated crashes at start-up end the run rather than loop forever.',
  ['crash_points', 'fault_sequences', 'schedules'],
  'an exception of any type raised at any point of any optimizer',
  'Tests raise one exception at one point.',
  [B, Q, M], [('wrapper', B + ':_minimize'), ('thread', Q + ':CustomThread.run'), ('crash loop', M + ':_fill_optimizer_slots')])

p('C12', 'Checkpoints capture a quiescent, mutually consistent state',
  'A checkpoint is taken only after every living optimizer has been asked to pause and has answered, finished or died, and after all results in flight (queued or cached) were processed; '
  'only then are optimizers told to save, and only once all saves are finished are the log, the manager state and the task saved. '
  'Optimizers which finished, were killed or died are not part of it, a missing optimizer save fails the checkpoint, and optimizers are released afterwards in all cases.',
  ['schedules', 'crash_points', 'histories'],
  'every interleaving of optimizers finishing, dying, being killed or crashing while a checkpoint is synchronised',
  'The windows are microseconds wide; tests sample a handful of schedules.',
  [M, B, Q], [('order', M + ':checkpoint'), ('synchronisation', M + ':_checkpoint_optimizers'), ('optimizer half', B + ':_prepare_checkpoint')])

p('C13', 'A failed checkpoint leaves no debris and never destroys an older one',
  'A checkpoint appears under its name only as a completely written archive; if its construction fails at any point, a checkpoint it was to replace is restored, the failed one is not listed in the history, '
  'partial archives and working folders are removed, and the run continues with a warning unless failure was configured to be fatal. '
  'Older checkpoints are only deleted after the new one is complete, and then only files matching the naming pattern beyond the number to keep.',
  ['crash_points', 'fault_sequences', 'configurations'],
  'a failure at any step of checkpoint construction, with and without an existing checkpoint of the same name',
  'Tests fail a couple of steps; atomicity quantifies over all of them.',
  [M], [('construction', M + ':checkpoint')])

p('C14', 'Checkpoint save and load agree, so a resume restores the full state',
  'Everything the manager, log, visualisation and optimizers save in a checkpoint is found again under the same name when it is loaded, and all state a continued run needs (counters, histories, result, '
  'victims, configuration, optimizer types and slots) is in it; only process-bound handles are left out, and these are rebuilt. '
  'Restored optimizers resume with their original identity and know they are resumed, and a checkpoint with unusable content raises an error rather than starting half-restored.',
  ['histories', 'configurations', 'programs'],
  'every attribute of every checkpointed object, every combination of optional parts',
  'Tests round-trip one configuration; an attribute forgotten on one side only shows after a particular history.',
  [M, L, B, 'glompo/core/scope.py'],
  [('manager save', M + ':_checkpoint_manager'), ('manager load', M + ':load_checkpoint'), ('log', L + ':checkpoint_save'),
   ('optimizers', B + ':checkpoint_save')])

p('C15', 'Existing results are never overwritten or deleted without permission',
  'If results of a previous run are present in the working directory and overwriting was not allowed, starting raises an error before any file is touched; only if it was allowed are the old results removed. '
  'A resumed run never deletes its iteration log; it only continues one whose checksum matches the checkpoint, after cutting off exactly the evaluations and optimizers newer than the checkpoint, and refuses any other.',
  ['configurations', 'histories', 'inputs'],
  'every content of the working directory and every overwrite/restart setting',
  'Tests cover a few layouts; a wrong guard loses user data.',
  [M], [('purge', M + ':_purge_old_results'), ('log continuation', M + ':start_manager')])

p('C16', 'User STOP and CHKPT requests are honoured once and only when valid',
  'A stop file for a running optimizer is consumed and stops exactly that optimizer, recorded as a user stop; files naming unknown, closed or unparsable optimizers never stop anything and never crash the run. '
  'A checkpoint request file is consumed and makes exactly one checkpoint, with temporary default settings if none were configured.',
  ['inputs', 'histories', 'configurations'],
  'every name of a stop file, every population state, every checkpoint configuration',
  'Tests use well-formed files and a fixed population.',
  [M], [('stop', M + ':_is_manual_shutdowns'), ('checkpoint', M + ':_is_manual_checkpoints')])

p('C17', 'Combined conditions follow and/or logic, lazily, and report honestly',
  'A combination of conditions with "or"/"and" is true exactly when the logic says so for any nesting, evaluates the second operand only if the first does not decide, and remembers its result. '
  'Results of a previous evaluation are cleared in all operands first, so an operand that was not evaluated is reported as such; iterating over a combination yields every leaf exactly once.',
  ['programs', 'inputs', 'histories'],
  'every expression tree of conditions and every truth assignment of its leaves over repeated evaluations',
  'Trees are unbounded; tests build a few.',
  ['glompo/common/corebase.py', 'glompo/hunters/basehunter.py', 'glompo/convergence/basechecker.py'],
  [('combination', 'glompo/common/corebase.py')])

p('C18', 'Stopping criteria are true exactly at and beyond their documented threshold',
  'Each bundled stopping criterion is true if and only if its documented quantity (evaluations, kills, optimizers started or converged, seconds in the session or overall, best value within the tolerance of '
  'the target, kills counted from the convergence that enabled counting) has reached the configured threshold, returns false before any data exist, and remembers its last answer.',
  ['inputs', 'histories', 'configurations'],
  'every threshold and every manager state, in particular at equality',
  'Tests evaluate points away from the boundary.',
  ['glompo/convergence/*.py'], [('criteria', 'glompo/convergence/*.py:__call__')])

p('C19', 'Hunting criteria decide on the right data and spare young optimizers',
  'Each bundled hunting criterion judges the victim with the victim\'s data (and the hunter\'s where documented), compares exactly as documented, and is false when the victim does not have the configured number of evaluations yet. '
  'Each evaluation stores its answer as the last result.',
  ['inputs', 'histories', 'configurations'],
  'every history of hunter and victim, every setting',
  'Tests feed short fixed histories; windows, roles and comparison direction must be right for all.',
  ['glompo/hunters/*.py'], [('criteria', 'glompo/hunters/*.py:__call__')])

p('C20', 'Generated starting points lie inside the bounds',
  'Every starting point produced by a bundled generator from valid bounds and in-bounds previous points has one entry per parameter and lies within the bounds, at every stage of the optimization, '
  'including before any valid evaluation exists.',
  ['inputs', 'histories', 'configurations'],
  'every set of bounds, every random draw, every state of the optimization',
  'Random draws and histories are sampled by tests; convexity arguments hold for all.',
  ['glompo/generators/*.py'], [('generators', 'glompo/generators/*.py:generate')])

p('C21', 'Selectors follow their documented sequence and stop spawning for good',
  'The cycling selector visits its optimizers in order and does not skip one that did not fit; the chain selector uses the entry after all thresholds reached and stops spawning after the last; the random selector chooses '
  'among all that fit. If spawning is disallowed by the spawn control the selector says so without selecting, the manager then never starts another optimizer, and without spawning the run ends once all optimizers are closed.',
  ['histories', 'configurations', 'schedules'],
  'every sequence of selections with any slots offered and any evaluation count',
  'Tests walk a few steps; the state machine must be right for all histories.',
  ['glompo/opt_selectors/*.py', M], [('selection', 'glompo/opt_selectors/*.py:select_optimizer'), ('spawn switch', M + ':_setup_new_optimizer')])

p('C22', 'The results queue loses, duplicates and reorders nothing in its cache',
  'Items put on the results queue by any number of threads are delivered exactly once: each put stores its item either in the queue or in the cache, a cache is emptied only after it was put on the queue whole, '
  'and cache accesses are mutually exclusive and never blocked on a lock already held.',
  ['schedules', 'histories'],
  'every interleaving of concurrent puts and flushes on a queue of any fill level',
  'Races on the cache are practically unobservable in tests.',
  [Q], [('queue', Q + ':ChunkingQueue')], [('cache', 'items not yet on the queue'), ('cache_lock', 'guards the cache')])

p('C23', 'Optional packages are optional: features degrade without crashing',
  'No code path imports or uses an optional package (serialisation, monitoring, plotting) unless its presence was established; when it is missing the dependent feature is skipped with a warning and the '
  'optimization proceeds, and serialisation is never attempted without its package.',
  ['configurations', 'programs'],
  'every subset of installed optional packages, every feature combination',
  'The test environment has exactly one subset installed.',
  [M, L, B, 'glompo/common/wrappers.py'], [('guards', M), ('decorator', 'glompo/common/wrappers.py:needs_optional_package')])

p('C24', 'Invalid configuration is rejected and a manager is initialised only once',
  'Setting up a manager with a wrong type or value for the task, selector, bounds, maximum jobs, stopping criterion, generator or killing conditions raises an error, and documented fallbacks are used when optional '
  'ones are omitted. A manager which is already initialised ignores further setups and loads with a warning, and one which is not initialised does not start; one whose criterion is already met does not run.',
  ['inputs', 'configurations', 'histories'],
  'every value of every argument, every order of calls',
  'Tests try a few bad values per argument.',
  [M, 'glompo/common/helpers.py'], [('setup', M + ':setup'), ('single initialisation', M + ':is_initialised')])

p('C25', 'The iteration log is complete and its two implementations agree',
  'Every recorded evaluation can be read back with its number, vector, value and extra values under the right column, per optimizer and in order; buffered rows are written to disk exactly once, before memory is released and before the file is closed. '
  'Data kept only on disk are still found, memory is kept while a trajectory plot is requested, and messages and metadata are attached to the optimizer they belong to.',
  ['histories', 'configurations', 'inputs'],
  'every sequence of log operations on every number of optimizers',
  'Tests replay short sequences on one optimizer.',
  [L], [('memory', L + ':BaseLogger'), ('disk', L + ':FileLogger')])

p('C26', 'Better solutions are shared with all other living optimizers, once',
  'When sharing is enabled, every strict improvement of the best result (and the first one) is sent with its vector and value to every living optimizer except the one that found it, and nothing is sent otherwise. '
  'The receiver stores exactly the received vector and value as its incumbent.',
  ['schedules', 'histories', 'configurations'],
  'every sequence of improvements over every population',
  'Tests share once between two optimizers.',
  [M, B], [('sharing', M + ':_update_best_result'), ('reception', B + ':inject')])

p('C27', 'The manager never crashes or waits forever on a dead optimizer',
  'Sending to or reading from an optimizer which may have closed its end never raises out of the manager, signals are only read when present or from an optimizer being waited on with a time limit, '
  'and every waiting loop gives up on optimizers that have died. Results are awaited with a time limit during the optimization.',
  ['schedules', 'crash_points', 'fault_sequences'],
  'an optimizer dying between any two statements of the manager',
  'The race windows are tiny; tests never hit them.',
  [M], [('sending', M + ':_send_signal'), ('reading', M + ':_check_signals'), ('waiting', M + ':_checkpoint_optimizers')])

p('C28', 'User supplied configuration objects are never modified',
  'Optimizer configuration dictionaries, bounds and other objects handed in by the user are not modified by selecting, starting or restarting optimizers, and with threads each optimizer works on its own copy of its settings; every '
  'optimizer started from the same entry therefore gets the same configuration.',
  ['histories', 'configurations'],
  'every number of optimizers started from the same configuration',
  'A leaked change shows only from the second spawn of the same entry on.',
  [M, 'glompo/opt_selectors/baseselector.py'], [('spawn', M + ':_setup_new_optimizer'), ('normalisation', 'glompo/opt_selectors/baseselector.py')])

p('C29', 'Time accounting stays paired across sessions and checkpoints',
  'Each session contributes exactly one start and one end time; checkpoints and the end of the run update the end of the current session instead of adding another. On resume the time used is the sum over previous sessions and '
  'the session clock restarts, so overall and session time limits are both right.',
  ['histories', 'crash_points'],
  'every sequence of checkpoints, ends, crashes and resumes',
  'Needs several checkpoints and resumes in one history.',
  [M, 'glompo/convergence/tmax.py'], [('start/end', M + ':start_manager'), ('checkpoint', M + ':checkpoint'), ('resume', M + ':load_checkpoint')])

p('C30', 'Optimizer print streams are kept apart and never lose output',
  'With split print streams each optimizer\'s output and error streams go to its own pair of files, whichever backend is used; output of any other thread, or after an optimizer closed its files, goes to the original stream. '
  'Files are always closed when the optimizer ends, however it ends when run as a thread.',
  ['schedules', 'crash_points', 'configurations'],
  'every interleaving of printing threads, every way an optimizer thread ends',
  'Tests print from one optimizer at a time.',
  [Q, 'glompo/common/wrappers.py'], [('threads', Q + ':ThreadPrintRedirect'), ('processes', 'glompo/common/wrappers.py:process_print_redirect')])

p('C31', 'Checkpoint names follow the format and counters never repeat',
  'A generated checkpoint name is the naming format with every key replaced by its documented value and always matches the pattern used to recognise checkpoints; the counter is one more than the largest among existing '
  'matching checkpoints, or zero if there is none. Characters of the format with a special meaning in patterns are taken literally.',
  ['inputs', 'histories', 'configurations'],
  'every naming format and content of the checkpoint directory',
  'Formats and directory contents are unbounded.',
  ['glompo/core/checkpointing.py'], [('name', 'glompo/core/checkpointing.py:get_name'), ('pattern', 'glompo/core/checkpointing.py:__init__')])

p('C32', 'The run ends exactly when the stopping criterion holds or nothing can run',
  'In every iteration the manager fills free slots, reads signals and results, serves user requests, inspects optimizers and then evaluates the stopping criterion once; it ends if and only if that is true, or no optimizer is alive and spawning is off. '
  'Periodic checkpoints are made when the configured time or number of evaluations has passed since the last one, and checkpoints at initialisation and convergence exactly when configured.',
  ['histories', 'configurations', 'schedules'],
  'every state of the optimization, every checkpoint configuration',
  'The decision combines many states; tests check single criteria.',
  [M], [('main loop', M + ':start_manager'), ('initial checkpoint', M + ':setup')])

p('N01', 'Global minima are found with high probability',
  'Given enough evaluations, the managed population finds a better or equal minimum than the same optimizers run independently with the same budget.',
  ['inputs', 'histories'], 'every cost function', 'Statistical claim over cost functions.',
  [M], [('management', M)])
p('N02', 'Benchmark functions attain their documented minimum at the documented location',
  'Every bundled benchmark function evaluates to its documented minimum value at its documented minimiser and is nowhere lower within its bounds.',
  ['inputs'], 'every point of the domain, every dimension', 'Real-valued quantification over the domain.',
  ['glompo/benchmark_fncs.py'], [('functions', 'glompo/benchmark_fncs.py')])
p('N03', 'Random draws follow their documented distributions',
  'Random generators, selectors and annealing criteria draw from the documented distributions with the documented probabilities.',
  ['inputs', 'histories'], 'every random seed', 'Distributional.', ['glompo/generators', 'glompo/hunters'],
  [('draws', 'glompo/generators/*.py')])
p('N04', 'Shutdown completes within the configured time',
  'Ending a run takes no longer than the configured waiting time per optimizer plus the time of one function evaluation.',
  ['schedules'], 'every scheduling and evaluation time', 'Real time.', [M], [('join', M + ':_stop_all_children')])
p('N05', 'Reported resource usage figures are right',
  'CPU, memory and load figures in the summary equal the actual use of the process tree over the optimization.',
  ['histories'], 'every load history', 'Measured by the operating system.', [M], [('monitoring', M + ':_build_status_message')])
p('N06', 'A resumed deterministic run continues as if never interrupted',
  'With deterministic optimizers the sequence of evaluations after a resume equals the one of an uninterrupted run.',
  ['histories', 'schedules'], 'every optimizer and checkpoint moment', 'Depends on third-party optimizer state and on scheduling.',
  [B], [('optimizer state', B + ':checkpoint_save')])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))
