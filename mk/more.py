START = [S + 'start_systems.hpp', S + 'start_base.hpp', SS + 'start_base.cpp', S + 'start/total_degree.hpp', SS + 'start/total_degree.cpp', S + 'start/mhom.hpp', SS + 'start/mhom.cpp', S + 'start/user.hpp', SS + 'start/user.cpp']
p('C09', 'Start systems have the promised number of distinct, nonsingular start points',
  'A total degree start system for a square polynomial target has as many start points as the product of the degrees, and a multihomogeneous start system as many as the multihomogeneous Bezout number of the target; a target which is not square, not polynomial or otherwise unsuitable is refused. '
  'Every start point, in double and in multiple precision, is a nonsingular solution of the start system (patches included), different indices give different points, the same index gives the same point however often and in whatever precision it is asked for, an index beyond the last is refused, and a user start system returns the points it was given. '
  'The start system has the target\'s variables, degrees and patch, so that (1-t)*target + gamma*t*start vanishes at every start point at t=1 and is the target at t=0. Copies and precision changes keep all this.',
  ['inputs', 'histories'], 'every square polynomial target with any arrangement of variable groups, homogenized, patched or plain, every start point index, every history of precision changes and copies',
  'The repository\'s start system tests use a handful of targets and are not part of the stable run.', START,
  [('TotalDegree, MHomogeneous, User start systems', 'core/src/system/start/'), ('start points', 'core/src/system/start/')],
  'TLA+ specification (StartSpec, Bezout numbers computed by TLC), TLC behaviours replayed on the code', NOTE)
p('C08', 'Patches and slices keep their equations through precision changes and copies',
  'A Patch of given group sizes consists of one linear equation A_i x_i = 1 per group, whose coefficients never change: its values at a point x are A x - 1, its Jacobian is A (zero outside each group\'s own columns), and rescaling a point to the patch divides each group\'s coordinates by A_i x_i, so that the patch then vanishes. '
  'A LinearSlice of given dimension has the values A x + c (c = 0 when it is homogeneous) and Jacobian A. In multiple precision all of these are correct to, and have, the current working precision, in double precision to double accuracy. '
  'This holds after any sequence of precision changes up and down, changes of the default precision, copies, assignments and archiving round trips; copies have the same coefficients (patches compare equal exactly when their coefficients are the same), and changing the precision of one does not affect another.',
  ['inputs', 'histories', 'configurations'], 'every shape, real or complex, orthogonal or not, every history of precision changes, copies and archives, every point',
  'The repository\'s patch tests cover a handful of fixed precision changes; slice tests are trivial. None copies, archives and changes precision in sequence.',
  [S + 'patch.hpp', S + 'slice.hpp', SS + 'slice.cpp'], [('Patch: coefficients at highest and at working precision', S + 'patch.hpp'), ('LinearSlice', S + 'slice.hpp')],
  'TLA+ specification (LinSpec), TLC exhaustive and random behaviours replayed on the code', NOTE)
T = 'core/include/bertini2/trackers/'
TRK = [T + x for x in ('base_tracker.hpp', 'fixed_precision_tracker.hpp', 'amp_tracker.hpp', 'newton_correct.hpp', 'newton_corrector.hpp', 'step.hpp', 'predict.hpp', 'base_predictor.hpp', 'explicit_predictors.hpp', 'ode_predictors.hpp', 'amp_criteria.hpp', 'config.hpp')]
p('C10', 'Path trackers follow the path they start on, and say so only when they do',
  'Tracking a nonsingular solution path of a homotopy from any time to any other, in double, fixed multiple or adaptive precision, with any implemented predictor, ends with Success at the end time and at the endpoint of the same path, correct to the tracking tolerance, in the precision the tracker then reports; the same track made again ends the same way, whatever the tracker did before. '
  'Otherwise it does not answer Success: a path which passes the truncation threshold gives GoingToInfinity (at a point beyond it), too few allowed steps MaxNumStepsTaken, too large a minimal step MinStepSizeReached, a path that ends or a singular start point a failure. '
  'No fixed precision step is longer than the initial step, so at least length/step steps are taken (exactly as many when no step fails). Refining a point near a solution gives that solution to the tolerance asked for, or not Success. Start points of the wrong size or precision, and tolerances which are not positive, are refused; after tracking, the tracker, its system and the default precision agree.',
  ['inputs', 'histories', 'configurations'], 'every path, segment of time, tracker, predictor, tolerance, step and precision setting, every history of tracks on the same tracker',
  'The repository\'s tracker tests use a handful of paths and are not part of the stable run; the stable endgame tests track a few more.', TRK,
  [('TrackPath, Refine', T + 'base_tracker.hpp'), ('AMPTracker', T + 'amp_tracker.hpp'), ('FixedPrecisionTracker', T + 'fixed_precision_tracker.hpp')],
  'TLA+ specification (TrackSpec: exact paths, allowed outcomes), TLC exhaustive and random behaviours replayed on the code', NOTE)
p('C11', 'Every step of a track obeys the stepping and precision rules',
  'In every track each attempted step is one of the documented kinds: after a successful step the time has advanced by exactly the step announced and the point is the corrected one, close to the path; after a failed one time and point have not moved and either the step size shrank by the failure factor or the precision rose. '
  'The step never exceeds the maximum (nor the rest of the segment), grows only after the set number of consecutive successes and by at most the success factor, precision falls only after the set number of consecutive successes and at most the set number of times, and never leaves [double, maximum]. '
  'Tracking ends exactly when the end time is reached, or for the reason its return code names: truncation, number of steps, minimal step size, maximal precision. From every state a track comes to an end.',
  ['inputs', 'histories', 'configurations'], 'every track of every tracker with every setting: each of its steps',
  'No test of the repository looks at the steps of a track; adaptive decisions depend on the whole history of successes and failures.', TRK,
  [('step size and precision rules', T + 'amp_tracker.hpp'), ('tracker loop', T + 'base_tracker.hpp')],
  'TLA+ state machine (TrackMachine) model checked exhaustively with liveness; event traces recorded from the real trackers validated against it by TLC', NOTE)
p('C12', 'Predictors have their order, and predict the same in every precision',
  'Each implemented predictor (constant, Euler, Heun-Euler, RK4, RKF45, Cash-Karp 45, Dormand-Prince 56, Verner 67) predicts along a known path with an error that shrinks like the step to the power of its order plus one, in double and in multiple precision, in every direction of time and however often the predictor, the precision or the system was changed before; its coefficients are correct to all digits of the working precision, so that predictions in different precisions agree to the lower one.',
  ['inputs', 'histories', 'configurations'], 'every predictor, tracker type, precision, step length and direction, every history of changes',
  'The repository\'s predictor tests are not part of the stable run, and compare single predictions with stored numbers.', [T + 'base_predictor.hpp', T + 'explicit_predictors.hpp', T + 'ode_predictors.hpp', T + 'predict.hpp'],
  [('Butcher tables', T + 'explicit_predictors.hpp'), ('ChangePrecision', T + 'explicit_predictors.hpp')],
  'TLA+ specification (PredSpec: exact paths and error bounds per order), TLC behaviours replayed on the code', NOTE)
p('C13', 'Observers hear every event of what they observe, once, and nothing else',
  'Every event of a track is heard exactly once by each observer attached to the tracker at the time, however often it was added; an observer removed hears nothing more, one added hears every later event, also when observers are added or removed by observers during an event, and this changes nothing for the others (the event during which another observer adds or removes it, it may hear or not). Observers of one tracker hear nothing of another. '
  'Accordingly the precision accumulator lists the precision at every event, the path accumulator the point of every successful step, and the precision recorders the smallest and largest precision used, the first precision, and the first precision change upwards.',
  ['histories', 'schedules'], 'every history of adding and removing observers, between and during tracks, every track',
  'The repository\'s tests only attach loggers before tracking.', ['core/include/bertini2/detail/observable.hpp', 'core/include/bertini2/detail/observer.hpp', T + 'observers.hpp', T + 'events.hpp'],
  [('AddObserver, RemoveObserver, NotifyObservers', 'core/include/bertini2/detail/observable.hpp'), ('observers', T + 'observers.hpp')],
  'TLA+ specification (ObsSpec) replayed on the code, and recorded tracks with their observers\' answers validated against TrackMachine', NOTE)
PR = 'core/include/bertini2/io/parsing/'
p('C14', 'Input text means what it says',
  'The system read from classic input text has exactly the declared variables, in declared order and grouping (variable_group, hom_variable_group, variable, pathvariable), and exactly the declared functions in order; its values, Jacobian, time derivative and degrees are those of the written expressions under the usual rules: + and - from left to right, * and / from left to right and before them, integer powers before those, a sign applies to the factor after it, parentheses, sin cos tan exp log sqrt, pi e i, constants, parameters and subfunctions by name. '
  'Numbers (digits, point, exponent, in any mixture) have their value to the working precision or to the number of digits written, whichever is more. Layout (spaces, tabs, newlines), comments after %, names which begin with other names, and the form of the file (with or without CONFIG, INPUT and END;) make no difference, and the configuration part is separated exactly. '
  'Text with an undeclared or twice declared name, a missing semicolon, operand, operator or parenthesis, an unknown keyword, or a malformed name or number is refused.',
  ['inputs'], 'every input text built from declarations, definitions, subfunctions and expressions of any depth, in every layout and file form',
  'The repository\'s parser tests that still run cover the splitting of files; those of systems and functions are not part of the stable run and use a few dozen fixed strings.',
  [PR + x for x in ('function_rules.hpp', 'system_rules.hpp', 'number_rules.hpp', 'system_parsers.hpp', 'function_parsers.hpp', 'number_parsers.hpp', 'classic_utilities.hpp')] + ['core/include/bertini2/function_tree/symbols/number.hpp'],
  [('FunctionParser', PR + 'function_rules.hpp'), ('SystemParser', PR + 'system_rules.hpp'), ('ParseInputFile', PR + 'classic_utilities.hpp'), ('LongNum', PR + 'number_rules.hpp')],
  'TLA+ specification (ParseSpec: phrases with tokens, binding strength and exact meaning), TLC exhaustive and random texts parsed by the code', NOTE)

EG = 'core/include/bertini2/endgames/'
EGF = [EG + x for x in ('base_endgame.hpp', 'powerseries.hpp', 'cauchy.hpp', 'interpolation.hpp', 'fixed_prec_endgame.hpp', 'amp_endgame.hpp', 'prec_base.hpp', 'config.hpp')]
p('C15', 'Endgames find the end of a path, singular or not, to the final tolerance',
  'Given a point of a path near its end, an endgame (power series or Cauchy; double, multiple or adaptive precision) answers Success with an approximation of the end point which is correct to about the final tolerance, whether the end point is nonsingular or singular of any cycle number, for any target time, sample factor, number of sample points and starting point around the target; '
  'the error it reports is the distance between its last two approximations and at most the final tolerance, and the cycle number is that of the path (for the power series endgame, a multiple of it). '
  'A path to infinity is answered with SecurityMaxNormReached at security level 0, and with the point at infinity at level 1; a maximum cycle number below that of the path with CycleNumTooHigh; too large a minimal time with MinTrackTimeReached if at all. The same run made again gives the same answer whatever the endgame, its tracker or its system did before. '
  'The interpolation it rests on is exact for polynomials of degree 2n-1 from n samples and derivatives, and so is the power series approximation from exact samples of a path with a cycle number among those it tries. Points of the wrong size are refused.',
  ['inputs', 'histories', 'configurations'], 'every path of the family (any cycle number, any number of coordinates, affine or projective, any end time), tracker, setting and starting point; every history of runs and changed settings',
  'The stable endgame tests run a handful of fixed paths from t=0.1 to 0 with the default factor; none changes settings or reuses an endgame; those of the Cauchy endgame are not part of the stable run.', EGF,
  [('Run, ComputeInitialSamples', EG + 'base_endgame.hpp'), ('power series endgame', EG + 'powerseries.hpp'), ('Cauchy endgame', EG + 'cauchy.hpp'), ('HermiteInterpolateAndSolve', EG + 'interpolation.hpp')],
  'TLA+ specifications (EndSpec: exact Puiseux paths, allowed answers; HermSpec: exact polynomials), TLC exhaustive and random behaviours replayed on the code', NOTE)
p('C16', 'Each move of an endgame, and each answer, is justified by what it has seen',
  'While an endgame runs, time approaches the target geometrically by the sample factor and never below the minimal time; every point it samples is on the path it was started on. '
  'The Cauchy endgame moves around the target along the vertices of a regular polygon, loop after loop, until the path closes, which it does after exactly its cycle number of loops (unless its branches cannot be told apart any more) and at most the maximum number; its approximation is the mean of the samples. '
  'The power series endgame approximates from at least the set number of refined samples at geometrically spaced times. Refined samples have the accuracy asked for. The error announced is the distance between this approximation and the one before; Success is answered only after it has fallen below the final tolerance, SecurityMaxNormReached only at level 0 after two approximations beyond the maximum norm, MinTrackTimeReached only when the next step would pass the minimal time, CycleNumTooHigh only after the maximum number of loops. From every state an endgame comes to an end.',
  ['inputs', 'histories', 'configurations'], 'every run of every endgame with every setting: each of its steps',
  'No test of the repository looks at the moves of an endgame.', EGF,
  [('AdvanceTime, RunImpl', EG + 'powerseries.hpp'), ('CircleTrack, ComputeCauchySamples, InitialCauchyLoops', EG + 'cauchy.hpp')],
  'TLA+ state machine (EndMachine) model checked exhaustively with liveness; event traces recorded from the real endgames validated against it by TLC', NOTE)
N = 'core/include/bertini2/nag_algorithms/'
ZDF = [N + x for x in ('zero_dim_solve.hpp', 'midpath_check.hpp', 'common/algorithm_base.hpp', 'common/config.hpp', 'common/policies.hpp')]
p('C17', 'A zero dimensional solve finds every solution and accounts for each path',
  'Solving a square polynomial system with a total degree or multihomogeneous start system, or a homotopy of the user\'s, with any tracker and endgame, tracks exactly one path per start point; every finite isolated solution is the end of exactly as many successful paths as its multiplicity, solutions at infinity are ends of paths recognised as infinite in their coordinates, and no other points are returned. '
  'The solutions, the metadata and the boundary points are in the order of the start points; for every path the metadata hold its index, how its track to the endgame boundary and its endgame ended, and, where these succeeded, its multiplicity (the number of equal end points), the cycle number, the endgame\'s last step and time, and whether and when its precision changed. '
  'Two paths with different start points whose boundary points are nearer than the set tolerance are crossed: all crossed paths, and no others, are run again, from their start points, with the tolerance tightened by the set factor, at most the set number of times, until no paths are crossed; a check for crossings depends on nothing that was checked before. '
  'An endgame runs only for paths which reached the boundary, from there, with the tolerance and step size set for it; tracks before it use the tolerance before endgames. Starting over on the same object, with the same or other settings, gives what a new one gives.',
  ['inputs', 'histories', 'configurations'], 'every square polynomial system with isolated solutions or homotopy, tracker, endgame and setting, every sequence of solves',
  'The repository\'s zero dimensional solve tests solve two or three systems, look at little besides the absence of exceptions, and are not part of the stable run.', ZDF,
  [('ZeroDim::Solve, PreEndgame, EGBoundaryAction, DuringEG, ComputePostTrackMetadata', N + 'zero_dim_solve.hpp'), ('MidpathChecker', N + 'midpath_check.hpp')],
  'TLA+ specifications (ZeroSpec, MidSpec: exact solutions with multiplicities and crossings) whose TLC behaviours are replayed on the code; state machine of a solve (ZeroMachine) model checked exhaustively with liveness, and event traces of the real solves validated against it by TLC', NOTE)
SP_ = 'core/include/bertini2/io/parsing/settings_parsers/'
p('C18', 'Settings read from an input file are those written in it, the rest defaults',
  'Reading the settings (the CONFIG part of a classic input file, or settings text by itself) into any of the configuration structures (stepping, Newton, adaptive precision, precision type, predictor, security, endgame, power series, Cauchy, track back, tolerances, zero dim, mid path, auto retrack, sharpening, regeneration, post processing, algorithm choice) '
  'gives every field whose setting "Name: value;" is written there the value written, and every other field its default, in whatever order and case the settings are, whatever white space or comments stand around them, and whatever other settings (of other structures, or of none) stand before, between or after them. '
  'A structure one of whose own settings has a malformed value (no number, a fraction or a negative number for a count, an unknown choice) is refused, and only such a structure is. Several structures read at once are what they are read one by one; text before CONFIG, and the INPUT part, play no role.',
  ['inputs'], 'every settings text: any subset of the settings in any order, case and layout, any values, any unknown settings between them',
  'The settings tests read single structures from a handful of texts, mostly with their own settings alone.',
  [SP_ + x for x in ('algorithm.hpp', 'tracking.hpp', 'endgames.hpp', 'base.hpp')] + ['core/include/bertini2/io/parsing/classic_utilities.hpp', 'core/include/bertini2/io/parsing/number_rules.hpp'],
  [('ConfigSettingParser of each structure', SP_ + 'algorithm.hpp, tracking.hpp, endgames.hpp'), ('ConfigParser, FillConfigStruct', SP_ + 'base.hpp'), ('ParseInputFile, SplitIntoConfigAndInput', 'core/include/bertini2/io/parsing/classic_utilities.hpp')],
  'TLA+ specification (SetSpec: the table of structures, settings, values and their meaning), TLC exhaustive and random behaviours replayed on the real parsers', NOTE)
