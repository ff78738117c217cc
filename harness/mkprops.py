import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
CORE="nbkode/core.py"; BUF="nbkode/buffer.py"; EV="nbkode/event_handler.py"; MS="nbkode/multistep/core.py"
RK="nbkode/runge_kutta/core.py"; EX="nbkode/runge_kutta/explicit.py"; Z="nbkode/nbcompat/zeros.py"
p("C01","The trajectory does not depend on how the solver is driven",
 "For every solver and problem, the sequence of accepted points (time, state) is the one obtained by stepping once at a time: any history of step, skip, run, run_events and interpolate calls, successful or refused, only moves the solver forward along that same sequence. After every call the solver's current time and state are one of those points, and every state a call returned for one of those times is the same.",
 ["histories","inputs","configurations"],"every solver, every problem, every finite sequence of API calls with any arguments, including refused calls and several run calls one after another",
 "The tests drive a fresh solver with one call (or a fixed pair) and compare with SciPy for two problems; interleavings of calls on one instance are unbounded.",
 [CORE,BUF,EX],[("Solver.step/skip/run/run_events",CORE),("_steps/_nsteps/_skip/_nskip/_run_eval",CORE)],
 [("cache","last LEN_HISTORY accepted points","nbkode/core.py Solver.__init__"),("h","proposed step","nbkode/core.py")],["solver.t","solver.y","return values"])
p("C02","step and skip advance exactly as far as they were asked to",
 "step(n) and skip(n) take exactly n steps; with upto_t they take every step that does not go beyond upto_t and none that does; with both, they stop at whichever comes first; with none, they take one step. step returns exactly the points passed, in order, and skip leaves the solver in the very same place without returning anything; an upto_t in the past is a no-op.",
 ["histories","inputs"],"every solver, position, n, and upto_t, including upto_t exactly on, just before or just after a point",
 "Tests check n in a couple of values and one upto_t on exponentials.",
 [CORE],[("Solver.step",CORE),("Solver.skip",CORE),("Solver._nsteps/_steps/_skip/_nskip",CORE)],observe=["return value of step/skip","solver.t"])
p("C03","The integration never goes beyond t_bound",
 "No call ever moves the solver, or returns a point, beyond t_bound. A request that lies beyond it is refused with ValueError and changes nothing; a request for steps that do not fit raises RuntimeError and leaves the solver at the last point that fits, where it stays usable; run returns the requested points that can be reached, in order.",
 ["histories","inputs","configurations"],"every solver, t_bound (infinite, on a point, between points, equal to t0), and call sequence",
 "Only two tests set t_bound, on one problem, with one call each.",
 [CORE,RK,MS],[("_check_time",CORE),("_step wrapper comparing t+h with t_bound",CORE)],[("t_bound","limit","nbkode/core.py")],["solver.t","exceptions","rhs evaluation times"])
p("C04","run returns the solution at exactly the requested times",
 "run(t) returns the very times requested, in the order requested (unsorted and repeated times included), each with the state the solver's own interpolation gives there; times still covered by the recorded history are answered from it, a time older than the history is refused with ValueError. It advances the solver to the first point at or past the latest requested time and no further.",
 ["inputs","histories"],"every solver, position, and list of requested times: sorted or not, repeated, on points, between points, in the history, before it",
 "Tests use sorted times from a fresh solver on exponentials.",
 [CORE],[("run_events",CORE),("_run_eval",CORE)],observe=["returned ts, ys","solver.t"])
p("C05","The recorded history is exactly the last accepted points",
 "At any moment the history holds the last accepted points, oldest first, with no point missing, repeated, or out of order (before enough steps were made, the points it started from); each recorded state is the accepted one, and each recorded derivative is the right-hand side at that time and state.",
 ["histories","configurations"],"every solver (history lengths 2 to 6), every call sequence, every number of steps",
 "No test looks into the history after anything but a few plain steps.",
 [BUF,CORE,MS,EX],[("AlignedBuffer.push",BUF),("Multistep.__init__",MS),("FSAL last stage reuse",EX)],[("ts/ys/fs","history","nbkode/buffer.py")],["solver.cache","solver.f"])
p("C06","Interpolation reproduces the recorded solution and changes nothing",
 "interpolate(t) is defined exactly on the recorded interval (ValueError outside it), gives the recorded state at recorded times (to rounding), and in between gives the method's continuous extension of the step that contains t (cubic Hermite; the published dense output for RungeKutta23, RungeKutta45 and DOP853). It is a pure query: it can be repeated, made in any order and at any moment, without altering the solver or its own later answers.",
 ["inputs","histories"],"every solver, problem, step size, query time and interleaving of steps and queries",
 "Tests never call interpolate directly; run is only compared with SciPy to loose tolerances.",
 [CORE,EX],[("Solver._interpolate",CORE),("RkInterpolator",EX),("DOP853Interpolator",EX)],[("updated_t/Q/F","lazily refreshed interpolation data","nbkode/runge_kutta/explicit.py")],["interpolate result"])
p("C07","Every event sign change in the watched direction is reported once",
 "run_events reports one event for each step over which an event function changes sign in the direction watched (any, upwards, downwards), and none for the other steps; each event function has its own list, in time order, without duplicates, whatever the other event functions do. Tracking events does not change the solution returned.",
 ["inputs","histories"],"every solver, number of event functions, direction setting, pattern of signs over the steps (zeros at points included), set of requested times and sequence of run_events calls",
 "Tests have one problem with one or two events of one sign pattern, compared to SciPy.",
 [EV,CORE],[("Event.evaluate",EV),("EventHandler.evaluate",EV),("_run_eval_events",CORE)],[("last_value/last_t","event function at the previous point","nbkode/event_handler.py")],["t_events","y_events"])
p("C08","Events are located where the event function is zero on the solution",
 "Each reported event lies within the step over which the sign changed, at a time where the event function evaluated along the interpolated solution changes sign to within rounding, whatever the scale of the event function; the state reported with it is the interpolated solution at that time.",
 ["inputs"],"every solver, event function (any scale, linear or not, of time and state) and trajectory",
 "Tests compare one or two event times with SciPy to about 1e-6.",
 [EV,Z],[("Event.evaluate",EV),("bisect",Z)],observe=["t_events","y_events"])
p("C09","A terminal event ends the integration at the earliest one",
 "When a terminal event occurs, the result ends with that event: all requested times before it are present, the event's time and state are the last row, and nothing after it is returned, neither a requested time nor an event of any other function. If several occur in one step, the earliest in time ends the integration, whatever the order of the event functions.",
 ["inputs","histories"],"every solver, set of event functions with any terminal flags and directions, order of the functions, and set of requested times (sorted or not)",
 "Tests have a single terminal event in one configuration.",
 [EV,CORE],[("EventHandler.evaluate",EV),("_run_eval_events",CORE)],[("last_event","the event that ends the integration","nbkode/event_handler.py")],["run_events result"])
p("C10","Every explicit method computes its published formula",
 "For every right-hand side, step size and history, one step of an explicit method moves time by the step and gives the state prescribed by the published formula of that name (Butcher tableau, or Adams-Bashforth weights applied to the recorded derivatives), up to rounding. The formulas have the order of accuracy their names promise.",
 ["inputs","configurations"],"every explicit solver, dimension, right-hand side (non-autonomous and non-linear included), step size, time and history",
 "Tests check exponentials to 1-10% and SciPy counterparts of three methods; wrong weights of a consistent formula pass.",
 [EX,RK,MS,"nbkode/multistep/adams_bashforth.py","nbkode/runge_kutta/dop853_coefficients.py","nbkode/euler.py"],[("ERK._fixed_step",EX),("FSAL._fixed_step",EX),("ExplicitMultistep._fixed_step",MS)],observe=["solver.t","solver.y after step"])
p("C11","Every implicit step solves the method's equation, or fails loudly",
 "A step of an implicit method (backward Euler, Adams-Moulton, BDF) either gives a state that satisfies the published implicit equation, with the right-hand side taken at the new time, to the root finder's tolerance, or raises; it never records a state that does not. The formulas have the order of accuracy their names promise.",
 ["inputs","configurations"],"every implicit solver, one-dimensional or not, linear or non-linear right-hand side, step size, time and history",
 "Tests check exponentials loosely, and never a failing solve.",
 [MS,Z,"nbkode/multistep/bdf.py","nbkode/multistep/adams_moulton.py"],[("ImplicitMultistep._fixed_step",MS),("j_newton/newton_hd",Z)],observe=["solver.y after step","exceptions"])
p("C12","Adaptive methods accept only steps whose error is within tolerance",
 "A step of a variable step method is accepted only if its embedded error estimate, relative to atol + rtol*max(|y old|, |y new|), has norm below one; otherwise it is retried with a smaller step from the same point. The next step is the standard controller's: safety_factor times the error power, limited to [min_factor, max_factor] and to [min_step, max_step]; if a retry would need less than min_step, the call raises instead.",
 ["inputs","configurations","histories"],"every variable step solver, problem, tolerances and step control options, sequences of accepted and rejected attempts",
 "Tests compare with SciPy on two smooth problems with default options where rejections hardly happen.",
 [RK,EX,CORE],[("_step_update",RK),("_scaled_error_norm",RK),("DOP853._step_builder",EX),("VariableStepOptions",CORE)],[("h","proposed step","nbkode/core.py")],["solver.t","solver.y","solver.h","rhs evaluations"])
p("C13","Multistep methods start from a proper uniform history",
 "A multistep method of ORDER k that is built with a first stepper holds, right after construction, k equally spaced points t0, t0+h, ..., t0+(k-1)h that the chosen first stepper produces from (t0, y0), and its current time is the last of them; without one it starts at t0 with a history filled with the initial point. The first stepper may be given by default, by name, or by class, of fixed or variable step.",
 ["configurations","inputs"],"every multistep solver, first stepper setting, t0, h, problem, with params or not, t_bound or not",
 "Tests check the start-up time at t0 = 0 for one problem.",
 [MS],[("Multistep.__init__",MS)],[("cache","history","nbkode/multistep/core.py")],["solver.t","solver.cache after construction"])
p("C14","Solvers are isolated from each other and from the caller's arrays",
 "A solver never modifies the arrays it is given (y0, params, requested times), is not affected by later modifications of y0 or of any array that its calls returned, and what it returned is not altered by its later work. Any number of solvers can be interleaved, of the same class or sharing the same functions and arguments, without affecting each other.",
 ["histories","configurations"],"every solver, every interleaving of calls on several instances and of writes to arrays passed or returned",
 "Tests never touch an array after passing or receiving it, nor interleave instances.",
 [CORE,BUF,EX,EV],[("np.array copies",CORE),("AlignedBuffer copies",BUF),("per-instance K, options, interpolator",RK)],observe=["returned arrays","arguments","solver.y"])
p("C15","Compiled and pure Python modes give the same results",
 "With numba or without it (NBKODE_NONUMBA), with a right-hand side that was compiled beforehand or not, and with parameters passed as params or bound into the function, the same calls give the same results: times, states, events and errors.",
 ["configurations","histories","inputs"],"every solver and call sequence, the two execution modes, compiled or plain right-hand side, with or without params",
 "The test suite runs in one mode only, with one kind of right-hand side.",
 [CORE,"nbkode/nbcompat/numbasub.py","nbkode/nbcompat/nb_to_import.py",EX,EV],[("nb_to_import",'nbkode/nbcompat/nb_to_import.py'),("Solver.__init__ wrapping of rhs",CORE)],observe=["all results in both modes"])
p("C16","Solvers are found by what they are",
 "Each solver is found by its name or alias in any letter case, belongs to exactly one group, and is returned by get_solvers for exactly the filters that describe it truthfully (implicit, fixed step, multistep, Runge-Kutta); unknown names and groups are refused, and the refusal of a name, list_solvers and dir(nbkode) give all there are. Defining a new solver adds exactly its names and its group entry, and a definition that is refused (duplicate name, bad history length, incomplete class) adds nothing.",
 ["histories","inputs","programs"],"every name, alias, letter case, group, combination of filters, and every sequence of solver definitions, valid or not",
 "Tests try a handful of lookups and a couple of filters.",
 [CORE,"nbkode/__init__.py","nbkode/util.py",MS],[("__init_subclass__",CORE),("get_solvers/check",CORE),("get_solver",CORE)],[("SOLVERS, SOLVERS_BY_GROUP","registry","nbkode/core.py")],["get_solver","get_solvers","list_solvers","get_groups","nbkode.<name>"])
p("C17","A solver starts exactly where and how it was asked to",
 "A new solver's time, state and derivative are t0, y0 (any array-like, as float vector) and the right-hand side there, whatever t0 and y0. The first step is the one given (h, first_step), or for variable step methods without one, the standard automatic choice for its order, tolerances and problem, never above max_step; a negative atol or a max_step that is not positive is refused, and construction evaluates the right-hand side only at finite states.",
 ["inputs","configurations"],"every solver, t0, y0 of any dimension and array-like type, options",
 "Tests compare the automatic first step with SciPy on two problems.",
 [CORE,RK],[("Solver.__init__",CORE),("VariableStep.__init__",CORE)],observe=["solver.t","solver.y","solver.f","solver.h"])
p("C18","The solver registry behaves as a case-insensitive dictionary",
 "CaseInsensitiveDict is a mapping in which keys that differ only in letter case are the same key: after any sequence of insertions, updates, deletions, pops and copies its contents, length, iteration, membership, equality and lookups are those of a dictionary over the lower-cased keys that remembers the case last set. A copy is independent.",
 ["histories","inputs"],"every sequence of mapping operations over keys that differ in case or not",
 "Tests run three operations on two keys.",
 ["nbkode/util.py"],[("CaseInsensitiveDict","nbkode/util.py")],[("_store","lower-cased key -> (key, value)","nbkode/util.py")],["mapping operations"])
p("C19","The Newton and secant root finders return a root or report failure",
 "newton (Newton, secant and Halley variants) and j_newton return a point where the method has converged as specified (function zero, or step within tol + rtol*|x|), following the method's iteration from the given start; when the iteration limit is hit or the derivative vanishes they raise, or with disp off report it as not converged. For an array of starts, newton does so for each element (where some fail it warns and reports which, where all fail it raises).",
 ["inputs"],"every function, start, tolerance, iteration limit and variant",
 "Tests use a few functions that converge quickly.",
 [Z],[("newton/_newton/j_newton",Z)],observe=["returned root and report","exceptions"])
p("C20","bisect and newton_hd return a bracketed or n-dimensional root, or refuse",
 "bisect refuses an interval that is empty or without a sign change, and otherwise returns a point of the interval next to which the function changes sign (or is within tolerance of zero), never leaving the bracket; newton_hd returns a point where the Euclidean norm of the function is within tolerance, or raises.",
 ["inputs"],"every function, interval, start, dimension, tolerance and iteration limit",
 "Tests use a handful of functions and one system.",
 [Z],[("bisect",Z),("newton_hd",Z),("jacobian",Z)],observe=["returned root","exceptions","evaluation points"])
p("C21","A failed step leaves the solver at its last accepted point",
 "When the right-hand side or an event function raises at any evaluation, or a step fails (the implicit equation cannot be solved, the required step is too small), the call raises and the solver is still at the last accepted point with an intact history. It can go on from there, for a fixed step method along the same trajectory as if the failure had never happened.",
 ["fault_sequences","crash_points","histories"],"every solver, every call, a failure at any evaluation of the right-hand side or an event function, followed by any further calls",
 "No test makes a right-hand side fail.",
 [CORE,BUF,RK,EX,MS],[("cache.push only after a complete step",RK),("AlignedBuffer.push",BUF)],observe=["solver.t","solver.y","solver.cache after a failed call"])
p("C22","A method defined by its coefficients computes its formula",
 "A solver class derived from the method families (explicit Runge-Kutta with or without an embedded formula, first-same-as-last or not; explicit or implicit linear multistep) with any coefficients of valid shape makes the steps that those coefficients describe, controls its step by its own embedded formula, is interpolated by the cubic Hermite polynomial, keeps a history as long as it needs, and is registered as what it is. Coefficients that are not explicit are refused by the explicit family.",
 ["programs","inputs","configurations"],"every coefficient table (any number of stages, of weights of states and of derivatives, and history length), problem, step, tolerances and first stepper",
 "No test defines a method; the families are only exercised by the coefficients of the package.",
 [EX,RK,MS,CORE],[("ERK/FSAL/AdaptiveRungeKutta builders",EX),("ExplicitMultistep/ImplicitMultistep builders",MS),("__init_subclass__",CORE)],observe=["solver.t, y, h, cache after steps","get_solvers"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
try:
    import jsonschema
except ImportError:
    raise SystemExit
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert x['statement'].count('. ')<3,(x['id'])
print(len(P))
