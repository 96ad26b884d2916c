"""Writes /verif/properties.jsonl (kept as code so that long texts stay readable)."""
import json, pathlib

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": list(files),
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


TR = "magpi/tr.py"

prop(
    "C01", "Optimizer state always describes the parameters it is returned with",
    "After every trust-region initialisation, update or run - accepted, rejected, warm-restarted, preceded by failed evaluations, "
    "or fed different data on each call - the reported objective value, gradient and auxiliary output are ones the objective actually "
    "produced at exactly the returned parameters with the data of that call, and the reported error is the norm of that gradient. "
    "A rejected step returns the incoming parameters bit for bit, an accepted one returns them displaced by exactly the reported step, and an update of an optimizer whose radius has collapsed returns everything unchanged.",
    ["histories", "fault_sequences", "configurations", "inputs"],
    "for every objective, parameter tree, solver option (value_and_grad, has_aux, exact or finite-difference curvature, damping), every sequence of "
    "accepted/rejected steps, restarts and per-call data, and every pattern of failing evaluations",
    "test_tr.py runs four smooth objectives to convergence and looks only at the last state; it never inspects a rejected step, changing data, "
    "a non-finite evaluation or a warm restart.",
    [TR, "magpi/utils.py", "magpi/calc.py"],
    [("accept / reject branches of TR.update", TR), ("init_state", TR), ("make_funs_with_aux", "magpi/utils.py"), ("value_grad_hvp", "magpi/calc.py")],
    [("TrState", "snapshot handed to the caller", TR)],
    ["return values of TR.init_state, TR.update and TR.run", "evaluations served to the objective"],
)
prop(
    "C02", "Failed or unhelpful evaluations never move the optimizer's parameters",
    "Whatever mix of NaN, infinite and ordinary evaluations (values, gradients or curvature products) the objective returns, the trust-region "
    "optimizer only ever moves to a point whose objective value was evaluated, is not NaN and is lower than the value at the point it leaves (with a threshold of zero: not higher). "
    "It moves exactly when the ratio of actual to model-predicted reduction reaches the acceptance threshold, so returned parameters are always finite "
    "and, for fixed data, never worse than the starting ones.",
    ["fault_sequences", "histories", "configurations", "inputs"],
    "for every objective, starting point and threshold setting, and every placement of non-finite values, gradients or curvature products",
    "the tests contain no failing evaluation and never look at an intermediate step; the acceptance decision is only exercised on problems where every step is good.",
    [TR],
    [("ratio test and accept/reject selection in TR.update", TR)],
    [("TrState.accepted / rho", "decision taken for the last step", TR)],
    ["parameters returned by TR.update / TR.run"],
)
prop(
    "C03", "The trust radius follows its control law over every history",
    "No step of the trust-region optimizer is longer than the radius in force, and the radius always stays between the configured minimum and maximum. "
    "After each step it shrinks by the decrease factor (not below the minimum) exactly when the reduction ratio is below the decrease threshold or the trial value "
    "came back NaN, grows by the increase factor (not above the maximum) exactly when the ratio exceeds the increase threshold and the step reached the boundary, and is otherwise unchanged; "
    "once it has collapsed to the minimum, updates change nothing at all until a warm restart, which restores the initial radius.",
    ["histories", "fault_sequences", "configurations"],
    "for every sequence of good, bad and failing steps, every radius/threshold/factor configuration and every placement of warm restarts",
    "tests check the final radius of two runs (always at the maximum); shrinking, clipping at the minimum, collapse and reset after restart never occur in them.",
    [TR],
    [("update_tr_radius", TR), ("no_update branch", TR), ("init_state on an OptStep", TR), ("limit_step in steihaug", TR)],
    [("tr_radius", "radius in force for the next step", TR)],
    ["TrState.tr_radius, rho, subproblem_result across consecutive updates"],
)
prop(
    "C04", "Optimisation can be interrupted and resumed at any step without trace",
    "The pair (parameters, state) returned by an update is the complete state of a trust-region optimisation: continuing from a saved copy of it, in a new solver object, "
    "after other optimisations ran on the same solver object, or after an aborted call, yields the same remaining trajectory as never having stopped. "
    "A whole run takes the same steps as driving the updates one by one, in every execution mode (compiled, unrolled, plain Python), and a warm restart from a saved step keeps the parameters and "
    "a non-collapsed radius and continues the iteration count.",
    ["crash_points", "histories", "schedules", "configurations"],
    "for every crash point, every number of crashes and every interleaving of several optimisations over shared solver objects",
    "no test interrupts, resumes or interleaves an optimisation; each solver object is used for exactly one run.",
    [TR],
    [("TR.update as a function of (params, state, data)", TR), ("init_state on an OptStep", TR)],
    [("TrState", "all the state that must survive", TR)],
    ["TR.update / TR.run / TR.init_state"],
)
prop(
    "C05", "The progress callback sees every optimizer step exactly once and in order",
    "When a callback is configured, it is invoked exactly once for every step the trust-region optimizer takes (accepted or rejected), in step order, with the same parameters and state that step returns, "
    "and never for an update that does nothing because the radius has collapsed; the last notification of a run equals the run's result. "
    "A callback that raises stops the run at that step with an error, receives nothing further, and leaves the solver usable with unchanged results.",
    ["histories", "fault_sequences", "schedules", "configurations"],
    "for every run, stepping history, execution mode and every step at which the callback fails",
    "no test sets a callback; delivery happens from compiled code, where order, multiplicity and failure behaviour do not follow from reading the Python code.",
    [TR],
    [("io_callback in TR.update", TR)],
    [],
    ["arguments received by the callback", "exceptions from TR.run / TR.update"],
)
prop(
    "C06", "After evaluation failures stop, the optimizer still converges",
    "On a convex objective with reachable tolerance, once failing evaluations (NaN or infinite values, gradients or curvature products, raised errors) stop, or if they only occur outside a region around the minimiser, "
    "the trust-region optimizer reaches the gradient tolerance within a bounded number of further steps. "
    "At most warm restarts of a collapsed radius are needed; no earlier failure leaves the optimizer permanently stuck or poisoned.",
    ["fault_sequences", "histories", "configurations"],
    "for every finite sequence of evaluation failures placed anywhere in the history, and for objectives undefined in part of the space",
    "the tests contain no failing evaluation at all, so recovery is never exercised.",
    [TR],
    [("radius reduction after a failed trial", TR), ("forcing-term bookkeeping carried in the state", TR)],
    [("subproblem_result.eps", "forcing term carried from step to step", TR)],
    ["TrState.error along the history"],
)
prop(
    "C07", "An epoch deals every data row at most once, with all inputs aligned",
    "Every epoch of mini-batches without replacement contains exactly floor(N / batch size) full batches in which no row occurs twice, and every row gets its turn over repeated epochs or draws. "
    "In every batch - with or without replacement - the entries of all arrays of the data tree come from the same rows of the input and nothing else; without replacement within a batch, its rows are distinct. "
    "This holds for every consumer of every batch iterator no matter how consumers are interleaved, aborted, fed changing data or restarted, and arrays whose lengths disagree are refused instead of being dealt misaligned.",
    ["schedules", "fault_sequences", "inputs", "histories"],
    "for every data tree, batch size, epoch count, key and interleaving of several iterators with failing batch functions and early termination",
    "there is no test of the batch functions or the iterator at all.",
    ["magpi/opt.py"],
    [("batches_without_replacement", "magpi/opt.py"), ("batches_with_replacement", "magpi/opt.py"), ("make_iterator", "magpi/opt.py"), ("axis_size", "magpi/opt.py")],
    [],
    ["batches yielded by make_iterator", "return values of the batch functions"],
)
prop(
    "C08", "A batch stream is a replayable function of its key alone",
    "Two iterators built from the same key and batch function yield the same stream, whatever other iterators do in between, however the consumer is interrupted, and whether per-batch random keys are requested or not; "
    "running for more epochs extends the stream without changing its beginning. "
    "All random keys a stream hands out - to the batch function once per epoch and to the consumer with each batch - are distinct from each other and from the stream's own key, none is obtained by splitting another one, and different keys or epochs give different shuffles.",
    ["schedules", "fault_sequences", "histories", "inputs"],
    "for every key, epoch count, interleaving of iterators, and every crash point followed by a restart that skips what was already consumed",
    "there is no test of the iterator at all.",
    ["magpi/opt.py"],
    [("key splitting in make_iterator", "magpi/opt.py"), ("key splitting in batches_with_replacement", "magpi/opt.py")],
    [("key", "stream state", "magpi/opt.py")],
    ["batches and keys yielded by make_iterator", "keys received by the batch function"],
)
prop(
    "C09", "Rejection sampling returns only genuine, acceptable proposals",
    "Every sample returned by rejection sampling is one single proposal of the proposal function, complete and unmodified, drawn with a random key used for no other returned sample. "
    "Its density evaluated to a positive number: a proposal whose density is zero, negative or NaN is never returned, even when the internal uniform draw takes its extreme value or density evaluations fail sporadically.",
    ["fault_sequences", "inputs", "histories"],
    "for every key, density, proposal function (any tree of arrays), number of samples, and every pattern of failing density evaluations and boundary random draws",
    "two tests check one key each on a disc; boundary draws have probability 1e-7 per proposal and failing densities are never tried.",
    ["magpi/sampling.py"],
    [("acceptance test in the retry loop", "magpi/sampling.py")],
    [],
    ["return value of rejection_sampling", "proposals made and density evaluations served"],
)
prop(
    "C10", "Rejection sampling is fair, independent per sample, and always finishes",
    "The samples follow the requested density (relative to the proposal distribution and the bound m) and are independent of one another: retries, slow acceptance or failing density evaluations for one sample never change any other sample. "
    "As long as acceptable proposals keep being made the sampler finishes, each round proposing afresh, with acceptance probability density/m per proposal.",
    ["fault_sequences", "schedules", "inputs"],
    "for every density and proposal function, and every pattern in which some samples need many more retries than others, including outages of the density that end",
    "existing tests check support only, for one density and key; no frequency, no cross-sample interference and no outage is ever examined.",
    ["magpi/sampling.py"],
    [("per-sample retry loop with its own key stream", "magpi/sampling.py")],
    [],
    ["return value of rejection_sampling", "density evaluations served per round"],
)
prop(
    "C11", "An ODE integration can be cut at any time point and resumed",
    "Integrating over a list of time points gives, up to rounding, the same states as integrating up to any of them, saving only the state reached there, and starting again from it with the remaining time points - any number of times, for any state tree, precision, step sizes, direction of time and method, built in or supplied by the user. "
    "Dropping or adding later time points never changes earlier states, the first state is the given initial value, and a repeated time point repeats its state.",
    ["crash_points", "histories", "inputs", "configurations"],
    "for every dynamics, every strictly or non-strictly monotone or irregular list of time points, every crash point set and unroll factor",
    "there is no test of the ODE module at all.",
    ["magpi/ode.py"],
    [("scan carry (state, previous time)", "magpi/ode.py")],
    [("(y, t_prev)", "everything a step may depend on", "magpi/ode.py")],
    ["return value of odeint"],
)
prop(
    "C12", "ODE steps follow the classical schemes under time-varying disturbances",
    "Each state follows from the previous one by the classical fourth-order Runge-Kutta (default) or explicit Euler step over the interval between the two time points, with the dynamics evaluated at that interval's own times. "
    "In particular, switching, pulsing or failing (NaN) dynamics influence exactly the steps whose evaluation times they cover: nothing that happens to the dynamics after a time point can change the states up to it.",
    ["fault_sequences", "histories", "inputs", "configurations"],
    "for every time-dependent dynamics, state tree, irregular time grid and schedule of disturbances, outages and clock jumps",
    "there is no test of the ODE module; time-dependent dynamics are never used.",
    ["magpi/ode.py"],
    [("rk4 / explicit_euler stage times", "magpi/ode.py"), ("step function of odeint", "magpi/ode.py")],
    [],
    ["return value of odeint", "times at which the dynamics are evaluated"],
)
prop(
    "C13", "Library calls do not interfere with each other",
    "The result of any library call depends only on its arguments: it is the same when calls from several threads are interleaved at the points where the library calls back into user functions, when earlier calls (with other functions, shapes or values) preceded it, "
    "when earlier calls were aborted by an exception from a user function, and when an operator, geometry, model or solver object built once is used many times or shared. "
    "An exception raised by a user function reaches the caller, and no call modifies its arguments (arrays, lists and the elements in them, user functions) or process-wide settings.",
    ["schedules", "histories", "fault_sequences", "programs"],
    "for every interleaving of client threads at callback boundaries, every program of library calls over all modules, and every callback at which a user function raises",
    "each test performs isolated single-threaded calls on fresh objects and never aborts one.",
    ["magpi/calc.py", "magpi/domain.py", "magpi/integrate.py", "magpi/model.py", "magpi/ode.py", "magpi/quaternions.py", "magpi/r_fun.py", "magpi/sampling.py",
     "magpi/spline.py", "magpi/surface_integral.py", "magpi/tr.py", "magpi/opt.py"],
    [("absence of mutable module, object and closure state", "all modules"), ("jit caches keyed on static arguments", "magpi/spline.py, magpi/surface_integral.py, magpi/calc.py")],
    [],
    ["return values, exceptions and arguments of public functions"],
)
prop(
    "C14", "A corrupted entry of a batch never contaminates the other entries",
    "When library functions are applied to a batch - domain and boundary transformations, membership tests, spline bases and spline activations, neural network models, batched ODE states, and any geometry, model, differential operator, quaternion rotation, surface potential or optimisation mapped over points - "
    "an entry that is NaN, infinite or wildly out of range affects only its own outputs. "
    "All other entries get the results they would have got without it, and results do not depend on the order or the number of entries in the batch.",
    ["fault_sequences", "inputs", "configurations"],
    "for every batch, every set of corrupted entries and corruption kinds, every batch order and split",
    "tests use clean batches only and check aggregate facts such as bounds and shapes.",
    ["magpi/domain.py", "magpi/spline.py", "magpi/model.py", "magpi/ode.py", "magpi/r_fun.py", "magpi/calc.py", "magpi/quaternions.py"],
    [("row-wise formulation of transformations", "magpi/domain.py"), ("vectorised Cox-de Boor recursion", "magpi/spline.py"), ("vmap-compatible formulation of operators", "magpi/calc.py, magpi/r_fun.py")],
    [],
    ["return values of batched public functions"],
)
prop(
    "C15", "All randomness comes from the caller's key",
    "Every randomised entry point - network and spline initialisation, mini-batching, rejection sampling - returns the same result for the same key and arguments at every call, in every process, whatever the state of the clock, the hash seed, the environment, "
    "global random generators and previous calls; it does not disturb the global generators either. "
    "A different key gives a different result wherever randomness is involved, and entries that are meant to be random (weights of distinct layers, distinct samples, distinct epochs) are not copies of each other.",
    ["schedules", "fault_sequences", "histories", "inputs"],
    "for every key and argument, every perturbation of the ambient sources of entropy and time, and every call history",
    "tests call each entry point once with one fixed key in one process.",
    ["magpi/model.py", "magpi/spline.py", "magpi/sampling.py", "magpi/opt.py"],
    [("explicit key splitting", "magpi/model.py, magpi/sampling.py, magpi/opt.py"), ("flax initialisers", "magpi/model.py, magpi/spline.py")],
    [],
    ["return values of randomised public functions"],
)
prop(
    "C16", "The subproblem solver keeps to its radius and budget and reports honestly",
    "Whatever finite curvature products it is served - positive, indefinite, zero, huge, noisy or inconsistent - the truncated conjugate-gradient solver returns a step no longer than the radius, asks for at most the permitted number of products, stops at the first one showing non-positive curvature by going along it to the boundary, and reports exactly the step's length, the number of products used and whether the boundary was reached. "
    "With consistent products it also achieves at least the model decrease of the best step along the negative gradient (and, staying inside the radius on a well-conditioned positive definite model, that of the best step in the space its products explored), converges on well-conditioned positive definite problems within the default budget, and whenever it reports convergence without boundary or non-positive curvature the residual is below the requested tolerance.",
    ["fault_sequences", "inputs", "configurations"],
    "for every gradient tree, radius, tolerance, iteration limit, execution mode and every sequence of curvature answers",
    "six tests on one- and two-dimensional positive definite quadratics; no negative, zero, noisy or inconsistent curvature and no exhausted budget.",
    [TR],
    [("steihaug", TR), ("limit_step", TR)],
    [],
    ["CgSteihaugResult", "curvature products requested"],
)

# ---- properties that are pure functions of their input: not decidable by deterministic simulation
prop(
    "N01", "Differential operators equal the mathematical derivatives",
    "Derivative, Jacobian, Laplacian, divergence, curl and Hessian-vector-product operators return the mathematical derivatives of the function they are applied to, for every differentiable function, argument selection and output tree.",
    ["inputs", "programs"], "for every differentiable function, point and argument selection",
    "a handful of functions and points.", ["magpi/calc.py"],
    [("forward-mode AD wrappers", "magpi/calc.py")], observe=["return values"],
)
prop(
    "N02", "Quadrature rules are exact to their order on every grid",
    "Midpoint, trapezoidal, Simpson and Gauss rules integrate polynomials up to their order exactly on every (non-uniform) tensor grid, and disk and sphere integrals use the right volume element for every angular and radial range.",
    ["inputs"], "for every grid, dimension, polynomial and angular range", "three integrals.", ["magpi/integrate.py"],
    [("quadrature rules", "magpi/integrate.py")], observe=["return values"],
)
prop(
    "N03", "R-function geometry has the sign of the set-theoretic expression",
    "For every system of R-functions and every Boolean combination and rigid motion of shapes, the resulting distance function is positive inside, zero on the boundary of and negative outside the corresponding set, and is normalised to first order where promised.",
    ["inputs", "programs"], "for every CSG expression and point", "a dozen shapes and points.", ["magpi/r_fun.py"],
    [("RFun systems and transformations", "magpi/r_fun.py")], observe=["return values"],
)
prop(
    "N04", "Domain transformations are onto, uniform and stay inside the domain",
    "Every domain transformation maps the unit cube uniformly onto the domain (or its boundary), and support, membership and normal vectors agree with the domain's geometry.",
    ["inputs"], "for every domain and sample", "bounds on one sample per transformation.", ["magpi/domain.py"],
    [("transform_* functions", "magpi/domain.py")], observe=["return values"],
)
prop(
    "N05", "Quaternion algebra and rotations obey their laws",
    "Quaternion products, inverses, powers, exponentials and logarithms satisfy the algebra's identities, and rotations are isometries consistent between axis-angle, Euler-angle and 2d/3d geometry conventions.",
    ["inputs"], "for all quaternions, axes and angles", "about twenty fixed examples.", ["magpi/quaternions.py"],
    [("Quaternion", "magpi/quaternions.py")], observe=["return values"],
)
prop(
    "N06", "Imposed initial and boundary conditions hold exactly",
    "A model with imposed Dirichlet, Neumann or initial conditions satisfies them exactly on the boundary or at the initial time for every model, geometry, condition and argument selection.",
    ["inputs", "programs"], "for every model, distance function and boundary point", "five fixed examples.", ["magpi/model.py"],
    [("impose_* combinators", "magpi/model.py")], observe=["return values"],
)
prop(
    "N07", "Spline bases are non-negative, local and sum to one inside the grid",
    "For every increasing grid and degree the B-spline basis is non-negative, vanishes outside its knot span and sums to one in the interior of the grid; grids start, end and are spaced as requested.",
    ["inputs"], "for every grid, degree and point", "three degrees on one grid.", ["magpi/spline.py"],
    [("Cox-de Boor recursion", "magpi/spline.py")], observe=["return values"],
)
prop(
    "N08", "Single-layer potentials converge to the surface integral",
    "Source and charge tensors combine to single-layer potentials (and their curl) that converge to the surface integral of charge over distance with the order of the Taylor expansion, for every parametrised surface and target point.",
    ["inputs"], "for every surface, charge, order and target point", "no test at all.", ["magpi/surface_integral.py"],
    [("source_tensor / charge_tensor", "magpi/surface_integral.py")], observe=["return values"],
)
prop(
    "N09", "Gradients through ODE solves equal those of the unrolled computation",
    "Forward- and reverse-mode derivatives through an ODE integration equal the derivatives of the same steps written out, for every dynamics, method and unroll factor.",
    ["inputs", "programs"], "for every dynamics, initial value and parameter", "no test at all.", ["magpi/ode.py"],
    [("checkpointed scan", "magpi/ode.py")], observe=["derivatives of odeint"],
)

out = pathlib.Path(__file__).resolve().parents[1] / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P), "properties")
