"""What each simulator binary is built from, and what each property's check runs."""

DOMAINS = {
    "qp": dict(sources=["qp_dom.cpp", "qp_type_dense.cpp", "qp_type_sparse.cpp", "qp_type_static.cpp", "qp_type_partial.cpp", "qp_type_static2.cpp"]),
    "sparse": dict(sources=["sp_dom.cpp"]),
    "ipopt": dict(sources=["ip_dom.cpp"], cflags=["-isystem", "/usr/include/coin", "-DHAVE_CSTDDEF"], libs=["-lipopt"]),
    "ctl": dict(sources=["ctl_dom.cpp", "ctl_pid_r2.cpp", "ctl_pid_se2.cpp", "ctl_pid_so3.cpp"], cflags=["-I@/stub"], deps=["stub"]),
    "ekf": dict(sources=["ekf_dom.cpp", "ekf_r2.cpp", "ekf_se2.cpp", "ekf_so3.cpp"], cflags=["-I@/stub"], deps=["stub"]),
    "mesh": dict(sources=["mesh_dom.cpp", "mesh_hist.cpp", "mesh_fun_a.cpp", "mesh_fun_b.cpp", "mesh_fun_c.cpp"], cflags=["-I@/stub", "-fconstexpr-ops-limit=2000000000", "-fconstexpr-loop-limit=100000000"], deps=["stub"]),
    "asif": dict(sources=["asif_dom.cpp"], cflags=["-I@/stub"], deps=["stub"]),
    "osqp": dict(sources=["osqp_dom.cpp", "osqp_sim.cpp"], cflags=["-I@/stub"], deps=["stub"]),
    "flat": dict(sources=["flat_dom.cpp", "flat_a.cpp", "flat_b.cpp", "flat_c.cpp", "flat_d.cpp"], cflags=["-I@/stub"], deps=["stub"]),
    "mpc": dict(sources=["mpc_dom.cpp", "mpc_a.cpp", "mpc_b.cpp", "mpc_c.cpp"], cflags=["-I@/stub", "-fconstexpr-ops-limit=2000000000", "-fconstexpr-loop-limit=100000000"], deps=["stub"]),
}

QP_REAL = ["smooth::feedback::QPSolver and solve_qp (5 instantiations: dense dynamic, sparse, <4,3>, <-1,3>, <3,2>)", "utils/sparse.hpp as used by the sparse solver", "Eigen 3.4"]
QP_STUB = ["steady/system clocks (simulated)", "std::cout device (simulated stream buffer)", "heap (real ASan heap behind a fault-injecting, content-seeding wrapper)", "thread scheduler (seeded, one thread at a time, switches at basic-block boundaries)"]
QP_STATES = "distinct tuples (problem kind, verdict, dimensions, log2 iterations, parameter switches, active set, warm start kind, fault outcome)"


def qp(rule, quick, thorough, **kw):
    return dict(domain="qp", rule=rule, quick=quick, thorough=thorough, real=QP_REAL, stub=QP_STUB, states=QP_STATES, **kw)


STUBS = ["smooth Lie group library (stand-in in /verif/stub)", "rclcpp time types (stand-in)", "heap", "thread scheduler"]

PROPS = {
    "C01": qp("Each run: a seeded history of construct/solve/copy/one-shot calls over up to 4 generated problems, with warm starts (own, optimum, random, far, corrupted), parameter changes and allocation failures; every Optimal/PolishFailed answer is checked against the KKT conditions of the problem just passed.", (6000, 60), (400000, 700),
              note="Seeded search, not exhaustive. Trusts the KKT oracle (dense, double precision, tolerances scaled with data) and that generated problems represent user problems. Fault-free and faulty runs are separate."),
    "C02": qp("Each run: a seeded history over generated infeasible, unbounded and solvable problems with known classification.", (14000, 70), (400000, 700),
              note="Seeded search over problems of known class with margins; detection is demanded only for well-conditioned families, soundness for all."),
    "C03": qp("Each run: solves under simulated clocks with seeded stalls, wall clock steps, slow diagnostics, iteration and time limits.", (8000, 60), (400000, 700),
              note="Seeded search; time is simulated (clock functions wrapped at link time), so real-time performance is not judged."),
    "C04": qp("Each run: a seeded history of solver reuse (re-analysis, copies, moves, assignments, aborted solves, changed fill of fresh memory), every result compared with a fresh solver.", (8000, 60), (400000, 700),
              note="Seeded search; bit-for-bit comparison against fresh solvers in the same binary, so only dependence on history can raise an alarm."),
    "C05": qp("Each run: 2-4 tasks with their own solvers, preempted at seeded basic-block boundaries inside the solver; each task's results compared with the task running alone.", (6000, 60), (300000, 700),
              note="Seeded search over preemption points at basic-block boundaries of instrumented code; sequentially consistent memory (one thread runs at a time)."),
    "C06": qp("Each run: solves with diagnostics on and a stdout device that fails, throws or accepts short writes.", (10000, 60), (400000, 700),
              note="Seeded search over device failures; stdout is the simulated device."),
    "C07": qp("Each run: solver constructions, copies and solves with seeded allocation failures, then retries.", (10000, 60), (400000, 700),
              note="Seeded search over failing allocation indices; excludes allocations inside Eigen containers that are not exception safe (resizing, sparse factorisation), see DESIGN.md."),
    "C08": dict(domain="sparse", quick=(20000, 60), thorough=(2000000, 700),
                rule="Each run: seeded sequences of assembly operations (10 kinds of source, both storage orders, compressed and uncompressed) on 1-2 matrices per task, 1-2 interleaved tasks, sources that fail at a seeded coefficient; every operation is followed by a full comparison with dense arithmetic and the stored pattern.",
                note="Seeded search; oracle is dense double arithmetic with relative tolerance 1e-11; allocation failures are not injected because Eigen's sparse insertion is not exception safe.",
                real=["utils/sparse.hpp", "Eigen 3.4"], stub=["source expressions that fail (simulated caller)", "thread scheduler", "heap fill"],
                states="distinct tuples (operation, source kind, storage order, compressed, dimensions, stored entries)"),
    "C17": dict(domain="ipopt", quick=(6000, 60), thorough=(500000, 700),
                rule="Each run: 1-4 solves or simulated-solver sessions over 1-2 generated nonlinear programs (11 families), with callbacks that throw, run out of memory, return NaN/inf or stall at a seeded evaluation, iteration limits, CPU time limits under a simulated CPU clock, warm starts, and allocation failures; every outcome judged against first-order conditions, the limits, an undisturbed reference call and a repetition afterwards.",
                note="Seeded search. The Ipopt and MUMPS libraries are real but not instrumented (no preemption or allocation faults inside them).",
                real=["compat/ipopt.hpp", "nlp.hpp", "Ipopt 3.11.9 with MUMPS", "Eigen 3.4"], stub=["user functions (generated programs with faults)", "CPU clock (getrusage)", "in the 'drive' operations: Ipopt itself"],
                states="distinct tuples (program family, verdict, dimensions, log2 iterations, Hessian mode, fault kind and callback, warm start kind)"),
    "C09": dict(domain="ctl", quick=(20000, 60), thorough=(2000000, 700),
                rule="Each run: a seeded stream of samples (jitter, duplicates, backward stamps, gaps, clock epochs) to 1-2 controllers per task in one of 8 time representations and 3 groups, with gain, trajectory and integral changes, copies, moves, assignments, failing trajectory functions and failed allocations, 1-2 interleaved tasks; every output compared with the control law evaluated by a model with its own exact clock arithmetic.",
                note="Seeded search; relative tolerance 1e-9 plus the resolution of the time representation. The group library is a stand-in (smooth is not installed).",
                real=["pid.hpp", "time.hpp", "compat/ros.hpp", "Eigen 3.4"], stub=STUBS + ["trajectory functions (generated, with faults)"],
                states="distinct tuples (time representation, group, trajectory kind, sign and size of the elapsed time, integral state, limit)"),
    "C10": dict(domain="ekf", quick=(20000, 60), thorough=(2000000, 700),
                rule="Each run: a seeded stream of propagations (irregular, zero, backward, split), measurements (vector and group valued, uninformative, lost), resets and copies of 1-2 filters per task on R2, SE2 or SO3 with Euler or Runge-Kutta propagation; estimate and covariance after every event compared with the reference recursion.",
                note="Seeded search; reference recursion with its own Jacobians (relative tolerance 1e-6). The group library is a stand-in; its numerical differentiation is used by the filter.",
                real=["ekf.hpp", "boost odeint steppers", "Eigen 3.4"], stub=STUBS + ["model functions (generated, with faults)"],
                states="distinct tuples (operation, group, stepper, measurement kind, magnitude of step and covariance)"),
    "C11": dict(domain="ekf", quick=(20000, 60), thorough=(2000000, 700),
                rule="Each run: a seeded stream of propagations (irregular, zero, backward, split), measurements (vector and group valued, uninformative, lost), resets and copies of 1-2 filters per task on R2, SE2 or SO3 with Euler or Runge-Kutta propagation, with model functions that throw at a seeded evaluation; a failed measurement must leave the filter unchanged, a failed propagation must be repaired by a reset, and the recursion must continue.",
                note="Seeded search; reference recursion with its own Jacobians (relative tolerance 1e-6). The group library is a stand-in; its numerical differentiation is used by the filter.",
                real=["ekf.hpp", "boost odeint steppers", "Eigen 3.4"], stub=STUBS + ["model functions (generated, with faults)"],
                states="distinct tuples (operation, group, stepper, measurement kind, magnitude of step and covariance)"),
    "C12": dict(domain="mpc", quick=(6000, 75), thorough=(400000, 700),
                rule="Each run: a seeded history of calls (jittered, repeated, late, backward and distant in time) to 1-2 controllers per task over 3 problem types (R2, R3, SE2; 3 time representations), with changes of desired trajectories, weights and warm starts, copies, moves, states that violate the constraints, solver iteration and time limits under simulated stalls, and problem functions that fail at a seeded evaluation; every solution compared with an independent transcription solved by an interior point method, and with a newly created controller.",
                note="Seeded search; tolerances scale with the solver accuracy requested (1e-5, 1e-6). Verdicts of infeasibility are judged with a margin.",
                real=["mpc.hpp", "ocp_to_qp.hpp", "qp_solver.hpp", "collocation/mesh.hpp and mesh_function.hpp", "time.hpp", "utils/sparse.hpp", "Eigen 3.4"], stub=STUBS + ["problem and trajectory functions (generated, with faults)", "steady clock (simulated)"],
                states="distinct tuples (verdict, problem type, points, weights set, trajectory kinds, calls made, time)"),
    "C13": dict(domain="mpc", quick=(6000, 75), thorough=(400000, 700),
                rule="Each run: a controller used for a while, then copied (constructed or assigned) into 2-4 objects owned by 1-2 interleaved tasks, which go on changing trajectories and weights, calling, copying, moving and destroying them; every solution of every object compared with an independent transcription of what that object was told.",
                note="Seeded search; preemption at basic-block boundaries, one thread runs at a time.",
                real=["mpc.hpp", "ocp_to_qp.hpp", "qp_solver.hpp", "collocation/mesh.hpp and mesh_function.hpp", "time.hpp", "utils/sparse.hpp", "Eigen 3.4"], stub=STUBS + ["problem and trajectory functions (generated, with faults)", "steady clock (simulated)"],
                states="distinct tuples (verdict, problem type, points, weights set, trajectory kinds, calls made, time)"),
    "C14": dict(domain="asif", quick=(20000, 60), thorough=(2000000, 700),
                rule="Each run: a seeded history of filter calls with random states and desired inputs to 1-2 filters per task over 3 problem types (R2, R3, SE2; 1-3 barrier functions), with changes of safe set and backup controller, copies and moves, step sizes that divide, do not divide or exceed the look-ahead spacing, solver limits under simulated stalls, and problem functions that fail at a seeded evaluation; every filtered input compared with an independently integrated barrier problem solved by an interior point method, and with a newly created filter.",
                note="Seeded search; tolerances scale with the solver accuracy requested. For nonlinear backup dynamics the sensitivity may be stepped before or after the state (both are accepted).",
                real=["asif.hpp", "asif_func.hpp", "qp_solver.hpp", "boost odeint steppers", "Eigen 3.4"], stub=STUBS + ["problem functions (generated, with faults)", "steady clock (simulated)"],
                states="distinct tuples (verdict, look-ahead points, problem type, correction, calls made)"),
    "C15": dict(domain="mesh", quick=(20000, 60), thorough=(2000000, 700),
                rule="Each run: a seeded history of ph refinements, refinements by error estimates (also infinite, NaN and zero-target ones), degree changes and copies of 1-2 meshes per task in one of 5 mesh types, with failing allocations inside refinements and 1-2 interleaved tasks; after every operation the whole mesh is checked (partition, degrees, counts, nodes, weights, differentiation and integration matrices) and compared with a model of the documented refinement; look-ups and interpolation of polynomials in between.",
                note="Seeded search; histories stop refining at 120 intervals or widths below 1e-7. Nodes and weights come from the stand-in group library.",
                real=["collocation/mesh.hpp", "Eigen 3.4"], stub=STUBS, states="distinct tuples (mesh type, operation, number of intervals, first degrees)"),
    "C16": dict(domain="mesh", quick=(12000, 60), thorough=(1000000, 700),
                rule="Each run: a seeded sequence of evaluations (values, Jacobians, Hessians; evaluation, quadrature, dynamics; transcribed optimal control problems) into work memory used before for other times, trajectories, functions and sparsity patterns, compressed or overwritten by the caller, reallocated after mesh changes, copied, or left behind by a callback that failed at a seeded call, and of quadratic programs transcribed once and updated with changing problems; 1-2 interleaved tasks; every result compared with fresh memory and with an independent dense chain-rule computation.",
                note="Seeded search; relative tolerance 1e-12 against fresh memory, 1e-9 against the dense reference. Callbacks have exact derivatives, so differentiation itself is not judged.",
                real=["collocation/mesh_function.hpp", "collocation/mesh.hpp", "ocp_to_nlp.hpp", "ocp_to_qp.hpp", "ocp.hpp", "utils/sparse.hpp", "Eigen 3.4"], stub=STUBS + ["problem functions (generated, with faults)"],
                states="distinct tuples (operation, derivative order, mesh size, uses of the memory, compression, fault)"),
    "C19": dict(domain="mesh", quick=(12000, 60), thorough=(1000000, 700),
                rule="Each run: seeded sequences of conversions between optimal control and nonlinear or quadratic program solutions, on the same and on refined meshes, with the sources overwritten or destroyed afterwards, copies and assignments of solutions, error estimates with failing dynamics, 1-2 interleaved tasks; values compared with an independent Lagrange interpolation.",
                note="Seeded search; relative tolerance 1e-7.",
                real=["ocp_to_nlp.hpp and ocp_to_qp.hpp (solution conversions)", "collocation/dyn_error.hpp", "collocation/mesh.hpp", "Eigen 3.4"], stub=STUBS + ["problem functions (generated, with faults)"],
                states="distinct tuples (operation, mesh, kind of trajectory)"),
    "C18": dict(domain="osqp", quick=(30000, 60), thorough=(3000000, 700),
                rule="Each run: 1-5 calls of the interface per task on generated problems (5 problem types) with random parameters, limits and warm starts, against a simulated OSQP that validates and records what it is given, fails in setup, warm start, solve or at a seeded allocation, or reports any of its outcomes; 1-2 interleaved tasks, two memory contents per call; problem, settings, starting point and outcome compared, memory accounted for, caller's data compared byte by byte.",
                note="Seeded search. OSQP itself is not installed: its C interface (0.6) is simulated, so the behaviour of the real library is trusted to match its documentation.",
                real=["compat/osqp.hpp", "qp.hpp", "Eigen 3.4"], stub=["OSQP (simulated, records its input, fails on command)", "heap", "thread scheduler"],
                states="distinct tuples (problem type, dimensions, failure kind, failing allocation, reported status, limits and switches set)"),
    "C21": dict(domain="flat", quick=(4000, 70), thorough=(400000, 700),
                rule="Each run: a seeded history over 1-3 flattened problems per task (4 pairs of groups: SE2/R2, SO3/R1, R3/R2, SE2/SO3) of evaluations (value, Jacobian, Hessian, pairs of both) of every function, copies, moves, assignments and destructions, with the original problem and trajectories kept, destroyed or overwritten, and user functions and trajectories that fail at a seeded call; 1-2 interleaved tasks; every result compared with the definition of the change of variables (values directly, derivatives by differencing it), with a fresh flattened problem, and every derivative handed out checked to stay unchanged while other problems are used; solutions mapped back are compared after their sources are gone.",
                note="Seeded search; trajectories have constant velocity (the code documents that higher derivatives are ignored), tangent components are below 0.8 (the Hessian series is truncated). Relative tolerances 1e-7 (values), 1e-6 (Jacobians), 1e-5 (Hessians), 1e-11 against fresh objects. The group library is a stand-in.",
                real=["ocp_flatten.hpp", "ocp.hpp", "utils/sparse.hpp", "Eigen 3.4"], stub=STUBS + ["problem functions and trajectories (generated, with faults)"],
                states="distinct tuples (function, derivative, evaluations before, distance from the trajectory, groups)"),
    "C22": dict(domain="flat", quick=(12000, 60), thorough=(1000000, 700),
                rule="Each run: the derivative checker on generated problems (4 pairs of groups, 3 sets of available derivatives) under a seeded random generator, with correct derivatives or one wrong derivative (an entry off, a NaN, a wrong size) in a seeded function and order, a standard output that is full or throws, and functions that fail at a seeded call.",
                note="Seeded search; wrong entries are off by at least 0.5.",
                real=["ocp.hpp (test_ocp_derivatives)", "Eigen 3.4"], stub=STUBS + ["problem functions (generated, with faults)", "rand() (seeded)", "std::cout device"],
                states="distinct tuples (function, order, kind of error, trials, derivatives available)"),
    "C20": dict(domain="ctl", quick=(40000, 60), thorough=(4000000, 700),
                rule="Each run: histories of clock advances, steps, epochs and measurements in up to 3 of 18 time representations, checked against exact integer arithmetic, or the same controller sample stream replayed in 7 representations with the outputs compared.",
                note="Seeded search; ranges keep a factor 4 away from overflow of the representation. rclcpp is a stand-in.",
                real=["time.hpp", "compat/ros.hpp", "pid.hpp (comparison runs)", "std::chrono"], stub=STUBS,
                states="distinct tuples (representation, operation, sign and magnitude of the time, magnitude and sign of the increment)"),
}

# properties this technique cannot decide, with the reason
NA = {
    "C30": "Derivative formulas are pure functions of their arguments: no state, time, I/O, concurrency or fault can influence them, so simulation would only be input sampling of a numerical identity (their evaluation through reused storage and after faults is covered by C16 and C21, which compare with the exact derivatives).",
    "C31": "Exactness of quadrature and differentiation is a pure function of the mesh (its history is covered by C15 and C16).",
    "C32": "Transcription is a pure function of the problem; the stateful parts (reuse of the transcribed problem and work memory) are covered by C12 and C16.",
}
