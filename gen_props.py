#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay readable)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=["parallel_control/" + f for f in files],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where="parallel_control/" + w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "Associative scan returns every prefix (or suffix) in order",
 "For every non-empty list and every associative, possibly non-commutative, operator, the simulated parallel scan returns a list of the same length whose k-th entry is the ordered combination of entries 1..k (of entries k..n when reversed). It only ever combines values that cover adjacent ranges, left operand first, so the result does not depend on the order in which the parallel loop iterations run, and it leaves the caller's list unchanged.",
 ["inputs", "schedules"], "every list length >= 1 (powers of two or not), every associative operator, both directions, every execution order of the iterations inside one parallel level",
 "The tests scan a few arrays with one commutative and one matrix operator at one length; they reach no other length, no second direction at odd lengths, and no other order of the loop iterations.",
 ["my_assoc_scan.py"], [("up pass, down pass, extra pass with None padding", "my_assoc_scan.py:my_assoc_scan")],
 ["return value of my_assoc_scan", "sequence of operator calls"])

prop("C02", "Sequential finite-state control returns the exact dynamic program",
 "For every finite-state control problem (any numbers of states, controls and stages, stage-dependent transitions and costs, any initial state), the backward pass returns for each stage and state the minimum achievable cost-to-go and an action attaining it. The forward pass then produces a trajectory that starts at the given state, obeys the transition table, and whose total cost, as also reported by the cost evaluation, equals that minimum; the exhaustive batch solution reports the same minimum with a trajectory attaining it, and simulation of any control sequence follows the table.",
 ["inputs", "configurations"], "all transition tables, all finite real or integer cost tables (ties included), all horizons, all initial states",
 "One 9-stage, 3-state problem with a time-invariant transition table, a unique optimum, non-negative costs and one initial state is all the tests evaluate.",
 ["fsc_np.py"], [("Bellman recursion", "fsc_np.py:FSC.seqBackwardPass"), ("policy roll-out", "fsc_np.py:FSC.seqForwardPass"), ("enumeration", "fsc_np.py:FSC.batch_solution"), ("cost", "fsc_np.py:FSC.cost")],
 ["return values of the FSC methods"])

prop("C03", "Parallel finite-state control agrees with the dynamic program (NumPy)",
 "For every finite-state control problem the parallel backward pass returns the same minimal costs-to-go as the sequential one and an action attaining them in every state. The parallel forward pass reproduces the trajectory that the given policy generates, and both value-function based forward passes return the optimal trajectory and controls whenever that optimum is unique; the element combinations used by the passes are associative.",
 ["inputs", "configurations", "schedules"], "all problems as in C02, all horizons including 1 and non-powers of two, all initial states, any policy for the forward pass",
 "The tests compare one problem of one length; other lengths, stage-dependent transitions, ties and unreachable states are never run.",
 ["fsc_np.py", "my_assoc_scan.py"], [("min-plus elements and scan", "fsc_np.py:FSC.parBackwardPass"), ("function composition scan", "fsc_np.py:FSC.parForwardPass"), ("forward values", "fsc_np.py:FSC.parFwdBwdPass, parFwdBwdPass2")],
 ["return values of the FSC par* methods and combine_V/combine_f"])

prop("C04", "TensorFlow finite-state control equals the dynamic program",
 "Every TensorFlow backward pass (sequential or parallel) returns for each stage and state the minimum cost-to-go and an action attaining it; every forward pass returns a trajectory starting at the given state that follows the transition tables under the returned controls and is the one the given policy generates (for the value-function based pass: the optimal one, when unique). The result does not depend on the declared maximum parallelism as long as it covers the problem.",
 ["inputs", "configurations"], "all tables, costs, horizons >= 1, initial states, and admissible max_parallel values",
 "The tests run a single problem; horizon 1, other maximum parallelism and stage-dependent transitions are not reached.",
 ["fsc_tf.py"], [("tf.scan recursion", "fsc_tf.py:fsc_seq_backwardpass"), ("tfp scan_associative", "fsc_tf.py:fsc_par_backwardpass, fsc_par_forwardpass, fsc_par_fwdbwdpass")],
 ["return values of the fsc_*pass functions", "fsc_np_to_tf"])

prop("C05", "Viterbi decoding returns a maximum a posteriori path (NumPy)",
 "For every hidden Markov model with positive probabilities and every observation sequence, each NumPy Viterbi routine returns a state path of length T+1 whose joint probability with the observations is maximal (decoders that pick each state separately from value functions: whenever that path is unique), and per-step value vectors consistent with the max-product recursion it documents. The conversion to a finite-state control problem and back preserves the path and the log-probability.",
 ["inputs", "configurations"], "all priors, transition and observation matrices with positive entries, all sequence lengths >= 1; for routines that decide per time step the maximum is assumed unique",
 "The tests decode one or two models at one length with a symmetric transition structure.",
 ["viterbi_np.py", "fsc_np.py"], [("max-product recursions", "viterbi_np.py:ref_viterbi, ref_viterbi_log, ref_viterbi_log_v2"), ("conversion", "viterbi_np.py:getFSC, fscToViterbi"), ("FSC based decoders", "viterbi_np.py:seqViterbi, parBwdFwdViterbi, parBwdFwdBwdViterbi")],
 ["return values of the Viterbi_np methods"])

prop("C06", "Viterbi decoding returns a maximum a posteriori path (TensorFlow)",
 "For every hidden Markov model with positive probabilities and every observation sequence, each TensorFlow Viterbi routine - through the finite-state control conversion, or directly by sequential, parallel and mixed forward/backward max-sum passes - returns a state path of length T+1 of maximal joint probability (if it picks each state separately: whenever that path is unique) together with value vectors equal to the corresponding optimal path scores. All routines agree with each other when the optimum is unique.",
 ["inputs", "configurations"], "all models with positive entries, all lengths >= 1; unique optimum for routines deciding per time step",
 "The tests use one model and a few lengths; length 1, larger alphabets and asymmetric matrices are never decoded.",
 ["viterbi_tf.py", "fsc_tf.py"], [("conversion", "viterbi_tf.py:make_viterbi_fsc"), ("scans", "viterbi_tf.py:viterbi_seq_fwbw, viterbi_par_fwbw, viterbi_seqpar_fwbw, viterbi_par_fwbwfw")],
 ["return values of the viterbi_* functions"])

prop("C07", "Sequential LQ tracking returns the exact optimum",
 "For every linear quadratic tracking problem with affine dynamics and general time-varying quadratic cost (state, control and cross weights, references, output matrices, control offsets, control maps), the backward pass returns the quadratic value function of the optimal cost-to-go and the optimal affine control law at every step. The forward pass follows the dynamics under that law from any initial state, the resulting sequence minimises the reported cost over all control sequences, and simulation and cost evaluation match the problem definition.",
 ["inputs", "configurations"], "all horizons, dimensions and problem matrices with positive definite effective control weight and non-negative costs, all initial states",
 "The tests check a few fixed time-invariant instances against one another in floating point; general costs (cross terms, offsets, non-identity maps) are combined only once.",
 ["lqt_np.py"], [("Riccati recursion", "lqt_np.py:LQT.seqBackwardPass"), ("closed-loop roll-out", "lqt_np.py:LQT.seqForwardPass"), ("cost", "lqt_np.py:LQT.cost"), ("simulation", "lqt_np.py:LQT.seqSimulation")],
 ["return values of the LQT methods"])

prop("C08", "Parallel, transformed and batch LQ tracking equal the sequential optimum",
 "For every linear quadratic tracking problem the parallel backward pass returns the same value functions and control laws as the sequential one, the parallel forward passes return the same states and controls, the transformed recursion returns the same control law, and the batch least-squares solution returns the same optimal sequence. The element combination rules behind the parallel passes are associative and the passes are correct for every horizon.",
 ["inputs", "configurations", "schedules"], "all problems as in C07 (the transformed recursion: identity control maps), all horizons >= 1",
 "The tests compare single fixed-length instances; most lengths and general cost structures are never combined.",
 ["lqt_np.py", "my_assoc_scan.py"], [("combination", "lqt_np.py:combine_abcej, combine_fc"), ("parallel passes", "lqt_np.py:LQT.parBackwardPass, parForwardPass, parFwdBwdPass, parFwdBwdPass2"), ("batch", "lqt_np.py:LQT.batchSolution"), ("transform", "lqt_np.py:LQT.seqTransformedBackwardPass")],
 ["return values of the LQT methods", "combine_abcej", "combine_fc"])

prop("C09", "TensorFlow LQ tracking equals the exact optimum in both forms",
 "All TensorFlow linear quadratic tracking passes (sequential, parallel, forward-backward) return the exact optimal value functions, control laws, states and controls for time-varying problems, and the cost function returns the cost of any trajectory. Converting a general-cost problem to canonical form, solving it and converting the control law back gives the optimum of the general problem.",
 ["inputs", "configurations"], "all problems as in C07, horizons >= 1, admissible max_parallel values",
 "The tests use a few fixed instances compared with the NumPy code.",
 ["lqt_tf.py"], [("scans", "lqt_tf.py:lqt_seq_backwardpass, lqt_par_backwardpass, lqt_par_forwardpass, lqt_par_fwdbwdpass"), ("canonical form", "lqt_tf.py:lqt_gen_to_canon, lqt_canon_to_gen"), ("cost", "lqt_tf.py:lqt_cost")],
 ["return values of the lqt_* functions", "lqt_np_to_tf, lqt_np_to_tf_gen"])

prop("C10", "LQ regulator: finite horizon, iteration, doubling and Riccati limit agree",
 "For the time-invariant linear quadratic regulator, the finite-horizon passes (sequential and parallel) return the optimal value matrices, gains, states and controls; the n-step fixed-point iteration (n >= 1), which starts from the stage weight, returns the value matrix and gain of the n-stage problem with that terminal weight; n doublings (n >= 0) return the value matrix of the 2^n-stage problem without terminal cost and the gain that is optimal before it. For stabilisable problems all of them converge to the solution reported by the algebraic Riccati solver, which satisfies the Riccati fixed-point equation with its gain.",
 ["inputs", "histories"], "all dimensions and weights, horizons and iteration counts admitted by the routines",
 "The tests use one double-integrator-like model and only compare limits with the library solver.",
 ["lqt_np.py"], [("Riccati", "lqt_np.py:LQR.seqBackwardPass, parBackwardPass"), ("stationary solvers", "lqt_np.py:LQR.lqrDare, lqrIter, lqrDouble")],
 ["return values of the LQR methods"])

prop("C11", "Condensing preserves the LQ tracking problem for every block size",
 "For every linear quadratic tracking problem and every block size, including ones that do not divide the horizon, solving the partially condensed problem and mapping its solution back yields the optimal states and controls of the original problem, in the NumPy and the TensorFlow version. The condensed problem has the expected number of blocks and its costs-to-go equal the original ones at the block boundaries.",
 ["inputs", "configurations"], "all horizons T, block sizes Nc >= 1, time-varying problems of the class the condenser supports for which the condensed problem is well defined",
 "The tests use two models with a handful of (T, Nc) pairs.",
 ["condensing_np.py", "condensing_tf.py"], [("condense", "condensing_np.py:LQTCondenser.condense; condensing_tf.py:condense"), ("back-conversion", "condensing_np.py:LQTCondenser.convertUX; condensing_tf.py:convertUX")],
 ["condensed problem, converted states and controls"])

prop("C12", "Iterated nonlinear LQ tracking performs the documented linearised step",
 "One iteration linearises the dynamics along the current trajectory, solves the resulting affine tracking problem exactly and returns its optimal controls with the corresponding state trajectory, identically for the sequential and the two parallel variants, in NumPy and TensorFlow; for affine dynamics one iteration gives the exact optimum, and a fixed point satisfies the first-order optimality conditions. Simulation follows the dynamics and the reported cost is that of the given trajectory.",
 ["inputs", "histories"], "all smooth dynamics, nominal trajectories, horizons and iteration sequences",
 "The tests iterate one unicycle model from one start and compare norms with one another.",
 ["nlqt_np.py", "nlqt_tf.py"], [("linearise", "nlqt_np.py:NLQT.linearize; nlqt_tf.py:nlqt_linearize"), ("iterate", "nlqt_np.py:NLQT.iterate; nlqt_tf.py:nlqt_iterate_seq, nlqt_iterate_par_1, nlqt_iterate_par_2")],
 ["return values of linearize, iterate, simulate, cost"])

prop("C13", "Equality-constrained SQP solves QPs exactly and reports only KKT points",
 "The equality-constrained QP solver returns a feasible minimiser with its multipliers; local SQP on a problem with quadratic cost and linear constraints reaches the exact solution after one full step, and whenever a solver stops by its tolerance (below one) the returned point satisfies the first-order conditions within that tolerance. Quasi-Newton updates keep the Hessian approximation symmetric, satisfy the secant condition (basic) or remain positive definite (damped), and batched TensorFlow solves equal the individual ones.",
 ["inputs", "histories"], "all strictly convex QPs with full-rank constraints, smooth problems near a regular solution, all update pairs",
 "The tests solve a few textbook problems and check the final point only.",
 ["sqp_np.py", "sqp_tf.py"], [("KKT solve", "sqp_np.py:lqe_solve; sqp_tf.py:lqe_solve"), ("Newton-SQP", "sqp_np.py:local_eq, local_eq_fast; sqp_tf.py:local_eq_fast"), ("BFGS", "sqp_np.py:bfgs_basic_update, bfgs_damped_update, bfgs_eq_bt")],
 ["return values"])

prop("C14", "Runge-Kutta steps and LTI discretisation are exact to their definition",
 "Every call form of the NumPy and TensorFlow Runge-Kutta integrators (with or without time and parameter, any state shape) performs the classical fourth-order step: the same stages, times and weights, so polynomial-in-time fields of degree up to three are integrated exactly. The LTI discretisation returns the exact transition matrix, input matrix and noise covariance of the linear system over one step.",
 ["inputs"], "all right-hand sides, step sizes (negative ones included), times, parameters; all LTI systems and steps",
 "The tests integrate one or two linear fields with small steps and loose tolerances, so a wrong stage time or weight can pass.",
 ["diffeq_np.py", "diffeq_tf.py", "disc.py"], [("rk4", "diffeq_np.py:rk4; diffeq_tf.py:rk4"), ("matrix fraction decomposition", "disc.py:lti_disc, lti_disc_u")],
 ["return values"])

prop("C15", "Continuous-time LQ control: parallel blocks compose to the sequential solution",
 "For continuous-time LQ regulators and trackers with time-varying parameters, the sequential NumPy passes carry out the fourth-order integration of the documented backward and forward equations from the given terminal data and start time. The parallel passes (block elements, associative combination and interpolation inside blocks, computed from either end) and the forward-backward variants return the same value functions, gains, states and controls at every grid point up to the order of the integrator, for every number of blocks and steps.",
 ["inputs", "configurations", "schedules"], "all smooth time-varying problems, horizons, block counts, steps per block, start times",
 "The tests use one or two fixed models, one block structure and loose tolerances.",
 ["clqt_np.py"], [("CLQR", "clqt_np.py:CLQR"), ("CLQT", "clqt_np.py:CLQT"), ("element combination", "clqt_np.py:combine_abcej, combine_fc")],
 ["return values of the CLQR and CLQT methods"])

prop("C16", "TensorFlow continuous-time LQ tracking equals its specification",
 "The TensorFlow continuous-time passes perform the same integration as specified (sequential backward, forward with and without zero-order hold, forward-backward), batched over any vector of block start times. The parallel passes agree with the sequential solution at every grid point up to the order of the integrator for every block structure.",
 ["inputs", "configurations", "schedules"], "all smooth time-varying problems, horizons, block and step counts, batches of start times",
 "The tests compare with the NumPy version on one or two models.",
 ["clqt_tf.py"], [("passes", "clqt_tf.py:clqt_seq_backwardpass, clqt_seq_forwardpass, clqt_seq_fwdbwdpass, clqt_par_backwardpass, clqt_par_forwardpass, clqt_par_fwdbwdpass")],
 ["return values of the clqt_* functions"])

prop("C17", "Parareal iterations follow the recursion and reach the dense solution",
 "Each Parareal pass (backward, forward, forward-backward, in NumPy and TensorFlow) starts from the coarse solution, applies the correction coarse-new plus dense minus coarse-old in time order, and returns the dense solution inside blocks; after k iterations the k blocks next to the known boundary are exact. With at least as many iterations as blocks the result equals the dense sequential solution on the same grid, for any problem, block and step counts.",
 ["inputs", "histories", "schedules"], "all problems, block counts, steps per block, iteration counts (0 included where admitted)",
 "The tests run fixed block structures with default iteration counts and loose tolerances; partially converged iterations are not examined.",
 ["parareal_clqt_np.py", "parareal_clqt_tf.py"], [("iteration", "parareal_clqt_np.py:Parareal_CLQT_np.backwardPass, forwardPass, fwdBwdPass; parareal_clqt_tf.py:pclqt_backwardpass, pclqt_forwardpass, pclqt_fwdbwdpass")],
 ["return values"])

prop("C18", "Grid HJB solvers: value functions compose over blocks",
 "For one-dimensional grid HJB problems, combining conditional value functions is the min-plus product, exactly or refined by the parabola through the grid minimum and its neighbours (the grid minimum itself at the ends, on flat places and next to unreachable points). The sequential block pass applies that combination block by block from the terminal value; the parallel pass returns the result of one of the orders of combination, which for the unrefined product are all equal, for every number of blocks. The finite-difference passes perform the documented symmetric or upwind backward step of the HJB equation at every grid point and time, shooting returns the integrated cost and end point of a control, and conditional values of affine-quadratic problems are the least shooting costs, in NumPy and TensorFlow.",
 ["inputs", "configurations", "schedules"], "all grids, value functions (ties and unreachable pairs included), block counts, steps, and polynomial model functions",
 "The tests use one or two models and mostly plot or compare norms with loose tolerances; ties, unreachable points, other block counts and segment counts are not reached, and the TensorFlow tests are too slow to run routinely.",
 ["hjb_grid_1d_np.py", "hjb_grid_1d_tf.py"], [("combination", "hjb_grid_1d_np.py:combine_V, combine_V_interp"), ("passes", "hjb_grid_1d_np.py:HJB_Grid_1d; hjb_grid_1d_tf.py:seq_bw_pass_symfd, seq_bw_pass_upwind, seq_bw_pass_assoc, par_bw_pass"), ("shooting", "hjb_grid_1d_np.py:fun_and_con_1, fun_and_con_2, V_eval_1, V_eval_2; hjb_grid_1d_tf.py")],
 ["return values"])

prop("C19", "Problem constructors expand valid arguments and reject invalid ones",
 "Creating a finite-state control or LQ tracking problem from any mix of constant and per-stage parameters yields the per-stage problem obtained by replication, with the documented defaults for omitted ones, and the horizon deduced from the per-stage lists (dynamics and stage costs of a finite-state problem; F, L, X and U of an LQ problem), which take precedence over an explicitly given horizon. Any combination of mismatching list lengths or dimensions, and a missing horizon when none of these lists implies it, is rejected with an error instead of producing a problem.",
 ["inputs", "configurations"], "all combinations of omitted / constant / per-stage parameters and of single dimension or length mismatches",
 "The tests only construct valid problems in two or three combinations.",
 ["fsc_np.py", "lqt_np.py"], [("validation and replication", "fsc_np.py:FSC.checkAndExpand; lqt_np.py:LQT.checkAndExpand")],
 ["constructed object, raised errors"])

prop("C20", "Solving is repeatable and never alters the caller's data",
 "For any sequence of calls on the same problem objects and tensors, a call's result depends only on its arguments and the problem, not on which passes ran before. No routine modifies the arrays, lists or problem data handed to it, nor arrays it returned earlier. (Documented working storage is not problem data: the linearised F, L, c that a nonlinear problem keeps in its own LQT object between passes, and the condenser's memory of the last problem it condensed. The lists and arrays the caller built that LQT object from are the caller's data.)",
 ["histories"], "all sequences of public calls on one problem object, with shared arguments",
 "The tests create a fresh problem for each call and never look at the arguments afterwards.",
 ["fsc_np.py", "viterbi_np.py", "lqt_np.py", "condensing_np.py", "nlqt_np.py", "clqt_np.py", "parareal_clqt_np.py", "sqp_np.py", "my_assoc_scan.py", "hjb_grid_1d_np.py"], [("copies before in-place work", "my_assoc_scan.py:my_assoc_scan; clqt_np.py; parareal_clqt_np.py")],
 ["arguments before and after each call", "results of repeated calls"])

prop("C21", "Benchmark models are the models they document",
 "The shipped models produce well-formed problems: the dynamics Jacobians are the derivatives of the dynamics, stochastic matrices are non-negative with rows (columns) summing to one, simulated trajectories follow the model's own dynamics, reference tracks, costs, reachability (block value) tables and finite-state tables describe the documented task, problem generators give as many stages as were asked for, and the text codec decodes what it encodes. NumPy and TensorFlow versions of a model define the same problem.",
 ["inputs", "configurations"], "all model parameters, sizes, seeds and operating points",
 "The tests evaluate single points of a few models and no invariants of the generated data.",
 ["finite_model_np.py", "linear_model_np.py", "linear_model_tf.py", "nonlinear_model_np.py", "nonlinear_model_tf.py", "mass_model_np.py", "ge_model_np.py", "text_model.py", "cnonlin_models_np.py", "cnonlin_models_tf.py"],
 [("models", "finite_model_np.py; linear_model_np.py; nonlinear_model_np.py; ge_model_np.py; text_model.py; mass_model_np.py; cnonlin_models_np.py")],
 ["model outputs"])

out = pathlib.Path(__file__).with_name("properties.jsonl")
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
