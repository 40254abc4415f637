P("C01", "Saved outputs are exactly what SaveAt asked for",
  "For every solve that finishes, the returned times and values are, in order: the initial value if requested, one entry per requested save time equal to the interpolant of the accepted step containing that time, one entry per every n-th accepted step, and the final value exactly once; unused slots hold infinities. Save functions are applied to the original (unreversed) time and the value there, and each sub-collection of saved outputs is independent of the others.",
  ["inputs", "configurations", "histories"],
  "all solver outputs, accept/reject patterns, step sizes, interval end points and save times; all combinations of the listed kinds of saving, forward and backward in time",
  "Tests save a handful of times on a handful of benign solves; interactions of save times with step boundaries, rejected steps, strides and reversed time are combinatorial.",
  ["diffrax/_integrate.py", "diffrax/_saveat.py"],
  [("saving inside the loop", "diffrax/_integrate.py:loop"), ("save specification", "diffrax/_saveat.py:SaveAt")],
  "bounded: up to 3-4 attempted steps, up to 3 save times, scalar state; reals for floats, one-ulp moves modelled as a fixed tiny grid step; solver and controller are nondeterministic stubs at the public extension points")
P("C02", "Steps tile the interval and the statistics count them",
  "Every solve starts at the initial time, each accepted step starts where the controller says the previous one ended, steps never go beyond the final time, and the solve succeeds exactly when the final time is reached exactly within the step limit; otherwise it stops at the limit. The reported numbers of steps, accepted steps and rejected steps are the numbers that happened.",
  ["inputs", "histories"], "all accept/reject patterns and proposed step sizes and both directions of time",
  "Tests observe end results of well-behaved solves; they do not quantify over proposals that undershoot, overshoot or graze the end of the interval.",
  ["diffrax/_integrate.py"], [("time stepping, end clipping, step counting", "diffrax/_integrate.py:loop"), ("result and stats", "diffrax/_integrate.py:diffeqsolve")],
  "bounded: up to 4 (quick) / 6 (thorough) attempted steps; reals for floats with the end-clipping tolerance modelled; nondeterministic solver and controller")
P("C03", "A rejected step leaves no trace",
  "The value, time, solver memory and discontinuity flag used by an attempt are those produced by the last accepted step (or the initial ones), no matter how many attempts were rejected in between and what they computed. The final value, solver memory and discontinuity flag returned are those of the last accepted step.",
  ["histories", "inputs"], "all accept/reject histories and all values a rejected attempt may compute",
  "Tests only see the final numbers, in which small leakage from rejected steps is hidden by the tolerances.",
  ["diffrax/_integrate.py"], [("keeping or discarding the candidate", "diffrax/_integrate.py:loop")],
  "bounded: up to 4/6 attempted steps, scalar state; nondeterministic solver and controller")
P("C04", "Failures stop the solve, are reported, and are never masked",
  "If a solver or step size controller reports a failure on any attempt the solve stops there and returns that failure (the first one), and if the step limit is reached before the final time that is returned; success is never reported in such a case. With throwing enabled an error is raised exactly when the solve did not succeed.",
  ["fault_sequences", "inputs"], "all positions and kinds of solver and controller failure, all accept/reject patterns, all differentiation modes",
  "Tests provoke one or two kinds of failure in fixed places.",
  ["diffrax/_integrate.py", "diffrax/_solution.py"], [("result propagation", "diffrax/_integrate.py:loop"), ("error on failure", "diffrax/_integrate.py:diffeqsolve")],
  "bounded: up to 3/4 attempted steps, five result codes; nondeterministic solver and controller")
P("C05", "Error control accepts, shrinks and grows steps by the documented law",
  "With error control a step is accepted exactly when the scaled error is below one (or the step is already at the forced minimum); a rejected step is retried from the same time with a strictly smaller step, an accepted one continues from its end with a step that does not shrink, both within the configured factors; step sizes follow the proportional-integral-derivative law on the errors of accepted steps and respect the configured minimum and maximum. Non-finite candidates are rejected and never make later step sizes non-finite.",
  ["inputs", "histories", "configurations"], "all values of state, candidate, error and step size; all accept/reject histories; P, I and D configurations; both minimum-step policies",
  "Tests check that solves succeed to a tolerance, which many wrong control laws also achieve.",
  ["diffrax/_step_size_controller/pid.py"], [("acceptance and step size law", "diffrax/_step_size_controller/pid.py:PIDController.adapt_step_size"), ("first step", "diffrax/_step_size_controller/pid.py:PIDController.init")],
  "bounded: up to 3 consecutive steps; scaled errors in [1/4,4] (or including 0, inf); exponents restricted to integers so that the control law is polynomial; default rms norm for scalars and a max norm for vectors and trees")
P("C06", "Forced step times are hit, jumps are straddled, rejected times are revisited",
  "With a clipping step size controller no accepted or attempted step crosses a prescribed step time; the interval around a prescribed jump time is never integrated over and the step after it is flagged as following a discontinuity; with rejected-step storage the end of every rejected step is later stepped to exactly, and overflow of the storage is reported. Apart from that the step sizes proposed by the wrapped controller are used unchanged.",
  ["inputs", "histories", "configurations"], "all prescribed times, proposals and accept/reject patterns, both directions of time, nested clipping",
  "Tests use a few fixed grids; the interplay of proposals, prescribed times and rejections is unbounded.",
  ["diffrax/_step_size_controller/clip.py"], [("clipping", "diffrax/_step_size_controller/clip.py:ClipStepSizeController.adapt_step_size")],
  "bounded: 2-4 attempts, up to 2 step times and 2 jump times, storage of up to 2; special times, interval ends and proposals are either equal or at least 1000 ulps apart; one ulp modelled as a fixed grid step")
P("C07", "Constant and prescribed step locations",
  "With a constant step size the k-th step ends k step lengths after the initial time, except that the last one ends exactly at the final time (which may be infinite), and no step is rejected. With prescribed step times the steps end exactly at these times, and a prescription that is not strictly monotone in the direction of time or does not match the interval is refused.",
  ["inputs"], "all initial and final times, step sizes and prescribed times, both directions of time",
  "Tests use step sizes that divide the interval, so a drift of the step locations is invisible.",
  ["diffrax/_step_size_controller/constant.py"], [("constant steps", "diffrax/_step_size_controller/constant.py:ConstantStepSize"), ("prescribed steps", "diffrax/_step_size_controller/constant.py:StepTo")],
  "bounded: up to 4/6 steps and 4/5 prescribed times; the final time is either an exact multiple of the step size away or not within rounding of one; reals for floats")
P("C09", "Events end the solve at the right place and report what happened",
  "A solve with events stops at the end of the first accepted step on which some event condition becomes true or changes sign in its allowed direction (or immediately if true at the start), reports that event in the mask and as the result, and returns outputs only up to the event; with root finding the final time is the located root and the value there is the interpolant's. Event conditions see the original time in both directions, rejected steps never trigger events, and a failure on the same step is still reported.",
  ["inputs", "histories", "configurations"], "all step outcomes and accept/reject patterns; boolean and real-valued conditions, allowed directions, several simultaneous conditions, both directions of time, all kinds of saving",
  "Tests exercise particular trajectories; the combination of event timing, saving kinds, rejection and direction is combinatorial.",
  ["diffrax/_integrate.py", "diffrax/_event.py"], [("event detection", "diffrax/_integrate.py:loop"), ("root finding and trimming of outputs", "diffrax/_integrate.py:loop")],
  "bounded: up to 3 attempts, up to 3 conditions that are linear in time and state; the root finder is a stub claiming an arbitrary point at which the condition is nearly zero and that lies in the bracket it is given; nondeterministic solver and controller")
P("C10", "Dense output is the interpolant of the step containing the query time",
  "The interpolation returned by a solve with dense output evaluates, at every query time within the solved range, to the local interpolant of the accepted step containing that time (at a step boundary, of the step on the requested side), for either direction of time and for PyTree states; increments are differences of evaluations; derivatives are derivatives of that interpolant with respect to the original time; the stated end points are those of the solve; any query outside the solved range gives NaN.",
  ["inputs", "histories"], "all step locations, step counts, accept/reject patterns and query times; both sides of a step boundary, both directions of time",
  "Tests query a few times in a few solves; the boundary, reversal and padding cases are combinatorial.",
  ["diffrax/_global_interpolation.py", "diffrax/_integrate.py"], [("lookup", "diffrax/_global_interpolation.py:DenseInterpolation"), ("collection of dense info", "diffrax/_integrate.py:loop")],
  "bounded: up to 3/4 attempted steps with unused storage after them; nondeterministic solver, controller and local interpolant; reals for floats")
P("C11", "Dense output of every Runge--Kutta solver joins up and has its order",
  "For every explicit, diagonally implicit and IMEX Runge--Kutta solver, the local interpolation of a step starts at the state at the start of the step, ends at the computed state at its end, and in between agrees with the exact solution to its documented order, for every smooth vector field (including every splitting), state and step size and at every point of the step.",
  ["inputs", "configurations"], "all smooth vector fields (through their elementary differentials), states, step sizes and points within the step, for sixteen solvers",
  "Tests compare dense output with reference solutions to loose tolerances at a few points; the tests of local interpolation are not even part of the reliable suite.",
  ["diffrax/_local_interpolation.py", "diffrax/_solver"], [("interpolants", "diffrax/_local_interpolation.py"), ("dense info", "diffrax/_solver/runge_kutta.py:AbstractRungeKutta.step"), ("per-solver interpolation", "diffrax/_solver/tsit5.py")],
  "all rooted (two-coloured for IMEX) trees up to the order of the interpolant: exhaustive for that order; symbolic state, step size in [1/2,1] and point in the step; matched to 1e-8; implicit equations are solved exactly by a substituted root finder")
P("C12", "Interpolations pass through their data and fill missing values as documented",
  "Linear and cubic paths through data pass through every data point, are (left- or right-) continuous as requested, are defined outside the data by the end pieces, have the documented increments and derivatives, and treat PyTrees leaf by leaf. Filling of missing data by linear interpolation, rectilinear interpolation or Hermite splines with backward differences reproduces every observed value, interpolates between the observed values either side, and fills the start and the end exactly when asked to; decreasing or repeated times are refused.",
  ["inputs", "configurations"], "all data values and times, every pattern of missing values, every option, every query time",
  "Tests sample a couple of missing-value patterns; the number of patterns and options is exponential.",
  ["diffrax/_global_interpolation.py", "diffrax/_misc.py"], [("paths", "diffrax/_global_interpolation.py:LinearInterpolation"), ("missing values", "diffrax/_global_interpolation.py:backward_hermite_coefficients"), ("filling", "diffrax/_misc.py:fill_forward")],
  "bounded: 3-4 (quick) / 4-5 (thorough) data points; reals for floats; Hermite coefficients on one fixed non-uniform time grid, everything else at symbolic times at least 1/8 apart")
P("C13", "Every Runge--Kutta solver and its error estimate have the documented order",
  "One step of every explicit, diagonally implicit and IMEX Runge--Kutta solver agrees with the Taylor series of the exact solution up to its documented order, for every smooth vector field (including, for IMEX solvers, every splitting, and vector fields depending on time), every state and every step size; the embedded error estimate vanishes up to its order and detects errors of that order; the order it declares to step size controllers is no larger than that.",
  ["inputs", "configurations"], "all smooth vector fields (through their elementary differentials), states and step sizes, for sixteen solvers",
  "A wrong digit in a tableau changes results by less than the tolerance of any convergence test on a few problems.",
  ["diffrax/_solver/runge_kutta.py", "diffrax/_solver"], [("stage computation", "diffrax/_solver/runge_kutta.py:AbstractRungeKutta.step"), ("tableaus", "diffrax/_solver/dopri5.py:Dopri5"), ("tableaus", "diffrax/_solver/kvaerno5.py:Kvaerno5"), ("tableaus", "diffrax/_solver/kencarp4.py:KenCarp4")],
  "order conditions for all rooted (two-coloured for IMEX) trees up to the documented order: exhaustive for that order; symbolic initial time and state, step size in [1/2,1]; coefficients matched to 1e-9 of the exact order condition; implicit equations are solved exactly by a substituted root finder")
P("C14", "Reusing the previous step's work does not change the answer",
  "A step continued from the solver's memory of the previous step (first same as last) equals a step started afresh from the same state, in its value, its error estimate and its dense output; and after a discontinuity, signalled at trace time or at run time, nothing computed before it is used.",
  ["inputs", "histories"], "all states, times, step sizes, gaps at a discontinuity and parameters, for sixteen solvers",
  "A stale stage is still an approximation of the right value and goes unnoticed below tolerances.",
  ["diffrax/_solver/runge_kutta.py"], [("first same as last", "diffrax/_solver/runge_kutta.py:AbstractRungeKutta.step"), ("initial memory", "diffrax/_solver/runge_kutta.py:AbstractRungeKutta.init")],
  "bounded: two consecutive steps of every solver on one polynomial, time-dependent, nilpotent vector field with a symbolic parameter; state, times, step sizes symbolic in [-1,1]; agreement to 1e-9")

P("C15", "The virtual Brownian tree is one path with exactly the Brownian law",
  "Queries of a virtual Brownian tree, in any order and over any intervals, are evaluations of one fixed path: increments and space-time Levy areas over adjacent intervals combine to those over their union (Chen's relation), evaluating the same interval twice gives the same answer, and the interval length reported is the true one. Over its random key the path at all times has the law of Brownian motion together with its space-time and space-time-time Levy areas: centred, with the documented variances, mutually uncorrelated, and independent over disjoint intervals.",
  ["inputs", "histories"], "all query intervals within the tree's range (up to its resolution), for each kind of Levy area",
  "Tests sample a few intervals and compare sample moments, which cannot see small errors in the conditional laws nor inconsistency between rare query patterns.",
  ["diffrax/_brownian/tree.py", "diffrax/_brownian/base.py"],
  [("evaluation", "diffrax/_brownian/tree.py:VirtualBrownianTree.evaluate"), ("bridge", "diffrax/_brownian/tree.py:VirtualBrownianTree._brownian_arch"), ("difference", "diffrax/_brownian/tree.py:_levy_diff")],
  "bounded: tree of depth 2 (quick) or 3, every pair of cells, both times anywhere in their cells; the normal draws are independent standard normals; agreement to 1e-9")

P("C16", "Freshly drawn Brownian paths and PyTree-valued paths have the law they document",
  "The path that draws afresh for every interval has, over each interval, exactly the law of a Brownian increment with its space-time and space-time-time Levy areas (centred, documented variances in the interval's true length, uncorrelated with each other and across disjoint intervals), and gives the same answer when the same interval is asked again. For paths with values in PyTrees, whatever the kind, every component has this law with the interval's true length and distinct components are independent.",
  ["inputs"], "all intervals, for every kind of Levy area, over scalar and nested shapes",
  "Moments estimated from samples are too coarse to see wrong factors or correlations, and single-array shapes hide what happens to PyTrees.",
  ["diffrax/_brownian/path.py", "diffrax/_brownian/tree.py"],
  [("fresh draws", "diffrax/_brownian/path.py:UnsafeBrownianPath.evaluate"), ("rescaling", "diffrax/_brownian/tree.py:_denormalise_bm_inc")],
  "bounded: two adjacent intervals of lengths in [1/256,4]; a PyTree with three leaves and five components; normal draws with different keys independent; agreement to 1e-9")

P("C17", "SDE solvers have their documented strong order and interpretation",
  "For every SDE solver and every class of noise it documents, one step agrees with the stochastic Taylor expansion of the documented (Ito or Stratonovich) solution up to the weights that its documented strong order requires, pathwise and in the mean, with the error estimate consistent with the order, for vector fields depending on time or not; and equally when the solve runs backward in time along the same noise.",
  ["inputs"], "all vector fields (through the stochastic order conditions), states, times, step sizes, increments and Levy areas",
  "Strong order is estimated in tests by noisy regressions on a few equations; a wrong coefficient in a higher weight or a special class of noise shows as a slightly worse constant.",
  ["diffrax/_solver/srk.py", "diffrax/_solver/milstein.py", "diffrax/_solver/euler_heun.py", "diffrax/_term.py"],
  [("stochastic Runge--Kutta", "diffrax/_solver/srk.py:AbstractSRK.step"), ("Milstein", "diffrax/_solver/milstein.py:ItoMilstein.step"), ("time reversal of noise", "diffrax/_term.py:WrapTerm.contr")],
  "bounded: every coloured rooted tree up to the weight needed; scalar noise, two channels for general and commutative noise; one step of size in [1/4,1]; all else symbolic in [-1,1]; agreement to 1e-9")

P("C18", "Langevin solvers have their documented strong order, for every friction",
  "One step of ALIGN, ShOULD and QUICSORT agrees with the exact solution of the underdamped Langevin diffusion in every term of the stochastic Taylor expansion that the documented strong order depends on, for all states, forces, frictions, dampings and noise; the coefficients computed by Taylor expansion (small friction times step) agree with those computed directly; coefficients and gradients carried over from the previous step, of the same or another size, give the same answer as computing afresh, and after a jump the carried gradient is not used.",
  ["inputs", "histories"], "all states, frictions, dampings, quadratic forces, increments and areas, step sizes and their history",
  "Convergence tests fit a slope over a few step sizes on single equations; coefficients reused across steps or switched between formulas at a threshold are not distinguished.",
  ["diffrax/_solver/foster_langevin_srk.py", "diffrax/_solver/align.py", "diffrax/_solver/should.py", "diffrax/_solver/quicsort.py"],
  [("step", "diffrax/_solver/foster_langevin_srk.py:AbstractFosterLangevinSRK.step"), ("coefficients", "diffrax/_solver/foster_langevin_srk.py:AbstractFosterLangevinSRK._recompute_coeffs")],
  "bounded: two coordinates with own friction and damping in (0,1], a quadratic force of one on the other; weights up to twice the strong order; step sizes fixed for the direct formulas; forward in time; agreement to 1e-9")

P("C19", "Structured solvers are reversible, symmetric, symplectic, halved as documented",
  "ReversibleHeun's step is undone exactly by its step backward in time and it is of order two over successive steps of any sizes; LeapfrogMidpoint is the two-step midpoint rule; SemiImplicitEuler's step preserves the symplectic form for every separable Hamiltonian; HalfSolver's result is that of two half steps of the solver it wraps, its error estimate the difference to the single full step, and a failure in any of the three is reported.",
  ["inputs", "histories"], "all states, times, step sizes, polynomial vector fields and Hamiltonians, inner solvers",
  "Energy or reversal errors at the level of truncation look like ordinary discretisation errors in tests.",
  ["diffrax/_solver/reversible_heun.py", "diffrax/_solver/leapfrog_midpoint.py", "diffrax/_solver/semi_implicit_euler.py", "diffrax/_solver/base.py"],
  [("reversible", "diffrax/_solver/reversible_heun.py:ReversibleHeun.step"), ("leapfrog", "diffrax/_solver/leapfrog_midpoint.py:LeapfrogMidpoint.step"), ("symplectic", "diffrax/_solver/semi_implicit_euler.py:SemiImplicitEuler.step"), ("halving", "diffrax/_solver/base.py:HalfSolver.step")],
  "bounded: one to three steps, quadratic or cubic fields with symbolic coefficients in [-1,1], step sizes in [1/2,1]; two degrees of freedom; an inner solver that records its arguments; agreement to 1e-9")

P("C20", "Terms mean what their formula says",
  "For ODE, control, diagonal and matrix control, callable-control, sums of, and Langevin terms, and terms wrapped for time reversal or for the adjoint: the fused product of vector field and control equals the separate evaluation, is linear in the control, and increments over adjacent intervals add up; a wrapped term is the same equation in reversed time (including space-time Levy areas); a control term turned into an ODE multiplies by the control's derivative; and the adjoint term computes exactly the augmented backward system.",
  ["inputs"], "all states, times, controls, arguments and parameters of polynomial fields",
  "Tests use few shapes and one direction of time, where wrong transposes, signs or dropped components cancel.",
  ["diffrax/_term.py"],
  [("terms", "diffrax/_term.py:AbstractTerm.vf_prod"), ("reversal", "diffrax/_term.py:WrapTerm"), ("adjoint", "diffrax/_term.py:AdjointTerm")],
  "bounded: states of two or three numbers in one or two leaves, up to four controls, polynomial fields and paths with symbolic coefficients; all in [-1,1], interval lengths in [1/8,1]; agreement to 1e-9")

P("C21", "Differentiating through a solve gives the derivative of what was computed",
  "RecursiveCheckpointAdjoint, DirectAdjoint and ForwardMode give exactly the derivative of the sequence of accepted steps that the solve took, with respect to initial state, parameters, initial and final times and everything saved (including across rejected steps, adaptive step sizes, implicit stages, dense output, events and their times); BacksolveAdjoint solves the documented backward augmented system with the adjoint solver, jumping at each saved time; ImplicitAdjoint gives the derivative of the steady state by the implicit function theorem.",
  ["inputs", "histories"], "all states, parameters, output weights and accept/reject histories",
  "Gradients are tested on a few smooth problems at loose tolerances; a dropped or doubled contribution of one save, one rejected step or one time is specific to a history.",
  ["diffrax/_adjoint.py", "diffrax/_integrate.py", "diffrax/_step_size_controller/pid.py"],
  [("checkpointing", "diffrax/_adjoint.py:RecursiveCheckpointAdjoint.loop"), ("direct", "diffrax/_adjoint.py:DirectAdjoint.loop"), ("forward mode", "diffrax/_adjoint.py:ForwardMode.loop"), ("backsolve", "diffrax/_adjoint.py:_loop_backsolve_bwd"), ("steady state", "diffrax/_adjoint.py:ImplicitAdjoint.loop")],
  "bounded: up to three attempted steps at concrete dyadic times in fixed accept/reject histories; polynomial fields in two coordinates; state, parameters and cotangents symbolic in [-1,1]; linear implicit stages; one scalar event root; agreement to 1e-9")

P("C24", "Invalid times and data are refused, valid ones are not",
  "A solve is refused with an error exactly when its save times are out of order or lie outside of the interval of integration (in whatever group of saves they are), when its first step has the wrong sign, or when prescribed step times do not run from the initial to the final time; interpolation of data exactly when its times are not strictly increasing or are not numbers; a virtual Brownian tree exactly when its range is empty or it is queried outside of it; and Langevin solvers exactly when drift and diffusion disagree about friction or damping.",
  ["inputs"], "all times in any order and direction of time, all positions of missing values",
  "Tests try one bad and one good input of each kind; a comparison with the wrong strictness, direction or element goes unnoticed and yields silently wrong results.",
  ["diffrax/_integrate.py", "diffrax/_global_interpolation.py", "diffrax/_brownian/tree.py", "diffrax/_step_size_controller/constant.py"],
  [("save times and first step", "diffrax/_integrate.py:diffeqsolve"), ("data times", "diffrax/_global_interpolation.py:_check_ts"), ("Brownian range", "diffrax/_brownian/tree.py:VirtualBrownianTree.evaluate"), ("prescribed steps", "diffrax/_step_size_controller/constant.py:StepTo.wrap")],
  "bounded: three save, step or data times; times in [-16,16], equal or at least 2^-20 apart; interpolation data possibly missing in each place")
