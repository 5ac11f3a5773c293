"""Writes properties.jsonl and MANIFEST.json (kept as a script so that both
stay in step with the checks in vf/props)."""
import importlib.util
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

MIN = 'fides/minimize.py'
TR = 'fides/trust_region.py'
STEPS = 'fides/steps.py'
SB = 'fides/stepback.py'
SUB = 'fides/subproblem.py'
HESS = 'fides/hessian_approximation.py'
CONST = 'fides/constants.py'
LOG = 'fides/logging.py'

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append(
        {
            'id': id,
            'title': title,
            'statement': statement,
            'quantifier': {'over': over, 'text': text},
            'why_tests_cant': why,
            'anchors': {
                'files': files,
                'state': [
                    {'name': n, 'meaning': m, 'where': w} for n, m, w in state
                ],
                'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
                'observe_at': observe,
                'hook_needed': None,
            },
        }
    )


prop(
    'C01',
    'Only finite points within the bounds are evaluated or returned',
    'Every point at which the objective function is evaluated, the returned '
    'point and the recorded best point are finite and satisfy lb <= x <= ub '
    'exactly, for every objective, bounds, solver, step-back strategy and '
    'Hessian scheme. A start on a bound is accepted; a start outside of the '
    'bounds (by more than rounding) or with non-finite entries is refused '
    'with a RuntimeError before the objective is evaluated.',
    ['inputs', 'configurations'],
    'all objectives, bounds (finite, half-infinite, infinite), starts, '
    'combinations of solver, step-back strategy and Hessian scheme',
    'The tests run a handful of fixed problems (Rosenbrock, sums of squares) '
    'and never look at the evaluated points; the step-back, reflection and '
    'truncation arithmetic depends on the geometry of every single step.',
    [MIN, STEPS, SB, TR],
    [('step back', STEPS + ':Step.step_back'),
     ('bounds check', MIN + ':Optimizer.check_in_bounds'),
     ('start displacement', MIN + ':Optimizer.make_non_degenerate')],
    ['arguments of the objective function', 'return value of minimize', 'Optimizer.x_min'],
)
prop(
    'C02',
    'Monotone descent: the iterate only moves to better trial points',
    'During a run the objective value of the iterate never increases: in '
    'every iteration exactly one trial point is evaluated, and the iterate '
    'either becomes this trial point, which then has a finite and strictly '
    'smaller objective value, together with its gradient, or stays unchanged '
    'including objective value, gradient and Hessian (approximation).',
    ['inputs', 'histories', 'configurations'],
    'all problems, configurations and all iterations of a run',
    'Tests only check the final point of converging runs, not the sequence '
    'of iterates, and few of them have rejected trials.',
    [MIN],
    [('acceptance', MIN + ':Optimizer.update_tr_radius'),
     ('state update', MIN + ':Optimizer.update')],
    ['attributes x, fval, grad, hess of the optimizer at every evaluation'],
)
prop(
    'C03',
    'Returned values belong together and the best evaluation is recorded',
    'The returned function value, point and gradient are those of one single '
    'evaluation (the point up to the displacement off a bound, which is at '
    'the level of rounding), the returned Hessian is the one of that point or '
    'the current approximation, and all of them agree with the attributes of '
    'the optimizer. The recorded minimum (fval_min, x_min, grad_min) is the '
    'evaluation with the smallest finite objective value of the run, whether '
    'or not that trial was accepted.',
    ['inputs', 'histories', 'configurations'],
    'all problems and configurations, all points at which a run can stop',
    'Tests compare x and fval of a converged run with a known optimum; '
    'mixtures of different evaluations agree to the tolerance there.',
    [MIN],
    [('tracking', MIN + ':Optimizer.track_minimum'),
     ('state update', MIN + ':Optimizer.update')],
    ['return value of minimize', 'fval_min, x_min, grad_min'],
)
prop(
    'C04',
    'The n-dimensional trust-region subproblem is solved globally',
    'For every symmetric matrix B, vector g and radius > 0 the solution s of '
    'the trust-region subproblem satisfies ||s|| <= radius (up to rounding) '
    'and attains the global minimum of 1/2 s\'Bs + g\'s over that ball up to a '
    'relative error of 1e-6. This includes indefinite, singular, badly scaled '
    'matrices, repeated eigenvalues, zero gradients and gradients (nearly) '
    'orthogonal to the lowest eigenspace (hard case); inputs are not modified.',
    ['inputs'],
    'all symmetric B (dimension 1-5), g and radii over many decades',
    'The tests use one matrix per branch; the failures sit in degenerate '
    'spectra and scales.',
    [SUB],
    [('solver', SUB + ':solve_nd_trust_region_subproblem'),
     ('secular equation', SUB + ':secular, dsecular, slam, dslam')],
    ['fides.subproblem.solve_nd_trust_region_subproblem'],
)
prop(
    'C05',
    'The one-dimensional subproblem is solved globally on its line',
    'For every symmetric B, vector g, direction s != 0, radius > 0 and offset '
    's0 in the ball, the one-dimensional subproblem returns a finite t such '
    'that s0 + t s lies in the ball and minimizes the model among all such '
    'points of the line. The boundary solution returns the better of the two '
    'intersections of the line with the sphere.',
    ['inputs'],
    'all curvatures along the line, including zero and negative, all offsets '
    'up to the boundary',
    'Tests check a few directions with zero offset or one offset.',
    [SUB],
    [('1d solver', SUB + ':solve_1d_trust_region_subproblem'),
     ('boundary solution', SUB + ':get_1d_trust_region_boundary_solution')],
    ['fides.subproblem.solve_1d_trust_region_subproblem',
     'fides.subproblem.get_1d_trust_region_boundary_solution'],
)
prop(
    'C06',
    'Step proposals are feasible and consistent with the model',
    'Every proposed step, for every solver and step-back strategy, keeps the '
    'trial point within the bounds, has a norm in scaled coordinates of at '
    'most the trust-region radius, is the scaled step transformed by the '
    'scaling, and reports as predicted value exactly the value of the scaled '
    'quadratic model (Hessian plus the Coleman-Li term) at that step. The '
    'predicted value is never positive, and is negative unless the scaled '
    'gradient vanishes. Steps that are not reflected keep at least the '
    'fraction 1 - theta of the distance to every bound.',
    ['inputs', 'configurations'],
    'all points, bounds, gradients, symmetric (also indefinite, singular) '
    'Hessians, radii, solvers and strategies; every iteration of whole runs',
    'No test looks at a single step proposal.',
    [TR, STEPS, SB],
    [('selection', TR + ':trust_region'),
     ('step computation', STEPS + ':Step.calculate'),
     ('step back', STEPS + ':Step.step_back')],
    ['fides.trust_region.trust_region', 'trial points of whole runs'],
)
prop(
    'C07',
    'Step proposals attain the quality promised by solver and strategy',
    'The full solver attains the global minimum of the scaled model within '
    'the radius whenever that minimizer keeps the required distance to the '
    'bounds; the 2D and CG solvers are never worse than the stepped-back '
    'steepest-descent step (for 2D with negative curvature: than the '
    'stepped-back step along negative curvature); before step-back the 2D '
    'step is optimal in its plane, which is spanned by Newton step and '
    'gradient, or with negative curvature by the eigenvector of the smallest '
    'eigenvalue and the scaled sign vector of the gradient; the conjugate '
    'gradient '
    'iteration only stops inside of the trust region once the residual is '
    'small. Among strategies, a chosen '
    'proposal is never worse in the model than any of the proposals that the '
    'strategy comprises: the plain stepped-back step and the gradient step '
    'for all, single reflection for reflect_single, repeated reflection '
    '(until a step no longer meets a bound, at most once per variable) for '
    'reflect and mixed, repeated truncation for truncate and mixed.',
    ['inputs', 'configurations'],
    'all points, bounds, gradients, Hessians and radii',
    'Quality of single steps is invisible in tests that only look at '
    'convergence; a lost candidate only costs iterations.',
    [TR, STEPS, SB],
    [('candidates', TR + ':trust_region'),
     ('subspaces', STEPS + ':TRStep2D, TRStepFull, TRStepSteihaug'),
     ('reflection and truncation', STEPS + ':TRStepReflected, TRStepTruncated')],
    ['fides.trust_region.trust_region'],
)
prop(
    'C08',
    'Quasi-Newton updates satisfy their secant and least-change laws',
    'After every update with step s and gradient change y that is not '
    'skipped, BFGS, DFP, the Broyden class, SR1 and both Broyden methods '
    'satisfy the secant equation B+ s = y up to rounding, and equal the '
    'published formulas; Broyden\'s good method leaves B unchanged on the '
    'orthogonal complement of s, Broyden\'s bad method leaves the inverse '
    'unchanged on the orthogonal complement of y. The Broyden class is the '
    'convex combination of BFGS (phi = 0) and DFP (phi = 1), and SR1 recovers '
    'the Hessian of a quadratic after n independent steps.',
    ['inputs', 'histories'],
    'all initial matrices and sequences of pairs (s, y)',
    'Tests check one BFGS step and convergence with tolerance; wrong updates '
    'still converge.',
    [HESS],
    [('updates', HESS + ':broyden_class_update, SR1, BG, BB')],
    ['update(s, y), get_mat, get_diff of the schemes'],
)
prop(
    'C09',
    'Hessian approximations stay finite, symmetric and definite as promised',
    'For every sequence of steps, the approximations stay finite; BFGS, DFP, '
    'Broyden class and SR1 stay symmetric; BFGS, DFP and the Broyden class '
    'with phi in [0, 1] stay positive definite as long as updates violating '
    'the curvature condition are discarded, which leaves the matrix unchanged. '
    'The reported difference is always the new minus the old approximation, '
    'and matrices handed out or passed in are independent copies.',
    ['inputs', 'histories'],
    'all initial matrices and sequences of pairs (s, y), including exact, '
    'orthogonal, zero-curvature and negative-curvature pairs',
    'Degenerate pairs do not occur in the few test problems.',
    [HESS],
    [('curvature condition', HESS + ':broyden_class_update'),
     ('skipping', HESS + ':SR1')],
    ['update(s, y), get_mat, get_diff, set_mat of the schemes'],
)
prop(
    'C10',
    'Structured secant approximations follow their published definition',
    'For every sequence of steps, Jacobians and residuals, SSM, TSSM and '
    'GNSBFGS return the Gauss-Newton matrix of the current point plus the '
    'structured part defined in the publications, including the secant '
    'equation B+ s = C s + yb of SSM and TSSM, and the switch of GNSBFGS '
    'between BFGS-updated structure and ||r|| I. Differences reported for the '
    'approximation and its structured part are new minus old and independent '
    'copies, and everything stays finite, also for vanishing residuals.',
    ['inputs', 'histories'],
    'all sequences of (s, y, r, C, yb), phi, tolerances',
    'Tests only observe convergence of least squares problems.',
    [HESS, MIN],
    [('structured updates', HESS + ':SSM, TSSM, GNSBFGS')],
    ['update, get_mat, get_diff, get_structured_diff'],
)
prop(
    'C11',
    'Hybrid approximations switch exactly when documented',
    'Fixed and fraction hybrids return the user-provided Hessian until their '
    'criterion (number of successive iterations without radius update; '
    'fraction of iterations with unchanged radius after more than 25 '
    'iterations) has been met and from the following update on, irreversibly, '
    'the iterative approximation, which is updated from the beginning. FX '
    'takes the provided matrix when the relative decrease of the squared '
    'residual reaches its tolerance, and otherwise updates the last matrix '
    'iteratively.',
    ['inputs', 'histories', 'configurations'],
    'all sequences of updates, thresholds and iterative schemes',
    'Convergence tests cannot see when (or if) the scheme switched.',
    [HESS, MIN],
    [('switching', HESS + ':HybridFixed, HybridFraction, FX')],
    ['update, get_mat, get_diff'],
)
prop(
    'C12',
    'Runs use the Hessian that the scheme defines for the visited points',
    'In every iteration of every run, the Hessian (approximation) in use is '
    'the exact Hessian of the iterate, or the one that results from applying '
    'the selected scheme to the steps, gradient changes, residuals and '
    'Jacobians of the accepted trial points so far, starting from the initial '
    'matrix. Rejected trial points never change it.',
    ['histories', 'inputs', 'configurations'],
    'all schemes, problems, sequences of accepted and rejected trials',
    'Wrong arguments passed to a scheme still lead to convergence.',
    [MIN, HESS],
    [('update call', MIN + ':Optimizer.update')],
    ['attribute hess at every evaluation'],
)
prop(
    'C13',
    'Exit flags and the converged state tell the truth',
    'When a run stops, the exit flag names a criterion that holds for the '
    'last iteration: accepted trial with function difference below '
    'tolerance, scaled step norm below xtol after the first iteration, '
    'gradient norm of the kept point within gatol or grtol*|f|, iteration '
    'limit, time limit, or radius below machine precision. A run is marked '
    'converged exactly for the first three, and never continues after an '
    'iteration in which one of them held.',
    ['inputs', 'histories', 'configurations'],
    'all problems, tolerances and configurations',
    'Tests use few tolerances and check single flags of single runs.',
    [MIN, CONST],
    [('criteria', MIN + ':Optimizer.check_convergence'),
     ('limits', MIN + ':Optimizer.check_continue')],
    ['exitflag, converged', 'sequence of evaluations'],
)
prop(
    'C14',
    'Iteration and time budgets are respected and runs terminate',
    'A run performs at most maxiter iterations, that is at most maxiter + 1 '
    'evaluations, and always terminates. It starts another iteration only if '
    'the remaining time is at least the average time per iteration so far, '
    'and stops for lack of time only if it is not, for every sequence of '
    'evaluation durations.',
    ['inputs', 'schedules', 'configurations'],
    'all iteration limits and all schedules of evaluation durations (owned '
    'clock), all problems',
    'Tests use one real-time limit and one iteration limit.',
    [MIN],
    [('limits', MIN + ':Optimizer.check_continue')],
    ['number of evaluations', 'exitflag', 'clock owned by the harness'],
)
prop(
    'C15',
    'Non-finite values are contained',
    'A trial with a non-finite objective value is rejected: the iterate is '
    'unchanged, the radius becomes the smaller of gamma1 times the radius '
    'and a quarter of the scaled step norm, and the run continues. Non-finite values, gradients or Hessians at the start, '
    'and non-finite gradients or Hessians of a trial with finite value raise '
    'a RuntimeError with exit flag NOT_FINITE, leaving the last finite '
    'iterate and recorded minimum in place.',
    ['fault_sequences', 'histories', 'configurations'],
    'all sequences of faults (which evaluation, which output, which value)',
    'Tests inject faults at one fixed evaluation.',
    [MIN],
    [('check', MIN + ':Optimizer.check_finite'),
     ('radius', MIN + ':Optimizer.update_tr_radius')],
    ['objective with injected faults', 'exitflag', 'attributes'],
)
prop(
    'C16',
    'Acceptance and trust-region radius follow the documented rules',
    'In every iteration the trust-region ratio is the actual decrease '
    '(reduced by the Coleman-Li augmentation) over the decrease predicted by '
    'the scaled model; the trial is accepted exactly if the ratio is '
    'positive. The radius is multiplied by gamma2 if the ratio reaches eta '
    'and the scaled step has at least 0.9 times the radius, becomes the '
    'smaller of gamma1 times the radius and a quarter of the scaled step norm '
    'if the ratio is at most mu, and is kept otherwise; it starts at '
    'delta_init.',
    ['histories', 'inputs', 'configurations'],
    'all problems, parameters mu, eta, gamma1, gamma2, delta_init and '
    'iterations',
    'The radius is never observed by tests; other update rules converge as '
    'well.',
    [MIN],
    [('radius update', MIN + ':Optimizer.update_tr_radius')],
    ['attributes delta, tr_ratio, x, fval at every evaluation'],
)
prop(
    'C17',
    'Runs are deterministic and independent of other runs',
    'A run depends only on its own arguments: repeating it, repeating it with '
    'an optimizer or Hessian scheme object that was used for other runs '
    '(converged, stopped or aborted by an exception), or interleaving or '
    'nesting it with runs of other optimizers gives identical evaluations and '
    'results, also if the objective function reuses the arrays it returns or '
    'overwrites its argument. The arrays and options passed by the user are not modified and '
    'earlier results are not changed by later runs.',
    ['histories', 'schedules', 'inputs', 'configurations'],
    'all sequences and interleavings (at evaluation granularity) of runs',
    'Tests create a new optimizer for almost every run and never interleave.',
    [MIN, HESS, LOG],
    [('reset', MIN + ':Optimizer._reset'),
     ('initialization of schemes', HESS + ':HessianApproximation._init_mat')],
    ['sequence of evaluations', 'results'],
)
prop(
    'C18',
    'The history file records exactly what happened',
    'With a history file, each completed run adds exactly one group named by '
    'its start id whose data sets have one entry per iteration: trial '
    'objective value, ratio, radius used, gradient norm, step norm, acceptance, '
    'extreme eigenvalues of the Hessian and of its update, conditions and step '
    'type agree with the run. Groups of earlier runs are preserved and aborted '
    'runs leave nothing behind.',
    ['histories', 'inputs', 'configurations', 'fault_sequences'],
    'all sequences of runs with one file, including aborted ones',
    'Tests only check that the file exists and has the right keys.',
    [MIN],
    [('history', MIN + ':Optimizer.track_history')],
    ['content of the HDF5 file'],
)
prop(
    'C19',
    'Representation and diagnostics do not influence a run',
    'Evaluations and results of a run are identical whether options are given '
    'as strings or enumeration members, defaults are omitted or spelled out, '
    'a history file is written, verbosity is changed, fixed arguments are '
    'passed through funargs or closed over, integer-valued starts, bounds '
    'and outputs of the objective are passed as integers or floats, and '
    'single precision outputs as single or double precision arrays.',
    ['inputs', 'configurations'],
    'all problems, configurations and such changes',
    'Tests never compare two runs.',
    [MIN, CONST, LOG],
    [('option lookup', MIN + ':Optimizer.get_option'),
     ('defaults', CONST + ':DEFAULT_OPTIONS')],
    ['sequence of evaluations', 'results'],
)
prop(
    'C20',
    'Invalid options are refused, valid ones are honoured',
    'Constructing an optimizer with an unknown option name, an unknown '
    'solver or strategy name, or a value of the wrong type raises ValueError '
    'or TypeError; every combination of known names (string or enumeration) '
    'with values of the right type, including integer-valued floats for '
    'maxiter, is accepted and is what the optimizer then uses.',
    ['inputs', 'configurations'],
    'all option dictionaries',
    'Tests cover one invalid value per option.',
    [CONST, MIN],
    [('validation', CONST + ':validate_options')],
    ['Optimizer(...)', 'get_option'],
)
prop(
    'C21',
    'Contract violations of the objective are refused with ValueError',
    'An objective that returns the wrong number of values, a non-scalar value '
    'or gradients or Hessians with the wrong number of dimensions or wrong '
    'shape at the start, a start that is not a vector, an initial '
    'approximation of the wrong dimension, a scheme that does not match the '
    'kind of objective, and the combination of CG solver and refinement are '
    'refused with ValueError; the number of expected values follows from the '
    'scheme. Matching combinations are accepted.',
    ['inputs', 'configurations'],
    'all schemes times all kinds of malformed outputs',
    'Tests cover a few combinations.',
    [MIN, HESS],
    [('dimension checks', MIN + ':Funout.checkdims'),
     ('arity', MIN + ':FunEvaluator.__call__')],
    ['Optimizer(...)', 'minimize'],
)
prop(
    'C22',
    'Strictly convex quadratic problems are solved to the constrained minimum',
    'For every strictly convex quadratic objective of moderate condition, all '
    'bounds and feasible starts, every solver, step-back strategy and '
    'Hessian scheme reaches the constrained minimum up to a relative '
    'error of 1e-4 when run with tight tolerances.',
    ['inputs', 'configurations'],
    'all strictly convex quadratics, bounds, starts, configurations',
    'Tests solve a few such problems, mostly with inactive or symmetric '
    'bounds.',
    [MIN, TR, STEPS, SB, SUB, HESS],
    [('algorithm', MIN + ':Optimizer.minimize')],
    ['return value of minimize'],
)
prop(
    'C23',
    'Runs with tight tolerances end at first-order points',
    'For every smooth objective, also non-convex and least squares, a run '
    'with exact Hessians and tight tolerances that is not stopped by a budget '
    'ends at a point that satisfies the first-order conditions for bound '
    'constrained minima to a small tolerance.',
    ['inputs', 'configurations'],
    'all objectives, bounds, starts, solvers and strategies',
    'Tests check known optima of few functions.',
    [MIN, TR, STEPS, SB, SUB],
    [('algorithm', MIN + ':Optimizer.minimize')],
    ['return value of minimize'],
)
prop(
    'C24',
    'Residual mode is equivalent to the least squares objective',
    'With residual functions, objective value, gradient and Gauss-Newton '
    'Hessian of every iterate are 1/2 r\'r, J\'r and J\'J of the residuals and '
    'Jacobian at that iterate. A run without Hessian scheme therefore '
    'proposes the same points as the run on the corresponding objective with '
    'that Hessian.',
    ['inputs', 'histories', 'configurations'],
    'all residual functions and configurations',
    'Tests compare optima only.',
    [MIN],
    [('residuals', MIN + ':FunEvaluator.__call__')],
    ['attributes fval, grad, hess at every evaluation'],
)
prop(
    'C25',
    'Step proposals do not depend on orientation, order, origin or units',
    'Mirroring a variable, permuting the variables, shifting the origin and '
    '(for the exact and 2D solvers) multiplying the objective by a positive '
    'constant changes the proposed step and its predicted value accordingly '
    'and in no other way.',
    ['inputs', 'configurations'],
    'all points, bounds, gradients, Hessians, radii, transformations',
    'Upper and lower bounds are treated by separate branches; tests hardly '
    'exercise both on the same problem.',
    [TR, STEPS, SB, MIN],
    [('scaling', MIN + ':Optimizer.get_affine_scaling'),
     ('step back', STEPS + ':Step.step_back')],
    ['fides.trust_region.trust_region', 'trial points'],
)
prop(
    'C26',
    'Affine scaling and start displacement follow their definition',
    'At every iterate the scaling vector is x - ub for variables with '
    'negative gradient and finite upper bound, x - lb for variables with '
    'non-negative gradient and finite lower bound, and -1 or 1 otherwise, and '
    'its Jacobian is 1 for exactly the first two. Starts on a bound are moved '
    'strictly inside by an amount at the level of rounding; other starts are '
    'evaluated as given.',
    ['inputs', 'configurations'],
    'all points, gradients (including zero entries), bounds',
    'Tests never look at the scaling.',
    [MIN],
    [('scaling', MIN + ':Optimizer.get_affine_scaling'),
     ('displacement', MIN + ':Optimizer.make_non_degenerate')],
    ['Optimizer.get_affine_scaling', 'first evaluated point'],
)
prop(
    'C27',
    'Initial Hessian approximations are used as given',
    'With an iterative scheme the first step uses the provided initial '
    'matrix, the Hessian of the objective if requested and available, and the '
    'identity otherwise; the first trial point is the one that an objective '
    'with this exact Hessian would get. Without a scheme the initial matrix '
    'has no influence, and the provided array is never modified.',
    ['inputs', 'configurations'],
    'all initial matrices (also integer, indefinite), schemes, problems',
    'Tests only check that runs converge.',
    [MIN, HESS],
    [('initialization', HESS + ':HessianApproximation._init_mat')],
    ['first trial point', 'attribute hess'],
)
prop(
    'C28',
    'The progress log reports what happened',
    'At verbosity INFO every iteration produces exactly one row whose '
    'iteration number, objective value, function difference, ratio, radius, '
    'gradient norm, step norm and acceptance agree with the run, and the end '
    'of the run is explained by one message that matches the exit flag. At '
    'threshold WARNING no rows are written and only stops by a budget are '
    'explained, above WARNING nothing is logged at all, and runs do not log '
    'into each other\'s loggers.',
    ['inputs', 'histories', 'configurations'],
    'all runs',
    'Tests do not read the log.',
    [MIN, LOG],
    [('rows', MIN + ':Optimizer.log_step'),
     ('loggers', LOG + ':create_logger')],
    ['log records of Optimizer.logger'],
)

prop(
    'C29',
    'Exceptions of the objective propagate and leave a consistent state',
    'An exception of any type that the objective raises in any evaluation '
    'leaves minimize as the same object, no further evaluation takes place, '
    'the run is not marked converged, and iterate, value, gradient, Hessian, '
    'radius, iteration number and recorded minimum of the optimizer are those '
    'that the part of the run before that evaluation has led to (nothing of '
    'an earlier run of the optimizer if it was the first one). The history '
    'file is unchanged and the optimizer can be used again, with the same '
    'evaluations and result as a new one.',
    ['inputs', 'faults', 'histories'],
    'all runs, exception types (also those that are not an Exception) and '
    'evaluations that raise them',
    'Tests have one objective that raises, and only look at the type.',
    [MIN],
    [('evaluation', MIN + ':FunEvaluator.__call__'),
     ('state at the start', MIN + ':Optimizer._reset'),
     ('update of the state', MIN + ':Optimizer.update')],
    ['exception leaving Optimizer.minimize', 'attributes of the optimizer',
     'history file'],
)

prop(
    'C30',
    'Inconsistent finite outputs of the objective are contained',
    'For every objective whose outputs are finite and have the right shapes, '
    'even if values, gradients and Hessians contradict each other, change '
    'between calls or differ by many orders of magnitude, minimize returns '
    'without exception within its iteration budget, evaluates only finite '
    'points within the bounds, only moves to strictly smaller values, keeps '
    'a positive finite radius, returns the data of the last accepted trial '
    'and records the smallest value seen.',
    ['inputs', 'faults', 'configurations'],
    'magnitudes up to 1e40 (1e6 with Hessian approximations, which multiply '
    'them), symmetric and non-symmetric, singular and zero Hessians',
    'Tests only use smooth functions with exact derivatives; errors of user '
    'code and noise of simulations make derivatives contradictory.',
    [MIN, TR, STEPS, SUB, SB],
    [('loop', MIN + ':Optimizer.minimize'),
     ('acceptance', MIN + ':Optimizer.update_tr_radius'),
     ('subproblem', SUB + ':solve_nd_trust_region_subproblem')],
    ['arguments of the objective', 'return value of Optimizer.minimize',
     'attributes of the optimizer'],
)
prop(
    'C31',
    'Runs are prefixes of longer runs and can be continued',
    'The iterates do not depend on tolerances and iteration limit: a run is '
    'identical, evaluation by evaluation and including the final point, '
    'value, gradient, matrix and radius, to the beginning of the run with '
    'all tolerances zero and a larger limit. With an exact Hessian, in '
    'residual mode, or with an iterative scheme, the optimizer has no other '
    'state than the point, the radius and the matrix: another optimizer '
    'started with these (x0, delta_init, hess0) repeats the remaining '
    'evaluations of the run identically (starts on a bound excepted, which '
    'are displaced).',
    ['inputs', 'histories', 'configurations'],
    'all problems, configurations, tolerances, limits, and iterates at which '
    'a run is continued, also with trials of non-finite value in between',
    'No test compares two runs, and none restarts one; state that leaks '
    'into later iterations shows only as a different path to the same '
    'minimum.',
    [MIN, HESS],
    [('loop', MIN + ':Optimizer.minimize'),
     ('stop criteria', MIN + ':Optimizer.check_convergence'),
     ('state', MIN + ':Optimizer.update'),
     ('initial matrix', HESS + ':HessianApproximation._init_mat')],
    ['arguments of the objective', 'attributes of the optimizer'],
)
prop(
    'C32',
    'The model is exact on unconstrained quadratic objectives',
    'For quadratic objectives without bounds (convex, indefinite or linear) '
    'with exact Hessian, in residual mode with linear residuals, or with an '
    'iterative scheme that starts with the exact Hessian, every trial is '
    'accepted, the radius is multiplied by gamma2 after every step to the '
    'boundary of the trust region and unchanged otherwise, and the matrix '
    'stays the Hessian. The full solver takes the best step within the '
    'radius. Strictly convex problems are solved by the full and 2D solvers '
    'in the number of iterations after which the radius reaches the distance '
    'to the minimum, ending with GTOL at the minimum.',
    ['inputs', 'configurations'],
    'all quadratic objectives above rounding errors, solvers, radius '
    'parameters, schemes',
    'A model that is slightly wrong still converges, only in more '
    'iterations; tests check that a minimum is reached.',
    [MIN, STEPS, SUB, HESS],
    [('ratio and radius', MIN + ':Optimizer.update_tr_radius'),
     ('subproblem', SUB + ':solve_nd_trust_region_subproblem'),
     ('updates', HESS + ':IterativeHessianApproximation')],
    ['arguments of the objective', 'return value of Optimizer.minimize',
     'attributes of the optimizer'],
)

NOTES = {}
if os.path.exists(os.path.join(HERE, 'tools', 'notes.json')):
    NOTES = json.load(open(os.path.join(HERE, 'tools', 'notes.json')))


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    checks, missing = [], []
    for p in P:
        path = os.path.join(HERE, 'vf', 'props', p['id'].lower() + '.py')
        if not os.path.exists(path):
            missing.append(
                {
                    'property': p['id'],
                    'reason': 'the check for this property is still to be built',
                }
            )
            continue
        cmd = f'/opt/venv/bin/python run.py {p["id"]}'
        checks.append(
            {
                'property': p['id'],
                'quick_cmd': cmd,
                'thorough_cmd': f'VERIF_TIER=thorough {cmd}',
                'evidence_file': f'evidence/{p["id"]}.json',
                'technique': NOTES.get(p['id'], {}).get(
                    'technique',
                    'property-based testing (Hypothesis) against a reference '
                    'model',
                ),
                'level': 'exploration',
                'level_note': NOTES.get(p['id'], {}).get(
                    'note',
                    'Generated cases only, no proof; trusts numpy, scipy and '
                    'the reference model in vf/ref.py.',
                ),
            }
        )
    man = {
        'version': 1,
        'setup_cmd': '/opt/venv/bin/python run.py --selftest',
        'checks': checks,
        'not_applicable': missing,
        'notes': 'All checks are generated-case searches with explicit '
        'oracles, see DESIGN.md. No hooks in /repo are needed.',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks,', len(missing), 'missing')


main()
