import subprocess,json
log=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h|%s','b434849..HEAD'],capture_output=True,text=True).stdout.strip().splitlines()
M={ # subject -> (property, what failed)
'fix: store bounds and x0 as floats':('C19','integer lb/ub truncated the iterates to integers (run ended at a wrong point), integer x0 was not displaced from bounds'),
'fix: store Hessian approximations as floats':('C27','integer hess0 or integer Gauss-Newton matrices crashed the in-place update or truncated it'),
'fix: skip the SR1 update if the approximation is already exact':('C09','SR1 with y == B s produced NaN (0/0)'),
'fix: skip Broyden class updates that divide by zero':('C09','Broyden class with enforce_curv_cond=False and s orthogonal to y, or s\'Bs == 0, produced NaN/inf'),
"fix: apply Broyden's bad update and make it satisfy the secant equation":('C08','BB never applied its update and its formula violated the secant equation'),
'fix: reset hybrid switching when a new optimization is started':('C17','a reused HybridFixed/HybridFraction stayed switched in the next run'),
'fix: keep the TSSM approximation finite when residuals vanish':('C10','TSSM divided by ||r|| == 0'),
'fix: validate solver and stepback choices given under string keys':('C20','invalid solver/strategy names under string keys were accepted'),
'fix: check gradient convergence at the point that is kept':('C13','a rejected trial with small gradient ended the run as converged (GTOL) at a point with large gradient'),
'fix: reset the exitflag when a new optimization is started':('C17','exit flag of the previous run was visible during the next run'),
'fix: allow residual functions without a Hessian update scheme':('C24','resfun=True without scheme expected three outputs and could not be used'),
'fix: do not divide by the curvature in one-dimensional problems':('C06','one variable with zero curvature: NaN step was evaluated'),
'fix: step back the full conjugate gradient step':('C06','scg: step that was stepped back and its predicted value were inconsistent'),
'fix: guarantee termination of the conjugate gradient iteration':('C14','scg with non-symmetric approximations (BG) could loop forever; NaN for zero gradients'),
'fix: keep the gradient in the 2D subspace if there is no Newton step':('C07','2D with singular Hessian: no Newton step, run got stuck at a non-stationary point'),
'fix: orthonormalize the subspace of truncated steps':('C06','truncated steps exceeded the radius'),
'fix: account for the truncated part when re-solving truncated steps':('C07','truncated re-solve ignored the cross term with the truncated part'),
'fix: use orthonormal eigenvectors in the n-dimensional subproblem':('C04','repeated eigenvalues: eigenvectors were not orthogonal, solutions exceeded the radius or were not optimal'),
'fix: only treat the hard case of the subproblem as such':('C04','ordinary boundary cases were treated as hard case, with far from optimal solutions'),
'fix: move degenerate points off the bounds for large variables':('C26','the displacement off a bound was lost to rounding for |x| >= 1e3'),
'fix: do not add rounding errors to the 2D subspace':('C06','2D: (anti)parallel Newton and gradient directions gave a non-orthogonal subspace and steps of 1.4 times the radius, then NaN points'),
'fix: do not exceed bounds by rounding errors':('C01','trial points one ulp outside of a bound aborted the run with RuntimeError'),
'fix: keep the boundary solution finite if the start is on the boundary':('C05','offset on the sphere and orthogonal direction: NaN step, NaN point was evaluated'),
'fix: keep truncated variables truncated when orthonormalizing':('C07','truncation loop did not terminate: rounding in the orthonormalization made a truncated variable move again'),
'fix: solve for the multiplier of the subproblem with relative precision':('C04','small multipliers were only resolved absolutely to 1e-12, with far from optimal solutions for badly scaled problems'),
'fix: check dimensions of the objective output before using it':('C21','Python scalars as gradient or Hessian and other malformed outputs failed with AttributeError before they could be refused with ValueError'),
'fix: refuse scalar x0':('C21','a scalar start failed with IndexError instead of ValueError'),
'fix: refuse initial Hessian approximations that are not square matrices':('C21','non-square or higher-dimensional hess0 were accepted and failed later with unrelated errors'),
'fix: raise TypeError for infinite maxiter':('C20','maxiter=inf raised OverflowError instead of TypeError'),
'fix: do not share arrays with the objective function':('C17','objectives that reuse their output arrays or overwrite their argument corrupted the state: wrong results, points outside of the bounds were returned'),
'fix: compare Newton steps with the radius in relative terms':('C04','for radii below 1e-8, solutions up to 1.5e-8 longer than the radius (by any factor) were accepted'),
'fix: keep refined steps within the trust region':('C06','refined steps exceeded the radius (up to several hundred times) if the refinement did not converge'),
'fix: hand out a copy of the structured update':('C10','changing the matrix returned by get_structured_diff changed the structured difference that is reported (and recorded) later'),
'fix: treat integer outputs of the objective as real numbers':('C19','integer gradients: distances to bounds were truncated to integers, runs got stuck at the start; integer residuals and Jacobians: TSSM and GNSBFGS failed with UFuncTypeError'),
'fix: do not report results of an earlier run if a run fails early':('C29','an optimizer whose second run failed in the first evaluation reported value, gradient, Hessian and x_min of the first run'),
'fix: resolve multipliers close to the smallest eigenvalue':('C04','nearly repeated smallest eigenvalues (relative gap up to 1e-9): the fallback to the hard case returned steps of up to twice the radius'),
'fix: account for the magnitude of the iterate when clipping trial points':('C30','reflection from an iterate at 1e3 to a bound at 1e-3: the trial point was outside of the bound by the rounding error of the iterate and was evaluated'),
'fix: do not move points out of boxes that have no room for it':('C01','bounds that (nearly) coincide, such as a box of width 1e-16: the displacement off a bound left the box, and the run failed with RuntimeError'),
'fix: refine steps of problems with variables fixed by their bounds':('C22','strategy refine with lb == ub for a variable: ValueError of the optimizer that is used for the refinement'),
}
out=[]
for l in log:
    h,s=l.split('|',1)
    if not s.startswith('fix:'): continue
    assert s in M,s
    p,w=M[s]
    out.append(json.dumps({'status':'fixed','property':p,'commit':h,'what':w,'line':f'fixed: property={p} {h} {w}'}))
open('/verif/known_findings.jsonl','w').write('\n'.join(out)+'\n')
print(len(out))
