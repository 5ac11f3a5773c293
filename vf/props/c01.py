"""Every evaluated and returned point is finite and within the bounds."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, trace
from ..engine import Violation, call, check

PROPERTY = 'C01'
LEVEL = 'exploration'
QUICK = 2400
THOROUGH = 40000
RULE = (
    'Random problem (8 families of objectives, 1-4 variables, mixed finite / '
    'infinite bounds, x0 inside, near or on bounds), random solver, step-back '
    'strategy, Hessian scheme, tolerances and trust-region parameters; also '
    '(nearly) coinciding bounds of a variable; starts outside of the bounds or non-finite starts. Non-trivial: at least '
    '3 evaluations and a finite bound is closer than 5% of its distance at the '
    'start for some evaluated point, or the start is refused.'
)


@st.composite
def _case(draw):
    c = draw(gen.run_case(warm=True))
    k = draw(st.integers(0, 11))
    n = c['p']['n']
    if c['p']['obj']['type'] != 'barrier':
        gen.narrow(draw, c['p'])
    if k == 0:
        c['bad'] = {
            'i': draw(st.integers(0, n - 1)),
            'side': draw(st.sampled_from(['lb', 'ub', 'nan', 'inf', '-inf'])),
            'by': draw(st.sampled_from([1.0, 1e-3, 1e-6, 100.0])),
        }
    return c


def strategy(tier):
    return _case()


def run_case(case, rec):
    p = case['p']
    lb, ub = np.array(p['lb']), np.array(p['ub'])
    if case.get('bad'):
        return refused(case, rec, lb, ub)
    tr = trace.run(case)
    rec.label(
        *(case['options'][k] for k in ('subspace_solver', 'stepback_strategy')),
        trace.scheme_name(case['hu']),
        p['obj']['type'],
        tr.exitname,
    )
    close = False
    x0 = np.array(p['x0'])
    with np.errstate(all='ignore'):
        d0 = np.minimum(x0 - lb, ub - x0)
    for k, e in enumerate(tr.evals):
        check(
            np.all(np.isfinite(e.x)),
            f'evaluation {k}: non-finite point {e.x}',
        )
        check(
            np.all(e.x >= lb) and np.all(e.x <= ub),
            f'evaluation {k} at {e.x.tolist()} outside of the bounds, by '
            f'{np.max(np.maximum(lb - e.x, e.x - ub)):.3g}',
        )
        with np.errstate(all='ignore'):
            d = np.minimum(e.x - lb, ub - e.x)
        if np.any(d < 0.05 * d0):
            close = True
    f, x, g, h = tr.result
    for what, pt in (('returned point', x), ('recorded minimum', tr.opt.x_min)):
        pt = np.asarray(pt)
        check(
            pt.shape == (p['n'],) and np.all(np.isfinite(pt)),
            f'{what} is {pt}',
        )
        check(
            np.all(pt >= lb) and np.all(pt <= ub),
            f'{what} {pt.tolist()} is outside of the bounds',
        )
    check(np.isfinite(f), f'returned function value {f}')
    check(len(tr.evals) >= 1, 'x0 was not evaluated')
    if np.any((x0 == lb) | (x0 == ub)):
        rec.label('start on bound')
    rec.nontrivial(close and len(tr.evals) >= 3)


def refused(case, rec, lb, ub):
    import fides

    p = case['p']
    b = case['bad']
    i, by = b['i'], b['by']
    x0 = np.array(p['x0'], dtype=float)
    side = b['side']
    if side == 'lb' and np.isfinite(lb[i]):
        x0[i] = lb[i] - by * max(1.0, abs(lb[i]))
    elif side == 'ub' and np.isfinite(ub[i]):
        x0[i] = ub[i] + by * max(1.0, abs(ub[i]))
    elif side == 'inf':
        x0[i] = np.inf
    elif side == '-inf':
        x0[i] = -np.inf
    else:
        x0[i] = np.nan
    rec.label('refused start', f'refused {side}')
    rec.nontrivial()
    tr = trace.Trace()
    trace.build(case, tr)
    try:
        tr.opt.minimize(x0)
    except RuntimeError:
        pass
    except Exception as e:
        raise Violation(
            f'start {x0.tolist()} outside of the bounds raised '
            f'{type(e).__name__}, not RuntimeError'
        ) from e
    else:
        raise Violation(f'start {x0.tolist()} was accepted')
    finally:
        trace.drop_logger(tr.opt)
    check(
        not tr.evals,
        f'start {x0.tolist()} was evaluated although it is not within bounds',
    )
    check(
        tr.opt.exitflag == fides.constants.ExitFlag.EXCEEDED_BOUNDARY,
        f'exit flag after a refused start is {tr.opt.exitflag!r}',
    )
