"""Runs with tight tolerances end at first-order points."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, trace
from ..engine import Reject, check

PROPERTY = 'C23'
LEVEL = 'exploration'
QUICK = 3000
THOROUGH = 20000
RULE = (
    'Smooth objectives (quartics with indefinite Hessian, trigonometric, '
    'exponential sums, nonlinear least squares, barriers, Rosenbrock) with '
    'all kinds of bounds, exact Hessians (or Gauss-Newton in residual mode), '
    'all solvers, strategies and radius parameters, tight tolerances. At the '
    'returned point the projected gradient has to vanish relative to the '
    'scale of the problem. Non-trivial: the Hessian is indefinite at some '
    'iterate or a bound is active at the end.'
)
TOL = 1e-4


@st.composite
def _case(draw):
    residual = draw(st.integers(0, 4)) == 0
    types = ('lsq',) if residual else (
        'quartic', 'trig', 'expo', 'lsq', 'rosen', 'barrier', 'quad',
        'quartic', 'trig',
    )
    p = draw(gen.problem(types=types, shift=False))
    sub, sb = draw(gen.solver())
    opt = {
        'subspace_solver': sub, 'stepback_strategy': sb,
        'maxiter': 1000 if sb != 'refine' else 150,
        'fatol': 0.0, 'frtol': 0.0, 'xtol': 0.0, 'gatol': 1e-8,
        'grtol': 0.0,
    }
    if draw(st.booleans()):
        opt['delta_init'] = draw(gen.logpos(-2, 2))
        opt['theta_max'] = draw(st.sampled_from([0.95, 0.5, 0.99]))
        opt['mu'] = draw(st.sampled_from([0.25, 0.1]))
        opt['gamma1'] = draw(st.sampled_from([0.25, 0.5]))
        opt['gamma2'] = draw(st.sampled_from([2, 1.5, 4.0]))
    return {'p': p, 'residual': residual, 'options': opt, 'hu': None}


def strategy(tier):
    return _case()


def projected(x, g, lb, ub):
    return x - np.minimum(np.maximum(x - g, lb), ub)


def run_case(case, rec):
    p = case['p']
    lb, ub = np.array(p['lb']), np.array(p['ub'])
    tr = trace.run(case)
    f, x, g, h = tr.result
    name = tr.exitname
    rec.label(
        name, p['obj']['type'], case['options']['subspace_solver'],
        case['options']['stepback_strategy'],
    )
    if name == 'MAXITER':
        raise Reject()
    pg = float(np.max(np.abs(projected(x, g, lb, ub))))
    g0 = float(
        max(np.max(np.abs(projected(e.x, e.g, lb, ub))) for e in tr.evals[:1])
    )
    hn = float(np.linalg.norm(h, 2))
    # accuracy that is possible with the resolution of f
    eps = np.spacing(1)
    res = np.sqrt(eps * (1 + abs(f)) * (1 + hn))
    scale = 1 + g0 + hn
    r = pg / (TOL * scale + 10 * res)
    if pg / scale > 1e-9:
        rec.label(f'pg 1e{int(np.ceil(np.log10(pg / scale)))}')
    check(
        r <= 1,
        f'run ended with {name} after {len(tr.evals) - 1} iterations at '
        f'{x.tolist()} with gradient {g.tolist()}, projected gradient '
        f'{pg:.3g}, scale {scale:.3g}, bounds {p["lb"]}, {p["ub"]}',
    )
    indef = any(
        np.linalg.eigvalsh(0.5 * (e.h + e.h.T))[0] < -1e-6
        for e in tr.evals[:8]
        if np.all(np.isfinite(e.h))
    )
    active = bool(np.any((np.abs(x - lb) < 1e-6) | (np.abs(x - ub) < 1e-6)))
    if indef:
        rec.label('indefinite')
    if active:
        rec.label('active')
    rec.nontrivial(indef or active)
