"""Strictly convex quadratic problems are solved to the constrained minimum."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref, trace
from ..engine import Reject, check
from ..probs import objective

PROPERTY = 'C22'
LEVEL = 'exploration'
QUICK = 3000
THOROUGH = 20000
RULE = (
    'Strictly convex quadratics (condition at most 1e4, dimension 1-4, also '
    'as linear least squares in residual mode), bounds of all kinds, all '
    'configurations with tight tolerances; oracle: minimum over all active '
    'sets; some variables are fixed by their bounds. Non-trivial: at least one bound is active at the minimum.'
)
REL = 1e-4


@st.composite
def _case(draw):
    typ = draw(st.sampled_from(['quad', 'quad', 'lsq']))
    n = draw(st.integers(1, 4))
    x0 = draw(gen.vec(n))
    lb, ub = draw(gen.bounds(x0))
    c = [a + b for a, b in zip(x0, draw(gen.vec(n)), strict=True)]
    residual = False
    if typ == 'quad':
        o = {
            'type': 'quad', 'c': c,
            'L': draw(gen.vec(n * (n + 1) // 2)),
            'mu': draw(st.sampled_from([0.1, 1.0, 10.0])),
            'off': draw(st.sampled_from([0.0, 1.0, -10.0])),
        }
    else:
        m = draw(st.integers(n, n + 2))
        A = np.zeros((m, n))
        A[:n] += 2 * np.eye(n)
        A += np.array(draw(gen.vec(m * n, gen.unit))).reshape(m, n)
        o = {
            'type': 'lsq', 'c': c, 'A': [float(v) for v in A.ravel()],
            'Q': [0.0] * (m * n), 'e': draw(gen.vec(m)), 'off': 0.0,
        }
        residual = draw(st.booleans())
    sub, sb = draw(gen.solver())
    opt = {
        'subspace_solver': sub, 'stepback_strategy': sb,
        'maxiter': 500 if sb != 'refine' else 150,
        'fatol': 0.0, 'frtol': 0.0, 'xtol': 0.0, 'gatol': 1e-8,
        'grtol': 0.0,
    }
    if draw(st.booleans()):
        opt['delta_init'] = draw(gen.logpos(-2, 3))
        opt['theta_max'] = draw(st.sampled_from([0.95, 0.5, 0.99]))
        opt['mu'] = draw(st.sampled_from([0.25, 0.1]))
        opt['gamma1'] = draw(st.sampled_from([0.25, 0.5]))
        opt['gamma2'] = draw(st.sampled_from([2, 1.5, 4.0]))
    p = {'n': n, 'x0': x0, 'lb': lb, 'ub': ub, 'obj': o}
    gen.narrow(draw, p)
    return {
        'p': p,
        'residual': residual,
        'options': opt,
        'hu': draw(gen.scheme(residual)),
    }


def strategy(tier):
    return _case()


def run_case(case, rec):
    p = case['p']
    n = p['n']
    obj = objective(p)
    lb, ub = np.array(p['lb']), np.array(p['ub'])
    f0, g0, H = obj.full(np.zeros(n))
    if np.linalg.cond(H) > 1e4:
        raise Reject()
    # f(x) = 1/2 x'Hx + g0'x + f0
    c = -np.linalg.solve(H, g0)
    _, xs = ref.box_qp(H, c, lb, ub)
    fs = obj.full(xs)[0]
    active = bool(np.any((xs == lb) | (xs == ub)))
    tr = trace.run(case)
    f = tr.result[0]
    start = tr.evals[0].f
    gap = f - fs
    scale = abs(start - fs) + 1e-8 * (1 + abs(fs))
    rel = gap / scale
    rec.label(
        trace.scheme_name(case['hu']),
        case['options']['subspace_solver'],
        case['options']['stepback_strategy'],
        tr.exitname,
        'active' if active else 'interior',
    )
    if rel > 1e-8:
        rec.label(f'gap 1e{int(np.ceil(np.log10(rel)))}')
    check(
        rel <= REL,
        f'gap {gap:.3g} (relative {rel:.3g}) to the constrained minimum '
        f'{fs:.6g} at {xs.tolist()} after {len(tr.evals) - 1} iterations, '
        f'exit flag {tr.exitname}, x {np.asarray(tr.result[1]).tolist()}',
    )
    rec.nontrivial(active)
