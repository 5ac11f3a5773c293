"""The one-dimensional subproblem is solved globally on its line."""
import numpy as np
from hypothesis import strategies as st
from numpy.linalg import norm

from .. import gen, ref
from ..engine import call, check

PROPERTY = 'C05'
LEVEL = 'exploration'
QUICK = 24000
THOROUGH = 200000
RULE = (
    'Symmetric matrices with positive, zero and negative curvature along the '
    'direction, offsets inside, near, and on the boundary of the ball, also '
    'orthogonal to the direction; oracle: closed form minimum over the '
    'feasible interval. Non-trivial: offset is non-zero.'
)


@st.composite
def _case(draw):
    n = draw(st.integers(1, 4))
    return {
        'n': n,
        'm': draw(gen.vec(n * (n + 1) // 2)),
        'scale': draw(st.sampled_from([1.0, 1.0, 0.0, 1e3, 1e-3])),
        'g': draw(gen.vec(n)),
        's': draw(gen.vec(n)),
        'unit': draw(st.booleans()),
        's0': draw(gen.vec(n, gen.unit)),
        'orth': draw(st.booleans()),
        # norm of the offset relative to the radius
        'frac': draw(
            st.one_of(
                st.sampled_from([0.0, 1.0, 1.0, 0.999999, 1e-9]),
                st.integers(0, 100).map(lambda i: i / 100),
            )
        ),
        'delta': draw(gen.logpos(-4, 4)),
        # units of the model and of the direction
        'units': draw(
            st.one_of(
                st.just([0, 0]),
                st.tuples(st.integers(-18, 10), st.integers(-8, 8)).map(list),
            )
        ),
    }


def strategy(tier):
    return _case()


def run_case(c, rec):
    from fides.subproblem import (
        get_1d_trust_region_boundary_solution as bnd,
        solve_1d_trust_region_subproblem as solve,
    )

    n, delta = c['n'], c['delta']
    B = np.zeros((n, n))
    k = 0
    for i in range(n):
        for j in range(i + 1):
            B[i, j] = B[j, i] = c['m'][k] * c['scale']
            k += 1
    g = np.array(c['g'])
    B *= 10.0 ** c['units'][0]
    g *= 10.0 ** c['units'][0]
    s = np.array(c['s'])
    if not np.any(s):
        s[0] = 1.0
    if c['unit']:
        s = s / norm(s)
    else:
        s = s * 10.0 ** c['units'][1]
    s0 = np.array(c['s0'])
    if c['orth']:
        s0 = s0 - s * (s @ s0) / (s @ s)
    if norm(s0) > 1e-6:
        s0 = s0 / norm(s0) * c['frac'] * delta
    else:
        s0 = np.zeros(n)
    scale = np.abs(B) @ np.abs(s0) @ np.abs(s0) + np.abs(g) @ np.abs(s0)
    scale += (norm(B) * delta + norm(g)) * delta
    t_ref, q_ref = ref.line_solve(B, g, s, s0, delta)

    sol = call(
        'solve_1d_trust_region_subproblem',
        solve, B.copy(), g.copy(), s.copy(), delta, s0.copy(),
    )
    sol = np.asarray(sol, dtype=float)
    check(
        sol.size == 1 and np.all(np.isfinite(sol)), f'solution is {sol}'
    )
    t = float(sol.ravel()[0])
    st_ = s0 + t * s
    check(
        norm(st_) <= delta * (1 + 1e-6),
        f'norm {norm(st_):.9g} exceeds the radius {delta}',
    )
    q = ref.quad(B, g, st_)
    check(
        q <= q_ref + 1e-7 * abs(q_ref - ref.quad(B, g, s0)) + 1e-7 * 1e-6 * scale,
        f'model value {q:.12g} at {t:.9g} is worse than the minimum '
        f'{q_ref:.12g} at {t_ref:.9g}',
    )
    tb = call(
        'get_1d_trust_region_boundary_solution',
        bnd, B.copy(), g.copy(), s.copy(), s0.copy(), delta,
    )
    tb = float(tb)
    lo, hi = ref.line_interval(s, s0, delta)
    qb = min(ref.quad(B, g, s0 + t * s) for t in (lo, hi))
    check(np.isfinite(tb), f'boundary solution is {tb}')
    check(
        abs(norm(s0 + tb * s) - delta) <= 1e-6 * delta,
        f'norm {norm(s0 + tb * s):.9g} of the boundary solution is not the '
        f'radius {delta}',
    )
    check(
        ref.quad(B, g, s0 + tb * s) <= qb + 1e-7 * scale,
        'the worse of both boundary solutions was selected',
    )
    curv = s @ B @ s
    rec.label(
        'zero curvature' if curv == 0 else
        'positive curvature' if curv > 0 else 'negative curvature',
        'no offset' if not np.any(s0) else
        'offset on boundary' if norm(s0) >= 0.9999 * delta else 'offset',
        'interior' if lo < t_ref < hi else 'boundary',
    )
    rec.nontrivial(np.any(s0))
