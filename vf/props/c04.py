"""The n-dimensional trust-region subproblem is solved globally."""
import numpy as np
from hypothesis import strategies as st
from numpy.linalg import norm

from .. import gen, ref
from ..engine import call, check

PROPERTY = 'C04'
LEVEL = 'exploration'
QUICK = 20000
THOROUGH = 200000
RULE = (
    'Symmetric matrices (generic, integer, diagonal, low rank, prescribed '
    'spectra with repeated, zero and negative eigenvalues), gradients '
    '(generic, integer, orthogonal to the eigenspace of the smallest '
    'eigenvalue, nearly orthogonal, zero), radii over 17 decades, scales over '
    '8 decades; oracle: global minimum by bisection on the multiplier in the '
    'eigenbasis. Non-trivial: the solution is on the boundary.'
)


@st.composite
def _case(draw):
    n = draw(st.integers(1, 5))
    kind = draw(
        st.sampled_from(['sym', 'spec', 'diag', 'psd', 'lowrank', 'hard', 'hard', 'close'])
    )
    c = {'n': n, 'kind': kind}
    small = st.integers(-3, 3).map(float)
    if kind in ('sym', 'psd'):
        el = draw(st.sampled_from(['int', 'num']))
        c['m'] = draw(gen.vec(n * (n + 1) // 2, small if el == 'int' else gen.num))
        c['mu'] = draw(st.sampled_from([0.0, 0.1, 1e-3]))
    elif kind == 'lowrank':
        c['m'] = draw(gen.vec(n))
        c['mu'] = draw(st.sampled_from([1.0, -1.0]))
    else:
        c['e'] = draw(gen.vec(n, st.one_of(small, gen.num)))
        if kind == 'close':
            # eigenvalues that agree up to the last digits, with gradients
            # for which the multiplier is resolved by these digits only
            e0 = draw(st.one_of(small, gen.num))
            gaps = draw(
                gen.vec(n, st.one_of(st.just(0.0), gen.logpos(-17, -9)))
            )
            c['e'] = [e0 + g * max(1.0, abs(e0)) for g in gaps]
            c['rotate'] = draw(st.booleans())
        if kind != 'diag':
            c['q'] = draw(gen.vec(n * n))
    gk = draw(st.sampled_from(['num', 'int', 'zero', 'near']))
    c['gk'] = gk
    c['g'] = draw(gen.vec(n, gen.num if gk in ('num', 'near') else small))
    if gk == 'zero':
        c['g'] = [0.0] * n
    if kind == 'hard':
        # amount of the gradient in the eigenspace of the smallest eigenvalue
        c['leak'] = draw(st.sampled_from([0.0, 0.0, 1e-16, 1e-14, 1e-12, 1e-9, 1e-6]))
    c['delta'] = draw(st.one_of(gen.logpos(-4, 5), gen.logpos(-12, 5)))
    c['scale'] = draw(st.sampled_from([1.0, 1.0, 1.0, 1e3, 1e-3, 1e6]))
    c['gscale'] = draw(
        st.sampled_from([1.0, 1.0, 1.0, 1e3, 1e-3, 1e-6, 1e-9])
    )
    return c


def strategy(tier):
    return _case()


def problem(c):
    n = c['n']
    kind = c['kind']
    if kind in ('sym', 'psd'):
        L = np.zeros((n, n))
        k = 0
        for i in range(n):
            for j in range(i + 1):
                L[i, j] = c['m'][k]
                k += 1
        B = L + L.T if kind == 'sym' else L @ L.T + c['mu'] * np.eye(n)
    elif kind == 'lowrank':
        v = np.array(c['m'])
        B = c['mu'] * np.outer(v, v)
    elif kind == 'diag' or kind == 'close' and not c['rotate']:
        B = np.diag(c['e'])
    else:
        Q, _ = np.linalg.qr(np.array(c['q']).reshape(n, n) + 1e-3 * np.eye(n))
        B = (Q * np.array(c['e'])) @ Q.T
    B = 0.5 * (B + B.T) * c['scale']
    g = np.array(c['g'], dtype=float) * c['gscale']
    if kind == 'hard':
        e = np.array(c['e'])
        w = Q.T @ g
        low = e - e.min() <= 1e-9 * max(1.0, np.abs(e).max())
        w[low] *= c['leak']
        g = Q @ w
    if kind == 'close':
        gap = np.abs(np.array(c['e']) - np.min(c['e'])) * c['scale']
        w = np.array(c['g']) * gap * c['delta']
        g = Q @ w if c['rotate'] else w
    return B, g


def run_case(c, rec):
    from fides.subproblem import solve_nd_trust_region_subproblem as solve

    B, g = problem(c)
    delta = c['delta']
    B0, g0 = B.copy(), g.copy()
    s, kind = call('solve_nd_trust_region_subproblem', solve, B, g, delta)
    check(
        np.array_equal(B, B0) and np.array_equal(g, g0),
        'the subproblem solver modified its inputs',
    )
    s = np.asarray(s)
    check(
        s.shape == (c['n'],) and np.all(np.isfinite(s)),
        f'solution is {s}',
    )
    check(
        norm(s) <= delta * (1 + 1e-6),
        f'norm {norm(s):.9g} exceeds the radius {delta}',
    )
    r = ref.tr_solve(B, g, delta)
    qs, qr = ref.quad(B, g, s), ref.quad(B, g, r)
    # rounding of the model value itself
    nrm = max(norm(r), norm(s))
    noise = 1e-13 * (norm(B) * nrm**2 + norm(g) * nrm)
    check(
        qs <= qr + 1e-6 * abs(qr) + noise,
        f'model value {qs:.12g} is worse than the minimum {qr:.12g} '
        f'(radius {delta}, norm of the solution {norm(s):.6g})',
    )
    e = np.linalg.eigvalsh(B)
    bnd = norm(r) > 0.999 * delta
    rec.label(
        c['kind'],
        'gradient zero' if not np.any(g) else 'gradient nonzero',
        'boundary' if bnd else 'interior',
        'definite' if e[0] > 0 else 'indefinite' if e[0] < 0 else 'singular',
        f'branch {kind}',
    )
    rec.nontrivial(bnd)
