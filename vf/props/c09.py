"""Approximations stay finite, symmetric, definite; differences and copies."""
import numpy as np
from hypothesis import strategies as st
from numpy.linalg import norm

from .. import gen, ref, trace
from ..engine import Violation, call, check
from . import hess_common as hc

PROPERTY = 'C09'
LEVEL = 'exploration'
QUICK = 20000
THOROUGH = 300000
RULE = (
    'Scheme, dimension 1-4, initial matrix and a sequence of 1-6 operations: '
    'updates with generic, exact (y = B s), orthogonal, zero, negative '
    'curvature, small and large pairs, and set_mat. Non-trivial: an update '
    'with a degenerate pair or with negative curvature takes place.'
)
ASSUMPTIONS = ['steps are non-zero']


@st.composite
def _case(draw):
    n = draw(st.integers(1, 4))
    d = draw(gen.iterative())
    ops = draw(hc.pairs(n))
    for p in ops:
        p['set'] = draw(st.integers(0, 9)) == 0
    return {
        'n': n,
        'hu': d,
        'B': draw(
            st.one_of(st.none(), hc.matrix(n, ('eye', 'psd', 'diag')))
        ),
        'H': draw(hc.matrix(n, ('psd', 'sym', 'diag'))),
        'pairs': ops,
        'M': draw(hc.matrix(n, ('psd', 'diag'))),
    }


def strategy(tier):
    return _case()


def run_case(c, rec):
    n, d = c['n'], c['hu']
    k = d['k']
    h = trace.hess_scheme(d)
    rec.label(k)
    if c['B'] is None:
        B0 = np.eye(n)
        call('_init_mat', h._init_mat, n)
    else:
        B0 = hc.build_matrix(c['B'], n)
        arg = B0.copy()
        call('_init_mat', h._init_mat, n, arg)
        arg[:] = np.nan
    check(np.array_equal(h.get_mat(), B0), 'initial matrix is not kept')
    H = hc.build_matrix(c['H'], n)
    M = hc.build_matrix(c['M'], n)
    broyden = k in ('BFGS', 'DFP', 'Broyden')
    worst = 1.0  # how degenerate the history is
    for i, p in enumerate(c['pairs']):
        what = f'update {i} ({p["k"]}) of {d}'
        if p['set']:
            arg = M.copy()
            call('set_mat', h.set_mat, arg)
            arg[:] = np.nan
            check(
                np.array_equal(h.get_mat(), M),
                'set_mat does not store an independent copy of the matrix',
            )
            try:
                h.set_mat(np.eye(n + 1))
            except ValueError:
                pass
            else:
                raise Violation('set_mat accepted a matrix of wrong shape')
            check(
                np.array_equal(h.get_mat(), M),
                'refused matrix changed the approximation',
            )
            worst = 1.0
            rec.label('set_mat')
        B = h.get_mat()
        keep = B.copy()
        s, y = hc.build_pair(p, B, H)
        s0, y0 = s.copy(), y.copy()
        call('update', h.update, s, y)
        check(
            np.array_equal(s, s0) and np.array_equal(y, y0),
            f'{what}: arguments were modified',
        )
        check(
            np.array_equal(B, keep),
            f'{what}: changed a matrix that was handed out before',
        )
        new, diff = h.get_mat(), h.get_diff()
        check(
            np.all(np.isfinite(new)), f'{what}: approximation is not finite'
        )
        check(np.all(np.isfinite(diff)), f'{what}: difference is not finite')
        check(
            norm(new - B - diff)
            <= 1e-12 * (norm(new) + norm(B) + norm(diff)),
            f'{what}: difference is not the new minus the old matrix',
        )
        # independent copies
        a, b = h.get_mat(), h.get_diff()
        a += 1.0
        b += 1.0
        check(
            np.array_equal(h.get_mat(), new)
            and np.array_equal(h.get_diff(), diff),
            f'{what}: matrices handed out are not independent copies',
        )
        deg = ref.degeneracy(d, B, s, y)
        worst = min(worst, deg)
        if norm(new) > 1e100:
            rec.label('huge')
            break
        if k not in ('BG', 'BB'):
            check(
                norm(new - new.T)
                <= 1e-11 * (norm(new) + norm(B)) / max(worst, 1e-3) ** 2
                or worst < 1e-3,
                f'{what}: not symmetric',
            )
        curv = y @ s
        cs = norm(y) * norm(s)
        if broyden and d['enforce'] and (
            curv < -1e-12 * cs or cs == 0
        ):
            rec.label('curvature condition violated')
            rec.nontrivial()
            check(
                np.array_equal(new, B) and not np.any(diff),
                f'{what}: changed the matrix although the curvature '
                f'condition is violated',
            )
        if (broyden and d['enforce'] or k == 'SR1') and curv > 0.01 * cs:
            if deg > 1e-3:
                check(
                    norm(new @ s - y)
                    <= 1e-8 * (norm(B) * norm(s) + norm(y)) / deg**2,
                    f'{what}: was not applied',
                )
        if k == 'SR1' and p['k'] == 'exact':
            check(
                norm(diff) <= 1e-6 * norm(B),
                f'{what}: exact approximation was changed',
            )
        if deg < 1e-3:
            rec.label('degenerate pair')
            rec.nontrivial()
        if broyden and d['enforce'] and worst > 1e-3:
            want = ref.update_iterative(d, B, s, y)
            e_ref = np.linalg.eigvalsh(0.5 * (want + want.T))
            e_new = np.linalg.eigvalsh(0.5 * (new + new.T))
            if e_ref[0] > 1e-8 * (e_ref[-1] + norm(B)):
                rec.label('definite')
                check(
                    e_new[0] > 0,
                    f'{what}: lost positive definiteness, lowest eigenvalue '
                    f'{e_new[0]:.3g}',
                )
