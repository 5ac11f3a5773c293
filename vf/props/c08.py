"""Quasi-Newton updates satisfy their secant and least-change laws."""
import numpy as np
from hypothesis import strategies as st
from numpy.linalg import norm

from .. import gen, ref, trace
from ..engine import call, check
from . import hess_common as hc

PROPERTY = 'C08'
LEVEL = 'exploration'
QUICK = 16000
THOROUGH = 300000
RULE = (
    'Scheme, dimension 1-5, initial matrix and a sequence of 1-6 pairs (s, y) '
    'of several kinds. Every update is compared with the textbook formula '
    'applied to the matrix observed before the update, and with the laws: '
    'secant equation, unchanged action on the orthogonal complement (both '
    'Broyden methods), convex combination (Broyden class), recovery of the '
    'Hessian of a quadratic (SR1). Non-trivial: at least two well-conditioned '
    'updates that were not skipped.'
)
ASSUMPTIONS = [
    'Updates whose denominators are below 1e-3 relative are not compared '
    '(rounding decides there); C09 covers these.'
]
DEG = 1e-3


@st.composite
def _case(draw):
    n = draw(st.integers(1, 5))
    d = draw(gen.iterative())
    d['phi2'] = draw(st.integers(0, 10)) / 10
    mk = ('eye', 'psd', 'diag', 'psd')
    if d['k'] == 'SR1':
        mk += ('sym',)
    elif d['k'] in ('BG', 'BB'):
        mk += ('full', 'full')
    return {
        'n': n,
        'hu': d,
        'B': draw(hc.matrix(n, mk)),
        'H': draw(hc.matrix(n, ('psd', 'sym', 'diag'))),
        'pairs': draw(
            hc.pairs(
                n, ('generic', 'quadratic', 'positive', 'positive', 'small',
                    'large', 'ill', 'negative'),
            )
        ),
        'recover': draw(st.booleans()),
    }


def strategy(tier):
    return _case()


def fresh(d, B):
    h = trace.hess_scheme(d)
    call('_init_mat', h._init_mat, len(B), B.copy())
    return h


def step(h, s, y):
    call('update', h.update, s.copy(), y.copy())
    return h.get_mat()


def run_case(c, rec):
    n, d = c['n'], c['hu']
    B0 = hc.build_matrix(c['B'], n)
    H = hc.build_matrix(c['H'], n)
    h = fresh(d, B0)
    check(
        np.allclose(h.get_mat(), B0, rtol=1e-14, atol=0),
        'initial matrix is not used as given',
    )
    good = 0
    rec.label(d['k'])
    ps = c['pairs']
    if d['k'] == 'SR1' and c['recover']:
        # n independent steps on a quadratic
        S = np.array([np.resize(p['s'] + p['y'], n) for p in ps][:n])
        S = np.resize(S, (n, n)) + 3 * np.eye(n)
        if np.linalg.cond(S) < 50:
            ok = True
            for s in S:
                B = h.get_mat()
                if ref.degeneracy(d, B, s, H @ s) < 0.03:
                    ok = False
                    break
                step(h, s, H @ s)
            if ok:
                rec.label('SR1 recovery')
                rec.nontrivial()
                err = norm(h.get_mat() - H)
                check(
                    err <= 1e-6 * (norm(H) + norm(B0)),
                    f'SR1 differs from the Hessian of the quadratic by '
                    f'{err:.3g} after {n} independent steps',
                )
            h = fresh(d, B0)
    for k, p in enumerate(ps):
        B = h.get_mat()
        if norm(B) > 1e8 or (d['k'] not in ('BG', 'BB') and not np.all(
            np.isfinite(B)
        )):
            break
        s, y = hc.build_pair(p, B, H)
        deg = ref.degeneracy(d, B, s, y)
        new = step(h, s, y)
        if deg < DEG:
            rec.label('degenerate pair')
            continue
        want = ref.update_iterative(d, B, s, y)
        skipped = np.array_equal(want, B)
        amp = (norm(B) + norm(y) / norm(s)) / deg**2
        err = norm(new - want)
        check(
            err <= 1e-9 * amp,
            f'update {k} of {d}: differs from the published formula by '
            f'{err:.3g} (scale {amp:.3g})',
        )
        if skipped:
            rec.label('skipped')
            continue
        good += 1
        err = norm(new @ s - y)
        check(
            err <= 1e-9 * amp * norm(s),
            f'update {k} of {d}: secant equation violated by {err:.3g}',
        )
        # orthogonal complement
        if n > 1 and d['k'] in ('BG', 'BB'):
            a = s if d['k'] == 'BG' else y
            t = np.array(ps[0]['y']) + np.arange(1, n + 1) * 0.1
            nt = norm(t)
            t = t - a * (a @ t) / (a @ a)
            if norm(t) < 1e-6 * nt:
                rec.label('no orthogonal direction')
            elif d['k'] == 'BG':
                e = norm(new @ t - B @ t)
                check(
                    e <= 1e-9 * amp * norm(t),
                    f'BG changed the matrix by {e:.3g} orthogonal to s',
                )
            elif np.linalg.cond(B) < 1e5:
                z = np.linalg.solve(B, t)
                e = norm(new @ z - t)
                check(
                    e <= 1e-9 * (amp * norm(z) + norm(t)),
                    f'BB changed the inverse by {e:.3g} orthogonal to y',
                )
                rec.label('BB inverse')
        if d['k'] in ('Broyden', 'BFGS', 'DFP'):
            m = {}
            for phi in (0.0, c['hu']['phi2'], 1.0):
                m[phi] = step(
                    fresh({'k': 'Broyden', 'phi': phi, 'enforce':
                           d['enforce']}, B), s, y,
                )
            phi = c['hu']['phi2']
            comb = (1 - phi) * m[0.0] + phi * m[1.0]
            e = norm(m[phi] - comb)
            check(
                e <= 1e-9 * amp,
                f'Broyden({phi}) is not the convex combination of BFGS and '
                f'DFP, difference {e:.3g}',
            )
    rec.label(f'good updates {min(good, 4)}')
    rec.nontrivial(good >= 2)
