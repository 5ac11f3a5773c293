"""Structured secant approximations follow their published definition."""
import numpy as np
from hypothesis import strategies as st
from numpy.linalg import norm

from .. import gen, ref, trace
from ..engine import call, check
from . import hess_common as hc

PROPERTY = 'C10'
LEVEL = 'exploration'
QUICK = 20000
THOROUGH = 300000
RULE = (
    'SSM, TSSM or GNSBFGS with random parameters and sequences of 1-6 tuples '
    '(s, y, r, C, yb), compared with a reference model that keeps the '
    'structured matrix itself. Vanishing residuals and degenerate pairs '
    'included (only finiteness is required after these). Non-trivial: at '
    'least two updates of the structured part.'
)
ASSUMPTIONS = ['steps are non-zero']


@st.composite
def _case(draw):
    n = draw(st.integers(1, 4))
    d = draw(gen.structured())
    seq = []
    for _ in range(draw(st.integers(1, 6))):
        seq.append({
            's': draw(gen.vec(n)),
            'y': draw(gen.vec(n)),
            'yb': draw(gen.vec(n)),
            'k': draw(
                st.sampled_from(['pos', 'pos', 'any', 'any', 'neg', 'zero'])
            ),
            'C': draw(hc.matrix(n, ('psd', 'diag', 'psd', 'eye'))),
            'r': draw(
                st.one_of(gen.vec(2), gen.vec(2), st.just([0.0, 0.0]))
                if draw(st.integers(0, 3)) == 0 else gen.vec(2)
            ),
            'ys': draw(st.sampled_from([1.0, 1.0, 0.1, 1e-3, 10.0])),
        })
    return {'n': n, 'hu': d, 'seq': seq,
            'B': draw(st.one_of(st.none(), hc.matrix(n)))}


def strategy(tier):
    return _case()


def run_case(c, rec):
    n, d = c['n'], c['hu']
    k = d['k']
    h = trace.hess_scheme(d)
    if c['B'] is None:
        call('_init_mat', h._init_mat, n)
        old = np.eye(n)
    else:
        old = hc.build_matrix(c['B'], n)
        arg = old.copy()
        call('_init_mat', h._init_mat, n, arg)
        arg[:] = np.nan
    check(np.array_equal(h.get_mat(), old), 'initial matrix is not used')
    rec.label(k)
    A = ref.EPS * np.eye(n)
    exact = True  # reference state is still well defined
    good = 0
    amp = 1.0
    for i, p in enumerate(c['seq']):
        s = np.array(p['s'])
        if not np.any(s):
            s[0] = 1.0
        y, r = np.array(p['y']), np.array(p['r'])
        yb = np.array(p['yb']) * p['ys']
        C = hc.build_matrix(p['C'], n)
        if p['k'] == 'zero':
            yb = np.zeros(n)
        elif p['k'] == 'pos' and yb @ s < 0 or p['k'] == 'neg' and yb @ s > 0:
            yb = -yb
        nr = norm(r)
        what = f'update {i} of {d}'
        args = {'s': s, 'y': y, 'r': r, 'hess': C, 'yb': yb}
        keep = {a: v.copy() for a, v in args.items()}
        prev = h.get_mat()
        prev_copy = prev.copy()
        call('update', h.update, **args)
        check(
            all(np.array_equal(keep[a], v) for a, v in args.items()),
            f'{what}: arguments were modified',
        )
        check(
            np.array_equal(prev, prev_copy),
            f'{what}: changed a matrix that was handed out before',
        )
        new, diff = h.get_mat(), h.get_diff()
        sdiff = np.array(h.get_structured_diff())
        # independent copies, in both directions
        for a, v in args.items():
            args[a] = v.copy()
            v[:] = np.nan
        s, y, r, C, yb = (args[a] for a in ('s', 'y', 'r', 'hess', 'yb'))
        for get in (h.get_mat, h.get_diff, h.get_structured_diff):
            get()[:] = np.nan
        check(
            np.array_equal(h.get_mat(), new, equal_nan=True)
            and np.array_equal(h.get_diff(), diff, equal_nan=True)
            and np.array_equal(
                h.get_structured_diff(), sdiff, equal_nan=True
            ),
            f'{what}: matrices handed out or passed in are not independent '
            f'copies',
        )
        check(np.all(np.isfinite(new)), f'{what}: not finite')
        check(np.all(np.isfinite(sdiff)), f'{what}: difference not finite')
        check(
            norm(new - prev - diff)
            <= 1e-12 * (norm(new) + norm(prev) + norm(diff)),
            f'{what}: difference is not new minus old',
        )
        if norm(new) > 1e10 or norm(sdiff) > 1e10:
            break
        if not exact:
            continue
        if k == 'GNSBFGS':
            ratio = (yb @ s) / (s @ s)
            scale = norm(yb) / norm(s)
            if abs(ratio - d['tol']) <= 1e-9 * (scale + d['tol']) and not (
                ratio == 0.0 and not np.any(yb)
            ):
                exact = False
                rec.label('ambiguous switch')
                continue
            if ratio > d['tol']:
                kind = 'BFGS'
                Bs, ys, div = A, yb, 1.0
            else:
                kind = 'first order'
        else:
            kind = 'secant'
            div = nr if k == 'TSSM' else 1.0
            Bs, ys = C + div * A, C @ s + yb
        if kind == 'first order':
            Anew = A
            want = C + nr * np.eye(n)
        else:
            desc = {'k': 'Broyden',
                    'phi': 0.0 if k == 'GNSBFGS' else d['phi'],
                    'enforce': d['enforce']}
            deg = ref.degeneracy(desc, Bs, s, ys)
            if deg < 1e-2:
                exact = False
                rec.label('degenerate pair')
                continue
            upd = ref.update_iterative(desc, Bs, s, ys) - Bs
            if k == 'TSSM' and nr == 0:
                # B is the Gauss-Newton matrix whatever the structured part
                rec.label('zero residual')
                check(
                    norm(new - C) <= 1e-10 * (1 + norm(C)),
                    f'{what}: not the Gauss-Newton matrix for zero residual',
                )
                exact = False
                continue
            if np.any(upd):
                good += 1
            else:
                kind = 'skipped'
            Anew = A + upd / div
            want = C + div * Anew
            amp = max(amp, 1 / deg**2)
            if kind == 'secant':
                e = norm(new @ s - ys)
                check(
                    e <= 1e-8 * amp * (norm(Bs) * norm(s) + norm(ys)),
                    f'{what}: secant equation violated by {e:.3g}',
                )
        rec.label(kind)
        scale = norm(want) + norm(Anew) * (1 + nr) + norm(A) * (1 + nr)
        e = norm(new - want)
        check(
            e <= 1e-8 * amp * scale,
            f'{what} ({kind}): differs from the definition by {e:.3g}, '
            f'scale {norm(want):.3g}',
        )
        e = norm(sdiff - (Anew - A))
        check(
            e <= 1e-8 * amp * scale / (min(1, nr) if k == 'TSSM' else 1),
            f'{what} ({kind}): structured difference is off by {e:.3g}',
        )
        A = Anew
    rec.nontrivial(good >= 2)
