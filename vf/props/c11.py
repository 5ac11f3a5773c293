"""Hybrid approximations switch exactly when documented."""
import numpy as np
from hypothesis import strategies as st
from numpy.linalg import norm

from .. import gen, trace
from ..engine import call, check
from . import hess_common as hc

PROPERTY = 'C11'
LEVEL = 'exploration'
QUICK = 16000
THOROUGH = 300000
RULE = (
    'Sequences of updates of HybridFixed, HybridFraction and FX with random '
    'counters and residuals against a state machine that uses a separate '
    'instance of the iterative scheme; some sequences continue after a second '
    'initialization. Non-trivial: both the provided and the iterative matrix '
    'are selected during the sequence.'
)
ASSUMPTIONS = ['steps and previous residuals are non-zero']


@st.composite
def _case(draw):
    n = draw(st.integers(1, 3))
    d = draw(gen.hybrid(kinds=('HybridFixed', 'HybridFraction', 'FX')))
    if d['k'] == 'HybridFraction' and draw(st.booleans()):
        d['thr'] = draw(st.sampled_from([0.25, 0.5]))
    if d['k'] == 'HybridFixed' and draw(st.booleans()):
        d['switch'] = draw(st.integers(0, 6))
    seq = []
    for p in draw(hc.pairs(n, ('generic', 'positive', 'quadratic'), 2, 8)):
        p['C'] = draw(hc.matrix(n, ('psd', 'sym')))
        if d['k'] == 'HybridFixed':
            p['i'] = draw(st.integers(0, 7))
        elif d['k'] == 'HybridFraction':
            it = draw(st.sampled_from([1, 24, 25, 26, 27, 28, 32, 100]))
            p['it'] = it
            thr = d['thr']
            exact = int(round(thr * it))
            p['i'] = draw(
                st.sampled_from(
                    [0, exact, exact + 1, max(exact - 1, 0), it // 2]
                )
            )
            p['i'] = min(p['i'], it)
        else:
            p['rp'] = draw(gen.vec(2, gen.nz))
            p['f'] = draw(
                st.sampled_from([0.0, 0.3, 0.7, 0.9, 0.95, 1.0, 1.1])
            )
        p['init'] = draw(st.integers(0, 7)) == 0
        seq.append(p)
    return {
        'n': n,
        'hu': d,
        'seq': seq,
        'B': draw(st.one_of(st.none(), hc.matrix(n, ('psd', 'diag')))),
        'H': draw(hc.matrix(n, ('psd', 'sym'))),
    }


def strategy(tier):
    return _case()


def run_case(c, rec):
    n, d = c['n'], c['hu']
    k = d['k']
    h = trace.hess_scheme(d)
    base = d['happ'] or {'k': 'BFGS', 'enforce': True}
    H = hc.build_matrix(c['H'], n)
    rec.label(k)
    used = set()

    def init():
        it = trace.hess_scheme(base)
        if c['B'] is None:
            call('_init_mat', h._init_mat, n)
            it._init_mat(n)
        else:
            B = hc.build_matrix(c['B'], n)
            arg = B.copy()
            call('_init_mat', h._init_mat, n, arg)
            arg[:] = np.nan
            it._init_mat(n, B.copy())
        check(
            np.array_equal(h.get_mat(), it.get_mat()),
            'initial matrix is not used',
        )
        return it, False

    def update(what, **args):
        keep = {a: v.copy() for a, v in args.items() if np.ndim(v)}
        call('update', h.update, **args)
        check(
            all(np.array_equal(v, args[a]) for a, v in keep.items()),
            f'{what}: arguments were modified',
        )
        new, diff = h.get_mat(), h.get_diff()
        # independent copies, in both directions
        for a in keep:
            args[a][:] = np.nan
        h.get_mat()[:] = np.nan
        h.get_diff()[:] = np.nan
        check(
            np.array_equal(h.get_mat(), new, equal_nan=True)
            and np.array_equal(h.get_diff(), diff, equal_nan=True),
            f'{what}: matrices handed out or passed in are not independent '
            f'copies',
        )

    it, switched = init()
    for i, p in enumerate(c['seq']):
        if p['init'] and i:
            it, switched = init()
            rec.label('second initialization')
        what = f'update {i} of {d}'
        s, y = hc.build_pair(p, it.get_mat(), H)
        if norm(it.get_mat()) > 1e12:
            break
        C = hc.build_matrix(p['C'], n)
        prev = h.get_mat()
        keep = prev.copy()
        if k == 'HybridFixed':
            update(what, s=s.copy(), y=y.copy(), hess=C.copy(),
                   iter_since_tr_update=p['i'])
            it.update(s.copy(), y.copy())
            want = it.get_mat() if switched else C
            used.add(switched)
            switched = switched or p['i'] >= d['switch']
        elif k == 'HybridFraction':
            update(what, s=s.copy(), y=y.copy(), hess=C.copy(),
                   tr_nonupdates=p['i'], iterations=p['it'])
            it.update(s.copy(), y.copy())
            want = it.get_mat() if switched else C
            used.add(switched)
            if p['it'] > 25 and not switched:
                # a threshold that is met up to rounding is ambiguous
                # (not for thresholds with an exact product)
                if (
                    abs(p['i'] / p['it'] - d['thr']) < 1e-9
                    and d['thr'] not in (0.0, 0.25, 0.5)
                ):
                    rec.label('ambiguous threshold')
                    break
                switched = p['i'] / p['it'] > d['thr']
        else:
            rp = np.array(p['rp'])
            r = rp * np.sqrt(max(1 - p['f'], 0.0)) if p['f'] <= 1 else rp * 1.2
            ratio = (rp @ rp - r @ r) / (rp @ rp)
            if abs(ratio - d['tol']) < 1e-9 and not (
                r @ r == 0 and d['tol'] == 1.0
            ) and not (np.array_equal(r, rp) and d['tol'] == 0):
                rec.label('ambiguous threshold')
                continue
            update(what, delta=s.copy(), gamma=y.copy(),
                   r=r.copy(), rprev=rp.copy(), hess=C.copy())
            if ratio >= d['tol']:
                it.set_mat(C)
                used.add('hess')
            else:
                it.update(s.copy(), y.copy())
                used.add('iterative')
            want = it.get_mat()
        check(
            np.array_equal(prev, keep),
            f'{what}: changed a matrix that was handed out before',
        )
        new, diff = h.get_mat(), h.get_diff()
        scale = norm(want) + norm(new) + norm(prev)
        e = norm(new - want)
        check(
            e <= 1e-10 * scale,
            f'{what}: matrix differs from the expected one by {e:.3g}',
        )
        e = norm(new - prev - diff)
        check(
            e <= 1e-10 * scale,
            f'{what}: difference is not new minus old, off by {e:.3g}',
        )
    rec.label(f'selected {len(used)}')
    rec.nontrivial(len(used) == 2)
