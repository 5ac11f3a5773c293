"""Objectives with inconsistent outputs are contained."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, trace
from ..engine import check

PROPERTY = 'C30'
LEVEL = 'exploration'
QUICK = 6000
THOROUGH = 60000
RULE = (
    'Runs on "objectives" whose finite values, gradients, Hessians, residuals '
    'and Jacobians are random numbers that neither depend on the point nor '
    'fit together, with magnitudes between 1 and 1e40 (per run, per '
    'evaluation and per entry), zeros, ties, integers, low rank and '
    'non-symmetric Hessians. Oracle: invariants over the history of the run. '
    'Non-trivial: accepted and rejected trials.'
)


@st.composite
def _case(draw):
    c = draw(
        gen.run_case(
            types=('quad', 'lsq', 'lsq'), maxiter=(5, 30, 30, 60), nmax=4,
            wild=draw(st.booleans()), warm=True, refine_weight=1,
        )
    )
    gen.narrow(draw, c['p'])
    o = c['options']
    for k in draw(st.sampled_from([(), ('fatol', 'frtol', 'gatol', 'xtol')])):
        o[k] = 0.0
    c['seed'] = draw(st.integers(0, 2**32 - 1))
    c['mag'] = draw(st.sampled_from([0, 0, 1, 3, 12, 40]))
    if c['hu'] is not None or c['residual']:
        # approximations multiply these magnitudes, in every iteration
        c['mag'] = min(c['mag'], 6)
    c['entry'] = draw(st.booleans())
    c['down'] = draw(st.sampled_from(['down', 'down', 'noise', 'updown']))
    c['form'] = draw(
        st.sampled_from(['sym', 'sym', 'int', 'rank1', 'zero', 'asym', 'psd'])
    )
    return c


def strategy(tier):
    return _case()


def values(case):
    """fault function that replaces all outputs"""
    mag, form = case['mag'], case['form']

    def fault(k, f, g, h):
        r = np.random.default_rng([case['seed'], k])

        def val(shape):
            v = r.normal(size=shape)
            if form == 'int':
                v = np.round(v)
            if np.ndim(v) and case['entry']:
                v = v * 10.0 ** r.integers(-mag, mag + 1, size=shape)
            elif mag:
                v = v * 10.0 ** r.integers(-mag, mag + 1)
            return v

        if case['residual']:
            m = len(f)
            return val(m) * 0.9**k, val((m, len(case['p']['x0']))), None
        n = len(g)
        if case['down'] == 'down':
            f = -float(k)
        elif case['down'] == 'noise':
            f = float(val(()))
        else:
            f = -float(k) if r.random() < 0.7 else float(abs(val(())))
        h = val((n, n))
        if form == 'rank1':
            h = np.outer(h[0], h[0])
        elif form == 'zero':
            h = np.zeros((n, n))
        elif form == 'psd':
            h = h @ h.T
        elif form != 'asym':
            h = h + h.T
        g = val(n)
        if form == 'zero' and r.random() < 0.5:
            g[r.integers(0, n)] = 0.0
        return f, g, h

    return fault


@np.errstate(all='ignore')
def run_case(case, rec):
    # an exception of fides is a violation
    tr = trace.run(case, fault=values(case))
    p, o, ev = case['p'], tr.opt, tr.evals
    lb, ub = np.array(p['lb']), np.array(p['ub'])
    name = tr.exitname
    check(
        1 <= len(ev) <= case['options']['maxiter'] + 1,
        f'{len(ev)} evaluations with maxiter {case["options"]["maxiter"]}',
    )
    check(
        o.iteration == len(ev) - 1,
        f'{o.iteration} iterations, but {len(ev)} evaluations',
    )
    f = ev[0].f
    cur = ev[0]
    moves = []
    for k, e in enumerate(ev):
        check(
            np.all(np.isfinite(e.x)) and np.all(e.x >= lb)
            and np.all(e.x <= ub),
            f'evaluation {k} at {e.x.tolist()}',
        )
        if k == 0:
            continue
        b, a = trace.state_before(tr, k), trace.state_after(tr, k)
        check(
            np.isfinite(b.delta) and b.delta > 0,
            f'radius {b.delta} in iteration {k}',
        )
        if (
            e.f != f and a.f == e.f and np.array_equal(a.g, e.g)
            and trace.near(a.x, e.x)
        ):
            check(e.f < f, f'iteration {k} moved from value {f} to {e.f}')
            f, cur = e.f, e
            moves.append(True)
        else:
            check(
                a.f == f and np.array_equal(a.g, b.g)
                and np.array_equal(a.x, b.x)
                and np.array_equal(a.h, b.h, equal_nan=True),
                f'state changed in iteration {k} although the trial was '
                f'rejected',
            )
            moves.append(False)
        check(
            0 <= a.delta < np.inf and (a.delta > 0 or k + 1 == len(ev)),
            f'radius {a.delta} after iteration {k}',
        )
        check(
            case['mag'] > 3 or np.all(np.isfinite(a.h)),
            f'non-finite Hessian approximation after iteration {k}',
        )
    rf, rx, rg, rh = tr.result
    check(
        rf == f and np.array_equal(rg, cur.g) and trace.near(rx, cur.x),
        'the returned values are not those of the last accepted trial',
    )
    best = min(ev, key=lambda e: e.f)
    check(
        o.fval_min == best.f and trace.near(o.x_min, best.x)
        and np.array_equal(o.grad_min, best.g),
        f'recorded minimum {o.fval_min}, smallest value {best.f}',
    )
    check(
        bool(o.converged) == (name in ('FTOL', 'XTOL', 'GTOL'))
        and name in ('FTOL', 'XTOL', 'GTOL', 'MAXITER', 'DELTA_TOO_SMALL'),
        f'exit flag {name}, converged {o.converged}',
    )
    rec.label(
        name, case['form'], f'magnitude 1e{case["mag"]}',
        trace.scheme_name(case['hu']),
        *(case['options'][k] for k in ('subspace_solver', 'stepback_strategy')),
    )
    rec.nontrivial(any(moves) and not all(moves))
