"""Non-finite values are contained."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, trace
from ..engine import check

PROPERTY = 'C15'
LEVEL = 'exploration'
QUICK = 6000
THOROUGH = 40000
RULE = (
    'Whole runs with injected faults: any subset of trials gets a non-finite '
    'objective value (residual), and possibly one evaluation (start or trial) '
    'gets a finite value with a non-finite gradient, Hessian or Jacobian '
    'entry, or a non-finite value at the start. Non-trivial: a fault is hit '
    'after at least one regular evaluation.'
)
VALS = {'nan': np.nan, 'inf': np.inf, '-inf': -np.inf}


@st.composite
def _case(draw):
    c = draw(
        gen.run_case(
            warm=True,
            types=gen.OBJ_TYPES + ('lsq', 'lsq', 'rosen'),
            kinds=('both', 'none', 'none', 'lower', 'upper'),
            maxiter=(5, 10, 20, 40),
            tols=False,
        )
    )
    o = c['options']
    for k in ('fatol', 'frtol'):
        o[k] = 0.0
    val = st.sampled_from(sorted(VALS))
    # trials with a non-finite objective value
    c['bad'] = {
        str(k): draw(val)
        for k in draw(
            st.lists(st.integers(1, 12), max_size=5, unique=True)
        )
    }
    # all trials from this one on
    c['from'] = draw(
        st.one_of(st.just(0), st.just(0), st.just(0), st.integers(1, 6))
    )
    # evaluation with a fatal fault
    c['fatal'] = draw(
        st.one_of(
            st.none(),
            st.fixed_dictionaries({
                'at': st.one_of(st.integers(0, 5), st.integers(0, 15)),
                'what': st.sampled_from(['f', 'g', 'h']),
                'val': val,
                'i': st.integers(0, 3),
                'j': st.integers(0, 3),
                'all': st.booleans(),
            }),
        )
    )
    # gradient of trials with non-finite value
    c['badgrad'] = draw(st.booleans())
    return c


def strategy(tier):
    return _case()


def run_case(case, rec):
    mode = trace.outputs(case['hu'], case['residual'])
    fatal = case['fatal']
    hits = {}

    def fault(k, f, g, h):
        if mode == 'rs':
            # f is the residual, g the Jacobian
            f, g = np.array(f), np.array(g)
        else:
            g, h = np.array(g), np.array(h)
        if fatal and fatal['at'] == k:
            v = VALS[fatal['val']]
            w = fatal['what']
            if k > 0 and w == 'f':
                w = 'g'
            if w == 'h' and mode != 'fgh':
                w = 'g'
            i, j = fatal['i'], fatal['j']
            if w == 'f':
                if mode == 'rs':
                    f[i % len(f)] = v
                else:
                    f = v
            elif w == 'g':
                if mode == 'rs':
                    # a zero residual hides the entry only for gradients
                    g[i % g.shape[0], j % g.shape[1]] = v
                elif fatal['all']:
                    g[:] = v
                else:
                    g[i % len(g)] = v
            else:
                n = h.shape[0]
                h[i % n, j % n] = v
                h[j % n, i % n] = v
            hits[k] = 'fatal ' + w
            return f, g, h
        if k > 0 and (str(k) in case['bad'] or case['from'] and k >= case['from']):
            v = VALS[case['bad'].get(str(k), 'nan')]
            if mode == 'rs':
                f[k % len(f)] = v
            else:
                f = v
                if case['badgrad']:
                    g[:] = v
                    h[:] = np.nan
            hits[k] = 'value'
        return f, g, h

    tr = trace.run(case, fault=fault, allow=(RuntimeError,))
    ev, o, opt = tr.evals, trace.effective(case), tr.opt
    fatal_at = [k for k, v in hits.items() if v.startswith('fatal')]
    # a non-finite objective value is not fatal at a trial
    if fatal_at and fatal_at[0] > 0 and not np.isfinite(ev[fatal_at[0]].f):
        fatal_at = []
    for v in hits.values():
        rec.label(v)
    if fatal_at:
        k = fatal_at[0]
        what = f'{hits[k]} ({fatal["val"]}) at evaluation {k}'
        check(
            tr.exc is not None,
            f'{what}: no RuntimeError, exit flag {tr.exitname}',
        )
        check(
            len(ev) == k + 1,
            f'{what}: {len(ev) - k - 1} evaluations took place after it',
        )
        check(
            tr.exitname == 'NOT_FINITE',
            f'{what}: exit flag {tr.exitname}',
        )
        check(not opt.converged, f'{what}: marked as converged')
        rec.label('fatal at start' if k == 0 else 'fatal at trial')
        if k > 0:
            b = trace.state_before(tr, k)
            check(
                np.array_equal(opt.x, b.x)
                and opt.fval == b.f
                and np.array_equal(opt.grad, b.g)
                and np.array_equal(opt.hess, b.h),
                f'{what}: the iterate was changed',
            )
            best = min(e.f for e in ev[:k] if np.isfinite(e.f))
            check(
                opt.fval_min == best
                and any(
                    e.f == best and trace.near(opt.x_min, e.x)
                    for e in ev[:k]
                ),
                f'{what}: recorded minimum {opt.fval_min!r} is not the best '
                f'finite evaluation {best!r} before',
            )
    else:
        check(
            tr.exc is None,
            f'RuntimeError without fatal fault: {tr.exc} {hits}',
        )
        check(
            tr.exitname
            in ('FTOL', 'XTOL', 'GTOL', 'MAXITER', 'DELTA_TOO_SMALL'),
            f'exit flag {tr.exitname} although all faults are tolerable',
        )
        best = min(e.f for e in ev if np.isfinite(e.f))
        check(
            opt.fval_min == best,
            f'recorded minimum {opt.fval_min!r}, best finite value {best!r}',
        )
        check(
            np.isfinite(opt.fval) and np.all(np.isfinite(opt.x))
            and np.all(np.isfinite(opt.grad)),
            'final state is not finite',
        )
    contained = 0
    for k in range(1, len(ev)):
        if np.isfinite(ev[k].f) or (fatal_at and k == fatal_at[0]):
            continue
        b, a = trace.state_before(tr, k), trace.state_after(tr, k)
        what = f'trial {k} with value {ev[k].f}'
        check(
            np.array_equal(a.x, b.x) and a.f == b.f
            and np.array_equal(a.g, b.g) and np.array_equal(a.h, b.h),
            f'{what}: the iterate was changed',
        )
        t = trace.Transition(case, tr, k, o)
        shrunk = min(o['gamma1'] * b.delta, t.nss / 4)
        check(
            abs(a.delta - shrunk) <= 1e-9 * shrunk + t.ndss / 4,
            f'{what}: radius {b.delta!r} -> {a.delta!r}, decrease factor '
            f'{o["gamma1"]}, scaled step {t.nss:.9g}',
        )
        if t.nss / 4 < 0.99 * o['gamma1'] * b.delta:
            rec.label('decrease by step norm')
        contained += 1
        if k + 1 == len(ev):
            rec.label('last: ' + tr.exitname)
            check(
                tr.exitname != 'FTOL',
                f'{what}: run ended with FTOL',
            )
    rec.label(f'contained {min(contained, 5)}')
    rec.nontrivial(contained > 0 or any(k > 0 for k in fatal_at))
