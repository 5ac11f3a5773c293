"""Affine scaling and start displacement follow their definition."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref, trace
from ..engine import check

PROPERTY = 'C26'
LEVEL = 'exploration'
QUICK = 6000
THOROUGH = 40000
RULE = (
    'Whole runs; at every trial the scaling vector and its Jacobian are '
    'compared with the definition, and the iterate has to be strictly inside '
    'of the bounds and equal to the evaluated point up to the displacement. '
    'Starts on, near (relative distances down to 1e-16) and far from bounds, '
    'small and large variables. Non-trivial: the start is on or near a bound, '
    'or the gradient has a zero entry.'
)


@st.composite
def _case(draw):
    c = draw(
        gen.run_case(warm=True, maxiter=(1, 2, 5, 15), tols=False)
    )
    p = c['p']
    # move bounds next to the start
    for i in range(p['n']):
        k = draw(st.integers(0, 5))
        if k == 0:
            d = draw(
                st.sampled_from([0.0, 1e-16, 1e-15, 1e-14, 1e-13, 1e-11,
                                 1e-9])
            )
            x = p['x0'][i]
            lo = x - d * max(1.0, abs(x))
            if p['ub'][i] - lo > 0.01:
                p['lb'][i] = lo
        elif k == 1:
            d = draw(st.sampled_from([0.0, 1e-16, 1e-14, 1e-11, 1e-9]))
            x = p['x0'][i]
            hi = x + d * max(1.0, abs(x))
            if hi - p['lb'][i] > 0.01:
                p['ub'][i] = hi
    return c


def strategy(tier):
    return _case()


def run_case(case, rec):
    p = case['p']
    lb, ub, x0 = (np.array(p[k]) for k in ('lb', 'ub', 'x0'))
    # (nearly) fixed variables cannot be moved off their bounds
    room = ub - lb > 1e-9 * np.maximum(1.0, np.abs(x0))
    if not np.all(room):
        rec.label('fixed variable')

    def on_eval(tr, e):
        if len(tr.evals) == 1:
            return
        o = tr.opt
        v, dv = o.get_affine_scaling()
        rv, rdv = ref.affine(e.ox, e.og, lb, ub)
        tol = 4 * np.spacing(np.abs(e.ox))
        check(
            np.shape(v) == rv.shape and np.all(np.abs(v - rv) <= tol),
            f'scaling at {e.ox.tolist()} with gradient {e.og.tolist()} is '
            f'{np.asarray(v).tolist()}, by definition {rv.tolist()}',
        )
        check(
            np.shape(dv) == rdv.shape and np.array_equal(dv, rdv),
            f'Jacobian of the scaling is {np.asarray(dv).tolist()}, by '
            f'definition {rdv.tolist()}',
        )
        check(
            np.all((v != 0) | ~room),
            f'scaling {np.asarray(v).tolist()} vanishes'
        )
        if np.any(e.og == 0):
            rec.label('zero gradient entry')
            rec.nontrivial()

    tr = trace.run(case, on_eval=on_eval)
    x = tr.evals[0].x
    sc = np.maximum(1.0, np.abs(x0))
    check(
        np.all(np.abs(x - x0) <= 1e-12 * sc),
        f'start {p["x0"]} was moved to {x.tolist()}',
    )
    dist = np.minimum(x0 - lb, ub - x0)
    far = dist >= 1e-10 * sc
    check(
        np.array_equal(x[far], x0[far]),
        f'variables that are not close to a bound were moved: {p["x0"]} to '
        f'{x.tolist()}, bounds {p["lb"]}, {p["ub"]}',
    )
    check(
        np.all((x > lb) & (x < ub) | ~room),
        f'start {x.tolist()} is not strictly inside of {p["lb"]}, {p["ub"]}',
    )
    if np.any(dist == 0):
        rec.label('start on bound')
        rec.nontrivial()
    elif np.any(~far):
        rec.label('start near bound')
        rec.nontrivial()
    if np.max(np.abs(x0)) > 50:
        rec.label('large variables')
    # iterates
    for k in range(1, len(tr.evals)):
        a = trace.state_after(tr, k)
        check(
            np.all((a.x > lb) & (a.x < ub) | ~room),
            f'iterate {a.x.tolist()} is not strictly inside of the bounds',
        )
        b = trace.state_before(tr, k)
        check(
            np.array_equal(a.x, b.x) or trace.near(a.x, tr.evals[k].x),
            f'iterate {a.x.tolist()} is neither the previous one '
            f'{b.x.tolist()} nor the trial {tr.evals[k].x.tolist()}',
        )
        if np.any((tr.evals[k].x == lb) | (tr.evals[k].x == ub)):
            rec.label('trial on bound')
