"""Step proposals are feasible and consistent with the model."""
import numpy as np
from hypothesis import strategies as st
from numpy.linalg import norm

from .. import gen, ref, trace
from ..engine import check
from . import tr_common as T

PROPERTY = 'C06'
LEVEL = 'exploration'
QUICK = 12000
THOROUGH = 80000
RULE = (
    'Three quarters: direct calls of trust_region at random points (bounds '
    'at distances from 0 to 6, symmetric positive definite, indefinite, '
    'singular, zero Hessians, radii over 4 decades) with random solver and '
    'strategy. One quarter: all iterations of a whole run. Non-trivial: the '
    'proposal was stepped back, reflected, truncated, or the run has at least '
    'three iterations.'
)


@st.composite
def _direct(draw):
    c = draw(T.model())
    c['sub'], c['sb'] = draw(gen.solver(refine_weight=3))
    return {'direct': c}


def strategy(tier):
    return st.one_of(
        _direct(), _direct(), _direct(), gen.run_case(warm=True, refine_weight=0)
    )


def run_case(case, rec):
    if 'direct' in case:
        direct(case['direct'], rec)
    else:
        whole(case, rec)


def radius_ok(nss, delta):
    return nss <= delta * (1 + 1e-6)


@np.errstate(invalid='ignore')
def direct(c, rec):
    x, g, H, lb, ub = T.arrays(c)
    m = ref.Model(x, g, H, lb, ub)
    theta, delta = m.theta(c['theta_max']), c['delta']
    step = T.propose(x, g, H, lb, ub, delta, theta, c['sub'], c['sb'], m)
    s = np.asarray(step.s + step.s0, dtype=float)
    ss = np.asarray(step.ss + step.ss0, dtype=float)
    q = float(step.qpval)
    what = f'{c["sub"]}/{c["sb"]} proposal of type {step.type}'
    check(
        s.shape == x.shape and np.all(np.isfinite(s)) and np.isfinite(q)
        and np.all(np.isfinite(ss)),
        f'{what}: step {s}, scaled step {ss}, model value {q}',
    )
    tol = 1e-9 * (np.abs(s) + norm(s) * 1e-3) + 1e-300
    check(
        np.all(np.abs(s - m.d * ss) <= tol),
        f'{what}: step {s.tolist()} is not the transformed scaled step '
        f'{(m.d * ss).tolist()}',
    )
    # positions between reflections are sums of partial steps
    ulp = 2e-14 * np.maximum(1.0, np.maximum(np.abs(x), np.abs(x + s)))
    check(
        np.all(x + s <= ub + ulp) and np.all(x + s >= lb - ulp),
        f'{what}: {(x + s).tolist()} is out of bounds',
    )
    if step.type != 'trr':
        # steps that are not reflected keep a fraction of each distance
        keep = (1 - theta) * (1 - 1e-9)
        up, lo = np.isfinite(ub), np.isfinite(lb)
        check(
            np.all(
                (x + s <= np.where(up, ub - keep * (ub - x), np.inf) + ulp)
                & (x + s >= np.where(lo, lb + keep * (x - lb), -np.inf) - ulp)
            ),
            f'{what}: {(x + s).tolist()} is closer to a bound than the '
            f'fraction {theta} of the distance',
        )
    nss = norm(ss)
    check(
        radius_ok(nss, delta),
        f'{what}: scaled norm {nss:.9g} exceeds the radius {delta}',
    )
    scale = m.qscale(ss)
    check(
        abs(q - m.q(ss)) <= 1e-9 * scale,
        f'{what}: predicted value {q:.12g}, but the model value is '
        f'{m.q(ss):.12g}',
    )
    # the eigenvalues of the model are only known up to rounding
    tiny = 1e-14 * max(scale, norm(m.M) * nss**2)
    check(q <= tiny, f'{what}: predicted value {q:.6g} is positive')
    # away from first order points there is always a decrease, unless it is
    # below the rounding of the model at the length of the step
    noise = 1e-13 * norm(m.M) * nss**2
    if (
        np.any(g)
        and norm(m.sg) > 1e-8 * norm(g)
        and -m.q(m.cauchy(delta, theta)) > noise
    ):
        check(
            q < 0,
            f'{what}: no decrease is predicted (value {q}) although the '
            f'scaled gradient is {m.sg.tolist()}',
        )
    back = step.type in ('trr', 'trt', 'g', 'ref') or step.alpha < 1
    rec.label(
        'direct', c['sub'], c['sb'], f'type {step.type}',
        'stepped back' if back else 'plain', f'n={c["n"]}', f'H {c["hk"]}',
    )
    rec.nontrivial(back)


def whole(case, rec):
    tr = trace.run(case)
    rec.label('run')
    for t in trace.transitions(case, tr):
        d = t.before.delta
        check(
            t.nss <= d * (1 + 1e-6) + t.ndss,
            f'iteration {t.k}: scaled norm {t.nss:.9g} of the step exceeds the '
            f'radius {d:.9g}',
        )
        check(
            t.q <= t.dq + 1e-14 * norm(t.model.M) * t.nss**2,
            f'iteration {t.k}: the model value {t.q:.6g} of the step is '
            f'positive',
        )
    rec.nontrivial(len(tr.evals) > 3)
