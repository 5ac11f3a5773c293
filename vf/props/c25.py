"""Step proposals do not depend on orientation, order, origin or units."""
import numpy as np
from hypothesis import strategies as st
from numpy.linalg import norm

from .. import gen, ref, trace
from ..engine import Violation, check, in_fides
from . import tr_common

PROPERTY = 'C25'
LEVEL = 'exploration'
QUICK = 10000
THOROUGH = 60000
RULE = (
    'First trial point of an optimizer whose objective returns a generated '
    'gradient and symmetric (also indefinite) Hessian, in generated bounds, '
    'and of the transformed problem: variables mirrored, permuted, shifted, '
    'or the objective scaled. The trial transformed back has to attain the '
    'same value of the scaled model, and be the same point unless two steps '
    'tie. Models close to a discontinuity of the algorithm (semidefinite, '
    'repeated lowest eigenvalue) are rejected, and so are ties, where '
    'rounding of the data also changes the untransformed step. Non-trivial: at least two '
    'variables and a bound within reach.'
)
KINDS = ('mirror', 'mirror', 'permute', 'shift', 'scale')


@st.composite
def _case(draw):
    m = draw(tr_common.model(generic=True))
    n = m['n']
    kind = draw(st.sampled_from(KINDS))
    sub = draw(
        st.sampled_from(['2D', 'full'] if kind == 'scale' else gen.SUBSPACE)
    )
    return {
        'm': m,
        'kind': kind,
        'sub': sub,
        'sb': draw(st.sampled_from([s for s in gen.STEPBACK
                                    if s != 'refine'])),
        'flip': draw(st.lists(st.booleans(), min_size=n, max_size=n)),
        'perm': draw(st.permutations(list(range(n)))),
        'shift': draw(gen.vec(n, st.sampled_from([0.0, 1.0, -7.5, 16.0]))),
        'alpha': draw(st.sampled_from([2.0, 10.0, 0.5, 100.0, 3.0])),
    }


def strategy(tier):
    return _case()


class Done(Exception):
    pass


def first_trial(x0, g, H, lb, ub, c):
    """(start, first trial) of an optimizer"""
    import fides

    seen = []

    def fun(x):
        seen.append(np.array(x))
        if len(seen) == 2:
            raise Done()
        return 0.0, g.copy(), H.copy()

    opt = fides.Optimizer(
        fun, ub=ub.copy(), lb=lb.copy(), verbose=trace.QUIET,
        options={
            'subspace_solver': c['sub'], 'stepback_strategy': c['sb'],
            'delta_init': c['m']['delta'], 'theta_max': c['m']['theta_max'],
            'maxiter': 1,
        },
    )
    try:
        opt.minimize(x0.copy())
    except Done:
        pass
    except Exception as e:
        if in_fides(e.__traceback__):
            raise Violation(f'minimize raised {type(e).__name__}: {e}') from e
        raise
    finally:
        trace.drop_logger(opt)
    check(len(seen) == 2, 'no trial point was evaluated')
    return seen


def perturbed(args, e):
    x, g, *rest = args
    return (x + e[0] * 1e-2, g * (1 + e[1]), *rest)


def run_case(c, rec):
    from ..engine import Reject

    x, g, H, lb, ub = tr_common.arrays(c['m'])
    n = len(x)
    # away from the bounds: the displacement of the start is irrelevant
    off = 1e-3
    x = np.where(np.isfinite(lb), np.maximum(x, lb + off), x)
    x = np.where(np.isfinite(ub), np.minimum(x, ub - off), x)
    if np.any(g == 0):
        raise Reject()
    # generic perturbation: when two variables reach their bounds at the same
    # time, rounding decides which is treated first
    u = np.modf(np.sqrt(2 + np.arange(n)) * 7)[0]
    x = x + 2e-4 * u
    g = g * (1 + 1e-2 * u)
    H = H * (1 + 1e-2 * np.outer(u, u))
    m = ref.Model(x, g, H, lb, ub)
    e, V = np.linalg.eigh(0.5 * (m.M + m.M.T))
    s = np.max(np.abs(e))
    if s == 0 or np.min(np.abs(e)) < 1e-5 * s:
        raise Reject()
    if n > 1 and e[0] < 0 and (
        e[1] - e[0] < 1e-3 * s
        or abs(V[:, 0] @ m.sg) < 1e-3 * norm(m.sg)
    ):
        raise Reject()
    kind = c['kind']
    alpha = 1.0
    if kind == 'mirror':
        d = np.where(c['flip'], -1.0, 1.0)
        lo, hi = np.where(d < 0, -ub, lb), np.where(d < 0, -lb, ub)
        args = (d * x, d * g, d[:, None] * H * d, lo, hi)

        def back(s):
            return d * s
    elif kind == 'permute':
        p = np.array(c['perm'])
        args = (x[p], g[p], H[np.ix_(p, p)], lb[p], ub[p])

        def back(s):
            r = np.empty(n)
            r[p] = s
            return r
    elif kind == 'shift':
        t = np.array(c['shift'])
        args = (x + t, g, H, lb + t, ub + t)

        def back(s):
            return s
    else:
        alpha = c['alpha']
        args = (x, alpha * g, alpha * H, lb, ub)
        m2 = ref.Model(x, alpha * g, alpha * H, lb, ub)
        tm = c['m']['theta_max']
        if abs(m.theta(tm) - m2.theta(tm)) > 1e-12:
            # the step back depends on the size of the gradient
            raise Reject()

        def back(s):
            return s
    a = first_trial(x, g, H, lb, ub, c)
    b = first_trial(*args, c)
    s1 = a[1] - a[0]
    s2 = back(b[1] - b[0])
    q1, q2 = m.q(m.scaled(s1)), m.q(m.scaled(s2))
    sc = max(abs(q1), abs(q2))
    what = f'{kind} with {c["sub"]}, {c["sb"]}'
    same = norm(s1 - s2) <= 1e-5 * max(norm(s1), norm(s2))
    rec.label(kind, c['sub'], c['sb'], 'same' if same else 'tie')
    # a tie is possible only if both steps are equally good
    if abs(q1 - q2) > (1e-5 if same else 1e-7) * sc:
        # rounding decides when several variables reach their bounds at the
        # same time: the choice must then be sensitive to rounding anyway
        rng = np.random.default_rng(0)
        for _ in range(12):
            e = rng.uniform(-1e-11, 1e-11, (2, n))
            s3 = first_trial(x + e[0] * 1e-2, g * (1 + e[1]), H, lb, ub, c)
            s3 = s3[1] - s3[0]
            s4 = first_trial(
                *perturbed(args, rng.uniform(-1e-11, 1e-11, (2, n))), c
            )
            s4 = back(s4[1] - s4[0])
            if max(norm(s3 - s1), norm(s4 - s2)) > 1e-6 * norm(s1):
                rec.label('discontinuity')
                raise Reject()
        raise Violation(
            f'{what}: model value of the trial is {q1:.12g}, for the '
            f'transformed problem {q2:.12g}; steps {s1.tolist()} and '
            f'{s2.tolist()}'
        )
    reach = bool(np.min(m.breaks(s1)) < 3)
    if reach:
        rec.label('bound within reach')
    rec.nontrivial(n > 1 and reach)
