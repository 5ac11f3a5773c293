"""The returned values belong together; the recorded minimum is the best."""
import numpy as np
from numpy.linalg import norm

from .. import gen, trace
from ..engine import check

PROPERTY = 'C03'
LEVEL = 'exploration'
QUICK = 8000
THOROUGH = 40000
RULE = (
    'Random problem and configuration as in C02, stopped by a random maxiter '
    'or by convergence. Non-trivial: at least three evaluations and at least '
    'one rejected or non-final best evaluation.'
)


def strategy(tier):
    return gen.run_case(
        warm=True,
        types=gen.WILD_TYPES,
        kinds=('both', 'none', 'none', 'lower', 'upper'),
        maxiter=(3, 2, 4, 5, 10, 30),
        wild=True,
    )


def run_case(case, rec):
    tr = trace.run(case)
    ev = tr.evals
    ret = tr.result
    check(
        isinstance(ret, tuple) and len(ret) == 4,
        f'minimize returned {type(ret).__name__}',
    )
    f, x, g, h = ret
    n = case['p']['n']
    check(
        np.ndim(f) == 0 and np.shape(x) == (n,) and np.shape(g) == (n,)
        and np.shape(h) == (n, n),
        f'shapes of the returned values: {np.shape(f)}, {np.shape(x)}, '
        f'{np.shape(g)}, {np.shape(h)}',
    )
    for v, w, what in (
        (f, tr.opt.fval, 'fval'),
        (x, tr.opt.x, 'x'),
        (g, tr.opt.grad, 'grad'),
        (h, tr.opt.hess, 'hess'),
    ):
        check(
            np.array_equal(v, w),
            f'returned value and attribute {what} differ',
        )
    cands = [
        e for e in ev
        if e.f == f and trace.near(x, e.x) and np.array_equal(e.g, g)
    ]
    check(
        cands,
        f'returned f {f!r}, x {np.asarray(x).tolist()} and gradient '
        f'{np.asarray(g).tolist()} do not belong to one evaluation',
    )
    if case['hu'] is None:
        check(
            any(
                norm(h - e.h) <= 1e-12 * (1 + norm(e.h)) for e in cands
            ),
            'returned Hessian is not the one of the returned point',
        )
    else:
        check(
            np.array_equal(h, tr.opt.hessian_update.get_mat()),
            'returned Hessian differs from the one of the update scheme',
        )
    best = min(e.f for e in ev if np.isfinite(e.f))
    o = tr.opt
    check(
        o.fval_min == best,
        f'recorded minimum {o.fval_min!r}, best evaluation {best!r}',
    )
    check(
        any(
            e.f == best
            and trace.near(o.x_min, e.x)
            and np.array_equal(e.g, o.grad_min)
            for e in ev
        ),
        'recorded minimum: point or gradient do not belong to the value',
    )
    check(f >= best, 'returned value is better than the best evaluation')
    lastbest = ev[-1].f == best
    rec.label(tr.exitname, 'best is last' if lastbest else 'best is not last')
    if f > best:
        rec.label('recorded minimum better than the returned point')
    rec.nontrivial(len(ev) >= 3 and not lastbest)
