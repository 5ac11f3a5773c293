"""Residual mode is equivalent to the least squares objective."""
import numpy as np
from hypothesis import strategies as st
from numpy.linalg import norm

from .. import gen, trace
from ..engine import check
from ..probs import objective

PROPERTY = 'C24'
LEVEL = 'exploration'
QUICK = 6000
THOROUGH = 30000
RULE = (
    'Nonlinear least squares with 1-6 residuals and 1-4 variables in residual '
    'mode with every scheme. Value, gradient and (without scheme) Hessian of '
    'every iterate are recomputed from residuals and Jacobian. Without scheme '
    'the run is also compared with the run of the scalar objective: the same '
    'state has to lead to the same trial point. Non-trivial: at least two '
    'accepted trials.'
)


@st.composite
def _case(draw):
    c = draw(
        gen.run_case(
            warm=True,
            types=('lsq',), residual=True,
            kinds=('both', 'none', 'none', 'lower', 'upper'),
            maxiter=(5, 10, 20), tols=False,
        )
    )
    if draw(st.booleans()):
        n = c['p']['n']
        m = draw(st.integers(1, 6))
        o = c['p']['obj']
        o['A'] = draw(gen.vec(m * n))
        o['Q'] = draw(gen.vec(m * n, gen.unit))
        o['e'] = draw(gen.vec(m))
    if draw(st.integers(0, 2)) == 0:
        c['hu'] = None
    return c


def strategy(tier):
    return _case()


def run_case(case, rec):
    tr = trace.run(case)
    rec.label(trace.scheme_name(case['hu']))
    it = tr.evals[0]
    moved = 0
    states = [trace.state_before(tr, 1)] if len(tr.evals) > 1 else []
    its = [it]
    for k in range(1, len(tr.evals)):
        a = trace.state_after(tr, k)
        b = trace.state_before(tr, k)
        e = tr.evals[k]
        if (
            trace.near(a.x, e.x)
            and not np.array_equal(a.g, b.g)
            and abs(a.f - e.f) <= 1e-12 * abs(e.f)
        ):
            it = e
            moved += 1
        states.append(a)
        its.append(it)
    for k, (s, e) in enumerate(zip(states, its)):
        f, g = 0.5 * sum(float(v) ** 2 for v in e.r), e.J.T @ e.r
        check(
            abs(s.f - f) <= 1e-12 * f,
            f'iterate {k}: value {s.f!r}, half the sum of squares is {f!r}',
        )
        sc = np.abs(e.J).T @ np.abs(e.r)
        check(
            np.all(np.abs(s.g - g) <= 1e-12 * sc),
            f'iterate {k}: gradient {s.g.tolist()}, J\'r is {g.tolist()}',
        )
        if case['hu'] is None:
            h = e.J.T @ e.J
            check(
                norm(s.h - h) <= 1e-12 * norm(h),
                f'iterate {k}: Hessian {s.h.tolist()}, J\'J is {h.tolist()}',
            )
    rec.nontrivial(moved >= 2)
    rec.label(f'accepted {min(moved, 4)}')
    if case['hu'] is not None:
        return
    # scalar objective with the Gauss-Newton Hessian
    obj = objective(case['p'])

    def fun_full(x):
        r, J = obj.resid(x)
        return 0.5 * r.T.dot(r), r.T.dot(J), J.T.dot(J)

    class GN:
        full = staticmethod(fun_full)

    c2 = {**case, 'residual': False}
    t2 = trace.Trace()
    fun = trace.make_fun(c2, t2, 'fgh', obj=GN)
    trace.build(c2, t2, fun=fun)
    trace.execute(t2, c2)
    for k in range(min(len(tr.evals), len(t2.evals))):
        a, b = tr.evals[k], t2.evals[k]
        same = k == 0 or (
            a.of == b.of
            and np.array_equal(a.ox, b.ox)
            and np.array_equal(a.og, b.og)
            and np.array_equal(a.oh, b.oh)
            and a.odelta == b.odelta
        )
        if not same:
            rec.label('states differ by rounding')
            if k <= 1:
                check(
                    norm(a.og - b.og) <= 1e-10 * (norm(b.og) + 1e-3),
                    'gradients at the start differ',
                )
            return
        check(
            np.array_equal(a.x, b.x),
            f'evaluation {k}: same state, but residual mode proposes '
            f'{a.x.tolist()} and the scalar objective {b.x.tolist()}',
        )
    check(
        len(tr.evals) == len(t2.evals) and tr.exitname == t2.exitname,
        f'residual mode ended with {tr.exitname} after {len(tr.evals)} '
        f'evaluations, the scalar objective with {t2.exitname} after '
        f'{len(t2.evals)}',
    )
    rec.label('identical runs')
