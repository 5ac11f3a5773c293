"""On unconstrained quadratic objectives the model is exact."""
import math

import numpy as np
from hypothesis import strategies as st
from numpy.linalg import norm

from .. import gen, ref, trace
from ..engine import check
from ..probs import objective

PROPERTY = 'C32'
LEVEL = 'exploration'
QUICK = 5000
THOROUGH = 40000
RULE = (
    'Quadratic objectives without bounds (convex, indefinite, linear, linear '
    'least squares in residual mode), exact Hessians or iterative schemes '
    'that start with the exact Hessian, all solvers and radius parameters. '
    'Every trial has to be accepted, radii have to follow the geometric '
    'sequence, the approximation has to stay the Hessian, and convex '
    'problems have to be solved in the number of iterations that follows '
    'from the radii. Non-trivial: at least one step to the boundary of the '
    'trust region.'
)
EPS = np.spacing(1)


@st.composite
def _case(draw):
    typ = draw(st.sampled_from(['quad', 'quad', 'iquad', 'linear', 'lsq']))
    n = draw(gen.dim())
    x0 = draw(gen.vec(n))
    o = draw(gen.obj(n, x0, 'quad' if typ == 'lsq' else typ))
    residual = False
    if typ == 'lsq':
        m = draw(st.integers(n, n + 2))
        A = np.zeros((m, n))
        A[:n] += 2 * np.eye(n)
        A += np.array(draw(gen.vec(m * n, gen.unit))).reshape(m, n)
        o = {
            'type': 'lsq', 'c': o['c'], 'A': [float(v) for v in A.ravel()],
            'Q': [0.0] * (m * n), 'e': draw(gen.vec(m)), 'off': 0.0,
        }
        residual = draw(st.integers(0, 2)) > 0
    sub, sb = draw(gen.solver())
    opt = {
        'subspace_solver': sub, 'stepback_strategy': sb,
        'maxiter': 60 if typ in ('quad', 'lsq') else draw(
            st.sampled_from([1, 5, 12])
        ),
        'fatol': 0.0, 'frtol': 0.0, 'xtol': 0.0, 'grtol': 0.0,
    }
    if draw(st.booleans()):
        opt['delta_init'] = draw(gen.logpos(-3, 2))
        opt['mu'] = draw(st.sampled_from([0.25, 0.1, 0.01, 0.4]))
        opt['eta'] = draw(st.sampled_from([0.75, 0.5, 0.9]))
        opt['gamma1'] = draw(st.sampled_from([0.25, 0.5, 0.1]))
        opt['gamma2'] = draw(st.sampled_from([2, 1.5, 4.0]))
        opt['theta_max'] = draw(st.sampled_from([0.95, 0.5, 0.99]))
    hu = None
    if not residual and draw(st.integers(0, 2)) == 0:
        hu = draw(gen.iterative())
        if typ in ('iquad', 'linear'):
            hu['enforce'] = True
    p = {
        'n': n, 'x0': x0, 'lb': [-gen.INF] * n, 'ub': [gen.INF] * n, 'obj': o,
    }
    return {'p': p, 'residual': residual, 'options': opt, 'hu': hu}


def strategy(tier):
    return _case()


def run_case(case, rec):
    p, hu = case['p'], case['hu']
    typ = p['obj']['type']
    obj = objective(p)
    x0, c = np.array(p['x0']), np.array(p['obj']['c'])
    _, g0, H = obj.full(x0)
    nh = norm(H, 2)
    size = 1.0 + max(norm(x0), norm(c))
    # rounding of gradients
    noise = 4 * EPS * (nh * size + norm(g0)) * p['n']
    if typ == 'lsq':
        noise += 4 * EPS * norm(obj.A) * (norm(obj.e) + norm(obj.A) * size)
    case = {
        **case, 'options': {**case['options'], 'gatol': float(1e3 * noise)},
    }
    o = trace.effective(case)
    tr = trace.run(case, hess0=None if hu is None else H.copy())
    name = trace.scheme_name(hu)
    rec.label(typ, o['subspace_solver'], name)
    drift = 0.0  # bound of the rounding errors of the approximation
    boundary = 0
    sure = True
    for k in range(1, len(tr.evals)):
        b, e = trace.state_before(tr, k), tr.evals[k]
        a = trace.state_after(tr, k)
        s = e.x - b.x
        ns = norm(s)
        what = f'{typ}, {name}, {o["subspace_solver"]}, iteration {k}'
        check(
            norm(b.h - H) <= drift + 1e-13 * (nh + 1e-300),
            f'{what}: matrix {b.h.tolist()}, the Hessian is {H.tolist()}',
        )
        q = ref.quad(H, b.g, s)
        # rounding of the objective
        z = max(norm(e.x - c), norm(b.x - c))
        dq = 8 * p['n'] * EPS * (
            abs(p['obj']['off']) + nh * z * z + norm(g0) * z
            + abs(b.f) + abs(e.f)
        ) + ns * (noise + drift * ns)
        if not -q > 1e3 * dq:
            sure = False
            break
        check(
            trace.near(a.x, e.x) and a.f == e.f,
            f'{what}: trial with value {e.f} is not accepted, value before '
            f'{b.f}, model {b.f + q}',
        )
        check(
            ns <= b.delta * (1 + 1e-7),
            f'{what}: step of length {ns}, radius {b.delta}',
        )
        share = ns / b.delta
        if abs(share - 0.9) > 1e-9:
            want = b.delta * (o['gamma2'] if share > 0.9 else 1.0)
            check(
                abs(a.delta - want) <= 1e-12 * want,
                f'{what}: radius {b.delta}, step of length {ns}, next radius '
                f'{a.delta}, expected {want}',
            )
        boundary += share > 0.9
        solver = o['subspace_solver']
        if solver == 'full' or p['n'] == 1 or (
            solver == '2D' and p['n'] == 2 and typ in ('quad', 'lsq')
        ):
            best = ref.quad(H, b.g, ref.tr_solve(H, b.g, b.delta))
            check(
                q <= best + 1e-6 * abs(best) + dq + drift * ns * ns,
                f'{what}: decrease {-q}, the largest possible is {-best}',
            )
        if typ == 'linear' and (solver != '2D' or p['n'] <= 2):
            gn = norm(b.g)
            check(
                norm(s + b.delta * b.g / gn) <= 1e-6 * b.delta
                + 8 * EPS * (norm(b.x) + norm(e.x)),
                f'{what}: step {s.tolist()}, the gradient is {b.g.tolist()}, '
                f'the radius {b.delta}',
            )
        if hu is not None:
            r = 2 * noise + (drift + 8 * EPS * nh) * ns + (
                8 * EPS * nh * norm(e.x)
            )
            y = norm(e.g - b.g)
            amp = 1e8 if hu['k'] == 'SR1' else 1.0
            if hu['k'] != 'SR1':
                curv = abs(s @ (H @ s))
                amp = 4 * (1 + (nh * ns * ns / curv) ** 2) if curv else np.inf
                amp *= 1 + nh * ns / y if y else np.inf
            drift = drift * 2 + amp * r / ns
            if not drift <= 1e-4 * nh:
                sure = False
                break
    if typ in ('quad', 'lsq') and hu is None and sure:
        w = np.linalg.eigvalsh(H)
        cond = w[-1] / w[0]
        xs = np.linalg.lstsq(H, H @ x0 - g0, rcond=None)[0]
        solver = o['subspace_solver']
        if cond < 1e6 and solver in ('full', '2D'):
            d = norm(x0 - xs) * (
                1.0 if solver == 'full' or p['n'] <= 2 else math.sqrt(cond)
            )
            most = max(
                0, math.ceil(math.log(max(d / o['delta_init'], 1e-9))
                             / math.log(o['gamma2']))
            ) + 2
            if most < o['maxiter']:
                check(
                    len(tr.evals) - 1 <= most,
                    f'{typ}, {solver}: {len(tr.evals) - 1} iterations, not '
                    f'more than {most} are necessary',
                )
                check(
                    tr.exitname == 'GTOL'
                    and norm(tr.result[1] - xs)
                    <= 1e-9 * size + 2 * case['options']['gatol'] / w[0],
                    f'{typ}, {solver}: {tr.exitname} at '
                    f'{tr.result[1].tolist()}, the minimum is at '
                    f'{xs.tolist()}',
                )
                rec.label('solved')
    rec.nontrivial(boundary > 0)
