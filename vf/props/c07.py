"""Step proposals attain the quality promised by solver and strategy."""
import numpy as np
from hypothesis import strategies as st
from numpy.linalg import norm

from .. import gen, ref
from ..engine import check
from . import tr_common as T

PROPERTY = 'C07'
LEVEL = 'exploration'
QUICK = 10000
THOROUGH = 80000
RULE = (
    'Random trust-region models as in C06; trust_region is called for one '
    'solver and all strategies. Oracles: independent exact solution, '
    'stepped-back steepest descent, stepped-back negative curvature, '
    'chains of reflected and of truncated steps recomputed from the exact '
    'solution, the documented stopping rule of truncated conjugate '
    'gradients, and comparison of '
    'the strategies with each other. Non-trivial: the plain step has to be '
    'stepped back.'
)

STRATEGIES = ('reflect_single', 'reflect', 'truncate', 'mixed')


@st.composite
def _case(draw):
    c = draw(T.model(generic=draw(st.booleans())))
    c['sub'] = draw(st.sampled_from(['full', '2D', 'scg']))
    c['refine'] = draw(st.integers(0, 19)) == 0
    return c


def strategy(tier):
    return _case()


def unique(M, sg, delta):
    """The exact solution is unique and well conditioned"""
    e, V = np.linalg.eigh(M)
    top = np.max(np.abs(e))
    if top == 0:
        return norm(sg) > 0
    if e[0] > 1e-6 * top:
        return True
    w = V.T @ sg
    low = e - e[0] <= 1e-3 * top
    return norm(w[low]) > 1e-3 * norm(sg) and norm(sg) > 0


def breaks(m, s, s0):
    """fractions of s at which the bounds are met, starting from x + s0"""
    return np.maximum(m.breaks(s, s0), 0.0)


def clear_first(br, exact_ties):
    """index set of the variables that meet their bounds first, or None if
    rounding may decide it"""
    lo = np.min(br)
    first = br == lo
    rest = br[~first]
    if len(rest) and np.min(rest) <= lo * (1 + 1e-4) + 1e-12:
        return None
    if np.sum(first) > 1 and not exact_ties:
        return None
    return first


def reflections(m, r, delta, theta, limit):
    """model values of the single, double, ... reflection of the step r"""
    exact_ties = not np.any(m.M != np.diag(np.diag(m.M)))
    out = []
    ss0, og = np.zeros_like(r), r
    for _ in range(limit):
        br = breaks(m, m.d * og, m.d * ss0)
        first = clear_first(br, exact_ties)
        if first is None:
            break
        ss0 = ss0 + min(np.min(br), 1.0) * og
        if norm(ss0) >= 0.9999 * delta:
            break
        u = og.copy()
        u[first] *= -1
        u = u / norm(u)
        t, q1 = ref.line_solve(m.M, m.sg, u, ss0, delta)
        if u @ m.M @ u <= 1e-9 * np.abs(u) @ np.abs(m.M) @ np.abs(u):
            ends = [m.q(ss0 + a * u)
                    for a in ref.line_interval(u, ss0, delta)]
            if abs(ends[0] - ends[1]) <= 1e-6 * max(map(abs, ends)):
                break  # a tie between both directions
        og = t * u
        br = m.d * og, m.d * ss0
        # the reflected variables start exactly at their bound
        br = breaks(m, *br)
        br[first & (np.sign(og) == np.sign(r if not out else og_prev))] = 0.0
        al = min(1.0, theta * np.min(br))
        out.append(m.q(ss0 + al * og))
        og_prev = og
        if theta * np.min(br) > 1 - 1e-6 or al < 1e-6:
            break
    return out


def truncations(m, r, delta, theta, basis, limit):
    """model values after one, two, ... truncations: the step r is truncated
    at the first bound, and the rest solved again in the space spanned by the
    basis without the truncated variable"""
    out = []
    n = len(r)
    ss0, og, Z = np.zeros(n), r, basis
    for _ in range(limit):
        br = breaks(m, m.d * og, m.d * ss0)
        first = clear_first(br, False)
        if first is None:
            break
        i = int(np.argmin(br))
        ss0 = ss0.copy()
        ss0[i] += theta * br[i] * og[i]
        rad2 = delta**2 - ss0 @ ss0
        if rad2 <= 1e-6 * delta**2:
            break
        Z = Z.copy()
        Z[i] = 0
        U, sv, _ = np.linalg.svd(Z, full_matrices=False)
        if np.any((sv < 1e-3) & (sv > 1e-13)):
            break  # rank is a matter of tolerance
        Z = U[:, sv >= 1e-3]
        if Z.shape[1] == 0:
            out.append(m.q(ss0))
            break
        M1 = Z.T @ m.M @ Z
        g1 = Z.T @ (m.sg + m.M @ ss0)
        if not unique(M1, g1, np.sqrt(rad2)):
            break
        og = Z @ ref.tr_solve(M1, g1, np.sqrt(rad2))
        og[ss0 != 0] = 0
        fr = theta * np.min(breaks(m, m.d * og, m.d * ss0))
        out.append(m.q(ss0 + min(1.0, fr) * og))
        if fr > 1 - 1e-6:
            break
    return out


def run_case(c, rec):
    x, g, H, lb, ub = T.arrays(c)
    m = ref.Model(x, g, H, lb, ub)
    n = c['n']
    theta, delta, sub = m.theta(c['theta_max']), c['delta'], c['sub']
    if not np.any(m.sg):
        rec.label('stationary')
        return
    steps, qs = {}, {}
    names = list(STRATEGIES)
    if c['refine'] and sub != 'scg':
        names.append('refine')
    for sb in names:
        step = T.propose(x, g, H, lb, ub, delta, theta, sub, sb, m)
        steps[sb] = step
        ss = np.asarray(step.ss + step.ss0, dtype=float)
        qs[sb] = m.q(ss)
    scale = max(m.qscale(np.asarray(s.ss + s.ss0)) for s in steps.values())

    def leq(a, b, msg, rel=1e-6, noise=0.0):
        check(
            a <= b + rel * abs(b) + 1e-9 * scale + noise,
            f'{sub}: {msg}: {a:.10g} > {b:.10g}',
        )

    # strategies against each other (the plain step is the same for all)
    leq(qs['reflect'], qs['reflect_single'],
        'recursive reflection is worse than single reflection', 1e-9)
    leq(qs['mixed'], qs['reflect'], 'mixed is worse than reflect', 1e-9)
    leq(qs['mixed'], qs['truncate'], 'mixed is worse than truncate', 1e-9)

    e = np.linalg.eigvalsh(m.M)
    top = np.max(np.abs(e))
    qc = m.q(m.cauchy(delta, theta))
    sure_definite = e[0] > 1e-10 * top
    if sub != '2D' or sure_definite or n == 1:
        base = qc
        rec.label('bounded by cauchy')
    else:
        # negative curvature: the full eigenvector step is a candidate
        base = max(qc, -0.5 * abs(min(e[0], 0.0)) * delta**2)
        rec.label('bounded by cauchy or curvature')
    for sb in names:
        leq(qs[sb], base, f'{sb} is worse than the elementary step')

    back = any(s.alpha < 1 or s.type in ('trr', 'trt', 'g') for s in
               steps.values())
    rec.label(sub, f'n={n}', 'stepped back' if back else 'plain',
              *(f'{sb}: {s.type}' for sb, s in steps.items()))
    rec.nontrivial(back)

    # the plain step of the solver: what it proposes if there are no bounds in
    # the way (with the same scaling)
    inf = np.full(n, np.inf)
    p = T.propose(x, g, H, -inf, inf, delta, theta, sub, 'reflect_single', m)
    r = np.asarray(p.ss + p.ss0, dtype=float)
    exact = sub == 'full' or n == 1
    basis = np.eye(n) if exact else None
    if sub == '2D' and n > 1 and e[0] > 1e-9 * top > 0:
        # Newton and gradient direction
        nw = np.linalg.solve(m.M, m.sg)
        u = m.sg / norm(m.sg)
        w = nw - u * (u @ nw)
        if norm(w) > 1e-3 * norm(nw):
            basis = np.array([u, w / norm(w)]).T
            # reduced problem; the Newton step is its unconstrained minimum
            M2, g2 = basis.T @ m.M @ basis, basis.T @ m.sg
            r2 = basis @ ref.tr_solve(M2, g2, delta)
            leq(m.q(r), m.q(r2), 'plain step is not optimal in the subspace')
            rec.label('2D optimum compared')
            if norm(nw) < delta * (1 - 1e-6):
                # only the Newton direction remains
                basis = (nw / norm(nw))[:, None]
        else:
            basis = None
    lam = np.sort(e)
    if sub == '2D' and n > 1 and lam[0] < -1e-6 * top and (
        lam[1] - lam[0] > 1e-4 * top
    ):
        # direction of negative curvature and scaled signs of the gradient
        nw = np.linalg.eigh(0.5 * (m.M + m.M.T))[1][:, 0]
        u = m.d * np.where(m.sg < 0, -1.0, 1.0)
        w = u - nw * (nw @ u)
        if norm(w) > 1e-3 * norm(u):
            basis = np.array([nw, w / norm(w)]).T
            M2, g2 = basis.T @ m.M @ basis, basis.T @ m.sg
            r2 = basis @ ref.tr_solve(M2, g2, delta)
            leq(m.q(r), m.q(r2), 'plain step is not optimal in the subspace')
            rec.label('2D optimum compared (negative curvature)')
            if not unique(M2, g2, delta):
                basis = None
    if exact:
        opt = ref.tr_solve(m.M, m.sg, delta)
        # eigenvalues that vanish up to rounding can have either sign
        leq(m.q(r), m.q(opt), 'plain step is not the exact minimum',
            noise=1e-14 * norm(m.M) * norm(opt)**2)
    if sub == 'scg':
        # truncated conjugate gradients
        res, nsg = norm(m.M @ r + m.sg), norm(m.sg)
        if norm(r) < delta * (1 - 1e-9) and sure_definite and (
            e[-1] < 1e4 * e[0]
        ):
            check(
                res <= min(0.5, np.sqrt(nsg)) * nsg * (1 + 1e-6) + 1e-9 * nsg,
                f'scg: step inside of the trust region with residual '
                f'{res:.6g} of a gradient with norm {nsg:.6g}',
            )
            rec.label('scg residual compared')
    if sub == 'scg' and norm(r) > 0:
        basis = (r / norm(r))[:, None]

    br = m.breaks(m.d * r)
    frac = theta * np.min(br)
    if frac > 1 + 1e-9:
        for sb in names:
            leq(qs[sb], m.q(r), f'{sb} is worse than the plain step')
        rec.label('not stepped back')
        return
    plain = m.q(min(1.0, frac) * r)
    for sb in names:
        leq(qs[sb], plain, f'{sb} is worse than the plain step')
    if n == 1 or frac > 1 - 1e-9:
        return
    for sb in names:
        leq(qs[sb], qc, f'{sb} is worse than the gradient step')
    refl = reflections(m, r, delta, theta, n)
    for k, q in enumerate(refl):
        rec.label(f'reflection {k + 1} compared', f'reflection compared {sub}')
        if k == 0 and np.sum(br == np.min(br)) > 1:
            rec.label('reflected together')
        for sb in ('reflect_single', 'reflect', 'mixed'):
            if k == 0 or sb != 'reflect_single':
                leq(qs[sb], q, f'{sb} is worse than reflection {k + 1}', 1e-4)
    if basis is not None:
        trunc = truncations(m, r, delta, theta, basis, n)
        for k, q in enumerate(trunc):
            rec.label(f'truncation {k + 1} compared',
                      f'truncation compared {sub}')
            for sb in ('truncate', 'mixed'):
                leq(qs[sb], q, f'{sb} is worse than truncation {k + 1}', 1e-4)
