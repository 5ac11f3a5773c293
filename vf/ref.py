"""Reference models: written from the papers / documentation, independent of
the code of the repository.
"""
import itertools
import math

import numpy as np
from numpy.linalg import norm


# --------------------------------------------------------------------------
# trust region subproblem
# --------------------------------------------------------------------------


def quad(B, g, s):
    return 0.5 * float(s @ (B @ s)) + float(g @ s)


def tr_solve(B, g, delta):
    """Global minimizer of 1/2 s'Bs + g's in the ball with radius delta

    Bisection on the multiplier in log space in the eigenbasis, slow but
    without special cases apart from the hard case.
    """
    B = 0.5 * (B + B.T)
    e, V = np.linalg.eigh(B)
    w = V.T @ g
    scale = np.max(np.abs(e)) if e.size else 0.0
    if e[0] > 1e-14 * scale and e[0] > 0:
        s0 = -w / e
        if norm(s0) <= delta:
            return V @ s0
    lo = max(0.0, -e[0])
    base = np.maximum(e + lo, 0.0)

    def coef(t):
        with np.errstate(all='ignore'):
            return np.where(w == 0, 0.0, -w / (base + t))

    wn = norm(w)
    tiny = 1e-300
    with np.errstate(all='ignore'):
        n0 = norm(coef(tiny))
    if not n0 > delta:
        # hard case or singular with interior solution
        with np.errstate(all='ignore'):
            q = np.where((w == 0) | (base == 0), 0.0, -w / np.maximum(base, tiny))
        if lo > 0:
            sig = math.sqrt(max(delta**2 - q @ q, 0.0))
            q[0] += -math.copysign(sig, w[0])
        return V @ q
    la, lb = math.log(tiny), math.log(2 * wn / delta + 1e-290)
    for _ in range(400):
        m = 0.5 * (la + lb)
        if norm(coef(math.exp(m))) > delta:
            la = m
        else:
            lb = m
    q = coef(math.exp(lb))
    # resolution of the nearly hard case: fill up to the boundary
    miss = delta**2 - q @ q
    if miss > 1e-14 * delta**2 and base[0] == 0:
        q0 = q.copy()
        q0[0] = math.copysign(math.sqrt(q[0] ** 2 + miss), -w[0])
        if quad(np.diag(e), w, q0) < quad(np.diag(e), w, q):
            q = q0
    return V @ q


def line_interval(s, s0, delta):
    """tau with ||s0 + tau s|| <= delta"""
    a = s @ s
    b = s0 @ s
    c = s0 @ s0 - delta**2
    disc = math.sqrt(max(b * b - a * c, 0.0))
    return (-b - disc) / a, (-b + disc) / a


def line_solve(B, g, s, s0, delta):
    """argmin over tau of q(s0 + tau s) in the ball; returns (tau, q)"""
    t0, t1 = line_interval(s, s0, delta)
    cand = [t0, t1]
    a = 0.5 * float(s @ (B @ s))
    b = float(s @ (0.5 * (B + B.T) @ s0 + g))
    if a > 0:
        m = -b / (2 * a)
        if t0 < m < t1:
            cand.append(m)
    qs = [quad(B, g, s0 + t * s) for t in cand]
    k = int(np.argmin(qs))
    return cand[k], qs[k]


# --------------------------------------------------------------------------
# Coleman Li: affine scaling (Definition 2), model, step back
# --------------------------------------------------------------------------


def affine(x, g, lb, ub):
    n = len(x)
    v = np.zeros(n)
    dv = np.zeros(n)
    for i in range(n):
        if g[i] < 0:
            if np.isfinite(ub[i]):
                v[i], dv[i] = x[i] - ub[i], 1.0
            else:
                v[i] = -1.0
        else:
            if np.isfinite(lb[i]):
                v[i], dv[i] = x[i] - lb[i], 1.0
            else:
                v[i] = 1.0
    return v, dv


class Model:
    """Scaled quadratic model at a point"""

    def __init__(self, x, g, H, lb, ub):
        self.x, self.g, self.H = x, g, H
        self.lb, self.ub = lb, ub
        self.v, self.dv = affine(x, g, lb, ub)
        self.d = np.sqrt(np.abs(self.v))
        self.sg = self.d * g
        self.M = self.d[:, None] * H * self.d + np.diag(np.abs(g) * self.dv)

    def q(self, ss):
        return quad(self.M, self.sg, ss)

    def qscale(self, ss):
        """magnitude of the terms that are added up in the model value"""
        a = np.abs(ss)
        return float(a @ (np.abs(self.M) @ a) + np.abs(self.sg) @ a)

    def scaled(self, s):
        """scaled step of an unscaled step (0 where the scaling is 0)"""
        with np.errstate(all='ignore'):
            return np.where(self.d > 0, s / self.d, 0.0)

    def theta(self, theta_max):
        return max(theta_max, 1 - np.max(np.abs(self.v * self.g)))

    def breaks(self, s, s0=None):
        """fraction of s at which each variable meets its bound"""
        x = self.x if s0 is None else self.x + s0
        br = np.full(len(s), np.inf)
        with np.errstate(all='ignore'):
            for i in range(len(s)):
                if s[i] > 0:
                    br[i] = (self.ub[i] - x[i]) / s[i]
                elif s[i] < 0:
                    br[i] = (self.lb[i] - x[i]) / s[i]
        return br

    def cauchy(self, delta, theta):
        """stepped back minimizer along the steepest descent direction"""
        nsg = norm(self.sg)
        if nsg == 0:
            return np.zeros_like(self.sg)
        u = -self.sg / nsg
        t, _ = line_solve(self.M, self.sg, u, np.zeros_like(u), delta)
        ss = t * u
        a = min(1.0, theta * np.min(self.breaks(self.d * ss)))
        return a * ss


# --------------------------------------------------------------------------
# quasi-Newton updates, textbook formulas
# --------------------------------------------------------------------------

EPS = np.spacing(1)


def broyden_class(B, s, y, phi, enforce=True):
    """Nocedal & Wright (6.19), (6.13), and their convex combination"""
    b = float(y @ s)
    Bs = B @ s
    c = float(s @ Bs)
    if (enforce and b <= 0) or b == 0 or c == 0:
        return B.copy()
    bfgs = B - np.outer(Bs, Bs) / c + np.outer(y, y) / b
    rho = 1.0 / b
    L = np.eye(len(s)) - rho * np.outer(y, s)
    # for symmetric B
    dfp = L @ B @ L.T + rho * np.outer(y, y)
    return (1 - phi) * bfgs + phi * dfp


def sr1(B, s, y):
    z = y - B @ s
    d = float(z @ s)
    if not abs(d) > math.sqrt(EPS) * norm(s) * norm(z):
        return B.copy()
    return B + np.outer(z, z) / d


def bg(B, s, y):
    return B + np.outer(y - B @ s, s) / float(s @ s)


def bb(B, s, y):
    """Broyden's bad method: least change of the inverse

    B+^-1 = B^-1 + (s - B^-1 y) y' / (y'y); this is its Sherman-Morrison form
    """
    u = B.T @ y
    d = float(u @ s)
    if not abs(d) > math.sqrt(EPS) * norm(s) * norm(u):
        return B.copy()
    return B + np.outer(y - B @ s, u) / d


def update_iterative(desc, B, s, y):
    k = desc['k']
    if k == 'SR1':
        return sr1(B, s, y)
    if k == 'BG':
        return bg(B, s, y)
    if k == 'BB':
        return bb(B, s, y)
    phi = {'BFGS': 0.0, 'DFP': 1.0}.get(k, desc.get('phi'))
    return broyden_class(B, s, y, phi, desc.get('enforce', True))


def degeneracy(desc, B, s, y):
    """How far from a skip decision (or from a division by ~0): values close
    to zero mean that rounding decides. Relative number in [0, 1]; also the
    sign ambiguity of the curvature condition."""
    k = desc['k']
    if k == 'SR1':
        z = y - B @ s
        zs = norm(z)
        ref = norm(y) + norm(B) * norm(s)
        if ref == 0 or zs <= 1e-9 * ref:
            return 0.0
        return abs(z @ s) / (norm(s) * zs)
    if k == 'BG':
        return 1.0
    if k == 'BB':
        u = B.T @ y
        ref = norm(s) * norm(u)
        if ref == 0 or norm(u) <= 1e-9 * norm(B) * norm(y):
            return 0.0
        return abs(u @ s) / ref
    ref = norm(s) * norm(y)
    Bs = B @ s
    ref2 = norm(s) * norm(B) * norm(s)
    if ref == 0 or ref2 == 0:
        return 0.0
    b = y @ s
    if b < -1e-9 * ref and desc.get('enforce', True):
        return 1.0  # skipped for sure
    return min(abs(b) / ref, abs(s @ Bs) / ref2)


# --------------------------------------------------------------------------
# box constrained strictly convex QP: all active sets
# --------------------------------------------------------------------------


def box_qp(H, c, lb, ub):
    """argmin 1/2 (x-c)'H(x-c) in the box by enumeration of active sets"""
    n = len(c)
    best, bx = np.inf, None
    for act in itertools.product((-1, 0, 1), repeat=n):
        x = np.zeros(n)
        ok = True
        free = []
        for i, a in enumerate(act):
            if a == -1:
                if not np.isfinite(lb[i]):
                    ok = False
                    break
                x[i] = lb[i]
            elif a == 1:
                if not np.isfinite(ub[i]):
                    ok = False
                    break
                x[i] = ub[i]
            else:
                free.append(i)
        if not ok:
            continue
        fixed = [i for i in range(n) if i not in free]
        if free:
            rhs = np.zeros(len(free))
            if fixed:
                rhs = -H[np.ix_(free, fixed)] @ (x[fixed] - c[fixed])
            z = np.linalg.solve(H[np.ix_(free, free)], rhs)
            x[free] = c[free] + z
            if np.any(x[free] < lb[free]) or np.any(x[free] > ub[free]):
                continue
        f = 0.5 * (x - c) @ H @ (x - c)
        if f < best:
            best, bx = f, x
    return best, bx
