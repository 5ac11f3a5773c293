"""Objective functions described by plain data.

Every objective returns exact derivatives. `full(x)` gives (f, g, H);
residual objectives also give `resid(x)` = (r, J).
"""
import numpy as np


def _sym(entries, n):
    """lower triangle (row wise) -> symmetric matrix"""
    m = np.zeros((n, n))
    k = 0
    for i in range(n):
        for j in range(i + 1):
            m[i, j] = m[j, i] = entries[k]
            k += 1
    return m


def _psd(entries, n, mu):
    low = np.zeros((n, n))
    k = 0
    for i in range(n):
        for j in range(i + 1):
            low[i, j] = entries[k]
            k += 1
    h = low @ low.T + mu * np.eye(n)
    return 0.5 * (h + h.T)


class Objective:
    def __init__(self, d, n, lb=None, ub=None):
        self.d = d
        self.n = n
        self.t = d['type']
        self.c = np.array(d.get('c', [0.0] * n), dtype=float)
        self.off = float(d.get('off', 0.0))
        self.scale = float(d.get('scale', 1.0))
        t = self.t
        if t == 'quad':
            self.H = _psd(d['L'], n, d['mu'])
        elif t == 'iquad':
            self.H = _sym(d['S'], n)
        elif t == 'quartic':
            self.H = _sym(d['S'], n)
            self.w = d['w']
        elif t == 'trig':
            self.W = np.array(d['W'], dtype=float).reshape(-1, n)
            self.a = np.array(d['a'], dtype=float)
            self.k = d['k']
        elif t == 'expo':
            self.W = np.array(d['W'], dtype=float).reshape(-1, n)
            self.k = d['k']
        elif t == 'linear':
            self.a = np.array(d['a'], dtype=float)
        elif t == 'lsq':
            m = len(d['e'])
            self.A = np.array(d['A'], dtype=float).reshape(m, n)
            self.Q = np.array(d['Q'], dtype=float).reshape(m, n)
            self.e = np.array(d['e'], dtype=float)
        elif t == 'barrier':
            self.a = np.array(d['a'], dtype=float)
            self.b = np.array(d['b'], dtype=float)
            lo = np.array(lb, dtype=float)
            hi = np.array(ub, dtype=float)
            self.lo = np.where(np.isfinite(lo), lo, 0.0)
            self.hi = np.where(np.isfinite(hi), hi, 0.0)
            self.haslo = np.isfinite(lo)
            self.hashi = np.isfinite(hi)
        elif t != 'rosen':
            raise AssertionError(t)

    @property
    def residual(self):
        return self.t == 'lsq'

    def resid(self, x):
        z = x - self.c
        r = self.e + self.A @ z + self.Q @ (z * z)
        J = self.A + 2 * self.Q * z
        return r, J

    def full(self, x):
        with np.errstate(all='ignore'):
            f, g, h = self._full(np.asarray(x, dtype=float))
        s = self.scale
        return float(s * f + self.off), s * g, s * h

    def _full(self, x):
        n, t = self.n, self.t
        z = x - self.c
        if t in ('quad', 'iquad'):
            hz = self.H @ z
            return 0.5 * (z @ hz), hz, self.H.copy()
        if t == 'quartic':
            hz = self.H @ z
            w = self.w
            return (
                0.5 * (z @ hz) + w * np.sum(z**4),
                hz + 4 * w * z**3,
                self.H + np.diag(12 * w * z**2),
            )
        if t == 'trig':
            u = self.W @ z
            f = 0.5 * self.k * (z @ z) + np.sum(self.a * np.cos(u))
            g = self.k * z - self.W.T @ (self.a * np.sin(u))
            h = self.k * np.eye(n) - (self.W.T * (self.a * np.cos(u))) @ self.W
            return f, g, 0.5 * (h + h.T)
        if t == 'expo':
            u = np.exp(self.W @ z)
            f = 0.5 * self.k * (z @ z) + np.sum(u)
            g = self.k * z + self.W.T @ u
            h = self.k * np.eye(n) + (self.W.T * u) @ self.W
            return f, g, 0.5 * (h + h.T)
        if t == 'linear':
            return self.a @ z, self.a.copy(), np.zeros((n, n))
        if t == 'lsq':
            r, J = self.resid(x)
            h = J.T @ J + np.diag(2 * (self.Q.T @ r))
            return 0.5 * (r @ r), r @ J, 0.5 * (h + h.T)
        if t == 'rosen':
            y = z + 1.0
            if n == 1:
                return z[0] ** 2, 2 * z, 2 * np.eye(1)
            f = np.sum(100 * (y[1:] - y[:-1] ** 2) ** 2 + (1 - y[:-1]) ** 2)
            g = np.zeros(n)
            h = np.zeros((n, n))
            for i in range(n - 1):
                q = y[i + 1] - y[i] ** 2
                g[i] += -400 * q * y[i] - 2 * (1 - y[i])
                g[i + 1] += 200 * q
                h[i, i] += 1200 * y[i] ** 2 - 400 * y[i + 1] + 2
                h[i + 1, i + 1] += 200
                h[i, i + 1] += -400 * y[i]
                h[i + 1, i] += -400 * y[i]
            return f, g, h
        if t == 'barrier':
            f = 0.0
            g = np.zeros(n)
            h = np.zeros((n, n))
            for i in range(n):
                g[i] += self.a[i]
                f += self.a[i] * z[i] + 0.05 * z[i] ** 2
                g[i] += 0.1 * z[i]
                h[i, i] += 0.1
                if self.haslo[i]:
                    d = x[i] - self.lo[i]
                    if d <= 0:
                        return np.inf, np.zeros(n), np.zeros((n, n))
                    f -= self.b[i] * np.log(d)
                    g[i] -= self.b[i] / d
                    h[i, i] += self.b[i] / d**2
                if self.hashi[i]:
                    d = self.hi[i] - x[i]
                    if d <= 0:
                        return np.inf, np.zeros(n), np.zeros((n, n))
                    f -= self.b[i] * np.log(d)
                    g[i] += self.b[i] / d
                    h[i, i] += self.b[i] / d**2
            return f, g, h
        raise AssertionError(t)


def objective(problem):
    return Objective(
        problem['obj'], problem['n'], problem['lb'], problem['ub']
    )
