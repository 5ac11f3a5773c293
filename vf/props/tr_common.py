"""Generated trust-region models and direct calls of trust_region"""
import logging

import numpy as np
from hypothesis import strategies as st
from scipy.sparse import csc_matrix

from .. import gen, ref
from ..engine import call

_log = logging.getLogger('vf_quiet')
_log.setLevel(100)
_log.propagate = False


@st.composite
def model(draw, nmin=1, nmax=4, generic=False):
    n = draw(gen.dim(nmin, nmax))
    el = (
        gen._gen.map(lambda v: v if abs(v) > 0.01 else 0.37)
        if generic
        else gen.num
    )
    x = draw(gen.vec(n, el))
    lb, ub = draw(gen.bounds(x))
    hk = draw(
        st.sampled_from(
            ['psd', 'psd', 'sym', 'sym', 'diag', 'zero', 'lowrank', 'wide']
        )
    )
    if generic and hk == 'zero':
        hk = 'sym'
    extra = {}
    if hk == 'wide':
        # eigenvalues over many decades
        extra['k'] = draw(gen.vec(n, st.integers(-90, 10)))
        extra['q'] = draw(gen.vec(n * n, gen._gen))
    if n > 1 and draw(st.integers(0, 11)) == 0:
        extra['dup'] = True
        # without rounding, both reach their bounds together
        hk = draw(st.sampled_from([hk, 'diag', 'diag']))
    m = {'psd': n * (n + 1) // 2, 'sym': n * (n + 1) // 2}.get(hk, n)
    return {
        'n': n,
        'x': x,
        'lb': lb,
        'ub': ub,
        'g': draw(gen.vec(n, el)),
        'hk': hk,
        'h': draw(gen.vec(m, el)),
        'hscale': draw(st.sampled_from([1.0, 1.0, 0.1, 10.0])),
        'gscale': draw(st.sampled_from([1.0, 1.0, 0.1, 10.0, 1e-4, 1e-8])),
        'delta': draw(st.one_of(gen.logpos(-2, 2), gen.logpos(-9, 2))),
        'theta_max': draw(st.sampled_from([0.95, 0.5, 0.8, 0.99])),
        **extra,
    }


def arrays(c):
    n = c['n']
    h = np.array(c['h'])
    if c['hk'] in ('psd', 'sym'):
        L = np.zeros((n, n))
        k = 0
        for i in range(n):
            for j in range(i + 1):
                L[i, j] = h[k]
                k += 1
        H = L + L.T if c['hk'] == 'sym' else L @ L.T
    elif c['hk'] == 'diag':
        H = np.diag(h)
    elif c['hk'] == 'lowrank':
        H = np.outer(h, h)
    elif c['hk'] == 'wide':
        Q, _ = np.linalg.qr(np.array(c['q']).reshape(n, n) + 1e-3 * np.eye(n))
        H = (Q * 10.0 ** (np.array(c['k']) / 10)) @ Q.T
    else:
        H = np.zeros((n, n))
    H = 0.5 * (H + H.T) * c['hscale']
    x, g = np.array(c['x']), np.array(c['g']) * c['gscale']
    lb, ub = np.array(c['lb']), np.array(c['ub'])
    if c.get('dup'):
        # two variables that are exchangeable
        for v in (x, g, lb, ub):
            v[1] = v[0]
        P = np.eye(n)
        P[[0, 1]] = P[[1, 0]]
        H = 0.5 * (H + P @ H @ P)
    # iterates are never exactly on a bound (see C26)
    off = 3e-14 * np.maximum(1.0, np.abs(x))
    x = np.where(x == lb, x + off, np.where(x == ub, x - off, x))
    return x, g, H, lb, ub


def propose(x, g, H, lb, ub, delta, theta, sub, sb, m=None):
    """Calls trust_region with the documented arguments"""
    from fides.constants import StepBackStrategy, SubSpaceDim
    from fides.trust_region import trust_region

    m = m or ref.Model(x, g, H, lb, ub)
    return call(
        f'trust_region({sub}, {sb})',
        trust_region,
        x.copy(),
        g.copy(),
        H.copy(),
        csc_matrix(np.diag(m.d)),
        delta,
        m.dv.copy(),
        theta,
        lb.copy(),
        ub.copy(),
        subspace_dim=SubSpaceDim(sub),
        stepback_strategy=StepBackStrategy(sb),
        logger=_log,
    )
