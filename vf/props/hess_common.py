"""Generated matrices and sequences of secant pairs"""
import numpy as np
from hypothesis import strategies as st

from .. import gen

KINDS = (
    'generic', 'generic', 'quadratic', 'positive', 'positive', 'negative',
    'orthogonal', 'exact', 'zero y', 'small', 'large', 'ill',
)


@st.composite
def matrix(draw, n, kinds=('eye', 'psd', 'diag', 'sym')):
    k = draw(st.sampled_from(kinds))
    m = {'psd': n * (n + 1) // 2, 'sym': n * (n + 1) // 2, 'diag': n,
         'full': n * n}.get(k, 0)
    return {'k': k, 'e': draw(gen.vec(m)),
            'scale': draw(st.sampled_from([1.0, 1.0, 0.1, 10.0, 1e3]))}


def build_matrix(d, n):
    e = np.array(d['e'])
    k = d['k']
    if k == 'eye':
        m = np.eye(n)
    elif k == 'diag':
        m = np.diag(np.abs(e) + 0.1)
    elif k == 'full':
        m = e.reshape(n, n)
    else:
        L = np.zeros((n, n))
        L[np.tril_indices(n)] = e
        m = L @ L.T + 0.1 * np.eye(n) if k == 'psd' else L + L.T
    if k != 'full':
        m = 0.5 * (m + m.T)
    return m * d['scale']


@st.composite
def pairs(draw, n, kinds=KINDS, lo=1, hi=6):
    out = []
    for _ in range(draw(st.integers(lo, hi))):
        out.append({
            'k': draw(st.sampled_from(kinds)),
            's': draw(gen.vec(n)),
            'y': draw(gen.vec(n)),
        })
    return out


def build_pair(d, B, H):
    """(s, y) with s != 0"""
    s, y = np.array(d['s']), np.array(d['y'])
    if not np.any(s):
        s[0] = 1.0
    k = d['k']
    if k == 'quadratic':
        y = H @ s
    elif k == 'positive':
        if y @ s < 0:
            y = -y
    elif k == 'negative':
        if y @ s > 0:
            y = -y
    elif k == 'orthogonal':
        y = y - s * (y @ s) / (s @ s)
    elif k == 'exact':
        y = B @ s
    elif k == 'zero y':
        y = np.zeros_like(y)
    elif k == 'small':
        s, y = s * 1e-6, y * 1e-6
    elif k == 'large':
        s = s * 1e4
    elif k == 'ill':
        s, y = s * 1e-4, y * 1e4
    return s, y
