"""Hypothesis strategies for problems and configurations (plain data)."""
from hypothesis import strategies as st

INF = float('inf')

# generic numbers with a resolution of 1e-3: shrink to 0, no denormals; small
# integers are boosted because they produce exact zeros and ties
_gen = st.integers(-4000, 4000).map(lambda i: i / 1000)
_int = st.integers(-4, 4).map(float)
num = st.one_of(_int, _gen, _gen)
nz = num.map(lambda v: v if v != 0 else 1.0)
unit = st.integers(-1000, 1000).map(lambda i: i / 1000)
pos = st.integers(0, 40).map(lambda k: round(10 ** (k / 10 - 2), 6))  # .01..100


def vec(n, el=num):
    return st.lists(el, min_size=n, max_size=n)


def logpos(lo, hi):
    """10**k, k in [lo, hi] with a resolution of 0.1"""
    return st.integers(int(lo * 10), int(hi * 10)).map(
        lambda k: float(f'{10 ** (k / 10):.3g}')
    )


@st.composite
def bounds(draw, x0, kinds=('both', 'both', 'none', 'lower', 'upper')):
    """Bounds around x0; x0 can be on or near a bound"""
    lb, ub = [], []
    dist = st.one_of(
        st.integers(1, 6000).map(lambda i: i / 1000),
        st.integers(1, 5).map(float),
        st.just(0.0),
        st.sampled_from([1e-3, 1e-6, 1e-10, 1e3, 1e5]),
    )
    for xi in x0:
        k = draw(st.sampled_from(kinds))
        lo, hi = -INF, INF
        if k in ('both', 'lower'):
            lo = xi - draw(dist)
        if k in ('both', 'upper'):
            hi = xi + draw(dist)
        if k == 'both' and hi - lo < 0.01:
            hi = lo + 1.0  # keeps x0 in [lo, hi]
        lb.append(lo)
        ub.append(hi)
    return lb, ub


def narrow(draw, p, every=6):
    """sometimes (nearly) coinciding bounds for one variable"""
    if draw(st.integers(0, every - 1)) == 0:
        i = draw(st.integers(0, p['n'] - 1))
        w = draw(
            st.sampled_from([0.0, 0.0, 0.0, 1e-16, 1e-15, 1e-14, 3e-14, 1e-13,
                             1e-12, 1e-9])
        )
        at = draw(st.sampled_from([0.0, 1.0, 0.5]))
        p['lb'][i] = p['x0'][i] - at * w
        p['ub'][i] = p['x0'][i] + (1 - at) * w
        return True
    return False


OBJ_TYPES = (
    'quad',
    'quartic',
    'trig',
    'expo',
    'lsq',
    'rosen',
    'linear',
    'barrier',
    'lsq',
    'iquad',
    'lsq',
)


@st.composite
def obj(draw, n, x0, typ):
    d = {'type': typ}
    if typ != 'barrier':
        rel = draw(vec(n))
        d['c'] = [a + b for a, b in zip(x0, rel, strict=True)]
    else:
        d['c'] = list(x0)
    ntri = n * (n + 1) // 2
    if typ == 'quad':
        d['L'] = draw(vec(ntri))
        d['mu'] = draw(st.sampled_from([0.1, 1.0, 0.01, 10.0]))
    elif typ == 'iquad':
        # constant, usually indefinite Hessian
        d['S'] = draw(vec(ntri))
    elif typ == 'quartic':
        d['S'] = draw(vec(ntri))
        d['w'] = draw(st.sampled_from([0.25, 0.05, 1.0]))
    elif typ == 'trig':
        m = draw(st.integers(1, 3))
        d['W'] = draw(vec(m * n, st.one_of(unit, num)))
        d['a'] = draw(vec(m))
        d['k'] = draw(st.sampled_from([0.5, 0.1, 2.0]))
    elif typ == 'expo':
        m = draw(st.integers(1, 3))
        d['W'] = draw(vec(m * n, unit))
        d['k'] = draw(st.sampled_from([0.5, 0.1, 2.0]))
    elif typ == 'linear':
        d['a'] = draw(vec(n, nz))
    elif typ == 'lsq':
        m = draw(st.integers(1, 4))
        d['A'] = draw(vec(m * n))
        d['Q'] = draw(
            st.one_of(
                st.just([0.0] * (m * n)),
                vec(m * n, unit),
            )
        )
        d['e'] = draw(vec(m))
    elif typ == 'barrier':
        d['a'] = draw(vec(n))
        d['b'] = draw(vec(n, st.sampled_from([0.1, 1.0, 0.01])))
    d['off'] = draw(st.sampled_from([0.0, 0.0, 1.0, -10.0, 100.0]))
    if typ == 'lsq':
        d['off'] = 0.0
    return d


@st.composite
def dim(draw, nmin=1, nmax=4):
    """mostly up to nmax, sometimes larger"""
    if nmax == 4 and draw(st.integers(0, 11)) == 11:
        return draw(st.integers(5, 7))
    return draw(st.integers(nmin, nmax))


@st.composite
def problem(
    draw,
    types=OBJ_TYPES,
    nmax=4,
    nmin=1,
    kinds=('both', 'both', 'none', 'lower', 'upper'),
    shift=True,
):
    typ = draw(st.sampled_from(types))
    n = draw(dim(nmin, nmax))
    x0 = draw(vec(n))
    if shift and draw(st.integers(0, 9)) == 0:
        s = draw(st.sampled_from([100.0, -1000.0, 1e5]))
        x0 = [x + s for x in x0]
    if typ in ('linear', 'iquad'):
        kinds = ('both',)
    if typ == 'barrier':
        kinds = tuple(k for k in kinds if k != 'none') or ('both',)
    lb, ub = draw(bounds(x0, kinds))
    if typ != 'barrier':
        narrow(draw, {'n': n, 'x0': x0, 'lb': lb, 'ub': ub}, 15)
    return {
        'n': n,
        'x0': x0,
        'lb': lb,
        'ub': ub,
        'obj': draw(obj(n, x0, typ)),
    }


# -- configuration ----------------------------------------------------------

SUBSPACE = ('2D', 'full', 'scg')
STEPBACK = ('reflect', 'reflect_single', 'truncate', 'mixed', 'refine')

ITER = ('SR1', 'BFGS', 'DFP', 'BG', 'BB', 'Broyden')


@st.composite
def iterative(draw, kinds=ITER):
    k = draw(st.sampled_from(kinds))
    d = {'k': k}
    if k == 'Broyden':
        d['phi'] = draw(st.sampled_from([0.5, 0.0, 1.0, 0.25, 0.9]))
    if k in ('BFGS', 'DFP', 'Broyden'):
        d['enforce'] = draw(st.sampled_from([True, True, True, False]))
    return d


@st.composite
def hybrid(draw, kinds=('HybridFixed', 'HybridFraction'), iters=ITER):
    k = draw(st.sampled_from(kinds))
    d = {'k': k, 'happ': draw(st.one_of(st.none(), iterative(iters)))}
    if k == 'HybridFixed':
        d['switch'] = draw(st.sampled_from([0, 1, 2, 3, 5, 20]))
    elif k == 'HybridFraction':
        d['thr'] = draw(st.sampled_from([0.0, 0.1, 0.3, 0.8]))
    elif k == 'FX':
        d['tol'] = draw(st.sampled_from([0.2, 0.0, 0.5, 0.9, 1.0]))
    return d


@st.composite
def structured(draw):
    k = draw(st.sampled_from(['GNSBFGS', 'SSM', 'TSSM', 'GNSBFGS']))
    d = {'k': k, 'enforce': draw(st.sampled_from([True, True, False]))}
    if k == 'GNSBFGS':
        d['tol'] = draw(st.sampled_from([1e-6, 1e-2, 1.0, 0.0]))
    else:
        d['phi'] = draw(st.sampled_from([0.0, 0.5, 1.0]))
    return d


def scheme(residual):
    """Hessian schemes that work with the kind of objective function"""
    if residual:
        return st.one_of(
            structured(), structured(), hybrid(kinds=('FX',)), st.none()
        )
    return st.one_of(st.none(), st.none(), iterative(), hybrid())


@st.composite
def solver(draw, refine_weight=1):
    sub = draw(st.sampled_from(SUBSPACE))
    sbs = [s for s in STEPBACK if s != 'refine'] * 4 + ['refine'] * (
        refine_weight
    )
    sb = draw(st.sampled_from(sbs))
    if sub == 'scg' and sb == 'refine':
        sb = 'reflect'
    return sub, sb


@st.composite
def options(
    draw, sub, sb, maxiter=(5, 20, 50), tols=True, control=True, wild=False
):
    o = {'subspace_solver': sub, 'stepback_strategy': sb}
    o['maxiter'] = draw(st.sampled_from(maxiter))
    if sb == 'refine':
        o['maxiter'] = min(o['maxiter'], 12)
    if tols and draw(st.booleans()):
        o['fatol'] = draw(st.sampled_from([1e-8, 0.0, 1e-3, 1e-1]))
        o['frtol'] = draw(st.sampled_from([1e-8, 0.0, 1e-3, 1e-1]))
        o['xtol'] = draw(st.sampled_from([0.0, 1e-8, 1e-3, 1e-1]))
        o['gatol'] = draw(st.sampled_from([1e-6, 0.0, 1e-3, 1e-1]))
        o['grtol'] = draw(st.sampled_from([0.0, 1e-6, 1e-2]))
    if control and draw(st.booleans()):
        o['delta_init'] = draw(
            st.one_of(st.sampled_from([10.0, 100.0, 1e3]), logpos(-2, 2))
        )
        o['mu'] = draw(st.sampled_from([0.25, 0.1, 0.01, 0.4]))
        o['eta'] = draw(st.sampled_from([0.75, 0.5, 0.9]))
        o['gamma1'] = draw(st.sampled_from([0.25, 0.5, 0.1]))
        o['gamma2'] = draw(st.sampled_from([2, 1.5, 4.0]))
        o['theta_max'] = draw(st.sampled_from([0.95, 0.5, 0.8, 0.99]))
    if control and draw(st.integers(0, 24)) == 24 and sb != 'refine':
        # slow: many iterations
        o.update(delta_init=0.01, gamma2=1.01, maxiter=130, fatol=0.0,
                 frtol=0.0)
        return o
    if wild:
        # large radii: many rejected trials
        o['delta_init'] = draw(st.sampled_from([1e3, 100.0, 10.0, 30.0, 2.0]))
    return o


# objectives for which large steps are often rejected
WILD_TYPES = (
    'rosen', 'trig', 'expo', 'quartic', 'lsq', 'barrier', 'iquad',
)


@st.composite
def config(draw, residual, refine_weight=1, **kw):
    sub, sb = draw(solver(refine_weight))
    return {
        'options': draw(options(sub, sb, **kw)),
        'hu': draw(scheme(residual)),
    }


@st.composite
def run_case(
    draw,
    types=OBJ_TYPES,
    nmax=4,
    refine_weight=1,
    kinds=None,
    residual=None,
    warm=False,
    **kw,
):
    """A complete optimizer run: problem, mode and configuration

    With `warm`, the optimizer is sometimes used for another run before.
    """
    pk = {} if kinds is None else {'kinds': kinds}
    p = draw(problem(types=types, nmax=nmax, **pk))
    if residual is None:
        residual = p['obj']['type'] == 'lsq' and draw(st.booleans())
    c = draw(config(residual, refine_weight, **kw))
    c = {'p': p, 'residual': residual, **c}
    if warm and draw(st.integers(0, 3)) == 0:
        c['warm'] = {
            't': draw(vec(4, unit)),
            'h0': draw(st.sampled_from([1.0, 2.0, 0.1])),
        }
    return c
