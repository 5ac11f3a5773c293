"""Contract violations of the objective are refused with ValueError."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, trace
from ..engine import Violation, check

PROPERTY = 'C21'
LEVEL = 'exploration'
QUICK = 24000
THOROUGH = 200000
RULE = (
    'Scheme, kind of objective, solver and strategy, dimension 1-4, hess0 and '
    'at most one malformation of the outputs, of the start or of hess0. '
    'Expected outcome from the documented contract. Non-trivial: a '
    'malformation, a mismatch or a forbidden combination is present.'
)

MAL = (
    'none', 'none', 'none', 'drop', 'extra', 'scalar return', 'list return',
    'array return', 'none return', 'f vector', 'f array1', 'f list', 'f none',
    'g scalar', 'g row', 'g column', 'g long', 'g short', 'g matrix',
    'h scalar', 'h vector', 'h wide', 'h tall', 'h big', 'h 3d', 'h small',
    'x row', 'x column', 'x scalar', 'h0 big', 'h0 wide', 'h0 vector',
    'J columns', 'J rows', 'x float',
)


@st.composite
def _case(draw):
    n = draw(st.integers(1, 4))
    residual = draw(st.booleans())
    flag = residual if draw(st.integers(0, 4)) else not residual
    sub, sb = draw(
        st.tuples(st.sampled_from(gen.SUBSPACE), st.sampled_from(gen.STEPBACK))
    )
    return {
        'n': n,
        # kind of the scheme; flag: how the optimizer is called
        'hu': draw(gen.scheme(residual)),
        'flag': flag,
        'sub': sub,
        'sb': sb,
        'mal': draw(st.sampled_from(MAL)),
        'h0': draw(st.sampled_from(['none', 'none', 'hess', 'eye'])),
        'x': draw(gen.vec(n)),
        'm': draw(st.integers(1, 4)),
        'f': draw(st.sampled_from(['float', 'np', 'int'])),
    }


def strategy(tier):
    return _case()


def needs_residual(hu):
    return hu is not None and hu['k'] in ('FX', 'SSM', 'TSSM', 'GNSBFGS')


def run_case(c, rec):
    import fides

    n, hu, mal = c['n'], c['hu'], c['mal']
    m = c['m']
    flag = c['flag']
    problems = []
    if hu is not None and needs_residual(hu) != flag:
        problems.append('scheme does not match the kind of objective')
    if c['sub'] == 'scg' and c['sb'] == 'refine':
        problems.append('CG solver with refinement')
    ctor = list(problems)
    mode = 'rs' if flag else trace.outputs(hu, False)

    def good(x):
        if mode == 'rs':
            A = np.arange(1.0, m * n + 1).reshape(m, n) % 5 + 1
            return A @ x - 1.0, A
        f = float(x @ x)
        f = {'float': f, 'np': np.float64(f), 'int': f}[c['f']]
        r = (f, 2 * x + 1.0, 2 * np.eye(n))
        return r if mode == 'fgh' else r[:2]

    applies = True
    x0 = np.array(c['x'])
    hess0 = None
    if c['h0'] == 'hess':
        hess0 = 'hess'
    elif c['h0'] == 'eye':
        hess0 = 2 * np.eye(n)

    def fun(x):
        return good(x)

    def change(i, f):
        def fun(x):
            r = list(good(x))
            r[i] = f(r[i])
            return tuple(r)

        return fun

    if mal == 'drop':
        fun = lambda x: good(x)[:-1]  # noqa: E731
    elif mal == 'extra':
        fun = lambda x: good(x) + (np.eye(n),)  # noqa: E731
    elif mal == 'scalar return':
        fun = lambda x: 1.0  # noqa: E731
    elif mal == 'list return':
        fun = lambda x: list(good(x))  # noqa: E731
    elif mal == 'array return':
        fun = lambda x: np.ones(len(good(x)))  # noqa: E731
    elif mal == 'none return':
        fun = lambda x: None  # noqa: E731
    elif mal[0] == 'f' and mode != 'rs':
        fun = change(0, {
            'f vector': lambda f: np.array([f, f]),
            'f array1': lambda f: np.array([f]),
            'f list': lambda f: [f],
            'f none': lambda f: None,
        }[mal])
    elif mal[0] == 'g' and mode != 'rs':
        fun = change(1, {
            'g scalar': lambda g: 1.0,
            'g row': lambda g: g[None, :],
            'g column': lambda g: g[:, None],
            'g long': lambda g: np.append(g, 1.0),
            'g short': lambda g: g[:-1],
            'g matrix': lambda g: np.eye(n),
        }[mal])
    elif mal.startswith('h ') and mode == 'fgh':
        fun = change(2, {
            'h scalar': lambda h: 2.0,
            'h vector': lambda h: np.ones(n),
            'h wide': lambda h: np.ones((n, n + 1)),
            'h tall': lambda h: np.ones((n + 1, n)),
            'h big': lambda h: np.eye(n + 1),
            'h 3d': lambda h: np.ones((n, n, n)),
            'h small': lambda h: np.eye(n - 1),
        }[mal])
    elif mal.startswith('x '):
        if mal == 'x row':
            x0 = x0[None, :]
        elif mal == 'x column':
            x0 = x0[:, None]
        elif mal == 'x scalar':
            x0 = np.array(x0[0])
        else:
            x0 = float(x0[0])
    elif mal.startswith('h0 ') and hu is not None:
        hess0 = {
            'h0 big': np.eye(n + 1),
            'h0 wide': np.ones((n, n + 1)),
            'h0 vector': np.ones(n),
        }[mal]
    elif mal.startswith('J') and mode == 'rs':
        fun = change(1, {
            'J columns': lambda J: np.hstack([J, J[:, :1]]),
            'J rows': lambda J: np.vstack([J, J[:1]]),
        }[mal])
    else:
        applies = False
    if applies:
        problems.append(mal)
    what = f'{hu}, resfun={flag}, {c["sub"]}, {c["sb"]}, {mal}, n={n}'
    stage = 'Optimizer'
    try:
        opt = fides.Optimizer(
            fun, ub=np.full(n, 9.0), lb=np.full(n, -9.0),
            verbose=trace.QUIET,
            options={'maxiter': 1, 'subspace_solver': c['sub'],
                     'stepback_strategy': c['sb']},
            hessian_update=trace.hess_scheme(hu), resfun=flag,
        )
        stage = 'minimize'
        check(not ctor, f'{what}: {ctor} was accepted')
        try:
            opt.minimize(x0, hess0=hess0)
        finally:
            trace.drop_logger(opt)
    except Violation:
        raise
    except ValueError as e:
        check(
            problems, f'{what}: refused by {stage} without reason: {e}'
        )
        if stage == 'Optimizer':
            check(ctor, f'{what}: {problems} refused by Optimizer: {e}')
        rec.label('refused: ' + problems[0])
        rec.nontrivial()
        return
    except Exception as e:
        raise Violation(
            f'{what}: {stage} raised {type(e).__name__}: {str(e)[:200]}'
        ) from e
    check(not problems, f'{what}: {problems} was accepted')
    rec.label('accepted ' + trace.scheme_name(hu) + (' rs' if flag else ''))
