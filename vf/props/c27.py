"""Initial Hessian approximations are used as given."""
import numpy as np
from hypothesis import strategies as st
from numpy.linalg import norm

from .. import gen, trace
from ..engine import check
from . import hess_common as hc
from .c17 import compare, digest

PROPERTY = 'C27'
LEVEL = 'exploration'
QUICK = 6000
THOROUGH = 30000
RULE = (
    'Generated problem, scheme and initial matrix: none, a symmetric (also '
    'indefinite, integer, Fortran-ordered, read-only) matrix, or the Hessian '
    'of the objective. The matrix in use at the first trial has to be this '
    'matrix, and the trial the one of an objective with this exact Hessian. '
    'Without scheme the run has to be identical. Non-trivial: a matrix is '
    'given and the first trial point is evaluated.'
)


@st.composite
def _case(draw):
    c = draw(
        gen.run_case(
            warm=True,
            types=gen.OBJ_TYPES + ('lsq', 'lsq'),
            maxiter=(1, 2, 3, 8), tols=False,
        )
    )
    n = c['p']['n']
    kind = draw(
        st.sampled_from(['none', 'matrix', 'matrix', 'int', 'hess', 'forder'])
    )
    c['h0'] = {'kind': kind}
    if kind in ('matrix', 'forder'):
        c['h0']['m'] = draw(hc.matrix(n))
    elif kind == 'int':
        c['h0']['e'] = draw(
            st.lists(st.integers(-3, 5), min_size=n * (n + 1) // 2,
                     max_size=n * (n + 1) // 2)
        )
    c['readonly'] = draw(st.booleans())
    return c


def strategy(tier):
    return _case()


def run_case(case, rec):
    n = case['p']['n']
    h0 = case['h0']
    kind = h0['kind']
    if kind == 'none':
        arg = None
    elif kind == 'hess':
        arg = 'hess'
    elif kind == 'int':
        arg = np.zeros((n, n), dtype=int)
        arg[np.tril_indices(n)] = h0['e']
        arg = arg + arg.T
    else:
        arg = hc.build_matrix(h0['m'], n)
        if kind == 'forder':
            arg = np.asfortranarray(arg)
    keep = None
    if isinstance(arg, np.ndarray):
        keep = arg.copy()
        if case['readonly']:
            arg.flags.writeable = False
    name = trace.scheme_name(case['hu'])
    rec.label(kind, name)
    tr = trace.run(case, hess0=arg)
    if keep is not None:
        check(
            np.array_equal(arg, keep) and arg.dtype == keep.dtype,
            'the given initial matrix was modified',
        )
    if case['hu'] is None:
        compare(
            digest(trace.run(case)), digest(tr),
            f'run without scheme with hess0 {kind}',
        )
        rec.nontrivial(len(tr.evals) > 1 and kind != 'none')
        return
    if len(tr.evals) < 2:
        return
    e0, e1 = tr.evals[0], tr.evals[1]
    if keep is not None:
        want = keep.astype(float)
    elif kind == 'hess':
        mode = trace.outputs(case['hu'], case['residual'])
        want = {'rs': e0.gn, 'fgh': e0.h, 'fg': np.eye(n)}[mode]
    else:
        want = np.eye(n)
    check(
        norm(e1.oh - want) <= 1e-13 * norm(want),
        f'{name}: matrix in use at the first step is {e1.oh.tolist()}, '
        f'expected ({kind}) {want.tolist()}',
    )
    # objective with this exact Hessian
    class Exact:
        @staticmethod
        def full(x):
            return e0.f, e0.g.copy(), e1.oh.copy()

    c2 = {
        **case, 'hu': None, 'residual': False,
        'options': {**case['options'], 'maxiter': 1},
    }
    t2 = trace.Trace()
    trace.build(c2, t2, fun=trace.make_fun(c2, t2, 'fgh', obj=Exact))
    trace.execute(t2, c2)
    x1, x2 = e1.x, t2.evals[1].x
    # gradient in residual mode is computed by fides
    same = np.array_equal(e1.og, t2.evals[1].og)
    tol = 0.0 if same else None
    if tol is not None:
        check(
            np.allclose(x1, x2, rtol=1e-12, atol=1e-13),
            f'{name}: first trial {x1.tolist()}, with an exact Hessian '
            f'{x2.tolist()}',
        )
    rec.nontrivial(kind != 'none')
