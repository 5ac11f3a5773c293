"""Representation and diagnostics do not influence a run."""
import contextlib
import io
import logging
import os

import numpy as np
from hypothesis import strategies as st

from .. import gen, trace
from ..engine import Violation, check, in_fides
from .c17 import compare, digest

PROPERTY = 'C19'
LEVEL = 'exploration'
QUICK = 5000
THOROUGH = 20000
RULE = (
    'A generated run and the same run with 1-4 changes of representation: '
    'option names and choices as strings or members, defaults spelled out '
    'with their documented values, history file, verbosity, start id, funargs '
    'instead of closure, integer or strided or read-only arrays for start and '
    'bounds, integer types for integer-valued outputs and single '
    'precision arrays for outputs of the objective, '
    'numpy scalars for objective values and options. All evaluations and results must be identical. Non-trivial: at '
    'least three evaluations.'
)
CHANGES = (
    'keys', 'values', 'defaults', 'history', 'debug', 'info', 'id',
    'funargs', 'int x0', 'int bounds', 'strided', 'readonly', 'maxiter float',
    'int outputs', 'int outputs', 'numpy scalars', 'numpy options',
    'single outputs',
)


def as_int(v):
    """the same values as integers, if they are integers"""
    a = np.array(v)
    if np.all(np.isfinite(a)) and np.all(a == np.round(a)) and np.all(
        np.abs(a) < 1e6
    ):
        return int(a) if a.ndim == 0 else a.astype(int)
    return v


@st.composite
def _case(draw):
    changes = draw(
        st.lists(
            st.sampled_from(CHANGES), min_size=1, max_size=4, unique=True
        )
    )
    ints = any(c in ('int x0', 'int bounds') for c in changes)
    c = draw(
        gen.run_case(
            types=('linear', 'quad', 'lsq', 'iquad', 'linear')
            if 'int outputs' in changes
            else gen.OBJ_TYPES + ('rosen', 'trig'),
            kinds=('both',) if ints else (
                'both', 'none', 'lower', 'upper', 'both'
            ),
            maxiter=(3, 10, 20, 40),
            wild=draw(st.booleans()),
        )
    )
    if ints:
        p = c['p']
        p['x0'] = [float(round(v)) for v in p['x0']]
        p['lb'] = [min(float(np.floor(v)), x) for v, x in
                   zip(p['lb'], p['x0'], strict=True)]
        p['ub'] = [max(float(np.ceil(v)), x) for v, x in
                   zip(p['ub'], p['x0'], strict=True)]
        p['ub'] = [u if u > lo else lo + 1 for u, lo in
                   zip(p['ub'], p['lb'], strict=True)]
        for k in ('x0', 'lb', 'ub'):
            # integers have no negative zero
            p[k] = [v + 0.0 for v in p[k]]
    if 'int outputs' in changes:
        d = c['p']['obj']
        for k in ('a', 'c', 'L', 'S', 'A', 'e', 'Q'):
            if k in d:
                d[k] = [float(round(v)) + 0.0 for v in d[k]]
        if 'mu' in d:
            d['mu'] = 1.0
    # leave some options out, so that there are defaults
    for k in sorted(c['options']):
        if k != 'maxiter' and draw(st.integers(0, 2)) == 0:
            del c['options'][k]
    if c['options'].get('subspace_solver') == 'scg' and c['options'].get(
        'stepback_strategy'
    ) == 'refine':
        del c['options']['stepback_strategy']
    if draw(st.integers(0, 9)) == 0:
        # the default number of iterations is large enough for these
        if c['options'].get('stepback_strategy') != 'refine':
            del c['options']['maxiter']
    c['changes'] = changes
    return c


def strategy(tier):
    return _case()


def run(case, changes):
    import fides

    ch = set(changes)
    p = case['p']
    tr = trace.Trace()
    mode = trace.outputs(case['hu'], case['residual'])
    base = trace.make_fun(case, tr, mode)
    funargs = None
    fun = base
    if 'funargs' in ch:
        expected = {'a': 3, 'b': [1, 2], 'c': None, 'd': 0}

        def fun(x, a, b, c=1, d=1):
            check(
                a == 3 and b is expected['b'] and c is None and d == 0,
                'funargs were not passed on',
            )
            return base(x)

        funargs = expected
    if 'single outputs' in case['changes']:
        # values with single precision, as single or double precision arrays
        double = fun

        @np.errstate(over='ignore')
        def fun(*a, **kw):
            ret = tuple(
                np.asarray(v, dtype=np.float32) if np.ndim(v) else v
                for v in double(*a, **kw)
            )
            if 'single outputs' in ch:
                return ret
            return tuple(
                np.asarray(v, dtype=float) if np.ndim(v) else v for v in ret
            )

    if 'int outputs' in ch or 'numpy scalars' in ch:
        inner = fun

        def fun(*a, **kw):
            ret = inner(*a, **kw)
            if 'int outputs' in ch:
                return tuple(as_int(v) for v in ret)
            return tuple(np.float64(v) if np.ndim(v) == 0 else v for v in ret)

    opts = dict(case['options'])
    if 'defaults' in ch:
        opts = {**trace.DEFAULTS, **opts}
    if 'maxiter float' in ch and 'maxiter' in opts:
        opts['maxiter'] = float(opts['maxiter'])
    options = {}
    for k, v in opts.items():
        if 'values' in ch:
            if k == 'subspace_solver':
                v = fides.SubSpaceDim(v)
            elif k == 'stepback_strategy':
                v = fides.StepBackStrategy(v)
        if 'numpy options' in ch and not isinstance(v, str):
            v = np.int64(v) if isinstance(v, int) else np.float64(v)
        options[k if 'keys' in ch else fides.Options(k)] = v
    if 'history' in ch:
        name = os.path.join(os.getcwd(), 'neutral.h5')
        if os.path.exists(name):
            os.remove(name)
        options['history_file'] = name

    def arr(v, ints):
        a = np.array(v, dtype=float)
        if ints:
            a = np.array(v, dtype=int)
        if 'strided' in ch:
            b = np.zeros(2 * len(a), dtype=a.dtype)
            b[::2] = a
            a = b[::2]
        if 'readonly' in ch:
            a.flags.writeable = False
        return a

    verbose = trace.QUIET
    if 'debug' in ch:
        verbose = logging.DEBUG
    elif 'info' in ch:
        verbose = logging.INFO
    sink = io.StringIO()
    with contextlib.redirect_stderr(sink):
        try:
            tr.opt = fides.Optimizer(
                fun,
                ub=arr(p['ub'], 'int bounds' in ch),
                lb=arr(p['lb'], 'int bounds' in ch),
                verbose=verbose,
                options=options,
                funargs=funargs,
                hessian_update=trace.hess_scheme(case['hu']),
                resfun=case['residual'],
            )
            tr.result = tr.opt.minimize(
                arr(p['x0'], 'int x0' in ch),
                start_id='some id' if 'id' in ch else None,
            )
        except Violation:
            raise
        except Exception as e:
            if in_fides(e.__traceback__):
                raise Violation(
                    f'{type(e).__name__} with {changes}: {str(e)[:200]}'
                ) from e
            raise
        finally:
            trace.drop_logger(tr.opt) if tr.opt is not None else None
    return tr, sink.getvalue()


def run_case(case, rec):
    a, _ = run(case, [])
    b, out = run(case, case['changes'])
    compare(digest(a), digest(b), f'run with {case["changes"]}')
    for c in case['changes']:
        rec.label(c)
    if 'Traceback' in out:
        raise Violation(f'errors were logged: {out[-300:]}')
    rec.nontrivial(len(a.evals) >= 3)
