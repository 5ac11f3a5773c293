"""Exceptions of the objective propagate and leave a consistent state."""
import os
import tempfile

import h5py
import numpy as np
from hypothesis import strategies as st

from .. import gen, trace
from ..engine import Violation, check
from . import c17

PROPERTY = 'C29'
LEVEL = 'exploration'
QUICK = 5000
THOROUGH = 40000
RULE = (
    'A generated run, and the same run with an exception (type and '
    'evaluation are generated) raised by the objective, sometimes with an '
    'optimizer that was used before. Oracle: the part of the first run before '
    'that evaluation. Non-trivial: the exception is raised in a trial.'
)


class Odd(BaseException):
    pass


class Own(Exception):
    pass


ERRORS = {
    e.__name__: e
    for e in (
        ValueError, RuntimeError, TypeError, KeyError, IndexError,
        AttributeError, ZeroDivisionError, FloatingPointError, OverflowError,
        StopIteration, GeneratorExit, KeyboardInterrupt, SystemExit,
        MemoryError, OSError, NotImplementedError, AssertionError,
        np.linalg.LinAlgError, RecursionError, Own, Odd, EOFError,
        TimeoutError, Warning,
    )
}


@st.composite
def _case(draw):
    c = draw(
        gen.run_case(
            types=gen.OBJ_TYPES + ('rosen', 'trig'),
            kinds=('both', 'none', 'lower', 'upper'),
            maxiter=(5, 12, 25),
            wild=draw(st.booleans()),
            warm=True,
        )
    )
    c['error'] = draw(st.sampled_from(sorted(ERRORS)))
    c['at'] = draw(
        st.one_of(st.integers(0, 3), st.integers(0, 25))
    )
    c['file'] = draw(st.integers(0, 3)) == 0
    c['nan'] = draw(
        st.one_of(st.just([]), st.lists(st.integers(1, 6), max_size=3))
    )
    return c


def strategy(tier):
    return _case()


def raw(v):
    return (np.array(v, dtype=float) + 0.0).tobytes()


def groups(path):
    if not os.path.exists(path):
        return None
    with h5py.File(path, 'r') as f:
        return {k: {n: repr(np.asarray(v[()]).tolist()) for n, v in g.items()}
                for k, g in f.items()}


def run_case(case, rec):
    live = []  # the exception that is to be raised, and where
    path = None
    if case['file']:
        path = os.path.join(tempfile.gettempdir(), f'vf29_{os.getpid()}.h5')
        case = {**case, 'options': {**case['options'], 'history_file': path}}
    try:
        _run(case, rec, live, path)
    finally:
        if path and os.path.exists(path):
            os.unlink(path)


def _run(case, rec, live, path):
    snap = []

    def fault(k, f, g, h):
        if k in case['nan'] and k > 0:
            f = f * np.nan
        return f, g, h

    def on_eval(tr, e):
        o = tr.opt
        if live and len(tr.evals) - 1 == live[1]:
            raise live[0]
        if not live:
            # state while this evaluation takes place
            snap.append(
                {
                    'x': raw(o.x), 'fval': raw(o.fval), 'grad': raw(o.grad),
                    'hess': raw(o.hess), 'iteration': o.iteration,
                    'fval_min': raw(o.fval_min), 'x_min': raw(o.x_min),
                    'grad_min': raw(o.grad_min), 'radius': raw(o.delta),
                }
            )

    base = {k: v for k, v in case.items() if k != 'warm'}
    ref = trace.run(base, fault=fault, on_eval=on_eval)
    want = c17.digest(ref)
    k = case['at'] % len(ref.evals)
    before = snap[k]
    tr = trace.Trace()
    trace.build(case, tr, fault=fault, on_eval=on_eval)
    if case.get('warm'):
        tr.live = False
        trace.execute(
            tr, case, x0=trace.warm_start(case['p'], case['warm']['t'])
        )
        tr.live, tr.result = True, None
        tr.evals.clear()
    files = groups(path) if path else None
    err = ERRORS[case['error']]('generated')
    live[:] = [err, k]
    what = f'{case["error"]} raised in evaluation {k}'
    try:
        tr.opt.minimize(np.array(case['p']['x0']))
        raise Violation(f'{what}: minimize returned')
    except Violation:
        raise
    except BaseException as e:
        check(
            e is err,
            f'{what}: minimize raised {type(e).__name__}: {str(e)[:200]}',
        )
        check(
            err.args == ('generated',),
            f'{what}: arguments of the exception are now {err.args}',
        )
    finally:
        trace.drop_logger(tr.opt)
    o = tr.opt
    check(
        len(tr.evals) == k + 1,
        f'{what}: {len(tr.evals) - k - 1} evaluations after it',
    )
    check(
        not o.converged and o.exitflag.name not in ('FTOL', 'XTOL', 'GTOL'),
        f'{what}: marked as converged, exit flag {o.exitflag.name}',
    )
    if k > 0:
        got = {
            'x': raw(o.x), 'fval': raw(o.fval), 'grad': raw(o.grad),
            'hess': raw(o.hess), 'iteration': o.iteration,
            'fval_min': raw(o.fval_min), 'x_min': raw(o.x_min),
            'grad_min': raw(o.grad_min), 'radius': raw(o.delta),
        }
        diff = [n for n in got if got[n] != before[n]]
        check(
            not diff,
            f'{what}: {", ".join(diff)} of the optimizer are not those of the '
            f'part of the run before',
        )
        # the iterate is an evaluation before this one
        check(
            any(
                trace.near(o.x, e.x) and raw(o.fval) == raw(e.f)
                and raw(o.grad) == raw(e.g)
                for e in tr.evals[:k]
            ),
            f'{what}: the iterate {o.x.tolist()} with value {o.fval} is none '
            f'of the evaluations before',
        )
    else:
        check(
            not np.isfinite(o.fval_min) and not np.isfinite(o.fval),
            f'{what}: values {o.fval} and {o.fval_min} of an earlier run are '
            f'reported',
        )
    if path:
        check(
            groups(path) == files, f'{what}: the history file was changed'
        )
    # the same optimizer can be used again
    live.clear()
    tr.evals.clear()
    trace.execute(tr, base)
    c17.compare(want, c17.digest(tr), f'run after {what}')
    rec.label(case['error'], 'trial' if k else 'start',
              trace.scheme_name(case['hu']))
    if path:
        rec.label('history file')
    rec.nontrivial(k > 0)
