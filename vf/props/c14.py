"""Iteration and time budgets are respected and runs terminate."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import clock, gen, trace
from ..engine import check

PROPERTY = 'C14'
LEVEL = 'exploration'
QUICK = 6000
THOROUGH = 40000
RULE = (
    'Whole runs with random iteration limits (0, 1, integers, integer-valued '
    'floats) and, in most cases, a time limit with a clock that only advances '
    'during evaluations by generated durations. The decision to start each '
    'iteration is recomputed exactly. Termination is decided by the number of '
    'executed lines. Non-trivial: run stopped by the time limit after at '
    'least one iteration, or by the iteration limit, or ended in spite of a '
    'time limit.'
)
ASSUMPTIONS = [
    'the clock advances during evaluations of the objective only',
]
TICK = 1 / 1024


@st.composite
def _case(draw):
    c = draw(
        gen.run_case(
            warm=True,
            kinds=('both', 'none', 'none', 'lower', 'upper'),
            maxiter=(0, 1, 2, 3, 3.0, 5, 8.0, 20, 40, 60),
            wild=draw(st.booleans()),
        )
    )
    o = c['options']
    if draw(st.integers(0, 3)):
        # ticks per evaluation
        c['dur'] = draw(
            st.lists(
                st.one_of(
                    st.integers(0, 64),
                    st.sampled_from([0, 64, 64, 64, 1024, 8192]),
                ),
                min_size=1,
                max_size=8,
            )
        )
        o['maxtime'] = (
            draw(st.one_of(st.integers(0, 1024), st.integers(0, 40000)))
            * TICK
        )
        if draw(st.booleans()):
            # constant durations and a limit that is met exactly
            d = draw(st.sampled_from([1, 16, 64]))
            c['dur'] = [d]
            o['maxtime'] = draw(st.integers(0, 24)) * d * TICK
        if draw(st.booleans()):
            for k in ('fatol', 'frtol', 'gatol', 'xtol', 'grtol'):
                o[k] = 0.0
    else:
        c['dur'] = None
    return c


def strategy(tier):
    return _case()


def run_case(case, rec):
    dur = case['dur']
    elapsed = []
    if dur is None:
        tr = trace.run(case)
    else:
        with clock.owned() as ck:
            t0 = ck.now

            def on_eval(tr, e):
                k = len(tr.evals) - 1
                ck.now += dur[min(k, len(dur) - 1)] * TICK
                elapsed.append(ck.now - t0)

            def between():
                nonlocal t0
                ck.now += 2048 * TICK
                t0 = ck.now

            tr = trace.run(case, on_eval=on_eval, between=between)
    o = trace.effective(case)
    niter = len(tr.evals) - 1
    name = tr.exitname
    rec.label(name, 'clock' if dur else 'no clock')
    check(
        niter <= o['maxiter'],
        f'{niter} iterations with maxiter {o["maxiter"]}',
    )
    check(
        tr.opt.iteration == niter,
        f'{niter} iterations took place, attribute is {tr.opt.iteration}',
    )
    if name == 'MAXITER':
        check(
            niter == o['maxiter'],
            f'exit flag MAXITER after {niter} iterations, limit '
            f'{o["maxiter"]}',
        )
        rec.nontrivial(niter > 0)
    if dur is None:
        check(name != 'MAXTIME', 'exit flag MAXTIME without time limit')
        return
    for k in range(niter + 1):
        E = elapsed[k]
        rem, avg = o['maxtime'] - E, E / max(k, 1)
        exact = k == 0 or (k & (k - 1)) == 0
        if abs(rem - avg) <= 1e-9 * (abs(rem) + avg) and not exact:
            rec.label('undecided')
            continue
        go = rem >= avg
        if rem == avg:
            rec.label('exactly enough time')
        what = (
            f'after {k} iterations, elapsed {E}, limit {o["maxtime"]}, '
            f'remaining {rem}, average {avg}'
        )
        if k < niter:
            check(go, 'iteration was started ' + what)
        elif name == 'MAXTIME':
            check(not go, 'exit flag MAXTIME ' + what)
            rec.nontrivial(k > 0)
            rec.label('stopped at start' if k == 0 else 'stopped by time')
        elif name in ('MAXITER', 'DELTA_TOO_SMALL', 'FTOL', 'XTOL', 'GTOL'):
            rec.nontrivial(niter > 1)
    # stopping needs a reason
    if name == 'MAXTIME' and niter == 0:
        check(elapsed[0] > 0, 'stopped without time having passed')
