"""Monotone descent: the iterate only moves to strictly better points."""
import numpy as np

from .. import gen, trace
from ..engine import check

PROPERTY = 'C02'
LEVEL = 'exploration'
QUICK = 4000
THOROUGH = 40000
RULE = (
    'Random problem and configuration (all solvers, step-back strategies and '
    'Hessian schemes, random tolerances and trust-region parameters, large '
    'initial radii that force rejections). The history of iterates is read '
    'from the optimizer at every evaluation. Non-trivial: the run contains an '
    'accepted and a rejected trial.'
)


def strategy(tier):
    return gen.run_case(warm=True)


def run_case(case, rec):
    tr = trace.run(case)
    ev = tr.evals
    n_acc = n_rej = 0
    check(
        tr.opt.iteration == len(ev) - 1,
        f'{len(ev)} evaluations in {tr.opt.iteration} iterations',
    )
    if len(ev) > 1:
        b = trace.state_before(tr, 1)
    else:
        b = trace.state_after(tr, 0)
    check(
        b.f == ev[0].f and trace.near(b.x, ev[0].x),
        'the first iterate is not the start',
    )
    for k in range(1, len(ev)):
        b, a, e = trace.state_before(tr, k), trace.state_after(tr, k), ev[k]
        check(
            e.oiter == k,
            f'evaluation {k} happened in iteration {e.oiter}',
        )
        check(
            np.isfinite(a.f) and a.f <= b.f,
            f'iteration {k}: objective value of the iterate changed from '
            f'{b.f!r} to {a.f!r}',
        )
        same = (
            a.f == b.f
            and np.array_equal(a.x, b.x)
            and np.array_equal(a.g, b.g)
            and np.array_equal(a.h, b.h)
        )
        moved = trace.near(a.x, e.x) and a.f == e.f
        if same and not (moved and e.f < b.f):
            n_rej += 1
            continue
        # then it has to be the trial
        check(
            moved,
            f'iteration {k}: iterate is neither the previous iterate nor the '
            f'trial point: f {b.f!r} -> {a.f!r}, trial {e.f!r}, x '
            f'{b.x.tolist()} -> {a.x.tolist()}, trial {e.x.tolist()}',
        )
        check(
            e.f < b.f,
            f'iteration {k}: moved to a trial that is not better, from '
            f'{b.f!r} to {e.f!r}',
        )
        check(
            np.array_equal(a.g, e.g),
            f'iteration {k}: gradient {a.g} is not the one of the accepted '
            f'trial {e.g}',
        )
        n_acc += 1
    rec.label(
        tr.exitname, f'acc{min(n_acc, 3)}', f'rej{min(n_rej, 3)}',
        trace.scheme_name(case['hu']),
    )
    rec.nontrivial(n_acc and n_rej)
