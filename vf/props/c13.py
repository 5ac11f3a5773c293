"""Exit flags and the converged state tell the truth."""
import math

import numpy as np
from hypothesis import strategies as st
from numpy.linalg import norm

from .. import gen, trace
from ..engine import check

PROPERTY = 'C13'
LEVEL = 'exploration'
QUICK = 6000
THOROUGH = 40000
RULE = (
    'Whole runs with tolerances spread over many decades, usually with one '
    'criterion in focus and the others disabled. All criteria are evaluated '
    'independently (three-valued, undecided within rounding) for every '
    'iteration from the evaluations seen by the objective. Non-trivial: the '
    'run stops by a tolerance after at least two iterations, or by the limit '
    'or radius after a rejected trial.'
)


@st.composite
def _case(draw):
    c = draw(
        gen.run_case(
            warm=True,
            types=gen.OBJ_TYPES + ('trig', 'trig', 'quartic'),
            kinds=('both', 'none', 'none', 'lower', 'upper'),
            maxiter=(1, 2, 3, 5, 20, 40, 40),
            wild=draw(st.integers(0, 2)) == 0,
            tols=False,
        )
    )
    o = c['options']
    focus = draw(
        st.sampled_from(
            ['fatol', 'frtol', 'xtol', 'gatol', 'grtol', 'all', 'none', 'none']
        )
    )
    tol = gen.logpos(-8, 0.5)
    for k in ('fatol', 'frtol', 'xtol', 'gatol', 'grtol'):
        o[k] = draw(tol) if focus in (k, 'all') else 0.0
    # default values are used if the option is left out
    if focus == 'none' and draw(st.booleans()):
        for k in ('fatol', 'frtol', 'xtol', 'gatol', 'grtol'):
            del o[k]
    c['focus'] = focus
    return c


def strategy(tier):
    return _case()


def less(a, b, da=0.0, strict=True):
    """a < b with resolution da: True, False or None"""
    m = da + 1e-11 * abs(b)
    if a + m < b:
        return True
    if a - m > b:
        return False
    if da == 0 and a == b == 0:
        return not strict
    if b == 0 and a >= 0 and strict:
        return False
    return None


def conj(a, b):
    if a is False or b is False:
        return False
    return None if a is None or b is None else True


def disj(*v):
    if any(x is True for x in v):
        return True
    return None if any(x is None for x in v) else False


def criteria(tn, o):
    iv = tn.ratio_interval()
    if iv is None:
        above = None
    else:
        lo, hi = iv
        above = True if lo > o['mu'] else False if hi <= o['mu'] else None
    if not tn.moved:
        # rejected: ratio is not positive
        above = False if o['mu'] >= 0 else above
    b, e = tn.before, tn.e
    ftol = conj(
        above,
        less(
            abs(e.f - b.f) if tn.finite else math.inf,
            o['fatol'] + o['frtol'] * abs(b.f),
        ),
    )
    xtol = conj(tn.k > 1, less(tn.nss, o['xtol'], tn.ndss))
    kept = e if tn.moved else b
    gn = norm(kept.g)
    gtol = disj(
        less(gn, o['gatol'], strict=False),
        less(gn, o['grtol'] * abs(kept.f), strict=False),
    )
    return {'FTOL': ftol, 'XTOL': xtol, 'GTOL': gtol}


def run_case(case, rec):
    tr = trace.run(case)
    o = trace.effective(case)
    opt = tr.opt
    name = tr.exitname
    trans = trace.transitions(case, tr)
    niter = len(trans)
    rec.label(name, 'focus ' + case['focus'])
    check(opt.iteration == niter, f'iteration is {opt.iteration} after {niter}')
    check(
        name in ('FTOL', 'XTOL', 'GTOL', 'MAXITER', 'DELTA_TOO_SMALL'),
        f'run without time limit ended with exit flag {name}',
    )
    check(
        bool(opt.converged) == (name in ('FTOL', 'XTOL', 'GTOL')),
        f'exit flag {name}, but converged is {opt.converged}',
    )
    for tn in trans:
        crit = criteria(tn, o)
        held = [k for k, v in crit.items() if v is True]
        last = tn.k == niter
        eps = np.spacing(1)
        check(
            not (tn.before.delta < eps),
            f'iteration {tn.k} was started with radius {tn.before.delta}',
        )
        if not last:
            check(
                not held,
                f'run continued after iteration {tn.k} although {held} held '
                f'(f {tn.before.f!r} -> {tn.e.f!r}, scaled step {tn.nss:.3g}, '
                f'gradient {norm(tn.after.g):.3g})',
            )
            continue
        if name in crit:
            check(
                crit[name] is not False,
                f'exit flag {name} after iteration {tn.k}, but f '
                f'{tn.before.f!r} -> {tn.e.f!r}, scaled step {tn.nss:.6g}, '
                f'gradient of the kept point {norm(tn.after.g):.6g}, moved '
                f'{tn.moved}, tolerances '
                f'{[o[k] for k in ("fatol", "frtol", "xtol", "gatol", "grtol")]}',
            )
            if crit[name] is None:
                rec.label('undecided')
        else:
            check(
                not held,
                f'exit flag {name} although {held} held in the last iteration',
            )
    if name == 'MAXITER':
        check(
            niter == o['maxiter'],
            f'exit flag MAXITER after {niter} of {o["maxiter"]} iterations',
        )
    if name == 'DELTA_TOO_SMALL':
        check(
            opt.delta < np.spacing(1),
            f'exit flag DELTA_TOO_SMALL with radius {opt.delta}',
        )
    rejected = any(not t.moved for t in trans)
    rec.nontrivial(niter >= 2 and (opt.converged or rejected))
