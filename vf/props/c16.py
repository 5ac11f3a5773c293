"""Acceptance and trust-region radius follow the documented rules."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, trace
from ..engine import check

PROPERTY = 'C16'
LEVEL = 'exploration'
QUICK = 5000
THOROUGH = 40000
RULE = (
    'Whole runs with random radius parameters. For every iteration the ratio '
    'is recomputed (as an interval that accounts for rounding) from the '
    'scaled model and the evaluations; decision and new radius must be the '
    'documented ones. Non-trivial: the run has at least two different kinds '
    'of radius updates (increase, decrease, keep).'
)


@st.composite
def _case(draw):
    c = draw(
        gen.run_case(
            warm=True,
            types=gen.OBJ_TYPES + ('trig', 'quartic', 'rosen', 'expo'),
            kinds=('both', 'none', 'none', 'lower', 'upper'),
            maxiter=(5, 10, 20, 40),
            wild=draw(st.integers(0, 2)) == 0,
            tols=False,
        )
    )
    o = c['options']
    for k in ('fatol', 'frtol', 'gatol'):
        o[k] = 0.0
    if draw(st.integers(0, 2)):
        o['mu'] = draw(st.sampled_from([0.25, 0.1, 0.01, 0.4, 0.3]))
        o['eta'] = draw(st.sampled_from([0.75, 0.5, 0.9, 0.99]))
        o['gamma1'] = draw(st.sampled_from([0.25, 0.5, 0.1, 0.9]))
        o['gamma2'] = draw(st.sampled_from([2, 1.5, 4.0, 1.1]))
        o.setdefault('delta_init', draw(gen.logpos(-2, draw(st.sampled_from([3, 8])))))
    return c


def strategy(tier):
    return _case()


def run_case(case, rec):
    tr = trace.run(case)
    o = trace.effective(case)
    ev = tr.evals
    check(
        ev[0].odelta == o['delta_init']
        and (len(ev) < 2 or ev[1].odelta == o['delta_init']),
        f'radius starts at {ev[-1 if len(ev) < 2 else 1].odelta}, not at '
        f'{o["delta_init"]}',
    )
    kinds = set()
    for tn in trace.transitions(case, tr):
        d0, d1 = tn.before.delta, tn.after.delta
        iv = tn.ratio_interval()
        if iv is None:
            rec.label('ratio undecided')
            continue
        lo, hi = iv
        what = (
            f'iteration {tn.k}: ratio in [{lo:.9g}, {hi:.9g}], scaled step '
            f'{tn.nss:.9g}, radius {d0:.9g} -> {d1:.9g}'
        )
        got = (
            ev[tn.k + 1].oratio
            if tn.k + 1 < len(ev)
            else getattr(tr.opt, 'tr_ratio', None)
        )
        if got is not None:
            check(lo <= got <= hi, what + f', but the optimizer reports {got}')
        if lo > 0:
            check(tn.moved, what + ', but the trial was rejected')
        if hi <= 0:
            check(not tn.moved, what + ', but the trial was accepted')
        w = 1e-9
        interior = tn.nss + tn.ndss < 0.9 * d0 * (1 - w)
        exterior = tn.nss - tn.ndss >= 0.9 * d0 * (1 + w)
        allowed = []
        grown = o['gamma2'] * d0
        shrunk = min(o['gamma1'] * d0, tn.nss / 4)
        if hi >= o['eta'] and not interior:
            allowed.append('increase')
        if lo <= o['mu']:
            allowed.append('decrease')
        if not (lo >= o['eta'] and exterior) and hi > o['mu']:
            if not (lo >= o['eta'] and not interior and exterior):
                allowed.append('keep')
        ok = (
            'increase' in allowed and abs(d1 - grown) <= 1e-9 * grown
            or 'decrease' in allowed
            and abs(d1 - shrunk) <= 1e-9 * shrunk + tn.ndss / 4
            or 'keep' in allowed
            and d1 == d0
        )
        check(ok, what + f', documented: {allowed} with {o["mu"]}, '
              f'{o["eta"]}, {o["gamma1"]}, {o["gamma2"]}')
        if len(allowed) == 1:
            kinds.add(allowed[0])
            rec.label(allowed[0])
            if allowed[0] == 'decrease' and tn.nss / 4 < o['gamma1'] * d0:
                rec.label('decrease by step norm')
            if allowed[0] == 'keep' and lo > o['mu'] and hi < o['eta']:
                rec.label('keep intermediate')
            if allowed[0] == 'keep' and lo >= o['eta']:
                rec.label('keep interior')
            if allowed[0] == 'decrease' and lo > 0:
                rec.label('decrease accepted')
        else:
            rec.label('ambiguous')
    rec.nontrivial(len(kinds) >= 2)
