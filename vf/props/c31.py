"""Runs are prefixes of longer runs and can be continued from any iterate."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, trace
from ..engine import check

PROPERTY = 'C31'
LEVEL = 'exploration'
QUICK = 5000
THOROUGH = 40000
RULE = (
    'A generated run, the same run with all tolerances zero and a larger '
    'iteration limit, and a run of another optimizer that starts in a state '
    '(point, radius, approximation) of the longer run. Oracle: the longer '
    'run; evaluations, states and the final state have to be identical. '
    'Non-trivial: the first run is shorter, or the continued run has at least '
    'two evaluations after its start.'
)
TOLS = ('fatol', 'frtol', 'xtol', 'gatol', 'grtol')
MEMORYLESS = (None, 'SR1', 'BFGS', 'DFP', 'BG', 'BB', 'Broyden')


@st.composite
def _case(draw):
    c = draw(
        gen.run_case(
            types=gen.OBJ_TYPES + ('rosen', 'trig', 'quartic'),
            maxiter=(1, 2, 4, 8, 15),
            wild=draw(st.booleans()),
            warm=True,
        )
    )
    o = c['options']
    o['maxiter'] = min(o['maxiter'], 15)
    if draw(st.integers(0, 2)) == 0:
        # tolerances that end the run early
        o[draw(st.sampled_from(TOLS))] = draw(
            st.sampled_from([1e-2, 1e-1, 1.0, 10.0])
        )
        o['maxiter'] = 15
    if c['residual'] is False and draw(st.booleans()):
        # the schemes for which runs can be continued
        c['hu'] = draw(st.one_of(st.none(), gen.iterative()))
    c['more'] = draw(st.integers(1, 10))
    c['at'] = draw(st.integers(1, 24))
    c['nan'] = draw(
        st.one_of(st.just([]), st.just([]),
                  st.lists(st.integers(1, 8), max_size=3))
    )
    return c


def strategy(tier):
    return _case()


def raw(v):
    return (np.array(v, dtype=float) + 0.0).tobytes()


def state(s):
    return {
        'iterate': raw(s.x), 'value': raw(s.f), 'gradient': raw(s.g),
        'matrix': raw(s.h), 'radius': raw(s.delta),
    }


def values(e):
    return {'point': raw(e.x), 'value': raw(e.f), 'gradient': raw(e.g)}


def differ(a, b):
    return ', '.join(k for k in a if a[k] != b[k])


def run_case(case, rec):
    def fault(k, f, g, h):
        if k in case['nan']:
            f = f * np.nan
        return f, g, h

    short = trace.run(case, fault=fault)
    o = case['options']
    longer = {k: v for k, v in case.items() if k != 'warm'}
    longer['options'] = {
        **o, **{t: 0.0 for t in TOLS}, 'maxiter': o['maxiter'] + case['more'],
    }
    full = trace.run(longer, fault=fault)
    ns, nf = len(short.evals), len(full.evals)
    name = trace.scheme_name(case['hu'])
    what = f'run ended by {short.exitname}'
    check(
        ns <= nf,
        f'{what}: {ns} evaluations, {nf} without tolerances and with a larger '
        f'iteration limit',
    )
    for k in range(ns):
        d = differ(values(short.evals[k]), values(full.evals[k]))
        if k and not d:
            d = differ(
                state(trace.state_before(short, k)),
                state(trace.state_before(full, k)),
            )
        check(
            not d,
            f'{what}: evaluation {k} differs in {d} from the one of the run '
            f'without tolerances and with a larger iteration limit',
        )
    d = differ(
        state(trace.state_after(short, ns - 1)),
        state(trace.state_after(full, ns - 1)),
    )
    check(
        not d,
        f'{what}: final {d} differs from the state of the run without '
        f'tolerances and with a larger iteration limit at this iteration',
    )
    rec.label(name, short.exitname)
    nontrivial = ns < nf

    # continuation
    if name in MEMORYLESS or case['hu'] is None:
        nontrivial |= proceed(case, longer, full, rec)
    rec.nontrivial(nontrivial)


def proceed(case, longer, full, rec):
    if len(full.evals) < 2:
        return False
    k = 1 + (case['at'] - 1) % (len(full.evals) - 1)
    s = trace.state_before(full, k)
    at = [e for e in full.evals[:k] if raw(e.x) == raw(s.x)]
    if not at or raw(at[-1].f) != raw(s.f):
        # moved away from a bound (see C26)
        rec.label('not continued')
        return False
    if s.delta <= 0 or not np.isfinite(s.delta):
        return False
    cont = {
        **longer,
        'options': {
            **longer['options'],
            'delta_init': float(s.delta),
            'maxiter': len(full.evals) - k,
        },
    }
    kw = {}
    if case['hu'] is not None:
        kw['hess0'] = s.h.copy()
    shift = k - 1

    def fault(j, f, g, h):
        if j > 0 and j + shift in case['nan']:
            f = f * np.nan
        return f, g, h

    tr = trace.Trace()
    trace.build(cont, tr, fault=fault)
    trace.execute(tr, cont, x0=s.x.copy(), **kw)
    what = (
        f'run continued with the point, radius and matrix in use before '
        f'evaluation {k}'
    )
    lb, ub = np.array(cont['p']['lb']), np.array(cont['p']['ub'])
    room = np.minimum(s.x - lb, ub - s.x)
    if raw(tr.evals[0].x) != raw(s.x) and np.any(
        room <= trace.NUDGE * np.maximum(1.0, np.abs(s.x))
    ):
        # a start on a bound is displaced (see C26)
        rec.label('not continued')
        return False
    check(
        raw(tr.evals[0].x) == raw(s.x),
        f'{what}: first evaluation is at {tr.evals[0].x.tolist()}, not '
        f'{s.x.tolist()}',
    )
    check(
        len(tr.evals) == len(full.evals) - shift,
        f'{what}: {len(tr.evals) - 1} instead of {len(full.evals) - k} '
        f'evaluations ({tr.exitname}, {full.exitname})',
    )
    for j in range(1, len(tr.evals)):
        d = differ(
            {**values(tr.evals[j]), **state(trace.state_before(tr, j))},
            {
                **values(full.evals[j + shift]),
                **state(trace.state_before(full, j + shift)),
            },
        )
        check(
            not d,
            f'{what}: evaluation {j} after the start differs in {d} '
            f'from the one of the longer run',
        )
    d = differ(
        state(trace.state_after(tr, len(tr.evals) - 1)),
        state(trace.state_after(full, len(full.evals) - 1)),
    )
    check(not d, f'{what}: final {d} differs')
    rec.label('continued')
    return len(tr.evals) > 2
