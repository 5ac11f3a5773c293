"""Invalid options are refused, valid ones are honoured."""
import pathlib

import numpy as np
from hypothesis import strategies as st

from .. import trace
from ..engine import Violation, check

PROPERTY = 'C20'
LEVEL = 'exploration'
QUICK = 20000
THOROUGH = 200000
RULE = (
    'Random option dictionaries with up to eight entries, names as strings '
    'or members, values of all kinds of types (Python and numpy numbers, '
    'strings, members of the right and the wrong enumeration, None, '
    'containers), 0-2 of them invalid. Valid dictionaries have to be accepted '
    'and used, others refused with ValueError or TypeError. Non-trivial: at '
    'least three entries.'
)
ASSUMPTIONS = ['booleans as numbers are not decided']

REALS = ('maxtime', 'fatol', 'frtol', 'xtol', 'gatol', 'grtol', 'theta_max',
         'delta_init', 'mu', 'eta', 'gamma1', 'gamma2')
SUB = ('2D', 'full', 'scg')
SB = ('reflect', 'reflect_single', 'truncate', 'mixed', 'refine')

# values are coded as [type, payload]
NUM = {
    'maxtime': [1000, 1e4], 'fatol': [0, 1e-8, 1], 'frtol': [0, 1e-3],
    'xtol': [0, 0.5], 'gatol': [0, 1e-6], 'grtol': [0, 0.25],
    'theta_max': [0.95, 0.5], 'delta_init': [1, 0.5, 10.0],
    'mu': [0.25, 0.125], 'eta': [0.75, 0.5], 'gamma1': [0.25, 0.5],
    'gamma2': [2, 1.5],
}
WRONG_REAL = [
    ['str', 'abc'], ['str', '1.0'], ['none', 0], ['list', [1.0]],
    ['complex', 1.0], ['dict', 0], ['array', [1.0, 2.0]], ['bytes', 0],
    ['type', 0],
]
WRONG_INT = [
    ['float', 2.5], ['float', 0.1], ['npfloat', 3.25], ['str', 'abc'],
    ['str', '5'], ['none', 0], ['list', [1]], ['inf', 0], ['nan', 0],
    ['dict', 0], ['type', 0],
]
WRONG_CHOICE = [
    ['str', 'abc'], ['str', ''], ['int', 2], ['none', 0], ['float', 1.0],
    ['str', '2d'], ['str', 'REFLECT'], ['list', ['full']],
]
WRONG_FILE = [['none', 0], ['int', 5], ['list', []], ['float', 1.0],
              ['bytes', 0]]
WRONG_KEYS = [
    ['str', 'abc'], ['str', 'MAXITER'], ['str', 'maxiter '], ['str', ''],
    ['int', 5], ['none', 0], ['str', 'Options.MAXITER'],
    ['sub', 'full'], ['str', 'subspace_dim'], ['str', 'max_iter'],
]


@st.composite
def entry(draw, name, ok):
    if name == 'maxiter':
        if ok:
            v = draw(st.integers(0, 12))
            return [draw(st.sampled_from(['int', 'npint', 'float',
                                          'npfloat'])), v]
        return draw(st.sampled_from(WRONG_INT))
    if name in REALS:
        if ok:
            v = draw(st.sampled_from(NUM[name]))
            kinds = ['float', 'npfloat', 'npfloat32']
            if isinstance(v, int):
                kinds += ['int', 'npint']
            if name == 'maxtime':
                kinds += ['inf']
            return [draw(st.sampled_from(kinds)), v]
        return draw(st.sampled_from(WRONG_REAL))
    if name == 'subspace_solver':
        if ok:
            return [draw(st.sampled_from(['str', 'sub'])),
                    draw(st.sampled_from(SUB))]
        return draw(st.sampled_from(WRONG_CHOICE + [['sb', 'reflect']]))
    if name == 'stepback_strategy':
        if ok:
            return [draw(st.sampled_from(['str', 'sb'])),
                    draw(st.sampled_from(SB))]
        return draw(st.sampled_from(WRONG_CHOICE + [['sub', 'full']]))
    if ok:
        return [draw(st.sampled_from(['str', 'path'])), 'hist.h5']
    return draw(st.sampled_from(WRONG_FILE))


ALL = ('maxiter',) + REALS + ('subspace_solver', 'stepback_strategy',
                              'history_file')


@st.composite
def _case(draw):
    names = draw(
        st.lists(st.sampled_from(ALL), max_size=8, unique=True)
    )
    nbad = draw(st.sampled_from([0, 0, 1, 1, 2]))
    entries = []
    for i, n in enumerate(names):
        bad = i < nbad
        entries.append({
            'key': [draw(st.sampled_from(['str', 'opt'])), n],
            'val': draw(entry(n, not bad)),
            'bad': bad,
        })
    if draw(st.integers(0, 3)) == 0:
        entries.append({
            'key': draw(st.sampled_from(WRONG_KEYS)),
            'val': ['int', 5],
            'bad': True,
        })
    order = draw(st.permutations(list(range(len(entries)))))
    return {'entries': [entries[i] for i in order],
            'n': draw(st.sampled_from([2, 2, 3, 1, 12])),
            'run': draw(st.integers(0, 7)) == 0}


def strategy(tier):
    return _case()


def decode(d):
    import fides

    k, v = d
    return {
        'str': lambda: str(v), 'int': lambda: int(v),
        'float': lambda: float(v), 'npint': lambda: np.int64(v),
        'npfloat': lambda: np.float64(v),
        'npfloat32': lambda: np.float32(v), 'inf': lambda: float('inf'),
        'nan': lambda: float('nan'), 'none': lambda: None,
        'list': lambda: list(v), 'complex': lambda: complex(v, 1.0),
        'dict': lambda: {}, 'array': lambda: np.array(v),
        'bytes': lambda: b'abc', 'type': lambda: int,
        'sub': lambda: fides.SubSpaceDim(v),
        'sb': lambda: fides.StepBackStrategy(v),
        'opt': lambda: fides.Options(v),
        'path': lambda: pathlib.Path(v),
    }[k]()


def run_case(c, rec):
    import fides

    options = {}
    bad = []
    for e in c['entries']:
        key = decode(e['key'])
        options[key] = decode(e['val'])
        if e['bad']:
            bad.append((e['key'], e['val']))
    eff = {}
    for e in c['entries']:
        if not e['bad']:
            eff[e['key'][1]] = options[decode(e['key'])]
    clash = (
        eff.get('subspace_solver') == 'scg'
        and eff.get('stepback_strategy') == 'refine'
    )
    keep = dict(options)

    n = c['n']
    w = np.arange(1.0, n + 1)
    points = []

    def fun(x):
        # not convex: solvers and strategies differ
        points.append(x.tobytes())
        return (
            float(w @ np.cos(x)) + x[0] * x[-1],
            -w * np.sin(x) + x[0] * np.eye(n)[-1] + x[-1] * np.eye(n)[0],
            np.diag(-w * np.cos(x)) + np.outer(np.eye(n)[0], np.eye(n)[-1])
            + np.outer(np.eye(n)[-1], np.eye(n)[0]),
        )

    def create(options):
        return fides.Optimizer(
            fun, ub=np.full(n, 3.0), lb=np.linspace(-1.0, -2.0, n),
            verbose=trace.QUIET, options=options,
        )

    try:
        opt = create(options)
    except (ValueError, TypeError) as e:
        check(
            bad or clash,
            f'valid options {keep} were refused: {type(e).__name__} {e}',
        )
        rec.label('refused', *[f'bad {b[0][1]}' for b in bad])
        rec.nontrivial(len(keep) >= 3)
        return
    except Exception as e:
        raise Violation(
            f'options {keep} raised {type(e).__name__}: {e}'
        ) from e
    check(not bad, f'invalid options were accepted: {bad}')
    check(not clash, 'CG solver with refinement was accepted')
    check(
        len(options) == len(keep)
        and all(options[k] is keep[k] for k in keep),
        'options were modified',
    )
    rec.label('accepted')
    for name in ALL:
        got = opt.get_option(fides.Options(name))
        want = eff.get(name, trace.DEFAULTS.get(name))
        check(
            got == want,
            f'option {name} is {got!r}, expected {want!r} for {keep}',
        )
    check(
        opt.delta == eff.get('delta_init', 1.0),
        f'initial radius is {opt.delta}',
    )
    rec.nontrivial(len(keep) >= 3)
    if c['run'] and 'history_file' not in eff:
        try:
            opt.minimize(np.linspace(1.0, 2.0, n))
        except Exception as e:
            raise Violation(
                f'run with valid options {keep} raised {type(e).__name__}: {e}'
            ) from e
        finally:
            trace.drop_logger(opt)
        check(
            opt.iteration <= eff.get('maxiter', 1000),
            f'{opt.iteration} iterations with options {keep}',
        )
        # the same options under member keys, with plain values
        plain = {}
        for name, v in eff.items():
            if name == 'subspace_solver':
                v = fides.SubSpaceDim(v)
            elif name == 'stepback_strategy':
                v = fides.StepBackStrategy(v)
            elif name == 'maxiter':
                v = int(v)
            else:
                v = float(v)
            plain[fides.Options(name)] = v
        seen, points[:] = list(points), []
        other = create(plain)
        other.minimize(np.linspace(1.0, 2.0, n))
        trace.drop_logger(other)
        check(
            seen == points,
            f'the run with options {keep} differs from the one with {plain}',
        )
        rec.label('run')
