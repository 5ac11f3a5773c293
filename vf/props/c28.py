"""The progress log reports what happened."""
import contextlib
import io
import logging
import re

import numpy as np
from hypothesis import strategies as st
from numpy.linalg import norm

from .. import gen, trace
from ..engine import Violation, check

PROPERTY = 'C28'
LEVEL = 'exploration'
QUICK = 5000
THOROUGH = 20000
RULE = (
    'Whole runs at random verbosity, some with non-finite trial values, some '
    'nested in or after another logging run. Records are collected from the '
    'logger of the optimizer and from stderr; every row is compared with the '
    'values recomputed from the evaluations. Non-trivial: rows of accepted '
    'and rejected trials were logged.'
)
ASSUMPTIONS = [
    'The gradient norm of a row may be the one before or after the iteration '
    '(the documentation does not tell).',
]
LEVELS = {
    'DEBUG': logging.DEBUG, 'INFO': logging.INFO,
    'WARNING': logging.WARNING, 'ERROR': logging.ERROR,
}
WORDS = {
    'FTOL': 'function difference', 'XTOL': 'norm of step',
    'GTOL': 'gradient norm', 'MAXITER': 'iterations', 'MAXTIME': 'runtime',
    'DELTA_TOO_SMALL': 'radius',
}
ROW = re.compile(r'^\s*(\d+)\|(.*\|.*\|.*\|.*\|.*\|.*)$')


@st.composite
def _case(draw):
    c = draw(
        gen.run_case(
            types=gen.WILD_TYPES + ('lsq', 'quad', 'linear'),
            kinds=('both', 'none', 'lower', 'upper'),
            maxiter=(0, 1, 5, 12, 25),
            wild=draw(st.booleans()),
        )
    )
    c['level'] = draw(
        st.sampled_from(['INFO', 'INFO', 'INFO', 'DEBUG', 'WARNING', 'ERROR'])
    )
    c['other'] = draw(st.sampled_from(['none', 'before', 'nested']))
    c['nan'] = draw(
        st.one_of(
            st.just([]),
            st.lists(st.integers(1, 6), max_size=3, unique=True),
        )
    )
    if draw(st.integers(0, 5)) == 0:
        # ends as the radius vanishes
        for k in ('fatol', 'frtol', 'gatol', 'xtol', 'grtol'):
            c['options'][k] = 0.0
        c['options']['maxiter'] = 200
        if draw(st.booleans()):
            c['nan'] = list(range(draw(st.integers(1, 8)), 200))
        if c['options']['stepback_strategy'] == 'refine':
            c['options']['stepback_strategy'] = 'reflect'
    elif draw(st.integers(0, 7)) == 0:
        # long runs: more than ten rows, wide iteration numbers
        c['options']['maxiter'] = draw(st.sampled_from([100, 100000]))
        if c['options']['stepback_strategy'] == 'refine':
            c['options']['stepback_strategy'] = 'reflect'
    return c


def strategy(tier):
    return _case()


class Collect(logging.Handler):
    def __init__(self):
        super().__init__(level=0)
        self.records = []

    def emit(self, record):
        self.records.append((record.levelno, record.getMessage()))


OTHER = {
    'p': {
        'n': 1, 'x0': [0.5], 'lb': [0.0], 'ub': [3.0],
        'obj': {'type': 'quartic', 'c': [2.0], 'S': [1.0], 'w': 0.25,
                'off': 0.0},
    },
    'residual': False, 'options': {'maxiter': 4}, 'hu': None,
}


def start(case, level, extra=None, fault=None):
    tr = trace.Trace()
    col = Collect()

    def on_eval(tr, e):
        lg = tr.opt.logger
        if col not in lg.handlers:
            lg.addHandler(col)
        if extra is not None:
            extra(tr)

    trace.build(case, tr, on_eval=on_eval, verbose=level, fault=fault)
    trace.execute(tr, case)
    return tr, col.records


def number(text, value, digits, what):
    """text is value, rounded to `digits` digits"""
    try:
        t = float(text)
    except ValueError:
        raise Violation(f'{what}: {text!r} is not a number') from None
    tol = 0.52 * 10.0**-digits * max(abs(t), abs(value)) * 1.02
    check(
        abs(t - value) <= tol or t == value,
        f'{what}: logged {text.strip()}, in the run it was {value!r}',
    )


def verify(case, tr, records, rec):
    rows = [m for m in (ROW.match(t) for _, t in records) if m]
    trans = trace.transitions(case, tr)
    nums = [int(m.group(1)) for m in rows]
    check(
        nums == list(range(len(trans) + 1)),
        f'iterations {nums} were logged, there were {len(trans)}',
    )
    cols = [m.group(2).split('|') for m in rows]
    for c in cols:
        check(len(c) == 8, f'row has {len(c)} columns: {c}')
    e0 = tr.evals[0]
    c = cols[0]
    number(c[0], e0.f, 2, 'initial value')
    number(c[3], e0.odelta, 1, 'initial radius')
    number(c[4], norm(e0.g), 1, 'initial gradient norm')
    check(c[7].strip() == '1', 'start is not marked as accepted')
    for tn, c in zip(trans, cols[1:], strict=True):
        k, b, a, e = tn.k, tn.before, tn.after, tn.e
        w = f'row {k}'
        check(
            c[7].strip() == str(int(tn.moved)),
            f'{w}: acceptance {c[7]!r}, in the run {tn.moved}',
        )
        number(c[0], a.f, 2, f'{w}, value')
        number(c[1], e.f - b.f if tn.finite else 0.0, 1, f'{w}, difference')
        iv = tn.ratio_interval()
        r = float(c[2])
        if iv is not None:
            t = 0.055 * max(abs(r), 1e-300)
            check(
                iv[0] - t <= r <= iv[1] + t
                or (iv[0] <= r * 1.06 and r * 0.94 <= iv[1] and r > 0),
                f'{w}: ratio {c[2]}, in the run within {iv}',
            )
        number(c[3], b.delta, 1, f'{w}, radius')
        try:
            number(c[4], norm(b.g), 1, f'{w}, gradient norm')
        except Violation:
            number(c[4], norm(a.g), 1, f'{w}, gradient norm')
        ns = norm(tn.s)
        ulp = norm(np.spacing(np.maximum(np.abs(b.x), np.abs(e.x))))
        if ns > 1e3 * ulp:
            number(c[5], ns, 1, f'{w}, step norm')
    return len(trans)


def stops(records):
    return [(lv, t) for lv, t in records if t.lstrip().startswith('Stopping')]


def run_case(case, rec):
    level = LEVELS[case['level']]
    info = level <= logging.INFO
    others = []

    def fault(k, f, g, h):
        if k in case['nan'] or k >= 300:
            # (long runs are ended by a radius that vanishes)
            f = f * np.nan
        return f, g, h

    def extra(tr):
        if case['other'] == 'nested' and len(tr.evals) == 2 and not others:
            others.append(None)
            others[0] = start(OTHER, logging.INFO)

    sink = io.StringIO()
    with contextlib.redirect_stderr(sink):
        if case['other'] == 'before':
            others.append(start(OTHER, logging.INFO))
            sink.seek(0)
            sink.truncate()
        tr, records = start(case, level, extra, fault)
    text = sink.getvalue()
    name = tr.exitname
    rec.label(case['level'], name, 'other ' + case['other'])
    niter = len(tr.evals) - 1
    if info:
        verify(case, tr, records, rec)
        st_ = stops(records)
        check(
            len(st_) == 1,
            f'{len(st_)} messages explain the end of the run: {st_}',
        )
        check(
            WORDS[name] in st_[0][1],
            f'exit flag {name}, message: {st_[0][1]!r}',
        )
        moved = [t.moved for t in trace.transitions(case, tr)]
        rec.nontrivial(any(moved) and not all(moved))
        # every record is printed exactly once
        if not others or case['other'] == 'before':
            pr = [
                ln for ln in text.splitlines()
                if ROW.match(re.sub(r'^.*?fides\(\w+\)', '', ln))
            ]
            check(
                len(pr) == niter + 1,
                f'{len(pr)} rows were printed for {niter} iterations',
            )
    else:
        low = [t for lv, t in records if lv < level]
        check(not low, f'logged below the threshold {case["level"]}: {low}')
        check(
            not any(ROW.match(t) for _, t in records),
            f'rows were logged at verbosity {case["level"]}',
        )
        if level == logging.WARNING and name not in ('FTOL', 'XTOL', 'GTOL'):
            # stops without convergence are warnings
            st_ = stops(records)
            check(
                len(st_) == 1 and WORDS[name] in st_[0][1],
                f'exit flag {name}, messages at verbosity WARNING: {st_}',
            )
            rec.label('warned ' + name)
        if level > logging.WARNING:
            check(not records, f'logged at verbosity ERROR: {records}')
            if not others:
                check(not text, f'printed at verbosity ERROR: {text[:200]}')
    if others:
        otr, orec = others[0]
        verify(OTHER, otr, orec, rec)
        check(len(stops(orec)) == 1, 'other run: not one final message')
        check(
            otr.opt.logger is not tr.opt.logger
            and otr.opt.logger.name != tr.opt.logger.name,
            'both runs use the same logger',
        )
