"""Runs are deterministic and independent of other runs."""
import copy
import pickle
import threading

import numpy as np
from hypothesis import strategies as st

from .. import gen, trace
from ..engine import Violation, check

PROPERTY = 'C17'
LEVEL = 'exploration'
QUICK = 5000
THOROUGH = 20000
RULE = (
    'Two generated runs A and B (problem, configuration, start). The run B is '
    'executed alone, and again: repeated; after A or an aborted run with the '
    'same optimizer; after A with the same scheme object; with A nested in '
    'one of its evaluations; interleaved with A at the granularity of '
    'evaluations following a generated schedule; with copies (deepcopy, pickle) '
    'of the optimizer and the scheme, also taken in the middle of A; with an '
    'objective that '
    'overwrites its argument and its previous outputs in every call. All '
    'evaluations and results '
    'have to be identical. Non-trivial: B has at least three evaluations and '
    'something else happened before or during the run.'
)
HOW = (
    'optimizer', 'optimizer', 'scheme', 'scheme', 'nested', 'interleaved',
    'interleaved', 'repeat', 'buffers', 'copies',
)


@st.composite
def _case(draw):
    kw = {
        'types': gen.WILD_TYPES,
        'kinds': ('both', 'none', 'lower', 'upper'),
        'maxiter': (3, 10, 20, 35),
        'refine_weight': 1,
    }
    how = draw(st.sampled_from(HOW))
    if draw(st.integers(0, 3)) == 0:
        b = draw(
            gen.run_case(**{**kw, 'types': ('lsq',), 'residual': True})
        )
        if draw(st.integers(0, 3)):
            b['hu'] = draw(
                st.one_of(gen.structured(), gen.hybrid(kinds=('FX',)))
            )
    else:
        b = draw(gen.run_case(**kw))
    if b['hu'] is None and how == 'scheme':
        how = 'optimizer'
    if not b['residual'] and how in ('optimizer', 'scheme'):
        # hybrid schemes have additional state
        if draw(st.booleans()):
            b['hu'] = draw(gen.hybrid())
            if b['hu']['k'] == 'HybridFraction':
                # switches after 25 iterations
                b['options']['maxiter'] = 35
                b['hu']['thr'] = draw(
                    st.sampled_from([0.1, 0.3, 0.8, 0.9, 1.0])
                )
                if draw(st.booleans()):
                    # the radius is rarely changed
                    b['options'].update(eta=100.0, delta_init=0.03)
            b['options'].update(fatol=0.0, frtol=0.0, xtol=0.0, grtol=0.0)
    c = {'B': b, 'how': how}
    if how == 'optimizer':
        # run(s) before: other starts within the bounds
        first = []
        for _ in range(draw(st.integers(1, 2))):
            t = draw(st.lists(gen.unit, min_size=4, max_size=4))
            first.append({
                't': t,
                'abort': draw(
                    st.one_of(
                        st.none(), st.none(), st.integers(0, 8),
                    )
                ),
                'how': draw(st.sampled_from(['raise', 'nan', 'stop'])),
                'h0': draw(st.booleans()),
            })
        c['first'] = first
    elif how == 'scheme':
        kw['residual'] = b['residual']
        if b['residual']:
            kw['types'] = ('lsq',)
        c['A'] = draw(gen.run_case(**kw))
        c['A']['hu'] = b['hu']
    else:
        c['A'] = draw(gen.run_case(**kw))
    c['at'] = draw(st.integers(0, 6))
    c['schedule'] = draw(
        st.lists(st.integers(0, 1), min_size=5, max_size=16)
    )
    return c


def strategy(tier):
    return _case()


def digest(tr):
    """Everything observable about a run"""
    def raw(v):
        # zeros compare equal
        return (np.array(v, dtype=float) + 0.0).tobytes()

    o = tr.opt
    ev = tuple(
        (raw(e.x), raw(e.f), raw(e.g),
         raw(e.ox), raw(e.oh) if k else b'', float(e.odelta))
        for k, e in enumerate(tr.evals)
    )
    res = None
    if tr.result is not None:
        res = tuple(raw(v) for v in tr.result)
    return (
        ev,
        res,
        o.exitflag.name,
        bool(o.converged),
        int(o.iteration),
        float(o.fval_min),
        raw(o.x_min),
        raw(o.grad_min),
        float(o.delta),
    )


def compare(a, b, what):
    if a == b:
        return
    names = ('evaluations', 'result', 'exit flag', 'converged', 'iteration',
             'fval_min', 'x_min', 'grad_min', 'radius')
    d = [n for n, u, v in zip(names, a, b, strict=True) if u != v]
    if 'evaluations' in d:
        k = next(
            (i for i, (u, v) in enumerate(zip(a[0], b[0])) if u != v),
            min(len(a[0]), len(b[0])),
        )
        d[0] += f' (from {k} on, {len(a[0])} and {len(b[0])})'
    raise Violation(f'{what}: differs in {", ".join(d)}')


class Abort(Exception):
    pass


class Guard:
    """Detects changes to arrays that were given to fides"""

    def __init__(self):
        self.items = []

    def add(self, what, arr):
        self.items.append((what, arr, np.array(arr, copy=True)))
        return arr

    def verify(self):
        for what, arr, before in self.items:
            check(
                np.array_equal(arr, before, equal_nan=True),
                f'{what} was modified',
            )


def start_of(p, t):
    """another start in the bounds"""
    x = np.array(p['x0']) + np.resize(t, p['n'])
    return np.minimum(np.maximum(x, p['lb']), p['ub'])


def recycled(fun):
    """objective that reuses its outputs and overwrites its argument"""
    buf = []

    def wrapped(x, **kw):
        ret = fun(x, **kw)
        if not buf:
            buf.extend(
                np.array(v) if isinstance(v, np.ndarray) else v for v in ret
            )
        out = []
        for b, v in zip(buf, ret, strict=True):
            if isinstance(b, np.ndarray):
                b[...] = v
                out.append(b)
            else:
                out.append(v)
        x[:] = np.nan
        return tuple(out)

    return wrapped


def new(case, guard, on_eval=None, scheme=None):
    """optimizer with guarded arguments"""
    import fides

    tr = trace.Trace()
    p = case['p']
    mode = trace.outputs(case['hu'], case['residual'])

    # arrays that are returned to fides are guarded as well
    inner = {}

    def fun(x, **kw):
        ret = inner['fun'](x, **kw)
        for v in ret if isinstance(ret, tuple) else ():
            if (
                isinstance(v, np.ndarray)
                and len(guard.items) < 400
                and 'recycled' not in inner
            ):
                guard.add('array returned by the objective function', v)
        return ret

    inner['fun'] = trace.make_fun(case, tr, mode, on_eval=on_eval)
    options = {fides.Options(k): v for k, v in case['options'].items()}
    tr.options = (options, dict(options))
    tr.funargs = {'a': 1}
    tr.opt = fides.Optimizer(
        fun,
        ub=guard.add('ub', np.array(p['ub'], dtype=float)),
        lb=guard.add('lb', np.array(p['lb'], dtype=float)),
        verbose=trace.QUIET,
        options=options,
        funargs=tr.funargs,
        hessian_update=scheme or trace.hess_scheme(case['hu']),
        resfun=case['residual'],
    )
    tr.inner = inner
    tr.mode = mode
    return tr


def go(tr, case, guard, x0=None, hess0=None, allow=()):
    from ..engine import in_fides

    x0 = np.array(case['p']['x0'] if x0 is None else x0, dtype=float)
    guard.add('x0', x0)
    if hess0 is not None:
        guard.add('hess0', hess0)
    try:
        tr.result = tr.opt.minimize(x0, hess0=hess0)
    except (Violation, Abort):
        raise
    except Exception as e:
        if allow and isinstance(e, allow):
            tr.exc = e
        elif in_fides(e.__traceback__):
            raise Violation(
                f'minimize raised {type(e).__name__}: {str(e)[:200]}'
            ) from e
        else:
            raise
    finally:
        trace.drop_logger(tr.opt)
    check(
        tr.options[0] == tr.options[1] and tr.funargs == {'a': 1},
        'options or funargs were modified',
    )
    return tr


def interleave(cases, guard, schedule):
    cv = threading.Condition()
    state = {'turn': schedule[0], 'pos': 0, 'done': [False, False]}
    errors = [None, None]
    trs = [None, None]
    switches = [0]

    def gate(i):
        def on_eval(tr, e):
            with cv:
                state['pos'] += 1
                nxt = schedule[state['pos'] % len(schedule)]
                if state['done'][1 - i]:
                    nxt = i
                if nxt != i:
                    switches[0] += 1
                state['turn'] = nxt
                cv.notify_all()
                while state['turn'] != i and not state['done'][1 - i]:
                    cv.wait(1)

        return on_eval

    def work(i):
        try:
            with cv:
                while state['turn'] != i and not state['done'][1 - i]:
                    cv.wait(1)
            with np.errstate(all='ignore'):
                trs[i] = new(cases[i], guard, on_eval=gate(i))
                go(trs[i], cases[i], guard)
        except BaseException as e:
            errors[i] = e
        finally:
            with cv:
                state['done'][i] = True
                cv.notify_all()

    ts = [threading.Thread(target=work, args=(i,), daemon=True)
          for i in range(2)]
    for t in ts:
        t.start()
    for t in ts:
        while t.is_alive():
            t.join(0.5)
    for e in errors:
        if e is not None:
            raise e
    return trs, switches[0]


def copies(case, guard, want, at):
    mid = []

    def on_eval(tr, e):
        h = tr.opt.hessian_update
        if h is not None and len(tr.evals) - 1 == at:
            mid.append((copy.deepcopy(h), pickle.loads(pickle.dumps(h))))
            if len(tr.evals) > 1:
                m = [np.array(v.get_mat()) for v in (h, *mid[0])]
                check(
                    np.array_equal(m[0], m[1], equal_nan=True)
                    and np.array_equal(m[0], m[2], equal_nan=True),
                    'copy of a scheme has a different matrix',
                )
                mid.append(m)

    # the scheme is copied in a run
    tr = new(case, guard, on_eval=on_eval)
    go(tr, case, guard)
    compare(want, digest(tr), 'run of which the scheme was copied')
    if len(mid) > 1:
        for v, m in zip(mid[0], mid[1][1:], strict=True):
            check(
                np.array_equal(v.get_mat(), m, equal_nan=True),
                'copy of a scheme was changed by the run',
            )
    for v in mid[0] if mid else ():
        tr = go(new(case, guard, scheme=v), case, guard)
        compare(want, digest(tr), 'run with the copy of a used scheme')
    # copy of the optimizer
    tr = new(case, guard)
    opt = tr.opt
    tr.opt = copy.deepcopy(opt)
    go(tr, case, guard)
    compare(want, digest(tr), 'run with a copy of the optimizer')
    tr.opt = opt
    tr.evals.clear()
    go(tr, case, guard)
    compare(want, digest(tr), 'run with an optimizer that was copied')


def run_case(c, rec):
    case, how = c['B'], c['how']
    guard = Guard()
    rec.label(how, trace.scheme_name(case['hu']))
    t = go(new(case, guard), case, guard)
    want = digest(t)
    eventful = False
    if how == 'repeat':
        compare(
            want, digest(go(new(case, guard), case, guard)), 'repeated run'
        )
        eventful = True
    elif how == 'buffers':
        tr = new(case, guard)
        tr.inner['recycled'] = True
        tr.inner['fun'] = recycled(tr.inner['fun'])
        compare(
            want,
            digest(go(tr, case, guard)),
            'run with an objective that overwrites its argument and outputs',
        )
        eventful = True
    elif how == 'copies':
        eventful = True
        copies(case, guard, want, c['at'])
    elif how == 'optimizer':
        n = case['p']['n']
        tr = new(case, guard)
        kept = []
        for f in c['first']:
            # a run before, possibly aborted
            tr.evals.clear()
            regular = tr.inner['fun']
            counter = [0]

            def broken(x, **kw):
                k = counter[0]
                counter[0] += 1
                ret = regular(x, **kw)
                if f['abort'] is not None and k == f['abort']:
                    if f['how'] == 'raise':
                        raise Abort()
                    ret = list(ret)
                    if f['how'] == 'nan':
                        ret[1] = ret[1] * np.nan
                        return tuple(ret)
                    return 1.0  # wrong number of values
                return ret

            tr.inner['fun'] = broken
            h0 = 2.0 * np.eye(n) if f['h0'] else None
            tr.result = tr.exc = None
            try:
                go(tr, case, guard, x0=start_of(case['p'], f['t']),
                   hess0=h0, allow=(RuntimeError, ValueError))
                rec.label('before: ' + tr.exitname)
            except Abort:
                rec.label('before: aborted')
            if tr.result is not None:
                for v in tr.result[1:]:
                    kept.append((v, v.copy()))
            eventful = True
            tr.inner['fun'] = regular
        tr.evals.clear()
        tr.result = tr.exc = None
        go(tr, case, guard)
        compare(want, digest(tr), f'run after {c["first"]} with the optimizer')
        for v, w in kept:
            check(
                np.array_equal(v, w),
                'result of an earlier run was changed by a later run',
            )
    elif how == 'scheme':
        scheme = trace.hess_scheme(case['hu'])
        go(new(c['A'], guard, scheme=scheme), c['A'], guard)
        tr = go(new(case, guard, scheme=scheme), case, guard)
        compare(want, digest(tr), 'run with a scheme object that was used')
        eventful = True
    elif how == 'nested':
        ref = digest(go(new(c['A'], guard), c['A'], guard))
        inner = []

        def on_eval(tr, e):
            if len(tr.evals) - 1 == c['at']:
                inner.append(go(new(c['A'], guard), c['A'], guard))

        tr = go(new(case, guard, on_eval=on_eval), case, guard)
        compare(want, digest(tr), 'run with a nested run')
        if inner:
            compare(ref, digest(inner[0]), 'nested run')
            eventful = True
    else:
        ref = digest(go(new(c['A'], guard), c['A'], guard))
        trs, sw = interleave([c['A'], case], guard, c['schedule'])
        compare(ref, digest(trs[0]), f'interleaved run {c["schedule"]}')
        compare(want, digest(trs[1]), f'interleaved run {c["schedule"]}')
        eventful = sw > 0
        rec.label(f'switches {min(sw, 5)}')
    guard.verify()
    compare(want, digest(t), 'first run after all others')
    rec.nontrivial(eventful and len(want[0]) >= 3)
