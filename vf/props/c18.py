"""The history file records exactly what happened."""
import os
import pathlib

import h5py
import numpy as np
from hypothesis import strategies as st
from numpy.linalg import norm

from .. import gen, trace
from ..engine import Violation, check

PROPERTY = 'C18'
LEVEL = 'exploration'
QUICK = 4000
THOROUGH = 16000
RULE = (
    'Sequences of 1-3 runs (with the same or different optimizers, some '
    'aborted by an exception or a non-finite value) with one history file. '
    'After every run, the groups of the file are compared with the runs so '
    'far, and every data set with the values recomputed from the evaluations. '
    'Non-trivial: a run with accepted and rejected trials is recorded, or a '
    'run after an aborted or recorded run.'
)


class Abort(Exception):
    pass


@st.composite
def _case(draw):
    kw = {
        'types': gen.WILD_TYPES + ('lsq',),
        'kinds': ('both', 'none', 'lower', 'upper'),
        'maxiter': (0, 2, 5, 10, 20),
        'nmax': 3,
    }
    runs = []
    for i in range(draw(st.integers(1, 3))):
        r = {
            'same': i > 0 and draw(st.booleans()),
            'id': draw(st.booleans()),
            'abort': draw(
                st.one_of(st.none(), st.none(), st.integers(0, 6))
            ),
            'how': draw(st.sampled_from(['raise', 'nan'])),
            'retry': draw(st.booleans()),
            't': draw(gen.vec(4, gen.unit)),
            'nan': draw(
                st.one_of(
                    st.just([]),
                    st.lists(st.integers(1, 6), max_size=3, unique=True),
                )
            ),
        }
        if not r['same']:
            r['case'] = draw(gen.run_case(wild=draw(st.booleans()), **kw))
        runs.append(r)
    return {'runs': runs, 'path': draw(st.booleans())}


def strategy(tier):
    return _case()


def snapshot(name):
    out = {}
    if os.path.exists(name):
        with h5py.File(name, 'r') as f:
            for g in f:
                out[g] = {k: f[g][k][()] for k in f[g]}
    return out


def same(a, b):
    if set(a) != set(b):
        return False
    for k in a:
        if a[k].dtype.kind in 'OS':
            if list(a[k]) != list(b[k]):
                return False
        elif not np.array_equal(a[k], b[k], equal_nan=True):
            return False
    return True


def evs(m):
    e = np.real(np.linalg.eigvals(m))
    return np.min(e), np.max(e)


def same_num(a, b, tol):
    if np.isnan(b):
        return bool(np.isnan(a))
    if np.isinf(b):
        return a == b
    return abs(a - b) <= tol


def verify(case, tr, d, rec):
    n = case['p']['n']
    trans = trace.transitions(case, tr)
    niter = len(trans)
    if niter == 0:
        check(
            all(len(v) == 0 for v in d.values()),
            'entries were recorded for a run without iterations',
        )
        return
    need = {
        'fval', 'tr_ratio', 'tr_radius', 'normgrad', 'normstep', 'accept',
        'hess_min_ev', 'hess_max_ev', 'hess_update_min_ev',
        'hess_update_max_ev', 'hess_struct_update_min_ev',
        'hess_struct_update_max_ev', 'iterations_since_tr_update',
        'step_type', 'cond_hess', 'cond_shess', 'theta', 'alpha',
        'reflections', 'truncations', 'subspace_dim',
    }
    check(
        need <= set(d), f'data sets {sorted(need - set(d))} are missing'
    )
    for k, v in d.items():
        check(
            np.shape(v) == (niter,),
            f'data set {k} has shape {np.shape(v)} for {niter} iterations',
        )
    structured = trace.scheme_name(case['hu']) in ('SSM', 'TSSM', 'GNSBFGS')
    since = 0
    nonsym = False
    dd = case['hu']
    if dd is not None:
        inner = dd.get('happ') or dd
        nonsym = inner['k'] in ('BG', 'BB')
    for i, tn in enumerate(trans):
        b, a, e = tn.before, tn.after, tn.e

        def bad(key, want):
            raise Violation(
                f'{key}[{i}] is {d[key][i]}, in the run it was {want}'
            )

        def cmp(key, want, tol=0.0):
            if not same_num(float(d[key][i]), float(want), tol):
                bad(key, want)

        cmp('fval', e.f)
        cmp('tr_radius', b.delta, 1e-14 * b.delta)
        if bool(d['accept'][i]) != tn.moved:
            bad('accept', tn.moved)
        iv = tn.ratio_interval()
        if iv is not None:
            r = d['tr_ratio'][i]
            if not iv[0] - 1e-9 * abs(iv[0]) <= r <= iv[1] + 1e-9 * abs(iv[1]):
                bad('tr_ratio', iv)
        cmp('normgrad', norm(a.g), 1e-12 * norm(a.g))
        ulp = 8 * norm(np.spacing(np.maximum(np.abs(b.x), np.abs(e.x))))
        cmp('normstep', norm(tn.s), 1e-12 * norm(tn.s) + ulp)
        since = since + 1 if a.delta == b.delta else 0
        cmp('iterations_since_tr_update', since)
        # spectra
        scale = norm(a.h)
        rel = 1e-4 if nonsym else 1e-10
        lo, hi = evs(a.h)
        cmp('hess_min_ev', lo, rel * scale)
        cmp('hess_max_ev', hi, rel * scale)
        if dd is None:
            cmp('hess_update_min_ev', np.nan)
            cmp('hess_update_max_ev', np.nan)
        elif not tn.moved:
            cmp('hess_update_min_ev', 0.0)
            cmp('hess_update_max_ev', 0.0)
        else:
            diff = a.h - b.h
            lo, hi = evs(diff)
            tol = rel * (norm(diff) + norm(a.h) + norm(b.h))
            cmp('hess_update_min_ev', lo, tol)
            cmp('hess_update_max_ev', hi, tol)
        for key in ('hess_struct_update_min_ev', 'hess_struct_update_max_ev'):
            if not structured:
                cmp(key, np.nan)
            elif not tn.moved:
                cmp(key, 0.0)
            elif not np.isfinite(d[key][i]):
                bad(key, 'finite')
        for key, m in (('cond_hess', a.h), ('cond_shess', tn.model.M)):
            with np.errstate(all='ignore'):
                c = np.linalg.cond(m)
            if c < 1e6:
                cmp(key, c, 1e-6 * c)
            elif not (d[key][i] > 1e5):
                bad(key, c)
        t = d['step_type'][i]
        t = t.decode() if isinstance(t, bytes) else t
        if t not in ('nd', '2d', 'cg', 'cgs', 'trr', 'trt', 'g', 'ref'):
            bad('step_type', 'a known type')
        rec.label('type ' + t)
        # reflected steps have reflections, ...
        for typ, key in (('trr', 'reflections'), ('trt', 'truncations')):
            if d[key][i] < 0 or (t == typ and d[key][i] < 1):
                bad(key, f'a {typ} step')
        sub = trace.effective(case)['subspace_solver']
        if t in ('nd', '2d', 'cg'):
            if t != {'full': 'nd', '2D': '2d', 'scg': 'cg'}[sub]:
                bad('step_type', sub)
            if d['reflections'][i] or d['truncations'][i]:
                bad('reflections', 'an ordinary step')
        sb = trace.effective(case)['stepback_strategy']
        if (
            t == 'trr' and sb not in ('reflect', 'reflect_single', 'mixed')
            or t == 'trt' and sb not in ('truncate', 'mixed')
            or t == 'ref' and sb != 'refine'
        ):
            bad('step_type', sb)
        if not 1 <= d['subspace_dim'][i] <= n:
            bad('subspace_dim', f'of dimension {n}')
        if not -1e-9 <= d['alpha'][i] <= 1 + 1e-9:
            bad('alpha', 'a fraction')
        cmp('theta', tn.theta, 1e-12)


def run_case(c, rec):
    name = os.path.join(os.getcwd(), 'history.h5')
    if os.path.exists(name):
        os.remove(name)
    hist = pathlib.Path(name) if c['path'] else name
    tr = case = None
    groups = {}
    for i, r in enumerate(c['runs']):
        state = {}
        if not r['same'] or tr is None:
            case = r['case']
            case = {**case, 'options': {**case['options']}}
            tr = trace.Trace()

            def fault(k, f, g, h, case=case):
                rr = state['run']
                if rr['abort'] is not None and k == rr['abort']:
                    if rr['how'] == 'raise':
                        raise Abort()
                    g = g * np.nan
                    state['fatal'] = True
                if k > 0 and k in rr['nan']:
                    if case['residual']:
                        f = f * np.nan
                    else:
                        f = np.nan
                return f, g, h

            tr.state = state
            case['options']['history_file'] = hist
            trace.build(case, tr, fault=fault)
        state = tr.state
        state.clear()
        tr.evals.clear()
        tr.result = tr.exc = None
        p = case['p']
        x0 = np.array(p['x0']) + (np.resize(r['t'], p['n']) if r['same'] else 0)
        x0 = np.minimum(np.maximum(x0, p['lb']), p['ub'])
        sid = f'run{i}' if r['id'] else None

        def go(rr):
            state['run'] = rr
            # objective of the previous closure sees the same state
            tr.state['run'] = rr
            tr.evals.clear()
            tr.result = tr.exc = None
            try:
                tr.result = tr.opt.minimize(x0, start_id=sid)
                return True
            except (Abort, RuntimeError) as e:
                if isinstance(e, RuntimeError) and not state.get('fatal'):
                    raise Violation(f'minimize raised {e}') from e
                rec.label('aborted')
                return False
            finally:
                trace.drop_logger(tr.opt)

        done = go(r)
        after_abort = not done
        for attempt in range(2):
            snap = snapshot(name)
            for g, d in groups.items():
                check(g in snap, f'group {g} of an earlier run is gone')
                check(
                    same(d, snap[g]), f'group {g} of an earlier run was changed'
                )
            new = sorted(set(snap) - set(groups))
            if not done:
                check(not new, f'an aborted run left {new} in the file')
                if not r['retry'] or attempt:
                    break
                state.pop('fatal', None)
                done = go({**r, 'abort': None})
                continue
            check(
                len(new) == 1,
                f'completed run {i} added the groups {new}',
            )
            if sid is not None:
                check(new == [sid], f'group is {new[0]}, start id is {sid}')
            verify(case, tr, snap[new[0]], rec)
            moved = [t.moved for t in trace.transitions(case, tr)]
            rec.nontrivial(
                bool(groups) or after_abort or (any(moved) and not all(moved))
            )
            groups[new[0]] = snap[new[0]]
            break
    rec.label(f'groups {len(groups)}')
