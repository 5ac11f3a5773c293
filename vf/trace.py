"""Runs the optimizer on a described problem and records what is observable.

Observed: every evaluation of the objective (arguments, results) and, at that
moment, the documented attributes of the optimizer; the returned values; the
final attributes.
"""
import numpy as np

from .engine import Violation, in_fides
from .probs import objective

QUIET = 100  # log level above everything


def hess_scheme(d):
    """Builds a Hessian update scheme from its description

    Hybrid schemes get an attribute `vf_happ`: the iterative scheme in them.
    """
    if d is None:
        return None
    h = _hess_scheme(d)
    if d['k'] in ('HybridFixed', 'HybridFraction', 'FX'):
        h.vf_happ = h.hessian_update
    return h


def _hess_scheme(d):
    import fides

    k = d['k']
    if k in ('SR1', 'BG', 'BB'):
        return getattr(fides, k)()
    if k in ('BFGS', 'DFP'):
        return getattr(fides, k)(enforce_curv_cond=d.get('enforce', True))
    if k == 'Broyden':
        return fides.Broyden(
            d['phi'], enforce_curv_cond=d.get('enforce', True)
        )
    if k == 'HybridFixed':
        return fides.HybridFixed(
            hess_scheme(d['happ']), switch_iteration=d['switch']
        )
    if k == 'HybridFraction':
        return fides.HybridFraction(
            hess_scheme(d['happ']), switch_threshold=d['thr']
        )
    if k == 'FX':
        return fides.FX(hess_scheme(d['happ']), hybrid_tol=d['tol'])
    if k in ('SSM', 'TSSM'):
        return getattr(fides, k)(
            phi=d['phi'], enforce_curv_cond=d['enforce']
        )
    if k == 'GNSBFGS':
        return fides.GNSBFGS(
            hybrid_tol=d['tol'], enforce_curv_cond=d['enforce']
        )
    raise AssertionError(k)


def scheme_name(d):
    if d is None:
        return 'exact'
    return d['k']


def outputs(d, residual):
    """What the objective has to return: 'fgh', 'fg' or 'rs'"""
    if residual:
        return 'rs'
    if d is None or d['k'] in ('HybridFixed', 'HybridFraction'):
        return 'fgh'
    return 'fg'


class Stop(BaseException):
    """Raised by the harness to end a run"""


class Eval:
    __slots__ = (
        'x',
        'f',
        'g',
        'h',
        'r',
        'J',
        'gn',
        'ox',
        'of',
        'og',
        'oh',
        'odelta',
        'oiter',
        'oratio',
    )


class Trace:
    def __init__(self):
        self.evals = []
        self.result = None
        self.exc = None
        self.opt = None
        self.live = True  # False during a run before the one that is judged

    @property
    def exitname(self):
        return self.opt.exitflag.name


def make_fun(case, tr, mode, obj=None, fault=None, on_eval=None):
    """The objective function that is passed to fides"""
    p = case['p']
    n = p['n']
    obj = obj or objective(p)

    def fun(x, **kw):
        if not isinstance(x, np.ndarray) or x.shape != (n,):
            raise Violation(
                f'objective was called with an argument of type '
                f'{type(x).__name__} and shape {np.shape(x)}, not ({n},)'
            )
        e = Eval()
        e.x = np.array(x, dtype=float)
        opt = tr.opt
        e.ox = np.array(opt.x, dtype=float)
        e.of = opt.fval
        e.og = np.array(opt.grad, dtype=float)
        e.oh = np.array(opt.hess, dtype=float)
        e.odelta = opt.delta
        e.oiter = opt.iteration
        e.oratio = getattr(opt, 'tr_ratio', None)
        e.r = e.J = e.gn = e.h = None
        if mode == 'rs':
            r, J = obj.resid(e.x)
            if fault is not None and tr.live:
                r, J, _ = fault(len(tr.evals), r, J, None)
            e.r, e.J = np.array(r), np.array(J)
            with np.errstate(all='ignore'):
                e.f = 0.5 * r.dot(r)
                e.g = r.dot(J)
                e.gn = e.h = J.T.dot(J)
            ret = (r, J)
        else:
            f, g, h = obj.full(e.x)
            if fault is not None and tr.live:
                f, g, h = fault(len(tr.evals), f, g, h)
            e.f, e.g, e.h = f, np.array(g), np.array(h)
            ret = (f, g, h) if mode == 'fgh' else (f, g)
        tr.evals.append(e)
        if len(tr.evals) > case['options'].get('maxiter', 1000) + 5:
            raise Violation(
                'more evaluations than allowed by maxiter: '
                f'{len(tr.evals)} with maxiter '
                f'{case["options"].get("maxiter", 1000)}'
            )
        if on_eval is not None and tr.live:
            on_eval(tr, e)
        return ret

    return fun


def build(case, tr, fault=None, on_eval=None, fun=None, verbose=QUIET):
    """Creates the optimizer of a case"""
    import fides

    p = case['p']
    mode = outputs(case['hu'], case['residual'])
    if fun is None:
        fun = make_fun(case, tr, mode, fault=fault, on_eval=on_eval)
    options = {fides.Options(k): v for k, v in case['options'].items()}
    tr.opt = fides.Optimizer(
        fun,
        ub=np.array(p['ub'], dtype=float),
        lb=np.array(p['lb'], dtype=float),
        verbose=verbose,
        options=options,
        hessian_update=hess_scheme(case['hu']),
        resfun=case['residual'],
    )
    return tr.opt


def run(
    case, fault=None, on_eval=None, hess0=None, allow=(), verbose=QUIET,
    between=None,
):
    """Runs a case; exceptions of fides that are not in `allow` are violations

    `allow` holds exception types that end up in `trace.exc`. A case with an
    entry `warm` first uses the optimizer for another run, which must not have
    any influence; `between` is called after it.
    """
    tr = Trace()
    build(case, tr, fault=fault, on_eval=on_eval, verbose=verbose)
    if case.get('warm'):
        tr.live = False
        x0 = warm_start(case['p'], case['warm']['t'])
        h0 = case['warm']['h0'] * np.eye(len(x0))
        execute(tr, case, hess0=h0, x0=x0)
        tr.live, tr.result = True, None
        tr.evals.clear()
        if between is not None:
            between()
    execute(tr, case, hess0=hess0, allow=allow)
    return tr


def warm_start(p, t):
    """another start in the bounds"""
    x = np.array(p['x0']) + np.resize(t, p['n'])
    return np.minimum(np.maximum(x, p['lb']), p['ub'])


def execute(tr, case, hess0=None, allow=(), start_id=None, x0=None):
    try:
        tr.result = tr.opt.minimize(
            np.array(case['p']['x0'] if x0 is None else x0, dtype=float),
            start_id=start_id,
            hess0=hess0,
        )
    except Violation:
        raise
    except Exception as e:
        if allow and isinstance(e, allow):
            tr.exc = e
            return tr
        if in_fides(e.__traceback__):
            raise Violation(
                f'minimize raised {type(e).__name__}: {str(e)[:300]}'
            ) from e
        raise
    finally:
        drop_logger(tr.opt)
    return tr


def drop_logger(opt):
    """fides creates one logger per run; keep memory bounded"""
    import logging

    lg = getattr(opt, 'logger', None)
    if lg is not None:
        for h in list(lg.handlers):
            lg.removeHandler(h)
        logging.Logger.manager.loggerDict.pop(lg.name, None)


NUDGE = 1e-12  # fides moves points that are on a bound by 1e2 * eps


def near(a, b):
    """equal up to the displacement of points that are on a bound"""
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(
        np.all(np.abs(a - b) <= NUDGE * np.maximum(1.0, np.abs(b)))
    )


def accepted_flags(tr):
    """For every trial (evaluation 1..k): did the iterate move to it?

    Derived from the iterate that the optimizer reports at the next
    evaluation (or at the end). A trial equal to the iterate counts as moved
    only if the reported function value changed to that of the trial.
    """
    ev = tr.evals
    flags = []
    for k in range(1, len(ev)):
        if k + 1 < len(ev):
            nx, nf = ev[k + 1].ox, ev[k + 1].of
        else:
            nx, nf = np.array(tr.opt.x), tr.opt.fval
        flags.append(
            near(nx, ev[k].x) and nf == ev[k].f
        )
    return flags


class State:
    __slots__ = ('x', 'f', 'g', 'h', 'delta')

    def __init__(self, x, f, g, h, delta):
        self.x, self.f, self.g, self.h, self.delta = x, f, g, h, delta


def state_before(tr, k):
    """The state from which evaluation k was proposed"""
    e = tr.evals[k]
    return State(e.ox, e.of, e.og, e.oh, e.odelta)


def state_after(tr, k):
    """The state after evaluation k was processed"""
    if k + 1 < len(tr.evals):
        return state_before(tr, k + 1)
    o = tr.opt
    return State(
        np.array(o.x, dtype=float),
        o.fval,
        np.array(o.grad, dtype=float),
        np.array(o.hess, dtype=float),
        o.delta,
    )


class Transition:
    """One iteration, together with everything that the documentation says
    about it, recomputed from the observed states."""

    def __init__(self, case, tr, k, opt):
        from . import ref

        p = case['p']
        self.k = k
        self.e = e = tr.evals[k]
        self.before = b = state_before(tr, k)
        self.after = state_after(tr, k)
        lb, ub = np.array(p['lb']), np.array(p['ub'])
        self.model = m = ref.Model(b.x, b.g, b.h, lb, ub)
        self.s = e.x - b.x
        self.ss = m.scaled(self.s)
        # resolution of ss: rounding of x + s, relative to the scaling
        ulp = 4 * np.spacing(np.maximum(np.abs(b.x), np.abs(e.x)))
        with np.errstate(all='ignore'):
            self.dss = np.where(m.d > 0, ulp / m.d, 0.0)
        self.ndss = float(np.linalg.norm(self.dss))
        if np.any(m.d == 0):
            # fixed variables: the scaled step is not observable
            self.ndss = np.inf
        self.nss = float(np.linalg.norm(self.ss))
        self.q = m.q(self.ss)
        # error bound of q
        absm = 0.5 * (np.abs(m.M) + np.abs(m.M.T))
        grad = np.abs(m.sg) + absm @ np.abs(self.ss)
        self.dq = float(
            grad @ self.dss
            + self.dss @ absm @ self.dss
            + 1e-13 * m.qscale(self.ss)
        )
        if not np.isfinite(self.ndss):
            self.dq = np.inf
        with np.errstate(all='ignore'):
            self.aug = 0.5 * float(
                np.sum(m.dv * np.abs(e.g) * self.ss * self.ss)
            )
            self.daug = float(
                np.sum(
                    m.dv * np.abs(e.g) * (np.abs(self.ss) + self.dss) * self.dss
                )
            )
        # an accepted trial always has a smaller objective value (see C02)
        self.moved = (
            near(self.after.x, e.x)
            and self.after.f == e.f
            and not (near(b.x, e.x) and b.f == e.f)
        )
        self.finite = bool(np.isfinite(e.f))
        self.theta = m.theta(opt['theta_max'])

    def ratio_interval(self):
        """[lo, hi] that contains the trust region ratio, None if undefined"""
        if not self.finite:
            return 0.0, 0.0
        num = self.before.f - self.e.f - self.aug
        dnum = (
            self.daug
            + 1e-15 * (abs(self.before.f) + abs(self.e.f))
            + 1e-13 * abs(self.aug)
        )
        plo, phi = -self.q - self.dq, -self.q + self.dq
        if phi <= 0:
            return 0.0, 0.0
        if plo <= 0 or not np.isfinite(plo + phi + num + dnum):
            return None
        cand = [
            (num + a) / b for a in (-dnum, dnum) for b in (plo, phi)
        ]
        w = 1e-9
        lo, hi = min(cand), max(cand)
        return lo - w * abs(lo), hi + w * abs(hi)


# the documented defaults (used by the oracles; the agreement of the
# implementation with these is itself observable through the behaviour)
DEFAULTS = {
    'maxiter': 1000,
    'maxtime': float('inf'),
    'fatol': 1e-8,
    'frtol': 1e-8,
    'xtol': 0.0,
    'gatol': 1e-6,
    'grtol': 0.0,
    'subspace_solver': '2D',
    'stepback_strategy': 'reflect',
    'theta_max': 0.95,
    'delta_init': 1.0,
    'mu': 0.25,
    'eta': 0.75,
    'gamma1': 0.25,
    'gamma2': 2.0,
}


def effective(case):
    return {**DEFAULTS, **case['options']}


def transitions(case, tr):
    opt = effective(case)
    return [Transition(case, tr, k, opt) for k in range(1, len(tr.evals))]
