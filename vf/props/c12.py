"""Runs use the Hessian that the scheme defines for the visited points."""
import numpy as np
from hypothesis import strategies as st
from numpy.linalg import norm

from .. import gen, ref, trace
from ..engine import check

PROPERTY = 'C12'
LEVEL = 'exploration'
QUICK = 6000
THOROUGH = 40000
RULE = (
    'Whole runs with every Hessian scheme. The matrix in use at every '
    'evaluation is compared with the reference update of the matrix that was '
    'in use before, computed from points, gradients, residuals and Jacobians '
    'seen by the objective function; counters of the hybrid schemes are '
    'derived from the sequence of radii. Non-trivial: at least two accepted '
    'trials were decided with a scheme that uses an update (or three with '
    'exact Hessians) and at least one trial was rejected.'
)
ASSUMPTIONS = [
    'Steps below 1e-6 relative and updates with nearly vanishing denominators '
    'are not decided; a history that depends on these is left undecided from '
    'there on.',
    'HybridFraction: the documentation ("step accepted but radius not '
    'updated") and the publication leave open whether interior steps of good '
    'quality count; only histories in which both readings agree are decided.',
]


@st.composite
def _case(draw):
    residual = draw(st.sampled_from([True, False, None]))
    c = draw(
        gen.run_case(
            warm=True,
            types=('lsq',) if residual else gen.WILD_TYPES + ('linear',),
            residual=residual,
            kinds=('both', 'none', 'none', 'lower', 'upper'),
            maxiter=(10, 30, 30, 60),
            wild=draw(st.booleans()),
            tols=False,
        )
    )
    c['options'].update(fatol=0.0, frtol=0.0)
    if c['hu'] is None and draw(st.integers(0, 2)):
        c['hu'] = draw(
            st.one_of(gen.structured(), gen.hybrid(kinds=('FX',)))
            if c['residual']
            else st.one_of(gen.iterative(), gen.hybrid())
        )
    if draw(st.integers(0, 3)) == 0:
        # some trials have a non-finite value (and are rejected)
        c['bad'] = draw(
            st.lists(st.integers(1, 20), min_size=1, max_size=6, unique=True)
        )
        if not c['residual'] and draw(st.booleans()):
            c['hu'] = {
                'k': 'HybridFixed',
                'happ': draw(st.one_of(st.none(), gen.iterative())),
                'switch': draw(st.integers(1, 4)),
            }
            # radius kept for many iterations
            c['options']['eta'] = draw(st.sampled_from([0.9, 100.0]))
    if not c['residual'] and draw(st.integers(0, 4)) == 0:
        _long_fraction(draw, c)
    return c


def _long_fraction(draw, c):
    """HybridFraction, fraction passes the threshold after 25 iterations

    Trials with a non-finite value divide the radius by four, all others keep
    it, which then allows for about 50 iterations.
    """
    p = c['p']
    typ = draw(st.sampled_from(('quad', 'quartic', 'expo', 'iquad')))
    p['obj'] = draw(gen.obj(p['n'], p['x0'], typ))
    far = draw(gen.vec(p['n'], st.sampled_from([8.0, -8.0, 5.0, 12.0])))
    p['obj']['c'] = [x + f for x, f in zip(p['x0'], far, strict=True)]
    p['lb'] = [-gen.INF] * p['n']
    p['ub'] = [gen.INF] * p['n']
    nbad = draw(st.integers(2, 7))
    c['bad'] = sorted(
        draw(
            st.lists(
                st.integers(1, 22), min_size=nbad, max_size=nbad, unique=True
            )
        )
    )
    c['options'].update(
        eta=100.0, mu=draw(st.sampled_from([0.25, 0.01])), gamma1=0.5,
        delta_init=draw(st.sampled_from([0.1, 0.25])) * 4.0**nbad,
        maxiter=60, gatol=0.0, grtol=0.0, xtol=0.0,
    )
    if c['options']['stepback_strategy'] == 'refine':
        c['options']['stepback_strategy'] = 'reflect'
    c['hu'] = {
        'k': 'HybridFraction',
        'happ': draw(st.one_of(st.none(), gen.iterative())),
        'thr': draw(st.integers(60, 95)) / 100,
    }




def strategy(tier):
    return _case()


def run_case(case, rec):
    d = case['hu']
    name = trace.scheme_name(d)
    happ = []  # matrix of the inner iterative scheme at every evaluation

    def on_eval(tr, e):
        if d is not None and d['k'] in ('HybridFixed', 'HybridFraction'):
            happ.append(tr.opt.hessian_update.vf_happ.get_mat())

    fault = None
    if case.get('bad'):
        def fault(k, f, g, h):
            # (f, g, h), or (r, J, None)
            if k in case['bad']:
                f = np.full(np.shape(f), np.nan) if np.ndim(f) else np.nan
            return f, g, h

    tr = trace.run(case, fault=fault, on_eval=on_eval)
    if happ:
        happ.append(tr.opt.hessian_update.vf_happ.get_mat())
    ev = tr.evals
    rec.label(name)
    if len(ev) < 2:
        return
    n = case['p']['n']
    o = trace.effective(case)
    # initial matrix
    h0 = ev[1].oh
    if d is None:
        check(
            norm(h0 - ev[0].h) <= 1e-12 * norm(ev[0].h),
            'Hessian in use at the start is not the one of the objective',
        )
    else:
        check(
            np.array_equal(h0, np.eye(n)),
            f'initial approximation is {h0.tolist()}, not the identity',
        )
    A = ref.EPS * np.eye(n)
    amp_hist = 1.0
    structured_ok = hybrid_ok = True
    switched = False
    since = 0
    n_doc = n_mid = 0
    iterate = ev[0]  # evaluation at the current iterate
    decided = rejected = 0
    for tn in trace.transitions(case, tr):
        k, b, a, e = tn.k, tn.before, tn.after, tn.e
        what = f'iteration {k} with {d or "exact Hessians"}'
        since = since + 1 if a.delta == b.delta else 0
        iv = tn.ratio_interval()
        if iv is None:
            hybrid_ok = False
        else:
            lo, hi = iv
            if lo > o['mu'] and hi < o['eta']:
                n_mid += 1
            elif not (hi <= o['mu'] or lo >= o['eta']):
                hybrid_ok = False
        if tn.moved and a.delta == b.delta:
            n_doc += 1
        if not tn.moved:
            rejected += 1
            check(
                np.array_equal(a.h, b.h),
                f'{what}: the Hessian changed although the trial was rejected',
            )
            continue
        prev, iterate = iterate, e
        if d is None:
            check(
                norm(a.h - e.h) <= 1e-12 * norm(e.h),
                f'{what}: the Hessian is not the one of the accepted trial',
            )
            decided += 1
            continue
        s = e.x - b.x
        y = e.g - b.g
        ns = norm(s)
        ulp = 8 * norm(np.spacing(np.maximum(np.abs(e.x), np.abs(b.x))))
        if ns == 0:
            structured_ok = hybrid_ok = False
            continue
        ds = ulp / ns  # relative resolution of s
        small = ds > 1e-9
        tol0 = 1e-9 + 100 * ds
        key = d['k']
        if key in gen.ITER:
            deg = ref.degeneracy(d, b.h, s, y)
            if small or deg < 1e-4 or norm(b.h) > 1e12:
                rec.label('undecided update')
                continue
            want = ref.update_iterative(d, b.h, s, y)
            amp = (norm(b.h) + norm(y) / ns) / deg**2
            decided += 1
        elif key in ('HybridFixed', 'HybridFraction'):
            if not hybrid_ok:
                rec.label('undecided hybrid')
                continue
            # inner scheme
            bd = d['happ'] or {'k': 'BFGS', 'enforce': True}
            B0, B1 = happ[k], happ[k + 1]
            if k == 1 or (k > 1 and not np.any(np.isnan(B0))):
                deg = ref.degeneracy(bd, B0, s, y)
                if not small and deg > 1e-4 and norm(B0) < 1e12:
                    w = ref.update_iterative(bd, B0, s, y)
                    amp = (norm(B0) + norm(y) / ns) / deg**2
                    check(
                        norm(B1 - w) <= tol0 * amp,
                        f'{what}: inner scheme was not updated with the '
                        f'accepted step, difference {norm(B1 - w):.3g}',
                    )
            want = B1 if switched else e.h
            amp = norm(want) + 1e-300
            decided += 1
            if switched:
                rec.label('hybrid switched')
            elif key == 'HybridFixed':
                switched = since >= d['switch']
            elif k > 25:
                s1, s2 = n_doc / k > d['thr'], n_mid / k > d['thr']
                if s1 != s2 or any(
                    abs(c / k - d['thr']) < 1e-9 and d['thr'] != 0
                    for c in (n_doc, n_mid)
                ):
                    hybrid_ok = False
                switched = s1
                if switched:
                    rec.label('fraction switched')
                    if k > 26:
                        rec.label('fraction switched late')
        elif key == 'FX':
            rp, r = prev.r, e.r
            if rp @ rp == 0:
                continue
            ratio = (rp @ rp - r @ r) / (rp @ rp)
            if abs(ratio - d['tol']) < 1e-9:
                rec.label('undecided FX')
                continue
            if ratio >= d['tol']:
                want, amp = e.gn, norm(e.gn)
                rec.label('FX dynamic')
            else:
                bd = d['happ'] or {'k': 'BFGS', 'enforce': True}
                gamma = e.gn @ s + (e.J - prev.J).T @ r
                deg = ref.degeneracy(bd, b.h, s, gamma)
                if small or deg < 1e-4 or norm(b.h) > 1e12:
                    rec.label('undecided update')
                    continue
                want = ref.update_iterative(bd, b.h, s, gamma)
                amp = (norm(b.h) + norm(gamma) / ns
                       + norm(e.gn)) / deg**2
                rec.label('FX iterative')
            decided += 1
        else:
            if not structured_ok:
                rec.label('undecided structured')
                continue
            C, r = e.gn, e.r
            nr, nrp = norm(r), norm(prev.r)
            yb = (e.J - prev.J).T @ r
            if key in ('TSSM', 'GNSBFGS'):
                if nrp == 0 or nr < 1e-8 * nrp:
                    structured_ok = False
                    continue
                yb = yb * nr / nrp
            desc = {'k': 'Broyden', 'phi': d.get('phi', 0.0),
                    'enforce': d['enforce']}
            div = nr if key == 'TSSM' else 1.0
            if key == 'GNSBFGS':
                q = (yb @ s) / (s @ s)
                if abs(q - d['tol']) <= 1e-8 * norm(yb) / ns + 1e-12 * abs(
                    d['tol']
                ):
                    if np.any(yb):
                        structured_ok = False
                        rec.label('undecided structured')
                        continue
                if q > d['tol']:
                    Bs, ys = A, yb
                else:
                    Bs = None
            else:
                Bs, ys = C + div * A, C @ s + yb
            if Bs is None:
                want = C + nr * np.eye(n)
                amp = norm(want)
                rec.label('GNSBFGS first order')
            else:
                deg = ref.degeneracy(desc, Bs, s, ys)
                if small or deg < 1e-2 or div < 1e-8:
                    structured_ok = False
                    rec.label('undecided structured')
                    continue
                upd = ref.update_iterative(desc, Bs, s, ys) - Bs
                A = A + upd / div
                want = C + div * A
                amp_hist = max(
                    amp_hist, (norm(Bs) + norm(ys) / ns) / div / deg**2,
                    norm(A),
                )
                amp = norm(C) + amp_hist * max(div, 1.0)
                rec.label('structured update')
            amp = max(amp, amp_hist * (div if key == 'TSSM' else 1.0))
            tol0 *= 10
            decided += 1
        err = norm(a.h - want)
        check(
            err <= tol0 * amp,
            f'{what}: the matrix in use differs from the definition of the '
            f'scheme by {err:.3g} (scale {amp:.3g})',
        )
    rec.label(f'decided {min(decided, 5)}')
    rec.nontrivial(decided >= (3 if d is None else 2) and rejected > 0)
