"""P20: window convolution of two- and three-point statistics."""
import itertools
import os
import random
import threading
import warnings
from fractions import Fraction

import numpy as np
from scipy.interpolate import make_interp_spline

from vt import build, core, hankel as hk, lib

W = None
T = None


def setup():
    global W, T
    lib.prepare('ext')
    import triumvirate.transforms as T_
    import triumvirate.winconv as W_
    W, T = W_, T_
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')


# -- model ------------------------------------------------------------------
def spl1(x, y, k, xq, clamp):
    xq = np.asarray(xq, float)
    if clamp:
        xq = np.clip(xq, x[0], x[-1])
    return make_interp_spline(x, np.asarray(y, float), k=k)(xq)


def spl2(x, z, k, xq, y=None, yq=None):
    """Tensor-product spline, constant beyond the samples."""
    y = x if y is None else y
    yq = xq if yq is None else yq
    z = make_interp_spline(x, np.asarray(z, float), k=k, axis=0)(
        np.clip(xq, x[0], x[-1]))
    return make_interp_spline(y, z, k=k, axis=1)(np.clip(yq, y[0], y[-1]))


def simpson_w(x):
    """Weights of Simpson's rule on any grid."""
    n = len(x)
    w = np.zeros(n)

    def para(i, a, b):
        # integral over [a, b] of the parabola through three points
        p = x[i:i + 3]
        for j in range(3):
            o = [p[m] for m in range(3) if m != j]
            d = (p[j] - o[0])*(p[j] - o[1])
            # (t - o0)(t - o1) = t^2 - (o0+o1) t + o0 o1
            f = np.polyint([1., -(o[0] + o[1]), o[0]*o[1]])
            w[i + j] += (np.polyval(f, b) - np.polyval(f, a))/d
    m = n if n % 2 else n - 1
    for i in range(0, m - 2, 2):
        para(i, x[i], x[i + 2])
    if n % 2 == 0:
        para(n - 3, x[n - 2], x[n - 1])
    return w


# Norms of the multipole bases: products of two multipoles integrate over
# the directions to the inverse of N H^2.
def inv_nh2(m):
    from sympy.physics.wigner import wigner_3j
    a, b, c = m
    h = float(wigner_3j(a, b, c, 0, 0, 0))
    if h == 0.:
        return 0.
    return 1./((2*a + 1)*(2*b + 1)*(2*c + 1)*h*h)


def model_ic(rq, q, r, z, rc, k, approx=False):
    num = 0.
    for m in ([(0, 0, 0)] if approx else set(q) & set(z)):
        c = inv_nh2(m)
        if c == 0.:
            continue
        w = simpson_w(rc[m])*rc[m]**2
        num += c*(w[:, None]*w*spl2(rq[m], q[m], k, rc[m])
                  * spl2(r[m], z[m].real, k, rc[m])).sum()
    m = (0, 0, 0)
    w = simpson_w(rc[m])*rc[m]**2
    return num/(w[:, None]*w*spl2(rq[m], q[m], k, rc[m])).sum()


def model_conv(form, rq, q, r, z, ro, k, ic=None, diag=False, dim=1):
    out = {}
    for m, ts in form.items():
        tot = 0.
        for mq, mz, c in ts:
            if dim == 1:
                qq = spl1(rq[mq], np.diag(q[mq]) if diag else q[mq], k,
                          ro[m], True)
                zz = ic if mz == 'ic' else spl1(r[mz], z[mz].real, k, ro[m],
                                                False)
            else:
                qq = spl2(rq[mq], q[mq], k, ro[m])
                zz = ic if mz == 'ic' else spl2(r[mz], z[mz].real, k, ro[m])
            tot = tot + float(Fraction(c))*qq*zz
        out[m] = tot
    return out


def cmp_poles(got, want, tol=1e-9, scale=None):
    """Compare a dictionary by multipole."""
    try:
        if {m.index for m in got} != set(want) or len(got) != len(want):
            return f'multipoles {list(got)}'
    except AttributeError:
        return f'keys {list(got)}'
    for m, g in got.items():
        w = want[m.index]
        g = np.asarray(g)
        if g.shape != np.shape(w):
            return f'{m}: shape {g.shape} != {np.shape(w)}'
        s = scale[m.index] if scale else 1.
        big = np.abs(w*s).max()
        if not (np.abs(g*s - w*s) <= tol*max(big, 1e-300)).all():
            return f'{m}: {g} != {w}'
    return None


W16 = {(0,): [((0,), (0,), 1), ((2,), (2,), '1/5'), ((4,), (4,), '1/9')],
       (2,): [((0,), (2,), 1), ((2,), (0,), 1), ((2,), (2,), '2/7'),
              ((2,), (4,), '2/7'), ((4,), (2,), '2/7'),
              ((4,), (4,), '100/693'), ((6,), (4,), '25/143')],
       (4,): [((0,), (4,), 1), ((2,), (2,), '18/35'),
              ((2,), (4,), '20/77'), ((4,), (0,), 1), ((4,), (2,), '20/77'),
              ((4,), (4,), '162/1001'), ((6,), (2,), '45/143'),
              ((6,), (4,), '20/143'), ((8,), (4,), '490/2431')]}
TWO = {
    'wilson': W16,
    'mono': {(0,): [((0,), (0,), '1/2')]},
    'mixed': {(2,): [((0,), (2,), 2), ((2,), (0,), '-3/4')],
              (0,): [((4,), (2,), '1/3'), ((0,), (0,), -1)]},
    'shift': {(1,): [((0,), (1,), 1), ((2,), (1,), '2/5')],
              (3,): [((2,), (1,), '3/5')]},
}
THREE = {
    'mono': {(0, 0, 0): [((0, 0, 0), (0, 0, 0), 1),
                         ((0, 0, 0), 'ic', -1)]},
    'noic': {(0, 0, 0): [((0, 0, 0), (0, 0, 0), 1),
                         ((1, 1, 0), (1, 1, 0), '1/3')],
             (1, 1, 0): [((0, 0, 0), (1, 1, 0), 1),
                         ((1, 1, 0), (0, 0, 0), 1)]},
    'four': {(2, 0, 2): [((0, 0, 0), (2, 0, 2), 1),
                         ((2, 0, 2), (0, 0, 0), '2/3'),
                         ((2, 0, 2), 'ic', -1)],
             (0, 0, 0): [((1, 1, 0), (1, 1, 0), '1/3'),
                         ((0, 0, 0), (0, 0, 0), 1),
                         ((0, 0, 0), 'ic', -1)],
             (0, 2, 2): [((0, 0, 0), (2, 0, 2), '-1/2'),
                         ((1, 1, 0), 'ic', '3/2')]},
}
S19 = '000 110 202 112'


def qkeys(form):
    return sorted({t[0] for ts in form.values() for t in ts})


def zkeys(form):
    return sorted({t[1] for ts in form.values() for t in ts
                   if t[1] != 'ic'})


def order_key(ix):
    return (ix[-1],) + tuple(ix[:-1])


def named(name):
    """Terms of a named formula, as checked by P19."""
    f = W.WinConvFormulae(W.NAMED_FORMULAE[name])
    return {m.index: [
        (t.index_Q, t.index_Z, Fraction(str(t.coeff))) for t in f[m]]
        for m in f.multipoles}


def spec(form, how, name=None):
    """Pass formulae in one of the documented ways."""
    d = {m: [(q, z, c) for q, z, c in ts] for m, ts in form.items()}
    if how == 0:
        return d
    if how == 1:
        return W.WinConvFormulae(d)
    if how == 2:
        s = (lambda m: m if m == 'ic' else ''.join(map(str, m)))
        return {s(m): [(s(q), s(z), c) for q, z, c in ts]
                for m, ts in reversed(list(d.items()))}
    return {W.Multipole(m): [W.WinConvTerm(q, z, c) for q, z, c in ts]
            for m, ts in d.items()}


def kf(m, how):
    return [m, ''.join(map(str, m)), list(m) and tuple(map(str, m)),
            W.Multipole(m)][how % 4]


def wgrid(i, n=9):
    return np.geomspace(4. + .3*i, 90. + 5*i, n)


def zgrid(i, n=7):
    return np.geomspace(5. + .2*i, 80. + 2*i, n)


def snap(*ds):
    return [{k: np.array(v, copy=True) for k, v in d.items()}
            if isinstance(d, dict) else np.array(d, copy=True) for d in ds]


def same(a, b):
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(
            np.array_equal(a[k], b[k]) for k in a)
    return np.array_equal(a, b)


# -- two-point correlation function -----------------------------------------
def win1(m, r):
    return np.exp(-r/50.)*(1 + .2*sum(m)) + .05*np.cos(r/9.)


def two_case(key, payload, rec):
    name, how, common, out, k = payload
    form = named('wilson+16') if name == 'wilson+16' else TWO[name]
    qs, zs = qkeys(form), zkeys(form)
    rq = {m: wgrid(0 if common else i) for i, m in enumerate(qs)}
    q = {m: win1(m, rq[m]) for m in qs}
    r = {m: zgrid(0 if common % 2 else i) for i, m in enumerate(zs)}
    extra = (8,) if (8,) not in qs else (10,)
    a_rq = rq[qs[0]] if common else {kf(m, how): rq[m] for m in qs}
    a_q = {kf(m, how): q[m] for m in qs[::-1]}
    a_q[kf(extra, how)] = win1(extra, rq[qs[0]])
    if not common:
        a_rq[kf(extra, how)] = rq[qs[0]]
    a_r = r[zs[0]] if common % 2 else {
        kf(m, how + 1): r[m] for m in zs[::-1]}
    if out == 0:
        a_out, ro = None, {m: r.get(m) for m in form}
        if any(v is None for v in ro.values()):
            if common % 2:
                # same points for all multipoles, yet not the same multipoles
                pass
            try:
                W.TwoPCFWinConv(spec(form, how), a_rq, a_q, a_r, spline=k)
            except ValueError:
                rec.step()
                rec.state(key)
                return
            rec.fail(key, 'no output points, yet accepted')
            return
    elif out == 1:
        a_out = np.geomspace(6., 79., 5)
        ro = {m: a_out for m in form}
    elif out == 2:
        ro = {m: np.linspace(7. + i, 70. + i, 4 + i)
              for i, m in enumerate(form)}
        a_out = {kf(m, how + 2): ro[m] for m in form}
    else:
        # beyond the window, within the correlation function
        a_out = np.array([5.5, 20., 79.])
        rq = {m: np.geomspace(9., 60., 9) for m in qs}
        q = {m: win1(m, rq[m]) for m in qs}
        a_rq = {kf(m, how): rq[m] for m in qs}
        a_q = {kf(m, how): q[m] for m in qs}
        ro = {m: a_out for m in form}
    before = snap(a_rq, a_q, a_r)
    c = W.TwoPCFWinConv(
        name if name == 'wilson+16' else spec(form, how), a_rq, a_q, a_r,
        r_out=a_out, spline=k)
    for nm, got, want in (('r_in', c.r_in, r), ('r_out', c.r_out, ro)):
        msg = cmp_poles(got, want, 0.)
        if msg:
            rec.fail(f'{key}:{nm}', msg)
    vs = []
    for m in zs:
        for i in range(len(r[m])):
            vs.append((f'{m}:{i}', {p: (np.arange(len(r[p])) == i)*(p == m)
                                    * 1. for p in zs}))
    vs.append(('dense', {m: np.exp(-r[m]/30.)*(1 + len(vs) % 3 - .3*m[0])
                         for m in zs}))
    for nm, z in vs:
        arg = {kf(m, how + 3): z[m].copy() for m in zs[::-1]}
        b4 = snap(arg)[0]
        got = c.convolve(arg)
        rec.step()
        rec.valid()
        rec.state((key, nm))
        msg = cmp_poles(got, model_conv(form, rq, q, r, z, ro, k))
        if msg:
            rec.fail(f'{key}:{nm}', msg)
        if not same(arg, b4):
            rec.fail(f'{key}:{nm}:in', 'input changed')
        rec.outcome(b''.join(np.round(v, 6).tobytes()
                             for v in got.values()))
    if not all(map(same, (a_rq, a_q, a_r), before)):
        rec.fail(f'{key}:init', 'input changed')


# -- three-point correlation function ---------------------------------------
def win2(m, r):
    x, y = np.meshgrid(r, r, indexing='ij')
    w = np.exp(-(x + y)/70.)*(1 + .2*m[0] - .1*m[2]) + .02*np.cos((x - y)/20.)
    return w + (.001*x if m[0] != m[1] else 0.)


def dense2(m, r, s=0):
    x, y = np.meshgrid(r, r, indexing='ij')
    return (np.exp(-(x + 1.3*y)/40.)*(1 + .4*m[0] + .2*m[2])
            + .01*np.sin(x/15. + s) + .003*m[1]*np.cos(y/11.))


def three_setup(name, how, common, out, nq=7, nz=6):
    form = named('sugiyama+19') if name == 'sugiyama+19' else THREE[name]
    qs, zs = qkeys(form), zkeys(form)
    rq = {m: wgrid(0 if common else i, nq) for i, m in enumerate(qs)}
    q = {m: win2(m, rq[m]) for m in qs}
    r = {m: zgrid(0 if common % 2 else i, nz) for i, m in enumerate(zs)}
    if out == 0:
        a_out = None
        if not set(form) <= set(zs):
            a_out = r[zs[0]]
            ro = {m: a_out for m in form}
        else:
            ro = {m: r[m] for m in form}
    elif out == 1:
        a_out = np.geomspace(6., 79., 4)
        ro = {m: a_out for m in form}
    else:
        ro = {m: np.linspace(7. + i, 70. + i, 3 + i)
              for i, m in enumerate(form)}
        a_out = {kf(m, how + 2): ro[m] for m in form}
    a_rq = rq[qs[0]] if common else {kf(m, how): rq[m] for m in qs}
    a_q = {kf(m, how): q[m] for m in qs[::-1]}
    a_r = r[zs[0]] if common % 2 else {
        kf(m, how + 1): r[m] for m in zs[::-1]}
    return form, qs, zs, rq, q, r, ro, a_rq, a_q, a_r, a_out


def three_case(key, payload, rec):
    name, how, common, out, k, th = payload
    form, qs, zs, rq, q, r, ro, a_rq, a_q, a_r, a_out = three_setup(
        name, how, common, out)
    before = snap(a_rq, a_q, a_r)
    c = W.ThreePCFWinConv(
        name if name == 'sugiyama+19' else spec(form, how), a_rq, a_q, a_r,
        r_out=a_out, spline=k)
    for nm, got, want in (('r_in', c.r_in, r), ('r_out', c.r_out, ro)):
        msg = cmp_poles(got, want, 0.)
        if msg:
            rec.fail(f'{key}:{nm}', msg)
    has_ic = any(t[1] == 'ic' for ts in form.values() for t in ts)
    n = len(r[zs[0]])
    vs = [('dense', {m: dense2(m, r[m]) for m in zs}),
          ('complex', {m: dense2(m, r[m], 1) + .1j for m in zs})]
    for m in zs:
        for i, j in itertools.product(range(n), repeat=2):
            if not th and (i*n + j + zs.index(m)) % 3:
                continue
            z = {p: np.zeros((n, n)) for p in zs}
            z[m][i, j] = 1.
            vs.append((f'{m}:{i}:{j}', z))
    for nm, z in vs:
        arg = {kf(m, how + 3): z[m].copy() for m in zs[::-1]}
        b4 = snap(arg)[0]
        for ic in (None, 0., .37):
            if ic is not None and nm not in ('dense', 'complex') and \
                    (ic or not has_ic):
                continue
            got = c.convolve(arg) if ic is None else c.convolve(arg, ic=ic)
            e = ic
            if ic is None and has_ic:
                e = model_ic(rq, q, r, z, r, k)
            rec.step()
            rec.valid()
            rec.state((key, nm, ic))
            msg = cmp_poles(got, model_conv(form, rq, q, r, z, ro, k, e,
                                            dim=2), 1e-8)
            if msg:
                rec.fail(f'{key}:{nm}:{ic}', msg)
            rec.outcome(b''.join(np.round(v, 6).tobytes()
                                 for v in got.values()))
        if not same(arg, b4):
            rec.fail(f'{key}:{nm}:in', 'input changed')
    # the diagonal alone
    vs = [('dense', {m: np.diag(dense2(m, r[m])).copy() for m in zs})]
    for m in zs:
        vs += [(f'{m}:{i}', {p: (np.arange(n) == i)*(p == m)*1.
                             for p in zs}) for i in range(n)]
    for nm, z in vs:
        arg = {kf(m, how + 3): z[m].copy() for m in zs[::-1]}
        b4 = snap(arg)[0]
        for ic in (None, 0., .37):
            rec.step()
            rec.valid()
            rec.state((key, 'diag', nm, ic))
            try:
                got = c.convolve_diag(arg, ic=ic)
            except ValueError as e:
                if not has_ic or ic is not None:
                    rec.fail(f'{key}:diag:{nm}:{ic}', repr(e))
                continue
            if has_ic and ic is None:
                rec.fail(f'{key}:diag:{nm}', 'no integral constraint, yet '
                         'accepted')
                continue
            msg = cmp_poles(got, model_conv(form, rq, q, r, z, ro, k, ic,
                                            diag=True))
            if msg:
                rec.fail(f'{key}:diag:{nm}:{ic}', msg)
        if not same(arg, b4):
            rec.fail(f'{key}:diag:{nm}:in', 'input changed')
    if not all(map(same, (a_rq, a_q, a_r), before)):
        rec.fail(f'{key}:init', 'input changed')
    # wrong shapes are rejected
    for bad in ((n - 1, n - 1), (n + 1, n + 1), (n,)):
        arg = {kf(m, how): np.ones(bad) for m in zs}
        rec.step()
        try:
            c.convolve(arg, ic=0.)
        except (ValueError, IndexError):
            continue
        rec.fail(f'{key}:shape:{bad}', 'accepted')


# -- integral constraint ----------------------------------------------------
def ic_case(key, payload, rec):
    nq, nz, common, k, sel = payload
    qs = [(0, 0, 0), (1, 1, 0), (2, 0, 2), (1, 1, 2), (0, 1, 1), (1, 2, 2)]
    zs = [m for i, m in enumerate(
        [(0, 0, 0), (1, 1, 0), (2, 0, 2), (0, 1, 1), (2, 2, 0), (1, 2, 2)])
        if sel >> i & 1 or i == 0]
    if sel & 64:
        qs = qs[:2]
    rq = {m: wgrid(0 if common else i, nq) for i, m in enumerate(qs)}
    q = {m: win2(m, rq[m]) for m in qs}
    r = {m: zgrid(0 if common else i, nz) for i, m in enumerate(zs)}
    z = {m: dense2(m, r[m]) for m in zs}
    rc0 = np.geomspace(7., 75., 5)
    for how in range(4):
        a_rq = rq[qs[0]] if common else {kf(m, how): rq[m] for m in qs}
        a_r = r[zs[0]] if common else {kf(m, how): r[m] for m in zs[::-1]}
        a_q = {kf(m, how): q[m] for m in qs[::-1]}
        a_z = {kf(m, how): z[m] for m in zs}
        b4 = snap(a_rq, a_r, a_q, a_z)
        for how2, approx in itertools.product(range(3), (False, True)):
            if how2 == 0:
                a_rc, rc = None, r
            elif how2 == 1:
                a_rc, rc = rc0, dict.fromkeys(zs, rc0)
            else:
                rc = {m: np.linspace(8. + i, 60. + i, 5 + i % 3)
                      for i, m in enumerate(zs)}
                a_rc = {W.Multipole(m): v for m, v in rc.items()}
            kw = {} if how2 == 0 and how == 0 else {'r_common': a_rc}
            if approx:
                kw['approx'] = True
            if k != 3 or how % 2:
                kw['spline'] = k
            got = W.calc_threept_ic(a_rq, a_q, a_r, a_z, **kw)
            want = model_ic(rq, q, r, z, rc, k, approx)
            rec.step()
            rec.valid()
            rec.state((key, how, how2, approx))
            rec.outcome(round(float(got), 9))
            if not abs(got - want) <= 1e-9*max(abs(want), 1e-3):
                rec.fail(f'{key}:{how}:{how2}:{approx}', f'{got} != {want}')
        if not all(map(same, (a_rq, a_r, a_q, a_z), b4)):
            rec.fail(f'{key}:{how}:in', 'input changed')


def ic_zero_case(key, payload, rec):
    """The integral constraint removes the integrated windowed monopole."""
    n, k, name = payload
    from sympy import Rational  # noqa: F401
    qs = [(0, 0, 0), (1, 1, 0)] if name != 'even' else [
        (0, 0, 0), (1, 1, 0), (2, 0, 2), (1, 1, 2), (0, 2, 2)]
    form = {'000': [('000', 'ic', -1)]}
    for m in qs:
        c = W.calc_threept_winconv_coeff((0, 0, 0), m, m)
        form['000'].append((m, m, c))
    r = np.geomspace(5., 80., n)
    q = {m: win2(m, r) for m in qs}
    z = {m: dense2(m, r) for m in qs}
    c = W.ThreePCFWinConv(form, r, q, r, spline=k)
    out = c.convolve(z)[W.Multipole('000')]
    w = simpson_w(r)*r**2
    tot = (w[:, None]*w*out).sum()
    big = (w[:, None]*w*np.abs(out)).sum()
    rec.step()
    rec.valid()
    rec.state(key)
    if not abs(tot) <= 1e-10*big:
        rec.fail(key, f'{tot} of {big}')


def ic_bad_case(key, payload, rec):
    r = np.geomspace(5., 80., 6)
    m0, m1 = (0, 0, 0), (1, 1, 0)
    q = {m: win2(m, r) for m in (m0, m1)}
    z = {m: dense2(m, r) for m in (m0, m1)}
    trials = {
        'no Q monopole': (r, {m1: q[m1]}, r, z),
        'no zeta monopole': (r, q, r, {m1: z[m1]}),
        'no Q points': ({m0: r}, q, r, z),
        'no zeta points': (r, q, {m1: r}, z),
    }
    for nm, a in trials.items():
        rec.step()
        rec.valid()
        rec.state(nm)
        try:
            W.calc_threept_ic(*a)
        except ValueError:
            continue
        rec.fail(f'{key}:{nm}', 'accepted')
    got = W.calc_threept_ic(r, q, r, z)
    if np.ndim(got) or not np.isfinite(got):
        rec.fail(f'{key}:type', f'{got!r}')
    # coverage warnings
    for nm, rc, want in (('in', np.geomspace(6., 70., 6), False),
                         ('low', np.geomspace(4., 70., 6), True),
                         ('high', np.geomspace(6., 90., 6), True)):
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            W.calc_threept_ic(r, q, r, z, r_common=rc)
        rec.step()
        if bool(ws) != want:
            rec.fail(f'{key}:warn:{nm}', f'{[str(w.message) for w in ws]}')


# -- sample points ----------------------------------------------------------
def sampts_case(key, payload, rec):
    """Derived output points, coverage warnings and missing multipoles."""
    wlo, whi, zlo, zhi = payload
    form = TWO['mixed']
    qs, zs = qkeys(form), zkeys(form)
    nq = {m: 9 - i for i, m in enumerate(qs)}
    nz = {m: 8 - 2*i for i, m in enumerate(zs)}
    rq = {m: np.geomspace(10.*wlo*(1 + .01*i), 100.*whi*(1 - .01*i), nq[m])
          for i, m in enumerate(qs)}
    q = {m: win1(m, rq[m]) for m in qs}
    r = {m: np.geomspace(10.*zlo*(1 + .02*i), 100.*zhi*(1 - .02*i), nz[m])
         for i, m in enumerate(zs)}
    z = {m: np.exp(-r[m]/30.) for m in zs}
    ro0 = np.geomspace(10., 100., 6)
    for cls, out, enf in itertools.product((0, 1), range(4), (False, True)):
        c = W.TwoPCFWinConv(spec(form, 0), rq, q, r, r_out=ro0) \
            if cls == 0 else W.WinConvBase(spec(form, 0), rq, q)
        if cls == 1 and (c.r_in is not None or c.r_out is not None):
            rec.fail(f'{key}:null', 'sample points set')
        kw = {}
        if enf:
            kw['enforce_coverage'] = True
        if out == 0:
            ro = {m: r[m] for m in form}
            if enf:
                for m, ts in form.items():
                    xs = [rq[t[0]] for t in ts] + [r[t[1]] for t in ts]
                    lo = max(x[0] for x in xs)
                    hi = min(x[-1] for x in xs)
                    ro[m] = np.geomspace(lo, hi, min(map(len, xs)))
        elif out == 1:
            kw['r_out'] = ro0
            ro = {m: ro0 for m in form}
        elif out == 2:
            ro = {m: ro0*(1 + .001*i) for i, m in enumerate(form)}
            kw['r_out'] = {kf(m, i): ro[m] for i, m in enumerate(form)}
        else:
            ro = {m: np.linspace(30., 60., 3) for m in form}
            kw['r_out'] = ro[(0,)]
        bad = any(
            ro[m].min() < x.min()*(1 - 1e-4)
            or ro[m].max() > x.max()*(1 + 1e-4)
            for m, ts in form.items() for t in ts
            for x in (rq[t[0]], r[t[1]]))
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            c.initialise_sampts({kf(m, i): r[m] for i, m in enumerate(zs)},
                                **kw)
        got = [w for w in ws
               if issubclass(w.category, W.ConvolutionRangeWarning)]
        k = f'{key}:{cls}:{out}:{enf}'
        rec.step()
        rec.valid()
        rec.state(k)
        if bool(got) != bad:
            rec.fail(f'{k}:warn', f'{bad}: {[str(w.message) for w in ws]}')
        msg = cmp_poles(c.r_out, ro, 1e-12) or cmp_poles(c.r_in, r, 0.)
        if msg:
            rec.fail(k, msg)
        if cls == 0:
            msg = cmp_poles(c.convolve(z),
                            model_conv(form, rq, q, r, z, ro, 3), 1e-8)
            if msg and not bad:
                rec.fail(f'{k}:conv', msg)


def missing_case(key, payload, rec):
    """Missing multipoles and unknown formulae are rejected."""
    r = np.geomspace(5., 80., 8)
    for dim, (cls, forms) in itertools.product((1, 2), (
            ('base', None), ('conv', None), ('spec', None))):
        fm = TWO['mixed'] if dim == 1 else THREE['four']
        qs, zs = qkeys(fm), zkeys(fm)
        win, den = (win1, win1) if dim == 1 else (win2, dense2)
        q = {m: win(m, r) for m in qs}
        C = {'base': W.WinConvBase,
             'conv': (W.TwoPCFWinConv, W.ThreePCFWinConv)[dim - 1],
             'spec': (W.PowspecWinConv, W.BispecWinConv)[dim - 1]}[cls]

        def make(rq, q_, r_, f=None):
            a = (f or spec(fm, 0), rq, q_)
            if cls == 'base':
                c = C(*a)
                c.initialise_sampts(r_, r_out=r)
            elif cls == 'conv':
                C(*a, r_, r_out=r)
            else:
                C(*a, r_, r_common=r)
        for drop in qs + zs + ['name', 'none']:
            for where in ('Q', 'rQ', 'r'):
                q_, rq = dict(q), {m: r for m in qs}
                r_ = {m: r for m in zs}
                d = {'Q': q_, 'rQ': rq, 'r': r_}[where]
                f = None
                bad = drop in d or drop == 'name'
                if drop == 'name':
                    f = 'wilson+17'
                elif drop in d:
                    del d[drop]
                rec.step()
                rec.valid()
                rec.state((dim, cls, drop, where))
                try:
                    make(rq, q_, r_, f)
                except ValueError as e:
                    if not bad:
                        rec.fail(f'{key}:{dim}:{cls}:{drop}:{where}',
                                 repr(e))
                    continue
                if bad:
                    rec.fail(f'{key}:{dim}:{cls}:{drop}:{where}', 'accepted')
        # spacing
        if cls == 'spec':
            lin = np.linspace(5., 80., 8)
            for nm, ki, rc, bad in (
                    ('k', lin, r, dim == 1), ('r', r, lin, True),
                    ('k0', {m: lin if m == zs[-1] else r for m in zs}, r,
                     dim == 1)):
                rec.step()
                rec.valid()
                rec.state((dim, nm))
                try:
                    C(spec(fm, 0), r, q, ki, r_common=rc)
                except W.SpacingError:
                    if not bad:
                        rec.fail(f'{key}:{dim}:spacing:{nm}', 'rejected')
                    continue
                if bad:
                    rec.fail(f'{key}:{dim}:spacing:{nm}', 'accepted')


def mixed(arrs):
    """End points of mixed signs do not extrapolate log-linearly."""
    for a in arrs:
        if np.iscomplexobj(a) and np.abs(a.imag).max() > 0:
            return True
        a = np.real(a)
        for r in (a if a.ndim == 2 else [a]) if a.ndim < 2 else \
                list(a) + list(a.T):
            if r[0]*r[1] <= 0 or r[-1]*r[-2] <= 0:
                return True
    return False


# -- power spectrum ---------------------------------------------------------
KW = [None, {}, {'extrap': 0}, {'extrap': 3, 'extrap_exp': 3.},
      {'extrap': 4, 'extrap_layer': 'native', 'pivot': 2.},
      {'extrap': 2, 'lowring': False, 'pivot': .7},
      {'extrap': 1, 'threaded': True}]


def tr1(ell, x, a, direction, kw):
    """Transform by the model; the pivot is the class's own (see P17)."""
    t = T.SphericalBesselTransform(degree=ell, bias=0, sample_pts=x, **kw)
    ext, fac = kw.get('extrap', 0), kw.get('extrap_exp', 2.)
    n = len(x)
    nt = hk.next_size(n, fac) if ext else n
    ne = (nt - n)//2
    xe = hk.loglin_points(x, ne)
    if kw.get('extrap_layer') == 'native' and ext:
        a = hk.extrap(ext, a*x**1.5, ne)
    else:
        a = hk.extrap(ext, a, ne)*xe**1.5
    y, b = hk.transform(ell + .5, 0., xe, t.pivot, a)
    b = (2*np.pi/y)**1.5*b
    w = (-1j)**ell if direction == 1 else 1j**ell/(2*np.pi)**3
    sl = slice(ne, ne + n)
    return y[sl], w*b[sl]


def pow_case(key, payload, rec):
    name, how, kwi, rcom, kout, spline = payload
    form = named('wilson+16') if name == 'wilson+16' else TWO[name]
    qs, zs = qkeys(form), zkeys(form)
    n = 8
    rq = {m: np.geomspace(.05, 900., 12)*(1 + .01*i)
          for i, m in enumerate(qs)}
    q = {m: np.exp(-rq[m]/90.)*(1 + .2*m[0]) for m in qs}
    common = how % 2 == 0
    k_in = {m: np.geomspace(.01, .5, n)*(1 if common else 1 + .02*i)
            for i, m in enumerate(zs)}
    kw = KW[kwi]
    kw0 = dict(kw) if kw is not None else None
    full = {'extrap': 4}
    full.update(kw or {})
    rc = {0: None, 1: np.geomspace(3., 60., 6)}[rcom]
    ko = {0: None, 1: np.linspace(.03, .3, 5)}[kout]
    sp = (spline, spline) if isinstance(spline, int) else spline
    a_k = k_in[zs[0]] if common else {kf(m, how): k_in[m] for m in zs[::-1]}
    if not set(form) <= set(zs) and rc is None:
        rc = np.geomspace(3., 60., 6)
    c = W.PowspecWinConv(
        name if name == 'wilson+16' else spec(form, how),
        {kf(m, how): rq[m] for m in qs}, {kf(m, how + 1): q[m] for m in qs},
        a_k, k_out=ko, r_common=rc, transform_kwargs=kw, spline=spline)
    if kw != kw0:
        rec.fail(f'{key}:kw', f'keyword arguments changed: {kw}')
    zero = {m: np.ones(n) for m in zs}
    r = {m: tr1(m[0], k_in[m], zero[m], -1, full)[0] for m in zs}
    ro = {m: rc if rc is not None else r[m] for m in form}
    kc = {m: tr1(m[0], ro[m], np.ones(len(ro[m])), 1, full)[0] for m in form}
    if ko is None:
        lo, hi = max(x[0] for x in kc.values()), \
            min(x[-1] for x in kc.values())
        wko = np.geomspace(lo, hi, min(map(len, kc.values())))
    else:
        wko = ko
    if np.shape(c.k_out) != np.shape(wko) or \
            not np.allclose(c.k_out, wko, rtol=1e-9, atol=0):
        rec.fail(f'{key}:k_out', f'{c.k_out} != {wko}')
        return
    msg = cmp_poles(c.r_common, ro, 1e-9) or cmp_poles(c.r_in, r, 1e-9)
    if msg:
        rec.fail(f'{key}:r', msg)
    if any(not np.array_equal(c.k_in[W.Multipole(m)], k_in[m]) for m in zs):
        rec.fail(f'{key}:k_in', f'{c.k_in}')
    # correlation functions are real
    ph = {m: 1j if m[0] % 2 else 1. for m in zs}
    vs = [('dense', {m: 40*k_in[m]**-(1.5 + .1*m[0])*(1 - .1*m[0])*ph[m]
                     for m in zs})]
    if full['extrap'] != 4:
        for m in zs:
            for i in range(n):
                vs.append((f'{m}:{i}', {
                    p: (np.arange(n) == i)*(p == m)*ph[m] for p in zs}))
    for nm, p in vs:
        arg = {kf(m, how + 2): p[m].copy() for m in zs[::-1]}
        b4 = snap(arg)[0]
        xi = {m: tr1(m[0], k_in[m], p[m], -1, full)[1] for m in zs}
        xc = model_conv(form, rq, q, r, xi, ro, sp[0])
        want = {}
        for m in form:
            kk, b = tr1(m[0], ro[m], xc[m], 1, full)
            want[m] = spl1(kk, b.real, sp[1], c.k_out, False) \
                + 1j*spl1(kk, b.imag, sp[1], c.k_out, False)
        if full['extrap'] == 4 and mixed(
                [p[m] for m in zs] + [xc[m] for m in form]):
            rec.outcome('mixed')
            continue
        got = c.convolve(arg)
        g2, gx = c.convolve(arg, ret_xi=True)
        rec.step(2)
        rec.valid()
        rec.state((key, nm))
        msg = cmp_poles(got, want, 1e-6) or cmp_poles(g2, want, 1e-6) \
            or cmp_poles(gx, xc, 1e-7)
        if msg:
            rec.fail(f'{key}:{nm}', msg)
        if not same(arg, b4):
            rec.fail(f'{key}:{nm}:in', 'input changed')
        rec.outcome(b''.join(np.round(v, 3).tobytes()
                             for v in got.values()))


# -- bispectrum -------------------------------------------------------------
KW2 = [{'extrap': 0}, None, {'extrap': 2, 'extrap2d': True},
       {'extrap': 3, 'pivot': 2., 'extrap_exp': 3.},
       {'extrap': 1, 'lowring': False, 'pivot': .7, 'threaded': True},
       {'extrap': 4, 'extrap2d': True}]


def tr2(degs, x, f, direction, kw):
    t = T.DoubleSphericalBesselTransform(
        degrees=degs, biases=(0, 0), sample_pts=x, **kw)
    if kw.get('extrap') == 5:
        # as transformed by the class itself (see P17)
        (ya, yb), g = t.transform_cosmo_multipoles(direction, f + 0.)
        return ya[:, 0], yb[0], g
    ext, fac = kw.get('extrap', 0), kw.get('extrap_exp', 2.)
    e2d = kw.get('extrap2d', False)
    n = len(x)
    nt = hk.next_size(n, fac) if ext else n
    ne = (nt - n)//2
    xe = hk.loglin_points(x, ne)
    sl = slice(ne, ne + n)

    def one(ell, pv, row, extend):
        a = (hk.extrap(ext, row, ne) if extend else row)*xe**1.5
        y, b = hk.transform(ell + .5, 0., xe, pv, a)
        return y, (2*np.pi/y)**1.5*b
    if e2d and ext:
        f = np.array([hk.extrap(ext, row, ne) for row in f])
        f = np.array([hk.extrap(ext, c, ne) for c in f.T]).T
    half, full = [], []
    for row in f:
        y1, b = one(degs[1], t.pivot[1], row, ext and not e2d)
        half.append(b if e2d else b[sl])
    for col in np.array(half).T:
        y0, b = one(degs[0], t.pivot[0], col, ext and not e2d)
        full.append(b[sl])
    full = np.array(full).T
    if e2d:
        full = full[:, sl]
    w = (-1j)**sum(degs) if direction == 1 \
        else 1j**sum(degs)/(2*np.pi)**6
    return y0[sl], y1[sl], w*full


def bi_case(key, payload, rec):
    name, how, kwi, rcom, kout, spline, th = payload
    form = named('sugiyama+19') if name == 'sugiyama+19' else THREE[name]
    qs, zs = qkeys(form), zkeys(form)
    has_ic = any(t[1] == 'ic' for ts in form.values() for t in ts)
    n = 6
    rq = {m: np.geomspace(.05, 900., 9)*(1 + .01*i)
          for i, m in enumerate(qs)}
    q = {m: np.exp(-np.add.outer(rq[m], .9*rq[m] if m[0] != m[1] else rq[m])
                   / 90.)*(1 + .2*m[0]) for m in qs}
    common = how % 2 == 0
    lin = rcom == 2
    k_in = {m: (np.linspace if lin else np.geomspace)(.02, .4, n)
            * (1 if common else 1 + .02*i) for i, m in enumerate(zs)}
    kl = {m: np.geomspace(x[0], x[-1], n) for m, x in k_in.items()}
    kw = KW2[kwi]
    kw0 = dict(kw) if kw is not None else None
    full = {'extrap': 5}
    full.update(kw or {})
    rc = np.geomspace(6., 40., 6) if rcom or not set(form) <= set(zs) \
        else None
    ko = {0: None, 1: np.linspace(.04, .3, 4)}[kout]
    sp = (spline, spline) if isinstance(spline, int) else spline
    a_k = k_in[zs[0]] if common else {kf(m, how): k_in[m] for m in zs[::-1]}
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        c = W.BispecWinConv(
            name if name == 'sugiyama+19' else spec(form, how),
            {kf(m, how): rq[m] for m in qs},
            {kf(m, how + 1): q[m] for m in qs},
            a_k, k_out=ko, r_common=rc, transform_kwargs=kw, spline=spline)
    if lin and not [w for w in ws if 'logarithmically' in str(w.message)]:
        rec.fail(f'{key}:warn', 'no warning of resampling')
    if kw != kw0:
        rec.fail(f'{key}:kw', f'keyword arguments changed: {kw}')
    one = np.ones((n, n))
    r2 = {m: tr2(m[:2], kl[m], one, -1, full)[:2] for m in zs}
    r = {m: c.r_in[W.Multipole(m)] for m in zs}
    for m in zs:
        # the common points are those of one of the dimensions
        if not any(np.allclose(r[m], x, rtol=1e-9, atol=0) for x in r2[m]):
            rec.fail(f'{key}:{m}:r_in', f'{r[m]} {r2[m]}')
    ro = {m: rc if rc is not None else r[m] for m in form}
    msg = cmp_poles(c.r_common, ro, 1e-9)
    if msg:
        rec.fail(f'{key}:r', msg)
    for m in zs:
        if not np.allclose(c.k_in[W.Multipole(m)], kl[m], rtol=1e-9, atol=0):
            rec.fail(f'{key}:k_in', f'{c.k_in}')
    if ko is not None and not np.array_equal(ko, c.k_out):
        rec.fail(f'{key}:k_out', f'{c.k_out}')
    if ko is None:
        kc = [c._fdsjt[W.Multipole(m)]._post_sampts for m in form] \
            if hasattr(c, '_fdsjt') else None
        if kc:
            wko = np.geomspace(max(x[0] for x in kc),
                               min(x[-1] for x in kc), min(map(len, kc)))
            if not np.allclose(c.k_out, wko, rtol=1e-9, atol=0):
                rec.fail(f'{key}:k_out', f'{c.k_out} != {wko}')
    vs = [('dense', {
        m: 1e6*np.exp(-2*np.add.outer(k_in[m], k_in[m]*(1 + .2*(m[0] != m[1])))
                      )*(1 + .1*m[0]) for m in zs})]
    if full['extrap'] in (0, 1, 2, 3):
        for m in zs:
            for i, j in itertools.product(range(n), repeat=2):
                if (i*n + j + zs.index(m) + how) % (2 if th else 9):
                    continue
                z = {p: np.zeros((n, n)) for p in zs}
                z[m][i, j] = 1.
                vs.append((f'{m}:{i}:{j}', z))
    for nm, p in vs:
        arg = {kf(m, how + 2): p[m].copy() for m in zs[::-1]}
        b4 = snap(arg)[0]
        pl = p
        if lin:
            pl = {m: spl2(k_in[m], p[m], sp[1], kl[m]) for m in zs}
        zeta = {}
        for m in zs:
            ya, yb, g = tr2(m[:2], kl[m], pl[m], -1, full)
            zeta[m] = g if np.allclose(ya, yb, rtol=1e-13, atol=0) else \
                spl2(ya, g.real, sp[0], r[m], yb, r[m])
        for ic in ((None, 0., 2e-5) if nm == 'dense' else (None,)):
            e = model_ic(rq, q, r, zeta, r, sp[0]) \
                if ic is None and has_ic else ic
            zc = model_conv(form, rq, q, r, zeta, ro, sp[0], e, dim=2)
            want = {}
            for m in form:
                ka, kb, b = tr2(m[:2], ro[m], zc[m], 1, full)
                want[m] = spl2(ka, b.real, sp[1], c.k_out, kb, c.k_out) \
                    + 1j*spl2(ka, b.imag, sp[1], c.k_out, kb, c.k_out)
            if full['extrap'] == 4 and mixed(
                    [pl[m] for m in zs] + [zc[m] for m in form]):
                rec.outcome('mixed')
                continue
            got = c.convolve(arg, ic=ic) if ic is not None \
                else c.convolve(arg)
            rec.step(2)
            rec.valid()
            rec.state((key, nm, ic))
            g2, gz = c.convolve(arg, ic=ic, ret_zeta=True)
            msg = cmp_poles(gz, zc, 1e-6) or cmp_poles(got, want, 1e-5) \
                or cmp_poles(g2, want, 1e-5)
            if msg:
                rec.fail(f'{key}:{nm}:{ic}', msg)
            rec.outcome(b''.join(np.round(v, 3).tobytes()
                                 for v in got.values()))
        if not same(arg, b4):
            rec.fail(f'{key}:{nm}:in', 'input changed')


# -- convolution matrices ---------------------------------------------------
def small_conv(name, comm=None, root=0, threaded=False, nko=None):
    form = THREE[name]
    qs, zs = qkeys(form), zkeys(form)
    rq = np.geomspace(.05, 900., 5)
    q = {m: np.exp(-np.add.outer(rq, rq)/90.)*(1 + .2*m[0]) for m in qs}
    k = {m: np.geomspace(.02, .4, 2 + (i == 1)) for i, m in enumerate(zs)}
    kw = {'extrap': 0}
    if threaded:
        kw['threaded'] = True
    ko = None if nko is None else np.linspace(.05, .3, nko)
    return W.BispecWinConv(
        spec(form, 0), rq, q, k, k_out=ko,
        r_common=np.geomspace(6., 40., 3), transform_kwargs=kw, spline=1,
        comm=comm, comm_root=root), zs, k


REF = {}


def reference(name, ic, nko):
    """Columns: convolution of each unit sample of each multipole."""
    if (name, ic, nko) in REF:
        return REF[name, ic, nko]
    c, zs, k = small_conv(name, nko=nko)
    cols = {m: [] for m in THREE[name]}
    for m in sorted(zs, key=order_key):
        n = len(k[m])
        for i, j in itertools.product(range(n), repeat=2):
            z = {p: np.zeros((len(k[p]),)*2) for p in zs}
            z[m][i, j] = 1.
            out = c.convolve(z) if ic else c.convolve(z, ic=0.)
            for p in cols:
                cols[p].append(out[W.Multipole(p)].ravel())
    REF[name, ic, nko] = {m: np.array(v).T for m, v in cols.items()}
    return REF[name, ic, nko]


def check_mat(key, got, name, ic, concat, diag, nko, rec):
    want = reference(name, ic, nko)
    nk = int(round(len(next(iter(want.values())))**.5))
    if diag:
        want = {m: v[[i*nk + i for i in range(nk)]] for m, v in want.items()}
    big = max(np.abs(v).max() for v in want.values())
    if concat:
        w = np.vstack([want[m] for m in sorted(want, key=order_key)])
        if not isinstance(got, np.ndarray) or got.shape != w.shape:
            rec.fail(key, f'{type(got)} {np.shape(got)} != {w.shape}')
        elif not (np.abs(got - w) <= 1e-12*big).all():
            rec.fail(key, f'{got} != {w}')
        return
    if not isinstance(got, dict):
        rec.fail(key, f'{type(got)}')
        return
    msg = cmp_poles(got, want, 1e-12)
    if msg:
        rec.fail(key, msg)


def serial_case(key, payload, rec):
    name, ic, concat, diag, nko = payload
    c, zs, k = small_conv(name, nko=nko)
    for rep in range(2):
        kw = {}
        if ic or rep:
            kw['ic'] = ic
        if concat or rep:
            kw['concat'] = concat
        if diag or rep:
            kw['diag'] = diag
        got = c.gen_winconv_mat(**kw)
        rec.step()
        rec.valid()
        rec.state((key, rep))
        check_mat(f'{key}:{rep}', got, name, ic, concat, diag, nko, rec)
    # and convolution itself is left as it was
    form = THREE[name]
    z = {m: 1 + np.arange(len(k[m])**2.).reshape((len(k[m]),)*2)
         for m in zs}
    o = c.convolve(z, ic=0.)
    ref = reference(name, False, nko)
    v = np.concatenate([z[m].ravel() for m in sorted(zs, key=order_key)])
    msg = cmp_poles({m: x.ravel() for m, x in o.items()},
                    {m: ref[m] @ v for m in form}, 1e-9)
    if msg:
        rec.fail(f'{key}:after', msg)


class Stop(BaseException):
    pass


class World:
    """Processes of a communicator, run one at a time.

    Control passes only at communication: a process that must wait gives way,
    and one that need not is a scheduling choice, so that every order of the
    communication calls is a path of choices.
    """

    def __init__(self, size, choices):
        self.size = size
        self.choices = list(choices)
        self.taken = []          # (choice, number of options)
        self.cv = threading.Condition()
        self.turn = None
        self.ready = {r: (lambda: True) for r in range(size)}
        self.done = set()
        self.error = None
        self.slots = {}
        self.count = [0]*size

    def pick(self, cur):
        opts = [r for r in self.ready if r not in self.done
                and self.ready[r]()]
        if not opts:
            if len(self.done) < self.size and self.error is None:
                self.error = 'deadlock'
            self.turn = None
        else:
            # the current process first: few choices means few switches
            opts.sort(key=lambda r: (r != cur, r))
            i = len(self.taken)
            c = self.choices[i] if i < len(self.choices) else 0
            if c >= len(opts):
                c = 0
            self.taken.append((c, len(opts)))
            self.turn = opts[c]
        self.cv.notify_all()

    def wait(self, rank, cond):
        with self.cv:
            self.ready[rank] = cond
            self.pick(rank)
            while self.turn != rank:
                if self.error:
                    raise Stop()
                self.cv.wait(20)
            if self.error:
                raise Stop()

    def run(self, func):
        out = [None]*self.size

        def body(r):
            try:
                with self.cv:
                    while self.turn != r:
                        if self.error:
                            return
                        self.cv.wait(20)
                out[r] = func(r)
            except Stop:
                pass
            except BaseException as e:
                self.error = self.error or f'rank {r}: {e!r}'
            finally:
                with self.cv:
                    self.done.add(r)
                    self.pick(r)
        ts = [threading.Thread(target=body, args=(r,), daemon=True)
              for r in range(self.size)]
        for t in ts:
            t.start()
        with self.cv:
            self.pick(None)
        for t in ts:
            t.join(60)
        return out


class Comm:
    """Stand-in for a communicator, with the matching rules of MPI."""

    def __init__(self, world, rank):
        self.world, self.rank, self.size = world, rank, world.size

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def _slot(self, kind, root):
        w = self.world
        i = w.count[self.rank]
        w.count[self.rank] += 1
        s = w.slots.setdefault(i, {'kind': (kind, root), 'in': {}})
        if s['kind'] != (kind, root):
            raise RuntimeError(f'mismatched calls {s["kind"]} and '
                               f'{(kind, root)}')
        return s

    def _enter(self, kind, root, val, need_all):
        s = self._slot(kind, root)
        s['in'][self.rank] = val
        n = self.size
        self.world.wait(self.rank, (lambda: len(s['in']) == n) if need_all
                        else (lambda: root is None or root in s['in']))
        return s['in']

    def Barrier(self):
        self._enter('barrier', None, None, True)

    barrier = Barrier

    def bcast(self, obj=None, root=0):
        d = self._enter('bcast', root, obj, False)
        return d[root]

    def gather(self, obj, root=0):
        s = self._slot('gather', root)
        s['in'][self.rank] = obj
        n = self.size
        if self.rank != root:
            self.world.wait(self.rank, lambda: True)
            return None
        self.world.wait(self.rank, lambda: len(s['in']) == n)
        return [s['in'][r] for r in range(n)]

    def allgather(self, obj):
        d = self._enter('allgather', None, obj, True)
        return [d[r] for r in range(self.size)]

    def allreduce(self, obj, op=None):
        d = self._enter('allreduce', None, obj, True)
        if op is not None:
            raise NotImplementedError
        return sum(d[r] for r in range(self.size))

    def scatter(self, obj=None, root=0):
        return self.bcast(obj, root)[self.rank]

    def Bcast(self, buf, root=0):
        d = self._enter('Bcast', root, buf, False)
        if self.rank != root:
            if d[root].dtype != buf.dtype or d[root].size != buf.size:
                raise RuntimeError('mismatched buffers')
            buf[...] = d[root].reshape(buf.shape)

    def Gatherv(self, sendbuf, recvbuf, root=0):
        b = np.asarray(sendbuf[0] if isinstance(sendbuf, (tuple, list))
                       else sendbuf)
        if not b.flags.c_contiguous:
            raise RuntimeError('buffer not contiguous')
        s = self._slot('Gatherv', root)
        s['in'][self.rank] = b.copy()
        n = self.size
        if self.rank != root:
            self.world.wait(self.rank, lambda: True)
            return
        buf, desc = recvbuf[0], recvbuf[1]
        self.world.wait(self.rank, lambda: len(s['in']) == n)
        if isinstance(desc[0], (list, tuple, np.ndarray)):
            cnt, off = desc[0], desc[1]
        else:
            cnt = desc
            off = [sum(cnt[:r]) for r in range(n)]
        if off is None:
            off = [sum(cnt[:r]) for r in range(n)]
        flat = buf.reshape(-1)
        for r in range(n):
            x = s['in'][r].ravel()
            if x.dtype.itemsize*x.size > buf.dtype.itemsize*cnt[r]:
                raise RuntimeError('message truncated')
            if x.dtype != buf.dtype and x.size:
                raise RuntimeError(f'types differ: {x.dtype} {buf.dtype}')
            if off[r] + x.size > flat.size:
                raise RuntimeError('buffer overrun')
            flat[off[r]:off[r] + x.size] = x


def mpi_run(name, size, root, ic, concat, diag, threaded, bar, choices, nko,
            env):
    w = World(size, choices)
    saved = os.environ.get('OMP_NUM_THREADS')
    if env is None:
        os.environ.pop('OMP_NUM_THREADS', None)
    else:
        os.environ['OMP_NUM_THREADS'] = env
    old = random.randint
    random.randint = lambda a, b: a + (bar % (b - a + 1))
    try:
        convs = [small_conv(name, comm=Comm(w, r), root=root,
                            threaded=threaded, nko=nko)[0]
                 for r in range(size)]
        out = w.run(lambda r: convs[r].gen_winconv_mat(
            ic=ic, concat=concat, diag=diag))
        after = os.environ.get('OMP_NUM_THREADS')
    finally:
        random.randint = old
        if saved is None:
            os.environ.pop('OMP_NUM_THREADS', None)
        else:
            os.environ['OMP_NUM_THREADS'] = saved
    return w, out, after


def mpi_check(key, w, out, after, env, name, root, ic, concat, diag, nko,
              rec):
    rec.step(len(w.taken))
    rec.valid()
    rec.state((key, tuple(c for c, _ in w.taken)))
    if w.error:
        rec.fail(key, w.error)
        return
    if any(o is not None for r, o in enumerate(out) if r != root):
        rec.fail(f'{key}:nonroot', 'matrices on other processes')
    check_mat(key, out[root], name, ic, concat, diag, nko, rec)
    if after != env:
        rec.fail(f'{key}:env', f'OMP_NUM_THREADS={after}, was {env}')


def mpi_case(key, payload, rec):
    """All numbers of processes, roots and forms; the order by priority."""
    name, size, root, ic, concat, diag = payload
    i = 0
    for bar in sorted({0, size - 1, size//2}):
        for env, threaded in ((None, False), ('3', True), (None, True)):
            i += 1
            ch = [[], [size - 1 - bar]*40, [(i + j) % 3 for j in range(40)]]
            k = f'{key}:{bar}:{env}:{threaded}'
            w, out, after = mpi_run(name, size, root, ic, concat, diag,
                                    threaded, bar, ch[i % 3], 3, env)
            mpi_check(k, w, out, after, env, name, root, ic, concat, diag,
                      3, rec)


def sched_case(key, payload, rec):
    """Every order of the communication calls (bounded switches)."""
    name, size, root, bar, bound, part, nparts = payload
    todo = [[]]
    seen = 0
    while todo:
        pre = todo.pop()
        w, out, after = mpi_run(name, size, root, True, False, False, False,
                                bar, pre, 3, None)
        seen += 1
        if (seen - 1) % 1 == 0:
            mpi_check(f'{key}:{pre}', w, out, after, None, name, root, True,
                      False, False, 3, rec)
        cs = [c for c, _ in w.taken]
        for i in range(len(pre), len(cs)):
            if sum(c > 0 for c in cs[:i]) >= bound:
                break
            for c in range(1, w.taken[i][1]):
                if not pre and (i + c) % nparts != part:
                    continue
                todo.append(cs[:i] + [c])


def real_mpi_case(key, payload, rec):
    from mpi4py import MPI
    for ic, concat, diag in itertools.product((False, True), repeat=3):
        c, _, _ = small_conv('four', comm=MPI.COMM_SELF, nko=3)
        got = c.gen_winconv_mat(ic=ic, concat=concat, diag=diag)
        rec.step()
        rec.valid()
        rec.state((key, ic, concat, diag))
        check_mat(f'{key}:{ic}:{concat}:{diag}', got, 'four', ic, concat,
                  diag, 3, rec)


def main():
    ch = core.Check('P20')
    build.use_python_package()
    th = ch.tier == 'thorough'
    P = itertools.product
    cases = [(n, h, c, o, k) for n in list(TWO) + ['wilson+16']
             for h, c, o, k in P(range(4), range(3), range(4),
                                 (1, 2, 3, 5))]
    if not th:
        cases = [c for i, c in enumerate(cases)
                 if (i + i//4 + i//16 + i//64) % 3 == 0]
    ch.run_cases('two-point correlation function', [
        ('two:%s:%d:%d:%d:%d' % c, c) for c in cases], two_case, setup=setup)
    cases = [(n, h, c, o, k, th) for n in list(THREE) + ['sugiyama+19']
             for h, c, o, k in P(range(4), range(3), range(3), (1, 3, 2))]
    if not th:
        cases = [c for i, c in enumerate(cases)
                 if (i + i//3 + i//9 + i//27) % 4 == 0]
    ch.run_cases('three-point correlation function', [
        ('three:%s:%d:%d:%d:%d' % c[:5], c) for c in cases], three_case,
        setup=setup, timeout=850)
    ch.run_cases('integral constraint', [
        ('ic:%d:%d:%d:%d:%d' % c, c) for c in P(
            (6, 7), (6, 7), (0, 1), (1, 2, 3) if th else (1, 3),
            range(0, 128, 1 if th else 9))], ic_case, setup=setup)
    ch.run_cases('vanishing integral', [
        ('iczero:%d:%d:%s' % c, c) for c in P(
            range(5, 9), (1, 2, 3), ('odd', 'even'))], ic_zero_case,
        setup=setup)
    ch.run_cases('rejected integral constraints', [('icbad', None)],
                 ic_bad_case, setup=setup)
    f = (.8, 1., 1.25)
    ch.run_cases('sample points', [
        (f'sampts:{c}', c) for c in P(f, f, f, f)], sampts_case, setup=setup)
    ch.run_cases('rejected inputs', [('missing', None)], missing_case,
                 setup=setup)
    cases = [(n, h, w, r, k, s) for n in list(TWO) + ['wilson+16']
             for w, r, k, s in P(range(len(KW)), (0, 1), (0, 1),
                                 (3, 1, (1, 2), (3, 1)))
             for h in (range(4) if th else [(w + r + 2*k) % 4])]
    if not th:
        cases = [c for i, c in enumerate(cases) if (i + i//4) % 2 == 0]
    ch.run_cases('power spectrum', [
        ('pow:%s:%d:%d:%d:%d:%s' % c, c) for c in cases], pow_case,
        setup=setup, timeout=850)
    cases = [(n, h, w, r, k, s, th) for n in list(THREE) + ['sugiyama+19']
             for w, r, k, s in P(range(len(KW2)), (0, 1, 2), (0, 1),
                                 (3, (1, 3), (3, 1)))
             for h in (range(4) if th else [(w + r + 2*k) % 4])]
    if not th:
        cases = [c for i, c in enumerate(cases) if (i + i//3 + i//6) % 3 == 0]
    ch.run_cases('bispectrum', [
        ('bi:%s:%d:%d:%d:%d:%s' % c[:6], c) for c in cases], bi_case,
        setup=setup, timeout=850)
    B = (False, True)
    ch.run_cases('matrices', [
        ('mat:%s:%d:%d:%d:%s' % c, c)
        for c in P(THREE, B, B, B, (None, 2, 4))], serial_case, setup=setup)
    ch.run_cases('matrices by many processes', [
        ('mpi:%s:%d:%d:%d:%d:%d' % c, c)
        for n in THREE for s in range(1, 7 if not th else 13)
        for r in range(s)
        for c in [(n, s, r, i, j, d) for i, j, d in P(B, B, B)
                  if th or (i + 2*j + 4*d) % 8 in ((s + r) % 8,
                                                   (s + r + 3) % 8)]],
        mpi_case, setup=setup, timeout=850)
    sc = [('mono', 2, r, b, 99, p, 4) for r in (0, 1) for b in (0, 1)
          for p in range(4)] + [('mono', 3, r, r, 4 if th else 2, p, 4)
                                for r in range(3) for p in range(4)]
    ch.run_cases('schedules', [
        ('sched:%s:%d:%d:%d:%d:%d:%d' % c, c) for c in sc], sched_case,
        setup=setup, timeout=850)
    ch.run_cases('real communicator', [('real', None)], real_mpi_case,
                 setup=setup)
    return ch.finish(
        rule='all unit samples of all input multipoles over formulae x forms '
        'of input x sample points x splines x transform options, and all '
        'orders of communication of up to three processes within bounds')
