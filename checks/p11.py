"""P11: couplings, harmonics, Bessel and gamma functions on full lattices.

Every degree and order up to a bound, and every argument of a lattice (signs,
axes, poles, scales, knots of the interpolation and points between them, both
sides of every switch of method) is evaluated by the library and by a model
of the definition: exact rational arithmetic for couplings, recurrences and
SciPy for the rest.
"""
import ctypes as C
import itertools
import math

import numpy as np
from scipy import special

from vt import core, lib, ref

D = C.c_double


def w3j_case(key, payload, rec):
    j1, top = payload
    L = lib.L()
    for j2, j3 in itertools.product(range(top + 1), repeat=2):
        rec.valid()
        rec.state((key, j1, j2, j3))
        for m1, m2 in itertools.product(range(-j1, j1 + 1),
                                        range(-j2, j2 + 1)):
            # the third order is a free choice as well
            for m3 in range(-j3, j3 + 1) if top < 5 else \
                    {-m1 - m2, m1 + m2, 0, j3, -j3}:
                rec.step()
                got = L.vt_w3j(j1, j2, j3, m1, m2, m3)
                want = ref.w3j(j1, j2, j3, m1, m2, m3)
                if not abs(got - want) <= 1e-12:
                    rec.fail(f'{key}:{j2}:{j3}', f'{j1, j2, j3, m1, m2, m3}: '
                             f'{got} instead of {want}')
                    return


def coupling_case(key, payload, rec):
    l1, top = payload
    L = lib.L()
    for l2, ll in itertools.product(range(top + 1), repeat=2):
        rec.valid()
        rec.state((key, l1, l2, ll))
        for m1, m2, M in itertools.product(
                range(-l1, l1 + 1), range(-l2, l2 + 1), range(-ll, ll + 1)):
            rec.step()
            got = L.vt_coupling3(l1, l2, ll, m1, m2, M)
            want = ref.coupling3(l1, l2, ll, m1, m2, M)
            if not abs(got - want) <= 1e-11*max(1, abs(want)):
                rec.fail(f'{key}:{l2}:{ll}:{m1}:{m2}:{M}',
                         f'{got} instead of {want}')
                return
            if l2:
                continue
            got = L.vt_coupling2(l1, ll, m1, M)
            want = (2*l1 + 1)*(2*ll + 1)*ref.w3j(l1, 0, ll, 0, 0, 0) \
                * ref.w3j(l1, 0, ll, m1, 0, M)
            if not abs(got - want) <= 1e-11*max(1, abs(want)):
                rec.fail(f'{key}:two:{ll}:{m1}:{M}',
                         f'{got} instead of {want}')
                return
        p = lib.mkparams((1., 1., 1.), (2, 2, 2), ell1=l1, ell2=l2, ELL=ll,
                         statistic_type='bispec', catalogue_type='sim')
        ok = True
        try:
            lib.ok(L.vt_validate_coupling(p.p))
        except lib.LibError:
            ok = False
        p.close()
        want = ref.w3j(l1, l2, ll, 0, 0, 0) != 0
        rec.step()
        rec.outcome(ok)
        if ok != want:
            rec.fail(f'{key}:{l2}:{ll}:valid', f'degrees {l1, l2, ll} are '
                     f'{"accepted" if ok else "refused"}')


def ylm_case(key, payload, rec):
    ell, scale = payload
    tiny = 1e-5
    ax = (-1., -.5, -tiny, 0., tiny, .25, 1.)
    for v in itertools.product(ax, repeat=3):
        x = np.array(v)*scale
        rec.state((key, v))
        got = [lib.ylm_point(ell, m, x) for m in range(-ell, ell + 1)]
        rec.valid()
        rec.step(2*ell + 1)
        for m in range(-ell, ell + 1):
            want = complex(ref.ylm(ell, m, x[:, None])[0])
            if not abs(got[m + ell] - want) <= 1e-9:
                rec.fail(f'{key}:{m}:{v}', f'{got[m + ell]} instead of '
                         f'{want}')
                return
        # reduced harmonics add up to one in every direction
        if any(v) and not abs(sum(abs(np.array(got))**2) - 1) < 1e-9:
            rec.fail(f'{key}:sum:{v}', f'{got}')
            return


def bessel_case(key, payload, rec):
    ell, per = payload
    L = lib.L()
    # the interpolation has knots every .05 up to 1000 or ell^2
    end = max(1000., ell*ell)
    xs = np.concatenate([
        np.arange(0., end + 3., .05/per),
        np.nextafter(end, [0., 2*end]), np.geomspace(end, 2e4, 300),
        10.**np.arange(-12, 0)])
    out = np.empty(len(xs))
    lib.ok(L.vt_sj(ell, len(xs), xs.ctypes.data_as(lib.dp),
                   out.ctypes.data_as(lib.dp)))
    want = special.spherical_jn(ell, xs)
    rec.valid(len(xs))
    rec.step(len(xs))
    rec.nstates += len(xs)
    # natural ends bend the first intervals
    tol = np.where(xs < .5, 1e-4, np.where(abs(xs - end) < .5, 3e-7, 3e-8))
    bad = ~(np.abs(out - want) <= tol)
    if bad.any():
        i = int(np.argmax(bad))
        rec.fail(key, f'j_{ell}({xs[i]}) is {out[i]}, not {want[i]} '
                 f'({bad.sum()} differ)')
        return
    # an object and its copy give the same in any order of arguments
    a = L.vt_sj_new(ell)
    b = L.vt_sj_copy(a)
    sub = np.concatenate([np.arange(len(xs) - 1, 0, -997),
                          np.arange(0, len(xs), 1409)])
    for k, i in enumerate(sub):
        for h in (a, b) if k % 2 else (b, a):
            rec.step()
            got = L.vt_sj_eval(h, D(xs[i]))
            if not abs(got - out[i]) <= 1e-14:
                rec.fail(f'{key}:object', f'{"copy" if h == b else "object"} '
                         f'at {xs[i]}: {got} not {out[i]}')
                return
    L.vt_sj_del(a)
    for i in sub[::7]:
        if not abs(L.vt_sj_eval(b, D(xs[i])) - out[i]) <= 1e-14:
            rec.fail(f'{key}:copy', 'the copy does not outlive the object')
            return
    L.vt_sj_del(b)


RE = (-7.5, -3.3, -1.25, -.5, -.1, 0., .1, .4999, .5, .5001, 1., 1.5, 2., 3.7,
      8., 20.5)
IM = (0., 1e-9, .1, .5, 1., 2.5, 7., 15.)


def gamma_case(key, payload, rec):
    L = lib.L()
    out = np.empty(2)
    for re, im, sg in itertools.product(RE, IM, (1, -1)):
        y = sg*im
        if y == 0 and (re <= 0 and re == int(re)):
            continue
        z = complex(re, y)
        rec.valid()
        rec.state((re, y))
        rec.step(2)
        L.vt_gamma(D(re), D(y), out.ctypes.data_as(lib.dp))
        want = complex(special.gamma(z))
        got = complex(*out)
        if not abs(got - want) <= 1e-11*abs(want):
            rec.fail(f'gamma:{z}', f'{got} instead of {want}')
        L.vt_lngamma_parts(D(re), D(y), out.ctypes.data_as(lib.dp))
        want = complex(special.loggamma(z))
        if not (abs(out[0] - want.real) <= 1e-9*max(1, abs(want.real))
                and abs(np.exp(1j*out[1]) - np.exp(1j*want.imag)) <= 1e-8):
            rec.fail(f'lngamma:{z}', f'{out} instead of {want}')


def ratio_case(key, payload, rec):
    mu, = payload
    L = lib.L()
    out = np.empty(2)
    ims = sorted({*np.arange(0., 30., .7), *np.arange(30., 400., 9.5),
                  99.9, 99.999, 100., 100.001, 101., 1e3, 3e3})
    for q, im, sg in itertools.product((-1.25, -.5, 0., .3, 1.), ims,
                                       (1, -1)):
        nu = complex(q, sg*im)
        xp, xm = (mu + 1 + nu)/2, (mu + 1 - nu)/2
        if any(x.imag == 0 and x.real <= 0 and x.real == int(x.real)
               for x in (xp, xm)):
            continue
        rec.valid()
        rec.step()
        rec.state((mu, nu))
        L.vt_gamma_lnratio(D(mu), D(nu.real), D(nu.imag),
                           out.ctypes.data_as(lib.dp))
        want = complex(special.loggamma(xp) - special.loggamma(xm))
        # digits lost to the size of the terms
        tol = 3e-12*max(1, abs(xp)*abs(np.log(abs(xp) + 1)))
        if not (abs(out[0] - want.real) <= tol and
                abs(np.exp(1j*out[1]) - np.exp(1j*want.imag)) <= tol):
            rec.fail(f'{key}:{nu}', f'{out} instead of {want}')
            return


def main():
    ch = core.Check('P11')
    th = ch.tier == 'thorough'
    lib.prepare()
    top = 14 if th else 8
    ch.run_cases('Wigner symbols, every order', [
        (f'w3j:4:{j}', (j, 4)) for j in range(5)], w3j_case, setup=lib.L)
    ch.run_cases('Wigner symbols', [
        (f'w3j:{top}:{j}', (j, top)) for j in range(top + 1)], w3j_case,
        setup=lib.L, timeout=800)
    top = 7 if th else 5
    ch.run_cases('couplings', [
        (f'coupling:{j}', (j, top)) for j in range(top + 1)], coupling_case,
        setup=lib.L, timeout=800)
    ch.run_cases('harmonics', [
        (f'ylm:{e}:{s:g}', (e, s)) for e in range(13 if th else 9)
        for s in (1., 1e-3, 7e3)], ylm_case, setup=lib.L, timeout=800)
    ch.run_cases('spherical Bessel functions', [
        (f'bessel:{e}', (e, 8 if th else 4))
        for e in range(41 if th else 13)] + [
        (f'bessel:{e}', (e, 4)) for e in (31, 32, 35)], bessel_case,
        setup=lib.L, timeout=800)
    ch.run_cases('gamma functions', [('gamma', None)], gamma_case,
                 setup=lib.L)
    ch.run_cases('gamma ratios', [
        (f'ratio:{mu}', (mu,)) for mu in (
            -.5, 0., .5, 1., 1.5, 2.5, 3., 4.5, 6.5, 10.5)], ratio_case,
        setup=lib.L)
    return ch.finish(
        rule='every degree and order up to the bound and every argument of '
             'the lattices; a state is one set of degrees or one argument')


if __name__ == '__main__':
    main()
