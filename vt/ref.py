"""Reference model: direct numpy evaluation of the documented definitions.

Deliberately boring: plain discrete Fourier transforms, explicit sums over
particles and modes, no caching, no in-place updates.
"""
import math
from fractions import Fraction
from functools import lru_cache

import numpy as np
from scipy import special

ORDER = dict(ngp=1, cic=2, tsc=3, pcs=4)


# -- meshes ---------------------------------------------------------------
def bspline(order, d):
    """Centred B-spline of given order at (signed) distance d [cells]."""
    x = np.abs(d)
    if order == 1:
        return np.where((d > -.5) & (d <= .5), 1., 0.)
    if order == 2:
        return np.maximum(1. - x, 0.)
    if order == 3:
        return np.where(x < .5, .75 - x*x,
                        np.where(x < 1.5, .5*(1.5 - x)**2, 0.))
    return np.where(x < 1, (4. - 6.*x*x + 3.*x**3)/6.,
                    np.where(x < 2, (2. - x)**3/6., 0.))


def weights_1d(loc, n, order):
    """Weights of one particle at grid location `loc` on n periodic cells."""
    w = np.zeros(n)
    base = math.floor(loc)
    for i in range(base - 4, base + 6):
        # distance grid point minus particle; NGP: half-way goes to the next
        w[i % n] += float(bspline(order, np.float64(i - loc)))
    return w


def assign(pos, wts, box, ngrid, scheme, shift=0.):
    order = ORDER[scheme]
    out = np.zeros(ngrid, dtype=complex)
    vc = np.prod(box) / np.prod(ngrid)
    for p, w in zip(pos, wts):
        ws = [weights_1d(ngrid[a]*p[a]/box[a] + shift, ngrid[a], order)
              for a in range(3)]
        out += w/vc * ws[0][:, None, None] * ws[1][None, :, None] \
            * ws[2][None, None, :]
    return out


def freq(n):
    """Signed integer frequencies, Nyquist negative."""
    i = np.arange(n)
    return np.where(2*i < n, i, i - n)


def modes(ngrid):
    return np.meshgrid(*[freq(n) for n in ngrid], indexing='ij')


def kvec(box, ngrid):
    m = modes(ngrid)
    return np.stack([2*np.pi/box[a]*m[a] for a in range(3)])


def rvec(box, ngrid):
    m = modes(ngrid)
    return np.stack([box[a]/ngrid[a]*m[a] for a in range(3)])


def norm3(v):
    return np.sqrt((v**2).sum(axis=0))


def window(ngrid, order):
    m = modes(ngrid)
    w = np.ones(ngrid)
    for a in range(3):
        w = w*np.sinc(m[a]/ngrid[a])**order
    return w


def fourier(f, box, fs=None):
    """Forward transform, with interlacing if a shadow mesh is given."""
    ng = f.shape
    vc = np.prod(box)/np.prod(ng)
    F = np.fft.fftn(f)*vc
    if fs is not None:
        m = modes(ng)
        ph = sum(m[a]/ng[a] for a in range(3))
        F = (F + np.exp(1j*np.pi*ph)*np.fft.fftn(fs)*vc)/2
    return F


def inv_fourier(F, box):
    return np.fft.ifftn(F)*F.size/np.prod(box)


# -- harmonics ------------------------------------------------------------
def ylm(ell, m, v):
    """Reduced harmonics y_lm = sqrt(4pi/(2l+1)) conj(Y_lm) on v[3,...].

    Zero vectors give zero unless ell = 0.
    """
    v = np.asarray(v, dtype=float)
    r = np.sqrt((v**2).sum(axis=0))
    out = np.zeros(r.shape, dtype=complex)
    if ell == 0:
        return out + 1.
    nz = r > 0
    rr = np.where(nz, r, 1.)
    mu = np.clip(v[2]/rr, -1, 1)
    phi = np.arctan2(v[1], v[0])
    am = abs(m)
    # lpmv includes the Condon-Shortley phase
    leg = special.lpmv(am, ell, mu)
    y = math.sqrt(math.factorial(ell-am)/math.factorial(ell+am))*leg \
        * np.exp(1j*am*phi)
    if m < 0:
        y = (-1)**am*np.conj(y)
    return np.where(nz, np.conj(y), 0.)


@lru_cache(None)
def w3j(l1, l2, l3, m1, m2, m3):
    """Wigner 3-j by the Racah formula in exact arithmetic."""
    if m1+m2+m3 or l3 < abs(l1-l2) or l3 > l1+l2 or abs(m1) > l1 \
            or abs(m2) > l2 or abs(m3) > l3:
        return 0.
    f = math.factorial
    tri = Fraction(f(l1+l2-l3)*f(l1-l2+l3)*f(-l1+l2+l3), f(l1+l2+l3+1))
    pre = tri*f(l1+m1)*f(l1-m1)*f(l2+m2)*f(l2-m2)*f(l3+m3)*f(l3-m3)
    s = Fraction(0)
    for t in range(0, l1+l2+l3+1):
        d = [t, l3-l2+t+m1, l3-l1+t-m2, l1+l2-l3-t, l1-t-m1, l2-t+m2]
        if min(d) < 0:
            continue
        q = 1
        for x in d:
            q *= f(x)
        s += Fraction((-1)**t, q)
    return float((-1)**((l1-l2-m3) % 2)*s)*math.sqrt(float(pre)) \
        if s else 0.


def coupling3(l1, l2, L, m1, m2, M):
    return (2*l1+1)*(2*l2+1)*(2*L+1)*w3j(l1, l2, L, 0, 0, 0) \
        * w3j(l1, l2, L, m1, m2, M)


def sjl(ell, x):
    return special.spherical_jn(ell, x)


# -- aliasing of shot noise ----------------------------------------------
def alias_plain(ngrid, scheme):
    """Sum over images of squared windows (per axis closed forms)."""
    m = modes(ngrid)
    out = np.ones(ngrid)
    for a in range(3):
        s2 = np.sin(np.pi*m[a]/ngrid[a])**2
        if scheme == 'ngp':
            c = np.ones(ngrid)
        elif scheme == 'cic':
            c = 1 - 2/3*s2
        elif scheme == 'tsc':
            c = 1 - s2 + 2/15*s2**2
        else:
            c = 1 - 4/3*s2 + 2/5*s2**2 - 4/315*s2**3
        out = out*c
    return out
