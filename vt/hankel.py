"""Model of the discrete log-periodic Hankel transform and of extrapolation.

On a log-periodic interval sampled at N points the functions
(x/x_0)^(i eta_m), eta_m = 2 pi m / (N dL), span all samples, and the biased
Hankel transform of each is known analytically,

    int_0^oo k dr (k r)^q J_mu(k r) (r/x_0)^(i eta)
        = 2^(q + i eta) Gamma((mu+1+q+i eta)/2) / Gamma((mu+1-q-i eta)/2)
          (k x_0)^(-i eta) ,

so the transform of any samples follows by expanding them in that basis (plain
O(N^2) sums, no FFT).
"""
import warnings

import numpy as np
from scipy.special import loggamma


def u_coeff(mu, q, eta):
    x = q + 1j*eta
    return np.exp(x*np.log(2.) + loggamma((mu + 1 + x)/2)
                  - loggamma((mu + 1 - x)/2))


def u_coeff0(mu, q, eta):
    """Same, through real-axis signs (negative arguments of Gamma)."""
    return u_coeff(mu, q, eta)


def nyquist_phase(mu, q, dl, pivot):
    """Phase (in units of pi) of the mid-point coefficient."""
    eta = np.pi/dl
    z = u_coeff(mu, q, eta)*np.exp(-1j*eta*np.log(pivot))
    return np.angle(z)/np.pi


def transform(mu, q, x, pivot, a):
    """Samples at y_j = pivot e^(-dL) / x_(N-1-j)."""
    x = np.asarray(x, float)
    a = np.asarray(a, complex)
    n = len(x)
    dl = np.log(x[-1]/x[0])/(n - 1)
    y = pivot*np.exp(-dl)/x[::-1]
    j = np.arange(n)
    b = np.zeros(n, complex)
    for m in range(-((n - 1)//2), n//2 + 1):
        eta = 2*np.pi*m/(n*dl)
        c = (a*np.exp(-2j*np.pi*m*j/n)).sum()/n
        u = u_coeff(mu, q, eta)
        if 2*m == n:
            # the two Nyquist components share the coefficient
            v = u*np.exp(-1j*eta*np.log(pivot))
            b += c*v.real*np.exp(1j*np.pi*j)
        else:
            b += c*u*np.exp(-1j*eta*np.log(y*x[0]))
    return y, b


def next_size(n, fac):
    k = 1
    while k < fac*n:
        k *= 2
    # the size may also have to shrink below one power of two
    return k


def extrap(kind, a, ne, pad=None):
    """1: zero, 2: constant, 3: linear, 4: log-linear extension by ne."""
    a = np.asarray(a)
    if kind == 0 or ne == 0:
        return a
    n = len(a)
    out = np.zeros(n + 2*ne, np.result_type(a, float))
    out[ne:ne + n] = a
    for i in range(1, ne + 1):
        if kind == 1:
            lo, hi = (0., 0.) if pad is None else pad
        elif kind == 2:
            lo, hi = a[0], a[-1]
        elif kind == 3:
            lo = a[0] - i*(a[1] - a[0])
            hi = a[-1] + i*(a[-1] - a[-2])
        elif kind == 4:
            lo = a[0]*(a[0]/a[1])**i
            hi = a[-1]*(a[-1]/a[-2])**i
        out[ne - i], out[ne + n - 1 + i] = lo, hi
    return out


def loglin_points(x, ne):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return extrap(4, x, ne)
