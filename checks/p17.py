"""P17: Hankel-like transforms equal their definition.

Exhaustive over orders x biases x sample sizes x pivots x low-ringing x
extrapolation options; the (linear) transform without extrapolation is decided
completely by its action on every basis vector.  Histories of operations on
several live transforms are explored to a depth.  Both the C++ classes and the
Python interface are driven.
"""
import itertools
import logging
import math
import sys
import warnings

import numpy as np

from vt import build, core, hankel as hk, lib

PKG = None
EPS = 1e-9
MUS = (-.5, 0., .5, 1., 1.5, 2.5, 4.5, 10.5)
QS = (0., .3, -.5, 1., -1., 2., -2.25)
NS = (2, 3, 4, 5, 6, 8, 9, 16)


def setup():
    sys.path.insert(0, str(PKG))
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    lib.L()


def close(a, b, tol=EPS):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    return np.abs(a - b).max() <= tol*max(np.abs(b).max(), 1e-300)


def pole(mu, q):
    for z in (mu + 1 + q, mu + 1 - q):
        if z <= 0 and z/2 == math.floor(z/2):
            return True
    return False


def vectors(n, th):
    """Basis (real and imaginary) and shape vectors."""
    out = []
    for i in range(n):
        e = np.zeros(n, complex)
        e[i] = 1.
        out.append((f'e{i}', e))
    out.append(('ie', 1j*np.eye(n)[n//2]))
    out.append(('c', np.full(n, 2.5 + 0j)))
    out.append(('g', (np.arange(n) - .3*n)*1.7 + 1j*np.cos(np.arange(n))))
    return out


def real_vectors(x):
    n = len(x)
    i = np.arange(n)
    return [('exp', np.exp(-x)*(1 + x)), ('pow', 3.*x**-.7),
            ('neg', -2*x**.4 - 1e-3), ('wave', 2.5 + np.cos(1.1*i)),
            ('lin', 1. + .25*i), ('one', np.eye(n)[n//2] + .5)]


# -- one transform object, seen from C++ or Python ------------------------
class Cpp:
    def __init__(self, mu, q, x, kr, low, ext, exp_, threaded, typ=0):
        L = lib.L()
        self.typ = typ
        self.h = L.vt_fl_new(typ, lib.C.c_double(mu), lib.C.c_double(q),
                             int(threaded))
        if not self.h:
            raise lib.LibError(L.vt_err().decode())
        x = lib.D(x)
        try:
            lib.ok(L.vt_fl_init(typ, lib.V(self.h), lib.pD(x), len(x),
                                lib.C.c_double(kr), int(low), ext,
                                lib.C.c_double(exp_)))
        except lib.LibError:
            self.close()
            raise
        o = np.zeros(8)
        L.vt_fl_info(lib.V(self.h), lib.pD(o))
        self.n, self.nt, self.logres, self.pivot = \
            int(o[2]), int(o[3]), o[4], o[5]
        self.pre, self.post = np.zeros(int(o[6])), np.zeros(int(o[7]))
        L.vt_fl_pts(lib.V(self.h), 0, lib.pD(self.pre))
        L.vt_fl_pts(lib.V(self.h), 1, lib.pD(self.post))

    def transform(self, a):
        a = np.ascontiguousarray(a, complex)
        b = np.zeros(len(a), complex)
        lib.ok(lib.L().vt_fl_biased(
            self.typ, lib.V(self.h), a.view(float).ctypes.data_as(lib.dp),
            b.view(float).ctypes.data_as(lib.dp), len(a)))
        return self.post, b

    def cosmo(self, d, a):
        a = np.ascontiguousarray(a, complex)
        b = np.zeros(len(a), complex)
        lib.ok(lib.L().vt_fl_cosmo(
            lib.V(self.h), d, a.view(float).ctypes.data_as(lib.dp),
            b.view(float).ctypes.data_as(lib.dp), len(a)))
        return self.post, b

    def close(self):
        if self.h:
            lib.L().vt_fl_del(self.typ, lib.V(self.h))
        self.h = None


class Py:
    def __init__(self, mu, q, x, kr, low, ext, exp_, threaded):
        from triumvirate._fftlog import HankelTransform
        self.t = HankelTransform(mu, q, x, kr, lowring=low, extrap=ext,
                                 extrap_exp=exp_, threaded=threaded)
        self.n, self.nt = self.t._nsamp, self.t.size
        self.logres, self.pivot = self.t._logres, self.t.pivot
        self.pre = np.asarray(self.t._pre_sampts)
        self.post = np.asarray(self.t._post_sampts)
        assert self.t.order == mu and self.t.bias == q

    def transform(self, a):
        return self.t.transform(a)

    def close(self):
        pass


def points(n, r=1.7, x0=.03):
    return x0*r**np.arange(n)


def check_pivot(mu, q, x, kr, low, pivot):
    dl = math.log(x[-1]/x[0])/(len(x) - 1)
    if not low:
        return None if pivot == kr else f'pivot {pivot} is not {kr}'
    if not pivot > 0:
        return f'pivot {pivot}'
    if kr > 0 and abs(math.log(pivot/kr)) > dl/2*(1 + 1e-9):
        return f'pivot {pivot} too far from {kr}'
    ph = hk.nyquist_phase(mu, q, dl, pivot)
    if abs(ph - round(ph)) > 1e-8*max(1., abs(math.log(pivot))*math.pi/dl):
        return f'low-ringing phase {ph} of pivot {pivot}'
    return None


def basis_case(key, payload, rec):
    """Every basis vector through one configuration, without extrapolation."""
    mu, q, th = payload
    if pole(mu, q):
        for cls in (Cpp, Py):
            try:
                h = cls(mu, q, points(4), 1., True, 0, 2., False)
            except (Exception,) as e:
                rec.outcome(type(e).__name__)
            else:
                h.close()
                rec.fail(f'{key}:{cls.__name__}:pole', 'a Gamma-function '
                         'pole was accepted')
            rec.step()
            rec.valid()
        return
    if any(z <= 0 and z == math.floor(z) for z in (mu + 1 + q, mu + 1 - q)):
        return
    # wide and dense samples reach the asymptotic kernel
    sizes = [(n, r) for n in NS + ((32, 33, 64) if th else ())
             for r in (1.05, 1.7, 5.)]
    if th == 'large':
        sizes = [(31, 1.01), (64, 1.02), (128, 1.04), (301, 1.015)]
    for n, r in sizes:
        x = points(n, r)
        for low, kr in ((True, 1.), (True, .2), (True, 0.),
                        (False, 1.), (False, 7.3), (True, 31.)):
            for cls in (Cpp, Py):
                k = f'{key}:{n}:{r}:{int(low)}:{kr}:{cls.__name__}'
                h = cls(mu, q, x, kr, low, 0, 2., n % 2 == 0)
                rec.step()
                rec.state(k)
                msg = check_pivot(mu, q, x, kr, low, h.pivot)
                if msg:
                    rec.fail(f'{k}:pivot', msg)
                if (h.n, h.nt) != (n, n):
                    rec.fail(f'{k}:size', f'{h.n} {h.nt}')
                if not (np.array_equal(h.pre, x)):
                    rec.fail(f'{k}:pre', 'pre-transform points changed')
                for name, v in vectors(n, th):
                    if th == 'large' and name[0] == 'e' and name not in (
                            'e0', f'e{n//2}', f'e{n - 1}'):
                        continue
                    a = v.copy()
                    y, b = h.transform(a)
                    yy, bb = hk.transform(mu, q, x, h.pivot, v)
                    rec.step()
                    rec.valid()
                    if not close(y, yy):
                        rec.fail(f'{k}:{name}:pts', f'{y} != {yy}')
                    if not close(b, bb, 1e-8):
                        rec.fail(f'{k}:{name}', f'{b} != {bb}')
                    if not np.array_equal(a, v):
                        rec.fail(f'{k}:{name}:in', 'input changed')
                    rec.outcome(np.round(b, 3).tobytes())
                h.close()


def ext_case(key, payload, rec):
    """Native extrapolation: extend, transform, trim."""
    mu, q = payload
    for n, fac, ext in itertools.product((2, 4, 6, 10), (1., 1.5, 2., 4.7),
                                         (1, 2, 3, 4)):
        x = points(n, 1.4, .2)
        for cls in (Cpp, Py):
            k = f'{key}:{n}:{fac}:{ext}:{cls.__name__}'
            h = cls(mu, q, x, 1., True, ext, fac, False)
            nt = hk.next_size(n, fac)
            ne = (nt - n)//2
            if (h.n, h.nt) != (n, nt):
                rec.fail(f'{k}:size', f'{h.n} {h.nt} != {n} {nt}')
            xe = hk.loglin_points(x, ne)
            msg = check_pivot(mu, q, xe, 1., True, h.pivot)
            if msg:
                rec.fail(f'{k}:pivot', msg)
            rec.state(k)
            for name, v in real_vectors(x):
                y, b = h.transform(v.copy())
                yy, bb = hk.transform(mu, q, xe, h.pivot,
                                      hk.extrap(ext, v, ne))
                rec.step()
                rec.valid()
                sl = slice(ne, ne + n)
                if not close(y, yy[sl]):
                    rec.fail(f'{k}:{name}:pts', f'{y} != {yy[sl]}')
                if not np.abs(b - bb[sl]).max() <= 1e-8*np.abs(bb).max():
                    rec.fail(f'{k}:{name}', f'{b} != {bb[sl]}')
                rec.outcome(np.round(b, 3).tobytes())
            h.close()


def reject_case(key, payload, rec):
    """Invalid set-ups and inputs raise, and leave the object usable."""
    name, mk = payload
    for cls in (Cpp, Py):
        try:
            h = MK[mk](cls)
        except Exception as e:
            rec.outcome(type(e).__name__)
        else:
            rec.fail(f'{key}:{cls.__name__}', 'accepted')
            h.close()
        rec.step()
        rec.state(f'{key}:{cls.__name__}')
        rec.valid()


MK = {
    'one-point': lambda c: c(.5, 0., [1.], 1., True, 0, 2., False),
    'no-point': lambda c: c(.5, 0., [], 1., True, 0, 2., False),
    'linear': lambda c: c(.5, 0., [1., 2., 3., 4.], 1., True, 0, 2., False),
    'mixed-sign': lambda c: c(.5, 0., [-1., 1., 2., 4.], 1., True, 0, 2.,
                              False),
    'zero-point': lambda c: c(.5, 0., [0., 1., 2., 4.], 1., True, 0, 2.,
                              False),
    'odd-extrap': lambda c: c(.5, 0., points(5), 1., True, 3, 2., False),
    'shrunken': lambda c: c(.5, 0., points(8), 1., True, 3, .4, False),
    'pivot0': lambda c: c(.5, 0., points(8), 0., False, 0, 2., False),
    'pivot-': lambda c: c(.5, 0., points(8), -1., False, 0, 2., False),
}


# -- spherical Bessel transforms ------------------------------------------
def sbt_model(ell, bias, x, pivot, a):
    y, b = hk.transform(ell + .5, bias, x, pivot, np.asarray(a)*x**1.5)
    return y, (2*np.pi/y)**1.5*b


def sbt_case(key, payload, rec):
    """Cosmological multipoles, both directions, all extrapolation options."""
    from triumvirate.transforms import SphericalBesselTransform
    ell, bias, n = payload
    x = points(n, 1.31, .05)
    for ext, layer, fac in itertools.product(
            (0, 1, 2, 3, 4), ('outer', 'native'), (1., 2., 3.1)):
        if ext == 0 and (layer != 'outer' or fac != 2.):
            continue
        if ext and n % 2:
            for cls in (1,):
                try:
                    SphericalBesselTransform(ell, bias, x, extrap=ext,
                                             extrap_layer=layer)
                except Exception:
                    pass
                else:
                    rec.fail(f'{key}:{ext}:odd', 'odd size accepted')
                rec.step()
            continue
        k = f'{key}:{ext}:{layer}:{fac}'
        for low, kr in ((True, 1.), (False, .8)):
            t = SphericalBesselTransform(
                ell, bias, x.copy(), pivot=kr, lowring=low, extrap=ext,
                extrap_exp=fac, extrap_layer=layer, threaded=(n == 4))
            nt = hk.next_size(n, fac) if ext else n
            ne = (nt - n)//2
            xe = hk.loglin_points(x, ne)
            if t.size != nt or t.degree != ell or t.bias != bias:
                rec.fail(f'{k}:attr', f'{t.size} {t.degree} {t.bias}')
            msg = check_pivot(ell + .5, bias, xe, kr, low, t.pivot)
            if msg:
                rec.fail(f'{k}:pivot', msg)
            vs = [(nm, v.real) for nm, v in vectors(n, False)][:n] \
                if ext == 0 else []
            for name, v in vs + real_vectors(x):
                if layer == 'native' and ext:
                    ae = hk.extrap(ext, v*x**1.5, ne)
                    yy, bb = hk.transform(ell + .5, bias, xe, t.pivot, ae)
                    bb = (2*np.pi/yy)**1.5*bb
                else:
                    yy, bb = sbt_model(ell, bias, xe, t.pivot,
                                       hk.extrap(ext, v, ne))
                sl = slice(ne, ne + n)
                tol = 1e-8*np.abs(bb*yy**1.5).max()/yy[sl]**1.5
                for how, arg in (('array', v.copy()), ('list', list(v)),
                                 ('complex', v + 0j),
                                 ('strided', np.repeat(v, 2)[::2])):
                    if how != 'array' and name not in ('exp', 'wave'):
                        continue
                    for mode in (None, 'forward', 'backward', 1, -1):
                        if mode is None:
                            y, b = t.transform(arg)
                            w = 1.
                        else:
                            y, b = t.transform_cosmo_multipoles(mode, arg)
                            w = ((-1j)**ell if mode in ('forward', 1)
                                 else 1j**ell/(2*np.pi)**3)
                        rec.step()
                        rec.valid()
                        kk = f'{k}:{int(low)}:{name}:{how}:{mode}'
                        rec.state(kk)
                        if not np.array_equal(np.asarray(arg), v):
                            rec.fail(f'{kk}:in', 'input changed')
                        if not close(y, yy[sl]):
                            rec.fail(f'{kk}:pts', f'{y} != {yy[sl]}')
                        if not (np.abs(b - w*bb[sl]) <= tol*abs(w)).all():
                            rec.fail(kk, f'{b} != {w*bb[sl]}')
                        rec.outcome(np.round(b, 4).tobytes())
        if ext in (0, 1) and layer == 'outer':
            try:
                t.transform_cosmo_multipoles('sideways', x)
            except ValueError:
                pass
            else:
                rec.fail(f'{k}:dir', 'unknown direction accepted')
    # the C++ class
    for d in (1, -1, 0, 2):
        h = Cpp(ell, bias, x, 1., True, 0, 2., False, typ=1)
        for name, v in real_vectors(x):
            rec.step()
            rec.valid()
            if abs(d) != 1:
                try:
                    h.cosmo(d, v)
                except lib.LibError:
                    continue
                rec.fail(f'{key}:cpp:{d}', 'unknown direction accepted')
                continue
            y, b = h.cosmo(d, v)
            yy, bb = sbt_model(ell, bias, x, h.pivot, v)
            w = (-1j)**ell if d == 1 else 1j**ell/(2*np.pi)**3
            tol = 1e-8*np.abs(bb*yy**1.5).max()/yy**1.5
            if not close(y, yy) or not (np.abs(b - w*bb)
                                        <= tol*abs(w)).all():
                rec.fail(f'{key}:cpp:{d}:{name}', f'{b} != {w*bb}')
        h.close()


def roundtrip_case(key, payload, rec):
    """Forward and backward transforms are inverse to each other."""
    from triumvirate.transforms import SphericalBesselTransform, \
        DoubleSphericalBesselTransform
    ell, n, th = payload
    x = points(n, 1.23, .01)
    t = SphericalBesselTransform(ell, 0, x)
    for i in range(n):
        e = np.zeros(n)
        e[i] = 1.
        y, b = t.transform_cosmo_multipoles('forward', e)
        s = SphericalBesselTransform(ell, 0, y, pivot=t.pivot)
        z, c = s.transform_cosmo_multipoles('backward', b)
        rec.step(2)
        rec.valid()
        rec.state((key, i))
        f = z[0]/x[0]
        if abs(f - 1) > 1e-9 or not close(z, x):
            rec.fail(f'{key}:{i}:pts', f'{z} != {x}')
        sc = x**1.5
        if np.abs(sc*(c - e)).max() > 1e-8*sc[i]:
            rec.fail(f'{key}:{i}', f'round trip of unit sample: {c}')
    if ell > 1 or n > 8:
        return
    # two dimensions
    for l2 in (ell, ell + 1, ell + 2):
        d = DoubleSphericalBesselTransform((ell, l2), (0, 0), x)
        for i, j in itertools.product(range(n), repeat=2):
            if not th and (i + 2*j) % 3:
                continue
            e = np.zeros((n, n))
            e[i, j] = 1.
            (ya, yb), b = d.transform_cosmo_multipoles('forward', e)
            rec.step()
            rec.valid()
            v = []
            for ax, (l_, p) in enumerate(((ell, d.pivot[0]),
                                          (l2, d.pivot[1]))):
                yy, bb = sbt_model(l_, 0, x, p, np.eye(n)[(i, j)[ax]])
                v.append((yy, (-1j)**l_*bb))
            want = np.outer(v[0][1], v[1][1])
            wy = np.meshgrid(v[0][0], v[1][0], indexing='ij')
            k = f'{key}:{l2}:{i}:{j}'
            rec.state(k)
            if not (close(ya, wy[0]) and close(yb, wy[1])):
                rec.fail(f'{k}:pts', 'sample points')
            sc = (wy[0]*wy[1])**1.5
            if np.abs(sc*(b - want)).max() > 1e-8*np.abs(sc*want).max():
                rec.fail(k, f'{b} != {want}')


def double_case(key, payload, rec):
    """Double transforms with extrapolation."""
    from triumvirate.transforms import DoubleSphericalBesselTransform
    degs, bias, ext, e2d, fac = payload
    n = 6
    x = points(n, 1.6, .1)
    f = np.outer(2 + np.cos(np.arange(n)), np.exp(-.2*x)) \
        + .3*np.add.outer(x, x)
    nt = hk.next_size(n, fac) if ext else n
    ne = (nt - n)//2
    xe = hk.loglin_points(x, ne)
    for low, kr in ((True, 1.), (False, 1.3)):
        t = DoubleSphericalBesselTransform(
            degs, bias, x, pivot=kr, lowring=low, extrap=ext, extrap_exp=fac,
            extrap2d=e2d)
        k = f'{key}:{int(low)}'
        for ax in (0, 1):
            msg = check_pivot(degs[ax] + .5, bias[ax], xe, kr, low,
                              t.pivot[ax])
            if msg:
                rec.fail(f'{k}:pivot{ax}', msg)
        if t.size != nt:
            rec.fail(f'{k}:size', f'{t.size} != {nt}')
        fe = np.array([hk.extrap(ext, r, ne) for r in f])
        fe = np.array([hk.extrap(ext, c, ne) for c in fe.T]).T
        half, ys = [], []
        for r in fe:
            y1, b = sbt_model(degs[1], bias[1], xe, t.pivot[1], r)
            half.append(b)
        full = []
        for c in np.array(half).T:
            y0, b = sbt_model(degs[0], bias[0], xe, t.pivot[0], c)
            full.append(b)
        full = np.array(full).T
        sl = slice(ne, ne + n)
        if not e2d and ext:
            # the first transform's result is trimmed and extended again
            half = np.array([
                sbt_model(degs[1], bias[1], xe, t.pivot[1],
                          hk.extrap(ext, r, ne))[1][sl] for r in f])
            full = np.array([
                sbt_model(degs[0], bias[0], xe, t.pivot[0],
                          hk.extrap(ext, c, ne))[1] for c in half.T]).T
            cut = full[sl]
        else:
            cut = full[sl, sl]
        y0, y1 = y0[sl], y1[sl]
        src = f.copy()
        for mode in (None, 1, -1, 'forward', 'backward'):
            if mode is None:
                (a, b), g = t.transform(src)
                w = 1.
            else:
                (a, b), g = t.transform_cosmo_multipoles(mode, src)
                w = (-1j)**sum(degs) if mode in (1, 'forward') \
                    else 1j**sum(degs)/(2*np.pi)**6
            rec.step()
            rec.valid()
            rec.state(f'{k}:{mode}')
            wa, wb = np.meshgrid(y0, y1, indexing='ij')
            if not (close(a, wa) and close(b, wb)):
                rec.fail(f'{k}:{mode}:pts', 'sample points')
            sc = (wa*wb)**1.5
            if g.shape != (n, n) or np.abs(sc*(g - w*cut)).max() > \
                    1e-7*np.abs(sc*w*cut).max():
                rec.fail(f'{k}:{mode}', f'{g} != {w*cut}')
            if not np.array_equal(src, f):
                rec.fail(f'{k}:{mode}:in', 'input changed')
            rec.outcome(np.round(g, 4).tobytes())


def pair_case(key, payload, rec):
    """Known continuous transform pairs (guards the model itself)."""
    from triumvirate.transforms import SphericalBesselTransform
    ell, ext, layer = payload
    x = np.geomspace(1e-5, 25., 512)
    f = x**ell*np.exp(-x**2/2)
    t = SphericalBesselTransform(ell, 0, x, extrap=ext, extrap_layer=layer)
    y, b = t.transform_cosmo_multipoles('forward', f)
    want = (2*np.pi)**1.5*(-1j)**ell*y**ell*np.exp(-y**2/2)
    sel = (y > 1e-2) & (y < 4)
    rec.step()
    rec.valid()
    rec.state(key)
    if np.abs(b[sel]/want[sel] - 1).max() > 1e-4:
        rec.fail(key, f'largest deviation '
                 f'{np.abs(b[sel]/want[sel] - 1).max()}')


# -- histories -------------------------------------------------------------
OPS = ('newA', 'newB', 'newC', 'A1', 'A2', 'B1', 'B2', 'C1', 'Abad', 'delA',
       'mutX')


def hist_case(key, payload, rec):
    """Transforms are independent of earlier operations and of each other."""
    from triumvirate.transforms import SphericalBesselTransform
    depth, first = payload
    xs = points(6, 1.5, .1)
    ref = {}

    def build_(w, x):
        if w == 'A':
            return SphericalBesselTransform(0, 0, x)
        if w == 'B':
            return SphericalBesselTransform(2, 1, x, pivot=2., extrap=3,
                                            extrap_exp=3., threaded=True)
        return SphericalBesselTransform(1, 0, x, lowring=False, extrap=4,
                                        extrap_layer='native')

    vec = {'1': np.exp(-xs), '2': 1 + xs**2}
    for w in 'ABC':
        for i in '12':
            y, b = build_(w, xs.copy()).transform(vec[i].copy())
            ref[w + i] = (y.copy(), b.copy())
    for seq in itertools.product(OPS, repeat=depth - 1):
        seq = (first,) + seq
        x = xs.copy()
        live = dict(A=build_('A', x))
        for n, op in enumerate(seq):
            rec.step()
            if op.startswith('new'):
                live[op[3]] = build_(op[3], xs.copy() if op != 'newA' else x)
                if 'mutX' in seq[:n] and op == 'newA':
                    live['A'] = build_('A', xs.copy())
            elif op == 'delA':
                live.pop('A', None)
            elif op == 'mutX':
                # the caller's array is the caller's
                x *= 3.
            elif op == 'Abad':
                if 'A' in live:
                    for bad in (np.ones(5), np.ones(7), np.ones((6, 2)),
                                np.zeros(0)):
                        try:
                            live['A'].transform(bad)
                        except Exception:
                            pass
                        else:
                            rec.fail(f'{key}:{seq}', f'shape {bad.shape} '
                                     'accepted')
            elif op[0] in live:
                v = vec[op[1]].copy()
                y, b = live[op[0]].transform(v)
                rec.valid()
                if not (np.array_equal(y, ref[op][0])
                        and np.array_equal(b, ref[op][1])
                        and np.array_equal(v, vec[op[1]])):
                    rec.fail(f'{key}:{seq}:{n}', f'{op} gave {b}, not '
                             f'{ref[op][1]}, or changed its input')
                    return
                # results handed out belong to the caller
                y *= 0.
                b *= 0.
        rec.state(seq)


def reinit_case(key, payload, rec):
    """C++ objects re-initialised in any order behave like new ones."""
    L = lib.L()
    cfg = [(4, 1.5, 0, 2.), (6, 1.3, 0, 2.), (4, 1.5, 4, 3.), (8, 1.2, 1, 1.),
           (2, 2., 2, 4.)]
    for seq in itertools.product(range(len(cfg)), repeat=payload):
        h = L.vt_fl_new(0, lib.C.c_double(1.5), lib.C.c_double(.5), 0)
        for i in seq:
            n, r, ext, fac = cfg[i]
            x = lib.D(points(n, r))
            lib.ok(L.vt_fl_init(0, lib.V(h), lib.pD(x), n,
                                lib.C.c_double(1.), 1, ext,
                                lib.C.c_double(fac)))
            o = np.zeros(8)
            L.vt_fl_info(lib.V(h), lib.pD(o))
            a = (1.5 + np.cos(np.arange(n))).astype(complex)
            b = np.zeros(n, complex)
            lib.ok(L.vt_fl_biased(
                0, lib.V(h), a.view(float).ctypes.data_as(lib.dp),
                b.view(float).ctypes.data_as(lib.dp), n))
            nt = hk.next_size(n, fac) if ext else n
            ne = (nt - n)//2
            yy, bb = hk.transform(1.5, .5, hk.loglin_points(x, ne), o[5],
                                  hk.extrap(ext, a.real, ne))
            post = np.zeros(int(o[7]))
            L.vt_fl_pts(lib.V(h), 1, lib.pD(post))
            rec.step()
            rec.valid()
            if int(o[7]) != n or not close(post, yy[ne:ne + n]) or \
                    np.abs(b - bb[ne:ne + n]).max() > 1e-8*np.abs(bb).max():
                rec.fail(f'{key}:{seq}', f'{b} != {bb[ne:ne + n]}')
        rec.state(seq)
        L.vt_fl_del(0, lib.V(h))


def resample_case(key, payload, rec):
    """Resampling is exact on polynomials of the spline's degree."""
    from triumvirate import transforms as tr
    fn, deg, n, size = payload
    f = getattr(tr, fn)
    x = np.linspace(.5, 4., n)**1.3
    cf = (1.3, -.7, .4, .11)[:deg + 1]
    want = np.geomspace if fn == 'resample_lglin' else np.linspace
    rec.step()
    rec.valid()
    rec.state(key)
    r, s = f(x, np.polyval(cf[::-1], x), size=size, spline=deg)
    g = want(x[0], x[-1], size or n)
    if not close(r, g, 1e-12) or not close(s, np.polyval(cf[::-1], g)):
        rec.fail(f'{key}:1d', f'{r} {s}')
    # two dimensions
    x2 = np.linspace(1., 2.5, n + 2)
    for pts, size2 in (((x, x2), size), ((x, x2), (size, 5)), (x, size),
                       ((x, x2), (size, None))):
        a, b = pts if isinstance(pts, tuple) else (pts, pts)
        fv = np.outer(np.polyval(cf[::-1], a), np.polyval(cf, b))
        try:
            r, s = f(pts if isinstance(pts, tuple) else a, fv, size=size2,
                     spline=deg)
        except ValueError as e:
            rec.fail(f'{key}:2d', f'{e}')
            continue
        n0, n1 = size2 if isinstance(size2, tuple) else (size2, size2)
        ga, gb = want(a[0], a[-1], n0 or len(a)), \
            want(b[0], b[-1], n1 or len(b))
        rec.step()
        rec.valid()
        wv = np.outer(np.polyval(cf[::-1], ga), np.polyval(cf, gb))
        if not (close(r[0], ga, 1e-12) and close(r[1], gb, 1e-12)
                and close(s, wv, 1e-8)):
            rec.fail(f'{key}:2d:{type(pts).__name__}:{size2}',
                     'resampled samples')


def main():
    global PKG
    ch = core.Check('P17')
    th = ch.tier == 'thorough'
    lib.prepare()
    PKG = build.python_package()
    ch.run_cases('basis vectors', [
        (f'basis:{mu}:{q}', (mu, q, th)) for mu in MUS for q in QS],
        basis_case, setup=setup)
    ch.run_cases('larger', [
        (f'large:{mu}:{q}', (mu, q, 'large')) for mu in (0., .5, 2.5, 4.5)
        for q in (0., .3, -1.)], basis_case, setup=setup)
    ch.run_cases('native extrapolation', [
        (f'native:{mu}:{q}', (mu, q)) for mu in (0., .5, 2.5)
        for q in (0., .3, -1.) if not pole(mu, q)], ext_case, setup=setup)
    ch.run_cases('rejected set-ups', [
        (f'reject:{k}', (k, k)) for k in MK], reject_case, setup=setup)
    ch.run_cases('spherical Bessel transforms', [
        (f'sbt:{ell}:{b}:{n}', (ell, b, n))
        for ell in ((0, 1, 2, 3, 4, 7) if th else (0, 1, 2, 3))
        for b in ((0, 1, -1, 2) if th else (0, 1))
        for n in ((4, 5, 8, 10, 12) if th else (4, 5, 8))
        if not pole(ell + .5, b)], sbt_case, setup=setup)
    ch.run_cases('inverse transforms', [
        (f'inv:{ell}:{n}', (ell, n, th)) for ell in range(6)
        for n in ((4, 6, 7, 8, 16, 32) if th else (4, 6, 7, 16))],
        roundtrip_case, setup=setup)
    ch.run_cases('double transforms', [
        (f'double:{d[0]}{d[1]}:{b[0]}{b[1]}:{e}:{int(t)}:{f}',
         (d, b, e, t, f))
        for d in ((0, 0), (1, 1), (0, 2), (3, 1)) for b in ((0, 0), (0, 1))
        for e in range(5) for t in (False, True) for f in (2., 3.)
        if (e or f == 2.) and (e in (0, 1) or t)],
        double_case, setup=setup)
    ch.run_cases('continuous pairs', [
        (f'pair:{ell}:{e}:{la}', (ell, e, la)) for ell in range(5)
        for e, la in ((0, 'outer'), (1, 'outer'), (4, 'native'),
                      (2, 'native'))], pair_case, setup=setup)
    ch.run_cases('histories', [
        (f'hist:{o}', (4 if th else 3, o)) for o in OPS], hist_case,
        setup=setup, timeout=900)
    ch.run_cases('re-initialisation', [('reinit', 4 if th else 3)],
                 reinit_case, setup=setup, timeout=900)
    ch.run_cases('resampling', [
        (f'resample:{f}:{d}:{n}:{s}', (f, d, n, s))
        for f in ('resample_lglin', 'resample_lin') for d in (1, 2, 3)
        for n in (4, 5, 9) for s in (None, 3, 12)], resample_case,
        setup=setup)
    return ch.finish(rule='orders x biases x sizes x spacings x pivots x '
                     'low-ringing with every basis vector; extrapolation '
                     'options x layers x factors; all operation sequences '
                     'to a depth over three live transforms')
