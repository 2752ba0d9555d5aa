"""Reference model: clustering statistics by direct evaluation.

Everything is evaluated from the documented definitions with full meshes in
memory and explicit sums over spherical orders; no order triplet is inferred
from another, no mesh is reused in place.
"""
import math

import numpy as np
from scipy.special import eval_legendre

from . import ref


def in_bin(mag, lo, hi):
    return (lo <= mag) & (mag < hi)


def safe_edges(mag, nbins, step, start=0, skip=0, exclude_zero=True,
               stop=None):
    """Bin edges at the middle of gaps (>= 3*step) between magnitudes."""
    u = np.unique(np.round(mag[np.isfinite(mag)], 9))
    if exclude_zero:
        u = u[u > 0]
    g = [(a + b)/2 for a, b in zip(u[:-1], u[1:])
         if b - a > 3.2*step and b > 1e-6]
    lo = u[0]/2 if exclude_zero else None
    cand = ([lo] if lo else []) + g
    cand = [c for c in cand if stop is None or c < stop]
    cand = cand[start:]
    if len(cand) < nbins + 1:
        raise ValueError('not enough gaps')
    idx = np.unique(np.linspace(0, len(cand) - 1, nbins + 1).astype(int))
    return np.array([cand[i] for i in idx])


class System:
    """Catalogues painted on a mesh."""

    def __init__(self, box, ng, scheme, inter, data=None, rand=None,
                 losd=None, losr=None, alpha=None):
        self.box, self.ng = np.array(box, float), tuple(ng)
        self.scheme, self.inter = scheme, inter in (True, 'true')
        self.order = ref.ORDER[scheme]
        self.vol = float(np.prod(self.box))
        self.nmesh = int(np.prod(ng))
        self.vc = self.vol/self.nmesh
        self.k = ref.kvec(self.box, self.ng)
        self.r = ref.rvec(self.box, self.ng)
        self.kmag = ref.norm3(np.array(np.broadcast_arrays(*self.k)))
        self.rmag = ref.norm3(np.array(np.broadcast_arrays(*self.r)))
        self.win = ref.window(self.ng, self.order)
        self.alias = self._alias()
        self.cpk = self.win**2 if self.inter else self.alias
        self.cat = {}
        for name, rows, los in (('d', data, losd), ('r', rand, losr)):
            if rows is None:
                continue
            rows = np.asarray(rows, float)
            w = rows[:, 4]*rows[:, 5]
            ker = [self._kernels(rows[:, :3], s)
                   for s in ((0., .5) if self.inter else (0.,))]
            self.cat[name] = dict(rows=rows, w=w, ker=ker,
                                  los=None if los is None
                                  else np.asarray(los, float))
        if alpha is None and 'd' in self.cat and 'r' in self.cat:
            alpha = self.cat['d']['rows'][:, 4].sum() \
                / self.cat['r']['rows'][:, 4].sum()
        self.alpha = 1. if alpha is None else alpha
        self.vanish = False

    def _kernels(self, pos, shift):
        out = np.empty((len(pos), *self.ng))
        for i, p in enumerate(pos):
            w = [ref.weights_1d(self.ng[a]*p[a]/self.box[a] + shift,
                                self.ng[a], self.order) for a in range(3)]
            out[i] = w[0][:, None, None]*w[1][None, :, None] \
                * w[2][None, None, :]/self.vc
        return out

    def _alias(self):
        if not self.inter:
            return np.array(np.broadcast_to(
                ref.alias_plain(self.ng, self.scheme), self.ng))
        m = ref.modes(self.ng)
        u = np.sqrt(sum((np.pi*m[a]/self.ng[a])**2 for a in range(3)))/2
        s2, c2 = np.sin(u)**2, np.cos(u)**2
        cs = {1: 1., 2: 1 - 2/3*s2, 3: 1 - s2 + 2/15*s2**2,
              4: 1 - 4/3*s2 + 2/5*s2**2 - 4/315*s2**3}[self.order]
        return c2**self.order*cs

    # -- fields (a mesh, and its shadow when interlaced) ------------------
    def paint(self, which, wts):
        c = self.cat[which]
        return [np.tensordot(wts, k, axes=(0, 0)) for k in c['ker']]

    def y_los(self, which, ell, m):
        # the field weight is the conjugate of the harmonic convention
        return ref.ylm(ell, m, self.cat[which]['los'].T)

    def field(self, ell, m, quad=False, window=False):
        """Harmonic-weighted density (or squared-weight) meshes."""
        out = None
        for n in ('d', 'r'):
            if n not in self.cat or (window and n == 'd'):
                continue
            c = self.cat[n]
            w = c['w']
            y = self.y_los(n, ell, m)
            if quad:
                w, y, a = w**2, np.conj(y), self.alpha**2
            else:
                a = self.alpha if window else -self.alpha
            if n == 'd':
                a = 1.
            f = self.paint(n, a*w*y)
            out = f if out is None else [x + z for x, z in zip(out, f)]
        return out

    def unweighted(self):
        return [f.astype(complex)
                for f in self.paint('d', np.ones(len(self.cat['d']['w'])))]

    def fluct(self):
        n = len(self.cat['d']['w'])/self.vol
        return [f - n for f in self.unweighted()]

    def ft(self, f):
        return ref.fourier(f[0], self.box, f[1] if self.inter else None)

    def sn_amp(self, ell, m, power, window=False):
        tot = 0.
        for n in ('d', 'r'):
            if n not in self.cat or (window and n == 'd'):
                continue
            a = 1. if n == 'd' else self.alpha**power
            tot = tot + a*(self.cat[n]['w']**power*self.y_los(n, ell, m)
                           ).sum()
        return complex(tot)

    # -- two-point --------------------------------------------------------
    def binned(self, mag, values, edges):
        nb = len(edges) - 1
        out = np.zeros(nb, dtype=complex)
        num = np.zeros(nb, dtype=int)
        eff = np.zeros(nb)
        for i in range(nb):
            s = in_bin(mag, edges[i], edges[i + 1])
            num[i] = s.sum()
            if num[i]:
                out[i] = values[s].mean()
                eff[i] = mag[s].mean()
            else:
                eff[i] = (edges[i] + edges[i+1])/2
        return num, eff, out

    def pk3d(self, Fa, Fb, amp):
        return Fa*np.conj(Fb)/self.cpk, amp*self.alias/self.cpk

    def xi3d(self, Fa, Fb, amp):
        p, s = self.pk3d(Fa, Fb, amp)
        return np.fft.ifftn((p - s)/self.vol)*self.nmesh

    def twopt(self, space, L, edges, gpp=False, window=False):
        """(num, eff, raw, shot) by the Legendre-weighted definition."""
        if gpp:
            F = self.ft(self.fluct())
            N = float(len(self.cat['d']['w']))
            if space == 'fourier':
                p, s = self.pk3d(F, F, N)
                y = ref.ylm(L, 0, self.k)
                num, eff, raw = self.binned(self.kmag, p*y*(2*L+1), edges)
                _, _, sn = self.binned(self.kmag, s*y*(2*L+1), edges)
                return num, eff, raw, sn
            x = self.xi3d(F, F, N)*ref.ylm(L, 0, self.r)*(2*L+1)
            return (*self.binned(self.rmag, x, edges), None)
        # survey: Sum_p w_p P_L(khat . los_p) K_p(k) conj(F_00(k))
        F0 = self.ft(self.field(0, 0, window=window))
        vec, mag = (self.k, self.kmag) if space == 'fourier' else \
            (self.r, self.rmag)
        raw = np.zeros(self.ng, dtype=complex)
        shot = np.zeros(self.ng, dtype=complex)
        v = np.array(np.broadcast_arrays(*vec))
        nz = mag > 0
        for n in ('d', 'r'):
            if n not in self.cat or (window and n == 'd'):
                continue
            c = self.cat[n]
            a1 = 1. if n == 'd' else (self.alpha if window else -self.alpha)
            a2 = 1. if n == 'd' else self.alpha**2
            for i, w in enumerate(c['w']):
                los = c['los'][i]/np.sqrt((c['los'][i]**2).sum())
                mu = np.where(nz, np.tensordot(los, v, axes=(0, 0))
                              / np.where(nz, mag, 1.), 0.)
                leg = (2*L+1)*np.where(nz, eval_legendre(L, mu),
                                       1. if L == 0 else 0.)
                Fp = self.ft([w*a1*k[i] for k in c['ker']])
                if space == 'fourier':
                    p, s = self.pk3d(Fp, F0, w**2*a2)
                    raw += p*leg
                    shot += s*leg
                else:
                    raw += self.xi3d(Fp, F0, w**2*a2)*leg
        num, eff, out = self.binned(mag, raw, edges)
        if space == 'fourier':
            return num, eff, out, self.binned(mag, shot, edges)[2]
        return num, eff, out, None

    # -- three-point ------------------------------------------------------
    @staticmethod
    def layout(form_shape, nb, idx):
        """(row, col) of every entry of the data vector."""
        if form_shape == 'diag':
            return [(i, i) for i in range(nb)]
        if form_shape == 'off-diag':
            n = nb - abs(idx)
            return [(i, i + idx) if idx >= 0 else (i - idx, i)
                    for i in range(n)]
        if form_shape == 'row':
            return [(idx, i) for i in range(nb)]
        if form_shape == 'full':
            return [(i, j) for i in range(nb) for j in range(nb)]
        return [(i, j) for i in range(nb) for j in range(i, nb)]

    def band(self, F, y, lo, hi):
        s = in_bin(self.kmag, lo, hi)
        g = np.where(s, F/self.win*y, 0.)
        n = s.sum()
        return np.fft.ifftn(g)*self.nmesh/n if n else None

    def sjl(self, F, y, ell, r):
        g = F/self.win*y*ref.sjl(ell, self.kmag*r)
        return np.fft.ifftn(g)*self.nmesh/self.vol

    def comp(self, F):
        return np.fft.ifftn(F/self.win)*self.nmesh/self.vol

    def triplets(self, l1, l2, L, gpp):
        for m1 in range(-l1, l1 + 1):
            for m2 in range(-l2, l2 + 1):
                for M in ((0,) if gpp else range(-L, L + 1)):
                    c = ref.coupling3(l1, l2, L, m1, m2, M)
                    if abs(c) > 1e-12:
                        yield m1, m2, M, c

    def _parts(self, L, M, gpp, window):
        """(F_LM, G_LM mesh, N_LM, Sbar_LM)."""
        key = (L, M, gpp, window)
        if not hasattr(self, '_cache'):
            self._cache = {}
        if key not in self._cache:
            if gpp:
                F = self.ft(self.fluct())
                N = self.ft(self.unweighted())
                S = complex(len(self.cat['d']['w']))
            else:
                F = self.ft(self.field(L, M, window=window))
                N = self.ft(self.field(L, M, quad=True, window=window))
                S = self.sn_amp(L, M, 3, window)
            self._cache[key] = F, self.comp(F), N, S
        return self._cache[key]

    def bispec(self, l1, l2, L, edges, layout, gpp=False):
        """rows: k1eff, k2eff, n1, n2, raw, shot."""
        nb = len(edges) - 1
        F0 = self._parts(0, 0, gpp, False)[0]
        N0 = self._parts(0, 0, gpp, False)[2]
        num, eff, _ = self.binned(self.kmag, self.kmag.astype(complex), edges)
        raw = np.zeros(len(layout), dtype=complex)
        shot = np.zeros(len(layout), dtype=complex)
        Fa, Fb = {}, {}
        rb = {}
        for m1, m2, M, c in self.triplets(l1, l2, L, gpp):
            FL, G, NL, S = self._parts(L, M, gpp, False)
            y1, y2 = ref.ylm(l1, m1, self.k), ref.ylm(l2, m2, self.k)
            for b in range(nb):
                if (b, m1) not in Fa:
                    Fa[b, m1] = self.band(F0, y1, edges[b], edges[b+1])
                if (b, m2) not in Fb:
                    Fb[b, m2] = self.band(F0, y2, edges[b], edges[b+1])
            x = self.xi3d(FL, N0, S)*ref.ylm(l1, m1, self.r) \
                * ref.ylm(l2, m2, self.r)
            pk, sn = self.pk3d(F0, NL, S)
            if l2 == 0:
                s1 = self.binned(self.kmag, (pk - sn)*y1, edges)[2]
            if l1 == 0:
                s2 = self.binned(self.kmag, (pk - sn)*y2, edges)[2]
            for e, (i, j) in enumerate(layout):
                raw[e] += c*self.vc*(Fa[i, m1]*Fb[j, m2]*G).sum()
                if l1 == 0 and l2 == 0:
                    shot[e] += c*S
                if l2 == 0:
                    shot[e] += c*s1[i]
                if l1 == 0:
                    shot[e] += c*s2[j]
                key = (i, j, 'j')
                if key not in rb:
                    rb[key] = ref.sjl(l1, eff[i]*self.rmag) \
                        * ref.sjl(l2, eff[j]*self.rmag)
                shot[e] += 1j**(l1 + l2)*c*self.vc*(x*rb[key]).sum()
        return num, eff, raw, shot

    def tpcf(self, l1, l2, L, edges, layout, gpp=False, window=False,
             wa=None):
        nb = len(edges) - 1
        F0 = self._parts(0, 0, gpp, window)[0]
        N0 = self._parts(0, 0, gpp, window)[2]
        num, eff, _ = self.binned(self.rmag, self.rmag.astype(complex), edges)
        raw = np.zeros(len(layout), dtype=complex)
        shot = np.zeros(len(layout), dtype=complex)
        Fa, Fb = {}, {}
        for m1, m2, M, c in self.triplets(l1, l2, L, gpp):
            FL, G, NL, S = self._parts(L, M, gpp, window)
            if wa is not None:
                G = G*self.wa_kernel(*wa)
            y1, y2 = ref.ylm(l1, m1, self.k), ref.ylm(l2, m2, self.k)
            for b in range(nb):
                if (b, m1) not in Fa:
                    Fa[b, m1] = self.sjl(F0, y1, l1, eff[b])
                if (b, m2) not in Fb:
                    Fb[b, m2] = self.sjl(F0, y2, l2, eff[b])
            x = self.xi3d(FL, N0, S)*ref.ylm(l1, m1, self.r) \
                * ref.ylm(l2, m2, self.r)
            xb = self.binned(self.rmag, x, edges)[2]/self.vc
            xb = np.where(num > 0, xb/np.maximum(num, 1), 0.)
            for e, (i, j) in enumerate(layout):
                raw[e] += c*self.vc*1j**(l1+l2)*(
                    Fa[i, m1]*Fb[j, m2]*G).sum()
                if i == j:
                    shot[e] += c*(-1)**(l1+l2)*xb[i]
        return num, eff, raw, shot

    def wa_kernel(self, i, j):
        r = self.rmag
        return np.where(r < 1e-6, 1., np.where(r < 1e-6, 1., r)**(-i - j))
