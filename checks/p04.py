"""P04: mesh-field operation histories agree with direct evaluation.

States are histories of field operations (all sequences up to a depth over a
14-letter alphabet) executed on one real mesh object; the model evaluates each
operation directly with numpy.  The catalogue, box, parity of the grid,
assignment scheme and interlacing are enumerated as configurations.
"""
import itertools

import numpy as np

from vt import core, lib, ref

CONFIGS = [
    ((8., 8., 8.), (4, 4, 4)),
    ((1., .7, 1.2), (4, 3, 5)),
    ((500., 800., 650.), (5, 4, 6)),
]
SCHEMES = ('ngp', 'cic', 'tsc', 'pcs')
TOL = 1e-8


def catalogues(box):
    """Fixed small catalogues with awkward positions (rows x y z nz ws wc)."""
    b = np.array(box)
    f1 = np.array([[.03, .11, .97], [.52, .52, .13], [.88, .4, .666],
                   [.999, .001, .5]])
    f2 = np.array([[.21, .77, .33], [.61, .07, .45], [.9, .93, .02],
                   [.35, .5, .71], [.15, .29, .84]])
    r1 = np.hstack([f1*b, [[.1, 1., 1.], [.2, .5, 2.], [.3, 2., 1.5],
                           [.4, 1.25, 1.]]])
    r2 = np.hstack([f2*b, [[.1, 1., 1.], [.2, .5, 1.], [.3, 1., .5],
                           [.4, 2., 1.], [.1, .8, 1.1]]])
    return r1, r2


LOS1 = np.array([[1., 2., -.5], [0., 0., 1.], [-.3, .4, .2], [5., -5., 1.]])
LOS2 = np.array([[.2, -.1, .9], [1., 0., 0.], [0., 1., 0.], [-1., -1., -1.],
                 [0., 0., -1.]])
ALPHA = .37


class Model:
    """Reference semantics of one mesh field."""

    def __init__(self, box, ng, scheme, inter):
        self.box, self.ng, self.scheme, self.inter = box, ng, scheme, inter
        self.r1, self.r2 = catalogues(box)
        self.order = ref.ORDER[scheme]
        self.W = ref.window(ng, self.order)
        self.vol = np.prod(box)
        self.vc = self.vol/np.prod(ng)
        self._a = {}
        self.k = ref.norm3(ref.kvec(box, ng))
        self.r = ref.norm3(ref.rvec(box, ng))
        self.src = self.asg(self.r2, np.ones(5) + .5j*np.arange(5), 'src')
        self.SRC = ref.fourier(self.src[0], box, self.src[1])

    def asg(self, rows, w, tag):
        if tag not in self._a:
            f = ref.assign(rows[:, :3], w, self.box, self.ng, self.scheme)
            s = ref.assign(rows[:, :3], w, self.box, self.ng, self.scheme,
                           .5) if self.inter else None
            self._a[tag] = (f, s)
        return self._a[tag]

    def comb(self, a, ca, b=None, cb=0.):
        f = ca*a[0] + (cb*b[0] if b else 0.)
        s = None if not self.inter else ca*a[1] + (cb*b[1] if b else 0.)
        return f, s

    def yw(self, rows, los, ell, m, quad, tag):
        y = ref.ylm(ell, m, los.T)
        w = rows[:, 4]*rows[:, 5]
        return self.asg(rows, np.conj(y)*w**2 if quad else y*w,
                        ('y', tag, ell, m, quad))

    def step(self, st, op):
        """(field, shadow, shadow fresh) -> same, or None if not defined."""
        f, s, fresh = st
        k = op[0]
        if k == 'reset':
            z = np.zeros(self.ng, dtype=complex)
            return z, (z if self.inter else None), True
        if k == 'assign':
            w = np.array([1., -.5 + .25j, 2j, .75])
            return (*self.asg(self.r1, w, 'w1'), True)
        if k == 'unweighted':
            return (*self.asg(self.r2, np.ones(5), 'u2'), True)
        if k == 'fluct':
            a = self.asg(self.r1, np.ones(4), 'u1')
            nb = 4/self.vol
            return a[0] - nb, (a[1] - nb if self.inter else None), True
        if k in ('ylm', 'quad'):
            q = k == 'quad'
            a = self.yw(self.r1, LOS1, op[1], op[2], q, 1)
            b = self.yw(self.r2, LOS2, op[1], op[2], q, 2)
            return (*self.comb(a, 1., b, ALPHA**2 if q else -ALPHA), True)
        if k in ('ylm1', 'quad1'):
            q = k == 'quad1'
            a = self.yw(self.r2, LOS2, op[1], op[2], q, 2)
            return (*self.comb(a, ALPHA**2 if q else ALPHA), True)
        if k == 'ft':
            if self.inter and not fresh:
                return None
            return ref.fourier(f, self.box, s), s, False
        if k == 'ift':
            return ref.inv_fourier(f, self.box), s, False
        if k == 'comp':
            return f/self.W, s, False
        if k == 'wa':
            p = np.where(self.r < 1e-6, 1.,
                         np.where(self.r < 1e-6, 1., self.r)**(-3.))
            return f*p, s, False
        if k == 'band':
            lo, hi = self.band()
            sel = (self.k >= lo) & (self.k < hi)
            y = ref.ylm(op[1], op[2], ref.kvec(self.box, self.ng))
            g = np.where(sel, y*self.SRC/self.W, 0.)
            return np.fft.ifftn(g)*g.size/sel.sum(), s, False
        if k == 'sjl':
            y = ref.ylm(op[1], op[2], ref.kvec(self.box, self.ng))
            g = ref.sjl(op[1], self.k*op[3]*self.box[0]) \
                * y*self.SRC/self.W/self.vol
            return np.fft.ifftn(g)*g.size, s, False
        raise KeyError(op)

    def band(self):
        kf = 2*np.pi/max(self.box)
        return .9*kf, 2.3*kf


OPS = [('assign',), ('unweighted',), ('fluct',), ('ylm', 0, 0),
       ('ylm', 2, 1), ('quad', 0, 0), ('quad', 2, -1), ('ylm1', 1, -1),
       ('quad1', 2, 1), ('ft',), ('ift',), ('comp',), ('wa',),
       ('band', 2, -1), ('sjl', 1, 1, .3), ('reset',)]


def apply_impl(op, mesh, src, c1, c2, mod):
    k = op[0]
    if k == 'reset':
        mesh.reset()
    elif k == 'assign':
        mesh.assign(c1, np.array([1., -.5 + .25j, 2j, .75]))
    elif k == 'unweighted':
        mesh.unweighted(c2)
    elif k == 'fluct':
        mesh.fluct(c1)
    elif k in ('ylm', 'quad'):
        mesh.ylm(c1, c2, LOS1, LOS2, ALPHA, op[1], op[2], k == 'quad')
    elif k in ('ylm1', 'quad1'):
        mesh.ylm(c2, None, LOS2, None, ALPHA, op[1], op[2], k == 'quad1')
    elif k == 'ft':
        mesh.ft()
    elif k == 'ift':
        mesh.ift()
    elif k == 'comp':
        mesh.comp()
    elif k == 'wa':
        mesh.wa()
    elif k == 'band':
        y = lib.ylm_store(op[1], op[2], mod.box, mod.ng, False)
        lo, hi = mod.band()
        keff, n = mesh.band(src, y, lo, hi)
        sel = (mod.k >= lo) & (mod.k < hi)
        assert n == sel.sum(), ('modes in band', n, sel.sum())
        assert abs(keff - mod.k[sel].mean()) < 1e-9*keff, 'k_eff'
    elif k == 'sjl':
        y = lib.ylm_store(op[1], op[2], mod.box, mod.ng, False)
        mesh.sjl(src, y, op[1], op[3]*mod.box[0])


def history_case(key, payload, rec):
    box, ng, scheme, inter, depth, firsts = payload
    mod = Model(box, ng, scheme, inter)
    p = lib.mkparams(box, ng, assignment=scheme, i_wa=1, j_wa=2,
                     interlace='true' if inter else 'false')
    t0 = lib.trackers()
    c1, c2 = lib.Cat(mod.r1), lib.Cat(mod.r2)
    z = np.zeros(ng, dtype=complex)
    init = (z, z if inter else None, True)
    src = lib.Mesh(p)
    src.assign(c2, np.ones(5) + .5j*np.arange(5))
    src.ft()
    t1 = lib.trackers()

    def run(hist, want):
        mesh = lib.Mesh(p)
        try:
            for op in hist:
                apply_impl(op, mesh, src, c1, c2, mod)
            got = mesh.arr()
        except AssertionError as e:
            rec.fail(f'{key}:{hist[-1][0]}', f'history {hist}: {e}')
            return
        finally:
            mesh.close()
        rec.valid()
        # spherical Bessel functions are tabulated by the implementation
        tol = 2e-6 if any(o[0] == 'sjl' for o in hist) else TOL
        scale = max(np.abs(want).max(), 1e-30)
        if not np.all(np.isfinite(got)) or \
                np.abs(got - want).max() > tol*scale:
            d = np.abs(got - want).max()/scale
            rec.fail(f'{key}:{hist[-1][0]}',
                     f'history {hist}: field differs by {d:.3e} (relative)')
        t2 = lib.trackers()
        for q in ('r', 'c', 'g'):
            if abs(t2[q] - t1[q]) > 1e-9:
                rec.fail(f'{key}:tracker-{q}', f'history {hist}: grid count '
                         f'{t1[q]} before, {t2[q]} after')
        if abs(t2['gb'] - t1['gb']) > 1e-12:
            rec.fail(f'{key}:tracker-gb', f'history {hist}: memory count '
                     f'{t1["gb"]} before, {t2["gb"]} after')

    def go(hist, st):
        for op in (OPS if hist else [OPS[i] for i in firsts]):
            nx = mod.step(st, op)
            if nx is None:
                continue
            h = hist + [op]
            rec.step()
            rec.state((key, h))
            run(h, nx[0])
            if len(rec.fails) > 6:
                return
            if len(h) < depth:
                go(h, nx)
    go([], init)
    src.close()
    c1.close()
    c2.close()
    t2 = lib.trackers()
    if abs(t2['gb'] - t0['gb']) > 1e-12 or t2['g'] != t0['g']:
        rec.fail(f'{key}:tracker-src', f'{t0} {t2}')
    rec.sample(dict(config=key, depth=depth, firsts=[OPS[i] for i in firsts]))


def norm_case(key, payload, rec):
    box, ng, scheme, inter = payload
    r1, r2 = catalogues(box)
    p = lib.mkparams(box, ng, assignment=scheme,
                     interlace='true' if inter else 'false')
    r3 = r2.copy()
    r3[[0, 3], 4] *= -2.5       # weights of either sign
    for rows in (r1, r2, r3):
        f = ref.assign(rows[:, :3], rows[:, 4]*rows[:, 5], box, ng, scheme)
        vc = np.prod(box)/np.prod(ng)
        for order in (1, 2, 3, 4):
            m = lib.Mesh(p)
            c = lib.Cat(rows)
            got = m.norm(c, order)
            want = 1/((f.real**order).sum()*vc)
            rec.valid()
            rec.step()
            rec.state((key, order, len(rows)))
            if abs(got - want) > TOL*abs(want):
                rec.fail(key, f'power-law norm order {order}: {got} {want}')
            m.close()
            c.close()


def ylm_case(key, payload, rec):
    """Stored harmonics on the mesh, all (ell, m)."""
    box, ng, lmax = payload
    for ell in range(lmax + 1):
        for m in range(-ell, ell + 1):
            for config in (False, True):
                v = ref.rvec(box, ng) if config else ref.kvec(box, ng)
                got = lib.ylm_store(ell, m, box, ng, config)
                want = ref.ylm(ell, m, v)
                rec.valid()
                rec.step()
                rec.state((key, ell, m, config))
                if np.abs(got - want).max() > 1e-10:
                    i = np.unravel_index(np.abs(got - want).argmax(), ng)
                    rec.fail(f'{key}:l{ell}', f'Y_{ell},{m} '
                             f'{"config" if config else "fourier"} at {i}: '
                             f'{got[i]} != {want[i]}')


def main():
    ck = core.Check('P04')
    lib.prepare()
    th = ck.tier == 'thorough'
    cases = []
    for ci, (box, ng) in enumerate(CONFIGS):
        for scheme in SCHEMES:
            for inter in (False, True):
                k = f'g{ng[0]}x{ng[1]}x{ng[2]}:{scheme}:' \
                    f'{"interlaced" if inter else "plain"}'
                depth = 3
                if th and (scheme, ci) in (('tsc', 0), ('pcs', 1)):
                    depth = 4
                for f in range(len(OPS)):
                    cases.append((f'{k}:{"-".join(map(str, OPS[f]))}', (
                        box, ng, scheme, inter, depth, [f])))
    if not th:
        cases = [c for c in cases if c[1][2] in ('tsc', 'pcs')
                 or c[1][0] == CONFIGS[1][0]]
    ck.run_cases('histories', cases, history_case, timeout=800)
    nc = [(f'norm:g{ng[0]}x{ng[1]}x{ng[2]}:{s}:{i}', (box, ng, s, i))
          for box, ng in CONFIGS for s in SCHEMES for i in (False, True)]
    ck.run_cases('powerlaw-norm', nc, norm_case)
    yc = [(f'ylm:g{ng[0]}x{ng[1]}x{ng[2]}', (box, ng, 8 if th else 5))
          for box, ng in CONFIGS + [((1., 1., 1.), (7, 2, 1)),
                                    ((3., 2., 1.), (6, 6, 6))]]
    ck.run_cases('harmonics', yc, ylm_case)
    return ck.finish(
        rule='every operation sequence up to the stated depth over the '
             'alphabet; a state is one history in one configuration')
