"""P05: binning objects stay consistent under every history of settings.

Exhaustive: (a) the product of spaces, schemes, ranges and numbers (degenerate
ones included) on fresh objects; (b) every sequence of set operations up to a
depth (accepted and rejected ones) on one object, C++ and Python, against a
model that predicts edges, centres, widths, scheme, range and number.
"""
import itertools
import math
import warnings

import numpy as np

from vt import build, core, lib

NPAD = 5
PAD = dict(fourier=1e-3, config=10.)


class Reject(Exception):
    pass


def edges(scheme, lo, hi, n, pad):
    """Model: bin edges of a range request, or Reject."""
    if not (lo >= 0 and n > 0 and lo < hi):
        raise Reject
    if scheme == 'lin':
        return np.array([lo + (hi - lo)*i/n for i in range(n)] + [hi])
    if scheme == 'log':
        if lo == 0:
            raise Reject
        return np.array([lo*(hi/lo)**(i/n) for i in range(n)] + [hi])
    if scheme in ('linpad', 'logpad'):
        if n <= NPAD or hi <= NPAD*pad:
            raise Reject
        e = [pad*i for i in range(NPAD)]
        s, m = NPAD*pad, n - NPAD
        e += [s + (hi - s)*i/m if scheme == 'linpad' else s*(hi/s)**(i/m)
              for i in range(m)] + [hi]
        return np.array(e)
    raise Reject


def grid_edges(space, box, ng):
    if not (box > 0 and ng >= 2):
        raise Reject
    w = box/ng if space == 'config' else 2*math.pi/box
    hi = (box/2 if space == 'config' else math.pi*ng/box) + w/2
    return np.linspace(0., hi, ng//2 + 1), hi


class Model:
    def __init__(self, space, scheme, pad):
        self.space, self.scheme, self.pad = space, scheme, pad
        self.edges, self.lo, self.hi = None, None, None

    def apply(self, op):
        """Returns whether the operation is accepted."""
        try:
            if op[0] == 'range':
                e = edges(self.scheme, *op[1:], self.pad)
                self.edges, self.lo, self.hi = e, op[1], op[2]
            elif op[0] == 'grid':
                e, hi = grid_edges(self.space, np.max(op[1]), np.min(op[2]))
                self.edges, self.lo, self.hi, self.scheme = e, 0., hi, 'lin'
            else:
                e = np.array(op[1], dtype=float)
                self.edges, self.lo, self.hi = e, e[0], e[-1]
                self.scheme = 'custom'
        except Reject:
            return False
        return True


def view_problem(v, m):
    """Compare a binning's public attributes with the model."""
    if v['scheme'] != m.scheme:
        return f"scheme {v['scheme']} instead of {m.scheme}"
    if m.edges is None:
        if len(v['edges']) or len(v['centres']) or len(v['widths']):
            return f'bins set although none was accepted: {v}'
        return None
    e, n = m.edges, len(m.edges) - 1
    if v['num_bins'] != n or len(v['edges']) != n + 1 or \
            len(v['centres']) != n or len(v['widths']) != n:
        return f'{n} bins expected: {v}'
    tol = 1e-12*max(abs(e[-1]), 1e-300)
    if np.abs(v['edges'] - e).max() > tol:
        return f"edges {v['edges']} want {e}"
    if np.abs(v['centres'] - (e[1:] + e[:-1])/2).max() > tol:
        return f"centres {v['centres']} of edges {e}"
    if np.abs(v['widths'] - np.diff(e)).max() > tol:
        return f"widths {v['widths']} of edges {e}"
    if not np.all(np.diff(v['edges']) > 0):
        return f"edges not increasing {v['edges']}"
    if v['max'] != v['edges'][-1] or abs(v['max'] - m.hi) > tol or \
            abs(v['min'] - m.lo) > tol:
        return f"range [{v['min']}, {v['max']}] want [{m.lo}, {m.hi}]"
    return None


SCHEMES = ('lin', 'log', 'linpad', 'logpad')

OPS = {
    'config': [('range', 5., 205., 20), ('range', 0., 100., 7),
               ('range', 1e-3, 60., 6), ('range', 3., 3., 4),
               ('range', -1., 10., 3), ('range', 10., 100., 0),
               ('range', 50., 10., 6),
               ('grid', 1000., 16), ('grid', [300., 500., 400.], [8, 5, 7]),
               ('grid', 10., 1), ('custom', [1., 2.5, 7., 7.5]),
               ('custom', [0., 100.])],
    'fourier': [('range', .005, .105, 10), ('range', 0., .2, 7),
                ('range', 1e-5, .006, 6), ('range', .1, .1, 4),
                ('range', -.1, .1, 3), ('range', .01, .1, 0),
                ('range', .2, .01, 6),
                ('grid', 1000., 16), ('grid', [300., 500., 400.], [8, 5, 7]),
                ('grid', 10., 1), ('custom', [.01, .025, .07, .075]),
                ('custom', [0., .1])],
}


class CppObj:
    def __init__(self, space, scheme):
        self.b = lib.Bin(space, scheme)

    def do(self, op):
        try:
            if op[0] == 'range':
                self.b.set(*op[1:])
            elif op[0] == 'grid':
                self.b.set_mesh(float(np.max(op[1])), int(np.min(op[2])))
            else:
                self.b.set_edges(op[1])
        except lib.LibError:
            return False
        return True

    def view(self):
        return self.b.get()

    def close(self):
        self.b.close()


class PyObj:
    def __init__(self, space, scheme):
        from triumvirate.dataobjs import Binning
        self.b = Binning(space, scheme)

    def do(self, op):
        try:
            if op[0] == 'range':
                self.b.set_bins(*op[1:])
            elif op[0] == 'grid':
                self.b.set_grid_based_bins(op[1], op[2])
            else:
                self.b.set_custom_bins(op[1])
        except (ValueError, RuntimeError):
            return False
        return True

    def view(self):
        b = self.b
        return dict(num_bins=b.num_bins, edges=np.array(b.bin_edges),
                    centres=np.array(b.bin_centres),
                    widths=np.array(b.bin_widths), min=b.bin_min,
                    max=b.bin_max, scheme=b.scheme)

    def close(self):
        pass


def history_case(key, payload, rec):
    cls, space, scheme, first, depth = payload
    ops = OPS[space]
    make = dict(cpp=CppObj, py=PyObj)[cls]
    for tail in itertools.chain.from_iterable(
            itertools.product(range(len(ops)), repeat=d)
            for d in range(depth)):
        hist = (first, *tail)
        obj, m = make(space, scheme), Model(space, scheme, PAD[space])
        for i in hist:
            want = m.apply(ops[i])
            got = obj.do(ops[i])
            rec.step()
            if want != got:
                rec.fail(key, f'history {[ops[j] for j in hist]}: {ops[i]} '
                         f'{"accepted" if got else "rejected"}')
                break
        else:
            v = obj.view()
            rec.valid()
            msg = view_problem(v, m)
            if msg:
                rec.fail(key, f'history {[ops[j] for j in hist]}: {msg}')
            rec.state((key, m.scheme, None if m.edges is None
                       else m.edges.tolist(), tail[-1:] or first))
        obj.close()
        if len(rec.fails) > 5:
            return


LO = dict(config=(0., 1e-3, .5, 10., 49.), fourier=(0., 1e-5, .001, .01, .1))
HI = dict(config=(.5, 10., 50., 51., 200., 1e4),
          fourier=(.001, .005, .0051, .01, .2, 3.))


def product_case(key, payload, rec):
    cls, space, scheme, nmax = payload
    for lo, hi, n in itertools.product(LO[space], HI[space],
                                       range(-1, nmax)):
        obj = dict(cpp=CppObj, py=PyObj)[cls](space, scheme)
        m = Model(space, scheme, PAD[space])
        want, got = m.apply(('range', lo, hi, n)), obj.do(('range', lo, hi,
                                                           n))
        rec.step()
        rec.valid()
        rec.state((space, scheme, lo, hi, n))
        msg = None
        if want != got:
            msg = f'{"accepted" if got else "rejected"}'
        elif want:
            msg = view_problem(obj.view(), m)
        if msg:
            rec.fail(key, f'{(lo, hi, n)}: {msg}')
        obj.close()


def grid_case(key, payload, rec):
    cls, space, nmax = payload
    for box, n in itertools.product((.5, 2*math.pi, 100., 1234.5, 1e4),
                                    range(0, nmax)):
        obj = dict(cpp=CppObj, py=PyObj)[cls](space, 'log')
        m = Model(space, 'log', PAD[space])
        want, got = m.apply(('grid', box, n)), obj.do(('grid', box, n))
        rec.step()
        rec.valid()
        rec.state((space, box, n))
        msg = f'{"accepted" if got else "rejected"}' if want != got else \
            view_problem(obj.view(), m) if want else None
        if msg:
            rec.fail(key, f'{(box, n)}: {msg}')
        obj.close()


def params_case(key, payload, rec):
    """Binning built from a parameter set (C++), grid-scale padding."""
    space, scheme = payload
    for box, ng in (((1000., 1000., 1000.), (64, 64, 64)),
                    ((900., 1200., 1000.), (40, 30, 50)),
                    ((500., 300., 400.), (21, 33, 8))):
        dk, dr = 2*math.pi/max(box), max(box)/min(ng)
        pad = 1.005*(dr if space == 'config' else dk)
        knyq = math.pi*min(ng)/max(box)
        his = (knyq*.5, knyq*.9) if space == 'fourier' else (
            min(box)*.3, min(box)*.45)
        for lo, hi, n in itertools.product(
                (0., his[0]/20), his, (2, 3, 6, 7, 8, 11)):
            try:
                p = lib.mkparams(
                    box, ng, statistic_type='powspec' if space == 'fourier'
                    else '2pcf', binning=scheme, bin_min=lo, bin_max=hi,
                    num_bins=n)
            except lib.LibError:
                continue
            b = lib.Bin(params=p)
            m = Model(space, scheme, pad)
            want = m.apply(('range', lo, hi, n))
            try:
                b.set()
                got = True
            except lib.LibError:
                got = False
            rec.step()
            rec.valid()
            rec.state((space, scheme, box, lo, hi, n))
            msg = f'{"accepted" if got else "rejected"}' if want != got \
                else view_problem(b.get(), m) if want else None
            if msg:
                rec.fail(key, f'{(box, ng, lo, hi, n)}: {msg}')
            # a second computation must not accumulate
            if got:
                b.set()
                msg = view_problem(b.get(), m)
                if msg:
                    rec.fail(key, f'recomputed: {msg}')
            b.close()
            p.close()


_PKG = None


def setup():
    import sys
    sys.path.insert(0, str(_PKG))
    warnings.simplefilter('ignore')


def main():
    global _PKG
    ck = core.Check('P05')
    lib.prepare()
    _PKG = build.python_package()
    th = ck.tier == 'thorough'
    cases = [(f'{c}:{sp}:{sc}:{f}', (c, sp, sc, f, 4 if th else 3))
             for c in ('cpp', 'py') for sp in OPS for sc in SCHEMES
             for f in range(len(OPS[sp]))]
    ck.run_cases('histories', cases, history_case, setup=setup)
    cases = [(f'product:{c}:{sp}:{sc}', (c, sp, sc, 130 if th else 24))
             for c in ('cpp', 'py') for sp in OPS
             for sc in (*SCHEMES, 'nonesuch', 'custom')]
    ck.run_cases('ranges', cases, product_case, setup=setup)
    cases = [(f'grid:{c}:{sp}', (c, sp, 600 if th else 70))
             for c in ('cpp', 'py') for sp in OPS]
    ck.run_cases('grids', cases, grid_case, setup=setup)
    cases = [(f'params:{sp}:{sc}', (sp, sc)) for sp in OPS for sc in SCHEMES]
    ck.run_cases('parameter-sets', cases, params_case, setup=setup)
    return ck.finish(
        rule='all histories of set operations up to the stated depth, and '
             'the full product of schemes, ranges and numbers; a state is a '
             'distinct binning configuration')
