"""P03: catalogue operation histories (C++ objects and Python objects).

Breadth-first exploration of all operation sequences up to a depth over two
catalogues, against a boring array model; every state is checked for:
coordinates, derived totals/extents, untouched columns, in-box placement after
periodic wrapping, and preserved relative offsets.
"""
import itertools
import warnings

import numpy as np

from vt import build, core, lib

BOX = np.array([8., 12., 5.])
D1 = np.array([.3, -7.25, 40.])
D2 = np.array([-8., 12., 5.])
NG = np.array([4, 5, 2])


def datasets():
    e = np.nextafter
    a = np.array([[0., 0., 0.], [8., 12., 5.], [-8., -24., -5.],
                  [e(8., 0), e(12., 0), e(5., 0)]])
    b = np.array([[-1e-20, -5e-324, -1e-17], [16., 36., 10.],
                  [.1, .2, .3], [7.99, 11.3, 4.2], [-.1, -11.9, 7.5]])
    c = np.array([[3.7, 2.2, 1.]])
    d = np.array([[1e3, -2e3, 5e2], [1001.5, -1993., 504.9],
                  [1003.25, -1998., 501.]])
    out = []
    i = np.arange(3001.)
    f = np.column_stack([np.sin(i*1.3)*90, np.cos(i*.7)*50 - 20,
                         (i*37 % 101)*1.5 - 60])
    for x in (a, b, c, d, f):
        n = len(x)
        i = np.arange(n) % 7
        out.append(np.column_stack([x, .1 + .05*i, 1. + .5*i, 2. - .25*i]))
    return out


def wrap(x, L):
    """Model of periodic placement: congruent point in [0, L)."""
    r = np.fmod(x, L)
    r = np.where(r < 0, r + L, r)
    return np.where(r >= L, 0., r)


class Mod:
    def __init__(self, sets):
        self.rows = [s.copy() for s in sets]

    def copy(self):
        return Mod(self.rows)

    def lo(self, c):
        return self.rows[c][:, :3].min(axis=0)

    def hi(self, c):
        return self.rows[c][:, :3].max(axis=0)

    def off(self, c, d):
        self.rows[c][:, :3] -= d


F = np.array([.02, .1, 0.])
FG = np.array([1., 0., .5])

OPS = [('offset', 0, 0), ('offset', 0, 1), ('periodic', 0), ('centre', 0),
       ('centre', 0, 1), ('pad', 0), ('pad', 0, 1), ('padg', 0),
       ('padg', 0, 1), ('reload', 0), ('offset', 1, 0), ('periodic', 1),
       ('refresh', 0)]


def model_step(m, op, alt):
    m = m.copy()
    k, c = op[0], op[1]
    if k == 'offset':
        m.off(c, (D1, D2)[op[2]])
    elif k == 'periodic':
        m.rows[c][:, :3] = wrap(m.rows[c][:, :3], BOX)
    elif k in ('centre', 'pad', 'padg'):
        r = op[2] if len(op) > 2 else c
        if k == 'centre':
            d = (m.lo(r) + m.hi(r))/2 - BOX/2
        elif k == 'pad':
            d = m.lo(r) - F*BOX
        else:
            d = m.lo(r) - FG*BOX/NG
        m.off(c, d)
        if r != c:
            m.off(r, d)
    elif k == 'reload':
        m.rows[c] = alt.copy()
    return m


def cpp_apply(cats, op, alt):
    k, c = op[0], op[1]
    ref = cats[op[2]] if len(op) > 2 and k != 'offset' else None
    if k == 'offset':
        cats[c].offset((D1, D2)[op[2]])
    elif k == 'periodic':
        cats[c].periodic(BOX)
    elif k == 'centre':
        cats[c].centre(BOX, ref)
    elif k == 'pad':
        cats[c].pad(BOX, F, ref)
    elif k == 'padg':
        cats[c].pad_grids(BOX, NG, FG, ref)
    elif k == 'reload':
        cats[c].load(alt)
    elif k == 'refresh':
        cats[c].totals()
        cats[c].extents()


def circ_equal(got, want, L, tol):
    d = np.abs(got - want)
    return np.minimum(d, np.abs(L - d)) <= tol


def compare(rec, key, hist, tag, rows, props, want, mod_l):
    """Compare one catalogue with the model rows."""
    n = len(want)
    if rows.shape[0] != n:
        return f'{tag}: {rows.shape[0]} rows instead of {n}'
    scale = max(100., np.abs(want[:, :3]).max())
    tol = 1e-12*scale
    pos = rows[:, :3]
    if not np.all(np.isfinite(pos)):
        return f'{tag}: non-finite positions'
    if mod_l:
        if not (np.all(pos >= 0) and np.all(pos < BOX)):
            return f'{tag}: wrapped positions outside [0, L): ' \
                   f'{pos.tolist()}'
        good = circ_equal(pos, want[:, :3], BOX, tol)
    else:
        good = np.abs(pos - want[:, :3]) <= tol
    if not np.all(good):
        return f'{tag}: positions {pos.tolist()} want ' \
               f'{want[:, :3].tolist()}'
    if np.any(rows[:, 3:6] != want[:, 3:6]):
        return f'{tag}: nz/weight columns changed'
    if rows.shape[1] > 6 and np.any(
            np.abs(rows[:, 6] - want[:, 4]*want[:, 5]) > 1e-14):
        return f'{tag}: overall weights wrong'
    if props['ntotal'] != n or \
            abs(props['wtotal'] - (want[:, 4]*want[:, 5]).sum()) > 1e-9 or \
            abs(props['wstotal'] - want[:, 4].sum()) > 1e-9:
        return f'{tag}: totals {props}'
    if np.any(props['pos_min'] != pos.min(axis=0)) or \
            np.any(props['pos_max'] != pos.max(axis=0)) or np.any(
            np.abs(props['pos_span'] - (pos.max(axis=0) - pos.min(axis=0)))
            > tol):
        return f'{tag}: extents {props} do not match the positions'
    return None


def cpp_case(key, payload, rec):
    ia, ib, depth, first = payload
    ds = datasets()
    alt = ds[(ia + 2) % 4]

    def execute(hist):
        t0 = lib.trackers()
        cats = [lib.Cat(ds[ia]), lib.Cat(ds[ib])]
        m = Mod([ds[ia], ds[ib]])
        msg = None
        for i, op in enumerate(hist):
            cpp_apply(cats, op, alt)
            m = model_step(m, op, alt)
            # the catalogue just wrapped is compared modulo the box; then
            # the model continues from the implementation's branch choice
            if op[0] == 'periodic':
                c = op[1]
                msg = compare(rec, key, hist, 'AB'[c], cats[c].get(),
                              cats[c].props(), m.rows[c], True)
                if msg:
                    break
                m.rows[c][:, :3] = cats[c].get()[:, :3]
        if not msg:
            for c in (0, 1):
                msg = msg or compare(
                    rec, key, hist, 'AB'[c], cats[c].get(), cats[c].props(),
                    m.rows[c], False)
        for c in cats:
            c.close()
        t1 = lib.trackers()
        rec.valid()
        if msg:
            rec.fail(f'{key}:{hist[-1][0]}', f'history {hist}: {msg}')
        elif abs(t1['gb'] - t0['gb']) > 1e-13:
            rec.fail(f'{key}:memory-count', f'history {hist}: memory count '
                     f'{t0["gb"]} -> {t1["gb"]}')
        return [r.tobytes() for r in m.rows]

    seen = set()

    def go(hist):
        for op in ([OPS[first]] if not hist else OPS):
            h = hist + [op]
            rec.step()
            st = execute(h)
            rec.state((key, st))
            if len(rec.fails) > 8:
                return
            if len(h) < depth:
                go(h)
    go([])
    rec.sample(dict(sets=[ia, ib], first=OPS[first], depth=depth))


# -- Python objects -----------------------------------------------------
POPS = [('offset', 0, 0), ('offset', 0, 1), ('periodise', 0), ('centre', 0),
        ('centre', 0, 1), ('pad', 0, 'list'), ('pad', 0, 'array'),
        ('pad', 0, 'scalar', 1), ('padg', 0, 'list'), ('padg', 0, 'array', 1),
        ('setpos', 0), ('setws', 0), ('meandens', 0), ('los', 0),
        ('periodise', 1), ('convert', 0)]


def py_setup():
    import sys
    sys.path.insert(0, str(_PKG))
    warnings.simplefilter('ignore')


_PKG = None


def py_case(key, payload, rec):
    from triumvirate.catalogue import ParticleCatalogue
    ia, ib, kind, depth, first = payload
    ds = [d.copy() for d in datasets()]
    for d in ds:
        d[-1, :3] = 0.
    if kind == 'int':
        for d in ds:
            d[:, :3] = np.floor(d[:, :3])
            d[:, 5] = np.arange(1, len(d) + 1)
            d[:, 3] = 3.

    def mk(rows):
        cols = [rows[:, i].copy() for i in range(6)]
        if kind == 'int':
            cols = [c.astype(int) for c in cols[:3]] + [
                cols[3].astype(int), cols[4]] + [
                np.arange(1, len(rows) + 1)]
        elif kind == 'list':
            cols = [c.tolist() for c in cols]
        elif kind == 'f4':
            cols = [c.astype(float) for c in cols[:3]] \
                + [c.astype(np.float32) for c in cols[3:]]
        keep = [np.array(c, copy=True) for c in cols]
        cat = ParticleCatalogue(*cols[:3], nz=cols[3], ws=cols[4],
                                wc=cols[5])
        return cat, cols, keep

    def get(cat):
        return np.column_stack([np.asarray(cat[q], dtype=float) for q in (
            'x', 'y', 'z', 'nz', 'ws', 'wc')])

    def props(cat):
        return dict(ntotal=cat.ntotal, wtotal=cat.wtotal,
                    wstotal=cat.wstotal,
                    pos_min=np.array([cat.bounds[a][0] for a in 'xyz']),
                    pos_max=np.array([cat.bounds[a][1] for a in 'xyz']),
                    pos_span=np.array([cat.spans[a] for a in 'xyz']))

    def execute(hist):
        a, b = mk(ds[ia]), mk(ds[ib])
        cats = [a[0], b[0]]
        m = Mod([ds[ia], ds[ib]])
        if kind == 'f4':
            for r in m.rows:
                r[:, 3:] = r[:, 3:].astype(np.float32)
        msg = None
        for op in hist:
            k, c = op[0], op[1]
            if k == 'offset':
                cats[c].offset_coords((D1, D2)[op[2]])
                m.off(c, (D1, D2)[op[2]])
            elif k == 'periodise':
                d = (m.lo(c) + m.hi(c))/2 - BOX/2
                m.off(c, d)
                m.rows[c][:, :3] = wrap(m.rows[c][:, :3], BOX)
                cats[c].periodise(list(BOX))
                msg = compare(rec, key, hist, 'AB'[c], get(cats[c]),
                              props(cats[c]), m.rows[c], True)
                if msg:
                    break
                m.rows[c][:, :3] = get(cats[c])[:, :3]
            elif k == 'centre':
                r = op[2] if len(op) > 2 else c
                m = model_step(m, op, None)
                cats[c].centre(list(BOX), cats[r] if r != c else None)
            elif k in ('pad', 'padg'):
                r = op[3] if len(op) > 3 else c
                f = F if k == 'pad' else FG
                v = {'list': list(f), 'array': f.copy(), 'scalar': .05}[op[2]]
                d = m.lo(r) - np.multiply(
                    v, BOX if k == 'pad' else BOX/NG)
                m.off(c, d)
                if r != c:
                    m.off(r, d)
                kw = dict(boxsize_pad=v) if k == 'pad' else dict(
                    ngrid=list(NG), ngrid_pad=v)
                cats[c].pad(list(BOX), catalogue_ref=cats[r] if r != c
                            else None, **kw)
                if op[2] == 'array' and np.any(v != f):
                    msg = 'padding argument modified'
                    break
            elif k == 'setpos':
                x = np.linspace(-1., 2., len(m.rows[c]))
                cats[c]['x'] = x
                m.rows[c][:, 0] = x
            elif k == 'setws':
                w = np.linspace(3., 4., len(m.rows[c]))
                cats[c]['ws'] = w
                m.rows[c][:, 4] = w
            elif k == 'meandens':
                cats[c].compute_mean_density(boxsize=list(BOX))
                m.rows[c][:, 3] = len(m.rows[c])/np.prod(BOX)
            elif k == 'los':
                los = np.asarray(cats[c].compute_los(), dtype=float)
                p = get(cats[c])[:, :3]
                nn = np.sqrt((p**2).sum(axis=1))
                if los.shape != p.shape or np.abs(
                        los - p/np.where(nn == 0, 1, nn)[:, None]
                        ).max() > 1e-12:
                    msg = f'lines of sight {los} of {p}'
                    break
            elif k == 'convert':
                cats[c]._convert_to_cpp_catalogue()
        if not msg:
            for c in (0, 1):
                msg = msg or compare(
                    rec, key, hist, 'AB'[c], get(cats[c]), props(cats[c]),
                    m.rows[c], False)
                if len(cats[c]) != len(m.rows[c]):
                    msg = msg or 'length'
        for t in (a, b):
            for x, y in zip(t[1], t[2]):
                if np.any(np.asarray(x) != y):
                    msg = msg or "caller's arrays were modified"
        rec.valid()
        if msg:
            rec.fail(f'{key}:{hist[-1][0]}', f'history {hist}: {msg}')
        return [r.tobytes() for r in m.rows]

    def go(hist):
        for op in ([POPS[first]] if not hist else POPS):
            h = hist + [op]
            rec.step()
            try:
                st = execute(h)
            except Exception as e:
                rec.fail(f'{key}:{op[0]}',
                         f'history {h}: {type(e).__name__}: {e}')
                st = None
            rec.state((key, st))
            if len(rec.fails) > 8:
                return
            if len(h) < depth:
                go(h)
    go([])
    rec.sample(dict(python=True, sets=[ia, ib], kind=kind,
                    first=POPS[first], depth=depth))


def main():
    global _PKG
    ck = core.Check('P03')
    lib.prepare()
    _PKG = build.python_package()
    th = ck.tier == 'thorough'
    cases = [(f'cpp:{ia}{ib}:{"-".join(map(str, OPS[f]))}',
              (ia, ib, 4 if th and ia < 2 else 3, f))
             for ia, ib in itertools.product(range(4), repeat=2)
             for f in range(len(OPS))]
    # thousands of particles
    cases += [(f'cpp:{ia}{ib}:{"-".join(map(str, OPS[f]))}',
               (ia, ib, 3 if th else 2, f))
              for ia, ib in ((4, 0), (1, 4), (4, 4))
              for f in range(len(OPS))]
    ck.run_cases('cpp-histories', cases, cpp_case, timeout=600)
    pairs = [(0, 1), (1, 0), (2, 3), (3, 1)]
    pc = [(f'py:{ia}{ib}:{kind}:{"-".join(map(str, POPS[f]))}',
           (ia, ib, kind, 3 if th else 2, f))
          for ia, ib in (pairs if th else pairs[:3])
          for kind in ('float', 'int', 'list', 'f4')
          for f in range(len(POPS))]
    pc += [(f'py:{ia}{ib}:float:{"-".join(map(str, POPS[f]))}',
            (ia, ib, 'float', 2 if th else 1, f))
           for ia, ib in ((4, 0), (1, 4)) for f in range(len(POPS))]
    ck.run_cases('python-histories', pc, py_case, setup=py_setup,
                 timeout=800)
    return ck.finish(
        rule='all operation sequences up to depth 3-4 (C++) and 2-3 '
             '(Python) over two catalogues; a state is a distinct pair of '
             'catalogue contents')
