"""P06: every grid vector is counted in exactly the bin that contains it.

Exhaustive over a product of box shapes, grids of every parity, spaces and
binnings (inside, across and beyond the Nyquist range; edges on and off grid
modes): the recorded vectors, the mode/pair counts and effective coordinates
of two-point statistics, and those of band-limited three-point fields are
compared with a brute-force enumeration of the whole grid.
"""
import itertools
import math
import warnings

import numpy as np

from vt import build, core, lib, ref

BOXES = [((64., 64., 64.), (4, 4, 4)), ((64., 64., 64.), (5, 5, 5)),
         ((32., 64., 128.), (4, 6, 7)), ((60., 64., 70.), (3, 8, 5)),
         ((64., 32., 16.), (8, 2, 3)), ((100., 100., 100.), (1, 4, 6)),
         ((64., 64., 64.), (8, 8, 8)), ((10., 20., 40.), (9, 7, 6)),
         ((100., 130., 90.), (24, 19, 17)), ((3., 300., 5.), (2, 150, 3))]


def binnings(space, box, ng):
    """(label, edges, exact) lists."""
    u = max(box)/max(ng) if space == 'config' else 2*math.pi/max(box)
    top = u*max(ng)
    out = []
    for a, b, n in ((0., .5, 2), (.01, 1.03, 3), (.37, 2.61, 4),
                    (.37, 5.11, 6), (1.51, 1.63, 1), (2.2, 9.7, 9),
                    (.1, 30., 2), (40., 50., 3)):
        out.append((f'lin{a}-{b}', np.linspace(a*u, b*u, n + 1)))
    out.append(('log', np.geomspace(.3*u, 4.7*u, 6)))
    # edges exactly on axis modes
    out.append(('onmode', np.arange(0, 5)*u))
    out.append(('onmode1', np.array([1., 2., 4.])*u))
    out.append(('all', np.array([0., 2*top])))
    out.append(('many', np.linspace(.3*u, 20.7*u, 121)))
    return out


def brute(space, box, ng):
    v = ref.rvec(box, ng) if space == 'config' else ref.kvec(box, ng)
    v = np.stack(np.broadcast_arrays(*v), axis=-1).reshape(-1, 3)
    return v, np.sqrt((v**2).sum(axis=1))


def bin_problem(got, edges, v, s, u):
    """Compare recorded rows with brute force; ties within rounding may fall
    on either side of a bin edge, unless the edge is exactly on the value."""
    n = len(edges) - 1
    lo, hi = edges[:-1], edges[1:]
    tie = np.any(np.abs(s[:, None] - edges[None, :]) < 1e-12*u, axis=1) & \
        ~np.any(s[:, None] == edges[None, :], axis=1)
    idx = np.searchsorted(edges, s, side='right') - 1
    idx[(s >= edges[-1])] = -1
    want = {}
    for i in range(len(v)):
        want[tuple(np.round(v[i]/u, 9) + 0.)] = (idx[i], tie[i])
    if len(want) != len(v):
        return 'model: duplicated vectors'
    seen = set()
    last = -1
    for row in got:
        b = int(row[0])
        if not 0 <= b < n:
            return f'bin index {b} of {n}'
        if row[1] != lo[b] or row[2] != hi[b]:
            return f'edges {row[1:3]} recorded for bin {b}'
        if b < last:
            return 'records not sorted by bin'
        last = b
        k = tuple(np.round(row[3:]/u, 9) + 0.)
        if k not in want:
            return f'vector {row[3:]} is not a grid vector'
        if k in seen:
            return f'vector {row[3:]} recorded twice'
        seen.add(k)
        w, t = want[k]
        if w != b and not t:
            return f'vector {row[3:]} (length {np.sqrt((row[3:]**2).sum())})'\
                   f' recorded in bin {b} instead of {w}'
    for k, (w, t) in want.items():
        if w >= 0 and not t and k not in seen:
            return f'vector {np.multiply(k, u)} of bin {w} not recorded'
    return None


def record_case(key, payload, rec):
    space, box, ng, th = payload
    v, s = brute(space, box, ng)
    u = max(box)/max(ng) if space == 'config' else 2*math.pi/max(box)
    st = 'powspec' if space == 'fourier' else '2pcf'
    t0 = lib.trackers()
    p = lib.mkparams(box, ng, statistic_type=st, bin_min=1e-3*u,
                     bin_max=.5*u, num_bins=2)
    for label, e in binnings(space, box, ng):
        b = lib.Bin(space, 'lin').set_edges(e)
        fs = lib.Fs(p, plan=False)
        save = f'bv-{label}.txt'
        sizes, rows = fs.record(b, save)
        rec.step()
        rec.valid()
        rec.state((key, label))
        if len(set(sizes[[0, 2, 3, 4, 5]])) != 1 or sizes[1] != len(e) - 1:
            rec.fail(f'{key}:{label}', f'inconsistent sizes {sizes}')
        msg = bin_problem(rows, e, v, s, u)
        if msg:
            rec.fail(f'{key}:{label}', msg)
        rec.outcome((label, len(rows)))
        # the saved file states the same records
        f = np.loadtxt(save, ndmin=2, comments='#')
        if f.size == 0:
            f = np.zeros((0, 6))
        if f.shape != (len(rows), 6) or not np.allclose(
                f, rows, rtol=1e-6, atol=1e-6*u):
            rec.fail(f'{key}:{label}:file', f'saved {f.shape} records differ'
                     f' from the {rows.shape} returned')
        fs.close()
        b.close()
    p.close()
    t1 = lib.trackers()
    if abs(t1['gb'] - t0['gb']) > 1e-12:
        rec.fail(f'{key}:memory', f'memory count {t0["gb"]} -> {t1["gb"]}')


def counts(edges, s):
    n = np.histogram(s, bins=edges)[0]
    # np.histogram closes the last bin; edges here are off the modes
    e = np.array([s[(a <= s) & (s < b)].mean() if np.any((a <= s) & (s < b))
                  else (a + b)/2 for a, b in zip(edges[:-1], edges[1:])])
    return n, e


def stats_case(key, payload, rec):
    """Two-point mode/pair counts and effective coordinates."""
    space, box, ng = payload
    v, s = brute(space, box, ng)
    u = max(box)/max(ng) if space == 'config' else 2*math.pi/max(box)
    st = 'powspec' if space == 'fourier' else '2pcf'
    p = lib.mkparams(box, ng, statistic_type=st, bin_min=1e-3*u,
                     bin_max=.5*u, num_bins=2)
    ds = 1e-5 if space == 'fourier' else .1
    m = lib.Mesh(p)
    m.put(np.ones(ng))
    for label, e in binnings(space, box, ng):
        if label.startswith('onmode'):
            e = e + .13*u
        if len(e) > 1 and np.min(np.abs(s[:, None] - e[None, :])) < 1.5*ds \
                and e[0] > 0:
            # edges within the documented sampling interval of a mode
            e = e + .0377*u
        near = np.abs(s[:, None] - e[None, :])
        if np.any((near < 1.5*ds) & (s[:, None] > 0)):
            continue
        b = lib.Bin(space, 'lin').set_edges(e)
        fs = lib.Fs(p)
        n, k, *_ = fs.twopt(m, m, 0j, 0, 0, b, config=space == 'config')
        wn, wk = counts(e, s)
        rec.step()
        rec.valid()
        rec.state((key, label))
        if list(n) != list(wn):
            rec.fail(f'{key}:{label}', f'counts {n} want {wn}, edges {e}')
        elif np.abs(k - wk).max() > 1e-9*u:
            rec.fail(f'{key}:{label}', f'effective coordinates {k} want '
                     f'{wk}, edges {e}')
        fs.close()
        b.close()
    m.close()
    p.close()


def band_case(key, payload, rec):
    """Band-limited fields: mode counts and effective wavenumbers."""
    box, ng = payload
    v, s = brute('fourier', box, ng)
    u = 2*math.pi/max(box)
    p = lib.mkparams(box, ng, bin_min=1e-3*u, bin_max=.5*u, num_bins=2)
    src, dst = lib.Mesh(p), lib.Mesh(p)
    src.put(np.ones(ng))
    ylm = np.ones(ng, dtype=complex)
    for label, e in binnings('fourier', box, ng):
        if label.startswith('onmode'):
            e = e + .13*u
        for a, b in zip(e[:-1], e[1:]):
            sel = (a <= s) & (s < b)
            keff, nm = dst.band(src, ylm, a, b)
            rec.step()
            rec.valid()
            rec.state((key, label, a))
            tie = np.any(np.abs(s - a) < 1e-12*u) or \
                np.any(np.abs(s - b) < 1e-12*u)
            if tie:
                continue
            if nm != sel.sum():
                rec.fail(f'{key}:{label}', f'{nm} modes in [{a}, {b}), want '
                         f'{sel.sum()}')
            elif nm and abs(keff - s[sel].mean()) > 1e-9*u:
                rec.fail(f'{key}:{label}', f'keff {keff} want '
                         f'{s[sel].mean()}')
    src.close()
    dst.close()
    p.close()


_PKG = None


def setup():
    import sys
    sys.path.insert(0, str(_PKG))
    warnings.simplefilter('ignore')


def py_case(key, payload, rec):
    from triumvirate.dataobjs import Binning
    from triumvirate.fieldmesh import record_binned_vectors
    from triumvirate.parameters import ParameterSet, fetch_paramset_template
    space, box, ng, how = payload
    v, s = brute(space, box, ng)
    u = max(box)/max(ng) if space == 'config' else 2*math.pi/max(box)
    for label, e in binnings(space, box, ng):
        if len(e) < 3:
            # parameter sets require two bins
            continue
        b = Binning(space, 'lin')
        b.set_custom_bins(e)
        kw = dict(boxsize=list(box), ngrid=list(ng))
        if how != 'bare':
            d = fetch_paramset_template('dict')
            # the stored grid is different when it is to be overridden
            d.update(boxsize=dict(zip('xyz', box if how == 'set' else
                                      (999., 888., 777.))),
                     ngrid=dict(zip('xyz', ng if how == 'set' else
                                    (6, 7, 8))),
                     range=[1e-4, 1e-3], num_bins=3,
                     degrees=dict(ell1=0, ell2=0, ELL=0),
                     statistic_type='powspec' if space == 'fourier'
                     else '2pcf', verbose=60)
            ps = ParameterSet(param_dict=d)
            kw = dict(paramset=ps) if how == 'set' else dict(
                kw, paramset=ps)
            before = repr(dict(ps._params))
        out = record_binned_vectors(b, **kw)
        rows = np.column_stack([out[q].astype(float) for q in (
            'index', 'lower_edge', 'upper_edge', 'vecx', 'vecy', 'vecz')])
        rec.step()
        rec.valid()
        rec.state((key, label))
        msg = bin_problem(rows, e, v, s, u)
        if msg:
            rec.fail(f'{key}:{label}', msg)
        if how == 'set' and repr(dict(ps._params)) != before:
            rec.fail(f'{key}:{label}:caller', 'the parameter set passed in '
                     'was modified')


def main():
    global _PKG
    ck = core.Check('P06')
    lib.prepare()
    _PKG = build.python_package()
    th = ck.tier == 'thorough'
    boxes = list(BOXES)
    if th:
        boxes += [(bx, g) for bx in ((64., 64., 64.), (30., 70., 110.))
                  for g in itertools.product((2, 3, 5, 8), repeat=3)
                  if (bx, g) not in BOXES]

    def nm(sp, bx, g):
        return f'{sp}:b{bx[0]:g}x{bx[1]:g}x{bx[2]:g}:g{g[0]}x{g[1]}x{g[2]}'
    prod = [(sp, bx, g) for sp in ('fourier', 'config') for bx, g in boxes]
    ck.run_cases('records', [(f'rec:{nm(*c)}', (*c, th)) for c in prod],
                 record_case)
    ck.run_cases('records-threads', [(f'rec4:{nm(*c)}', (*c, th))
                                     for c in prod[:len(prod)//(4 if th
                                                                else 1)]],
                 record_case, threads=4, nproc=4)
    ck.run_cases('two-point-counts', [(f'2pt:{nm(*c)}', c) for c in prod],
                 stats_case)
    ck.run_cases('band-counts', [(f'band:{nm("k", *c)}', c) for c in boxes],
                 band_case)
    ck.run_cases('python-records', [
        (f'py:{how}:{nm(*c)}', (*c, how)) for c in prod
        for how in ('bare', 'set', 'override')], py_case, setup=setup)
    return ck.finish(
        rule='product of boxes, grids, spaces and binnings; a state is one '
             'binning on one grid, all of whose vectors are enumerated')
