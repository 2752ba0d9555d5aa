"""P02: results do not depend on the number or interleaving of threads.

The library is compiled with memory-access instrumentation and linked with
cc/mc.cpp, which replaces the OpenMP runtime by a controlled scheduler.  For
every workload the executions of all schedules within a preemption bound are
enumerated (all start orders x all positions of the preemptions among the
conflicting accesses of each parallel region x all threads switched to), and
the result of every execution is compared with the single-threaded one.
Parallel regions are separated by joins, so one execution explores the n-th
schedule of every region at once.
"""
import ctypes as C
import itertools

import numpy as np

from vt import core, lib
from . import stats as st

BOX, NG = (900., 1100., 1000.), (3, 2, 3)
# the first and third particles (painted by different threads) share cells on
# both interlaced meshes
FR = np.array([[.34, .46, .2], [.99, .02, .5], [.36, .47, .21],
               [.3, .5, .9]])
out5 = np.zeros(6, dtype=np.int64)


def vp(a):
    return a.ctypes.data_as(C.c_void_p)


def sched(order, pre):
    o = np.array(order, dtype=np.int32)
    at = np.array([a for a, _ in pre] or [0], dtype=np.int64)
    to = np.array([b for _, b in pre] or [0], dtype=np.int32)
    lib.L().mc_schedule(vp(o), len(o), vp(at), vp(to), len(pre))


def info():
    lib.L().mc_stats(vp(out5))
    return dict(zip(('points', 'regions', 'switches', 'all', 'pcs',
                     'live'),
                    out5.tolist()))


def rows(idx, frac=FR):
    r = st.rows((1., 1., 1.), idx)
    r[:, :3] = frac[:len(r)]*np.array(BOX)
    return r


# -- workloads: each returns a function producing the result ---------------
def w_assign(scheme, inter):
    cat = lib.Cat(rows((0, 1, 2, 4)))
    p = lib.mkparams(BOX, NG, assignment=scheme, interlace=inter)
    w = np.array([1., .5, 2., 1.25]) + 1j*np.array([.5, .25, -1., 2.])

    def f():
        m = lib.Mesh(p)
        m.assign(cat, w)
        a = m.arr()
        m.ft()
        b = m.arr()
        m.close()
        return [a, b]
    return f


def w_fields(scheme, inter):
    cd, cr = lib.Cat(rows((0, 1, 2))), lib.Cat(rows((4, 5, 6, 7)))
    ld, lr = st.los((0, 1, 2)), st.los((4, 5, 6, 7))
    p = lib.mkparams(BOX, NG, assignment=scheme, interlace=inter,
                     catalogue_type='survey')

    def f():
        out = []
        m = lib.Mesh(p)
        for quad in (False, True):
            m.ylm(cd, cr, ld, lr, .4, 2, 1, quad)
            out.append(m.arr())
        m.ylm(cr, None, lr, None, .4, 1, -1)
        out.append(m.arr())
        m.unweighted(cr)
        out.append(m.arr())
        m.fluct(cr)
        out.append(m.arr())
        m.ft()
        m.comp()
        out.append(m.arr())
        g = lib.Mesh(p)
        y = lib.ylm_store(2, 1, BOX, NG, 0)
        k = g.band(m, y, .008, .006)
        out.append(g.arr())
        g.sjl(m, y, 2, 340.)
        out.append(g.arr())
        m.ift()
        out.append(m.arr())
        p2 = p.copy().set(i_wa=1, j_wa=1)
        h = lib.Mesh(p2)
        h.put(m.arr())
        h.wa()
        out.append(h.arr())
        out += [k, y, m.norm(cr, 2), m.norm(cr, 3)]
        for x in (m, g, h):
            x.close()
        return out
    return f


def w_stats(config):
    cr = lib.Cat(rows((4, 5, 6, 7)))
    p = lib.mkparams(BOX, NG, assignment='cic', catalogue_type='survey',
                     statistic_type='2pcf' if config else 'powspec')
    b = lib.Bin('config' if config else 'fourier', 'lin').set_edges(
        [1., 401.3, 777.1] if config else [1e-5, .0083, .0171])

    def f():
        m, n = lib.Mesh(p), lib.Mesh(p)
        m.fluct(cr)
        m.ft()
        n.unweighted(cr)
        n.ft()
        s = lib.Fs(p)
        r = s.twopt(m, n, 1.5 + .2j, 2, 1, b, bool(config))
        z, bv = s.record(b)
        # the order of the records is unspecified
        bv = bv[np.lexsort(bv.T)]
        o = [*r, *bv.T]
        for x in (s, m, n):
            x.close()
        return o
    return f


def w_catalogue():
    a, b = rows((0, 1, 2, 4)), rows((4, 5, 6, 7))

    def f():
        ca, cb = lib.Cat(a), lib.Cat(b)
        out = []

        def grab():
            for c in (ca, cb):
                pr = c.props()
                out.extend([c.get(), [pr['ntotal'], pr['wtotal'],
                                      pr['wstotal']], pr['pos_min'],
                            pr['pos_max'], pr['pos_span']])
        grab()
        ca.centre(BOX, cb)
        grab()
        ca.pad(BOX, (.1, .2, .05), cb)
        grab()
        ca.pad_grids(BOX, NG, (1., .5, 2.), cb)
        grab()
        ca.offset((333., -2000., 700.))
        ca.periodic(BOX)
        grab()
        p = lib.mkparams(BOX, NG, catalogue_type='survey',
                         assignment='cic')
        for k in (0, 1, 3, 4, 5):
            out.append(lib.norm(k, cb, None, p, .3))
        p.close()
        ca.close()
        cb.close()
        return out
    return f


def w_meshes():
    fr = FR*12.
    a, b = rows((0, 1, 2, 4)), rows((4, 5, 6, 7))
    a[:, :3], b[:, :3] = fr, fr[::-1] + .5
    ca, cb = lib.Cat(a), lib.Cat(b)
    p = lib.mkparams((15., 15., 15.), NG, catalogue_type='survey')

    def f():
        return [lib.norm_meshes(ca, cb, p, .3, .1, 5., s)
                for s in ('ngp', 'cic')]
    return f


def w_ylm():
    def f():
        return [lib.ylm_store(e, m, BOX, NG, c)
                for e, m in ((0, 0), (1, -1), (2, 1)) for c in (0, 1)]
    return f


def w_sph():
    import itertools as it

    def f():
        return [np.array([lib.L().vt_coupling3(*x) for x in it.product(
            (1, 2), (1,), (1, 2), (-1, 0), (0, 1), (1, 0))])]
    return f


def w_stat(kind, deg, form='diag', inter='false'):
    three = isinstance(deg, tuple)
    four = kind.startswith(('powspec', 'bispec'))
    gpp, win = kind.endswith('gpp'), '_win' in kind
    d, r = rows((0, 1)), rows((4, 5, 6), FR[1:])
    ld, lr = st.los((0, 1)), st.los((4, 5, 6))
    cd, cr = lib.Cat(d), lib.Cat(r)
    l1, l2, L = deg if three else (0, 0, deg)
    p = lib.mkparams(
        BOX, NG, assignment='cic', interlace=inter, ell1=l1, ell2=l2, ELL=L,
        form=form, num_bins=2, i_wa=1 if kind.endswith('wa') else 0,
        catalogue_type='sim' if gpp else 'random' if win else 'survey',
        statistic_type=('bispec' if four else '3pcf-win' if win else '3pcf')
        if three else
        ('powspec' if four else '2pcf-win' if win else '2pcf'))
    b = lib.Bin('fourier' if four else 'config', 'lin').set_edges(
        [1e-5, .0083, .0171] if four else [0.,
                                           401.3, 777.1])

    def f():
        if gpp:
            t = lib.stat(kind, cd, None, None, None, p, b, 1., 1.)
        elif win:
            t = lib.stat(kind, cr, None, lr, None, p, b, .7, 1.)
        else:
            t = lib.stat(kind, cd, cr, ld, lr, p, b, 2/3, 1.)
        # real and imaginary parts together
        return [*t.T[:-4], *t.T[-4:].reshape(2, -1)]
    return f


WORK = {}
for s in st.SCHEMES:
    for i in ('false', 'true'):
        WORK[f'assign:{s}:{i}'] = (w_assign, (s, i))
for s, i in (('ngp', 'false'), ('cic', 'true'), ('tsc', 'false'),
             ('pcs', 'true')):
    WORK[f'fields:{s}:{i}'] = (w_fields, (s, i))
WORK['stats:fourier'] = (w_stats, (0,))
WORK['stats:config'] = (w_stats, (1,))
WORK['catalogue'] = (w_catalogue, ())
WORK['normalisation meshes'] = (w_meshes, ())
WORK['harmonics'] = (w_ylm, ())
for k, dg in (('powspec', 2), ('corrfunc', 2), ('powspec_gpp', 2),
              ('corrfunc_gpp', 2), ('corrfunc_win', 0)):
    WORK[f'{k}:{dg}'] = (w_stat, (k, dg))
for k, dg in (('bispec', (0, 0, 0)), ('tpcf', (0, 0, 0)),
              ('bispec_gpp', (1, 1, 0)), ('tpcf_gpp', (0, 0, 0)),
              ('tpcf_win', (0, 0, 0)), ('tpcf_win_wa', (1, 0, 1))):
    WORK[f'{k}:{dg}'] = (w_stat, (k, dg))
# every shape of the bispectrum has a loop of its own
for k in ('bispec', 'bispec_gpp'):
    for n, dg, fm in (('off-diag', (0, 0, 0), 'off-diag'),
                      ('row', (0, 0, 0), 'row'),
                      ('triu', (0, 0, 0), 'full'),
                      ('full', (2, 0, 2), 'full')):
        WORK[f'{k}:{dg}:{n}'] = (w_stat, (k, dg, fm))


def same(got, ref):
    """Compare results part by part, each on its own scale."""
    if len(got) != len(ref):
        return f'{len(got)} parts instead of {len(ref)}'
    for j, (g, r) in enumerate(zip(got, ref)):
        g, r = np.ravel(g), np.ravel(r)
        if g.shape != r.shape:
            return f'part {j}: {g.shape} instead of {r.shape}'
        s = max(np.abs(r[np.isfinite(r)]).max(initial=0.), 1e-300)
        bad = ~((np.abs(g - r) <= 1e-9*np.abs(r) + 1e-11*s)
                | (np.isnan(g) & np.isnan(r)))
        if bad.any():
            i = int(np.argmax(bad))
            return (f'part {j}, entry {i}: {g[i]} instead of {r[i]} '
                    f'({bad.sum()} differ)')
    return None


def explore(key, payload, rec):
    name, nt, order, bound, part, nparts = payload
    make, args = WORK[name]
    L = lib.L()
    L.mc_threads(1)
    L.mc_record(0)
    sched([0], [])
    f = make(*args)
    ref = f()
    L.mc_threads(nt)
    orders = list(itertools.permutations(range(nt)))
    L.mc_record(1)
    for o in (orders[0], orders[-1]):
        sched(o, [])
        f()
    L.mc_record(0)
    order = orders[order]

    def run(pre):
        sched(order, pre)
        got = f()
        i = info()
        rec.step(i['regions'])
        rec.valid()
        msg = same(got, ref)
        if msg:
            rec.fail(key, f'{name}: {nt} threads, start order {order}, '
                     f'preemptions (access number, thread offset) {pre}: {msg}')
        return i
    i = run([])
    if part == 0:
        rec.state((name, nt, order))
        rec.sample(f'{name}, {nt} threads, order {order}: {i}')
    n = i['live']

    def deeper(pre, first, depth):
        for a in range(first, n if depth == 1 else run(pre)['live']):
            if depth == 1 and a % nparts != part:
                continue
            for t in range(1, nt):
                if len(rec.fails):
                    return
                j = run(pre + [(a, t)])
                if j['switches'] < depth:
                    # the other thread has ended: nothing to preempt
                    continue
                rec.state((name, nt, order, tuple(pre), a, t))
                if depth < bound:
                    deeper(pre + [(a, t)], a + 1, depth + 1)
    if bound:
        deeper([], 0, 1)


def counts_case(key, payload, rec):
    """Numbers of threads from 1 to 8 without preemption, two orders."""
    make, args = WORK[payload]
    L = lib.L()
    L.mc_record(0)
    L.mc_threads(1)
    sched([0], [])
    f = make(*args)
    ref = f()
    for nt in range(2, 9):
        L.mc_threads(nt)
        for o in (range(nt), range(nt)[::-1]):
            sched(list(o), [])
            got = f()
            rec.step(info()['regions'])
            rec.valid()
            rec.state((key, nt, tuple(o)))
            msg = same(got, ref)
            if msg:
                rec.fail(f'{key}:{nt}', f'{payload}: {nt} threads: {msg}')


def main():
    ch = core.Check('P02')
    th = ch.tier == 'thorough'
    lib.prepare('mc')
    ch.run_cases('numbers of threads', [(f'counts:{w}', w) for w in WORK],
                 counts_case, setup=lib.L, timeout=300)
    cases = []
    for w in WORK:
        stat = WORK[w][0] is w_stat
        small = w.startswith(('assign:ngp', 'normalisation', 'catalogue'))
        for nt, bound in ((2, 2 if small and th else 1), (3, 1)):
            if nt == 3 and not th and not small:
                continue
            no = (2 if nt == 2 else 6) if th or small else 1
            nparts = 8 if (stat or th) else 2
            for o in range(no):
                for q in range(nparts):
                    cases.append((f'{w}:{nt}t:{o}:{q}',
                                  (w, nt, o, bound, q, nparts)))
    ch.run_cases('schedules', cases, explore, setup=lib.L,
                 timeout=800 if th else 200)
    ch.assumptions.append(
        'an atomic update is indivisible and memory is sequentially '
        'consistent; FFTW and GSL are not interleaved internally')
    return ch.finish(rule='workloads x numbers of threads x start orders x '
                     'all placements of up to the stated number of '
                     'preemptions at conflicting accesses of every parallel '
                     'region')


if __name__ == '__main__':
    main()
