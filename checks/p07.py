"""P07: periodic-box two-point statistics equal their direct definition."""
import itertools

import numpy as np

from vt import build, core, lib, model
from . import stats as st, pyapi

_PKG = None


def config_case(key, payload, rec):
    box, ng, scheme, inter, tier = payload
    degs = (0, 1, 2, 3, 4) if tier == 'thorough' else (0, 1, 2, 4)
    sets = ('six', st.DATA), ('one', (1,)), ('edge', (3, 4))
    if tier == 'large':
        sets, degs = (('large', None),), (0, 3, 5, 6, 8)
    for name, idx in sets:
        rows = st.rows(box, idx) if idx else st.large(70, box, 0)[0]
        S = model.System(box, ng, scheme, inter, rows)
        cat = lib.Cat(rows)
        for space, stype in (('fourier', 'powspec'), ('config', '2pcf')):
            bins = st.kbinnings(S, tier) if space == 'fourier' else \
                st.rbinnings(S, tier, .1)
            F = S.ft(S.fluct())
            g = (np.abs(F)**2).max() if space == 'fourier' else \
                (np.abs(F)**2/S.cpk).sum()/S.vol
            for (bn, e), L in itertools.product(bins, degs):
                p = lib.mkparams(box, ng, assignment=scheme, interlace=inter,
                                 statistic_type=stype, ELL=L)
                b = lib.Bin(space, 'lin').set_edges(e)
                k = f'{key}:{name}:{space}:{bn}:L{L}'
                norm = 1.75
                tab = lib.stat('powspec_gpp' if space == 'fourier' else
                               'corrfunc_gpp', cat, None, None, None, p, b,
                               1., norm)
                rec.step()
                rec.state(k)
                rec.outcome(np.round(tab, 9).tobytes())
                st.compare2(rec, k, tab, S.twopt(space, L, e, gpp=True), e,
                            norm, g)
                b.close()
                p.close()
        cat.close()


def pair_case(key, payload, rec):
    """All two-particle catalogues on a sub-cell lattice."""
    box, ng, scheme, inter, first, nsub = payload
    lat = [(i + .5*s)/nsub for i, s in ((j, j % 2) for j in range(nsub))]
    pts = list(itertools.product(lat, lat[::2], lat[1::2]))
    e = None
    p = lib.mkparams(box, ng, assignment=scheme, interlace=inter, ELL=2)
    for i in range(first, len(pts)):
        frac = np.array([pts[first], pts[i]])
        rows = st.rows(box, (0, 1), frac)
        S = model.System(box, ng, scheme, inter, rows)
        if e is None:
            e = model.safe_edges(S.kmag, 3, 1e-5)
        cat = lib.Cat(rows)
        b = lib.Bin('fourier', 'lin').set_edges(e)
        tab = lib.stat('powspec_gpp', cat, None, None, None, p, b, 1., 1.)
        rec.step()
        rec.state((key, i))
        st.compare2(rec, f'{key}:{i}', tab,
                    S.twopt('fourier', 2, e, gpp=True), e, 1.,
                    (np.abs(S.ft(S.fluct()))**2).max())
        cat.close()
        b.close()
    p.close()


def main():
    global _PKG
    ch = core.Check('P07')
    th = ch.tier == 'thorough'
    lib.prepare()
    pyapi.PKG = build.python_package()
    grids = st.GRIDS_T if th else st.GRIDS
    cases = [(f'gpp:{ng}:{s}:{i}', (box, ng, s, i, ch.tier))
             for (box, ng), s, i in itertools.product(
                 grids, st.SCHEMES, ('false', 'true'))]
    ch.run_cases('configurations', cases, config_case, setup=lib.L)
    ch.run_cases('larger', [
        (f'large:{s}:{i}', (*st.LARGE, s, i, 'large'))
        for s, i in itertools.product(st.SCHEMES, ('false', 'true'))],
        config_case, setup=lib.L)
    n = 6 if th else 4
    npt = n*((n + 1)//2)*(n//2)
    cases = [(f'pairs:{s}:{i}:{f}', ((640., 640., 640.), (4, 5, 4), s, i, f,
                                     n))
             for s, i, f in itertools.product(
                 st.SCHEMES if th else ('tsc', 'pcs'), ('false', 'true'),
                 range(npt))]
    ch.run_cases('all two-particle catalogues on a lattice', cases, pair_case,
                 setup=lib.L)
    ch.run_cases('Python interface', pyapi.cases_gpp2(ch.tier),
                 pyapi.run_case, setup=pyapi.setup)
    return ch.finish(rule='grids x schemes x interlacing x catalogues x '
                     'spaces x binnings x degrees, all executed; all '
                     'two-particle catalogues on a sub-cell lattice; Python '
                     'interface over norms, parameter routes and wrapping')
