"""P08: survey and window two-point statistics equal their definition."""
import itertools

import numpy as np

from vt import build, core, lib, model
from . import stats as st, pyapi


def config_case(key, payload, rec):
    box, ng, scheme, inter, tier = payload
    degs = (0, 1, 2, 3, 4) if tier == 'thorough' else (0, 1, 2, 4)
    sets = [('std', st.DATA, st.RAND, None), ('one', (1,), (5,), None),
            ('swap', (3, 5, 7), (0, 1, 2, 4), None)]
    if tier == 'large':
        sets, degs = [('large', None, None, None)], (0, 3, 5, 6)
    for name, di, ri, alpha in sets:
        if di:
            data, rand = st.rows(box, di), st.rows(box, ri)
            ld, lr = st.los(di), st.los(ri)
        else:
            data, ld = st.large(40, box, 0)
            rand, lr = st.large(55, box, 1)
        S = model.System(box, ng, scheme, inter, data, rand, ld, lr, alpha)
        W = model.System(box, ng, scheme, inter, None, rand, None, lr,
                         alpha if alpha else 1.)
        cd, cr = lib.Cat(data), lib.Cat(rand)
        for kind in ('powspec', 'corrfunc', 'corrfunc_win'):
            four = kind == 'powspec'
            win = kind.endswith('win')
            T = W if win else S
            bins = st.kbinnings(T, tier) if four else \
                st.rbinnings(T, tier, .1)
            F = T.ft(T.field(0, 0, window=win))
            g = (np.abs(F)**2).max() if four else \
                (np.abs(F)**2/T.cpk).sum()/T.vol
            for (bn, e), L in itertools.product(bins, degs):
                if tier == 'quick' and (
                        L not in (0, 2) if bn != 'all' else
                        L > 2 and name != 'std'):
                    continue
                p = lib.mkparams(
                    box, ng, assignment=scheme, interlace=inter, ELL=L,
                    catalogue_type='random' if win else 'survey',
                    statistic_type='powspec' if four else
                    '2pcf-win' if win else '2pcf')
                b = lib.Bin('fourier' if four else 'config',
                            'lin').set_edges(e)
                k = f'{key}:{name}:{kind}:{bn}:L{L}'
                if win:
                    tab = lib.stat(kind, cr, None, lr, None, p, b, T.alpha,
                                   1.75)
                else:
                    # the C++ code derives alpha from the catalogues
                    tab = lib.stat(kind, cd, cr, ld, lr, p, b, T.alpha, 1.75)
                rec.step()
                rec.state(k)
                rec.outcome(np.round(tab, 9).tobytes())
                st.compare2(rec, k, tab, T.twopt(
                    'fourier' if four else 'config', L, e, window=win), e,
                    1.75, g)
                b.close()
                p.close()
        cd.close()
        cr.close()


def los_case(key, payload, rec):
    """One data and one random particle, every pair of lines of sight."""
    scheme, inter, L, i, nd = payload
    box, ng = (500., 730., 610.), (5, 4, 3)
    data, rand = st.rows(box, (1,)), st.rows(box, (6,))
    dirs = [np.array(v, float) for v in itertools.product(
        (-1, 0, 1), repeat=3) if any(v)]
    dirs = (dirs[:13] + [np.array([.3, -2., 1.])])[-nd:]
    cd, cr = lib.Cat(data), lib.Cat(rand)
    e = None
    p = lib.mkparams(box, ng, assignment=scheme, interlace=inter, ELL=L,
                     catalogue_type='survey', statistic_type='powspec')
    for j in range(len(dirs)):
        ld, lr = dirs[i][None, :]*2.5, dirs[j][None, :]*.4
        S = model.System(box, ng, scheme, inter, data, rand, ld, lr)
        if e is None:
            e = model.safe_edges(S.kmag, 3, 1e-5)
        b = lib.Bin('fourier', 'lin').set_edges(e)
        tab = lib.stat('powspec', cd, cr, ld, lr, p, b, S.alpha, 1.)
        rec.step()
        rec.state((key, j))
        st.compare2(rec, f'{key}:{j}', tab, S.twopt('fourier', L, e), e,
                    1., (np.abs(S.ft(S.field(0, 0)))**2).max())
        b.close()
    p.close()
    cd.close()
    cr.close()


def main():
    ch = core.Check('P08')
    th = ch.tier == 'thorough'
    lib.prepare()
    pyapi.PKG = build.python_package()
    grids = st.GRIDS_T if th else st.GRIDS[:3]
    cases = [(f'cfg:{ng}:{s}:{i}', (box, ng, s, i, ch.tier))
             for (box, ng), s, i in itertools.product(
                 grids, st.SCHEMES, ('false', 'true'))]
    ch.run_cases('configurations', cases, config_case, setup=lib.L)
    ch.run_cases('larger', [
        (f'large:{s}:{i}', (*st.LARGE, s, i, 'large'))
        for s, i in itertools.product(st.SCHEMES, ('false', 'true'))],
        config_case, setup=lib.L)
    cases = [(f'los:{s}:{i}:{L}:{d}', (s, i, L, d, nd))
             for s, i, (L, nd) in itertools.product(
                 st.SCHEMES if th else ('ngp',),
                 ('false', 'true') if th else ('false',),
                 [(n, 14) for n in range(5)] if th else
                 [(1, 14), (2, 10), (3, 5)]) for d in range(nd)]
    ch.run_cases('all pairs of lines of sight', cases, los_case, setup=lib.L)
    cases = []
    for kind in ('powspec', '2pcf', '2pcf_win'):
        cases += pyapi.cases_2(kind, ch.tier)
    ch.run_cases('Python interface', cases, pyapi.run_case,
                 setup=pyapi.setup)
    return ch.finish(rule='grids x schemes x interlacing x catalogue pairs x '
                     'statistics x binnings x degrees; all pairs of lattice '
                     'lines of sight; Python interface over norms, parameter '
                     'routes, alignments and lines of sight')
