"""P09: periodic-box three-point statistics equal their definition."""
import itertools

import numpy as np

from vt import build, core, lib, model
from . import stats as st, pyapi

G3 = [((900., 1100., 1000.), (5, 7, 5)), ((1000., 1000., 1000.), (5, 5, 5)),
      ((1300., 800., 950.), (7, 5, 3))]
G3T = G3 + [((1000., 1000., 1000.), (7, 7, 7)),
            ((700., 1500., 1111.), (3, 9, 5))]
DEG = [(0, 0, 0), (1, 1, 0), (2, 2, 0), (2, 0, 2), (0, 2, 2), (1, 1, 2),
       (3, 1, 2), (1, 2, 3), (2, 2, 2)]
FORMS = [('diag', 0), ('off-diag', 1), ('row', 1), ('full', 0),
         ('off-diag', -1), ('row', 0), ('off-diag', 0), ('off-diag', -2),
         ('row', 2), ('off-diag', 2)]


def config_case(key, payload, rec):
    box, ng, scheme, inter, degs, sets, kinds, forms = payload
    # interlacing is switched off for three-point statistics
    off = 'false'
    gpp = kinds[0].endswith('gpp')
    for name, di, ri in sets:
        if name == 'large':
            data, ld = st.large(di, box, 0)
            rand, lr = st.large(ri, box, 1) if ri else (None, None)
        else:
            data = st.rows(box, di)
            rand = st.rows(box, ri) if ri else None
            ld, lr = st.los(di), st.los(ri) if ri else None
        cd = lib.Cat(data)
        cr = lib.Cat(rand) if ri else None
        if gpp:
            S = model.System(box, ng, scheme, off, data)
        else:
            S = model.System(box, ng, scheme, off, data, rand, ld, lr)
            W = model.System(box, ng, scheme, off, None, rand, None, lr,
                             .7)
        for kind, (l1, l2, L), (form, idx) in itertools.product(
                kinds, degs, forms):
            four = kind.startswith('bispec')
            win = '_win' in kind
            wa = (1, 2) if kind.endswith('_wa') else None
            if wa and l1 == 2:
                wa = (0, 1)
            T = W if win else S
            even = any(n % 2 == 0 for n in ng)
            if even and not four and (l1 or l2 or L):
                # modes in the Nyquist planes have no opposite
                continue
            e = model.safe_edges(
                T.kmag if four else T.rmag, 7 if name == 'large' else 3,
                1e-5 if four else 1.,
                stop=min(np.pi*n/x for n, x in zip(ng, box))
                if even and four else None)
            if name == 'gap':
                # an empty first bin
                e = np.array([e[0]*.3, e[0]*.6, *e[1:]])
            elif name in ('few', 'edge'):
                # the zero mode or zero separation included
                e = np.array([0., *e[1:]])
            nb = len(e) - 1
            p = lib.mkparams(
                box, ng, assignment=scheme, interlace=inter, ell1=l1,
                ell2=l2, ELL=L, form=form, idx_bin=idx, num_bins=nb,
                bin_min=e[0], bin_max=e[-1],
                i_wa=wa[0] if wa else 0, j_wa=wa[1] if wa else 0,
                catalogue_type='sim' if gpp else 'random' if win else
                'survey', statistic_type='bispec' if four else
                '3pcf-win' if win else '3pcf')
            b = lib.Bin('fourier' if four else 'config', 'lin').set_edges(e)
            k = f'{key}:{name}:{kind}:{l1}{l2}{L}:{form}:{idx}'
            if win:
                tab = lib.stat(kind, cr, None, lr, None, p, b, .7, 1.3)
            elif gpp:
                tab = lib.stat(kind, cd, None, None, None, p, b, 1., 1.3)
            else:
                tab = lib.stat(kind, cd, cr, ld, lr, p, b, T.alpha, 1.3)
            rec.step()
            rec.state(k)
            rec.outcome(np.round(tab, 7).tobytes())
            shape = 'triu' if form == 'full' and l1 == l2 else form
            lay = T.layout(shape, nb, idx)
            want = T.bispec(l1, l2, L, e, lay, gpp=gpp) if four else \
                T.tpcf(l1, l2, L, e, lay, gpp=gpp, window=win, wa=wa)
            g, s = pyapi.scales3(T, want, four, gpp, win)
            st.compare3(rec, k, tab, want, e, lay, 1.3, g, s)
            b.close()
            p.close()
        cd.close()
        if cr:
            cr.close()


# more cells, particles, bins and degrees than the rest
DEGL = [(0, 0, 0), (3, 3, 0), (4, 4, 0), (2, 2, 4), (4, 2, 2), (1, 3, 4),
        (0, 4, 4), (3, 0, 3)]
FORML = [('full', 0), ('diag', 0), ('row', 5), ('off-diag', 4),
         ('off-diag', -5)]


def larger(n, kinds, th):
    i = 0
    for d in DEGL:
        for s in st.SCHEMES if th else (st.SCHEMES[i % 4],):
            for box, ng in st.LARGE3:
                yield (f'large:{ng[0]}:{s}:{"".join(map(str, d))}',
                       (box, ng, s, 'false', [d], [('large', *n)], kinds,
                        FORML if th else [FORML[0], FORML[1 + i % 4]]))
        i += 1


def rotate(grids, schemes, degs, forms, sets, kinds, full):
    """Cases (grid, scheme, interlacing, degree): forms rotate unless full."""
    out = []
    i = 0
    for (box, ng), s, it, d in itertools.product(
            grids, schemes, ('false', 'true'), degs):
        i += 1
        f = forms if full else [
            forms[n] for n in sorted({(3*i + i//10 + j) % len(forms)
                                      for j in (0, 2, 5, 6)})]
        st_ = sets if full else [sets[i % len(sets)]]
        out.append((f'{ng}:{s}:{it}:{"".join(map(str, d))}',
                    (box, ng, s, it, [d], st_, kinds, f)))
    return out


def main():
    ch = core.Check('P09')
    th = ch.tier == 'thorough'
    lib.prepare()
    pyapi.PKG = build.python_package()
    sets = [('six', st.DATA, None), ('one', (1,), None),
            ('edge', (3, 4, 8, 0), None)]
    kinds = ('bispec_gpp', 'tpcf_gpp')
    degs = DEG
    ch.run_cases('configurations', rotate(
        G3T if th else G3, st.SCHEMES, degs, FORMS, sets, kinds, th), config_case, setup=lib.L, timeout=600)
    ch.run_cases('larger', list(larger((50, 0), kinds, th)), config_case,
                 setup=lib.L, timeout=600)
    cases = pyapi.cases_3('bispec_gpp', ch.tier) \
        + pyapi.cases_3('3pcf_gpp', ch.tier)
    ch.run_cases('Python interface', cases, pyapi.run_case,
                 setup=pyapi.setup)
    return ch.finish(rule='grids x schemes x interlacing x degree triplets '
                     'x data-vector forms (rotating in the quick tier) x '
                     'catalogues; Python interface over norms, parameter '
                     'routes and forms')
