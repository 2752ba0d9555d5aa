"""The public Python measurement functions against the model."""
import itertools
import logging
import sys
import warnings

import numpy as np

from vt import lib, model, ref
from . import stats as st

PKG = None
ORIGIN = np.array([310., -220., 800.])
SPAN = np.array([420., 505., 355.])
BOX, NG = (640., 700., 610.), (5, 7, 5)
# the random catalogue encloses the data
RFRAC = np.vstack([st.FRAC[[3, 5, 7, 8, 9, 10]], [[0., .02, .9]],
                   [[1., .97, .04]], [[.33, 0., 1.]], [[.5, 1., 0.]]])
RIDX = (3, 5, 7, 8, 9, 10, 0, 1, 2, 4)
DFRAC = st.FRAC[[0, 1, 2, 4, 6, 11]]
DIDX = (0, 1, 2, 4, 6, 11)
# two random particles within a cell of 10 of a data particle, for the mesh
# normalisation of fixed cell size
RFRAC = np.vstack([RFRAC, DFRAC[[0, 3]] + .008])
RIDX = (*RIDX, 11, 6)


def setup():
    sys.path.insert(0, str(PKG))
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    import triumvirate  # noqa: F401
    lib.L()


def safe_lin(mag, nb, lo=.35, hi=.95):
    """Range of a linear binning whose edges avoid every magnitude."""
    u = np.unique(mag[mag > 0])
    for i in range(200):
        a = u.min()*(lo + .003*i)
        b = u.max()*(hi - .0007*i)
        e = np.linspace(a, b, nb + 1)
        if np.abs(e[:, None] - u[None, :]).min() > 2e-5*u.max():
            return a, b, e
    raise ValueError('no safe range')


def tables(frac, idx, origin, span):
    r = st.rows((1., 1., 1.), idx, frac=np.zeros((12, 3)))
    r[:, :3] = origin + frac*span
    return r


def mixed_norm(data, rand, alpha, align, pad, losd=None):
    span = max(np.ptp(data[:, :3], axis=0).max(),
               np.ptp(rand[:, :3], axis=0).max())
    n = int(np.ceil(1.1*span/10.))
    n += n % 2
    box, ng = (n*10.,)*3, (n,)*3
    sh = shift_of(rand, box, ng, align, pad)
    m = []
    for r in (data, rand):
        f = np.zeros(ng)
        for p, w in zip(r[:, :3] - sh, r[:, 4]*r[:, 5]):
            k = [ref.weights_1d(ng[a]*p[a]/box[a], ng[a], 2)
                 for a in range(3)]
            f += w*k[0][:, None, None]*k[1][None, :, None] \
                * k[2][None, None, :]/1000.
        m.append(f)
    return 1/(alpha*1000.*(m[0]*m[1]).sum())


def shift_of(rand, box, ng, align, pad):
    x = rand[:, :3]
    box = np.array(box)
    if align == 'centre':
        return (x.min(0) + x.max(0))/2 - box/2
    if align == 'pad-box':
        return x.min(0) - pad*box
    return x.min(0) - pad*box/np.array(ng)


def norms(S, rows, alpha, power):
    """particle, mesh"""
    ws, nz, wc = rows[:, 4], rows[:, 3], rows[:, 5]
    pn = 1/(alpha*(ws*nz**(power - 1)*wc**power).sum())
    which = 'r' if 'r' in S.cat else 'd'
    f = S.paint(which, ws*wc)[0]
    return pn, 1/(alpha**power*(f**power).sum()*S.vc)


def base(kind):
    s = kind.split('_')[0]
    wa = kind.endswith('_wa')
    g, w = '_gpp' in kind, '_win' in kind
    return s, g, w, wa


def run_case(key, spec, rec):
    from triumvirate import parameters, threept, twopt
    from triumvirate.catalogue import ParticleCatalogue
    from triumvirate.dataobjs import Binning
    kind = spec['kind']
    stat, gpp, win, wa = base(kind)
    three = stat in ('bispec', '3pcf')
    fourier = stat in ('powspec', 'bispec')
    space = 'fourier' if fourier else 'config'
    box, ng = spec.get('box', BOX), spec.get('ng', NG)
    scheme, inter = spec['scheme'], spec['inter']
    degs = spec['degs']
    l1, l2, L = degs if three else (0, 0, degs)
    nb = spec.get('nb', 3)
    form, idx = spec.get('form', 'diag'), spec.get('idx', 0)
    align, pad = spec.get('align', 'centre'), spec.get('pad', .03)
    norm = spec.get('norm', 'particle')

    # catalogues
    span = np.roll(SPAN, spec.get('turn', 0))
    rfrac, ridx, dfrac, didx = RFRAC, RIDX, DFRAC, DIDX
    if norm == 'mesh-mixed':
        # a pair which a mesh too small for the longest span would merge
        low = np.array([.013, .011, .017])
        far = low + (span == span.max())*(480. + 1.)/span
        dfrac, didx = np.vstack([dfrac, [low]]), (*didx, 5)
        rfrac, ridx = np.vstack([rfrac, [far]]), (*ridx, 7)
    rand = tables(rfrac, ridx, ORIGIN, span)
    data = tables(dfrac, didx, ORIGIN, span)
    if gpp:
        data[:, :3] = DFRAC*np.array(box)
        if spec.get('wrap'):
            data[:, :3] += np.array(box)*np.array(
                [[0, 1, -1], [-2, 0, 0], [3, 1, 1], [0, 0, 0], [1, 0, 0],
                 [0, -1, 2]])
    if spec.get('nonz'):
        data[:, 3] = 0.
    if spec.get('noweights'):
        data[:, 4:] = 1.
        rand[:, 4:] = 1.

    def cat(r):
        kw = {} if spec.get('noweights') else dict(ws=r[:, 4], wc=r[:, 5])
        nz = None if spec.get('nonz') and gpp else r[:, 3]
        return ParticleCatalogue(r[:, 0], r[:, 1], r[:, 2], nz=nz, **kw)
    cd, cr = cat(data), cat(rand)
    if spec.get('autobox'):
        # box from the catalogue extents
        ex = spec['autobox']
        box = tuple(np.ptp((data if gpp else rand)[:, :3], axis=0)*ex)
    if spec.get('cutoff'):
        c = spec['cutoff']
        ng = [int(np.ceil(b*c/np.pi)) if fourier else int(np.ceil(2*b/c))
              for b in box]
        ng = tuple(n + n % 2 for n in ng)
    if spec.get('los') == 'given':
        losd, losr = st.los(didx), st.los(ridx)
    else:
        losd, losr = data[:, :3].copy(), rand[:, :3].copy()
    # model placement; interlacing is switched off for three-point statistics
    m_inter = inter and not three
    md, mr, alpha = data.copy(), rand.copy(), None
    if gpp:
        # the Python catalogue is also centred when periodised
        md[:, :3] = np.mod(
            md[:, :3] - shift_of(md, box, ng, 'centre', 0), box)
        if spec.get('nonz'):
            md[:, 3] = len(md)/np.prod(box)
        S = model.System(box, ng, scheme, m_inter, md)
        alpha, ncat = 1., md
    elif win:
        mr[:, :3] = np.mod(
            mr[:, :3] - shift_of(mr, box, ng, 'centre', 0), box)
        S = model.System(box, ng, scheme, m_inter, None, mr, None, losr)
        alpha, ncat = 1., mr
    else:
        sh = shift_of(mr, box, ng, align, pad)
        md[:, :3] -= sh
        mr[:, :3] -= sh
        S = model.System(box, ng, scheme, m_inter, md, mr, losd, losr)
        alpha, ncat = S.alpha, mr
    mag = S.kmag if fourier else S.rmag
    bscheme = spec.get('binning', 'custom')
    if bscheme == 'custom':
        e = model.safe_edges(mag, nb, 1e-5 if fourier else
                             (1. if three else .1))
        bmin, bmax = e[0], e[-1]
    else:
        bmin, bmax, e = safe_lin(mag, nb)
    nb = len(e) - 1

    def mkbin():
        if bscheme == 'custom':
            b = Binning(space, 'custom')
            b.set_custom_bins(np.asarray(e))
            return b
        return Binning(space, 'lin', bmin, bmax, nb)

    pn, mn = norms(S, ncat, alpha, 3 if three else 2)
    want_norm = {'none': 1., 'particle': pn, 'mesh': mn}.get(norm)
    if norm == 'mesh-mixed':
        want_norm = mixed_norm(data, rand, alpha, align, pad)

    # parameters
    sampling = dict(alignment=align.split('-')[0], assignment=scheme,
                    interlace=inter)
    if not spec.get('autobox'):
        sampling['boxsize'] = list(box)
    else:
        sampling['expand'] = spec['autobox']
    if not spec.get('cutoff'):
        sampling['ngrid'] = list(ng)
    else:
        sampling['cutoff_nyq'] = spec['cutoff']
    if align == 'pad-box':
        sampling['boxpad'] = pad
    if align == 'pad-grid':
        sampling['gridpad'] = pad
    stype = stat + ('-win' if win else '')
    ctype = 'sim' if gpp else 'random' if win else 'survey'

    def named(v):
        # entries by name, in whatever order
        a = 'xyz'[spec.get('turn', 0):] + 'xyz'[:spec.get('turn', 0)]
        return {x: v['xyz'.index(x)] for x in a}

    def full(over=None):
        d = parameters.fetch_paramset_template('dict')
        d.update(catalogue_type=ctype, statistic_type=stype,
                 alignment=sampling['alignment'], assignment=scheme,
                 interlace=inter, norm_convention=norm,
                 range=[bmin, bmax], num_bins=nb, verbose=60,
                 degrees=dict(ell1=l1, ell2=l2, ELL=L), form=form,
                 idx_bin=idx if form in ('row', 'off-diag') else None)
        if not spec.get('autobox'):
            d['boxsize'] = named(box)
        else:
            d['expand'] = spec['autobox']
        if not spec.get('cutoff'):
            d['ngrid'] = named(ng)
        else:
            d['cutoff_nyq'] = spec['cutoff']
        if align != 'centre':
            d.update(padscale=align.split('-')[1], padfactor=pad)
        d.update(over or {})
        return d
    route = spec['route']
    kw = {}
    if three:
        mkw = dict(degrees=(l1, l2, L) if key[-1] in '02468' else
                   f'{l1}{l2}{L}', form=form)
        if form in ('row', 'off-diag'):
            mkw['idx_bin'] = idx
    else:
        mkw = dict(degree=L)
    if route in ('paramset', 'dict'):
        kw['paramset'] = full() if route == 'dict' else \
            parameters.ParameterSet(param_dict=full())
        if bscheme == 'custom':
            kw['binning'] = mkbin()
    elif route == 'kwargs':
        kw.update(binning=mkbin(), sampling_params=sampling, **mkw)
    else:   # override every entry of an unrelated parameter set
        d = full(dict(assignment='cic' if scheme != 'cic' else 'pcs',
                      interlace=False, range=[bmin/2, bmax*1.1],
                      num_bins=nb + 2,
                      degrees=dict(ell1=1, ell2=3, ELL=2), form='diag',
                      idx_bin=None,
                      boxsize=dict(x=2000., y=1900., z=1800.),
                      ngrid=dict(x=4, y=4, z=6)))
        kw.update(paramset=parameters.ParameterSet(param_dict=d),
                  binning=mkbin(), sampling_params=sampling, **mkw)
    if wa:
        kw['wa_orders'] = spec['wa']
    f = {'powspec': twopt.compute_powspec, '2pcf': twopt.compute_corrfunc,
         'powspec_gpp': twopt.compute_powspec_in_gpp_box,
         '2pcf_gpp': twopt.compute_corrfunc_in_gpp_box,
         '2pcf_win': twopt.compute_corrfunc_window,
         'bispec': threept.compute_bispec, '3pcf': threept.compute_3pcf,
         'bispec_gpp': threept.compute_bispec_in_gpp_box,
         '3pcf_gpp': threept.compute_3pcf_in_gpp_box,
         '3pcf_win': threept.compute_3pcf_window,
         '3pcf_win_wa': threept.compute_3pcf_window}[kind]
    if gpp:
        res = f(cd, **kw)
    elif win:
        if spec.get('los') == 'given':
            kw['los_rand'] = losr
        res = f(cr, **kw)
    else:
        if spec.get('los') == 'given':
            kw.update(los_data=losd, los_rand=losr)
        res = f(cd, cr, **kw)
    rec.step()
    rec.state(key)
    x, n = ('k', 'nmodes') if fourier else ('r', 'npairs')
    F = S.ft(S.fluct()) if gpp else S.ft(S.field(0, 0, window=win))
    if not three:
        v = res['pk_raw'] if fourier else res['xi']
        s = res['pk_shot'] if fourier else 0*v
        tab = np.column_stack([res[x + 'bin'], res[x + 'eff'], res[n],
                               v.real, v.imag, s.real, s.imag])
        g = (np.abs(F)**2).max()
        if not fourier:
            g = (np.abs(F)**2/S.cpk).sum()/S.vol
        st.compare2(rec, key, tab, S.twopt(space, L, e, gpp=gpp, window=win),
                    e, want_norm, g)
        return
    y = 'bk' if fourier else 'zeta'
    r, s = res[y + '_raw'], res[y + '_shot']
    tab = np.column_stack([
        res[x + '1_bin'], res[x + '2_bin'], res[x + '1_eff'],
        res[x + '2_eff'], res[n + '_1'], res[n + '_2'], r.real, r.imag,
        s.real, s.imag])
    shape = 'triu' if form == 'full' and l1 == l2 else form
    lay = S.layout(shape, nb, idx)
    if fourier:
        want = S.bispec(l1, l2, L, e, lay, gpp=gpp)
    else:
        want = S.tpcf(l1, l2, L, e, lay, gpp=gpp, window=win,
                      wa=spec.get('wa'))
    g, ss = scales3(S, want, fourier, gpp, win)
    st.compare3(rec, key, tab, want, e, lay, want_norm, g, ss)


def scales3(S, want, fourier, gpp, win):
    """Absolute scales below which values are rounding noise."""
    F, G, N, amp = S._parts(0, 0, gpp, win)
    g = np.abs(want[2]).max()
    s = np.abs(want[3]).max()
    if fourier:
        g = max(g, 1e-3*np.abs(F).max()**2*np.abs(F[0, 0, 0] + 1))
        s = max(s, 1e-3*np.abs(F*np.conj(N)).max(), 1e-3*abs(amp))
    else:
        m = np.abs(G).max()
        g = max(g, 1e-3*m**2*np.abs(G).sum()*S.vc)
        s = max(s, 1e-3*np.abs(S.xi3d(F, N, amp)).max()/S.vc,
                1e-6*np.abs(S.xi3d(F, N, 0.)).max()/S.vc)
    return g, s


def cases_2(kind, tier):
    """All combinations of parameter route, norm, alignment, lines of sight
    and degrees; secondary choices rotate."""
    stat, gpp, win, wa = base(kind)
    th = tier == 'thorough'
    out = []
    i = 0
    degs = (0, 1, 2, 4) if th else (0, 2)
    nrm = ('none', 'particle', 'mesh') + (
        () if gpp or win else ('mesh-mixed',))
    aligns = ('centre',) if gpp or win else ('centre', 'pad-box', 'pad-grid')
    for L, norm, route, align, b in itertools.product(
            degs, nrm, ('paramset', 'dict', 'kwargs', 'override'), aligns,
            ('custom', 'lin')):
        if norm != 'particle' and route == 'kwargs':
            continue
        if not th and align != 'centre' and (b == 'lin') != (L == 0):
            continue
        i += 1
        sp = dict(kind=kind, degs=L, norm=norm, route=route, align=align,
                  pad=.03 if align == 'pad-box' else .4, binning=b,
                  scheme=st.SCHEMES[i % 4], inter=bool((i//4) % 2),
                  los='given' if i % 3 == 1 else 'derived',
                  wrap=i % 2, nonz=(i % 5 == 2) and gpp,
                  noweights=i % 7 == 3, turn=(i + i//3) % 3)
        out.append((f'py:{kind}:{L}:{norm}:{route}:{align}:{b}', sp))
    sp = dict(kind=kind, degs=2, norm='mesh', route='dict', scheme='tsc',
              inter=True)
    if not win:
        for r in ('paramset', 'dict', 'kwargs'):
            nm = 'particle' if r == 'kwargs' else 'mesh'
            b = dict(sp, route=r, norm=nm)
            cut = .03 if stat in ('powspec', 'bispec') else 190.
            out.append((f'py:{kind}:cutoff:{r}', dict(b, cutoff=cut)))
            if not gpp:
                out.append((f'py:{kind}:autobox:{r}', dict(b, autobox=1.3)))
                out.append((f'py:{kind}:autoboth:{r}', dict(
                    b, autobox=1.3, cutoff=cut)))
    return out


def cases_3(kind, tier):
    stat, gpp, win, wa = base(kind)
    th = tier == 'thorough'
    out = []
    i = 0
    degs = [(0, 0, 0), (1, 1, 0), (2, 0, 2), (0, 2, 2)] + (
        [(1, 1, 2), (2, 2, 0), (2, 1, 1)] if th else [])
    forms = (('diag', 0), ('off-diag', 1), ('row', 1), ('full', 0))
    aligns = ('centre',) if gpp or win else ('centre', 'pad-box', 'pad-grid')
    for d, route, (form, idx), norm in itertools.product(
            degs, ('paramset', 'dict', 'kwargs', 'override'), forms,
            ('none', 'particle', 'mesh')):
        i += 1
        if norm != 'particle' and route == 'kwargs':
            continue
        if not th and (i*7 + i//3) % 3:
            continue
        sp = dict(kind=kind, degs=d, norm=norm, route=route,
                  align=aligns[i % len(aligns)],
                  pad=.03 if aligns[i % len(aligns)] == 'pad-box' else .4,
                  binning=('custom', 'lin')[i % 2] if stat == 'bispec'
                  else 'custom', form=form, idx=idx,
                  scheme=st.SCHEMES[i % 4], inter=bool((i//4) % 2),
                  los='given' if i % 3 == 1 else 'derived', wrap=i % 2,
                  nonz=(i % 5 == 2) and gpp, noweights=i % 7 == 3, nb=3,
                  turn=(i + i//3) % 3)
        if wa:
            sp['wa'] = ((1, 0), (0, 1), (2, 0), (1, 1))[i % 4]
        out.append((f'py:{kind}:{"".join(map(str, d))}:{norm}:{route}:'
                    f'{form}', sp))
    return out


def cases_gpp2(tier):
    return cases_2('powspec_gpp', tier) + cases_2('2pcf_gpp', tier)
