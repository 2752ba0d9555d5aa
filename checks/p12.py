"""P12: memory is used within bounds and given back; errors never end Python.

Everything runs in an interpreter with the address and undefined-behaviour
sanitisers, on builds of the library and of the extension modules with them.
"""
import ctypes
import gc
import itertools
import logging
import os
import subprocess
import sys
import tempfile
import warnings

import numpy as np

from vt import build, core, lib
from . import stats as st

PKG = None
LIVE = None
DEEP = False     # thorough

SHAPES = ((1, 1, 1), (1, 2, 3), (2, 2, 2), (3, 2, 4), (4, 5, 3))
BOX = (500., 730., 610.)


def live():
    """Bytes allocated in this process."""
    global LIVE
    if LIVE is None:
        LIVE = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
        LIVE.restype = ctypes.c_size_t
    gc.collect()
    return LIVE()


# --------------------------------------------------------------------------
# measurements of the library
# --------------------------------------------------------------------------

def particles(kind, n, k):
    r = st.rows(BOX, [(i + k) % 12 for i in range(n)])
    b = np.array(BOX)
    tiny = np.array([1e-300, -1e-300, 1e-18])
    pts = {
        'edge': [0*b, b, b*(1 - 2**-53), b*(1 + 2**-52), -tiny, b/2, b*.75,
                 [0., BOX[1], BOX[2]/2]],
        'outside': [-.5*b, 1.5*b, [np.nan]*3, [np.inf, 0., 0.],
                    [0., -np.inf, 1.], 1e300*b, [-1e18, 3., 4.],
                    [1., 2., np.nan]],
        'one': [b*.31]}[kind]
    for i, p in enumerate(pts[:n]):
        r[i, :3] = p
    return r[:len(pts)]


def binning(kind, space, p):
    b = lib.Bin(params=p)
    f = space == 'fourier'
    if kind == 'in':
        b.set()
    elif kind == 'beyond':
        b.set(*((5., 9., 3) if f else (5e3, 9e3, 3)))
    elif kind == 'tiny':
        b.set_edges([0., 1e-12, 1e-9, 1e-6])
    else:
        b.set_edges([0., *((.02, .021, 1.) if f else (150., 151., 9e3))])
    return b


SPACE = dict(powspec='fourier', corrfunc='config', bispec='fourier',
             tpcf='config')
SNAME = dict(powspec='powspec', corrfunc='2pcf', bispec='bispec',
             tpcf='3pcf')
DEGS = ((0, 0, 0), (2, 0, 2), (1, 1, 0), (1, 1, 2), (2, 2, 4), (0, 3, 3))


def params_for(kind, shape, scheme, inter, form, idx, degs):
    h, _, sub = kind.partition('_')
    three = h in ('bispec', 'tpcf')
    s = SNAME[h] + ('-win' if sub.startswith('win') else '') + \
        ('-wa' if sub == 'win_wa' else '')
    ct = 'sim' if sub == 'gpp' else 'random' if sub else 'survey'
    f = SPACE[h] == 'fourier'
    return lib.mkparams(
        BOX, shape, assignment=scheme, interlace=inter, catalogue_type=ct,
        statistic_type=s, bin_min=.005 if f else 50.,
        bin_max=.05 if f else 400., num_bins=3, form=form, idx_bin=idx,
        ell1=degs[0] if three else 0, ell2=degs[1] if three else 0,
        ELL=degs[2], i_wa=1 if sub == 'win_wa' else 0)


def run_meshes(key, payload, rec):
    kind, shape, inters, forms, k = payload
    h, _, sub = kind.partition('_')
    for i, (scheme, inter, form, pk, bk) in enumerate(itertools.product(
            st.SCHEMES if k is None else [st.SCHEMES[k % 4]], inters, forms,
            ('edge', 'outside', 'one'), ('in', 'beyond', 'tiny', 'mixed'))):
        form, _, idx = form.partition(':')
        degs = DEGS[(i + (k or 0)) % (
            3 if h in ('powspec', 'corrfunc') and not DEEP else len(DEGS))]
        p = params_for(kind, shape, scheme, inter, form or 'diag',
                       int(idx or 0), degs)
        b = binning(bk, SPACE[h], p)
        d, r = particles(pk, 6, i % 12), particles('edge', 8, 3)
        if sub.startswith('win'):
            args = lib.Cat(d), None, st.LOS[:len(d)], None
        elif sub == 'gpp':
            args = lib.Cat(d), None, None, None
        else:
            args = lib.Cat(d), lib.Cat(r), st.LOS[:len(d)], st.LOS[:len(r)]
        try:
            t = lib.stat(kind, *args, p, b, .5, 1.)
            rec.outcome((kind, form, len(t)))
        except lib.LibError as e:
            rec.outcome(str(e)[:40])
        rec.step()
        rec.valid()
        rec.state((kind, shape, scheme, inter, form, pk, bk, i))


def mesh_cases(tier):
    out = []
    forms = ('diag', 'row:2', 'full', 'off-diag:2', 'off-diag:-1')
    for kind in lib.STATS:
        three = kind.split('_')[0] in ('bispec', 'tpcf')
        for j, sh in enumerate(SHAPES):
            if three:
                for i, f in enumerate(forms):
                    ks = range(4) if tier == 'thorough' else [i + j]
                    for k in ks:
                        out.append((f'mesh:{kind}:{sh}:{f}:{k}',
                                    (kind, sh, ('false',), (f,), k)))
            else:
                for k in range(4) if tier == 'thorough' else (j % 4,):
                    out.append((f'mesh:{kind}:{sh}:{k}',
                                (kind, sh, ('false', 'true'), ('',), k)))
    return out


# --------------------------------------------------------------------------
# parts of the library
# --------------------------------------------------------------------------

def setup_parts():
    lib.L()

    class Dummy:
        def __getattr__(self, name):
            return lambda *a: None
    run_parts('', ((1, 1, 2), 'pcs', 'true'), Dummy())


def run_parts(key, payload, rec):
    shape, scheme, inter = payload
    use = []
    for rep in range(3):
        p = lib.mkparams(BOX, shape, assignment=scheme, interlace=inter,
                         ELL=2)
        for pk in ('edge', 'outside'):
            # a leak with every particle stands out from what is kept for good
            d, r = (np.tile(q, (20, 1)) for q in (
                particles(pk, 6, 0), particles('edge', 8, 2)))
            losd, losr = (np.resize(st.LOS, (len(q), 3)) for q in (d, r))
            cd, cr = lib.Cat(d), lib.Cat(r)
            m, n = lib.Mesh(p), lib.Mesh(p)
            m.assign(cd, np.ones(len(d)))
            m.unweighted(cd)
            n.fluct(cr)
            m.ylm(cd, cr, losd, losr, .5, 2, 1)
            m.ylm(cd, None, losd, None, 1., 2, -2, quad=True)
            m.ft()
            m.comp()
            n.ft()
            n.norm(cr, 2)
            y = lib.ylm_store(2, 0, BOX, shape, True)
            z = lib.ylm_store(3, -3, BOX, shape, False)
            n.band(m, z, .02, .5)
            n.band(m, z, 50., .5)
            n.sjl(m, y, 2, 100.)
            n.sjl(m, y, 0, 0.)
            m.ift()
            m.wa()
            f = lib.Fs(p)
            for space in ('fourier', 'config'):
                for bk in ('in', 'beyond', 'tiny', 'mixed'):
                    b = lib.Bin(space, 'lin').set(.01, 9., 4) if bk == 'in' \
                        else binning(bk, space, p)
                    f.twopt(m, n, 1. + 0j, 2, 0, b,
                            config=space == 'config')
                    f.reset()
                    f.record(b)
                    b.close()
                    rec.step()
            try:
                lib.norm_meshes(cd, cr, p, .5, .1, 300., scheme)
            except lib.LibError:
                pass
            for x in (m, n, f, cd, cr):
                x.close()
            rec.step(16)
            rec.valid()
        p.close()
        rec.state((key, rep))
        use.append(live())
    if np.diff(use).min() > int(os.environ.get('VT_LEAK', 1300)):
        rec.fail(f'{key}:leak', f'bytes in use grow by {np.diff(use)} '
                 'in one round')


# --------------------------------------------------------------------------
# files
# --------------------------------------------------------------------------

ROWS = (
    '', ' ', '#', '# x', '1 2 3 .1 1 1', '\t4 5 6 .2 1 1', '1e400 2 3 4 5 6',
    'nan inf -inf 0 0 0', '1 2', 'x y z', '\x00\x00', '1 2 3 .1 1 1 #',
    ' '.join(['7']*400), '5'*5000, '\xff\xfe 1 2 3', '1 2 3 .1 1\r',
    '%s %n %d 1 2 3', '-', '9'*40 + ' 1 2 3 4 5', '0x1p3 1 2 3 4 5')
PROWS = (
    '', '=', ' = ', 'num_bins', 'num_bins =', '= 3', 'num_bins = 3',
    'num_bins = x', 'num_bins = 99999999999999999999', 'bin_min = nan',
    'bin_max = 1e999', 'statistic_type = ' + 'p'*5000, 'ngrid_x = -5',
    'ngrid_x = 2147483648', 'boxsize_x = -1', 'ELL = -4', '\x00 = \x00',
    'catalogue_columns = ' + ','*3000, 'catalogue_columns = x,,y,',
    'data_catalogue_file = ::::', 'output_tag = %s%n%d', 'form = \xff',
    'progbar = 1e-300', 'verbose = -2147483648', 'idx_bin = -2147483648',
    'use_fftw_wisdom = ' + 'w'*5000, 'catalogue_dir = ' + '/d'*3000,
    '#'*70000, 'a = b = c = d', 'num_bins=3', '\tnum_bins\t=\t3\t')
PBASE = dict(
    catalogue_dir='./', measurement_dir='./', data_catalogue_file='d',
    rand_catalogue_file='r', catalogue_columns='x,y,z,nz,ws,wc',
    boxsize_x=500., boxsize_y=500., boxsize_z=500., ngrid_x=4, ngrid_y=4,
    ngrid_z=4, catalogue_type='survey', statistic_type='powspec', ell1=0,
    ell2=0, ELL=0, bin_min=.01, bin_max=.1, num_bins=3, form='diag',
    norm_convention='particle', binning='lin', verbose=60)


def run_files(key, payload, rec):
    kind, combos = payload
    cols = 'x,y,z,nz,ws,wc'
    for rep in range(2):
        for c in combos:
            if kind == 'cat':
                with open('f.dat', 'wb') as f:
                    f.write('\n'.join(ROWS[i] for i in c).encode('latin1'))
                cat = lib.Cat()
                try:
                    cat.read('f.dat', cols)
                except lib.LibError as e:
                    rec.outcome(str(e)[:30])
                cat.close()
            else:
                base = '\n'.join(f'{k} = {v}' for k, v in PBASE.items())
                with open('f.ini', 'wb') as f:
                    f.write((base + '\n' + '\n'.join(PROWS[i] for i in c)
                             ).encode('latin1'))
                p = lib.Params()
                try:
                    p.read('f.ini')
                    rec.outcome('ok')
                except lib.LibError as e:
                    rec.outcome(str(e)[:30])
                p.close()
            rec.step()
            rec.valid()
            rec.state((kind, c))


def file_cases(tier):
    out = []
    for kind, n in (('cat', len(ROWS)), ('par', len(PROWS))):
        depth = 3 if tier == 'thorough' else 2
        for i in range(n):
            for j in range(depth):
                cs = [(i, *t) for t in itertools.product(range(n), repeat=j)]
                for q in range(0, len(cs), 400):
                    out.append((f'file:{kind}:{i}:{j}:{q}',
                                (kind, cs[q:q + 400])))
    return out


# --------------------------------------------------------------------------
# Python
# --------------------------------------------------------------------------

FUNCS = dict(
    powspec='compute_powspec', powspec_gpp='compute_powspec_in_gpp_box',
    corrfunc='compute_corrfunc', corrfunc_gpp='compute_corrfunc_in_gpp_box',
    corrfunc_win='compute_corrfunc_window', bispec='compute_bispec',
    bispec_gpp='compute_bispec_in_gpp_box', tpcf='compute_3pcf',
    tpcf_gpp='compute_3pcf_in_gpp_box', tpcf_win='compute_3pcf_window',
    tpcf_win_wa='compute_3pcf_window')


def setup_py():
    sys.path.insert(0, str(PKG))
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    from triumvirate import threept, transforms, twopt  # noqa: F401
    gc.collect()
    gc.freeze()     # collections look at what the calls make, only


def inputs(kind):
    from triumvirate import parameters
    from triumvirate.catalogue import ParticleCatalogue
    h, _, sub = kind.partition('_')
    three = h in ('bispec', 'tpcf')
    f = SPACE[h] == 'fourier'
    s = SNAME[h] + ('-win' if sub.startswith('win') else '') + \
        ('-wa' if sub == 'win_wa' else '')
    d = parameters.fetch_paramset_template('dict')
    d.update(
        catalogue_type='sim' if sub == 'gpp' else 'random' if sub else
        'survey', statistic_type=s, assignment='tsc', alignment='centre',
        norm_convention='particle', range=[.01, .04] if f else [50., 300.],
        num_bins=3, verbose=60, degrees=dict(ell1=0, ell2=0, ELL=0),
        form='diag', idx_bin=1)
    d['boxsize'] = dict(zip('xyz', BOX))
    d['ngrid'] = dict(zip('xyz', (4, 5, 3)))
    d['directories']['measurements'] = None
    if sub == 'win_wa':
        d['wa_orders'] = dict(i=1, j=0)

    def cat(idx):
        r = st.rows(BOX, idx)
        return ParticleCatalogue(*r.T[:3].copy(), nz=r[:, 3].copy(),
                                 ws=r[:, 4].copy(), wc=r[:, 5].copy())
    cats = [cat(st.DATA)] if sub == 'gpp' else [cat(st.RAND)] if sub else \
        [cat(st.DATA), cat(st.RAND)]
    return d, cats, three


def call(kind, d, cats, **kw):
    from triumvirate import parameters, threept, twopt
    h, _, sub = kind.partition('_')
    mod = threept if h in ('bispec', 'tpcf') else twopt
    if sub == 'win_wa':
        kw['wa_orders'] = (d['wa_orders']['i'], d['wa_orders']['j'])
    if isinstance(d, dict):
        d = parameters.ParameterSet(param_dict=d)
    return getattr(mod, FUNCS[kind])(*cats, paramset=d, **kw)


def bad_inputs(kind):
    """name -> function changing (parameters, catalogues, keywords), and
    whether an exception is certain (True), excluded (False) or open."""
    from triumvirate.catalogue import ParticleCatalogue as PC
    from triumvirate.dataobjs import Binning
    h, _, sub = kind.partition('_')
    three = h in ('bispec', 'tpcf')
    f = SPACE[h] == 'fourier'
    space = 'fourier' if f else 'config'
    out = {}

    def add(name, fn, must=None):
        out[name] = fn, must

    def los(name, make, must=True):
        if sub == 'gpp':
            return

        def change(d, cats, kw):
            if not sub:
                kw['los_data'] = make(len(cats[0]))
                kw['los_rand'] = st.LOS[:len(cats[1])].copy()
            else:
                kw['los_rand'] = make(len(cats[0]))
        add(f'los-{name}', change, must)
        if not sub:
            def other(d, cats, kw):
                kw['los_rand'] = make(len(cats[1]))
            add(f'losr-{name}', other, must)
    L = st.LOS
    los('short', lambda n: L[:n - 1].copy())
    los('empty', lambda n: np.zeros((0, 3)))
    los('long', lambda n: np.ones((n + 1, 3)))
    los('2col', lambda n: np.ones((n, 2)))
    los('4col', lambda n: np.ones((n, 4)))
    los('flat', lambda n: np.ones(3*n))
    los('3d', lambda n: np.ones((n, 3, 1)))
    los('scalar', lambda n: 1.)
    los('text', lambda n: [['a', 'b', 'c']]*n)
    los('transposed', lambda n: L[:n].T)
    los('int', lambda n: np.ones((n, 3), dtype=int), False)
    los('single', lambda n: L[:n].astype('f4'), False)
    los('list', lambda n: L[:n].tolist(), False)
    los('strided', lambda n: np.repeat(L, 2, axis=0)[:2*n:2], False)
    los('fortran', lambda n: np.asfortranarray(L[:n]), False)
    los('swapped', lambda n: L[:n].astype('>f8'), False)
    los('nan', lambda n: np.full((n, 3), np.nan))
    los('zero', lambda n: np.zeros((n, 3)))
    for nm in ('los-nan', 'los-zero', 'losr-nan', 'losr-zero'):
        if nm in out:
            out[nm] = out[nm][0], None

    def cats_(name, make, must=None):
        for i in range(1 if sub else 2):
            def change(d, cats, kw, i=i):
                cats[i] = make(cats[i])
            add(f'cat{i}-{name}', change, must)

    def same(v):
        return lambda c: PC(*(np.full(5, v) for _ in range(3)),
                            nz=np.full(5, .1))
    x = st.FRAC.T*500.
    cats_('one', lambda c: PC([3.], [4.], [5.], nz=[.2]))
    cats_('nonz', lambda c: PC(*x))
    cats_('zero-weights', lambda c: PC(*x, nz=x[0]*0 + .1, ws=x[0]*0))
    cats_('nan', same(np.nan))
    cats_('inf', same(np.inf))
    cats_('huge', same(1e308))
    cats_('point', same(50.))
    cats_('far', lambda c: PC(*(x*1e6), nz=x[0]))
    cats_('ints', lambda c: PC(*x.astype(int), nz=x[0]))
    cats_('single', lambda c: PC(*x.astype('f4'), nz=x[0].astype('f4')))
    cats_('strided', lambda c: PC(*np.repeat(x, 2, axis=1)[:, ::2],
                                  nz=np.ones(24)[::2]))
    cats_('list', lambda c: PC(*x.tolist(), nz=x[0].tolist()))
    cats_('none', lambda c: None, True)
    cats_('array', lambda c: x, True)

    def par(name, must=None, **kw):
        add(f'par-{name}', lambda d, cats, kws: d.update(kw), must)
    for deg in ((3, 1, 0), (0, 0, 1), (2, 2, 3), (0, 2, 0), (1, 0, 0),
                (5, 5, 1)):
        if three:
            par(f'vanish{deg}', deg[0] + deg[1] + deg[2] & 1 or
                not abs(deg[0] - deg[1]) <= deg[2] <= deg[0] + deg[1],
                degrees=dict(zip(('ell1', 'ell2', 'ELL'), deg)))
    for deg in ((-1, 0, 0), (0, -1, 0), (0, 0, -1), (-2, -2, 0)):
        par(f'negative{deg}', True,
            degrees=dict(zip(('ell1', 'ell2', 'ELL'), deg)))
    for ELL in (1, 3, 8, 20) if DEEP else (1, 3):
        par(f'high{ELL}', degrees=dict(ell1=0, ell2=ELL if three else 0,
                                       ELL=ELL))
    for g in ((1, 1, 1), (1, 4, 2), (0, 4, 4), (-2, 4, 4), (4, 4, 2**31),
              (None, None, None)):
        par(f'grid{g}', True if min(q or 0 for q in g) < 0 or
            2**31 in g else None, ngrid=dict(zip('xyz', g)))
    for b in ((0., 5., 5.), (-1., 5., 5.), (np.nan,)*3, (1e308,)*3,
              (1e-300,)*3, (None,)*3):
        par(f'box{b}', boxsize=dict(zip('xyz', b)))
    for r in ([0., 1e-9], [5., 9.], [1e5, 1e6], [0., 1e300]):
        par(f'range{r}', range=list(r))
    for r in ([.1, .1], [.1, .01], [-1., 1.], [np.nan, 1.], [0., np.nan]):
        par(f'range{r}', True, range=list(r))
    par('bins-2**31', True, num_bins=2**31)
    par('bins1', True, num_bins=1)
    par('bins-1', True, num_bins=-1)
    par('bins-many', None, num_bins=300 if DEEP else 80)
    if three:
        for form in ('row', 'off-diag', 'full', 'diag'):
            for idx in (2, -2):
                par(f'{form}{idx}', form == 'row' and idx < 0, form=form,
                    idx_bin=idx)
            if form in ('row', 'off-diag'):
                for idx in (3, -3, 2**31, None):
                    par(f'{form}{idx}', True, form=form, idx_bin=idx)

    def bins(name, make, must=None):
        def change(d, cats, kw):
            kw['binning'] = make()
        add(f'bins-{name}', change, must)
    bins('other', lambda: Binning('config' if f else 'fourier', 'lin', 5.,
                                  9., 3))
    bins('unset', lambda: Binning(space, 'lin'), True)
    bins('custom-unset', lambda: Binning(space, 'custom'), True)
    bins('one', lambda: Binning(space, 'lin', .01, .02, 1), True)
    bins('many', lambda: Binning(space, 'lin', .01, .02,
                                 500 if DEEP else 80))
    bins('none', lambda: 'lin', True)

    def edges(e):
        b = Binning(space, 'custom')
        b.set_custom_bins(e)
        return b
    for e in ([0., 1., 2.], [0., 1e-5, 100.], [.01, .011, 5e3, 1e300]):
        bins(f'edges{e}', lambda e=e: edges(e))
    for e in ([], [1.], [0., np.inf], [-1., 0., 1.]):
        bins(f'edges{e}', lambda e=e: edges(e), True)
    for e in ([2., 1., 3.], [1., 1., 2.], [np.nan, 1., 2.]):
        bins(f'edges{e}', lambda e=e: edges(e))

    def fewer(d, cats, kw):
        # shorter than the bin index of the parameters
        d.update(num_bins=6, idx_bin=5)
        kw['binning'] = Binning(space, 'lin', .01, .04, 2)
        if three:
            d['form'] = 'off-diag'
    add('bins-fewer', fewer, True if three else None)

    def unshared(d, cats, kw):
        d['ngrid'] = dict(x=7, y=1, z=9)
        d['interlace'] = True
    add('par-interlaced', unshared, False)
    add('valid', lambda d, cats, kw: None, False)
    for n in ('ngp', 'cic', 'pcs'):
        par(f'scheme-{n}', False, assignment=n)
    for n in ('particle', 'mesh', 'none') + (
            () if three or sub else ('mesh-mixed',)):
        par(f'norm-{n}', False, norm_convention=n)

        def many(d, cats, kw, n=n):
            # a leak with every particle or bin stands out
            x = np.resize(st.FRAC, (120, 3))*BOX
            for i, c in enumerate(cats):
                cats[i] = PC(*x.T, nz=np.resize(c['nz'], 120),
                             ws=np.resize(c['ws'], 120),
                             wc=np.resize(c['wc'], 120))
            d.update(norm_convention=n, num_bins=60, idx_bin=2,
                     form='full' if three and n == 'mesh' else 'diag')
        add(f'many-{n}', many, False)
    par('unsaved', None, directories=dict(catalogues='', measurements=None))

    def save(d, cats, kw):
        kw['save'] = '.npz'
    add('save', save, False)

    def save_bad(d, cats, kw):
        d['directories']['measurements'] = '/proc/none'
        kw['save'] = '.txt'
    add('save-nowhere', save_bad, True)
    add('save-format', lambda d, c, kw: kw.update(save='.hdf'), True)
    return out


REF = {}


def run_py(key, payload, rec):
    kind, name = payload

    def valid():
        d, cats, _ = inputs(kind)
        return call(kind, d, cats)
    if kind not in REF:
        REF[kind] = valid()
    rec.step(2)
    rec.valid()
    rec.state(key)
    grew = []
    ends = set()
    change, must = bad_inputs(kind)[name]
    for rep in range(4):
        d, cats, _ = inputs(kind)
        kw = {}
        err = ''
        try:
            change(d, cats, kw)
            call(kind, d, cats, **kw)
        except Exception as e:
            err = type(e).__name__ + ': ' + str(e)[:200]
        del d, cats, kw
        ends.add(err.partition(':')[0])
        grew.append(live())
    rec.outcome((kind, name, tuple(ends)))
    if must is True and '' in ends:
        rec.fail(f'{key}:accepted', 'no exception was raised')
    if must is False and ends != {''}:
        rec.fail(f'{key}:refused', f'{err}')
    if 'SystemError' in ends or 'far' not in name and 'MemoryError' in ends:
        rec.fail(f'{key}:error', f'{err}')
    by = np.diff(grew)[1:]
    if by.min() > int(os.environ.get('VT_LEAK', 300)):
        rec.fail(f'{key}:leak', f'bytes in use grow by {by} with every call')
    # the process still measures as before
    got = valid()
    for k, v in REF[kind].items():
        if k != 'header' and not np.allclose(
                got[k], v, rtol=1e-9, atol=1e-9*np.abs(v).max(),
                equal_nan=True):
            rec.fail(f'{key}:after', f'{k} differs in a later measurement')


def names_of_inputs():
    """The names, from a process of its own with the sanitisers."""
    code = ('import sys; sys.path.insert(0, %r); from checks import p12; '
            'p12.PKG = %r; p12.DEEP = %r; p12.setup_py(); '
            'print(repr({k: list(p12.bad_inputs(k)) for k in p12.FUNCS}))'
            % (str(core.VERIF), str(PKG), DEEP))
    out = subprocess.run([sys.executable, '-W', 'ignore', '-c', code],
                         capture_output=True, text=True)
    if out.returncode:
        raise RuntimeError(out.stdout[-2000:] + out.stderr[-3000:])
    return eval(out.stdout.strip().splitlines()[-1])


# --------------------------------------------------------------------------
# Python objects
# --------------------------------------------------------------------------

def objects():
    """name -> function using an object of the package."""
    from triumvirate import parameters, transforms
    from triumvirate._field import _record_binned_vectors as record
    from triumvirate._fftlog import HankelTransform as HT
    from triumvirate.catalogue import ParticleCatalogue as PC
    from triumvirate.dataobjs import Binning
    out = {}
    x8, x7 = np.logspace(-3, 0, 8), np.logspace(-3, 0, 7)

    def ht(mu, q, x, krc, lr, ex, fac, thr, fx):
        def f():
            h = HT(mu, q, x, krc, lr, ex, fac, thr)
            r = h.transform(fx)
            assert h.size > 0 and h.pivot == h.pivot
            return r
        return f
    for i, (mu, q, x, krc, lr, ex, fac, thr) in enumerate(itertools.product(
            (0., 2., .5) if DEEP else (0., 2.), (0., .3) if DEEP else (0.,),
            (x8, x7, x8[:2], x8[::2]) if DEEP else (x8, x7, x8[:2]),
            (1., 0.) if DEEP else (1.,), (True, False), (0, 1, 2, 3, 4, -1),
            (2., 1., .5, 0., 7.3), (False, True))):
        n = len(x)
        out[f'hankel{i}'] = ht(mu, q, x, krc, lr, ex, fac, thr,
                               np.cos(np.arange(n)))
        if i % 7 == 0:
            for j, fx in enumerate((np.ones(n + 1), np.ones(n - 1), [],
                                    np.ones((n, 1)), 1., None,
                                    np.ones(n, dtype=int))):
                out[f'hankel{i}-{j}'] = ht(mu, q, x, krc, lr, ex, fac, thr,
                                           fx)
    for i, x in enumerate(([], [1.], [1., 1.], [1., -1.], [0., 1., 2.],
                           [np.nan]*4, [1., 2., 4., 9.], x8[::-1], None,
                           'abc', [[1., 2.], [4., 8.]])):
        out[f'points{i}'] = ht(0., 0., x, 1., True, 0, 2., False,
                               np.ones(np.size(x)))
    for cls in ('SphericalBesselTransform', 'SpecialSphericalBesselTransform',
                'DoubleSphericalBesselTransform'):
        c = getattr(transforms, cls, None)
        if c is None:
            continue
        for i, (deg, ex) in enumerate(itertools.product(
                (0, 1, 4, -1, (2, 2), (0, 1)), (0, 1, 3))):
            def f(c=c, deg=deg, ex=ex):
                t = c(deg, 0., x8, extrap=ex)
                return t.transform(np.ones((8, 8) if isinstance(deg, tuple)
                                           else 8))
            out[f'{cls}{i}'] = f
    for i, a in enumerate(itertools.product(
            ('fourier', 'config', 'what', ''), ('lin', 'log', 'linpad',
                                                'logpad', 'custom', 'none'),
            ((.01, .1, 3), (0., 1., 8), (1., .1, 3), (0., 1., 0),
             (np.nan, 1., 3), (.1, 1., -4), (1e-300, 1e300, 9)))):
        def f(a=a):
            b = Binning(a[0], a[1], *a[2])
            repr(b)
            b.set_bins(.1, .9, 7)
            b.set_grid_based_bins([9., 8., 7.], [4, 3, 5])
            b.set_custom_bins([0., .5, 1.])
            return len(b.bin_edges) + len(b.bin_widths)
        out[f'binning{i}'] = f

    def template():
        d = parameters.fetch_paramset_template('dict')
        d.update(catalogue_type='sim', statistic_type='powspec',
                 range=[.01, .1], num_bins=3, verbose=60, idx_bin=0)
        d['boxsize'] = dict(x=300., y=310., z=320.)
        d['ngrid'] = dict(x=4, y=5, z=4)
        return d
    for i, a in enumerate(itertools.product(
            ('fourier', 'config', 'what'), ((.01, .1, 3), (5., 9., 2),
                                            (0., 1e300, 2)),
            ((4, 5, 4), (1, 1, 1), (2, 1, 3)))):
        def f(a=a):
            d = template()
            d['ngrid'] = dict(zip('xyz', a[2]))
            p = parameters.ParameterSet(param_dict=d)
            return len(record(Binning(a[0], 'lin', *a[1]), p))
        out[f'vectors{i}'] = f

    def vec_unset():
        return record(Binning('fourier', 'lin'),
                      parameters.ParameterSet(param_dict=template()))
    out['vectors-unset'] = vec_unset
    for i, n in enumerate(((3, 3, 3), (3, 2, 3), (1, 1, 1), (0, 0, 0),
                           (2, 2, 3), (3, 1, 1))):
        for j, nz in enumerate((None, .1, 3, 2, 'col')):
            def f(n=n, nz=nz):
                kw = {}
                if nz is not None:
                    kw['nz'] = np.ones(n[0]) if nz == 'col' else nz if \
                        isinstance(nz, float) else np.ones(nz)
                c = PC(*(np.arange(float(q)) for q in n), **kw)
                c.centre([9., 9., 9.])
                c.periodise([2., 2., 2.])
                c.compute_los()
                q = c._convert_to_cpp_catalogue(verbose=60)
                del q
                return len(c)
            out[f'catalogue{i}-{j}'] = f
    for i, (k, v) in enumerate(itertools.product(
            ('num_bins', 'range', 'ngrid', 'boxsize', 'degrees', 'verbose',
             'assignment', 'statistic_type', 'form', 'idx_bin', 'tags',
             'files', 'directories', 'progbar', 'expand', 'padfactor',
             'cutoff_nyq', 'wa_orders', 'interlace', 'fftw_scheme',
             'use_fftw_wisdom', 'save_binned_vectors'),
            (None, '', 'x'*4000, -1, 2**31, 2**63, 1e308, float('nan'), [],
             {}, [1, 2, 3], {'x': None}, True, b'x', object()))):
        def f(k=k, v=v):
            p = parameters.ParameterSet(param_dict=template())
            try:
                p[k] = v
                p._parse_params()
            finally:
                str(p)
                dict(p.items())
            return p
        out[f'setting{i}:{k}'] = f
    return out


def run_objects(key, payload, rec):
    fs = objects()
    for n in payload:
        grew = []
        for rep in range(4):
            end = ''
            try:
                fs[n]()
            except Exception as e:
                end = type(e).__name__
            grew.append(live())
        rec.step()
        rec.valid()
        rec.state(n)
        rec.outcome((n.split('-')[0][:7], end))
        by = np.diff(grew)[1:]
        if by.min() > int(os.environ.get('VT_LEAK', 200)):
            rec.fail(f'{key}:{n}:leak', f'bytes in use grow by {by}')


def names_of_objects():
    code = ('import sys; sys.path.insert(0, %r); from checks import p12; '
            'p12.PKG = %r; p12.DEEP = %r; p12.setup_py(); '
            'print(repr(list(p12.objects())))'
            % (str(core.VERIF), str(PKG), DEEP))
    out = subprocess.run([sys.executable, '-W', 'ignore', '-c', code],
                         capture_output=True, text=True)
    if out.returncode:
        raise RuntimeError(out.stdout[-2000:] + out.stderr[-3000:])
    return eval(out.stdout.strip().splitlines()[-1])


# --------------------------------------------------------------------------

def main(tier=None):
    global PKG, DEEP
    lib.prepare('asan')
    PKG = build.python_package('asan')
    if not os.environ.get('VT_SAN'):
        pre = [subprocess.run([build.GXX, f'-print-file-name={n}'],
                              capture_output=True, text=True).stdout.strip()
               for n in ('libasan.so', 'libubsan.so', 'libstdc++.so.6')]
        log = tempfile.mkdtemp(prefix='vt-san')
        env = dict(
            os.environ, VT_SAN='1', LD_PRELOAD=' '.join(pre),
            PYTHONMALLOC='malloc', VT_SANLOG=log + '/log',
            ASAN_OPTIONS='malloc_context_size=6:detect_leaks=0:'
            'allocator_may_return_null=1:'
            'detect_odr_violation=0:quarantine_size_mb=32:'
            f'abort_on_error=1:handle_abort=0:log_path={log}/log',
            UBSAN_OPTIONS=f'print_stacktrace=1:log_path={log}/log')
        rc = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'vt.core',
                             *sys.argv[1:]], env=env, cwd=core.VERIF
                            ).returncode
        for f in os.listdir(log):
            os.remove(os.path.join(log, f))
        os.rmdir(log)
        return rc
    ch = core.Check('P12', tier)
    DEEP = ch.tier == 'thorough'
    ch.run_cases('measurements', mesh_cases(ch.tier), run_meshes,
                 setup=lib.L)
    ch.run_cases('parts', [
        (f'parts:{sh}:{s}:{i}', (sh, s, i)) for sh in SHAPES
        for s in st.SCHEMES for i in ('false', 'true')], run_parts,
        setup=setup_parts)
    ch.run_cases('files', file_cases(ch.tier), run_files, setup=lib.L)
    names = names_of_inputs()
    ch.run_cases('python', [(f'py:{k}:{n}', (k, n)) for k in FUNCS
                            for n in names[k]], run_py, setup=setup_py)
    names = names_of_objects()
    ch.run_cases('objects', [(f'obj:{i}', names[i:i + 20])
                             for i in range(0, len(names), 20)],
                 run_objects, setup=setup_py)
    return ch.finish(
        rule='every statistic x mesh x scheme x interlacing x form with '
        'particles on and beyond the edges of the box and bins within and '
        'beyond the mesh; every mesh operation; all pairs (thorough: '
        'triples) of awkward lines in catalogue and parameter files; every '
        'Python function x list of arguments; objects of the package')


if __name__ == '__main__':
    sys.exit(main(sys.argv[1] if len(sys.argv) > 1 else None))
