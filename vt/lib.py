"""ctypes view of the library built from the current tree (cc/shim.cpp)."""
import ctypes as C

import numpy as np

from . import build

_lib = None
_path = None
dp = C.POINTER(C.c_double)
ip = C.POINTER(C.c_int)


class LibError(Exception):
    """A C++ exception raised by the code under test."""


def prepare(variant='ext'):
    """Build (parent side)."""
    global _path
    _path = build.harness('shim.cpp', variant, shared=True, own_sources=[
        'mc.cpp'] if variant == 'mc' else ())
    return _path


def L():
    """Load (worker side)."""
    global _lib
    if _lib is None:
        lib = C.CDLL(str(_path))
        lib.vt_err.restype = C.c_char_p
        for n in ('vt_params_new', 'vt_params_copy', 'vt_bin_new',
                  'vt_bin_new_params', 'vt_cat_new', 'vt_mesh_new',
                  'vt_mesh_field', 'vt_fs_new', 'vt_sj_new', 'vt_sj_copy',
                  'vt_fl_new'):
            getattr(lib, n).restype = C.c_void_p
        for n in ('vt_params_get_s', 'vt_bin_scheme', 'vt_elapsed',
                  'vt_split_join', 'vt_datetime'):
            getattr(lib, n).restype = C.c_char_p
        for n in ('vt_params_get_d', 'vt_w3j', 'vt_sj_eval', 'vt_coupling2',
                  'vt_coupling3'):
            getattr(lib, n).restype = C.c_double
        lib.vt_params_get_nmesh.restype = C.c_longlong
        lib.vt_loglevel(100)
        _lib = lib
    return _lib


def D(a):
    return np.ascontiguousarray(a, dtype=np.float64)


def pD(a):
    return a.ctypes.data_as(dp)


def pI(a):
    return a.ctypes.data_as(ip)


def V(p):
    return C.c_void_p(p)


def ok(rc):
    if rc:
        raise LibError(L().vt_err().decode(errors='replace'))


def trackers():
    out = np.zeros(10)
    L().vt_trackers(pD(out))
    return dict(zip(('gb', 'maxgb', 'r', 'c', 'g', 'mr', 'mc', 'mg', 'fft',
                     'ifft'), out))


S_FIELDS = ('catalogue_dir', 'measurement_dir', 'data_catalogue_file',
            'rand_catalogue_file', 'catalogue_columns', 'catalogue_dataset',
            'output_tag', 'alignment', 'padscale', 'assignment', 'interlace',
            'catalogue_type', 'statistic_type', 'npoint', 'space', 'form',
            'norm_convention', 'shape', 'binning', 'fftw_scheme',
            'use_fftw_wisdom', 'fftw_wisdom_file_f', 'fftw_wisdom_file_b',
            'save_binned_vectors', 'progbar')
D_FIELDS = ('expand', 'cutoff_nyq', 'padfactor', 'volume', 'bin_min',
            'bin_max')
I_FIELDS = ('assignment_order', 'ell1', 'ell2', 'ELL', 'i_wa', 'j_wa',
            'num_bins', 'idx_bin', 'verbose')


class Params:
    def __init__(self, ptr=None, **kw):
        self.p = ptr if ptr is not None else L().vt_params_new()
        self.set(**kw)

    def set(self, **kw):
        for k, v in kw.items():
            if k in ('boxsize', 'ngrid'):
                for i in range(3):
                    (L().vt_params_set_d(V(self.p), k.encode(), i,
                                         C.c_double(v[i]))
                     if k == 'boxsize' else
                     L().vt_params_set_i(V(self.p), k.encode(), i, int(v[i])))
            elif k == 'nmesh':
                L().vt_params_set_nmesh(V(self.p), C.c_longlong(v))
            elif k in S_FIELDS:
                assert not L().vt_params_set_s(V(self.p), k.encode(),
                                               v.encode())
            elif k in D_FIELDS:
                assert not L().vt_params_set_d(V(self.p), k.encode(), 0,
                                               C.c_double(v))
            elif k in I_FIELDS:
                assert not L().vt_params_set_i(V(self.p), k.encode(), 0,
                                               int(v))
            else:
                raise KeyError(k)
        return self

    def get(self, k, i=0):
        if k == 'boxsize':
            return [L().vt_params_get_d(V(self.p), b'boxsize', i)
                    for i in range(3)]
        if k == 'ngrid':
            return [L().vt_params_get_i(V(self.p), b'ngrid', i)
                    for i in range(3)]
        if k == 'nmesh':
            return L().vt_params_get_nmesh(V(self.p))
        if k in S_FIELDS:
            return L().vt_params_get_s(V(self.p), k.encode()).decode()
        if k in D_FIELDS:
            return L().vt_params_get_d(V(self.p), k.encode(), 0)
        return L().vt_params_get_i(V(self.p), k.encode(), 0)

    def all(self):
        ks = (*S_FIELDS, *D_FIELDS, *I_FIELDS, 'boxsize', 'ngrid', 'nmesh')
        d = {k: self.get(k) for k in ks}
        d['planner'] = L().vt_params_get_planner(V(self.p))
        return d

    def validate(self, init=False):
        ok(L().vt_params_validate(V(self.p), int(init)))
        return self

    def read(self, path):
        ok(L().vt_params_read(V(self.p), str(path).encode()))
        return self

    def copy(self):
        return Params(L().vt_params_copy(V(self.p)))

    def close(self):
        if self.p is not None:
            L().vt_params_del(V(self.p))
            self.p = None

    __del__ = close


def mkparams(box, ngrid, assignment='tsc', interlace='false',
             catalogue_type='sim', statistic_type='powspec', binning='lin',
             bin_min=0.1, bin_max=0.2, num_bins=2, init=True, **kw):
    """A validated parameter set."""
    d = dict(catalogue_dir='.', measurement_dir='.',
             data_catalogue_file='d.dat', rand_catalogue_file='r.dat',
             catalogue_columns='x,y,z', boxsize=box, ngrid=ngrid,
             expand=1., cutoff_nyq=0., volume=float(np.prod(box)),
             nmesh=int(np.prod(np.array(ngrid, dtype=object))),
             alignment='centre', padscale='box', padfactor=0.,
             assignment=assignment, interlace=interlace,
             catalogue_type=catalogue_type, statistic_type=statistic_type,
             ell1=0, ell2=0, ELL=0, i_wa=0, j_wa=0, form='diag',
             norm_convention='particle', binning=binning, bin_min=bin_min,
             bin_max=bin_max, num_bins=num_bins, idx_bin=0,
             fftw_scheme='estimate', use_fftw_wisdom='false',
             save_binned_vectors='false', verbose=100, progbar='false')
    d.update(kw)
    return Params(**d).validate(init)


class Cat:
    """Catalogue; rows are x, y, z, nz, ws, wc."""

    def __init__(self, rows=None):
        self.p = L().vt_cat_new()
        if rows is not None:
            self.load(rows)

    def load(self, rows):
        r = D(rows)
        cols = [D(r[:, i]) for i in range(6)]
        ok(L().vt_cat_load(V(self.p), len(r), *map(pD, cols)))
        return self

    def read(self, path, cols, volume=0.):
        ok(L().vt_cat_load_file(V(self.p), path.encode(), cols.encode(),
                                C.c_double(volume)))
        return self

    @property
    def n(self):
        return L().vt_cat_n(V(self.p))

    def get(self):
        n = self.n
        out = np.zeros((max(n, 0), 7))
        if n > 0:
            L().vt_cat_get(V(self.p), pD(out))
        return out

    def props(self):
        out = np.zeros(12)
        L().vt_cat_props(V(self.p), pD(out))
        return dict(ntotal=int(out[0]), wtotal=out[1], wstotal=out[2],
                    pos_min=out[3:6].copy(), pos_max=out[6:9].copy(),
                    pos_span=out[9:12].copy())

    def totals(self):
        ok(L().vt_cat_totals(V(self.p)))

    def extents(self):
        ok(L().vt_cat_extents(V(self.p)))

    def offset(self, d):
        d = D(d)
        ok(L().vt_cat_offset(V(self.p), pD(d)))

    def periodic(self, b):
        b = D(b)
        ok(L().vt_cat_periodic(V(self.p), pD(b)))

    def centre(self, b, ref=None):
        b = D(b)
        ok(L().vt_cat_centre(V(self.p), V(ref.p) if ref else None, pD(b)))

    def pad(self, b, f, ref=None):
        b, f = D(b), D(f)
        ok(L().vt_cat_pad_box(V(self.p), V(ref.p) if ref else None, pD(b),
                              pD(f)))

    def pad_grids(self, b, n, f, ref=None):
        b, f = D(b), D(f)
        n = np.ascontiguousarray(n, dtype=np.int32)
        ok(L().vt_cat_pad_grids(V(self.p), V(ref.p) if ref else None, pD(b),
                                pI(n), pD(f)))

    def finalise(self):
        ok(L().vt_cat_finalise(V(self.p)))

    def init(self, n):
        ok(L().vt_cat_init(V(self.p), int(n)))

    def close(self):
        if self.p is not None:
            L().vt_cat_del(V(self.p))
            self.p = None

    __del__ = close


class Mesh:
    def __init__(self, params, plan=True):
        self.params = params
        self.ngrid = params.get('ngrid')
        self.p = L().vt_mesh_new(V(params.p), int(plan))
        if not self.p:
            raise LibError(L().vt_err().decode())

    @property
    def view(self):
        a = L().vt_mesh_field(V(self.p))
        n = int(np.prod(self.ngrid))
        buf = (C.c_double * (2*n)).from_address(a)
        return np.frombuffer(buf, dtype=np.complex128).reshape(self.ngrid)

    def arr(self):
        return self.view.copy()

    def put(self, a):
        self.view[...] = a

    def geom(self):
        out = np.zeros(8)
        L().vt_mesh_geom(V(self.p), pD(out))
        return out

    def reset(self):
        ok(L().vt_mesh_reset(V(self.p)))

    def assign(self, cat, w):
        w = np.ascontiguousarray(w, dtype=np.complex128)
        ok(L().vt_mesh_assign(V(self.p), V(cat.p),
                              w.ctypes.data_as(dp)))

    def unweighted(self, cat):
        ok(L().vt_mesh_unweighted(V(self.p), V(cat.p)))

    def fluct(self, cat):
        ok(L().vt_mesh_fluct(V(self.p), V(cat.p)))

    def ylm(self, cat, rand, los, losr, alpha, ell, m, quad=False):
        los = D(los)
        losr = None if losr is None else D(losr)
        ok(L().vt_mesh_ylm(V(self.p), V(cat.p), V(rand.p) if rand else None,
                           pD(los), None if losr is None else pD(losr),
                           C.c_double(alpha), ell, m, int(quad)))

    def ft(self):
        ok(L().vt_mesh_ft(V(self.p)))

    def ift(self):
        ok(L().vt_mesh_ift(V(self.p)))

    def wa(self):
        ok(L().vt_mesh_wa(V(self.p)))

    def comp(self):
        ok(L().vt_mesh_comp(V(self.p)))

    def band(self, f, ylm, k, dk):
        y = np.ascontiguousarray(ylm, dtype=np.complex128).ravel()
        keff, nm = C.c_double(0.), C.c_int(0)
        ok(L().vt_mesh_band(V(self.p), V(f.p), y.ctypes.data_as(dp),
                            C.c_longlong(y.size), C.c_double(k),
                            C.c_double(dk), C.byref(keff), C.byref(nm)))
        return keff.value, nm.value

    def sjl(self, f, ylm, ell, r):
        y = np.ascontiguousarray(ylm, dtype=np.complex128).ravel()
        ok(L().vt_mesh_sjl(V(self.p), V(f.p), y.ctypes.data_as(dp),
                           C.c_longlong(y.size), ell, C.c_double(r)))

    def norm(self, cat, order):
        out = C.c_double(0.)
        ok(L().vt_mesh_norm(V(self.p), V(cat.p), order, C.byref(out)))
        return out.value

    def close(self):
        if self.p is not None:
            L().vt_mesh_del(V(self.p))
            self.p = None

    __del__ = close


class Bin:
    def __init__(self, space=None, scheme=None, params=None):
        if params is not None:
            self.p = L().vt_bin_new_params(V(params.p))
        else:
            self.p = L().vt_bin_new(space.encode(), scheme.encode())

    def set(self, *a):
        if not a:
            ok(L().vt_bin_set(V(self.p)))
        else:
            ok(L().vt_bin_set_range(V(self.p), C.c_double(a[0]),
                                    C.c_double(a[1]), int(a[2])))
        return self

    def set_mesh(self, box, n):
        ok(L().vt_bin_set_mesh(V(self.p), C.c_double(box), int(n)))
        return self

    def set_edges(self, e):
        e = D(e)
        ok(L().vt_bin_set_edges(V(self.p), pD(e), len(e)))
        return self

    def get(self):
        s = np.zeros(4, dtype=np.int32)
        L().vt_bin_sizes(V(self.p), pI(s))
        out = []
        for w in range(3):
            a = np.zeros(s[1+w])
            L().vt_bin_get(V(self.p), w, pD(a))
            out.append(a)
        r = np.zeros(2)
        L().vt_bin_range(V(self.p), pD(r))
        return dict(num_bins=int(s[0]), edges=out[0], centres=out[1],
                    widths=out[2], min=r[0], max=r[1],
                    scheme=L().vt_bin_scheme(V(self.p)).decode())

    def close(self):
        if self.p is not None:
            L().vt_bin_del(V(self.p))
            self.p = None

    __del__ = close


class Fs:
    def __init__(self, params, plan=True):
        self.p = L().vt_fs_new(V(params.p), int(plan))
        if not self.p:
            raise LibError(L().vt_err().decode())

    def twopt(self, a, b, shot, ell, m, binning, config=False):
        ok(L().vt_fs_2pt(V(self.p), V(a.p), V(b.p), C.c_double(shot.real),
                         C.c_double(shot.imag), ell, m, V(binning.p),
                         int(config)))
        s = np.zeros(7, dtype=np.int32)
        L().vt_fs_sizes(V(self.p), pI(s))
        n = np.zeros(s[1] if config else s[0], dtype=np.int32)
        k = np.zeros(s[3] if config else s[2])
        p = np.zeros(s[6] if config else s[5], dtype=complex)
        sn = np.zeros(s[4], dtype=complex)
        L().vt_fs_get(V(self.p), pI(n), pD(k), p.ctypes.data_as(dp),
                      sn.ctypes.data_as(dp), int(config))
        return n, k, p, sn

    def reset(self):
        ok(L().vt_fs_reset(V(self.p)))

    def record(self, binning, save=''):
        ok(L().vt_fs_record(V(self.p), V(binning.p), str(save).encode()))
        s = np.zeros(6, dtype=np.int32)
        L().vt_bv_sizes(pI(s))
        out = np.zeros((s[2], 6))
        if s[2]:
            L().vt_bv_get(pD(out))
        return s, out

    def close(self):
        if self.p is not None:
            L().vt_fs_del(V(self.p))
            self.p = None

    __del__ = close


STATS = dict(powspec=0, corrfunc=1, powspec_gpp=2, corrfunc_gpp=3,
             corrfunc_win=4, bispec=10, tpcf=11, bispec_gpp=12, tpcf_gpp=13,
             tpcf_win=14, tpcf_win_wa=15)


def stat(kind, cat, rand, los, losr, params, binning, alpha, norm,
         cap=4000):
    """Run one full measurement; returns the result table."""
    kd = STATS[kind]
    ncol = 7 if kd < 10 else 10
    tab = np.full((cap, ncol), np.nan)
    dim = C.c_int(-1)
    los = None if los is None else D(los)
    losr = None if losr is None else D(losr)
    ok(L().vt_stat(kd, V(cat.p), V(rand.p) if rand else None,
                   None if los is None else pD(los),
                   None if losr is None else pD(losr), V(params.p),
                   V(binning.p), C.c_double(alpha), C.c_double(norm), cap,
                   C.byref(dim), pD(tab)))
    return tab[:dim.value].copy()


def norm(kind, cat, rand, params, alpha):
    out = C.c_double(0.)
    ok(L().vt_norm(kind, V(cat.p), V(rand.p) if rand else None,
                   V(params.p) if params else None, C.c_double(alpha),
                   C.byref(out)))
    return out.value


def norm_meshes(cat, rand, params, alpha, padding, cellsize, assignment):
    out = C.c_double(0.)
    ok(L().vt_norm_meshes(V(cat.p), V(rand.p), V(params.p),
                          C.c_double(alpha), C.c_double(padding),
                          C.c_double(cellsize), assignment.encode(),
                          C.byref(out)))
    return out.value


def ylm_point(ell, m, v):
    out = np.zeros(2)
    ok(L().vt_ylm(ell, m, C.c_double(v[0]), C.c_double(v[1]),
                  C.c_double(v[2]), pD(out)))
    return complex(out[0], out[1])


def ylm_store(ell, m, box, ng, config):
    box = D(box)
    g = np.ascontiguousarray(ng, dtype=np.int32)
    n = int(np.prod(g))
    out = np.zeros(n, dtype=np.complex128)
    ok(L().vt_ylm_store(ell, m, pD(box), pI(g), int(config),
                        out.ctypes.data_as(dp), C.c_longlong(n)))
    return out.reshape(ng)
