from seeds import S, SS, SEEDS, seed, write  # noqa: F401

PRE = '''
import logging, sys
import numpy as np
logging.disable(logging.CRITICAL)
from triumvirate.catalogue import ParticleCatalogue
from triumvirate.dataobjs import Binning
from triumvirate.parameters import ParameterSet, fetch_paramset_template
from triumvirate import twopt, threept


def params(**kw):
    d = fetch_paramset_template('dict')
    d.update(verbose=60)
    d.update(kw)
    return d


rng = np.random.default_rng(42)


def check(ok, what):
    if not ok:
        print('BROKEN:', what)
        sys.exit(1)
'''

seed('P10-offdiag-neg', 'P10', {SS+'threept.cpp': [(
    '''              if (params.idx_bin >= 0) {
                ibin_col = idx_dv + params.idx_bin;
              } else {
                ibin_col = idx_dv;
              }
''', '''              ibin_col = idx_dv + std::abs(params.idx_bin);
''', 0)]},
    'off-diagonal form with a negative bin index and l1 = 0',
    'shot noise of the second argument is taken from the wrong bin',
    PRE + '''
x = rng.uniform(0, 800, (60, 3))
y = rng.uniform(0, 800, (300, 3))
out = {}
for idx in (1, -1):
    d = ParticleCatalogue(*x.T, nz=np.full(60, 1e-4))
    r = ParticleCatalogue(*y.T, nz=np.full(300, 5e-4))
    p = ParameterSet(param_dict=params(
        catalogue_type='survey', statistic_type='bispec',
        boxsize=dict(x=1000., y=1000., z=1000.), ngrid=dict(x=16, y=16, z=16),
        degrees=dict(ell1=0, ell2=0, ELL=0), form='off-diag', idx_bin=idx,
        range=[.01, .05], num_bins=4, norm_convention='particle'))
    out[idx] = threept.compute_bispec(d, r, paramset=p)
check(np.allclose(out[1]['bk_shot'], out[-1]['bk_shot'], rtol=1e-6),
      'the monopole is not symmetric in its arguments')
''')

seed('P01-pcs-wrap', 'P01', {SS+'field.cpp': [(
    '''      ijk[3][iaxis] = (ijk[2][iaxis] == this->params.ngrid[iaxis] - 1)
        ? 0 : ijk[2][iaxis] + 1;
''', '''      ijk[3][iaxis] = (ijk[2][iaxis] == this->params.ngrid[0] - 1)
        ? 0 : ijk[2][iaxis] + 1;
''', 0)]},
    'PCS assignment, unequal grid numbers, a particle near the upper edge',
    'kernel weights are wrapped to the wrong cell', PRE + '''
x = rng.uniform(0, 1, (40, 3))*np.array([600., 800., 800.])
out = []
for a in ((0, 1, 2), (1, 0, 2)):
    # the spectrum does not depend on the naming of the axes
    z, b, n = x[:, a], np.array([600., 800., 800.]), np.array([12, 8, 8])
    d = ParticleCatalogue(*z.T, nz=np.full(40, 1e-4))
    p = ParameterSet(param_dict=params(
        catalogue_type='sim', statistic_type='powspec', assignment='pcs',
        boxsize=dict(zip('xyz', b[list(a)].tolist())),
        ngrid=dict(zip('xyz', n[list(a)].tolist())),
        degrees=dict(ell1=None, ell2=None, ELL=0), range=[.005, .03],
        num_bins=4, norm_convention='particle'))
    out.append(twopt.compute_powspec_in_gpp_box(d, paramset=p)['pk_raw'])
check(np.allclose(out[0], out[1], rtol=1e-6), 'depends on the axes')
''')

seed('P09-row-shot', 'P09', {SS+'threept.cpp': [(
    '''        sn_dv[params.idx_bin] += coupling * factor_parity * (''',
    '''        sn_dv[0] += coupling * factor_parity * (''', 1)]},
    'row form with a bin index other than 0 in the periodic-box 3PCF',
    'shot noise is attributed to the first entry of the row', PRE + '''
x = rng.uniform(0, 1000, (200, 3))
out = {}
for form, idx in (('full', None), ('row', 2)):
    d = ParticleCatalogue(*x.T, nz=np.full(200, 2e-7))
    p = ParameterSet(param_dict=params(
        catalogue_type='sim', statistic_type='3pcf',
        boxsize=dict(x=1000., y=1000., z=1000.), ngrid=dict(x=16, y=16, z=16),
        degrees=dict(ell1=2, ell2=0, ELL=2), form=form, idx_bin=idx,
        range=[100., 400.], num_bins=3, norm_convention='particle'))
    out[form] = threept.compute_3pcf_in_gpp_box(d, paramset=p)['zeta_shot']
check(np.allclose(np.ravel(out['full'])[6:9], out['row'], rtol=1e-6),
      'row 2 differs from row 2 of the full form')
''')

seed('P02-norm-sum', 'P02', {SS+'field.cpp': [(
    '#pragma omp parallel for simd reduction(+:vol_int)\n',
    '#pragma omp parallel for\n', 0)]},
    'several threads adding to the volume integral of a mesh',
    'the threads lose each other\'s parts of the normalisation', PRE + '''
import ctypes
omp = ctypes.CDLL('libgomp.so.1')
x = rng.uniform(0, 800, (60, 3))
y = rng.uniform(0, 800, (300, 3))


def measure(threads):
    omp.omp_set_num_threads(threads)
    d = ParticleCatalogue(*x.T, nz=np.full(60, 1e-4))
    r = ParticleCatalogue(*y.T, nz=np.full(300, 5e-4))
    p = ParameterSet(param_dict=params(
        catalogue_type='survey', statistic_type='powspec',
        boxsize=dict(x=1000., y=1000., z=1000.), ngrid=dict(x=32, y=32, z=32),
        degrees=dict(ell1=None, ell2=None, ELL=0), range=[.01, .05],
        num_bins=4, norm_convention='mesh'))
    return twopt.compute_powspec(d, r, paramset=p)['pk_raw']


one = measure(1)
for _ in range(10):
    check(np.allclose(measure(8), one, rtol=1e-8),
          'the power spectrum depends on the threads')
''')

seed('P03-pad-cell', 'P03', {S+'catalogue.py': [(
    'np.divide(boxsize, ngrid)', 'np.divide(boxsize, np.max(ngrid))')]},
    'padding by grid cells with unequal grid numbers',
    'the padding is not that many cells along the coarser axes', PRE + '''
c = ParticleCatalogue(*rng.uniform(5, 50, (9, 3)).T)
c.pad([100., 100., 100.], ngrid=[10, 10, 5], ngrid_pad=1.5)
lo = [c.bounds[a][0] for a in 'xyz']
check(np.allclose(lo, [15., 15., 30.]), f'padding {lo}')
''')

seed('P06-long-box', 'P06', {SS+'field.cpp': [(
    'std::ceil(b * this->params.boxsize[iaxis] / (2*M_PI))',
    'std::ceil(b * this->params.boxsize[0] / (2*M_PI))', 0)]},
    'binned wavevectors in a box which is longer along another axis than x',
    'wavevectors are missing from the list', PRE + '''
from triumvirate.fieldmesh import record_binned_vectors
p = ParameterSet(param_dict=params(
    catalogue_type='sim', statistic_type='powspec',
    boxsize=dict(x=100., y=100., z=300.), ngrid=dict(x=16, y=16, z=48),
    range=[.05, .2], num_bins=3))
b = Binning('fourier', 'lin', bin_min=.05, bin_max=.2, num_bins=3)
v = record_binned_vectors(b, paramset=p)
q = np.fft.fftfreq
k = 2*np.pi*np.stack(np.meshgrid(
    q(16, 100/16), q(16, 100/16), q(48, 300/48)), -1)
k = np.sqrt((k**2).sum(-1))
n = ((k >= .05) & (k < .2)).sum()
check(len(v) == n, (len(v), n))
''')

seed('P07-alias-axis', 'P07', {SS+'field.cpp': [(
    'double u_z = M_PI * k / double(this->params.ngrid[2]);',
    'double u_z = M_PI * k / double(this->params.ngrid[0]);', 1)]},
    'shot noise on a mesh with unequal grid numbers',
    'shot noise aliasing is that of another wavevector', PRE + '''
x = rng.uniform(0, 1, (40, 3))*np.array([600., 800., 800.])
out = []
for a in ((0, 1, 2), (1, 2, 0)):
    # the spectrum does not depend on the naming of the axes
    z, b, n = x[:, a], np.array([600., 800., 800.]), np.array([12, 8, 8])
    d = ParticleCatalogue(*z.T, nz=np.full(40, 1e-4))
    p = ParameterSet(param_dict=params(
        catalogue_type='sim', statistic_type='powspec', assignment='tsc',
        interlace=False, boxsize=dict(zip('xyz', b[list(a)].tolist())),
        ngrid=dict(zip('xyz', n[list(a)].tolist())),
        degrees=dict(ell1=None, ell2=None, ELL=0), range=[.005, .03],
        num_bins=4, norm_convention='particle'))
    out.append(twopt.compute_powspec_in_gpp_box(d, paramset=p)['pk_raw'])
check(np.allclose(out[0], out[1], rtol=1e-6), 'depends on the axes')
''')

seed('P08-mixed-span', 'P08', {SS+'twopt.cpp': [(
    '*std::max_element(particles_rand.pos_span, particles_rand.pos_span + 3)',
    '*std::max_element(particles_rand.pos_span, particles_rand.pos_span + 2)'),
    ('*std::max_element(particles_data.pos_span, particles_data.pos_span + 3)',
     '*std::max_element(particles_data.pos_span, particles_data.pos_span + 2)')
    ]},
    'mixed-mesh normalisation of a survey which is deepest along z',
    'the normalisation mesh is too small, so that particles overlap',
    PRE + '''
x = rng.uniform(0, 1, (80, 3))*np.array([250., 200., 900.])
y = rng.uniform(0, 1, (900, 3))*np.array([250., 200., 900.])
out = []
for a in ((0, 1, 2), (2, 0, 1)):
    d = ParticleCatalogue(*x[:, a].T, nz=np.full(80, 1e-4))
    r = ParticleCatalogue(*y[:, a].T, nz=np.full(900, 1e-3))
    p = ParameterSet(param_dict=params(
        catalogue_type='survey', statistic_type='powspec',
        boxsize=dict(x=1000., y=1000., z=1000.), ngrid=dict(x=16, y=16, z=16),
        degrees=dict(ell1=None, ell2=None, ELL=0), range=[.01, .05],
        num_bins=2, norm_convention='mesh-mixed'))
    out.append(twopt.compute_powspec(d, r, paramset=p)['pk_shot'])
check(np.allclose(out[0], out[1], rtol=1e-2), out)
''')

seed('P12-norm-leak', 'P12', {SS+'twopt.cpp': [(
    'fftw_free(weight_rand); weight_rand = nullptr;',
    'weight_rand = nullptr;')]},
    'mesh-based normalisation of many measurements in one process',
    'the weights of the random particles are never given back', PRE + '''
import os, resource
n = 300000
x = rng.uniform(100, 900, (50, 3))
y = rng.uniform(100, 900, (n, 3))
d = ParticleCatalogue(*x.T, nz=np.full(50, 1e-4))
r = ParticleCatalogue(*y.T, nz=np.full(n, 1e-4))


def run():
    p = ParameterSet(param_dict=params(
        catalogue_type='survey', statistic_type='powspec',
        boxsize=dict(x=1000., y=1000., z=1000.), ngrid=dict(x=8, y=8, z=8),
        degrees=dict(ell1=None, ell2=None, ELL=0), range=[.01, .05],
        num_bins=2, norm_convention='mesh'))
    twopt.compute_powspec(d, r, paramset=p)
    with open('/proc/self/statm') as f:
        return int(f.read().split()[1])*resource.getpagesize()


for _ in range(3):
    a = run()
for _ in range(20):
    b = run()
check(b - a < 40e6, f'{(b-a)/1e6:.0f} MB more')
''')

seed('P13-axis-order', 'P13', {S+'parameters.pyx': [(
    '''                self._params['ngrid']['x'],
                self._params['ngrid']['y'],
                self._params['ngrid']['z'],
''', '''                *self._params['ngrid'].values()
''')]},
    'a dictionary with the grid numbers in another order than x, y, z',
    'grid numbers of one axis are used for another', PRE + '''
from triumvirate.fieldmesh import record_binned_vectors
b = Binning('config', 'lin', bin_min=.1, bin_max=30., num_bins=3)
out = []
for n in (dict(x=8, y=8, z=32), dict(z=32, y=8, x=8)):
    p = ParameterSet(param_dict=params(
        catalogue_type='sim', statistic_type='2pcf',
        boxsize=dict(x=100., y=100., z=100.), ngrid=n, range=[.1, 30.],
        num_bins=3))
    v = record_binned_vectors(b, paramset=p)
    out.append(np.abs(v['vecx']).max() if len(v) else 0)
check(out[0] == out[1], out)
''')

seed('P15-mapped-weights', 'P15', {S+'catalogue.py': [(
    "            if name_wgt not in colnames:",
    "            if name_wgt not in (colnames if name_mapping is None"
    " else name_mapping):")]},
    'reading weights under their own name while other columns are renamed',
    'the weights of the file are ignored', PRE + '''
import warnings
warnings.simplefilter('ignore')
np.savetxt('c.txt', np.c_[rng.uniform(0, 9, (5, 3)), np.full((5, 2), .5)])
c = ParticleCatalogue.read_from_file(
    'c.txt', reader='astropy', names=['X', 'y', 'z', 'nz', 'ws'],
    name_mapping={'x': 'X'})
check(np.allclose(c['ws'], .5) and np.isclose(c.wtotal, 2.5), c.wtotal)
''')

seed('P16-offdiag-name', 'P16', {S+'threept.py': [(
    '''binform = "_offdiag{:d}".format(paramset['idx_bin'])''',
    '''binform = "_offdiag{:d}".format(abs(paramset['idx_bin']))''')]},
    'saved off-diagonal measurements with opposite bin indices',
    'one measurement overwrites the other', PRE + '''
import os
x = rng.uniform(0, 800, (60, 3))
for idx in (1, -1):
    d = ParticleCatalogue(*x.T, nz=np.full(60, 1e-4))
    p = ParameterSet(param_dict=params(
        catalogue_type='sim', statistic_type='bispec',
        directories=dict(catalogues='', measurements=os.getcwd()),
        boxsize=dict(x=1000., y=1000., z=1000.), ngrid=dict(x=8, y=8, z=8),
        degrees=dict(ell1=0, ell2=0, ELL=0), form='off-diag', idx_bin=idx,
        range=[.01, .03], num_bins=2, norm_convention='particle'))
    threept.compute_bispec_in_gpp_box(d, paramset=p, save='.txt')
n = [f for f in os.listdir('.') if f.startswith('bk')]
check(len(n) == 2, n)
''')

seed('P17-odd-middle', 'P17', {SS+'fftlog.cpp': [(
    '''  if (N_trans % 2 == 0) {
    // Make the mid-point real by log-periodicity.''',
    '''  if (N_trans > 1) {
    // Make the mid-point real by log-periodicity.''')]},
    'a transform of an odd number of samples',
    'the last independent kernel coefficient loses its phase', PRE + '''
from triumvirate.transforms import SphericalBesselTransform
# transforming forth and back restores any samples
r = np.logspace(0, 3, 33)
f = np.cos(np.arange(33)) + 2.
f /= r**1.5
a = SphericalBesselTransform(0, 0, r, pivot=1., lowring=False)
k, g = a.transform(f)
b = SphericalBesselTransform(0, 0, k, pivot=1., lowring=False)
s, h = b.transform(g)
h = np.real(h)/(2*np.pi)**3
check(np.allclose(h*r**1.5, f*r**1.5, rtol=1e-6), np.abs(h/f - 1).max())
''')

seed('P18-corner', 'P18', {S+'_arrayops.py': [(
    'ccol_upper = np.concatenate([a_l[-1], ccol_upper, a_r[-1]])',
    'ccol_upper = np.concatenate([a_l[-1], ccol_upper, a_r[0]])')]},
    'two-dimensional padding with different constants along the last column',
    'one corner block is filled with the constant of another corner', PRE + '''
from triumvirate._arrayops import extrap2d_pad
a = rng.uniform(1, 2, (4, 4))
b = extrap2d_pad(a, 2, a[:, 0], a[:, -1], a[0], a[-1])
check(np.array_equal(b, np.pad(a, 2, 'edge')), b)
''')

seed('P19-stale-diag', 'P19', {S+'winconv.py': [(
    '''            for multipole, Qpole in self.Q.items()
        }
        self.Q_diag = {
            multipole: np.diag(Qpole)
            for multipole, Qpole in self.Q.items()
        }

    def resample(''', '''            for multipole, Qpole in self.Q.items()
        }

    def resample(''')]},
    'a range of a window selected in place, then its diagonal used',
    'the diagonal is that of the window before the selection', PRE + '''
from triumvirate.winconv import ThreePointWindow
r = np.linspace(1, 10, 6)
w = ThreePointWindow.load_from_dict({
    'r': r, 'Q': {'000': rng.uniform(1, 2, (6, 6))}})
w.subselect(rrange=(2, 9), inplace=True)
for m in w.Q:
    check(np.array_equal(w.Q_diag[m], np.diag(w.Q[m])), 'diagonal')
''')

seed('P20-ic-points', 'P20', {S+'winconv.py': [(
    'r_common[monopole], r_common[monopole], Q_in[monopole]',
    'r_common[multipole], r_common[multipole], Q_in[monopole]')]},
    'an integral constraint with other sample points for each multipole',
    'the monopole is integrated over the points of another multipole',
    PRE + '''
from triumvirate.winconv import calc_threept_ic
m = ['000', '110', '202', '022', '112']
r = {k: np.linspace(1., 20. + 3*i, 21) for i, k in enumerate(m)}
f = {k: np.outer(np.exp(-r[k]/10), np.exp(-r[k]/10)) for k in m}
one = {k: np.outer(r[k]**0, r[k]**0)*(k == '000') for k in m}
ic = calc_threept_ic(r, f, r, one, spline=3)
check(np.isclose(ic, 1.), ic)
''')

seed('P23-order', 'P23', {S+'_mpitools.py': [(
    'np.insert(np.cumsum(ntasks), 0, values=0)',
    'np.insert(np.cumsum(sorted(ntasks)), 0, values=0)')]},
    'numbers of tasks per process that do not ascend',
    'processes receive other numbers of tasks than asked for', PRE + '''
from triumvirate._mpitools import distribute_tasks
n = [3, 1, 2]
got = [s.stop - s.start for s in distribute_tasks(n)]
check(got == n, got)
''')

seed('P24-bar-end', 'P24', {SS+'threept.cpp': [(
    'int progbar_task_count = 4 + 2 * dv_dim;',
    'int progbar_task_count = 2 + 2 * dv_dim;', 0)]},
    'a correlation function of a survey with the progress bar shown',
    'the bar passes its end, which stops the measurement', PRE + '''
x = rng.uniform(0, 800, (60, 3))
y = rng.uniform(0, 800, (300, 3))
out = []
for bar in (False, True):
    d = ParticleCatalogue(*x.T, nz=np.full(60, 1e-4))
    r = ParticleCatalogue(*y.T, nz=np.full(300, 5e-4))
    p = ParameterSet(param_dict=params(
        catalogue_type='survey', statistic_type='3pcf', progbar=bar,
        boxsize=dict(x=1000., y=1000., z=1000.), ngrid=dict(x=8, y=8, z=8),
        degrees=dict(ell1=0, ell2=0, ELL=0), form='full',
        range=[100., 400.], num_bins=2, norm_convention='particle'))
    out.append(threept.compute_3pcf(d, r, paramset=p)['zeta_raw'])
check(np.allclose(out[0], out[1]), 'results differ')
''')

CPP = '''
import os, subprocess, sys


def check(ok, what):
    if not ok:
        print('BROKEN:', what)
        sys.exit(1)


def cpp(src, *args):
    open('demo.cpp', 'w').write(src)
    lib = '/repo/build/lib/libtrv.a'
    for extra in ([], ['-I/usr/include']):
        r = subprocess.run(
            ['g++', '-O1', '-fopenmp', '-DTRV_USE_OMP', '-DTRV_USE_FFTWOMP',
             '-I/repo/src/triumvirate/include', *extra, 'demo.cpp', lib,
             '-lgsl', '-lgslcblas', '-lfftw3', '-lfftw3_omp', '-lm',
             '-o', 'demo'], capture_output=True, text=True)
        if not r.returncode:
            break
    assert not r.returncode, r.stderr
    r = subprocess.run(['./demo', *args], capture_output=True, text=True)
    return r.returncode, r.stdout
'''

seed('P11-stirling', 'P11', {SS+'maths.cpp': [(
    '- 1./360 * (1./std::pow(x_p, 3)', '- 1./180 * (1./std::pow(x_p, 3)')]},
    'arguments with an imaginary part of at least 100',
    'the asymptotic ratio of gamma functions loses accuracy', CPP + r"""
rc, out = cpp('''
#include <cstdio>
#include "maths.hpp"
int main() {
  // ln(Gamma(x + 1)/Gamma(x)) = ln x, with the ratio written as products
  for (double y : {60., 99., 100., 101., 150., 400.}) {
    std::complex<double> nu(0., y);
    double mu = .5;
    auto a = trv::maths::eval_gamma_lnratio(mu, nu);
    auto b = trv::maths::eval_gamma_lnratio(mu + 2., nu);
    auto d = b - a - std::log((mu + 1. + nu)/2.) + std::log((mu + 1. - nu)/2.);
    double t = std::remainder(d.imag(), 2*M_PI);
    if (std::abs(d.real()) > 2e-11 || std::abs(t) > 2e-11) {
      std::printf("y = %g: %g %g", y, d.real(), t);
      return 1;
    }
  }
  return 0;
}
''')
check(rc == 0, out)
""")

seed('P11-pole', 'P11', {SS+'maths.cpp': [(
    '  if (std::fabs(xy_mod) >= eps) {\n    phi =',
    '  if (std::fabs(xy_mod) >= 1.e-3 * xyz_mod) {\n    phi =')]},
    'directions very close to but not on the polar axis',
    'the azimuth of the harmonics is dropped', CPP + r"""
rc, out = cpp('''
#include <cstdio>
#include "maths.hpp"
int main() {
  double e = 5e-4, a[3] = {e, 0., 1.}, b[3] = {0., e, 1.};
  auto p = trv::maths::SphericalHarmonicCalculator::
    calc_reduced_spherical_harmonic(2, 1, a);
  auto q = trv::maths::SphericalHarmonicCalculator::
    calc_reduced_spherical_harmonic(2, 1, b);
  // a quarter turn about the axis
  return std::abs(std::abs(q - p) - std::sqrt(2.)*std::abs(p))
    > 1e-6*std::abs(p);
}
''')
check(rc == 0, 'no azimuth')
""")

seed('P04-wa-order', 'P04', {SS+'field.cpp': [(
    '''            std::pow(r_, - this->params.i_wa - this->params.j_wa);
          this->field[idx_grid][1] *=
            std::pow(r_, - this->params.i_wa - this->params.j_wa);''',
    '''            std::pow(r_, - this->params.i_wa);
          this->field[idx_grid][1] *=
            std::pow(r_, - this->params.i_wa);''')]},
    'wide-angle windows with a nonzero second order',
    'the second wide-angle order does not weight by distance', PRE + '''
x = rng.uniform(500, 900, (80, 3))
out = []
for wa in ((1, 0), (0, 1)):
    d = ParticleCatalogue(*x.T, nz=np.full(80, 1e-4))
    p = ParameterSet(param_dict=params(
        catalogue_type='random', statistic_type='3pcf-win-wa',
        boxsize=dict(x=800., y=800., z=800.), ngrid=dict(x=16, y=16, z=16),
        degrees=dict(ell1=1, ell2=1, ELL=0), wa_orders=dict(i=wa[0], j=wa[1]),
        range=[20., 300.], num_bins=4, norm_convention='particle'))
    out.append(threept.compute_3pcf_window(d, paramset=p)['zeta_raw'])
# the kernel depends on the sum of both orders
check(np.allclose(out[0], out[1], rtol=1e-6), out)
''')

seed('P14-used-wa', 'P14', {SS+'parameters.cpp': [(
    '''print_par_int("j_wa = %d\\n", this->j_wa);''',
    '''print_par_int("j_wa = %d\\n", this->i_wa);''')]},
    'wide-angle windows with different orders',
    'the record of the parameters used states the wrong order', PRE + '''
import os
p = ParameterSet(param_dict=params(
    catalogue_type='random', statistic_type='3pcf-win-wa',
    directories=dict(catalogues='', measurements=os.getcwd()),
    boxsize=dict(x=800., y=800., z=800.), ngrid=dict(x=16, y=16, z=16),
    degrees=dict(ell1=1, ell2=1, ELL=0), wa_orders=dict(i=1, j=3),
    range=[20., 300.], num_bins=4, norm_convention='particle'))
import ctypes, glob, subprocess
open('p.ini', 'w').write("""
catalogue_dir = %s/
measurement_dir = %s/
rand_catalogue_file = r.txt
catalogue_columns = x,y,z,nz
catalogue_type = random
statistic_type = 3pcf-win-wa
boxsize_x = 800
boxsize_y = 800
boxsize_z = 800
ngrid_x = 16
ngrid_y = 16
ngrid_z = 16
alignment = centre
padscale = box
padfactor = 0.
assignment = tsc
interlace = false
ell1 = 1
ell2 = 1
ELL = 0
i_wa = 1
j_wa = 3
form = diag
norm_convention = particle
binning = lin
bin_min = 20
bin_max = 300
num_bins = 4
verbose = 20
""" % (os.getcwd(), os.getcwd()))
x = rng.uniform(100, 700, (50, 3))
np.savetxt('r.txt', np.column_stack([x, np.full(50, 1e-4)]))
r = subprocess.run(['/repo/build/bin/triumvirate', 'p.ini'],
                   capture_output=True, text=True)
f = [f for f in glob.glob('*') if 'used' in f]
check(len(f) == 1, (f, r.stdout[-800:]))
t = [l.split('=')[1].strip() for l in open(f[0])
     if l.split('=')[0].strip() == 'j_wa']
check(t == ['3'], t)
''')

seed('P21-pop', 'P21', {S+'parameters.pyx': [(
    "        paramset['padfactor'] = params_sampling['boxpad']",
    "        paramset['padfactor'] = params_sampling.pop('boxpad')")]},
    'sampling options with padding used for two measurements',
    'the padding is lost in the second measurement', PRE + '''
o = dict(boxsize=[1000.]*3, ngrid=[8]*3, alignment='pad', boxpad=.1)
x = rng.uniform(0, 800, (60, 3))
y = rng.uniform(0, 800, (90, 3))
b = Binning('fourier', 'lin', bin_min=.01, bin_max=.03, num_bins=2)
out = []
for _ in range(2):
    d = ParticleCatalogue(*x.T, nz=np.full(60, 1e-4))
    r = ParticleCatalogue(*y.T, nz=np.full(90, 1e-4))
    out.append(twopt.compute_powspec(
        d, r, degree=0, binning=b, sampling_params=o)['pk_raw'])
check(np.array_equal(*out), 'the second measurement differs')
''')

seed('P22-name-z', 'P22', {SS+'parameters.cpp': [(
    '''fftw_cif_%dx%dx%d.wisdom",
      this->use_fftw_wisdom.c_str(),
      this->ngrid[0], this->ngrid[1], this->ngrid[2]''',
    '''fftw_cif_%dx%dx%d.wisdom",
      this->use_fftw_wisdom.c_str(),
      this->ngrid[0], this->ngrid[1], this->ngrid[1]'''), (
    '''fftw_omp_cif_%dx%dx%d.wisdom",
      this->use_fftw_wisdom.c_str(),
      this->ngrid[0], this->ngrid[1], this->ngrid[2]''',
    '''fftw_omp_cif_%dx%dx%d.wisdom",
      this->use_fftw_wisdom.c_str(),
      this->ngrid[0], this->ngrid[1], this->ngrid[1]''')]},
    'wisdom for meshes that differ along the last axis only',
    'wisdom of one mesh is taken for that of another', PRE + '''
import os
x = rng.uniform(0, 400, (60, 3))
b = Binning('fourier', 'lin', bin_min=.01, bin_max=.03, num_bins=2)
for nz in (8, 10):
    d = ParticleCatalogue(*x.T, nz=np.full(60, 1e-4))
    p = ParameterSet(param_dict=params(
        catalogue_type='sim', statistic_type='powspec',
        boxsize=dict(x=400., y=400., z=400.), ngrid=dict(x=8, y=8, z=nz),
        degrees=dict(ell1=None, ell2=None, ELL=0), range=[.02, .06],
        num_bins=2, norm_convention='particle', interlace=False,
        fftw_scheme='measure', use_fftw_wisdom=os.getcwd()))
    twopt.compute_powspec_in_gpp_box(d, paramset=p)
n = [f for f in os.listdir('.') if f.endswith('.wisdom') and 'cif' in f]
check(len(n) == 2, n)
''')

seed('P05-grid-scheme', 'P05', {SS+'dataobjs.cpp': [(
    '''  this->scheme = "lin";

  this->bin_min = 0.;
''', '''  this->bin_min = 0.;
''')]},
    'grid-based bins on a binning made with a padded scheme',
    'the bins are padded and not those of the grid', PRE + '''
b = Binning('fourier', 'linpad', bin_min=.005, bin_max=.3, num_bins=20)
b.set_grid_based_bins([1000.]*3, [64]*3)
check(b.scheme == 'lin' and np.allclose(np.diff(b.bin_edges),
      b.bin_edges[1]), (b.scheme, b.bin_edges))
''')
