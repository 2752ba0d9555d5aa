// C interface to the library's public classes, for enumeration from Python.
#include <cstring>
#include <string>
#include <vector>
#include <complex>
#include <map>
#include <exception>
#include <cstdio>
#include <iostream>

#include "monitor.hpp"
#include "parameters.hpp"
#include "maths.hpp"
#include "arrayops.hpp"
#include "particles.hpp"
#include "dataobjs.hpp"
#include "field.hpp"
#include "twopt.hpp"
#include "threept.hpp"
#include "fftlog.hpp"
#include "io.hpp"

using cd = std::complex<double>;
static std::string g_err;
static std::string g_str;

#define TRY(...) \
  try { __VA_ARGS__; return 0; } \
  catch (const std::exception& e) { g_err = e.what(); return 1; } \
  catch (...) { g_err = "unknown exception"; return 2; }

extern "C" {

const char* vt_err() { return g_err.c_str(); }

void vt_loglevel(int l) { trv::sys::logger.reset_level(l); }

// trackers -------------------------------------------------------------
void vt_trackers(double* out) {
  out[0] = trv::sys::gbytesMem;
  out[1] = trv::sys::gbytesMaxMem;
  out[2] = trv::sys::count_rgrid;
  out[3] = trv::sys::count_cgrid;
  out[4] = trv::sys::count_grid;
  out[5] = trv::sys::max_count_rgrid;
  out[6] = trv::sys::max_count_cgrid;
  out[7] = trv::sys::max_count_grid;
  out[8] = trv::sys::count_fft;
  out[9] = trv::sys::count_ifft;
}

// parameters -----------------------------------------------------------
void* vt_params_new() { return new trv::ParameterSet(); }
void* vt_params_copy(void* p) {
  return new trv::ParameterSet(*static_cast<trv::ParameterSet*>(p));
}
void vt_params_del(void* p) { delete static_cast<trv::ParameterSet*>(p); }

static std::string* sfield(trv::ParameterSet& p, const std::string& n) {
#define S(x) if (n == #x) return &p.x;
  S(catalogue_dir) S(measurement_dir) S(data_catalogue_file)
  S(rand_catalogue_file) S(catalogue_columns) S(catalogue_dataset)
  S(output_tag) S(alignment) S(padscale) S(assignment) S(interlace)
  S(catalogue_type) S(statistic_type) S(npoint) S(space) S(form)
  S(norm_convention) S(shape) S(binning) S(fftw_scheme) S(use_fftw_wisdom)
  S(fftw_wisdom_file_f) S(fftw_wisdom_file_b) S(save_binned_vectors)
  S(progbar)
#undef S
  return nullptr;
}
static double* dfield(trv::ParameterSet& p, const std::string& n) {
#define S(x) if (n == #x) return &p.x;
  S(expand) S(cutoff_nyq) S(padfactor) S(volume) S(bin_min) S(bin_max)
  if (n == "boxsize") return p.boxsize;
#undef S
  return nullptr;
}
static int* ifield(trv::ParameterSet& p, const std::string& n) {
#define S(x) if (n == #x) return &p.x;
  S(assignment_order) S(ell1) S(ell2) S(ELL) S(i_wa) S(j_wa) S(num_bins)
  S(idx_bin) S(verbose)
  if (n == "ngrid") return p.ngrid;
#undef S
  return nullptr;
}
int vt_params_set_s(void* p, const char* n, const char* v) {
  auto f = sfield(*static_cast<trv::ParameterSet*>(p), n);
  if (!f) return 1;
  *f = v;
  return 0;
}
int vt_params_set_d(void* p, const char* n, int i, double v) {
  auto f = dfield(*static_cast<trv::ParameterSet*>(p), n);
  if (!f) return 1;
  f[i] = v;
  return 0;
}
int vt_params_set_i(void* p, const char* n, int i, int v) {
  auto f = ifield(*static_cast<trv::ParameterSet*>(p), n);
  if (!f) return 1;
  f[i] = v;
  return 0;
}
void vt_params_set_nmesh(void* p, long long v) {
  static_cast<trv::ParameterSet*>(p)->nmesh = v;
}
long long vt_params_get_nmesh(void* p) {
  return static_cast<trv::ParameterSet*>(p)->nmesh;
}
unsigned vt_params_get_planner(void* p) {
  return static_cast<trv::ParameterSet*>(p)->fftw_planner_flag;
}
const char* vt_params_get_s(void* p, const char* n) {
  auto f = sfield(*static_cast<trv::ParameterSet*>(p), n);
  if (!f) return nullptr;
  return f->c_str();
}
double vt_params_get_d(void* p, const char* n, int i) {
  return dfield(*static_cast<trv::ParameterSet*>(p), n)[i];
}
int vt_params_get_i(void* p, const char* n, int i) {
  return ifield(*static_cast<trv::ParameterSet*>(p), n)[i];
}
int vt_params_validate(void* p, int init) {
  TRY(static_cast<trv::ParameterSet*>(p)->validate(init != 0))
}
int vt_params_read(void* p, const char* path) {
  TRY({
    std::string s(path);
    int r = static_cast<trv::ParameterSet*>(p)->read_from_file(&s[0]);
    if (r) { g_err = "read_from_file returned nonzero"; return 3; }
  })
}
int vt_params_print(void* p, const char* path) {
  TRY({
    std::string s(path);
    int r = static_cast<trv::ParameterSet*>(p)->print_to_file(&s[0]);
    if (r) { g_err = "print_to_file returned nonzero"; return 3; }
  })
}
int vt_params_print_default(void* p) {
  TRY({
    int r = static_cast<trv::ParameterSet*>(p)->print_to_file();
    if (r) { g_err = "print_to_file returned nonzero"; return 3; }
  })
}
int vt_params_envvars(void* p) {
  TRY(trv::override_paramset_by_envvars(*static_cast<trv::ParameterSet*>(p)))
}
int vt_params_box_from_expand(void* p, const double* spans) {
  TRY(trv::set_boxsize_from_expand(spans, *static_cast<trv::ParameterSet*>(p)))
}
int vt_params_ngrid_from_cutoff(void* p) {
  TRY(trv::set_ngrid_from_cutoff(*static_cast<trv::ParameterSet*>(p)))
}

// binning --------------------------------------------------------------
void* vt_bin_new(const char* space, const char* scheme) {
  return new trv::Binning(std::string(space), std::string(scheme));
}
void* vt_bin_new_params(void* p) {
  return new trv::Binning(*static_cast<trv::ParameterSet*>(p));
}
void vt_bin_del(void* b) { delete static_cast<trv::Binning*>(b); }
int vt_bin_set(void* b) { TRY(static_cast<trv::Binning*>(b)->set_bins()) }
int vt_bin_set_range(void* b, double lo, double hi, int n) {
  TRY(static_cast<trv::Binning*>(b)->set_bins(lo, hi, n))
}
int vt_bin_set_mesh(void* b, double box, int n) {
  TRY(static_cast<trv::Binning*>(b)->set_bins(box, n))
}
int vt_bin_set_edges(void* b, const double* e, int n) {
  TRY(static_cast<trv::Binning*>(b)->set_bins(std::vector<double>(e, e + n)))
}
int vt_bin_sizes(void* b, int* out) {
  auto& x = *static_cast<trv::Binning*>(b);
  out[0] = x.num_bins;
  out[1] = (int)x.bin_edges.size();
  out[2] = (int)x.bin_centres.size();
  out[3] = (int)x.bin_widths.size();
  return 0;
}
void vt_bin_range(void* b, double* out) {
  auto& x = *static_cast<trv::Binning*>(b);
  out[0] = x.bin_min; out[1] = x.bin_max;
}
const char* vt_bin_scheme(void* b) {
  return static_cast<trv::Binning*>(b)->scheme.c_str();
}
void vt_bin_get(void* b, int which, double* out) {
  auto& x = *static_cast<trv::Binning*>(b);
  auto& v = which == 0 ? x.bin_edges : which == 1 ? x.bin_centres
                                                  : x.bin_widths;
  std::copy(v.begin(), v.end(), out);
}

// catalogues -----------------------------------------------------------
void* vt_cat_new() { return new trv::ParticleCatalogue(-1); }
void vt_cat_del(void* c) { delete static_cast<trv::ParticleCatalogue*>(c); }
int vt_cat_load(void* c, int n, const double* x, const double* y,
                const double* z, const double* nz, const double* ws,
                const double* wc) {
#define V(a) std::vector<double>(a, a + n)
  TRY(static_cast<trv::ParticleCatalogue*>(c)->load_particle_data(
    V(x), V(y), V(z), V(nz), V(ws), V(wc)))
#undef V
}
int vt_cat_load_file(void* c, const char* path, const char* cols,
                     double volume) {
  TRY(static_cast<trv::ParticleCatalogue*>(c)->load_catalogue_file(
    path, cols, "", volume))
}
int vt_cat_init(void* c, int n) {
  TRY(static_cast<trv::ParticleCatalogue*>(c)->initialise_particles(n))
}
int vt_cat_finalise(void* c) {
  TRY(static_cast<trv::ParticleCatalogue*>(c)->finalise_particles())
}
int vt_cat_n(void* c) {
  auto& x = *static_cast<trv::ParticleCatalogue*>(c);
  return x.pdata ? x.ntotal : -1;
}
void vt_cat_get(void* c, double* out) {  // n x 7
  auto& x = *static_cast<trv::ParticleCatalogue*>(c);
  for (int i = 0; i < x.ntotal; i++) {
    auto& d = x[i];
    double r[7] = {d.pos[0], d.pos[1], d.pos[2], d.nz, d.ws, d.wc, d.w};
    std::copy(r, r + 7, out + 7*i);
  }
}
void vt_cat_props(void* c, double* out) {
  auto& x = *static_cast<trv::ParticleCatalogue*>(c);
  out[0] = x.ntotal; out[1] = x.wtotal; out[2] = x.wstotal;
  for (int i = 0; i < 3; i++) {
    out[3+i] = x.pos_min[i]; out[6+i] = x.pos_max[i]; out[9+i] = x.pos_span[i];
  }
}
int vt_cat_totals(void* c) {
  TRY(static_cast<trv::ParticleCatalogue*>(c)->calc_total_weights())
}
int vt_cat_extents(void* c) {
  TRY(static_cast<trv::ParticleCatalogue*>(c)->calc_pos_extents())
}
int vt_cat_offset(void* c, const double* d) {
  TRY(static_cast<trv::ParticleCatalogue*>(c)->offset_coords(d))
}
int vt_cat_periodic(void* c, const double* b) {
  TRY(static_cast<trv::ParticleCatalogue*>(c)->offset_coords_for_periodicity(b))
}
int vt_cat_centre(void* c, void* r, const double* b) {
  TRY({
    if (r) trv::ParticleCatalogue::centre_in_box(
      *static_cast<trv::ParticleCatalogue*>(c),
      *static_cast<trv::ParticleCatalogue*>(r), b);
    else trv::ParticleCatalogue::centre_in_box(
      *static_cast<trv::ParticleCatalogue*>(c), b);
  })
}
int vt_cat_pad_box(void* c, void* r, const double* b, const double* f) {
  TRY({
    if (r) trv::ParticleCatalogue::pad_in_box(
      *static_cast<trv::ParticleCatalogue*>(c),
      *static_cast<trv::ParticleCatalogue*>(r), b, f);
    else trv::ParticleCatalogue::pad_in_box(
      *static_cast<trv::ParticleCatalogue*>(c), b, f);
  })
}
int vt_cat_pad_grids(void* c, void* r, const double* b, const int* n,
                     const double* f) {
  TRY({
    if (r) trv::ParticleCatalogue::pad_grids(
      *static_cast<trv::ParticleCatalogue*>(c),
      *static_cast<trv::ParticleCatalogue*>(r), b, n, f);
    else trv::ParticleCatalogue::pad_grids(
      *static_cast<trv::ParticleCatalogue*>(c), b, n, f);
  })
}

// mesh fields ----------------------------------------------------------
void* vt_mesh_new(void* p, int plan_ini) {
  try {
    return new trv::MeshField(*static_cast<trv::ParameterSet*>(p),
                              plan_ini != 0, "vt");
  } catch (const std::exception& e) { g_err = e.what(); return nullptr; }
}
void vt_mesh_del(void* m) { delete static_cast<trv::MeshField*>(m); }
void* vt_mesh_field(void* m) { return static_cast<trv::MeshField*>(m)->field; }
void vt_mesh_geom(void* m, double* out) {
  auto& x = *static_cast<trv::MeshField*>(m);
  for (int i = 0; i < 3; i++) { out[i] = x.dr[i]; out[3+i] = x.dk[i]; }
  out[6] = x.vol; out[7] = x.vol_cell;
}
int vt_mesh_reset(void* m) {
  TRY(static_cast<trv::MeshField*>(m)->reset_density_field())
}
int vt_mesh_assign(void* m, void* c, double* w) {
  TRY(static_cast<trv::MeshField*>(m)->assign_weighted_field_to_mesh(
    *static_cast<trv::ParticleCatalogue*>(c),
    reinterpret_cast<fftw_complex*>(w)))
}
int vt_mesh_unweighted(void* m, void* c) {
  TRY(static_cast<trv::MeshField*>(m)->compute_unweighted_field(
    *static_cast<trv::ParticleCatalogue*>(c)))
}
int vt_mesh_fluct(void* m, void* c) {
  TRY(static_cast<trv::MeshField*>(m)
      ->compute_unweighted_field_fluctuations_insitu(
        *static_cast<trv::ParticleCatalogue*>(c)))
}
static std::vector<trv::LineOfSight> mklos(const double* l, int n) {
  std::vector<trv::LineOfSight> v(n);
  for (int i = 0; i < n; i++)
    for (int a = 0; a < 3; a++) v[i].pos[a] = l[3*i+a];
  return v;
}
int vt_mesh_ylm(void* m, void* c, void* r, const double* lc, const double* lr,
                double alpha, int ell, int mm, int quad) {
  TRY({
    auto& f = *static_cast<trv::MeshField*>(m);
    auto& cc = *static_cast<trv::ParticleCatalogue*>(c);
    auto vc = mklos(lc, cc.ntotal);
    if (r) {
      auto& rr = *static_cast<trv::ParticleCatalogue*>(r);
      auto vr = mklos(lr, rr.ntotal);
      if (quad) f.compute_ylm_wgtd_quad_field(cc, rr, vc.data(), vr.data(),
                                              alpha, ell, mm);
      else f.compute_ylm_wgtd_field(cc, rr, vc.data(), vr.data(), alpha, ell,
                                    mm);
    } else {
      if (quad) f.compute_ylm_wgtd_quad_field(cc, vc.data(), alpha, ell, mm);
      else f.compute_ylm_wgtd_field(cc, vc.data(), alpha, ell, mm);
    }
  })
}
int vt_mesh_ft(void* m) {
  TRY(static_cast<trv::MeshField*>(m)->fourier_transform())
}
int vt_mesh_ift(void* m) {
  TRY(static_cast<trv::MeshField*>(m)->inv_fourier_transform())
}
int vt_mesh_wa(void* m) {
  TRY(static_cast<trv::MeshField*>(m)->apply_wide_angle_pow_law_kernel())
}
int vt_mesh_comp(void* m) {
  TRY(static_cast<trv::MeshField*>(m)->apply_assignment_compensation())
}
int vt_mesh_band(void* m, void* f, const double* ylm, long long n, double k,
                 double dk, double* keff, int* nm) {
  TRY({
    auto y = reinterpret_cast<const cd*>(ylm);
    std::vector<cd> v(y, y + n);
    static_cast<trv::MeshField*>(m)
      ->inv_fourier_transform_ylm_wgtd_field_band_limited(
        *static_cast<trv::MeshField*>(f), v, k, dk, *keff, *nm);
  })
}
int vt_mesh_sjl(void* m, void* f, const double* ylm, long long n, int ell,
                double r) {
  TRY({
    auto y = reinterpret_cast<const cd*>(ylm);
    std::vector<cd> v(y, y + n);
    static std::map<int, trv::maths::SphericalBesselCalculator*> cache;
    if (!cache.count(ell))
      cache[ell] = new trv::maths::SphericalBesselCalculator(ell);
    static_cast<trv::MeshField*>(m)->inv_fourier_transform_sjl_ylm_wgtd_field(
      *static_cast<trv::MeshField*>(f), v, *cache[ell], r);
  })
}
int vt_mesh_norm(void* m, void* c, int order, double* out) {
  TRY(*out = static_cast<trv::MeshField*>(m)->calc_grid_based_powlaw_norm(
    *static_cast<trv::ParticleCatalogue*>(c), order))
}

// field statistics -----------------------------------------------------
void* vt_fs_new(void* p, int plan) {
  try {
    return new trv::FieldStats(*static_cast<trv::ParameterSet*>(p), plan != 0);
  } catch (const std::exception& e) { g_err = e.what(); return nullptr; }
}
void vt_fs_del(void* s) { delete static_cast<trv::FieldStats*>(s); }
int vt_fs_reset(void* s) {
  TRY(static_cast<trv::FieldStats*>(s)->reset_stats())
}
int vt_fs_2pt(void* s, void* a, void* b, double sr, double si, int ell, int m,
              void* bin, int config) {
  TRY({
    auto& x = *static_cast<trv::FieldStats*>(s);
    if (config) x.compute_ylm_wgtd_2pt_stats_in_config(
      *static_cast<trv::MeshField*>(a), *static_cast<trv::MeshField*>(b),
      cd(sr, si), ell, m, *static_cast<trv::Binning*>(bin));
    else x.compute_ylm_wgtd_2pt_stats_in_fourier(
      *static_cast<trv::MeshField*>(a), *static_cast<trv::MeshField*>(b),
      cd(sr, si), ell, m, *static_cast<trv::Binning*>(bin));
  })
}
void vt_fs_sizes(void* s, int* out) {
  auto& x = *static_cast<trv::FieldStats*>(s);
  out[0] = x.nmodes.size(); out[1] = x.npairs.size(); out[2] = x.k.size();
  out[3] = x.r.size(); out[4] = x.sn.size(); out[5] = x.pk.size();
  out[6] = x.xi.size();
}
void vt_fs_get(void* s, int* nm, double* k, double* a, double* b, int config) {
  auto& x = *static_cast<trv::FieldStats*>(s);
  auto& n = config ? x.npairs : x.nmodes;
  auto& kk = config ? x.r : x.k;
  auto& p = config ? x.xi : x.pk;
  for (size_t i = 0; i < n.size(); i++) nm[i] = n[i];
  for (size_t i = 0; i < kk.size(); i++) k[i] = kk[i];
  for (size_t i = 0; i < p.size(); i++) {
    a[2*i] = p[i].real(); a[2*i+1] = p[i].imag();
  }
  for (size_t i = 0; i < x.sn.size(); i++) {
    b[2*i] = x.sn[i].real(); b[2*i+1] = x.sn[i].imag();
  }
}
static trv::BinnedVectors g_bv;
int vt_fs_record(void* s, void* bin, const char* save) {
  TRY(g_bv = static_cast<trv::FieldStats*>(s)->record_binned_vectors(
    *static_cast<trv::Binning*>(bin), save))
}
void vt_bv_sizes(int* out) {
  out[0] = g_bv.count; out[1] = g_bv.num_bins; out[2] = g_bv.indices.size();
  out[3] = g_bv.vecx.size(); out[4] = g_bv.lower_edges.size();
  out[5] = g_bv.upper_edges.size();
}
void vt_bv_get(double* out) {
  for (size_t i = 0; i < g_bv.indices.size(); i++) {
    double r[6] = {double(g_bv.indices[i]), g_bv.lower_edges[i],
                   g_bv.upper_edges[i], g_bv.vecx[i], g_bv.vecy[i],
                   g_bv.vecz[i]};
    std::copy(r, r + 6, out + 6*i);
  }
}

// maths ----------------------------------------------------------------
int vt_ylm_store(int ell, int m, const double* box, const int* ng, int config,
                 double* out, long long n) {
  TRY({
    std::vector<cd> v(n);
    if (config) trv::maths::SphericalHarmonicCalculator::
      store_reduced_spherical_harmonic_in_config_space(ell, m, box, ng, v);
    else trv::maths::SphericalHarmonicCalculator::
      store_reduced_spherical_harmonic_in_fourier_space(ell, m, box, ng, v);
    std::memcpy(out, v.data(), n * sizeof(cd));
  })
}
int vt_ylm(int ell, int m, double x, double y, double z, double* out) {
  TRY({
    double pos[3] = {x, y, z};
    cd r = trv::maths::SphericalHarmonicCalculator::
      calc_reduced_spherical_harmonic(ell, m, pos);
    out[0] = r.real(); out[1] = r.imag();
  })
}
double vt_w3j(int a, int b, int c, int d, int e, int f) {
  return trv::maths::wigner_3j(a, b, c, d, e, f);
}
int vt_sj(int ell, int n, const double* x, double* out) {
  TRY({
    trv::maths::SphericalBesselCalculator s(ell);
    for (int i = 0; i < n; i++) out[i] = s.eval(x[i]);
  })
}
void* vt_sj_new(int ell) {
  return new trv::maths::SphericalBesselCalculator(ell);
}
void* vt_sj_copy(void* s) {
  return new trv::maths::SphericalBesselCalculator(
    *static_cast<trv::maths::SphericalBesselCalculator*>(s));
}
void vt_sj_del(void* s) {
  delete static_cast<trv::maths::SphericalBesselCalculator*>(s);
}
double vt_sj_eval(void* s, double x) {
  return static_cast<trv::maths::SphericalBesselCalculator*>(s)->eval(x);
}
void vt_gamma(double re, double im, double* out) {
  cd g = trv::maths::eval_gamma_lanczos(cd(re, im));
  out[0] = g.real(); out[1] = g.imag();
}
void vt_lngamma_parts(double x, double y, double* out) {
  trv::maths::get_lngamma_parts(x, y, out[0], out[1]);
}
void vt_gamma_lnratio(double mu, double re, double im, double* out) {
  cd g = trv::maths::eval_gamma_lnratio(mu, cd(re, im));
  out[0] = g.real(); out[1] = g.imag();
}
double vt_coupling2(int ell, int ELL, int m, int M) {
  return trv::calc_coupling_coeff_2pt(ell, ELL, m, M);
}
double vt_coupling3(int l1, int l2, int L, int m1, int m2, int M) {
  return trv::calc_coupling_coeff_3pt(l1, l2, L, m1, m2, M);
}
int vt_validate_coupling(void* p) {
  TRY(trv::validate_multipole_coupling(*static_cast<trv::ParameterSet*>(p)))
}

// arrays ---------------------------------------------------------------
int vt_extrap(int kind, const double* a, int n, int next, double cl,
              double cu, double* out) {
  TRY({
    std::vector<double> v(a, a + n), e;
    if (kind == 0) trv::array::extrap_lin(v, next, e);
    else if (kind == 1) trv::array::extrap_loglin(v, next, e);
    else trv::array::extrap_pad(v, next, cl, cu, e);
    if ((int)e.size() != n + 2*next) { g_err = "size"; return 4; }
    std::copy(e.begin(), e.end(), out);
  })
}
int vt_extrap2d(int kind, const double* a, int nr, int nc, int er, int ec,
                const double* c, double* out) {
  TRY({
    std::vector<std::vector<double>> v(nr), e;
    for (int i = 0; i < nr; i++) v[i].assign(a + i*nc, a + (i+1)*nc);
    if (kind == 0) trv::array::extrap2d_lin(v, er, ec, e);
    else if (kind == 1) trv::array::extrap2d_loglin(v, er, ec, e);
    else trv::array::extrap2d_pad(v, er, ec, c[0], c[1], c[2], c[3], e);
    if ((int)e.size() != nr + 2*er) { g_err = "rows"; return 4; }
    for (int i = 0; i < nr + 2*er; i++) {
      if ((int)e[i].size() != nc + 2*ec) { g_err = "cols"; return 4; }
      std::copy(e[i].begin(), e[i].end(), out + i*(nc + 2*ec));
    }
  })
}
int vt_check1d(const double* a, int n, int lin, int loglin, int sign,
               int* out) {
  TRY({
    std::vector<double> v(a, a + n);
    *out = trv::array::check_1d_array(v, lin, loglin, sign);
  })
}
void vt_argsort(const int* a, int n, int* out) {
  std::vector<int> v(a, a + n);
  auto r = trv::array::get_sorted_indices(v);
  std::copy(r.begin(), r.end(), out);
}

// monitor --------------------------------------------------------------
int vt_expand_env(const char* in, char* out, int n) {
  TRY({
    std::string s(in);
    trv::sys::expand_envar_in_path(s);
    std::strncpy(out, s.c_str(), n - 1);
    out[n-1] = 0;
  })
}
const char* vt_elapsed(double s) {
  g_str = trv::sys::show_elapsed_time(s);
  return g_str.c_str();
}
int vt_has_ext(const char* a, const char* b) {
  return trv::sys::has_extension(a, b);
}
const char* vt_split_join(const char* s, const char* d, const char* d2,
                          int* n) {
  auto v = trv::sys::split_string(s, d);
  *n = v.size();
  g_str = trv::sys::join_strings(v, d2);
  return g_str.c_str();
}

// logging and progress ---------------------------------------------------
// one op per character of `how`: d s i w e (named methods), l (log with an
// integer level), n (log with an enumerated level)
int vt_log(int limit, const char* how, int level, const char* a, int b) {
  int rc = 0;
  try {
    trv::sys::Logger lg(limit);
    for (const char* c = how; *c; ++c) {
      switch (*c) {
        case 'd': lg.debug("%s and %d", a, b); break;
        case 's': lg.stat("%s and %d", a, b); break;
        case 'i': lg.info("%s and %d", a, b); break;
        case 'w': lg.warn("%s and %d", a, b); break;
        case 'e': lg.error("%s and %d", a, b); break;
        case 'l': lg.log(level, "%s and %d", a, b); break;
        case 'n':
          lg.log(static_cast<trv::sys::LogLevel>(level), "%s and %d", a, b);
          break;
        case 'r': lg.reset_level(level); break;
      }
    }
  } catch (const std::exception& e) { g_err = e.what(); rc = 1; }
  std::fflush(stdout);
  return rc;
}
static trv::sys::ProgressBar* g_bar = nullptr;
int vt_bar_new(int n, const char* name) {
  delete g_bar; g_bar = nullptr;
  TRY(g_bar = new trv::sys::ProgressBar(n, name))
}
int vt_bar_nodes(const float* v, int n) {
  TRY(g_bar->set_nodes(std::vector<float>(v, v + n)))
}
int vt_bar_width(int w) { TRY(g_bar->set_bar_width(w)) }
int vt_bar_task(int i) { TRY(g_bar->set_task_idx(i)) }
int vt_bar_prog(double f) { TRY(g_bar->set_progress(float(f))) }
int vt_bar_update(int i) {
  int rc = 0;
  try { g_bar->update(i); }
  catch (const std::exception& e) { g_err = e.what(); rc = 1; }
  std::cout.flush();
  return rc;
}
int vt_bar_updatef(double f) {
  int rc = 0;
  try { g_bar->update(float(f)); }
  catch (const std::exception& e) { g_err = e.what(); rc = 1; }
  std::cout.flush();
  return rc;
}
int vt_bar_strnodes(const char* s, float* out, int cap, int* n) {
  TRY({
    auto v = trv::sys::set_nodes_by_str(s);
    *n = v.size();
    for (int i = 0; i < *n && i < cap; i++) out[i] = v[i];
  })
}
const char* vt_datetime(int utc) {
  g_str = trv::sys::show_current_datetime(utc != 0);
  return g_str.c_str();
}
int vt_path_is_set(const char* s) { return trv::sys::if_filepath_is_set(s); }
int vt_make_dir(const char* s) { TRY(trv::sys::make_write_dir(s)) }

}  // extern "C"

// full statistics, straight from arrays ----------------------------------
extern "C" {
static trv::LineOfSight* los_or_null(std::vector<trv::LineOfSight>& v) {
  return v.data();
}
// kind: 0 powspec, 1 corrfunc, 2 powspec gpp, 3 corrfunc gpp, 4 2pcf window
// 10 bispec, 11 3pcf, 12 bispec gpp, 13 3pcf gpp, 14 3pcf window, 15 wa
// out arrays sized by the caller with room `cap`; returns dim in *dim
int vt_stat(int kind, void* c, void* r, const double* lc, const double* lr,
            void* p, void* bin, double alpha, double norm, int cap, int* dim,
            double* dtab) {
  // dtab rows: 2pt: bin, eff, n, re, im, shot re, shot im (7 columns)
  //            3pt: b1, b2, e1, e2, n1, n2, re, im, sre, sim (10 columns)
  TRY({
    auto& pp = *static_cast<trv::ParameterSet*>(p);
    auto& bb = *static_cast<trv::Binning*>(bin);
    auto& cc = *static_cast<trv::ParticleCatalogue*>(c);
    std::vector<trv::LineOfSight> vc;
    std::vector<trv::LineOfSight> vr;
    if (lc) vc = mklos(lc, cc.ntotal);
    trv::ParticleCatalogue* rr = static_cast<trv::ParticleCatalogue*>(r);
    if (rr && lr) vr = mklos(lr, rr->ntotal);
    auto put2 = [&](auto& m, auto& b, auto& e, auto& n, auto& v, auto* s) {
      *dim = m.dim;
      if (m.dim > cap) { throw std::runtime_error("capacity"); }
      if ((int)b.size() != m.dim || (int)e.size() != m.dim
          || (int)n.size() != m.dim || (int)v.size() != m.dim)
        throw std::runtime_error("inconsistent result sizes");
      for (int i = 0; i < m.dim; i++) {
        double* o = dtab + 7*i;
        o[0] = b[i]; o[1] = e[i]; o[2] = n[i];
        o[3] = v[i].real(); o[4] = v[i].imag();
        o[5] = s ? (*s)[i].real() : 0.; o[6] = s ? (*s)[i].imag() : 0.;
      }
    };
    auto put3 = [&](auto& m, auto& b1, auto& b2, auto& e1, auto& e2, auto& n1,
                    auto& n2, auto& v, auto& s) {
      *dim = m.dim;
      if (m.dim > cap) { throw std::runtime_error("capacity"); }
      if ((int)b1.size() != m.dim || (int)b2.size() != m.dim
          || (int)e1.size() != m.dim || (int)e2.size() != m.dim
          || (int)n1.size() != m.dim || (int)n2.size() != m.dim
          || (int)v.size() != m.dim || (int)s.size() != m.dim)
        throw std::runtime_error("inconsistent result sizes");
      for (int i = 0; i < m.dim; i++) {
        double* o = dtab + 10*i;
        o[0] = b1[i]; o[1] = b2[i]; o[2] = e1[i]; o[3] = e2[i];
        o[4] = n1[i]; o[5] = n2[i]; o[6] = v[i].real(); o[7] = v[i].imag();
        o[8] = s[i].real(); o[9] = s[i].imag();
      }
    };
    std::vector<cd>* none = nullptr;
    if (kind == 0) {
      auto m = trv::compute_powspec(cc, *rr, vc.data(), vr.data(), pp, bb,
                                    norm);
      put2(m, m.kbin, m.keff, m.nmodes, m.pk_raw, &m.pk_shot);
    } else if (kind == 1) {
      auto m = trv::compute_corrfunc(cc, *rr, vc.data(), vr.data(), pp, bb,
                                     norm);
      put2(m, m.rbin, m.reff, m.npairs, m.xi, none);
    } else if (kind == 2) {
      auto m = trv::compute_powspec_in_gpp_box(cc, pp, bb, norm);
      put2(m, m.kbin, m.keff, m.nmodes, m.pk_raw, &m.pk_shot);
    } else if (kind == 3) {
      auto m = trv::compute_corrfunc_in_gpp_box(cc, pp, bb, norm);
      put2(m, m.rbin, m.reff, m.npairs, m.xi, none);
    } else if (kind == 4) {
      auto m = trv::compute_corrfunc_window(cc, vc.data(), pp, bb, alpha,
                                            norm);
      put2(m, m.rbin, m.reff, m.npairs, m.xi, none);
    } else if (kind == 10) {
      auto m = trv::compute_bispec(cc, *rr, vc.data(), vr.data(), pp, bb,
                                   norm);
      put3(m, m.k1_bin, m.k2_bin, m.k1_eff, m.k2_eff, m.nmodes_1, m.nmodes_2,
           m.bk_raw, m.bk_shot);
    } else if (kind == 11) {
      auto m = trv::compute_3pcf(cc, *rr, vc.data(), vr.data(), pp, bb, norm);
      put3(m, m.r1_bin, m.r2_bin, m.r1_eff, m.r2_eff, m.npairs_1, m.npairs_2,
           m.zeta_raw, m.zeta_shot);
    } else if (kind == 12) {
      auto m = trv::compute_bispec_in_gpp_box(cc, pp, bb, norm);
      put3(m, m.k1_bin, m.k2_bin, m.k1_eff, m.k2_eff, m.nmodes_1, m.nmodes_2,
           m.bk_raw, m.bk_shot);
    } else if (kind == 13) {
      auto m = trv::compute_3pcf_in_gpp_box(cc, pp, bb, norm);
      put3(m, m.r1_bin, m.r2_bin, m.r1_eff, m.r2_eff, m.npairs_1, m.npairs_2,
           m.zeta_raw, m.zeta_shot);
    } else {
      auto m = trv::compute_3pcf_window(cc, vc.data(), pp, bb, alpha, norm,
                                        kind == 15);
      put3(m, m.r1_bin, m.r2_bin, m.r1_eff, m.r2_eff, m.npairs_1, m.npairs_2,
           m.zeta_raw, m.zeta_shot);
    }
  })
}
int vt_norm(int kind, void* c, void* r, void* p, double alpha, double* out) {
  TRY({
    auto& cc = *static_cast<trv::ParticleCatalogue*>(c);
    trv::ParticleCatalogue* rr = static_cast<trv::ParticleCatalogue*>(r);
    auto& pp = *static_cast<trv::ParameterSet*>(p);
    if (kind == 0) *out = trv::calc_powspec_normalisation_from_particles(
      cc, alpha);
    else if (kind == 1) *out = trv::calc_powspec_normalisation_from_mesh(
      cc, pp, alpha);
    else if (kind == 2) *out = trv::calc_powspec_normalisation_from_meshes(
      cc, *rr, pp, alpha);
    else if (kind == 3) *out = trv::calc_bispec_normalisation_from_particles(
      cc, alpha);
    else if (kind == 4) *out = trv::calc_bispec_normalisation_from_mesh(
      cc, pp, alpha);
    else if (kind == 5) *out = trv::calc_powspec_shotnoise_from_particles(
      cc, alpha);
  })
}
int vt_norm_meshes(void* c, void* r, void* p, double alpha, double padding,
                   double cellsize, const char* assignment, double* out) {
  TRY(*out = trv::calc_powspec_normalisation_from_meshes(
    *static_cast<trv::ParticleCatalogue*>(c),
    *static_cast<trv::ParticleCatalogue*>(r),
    *static_cast<trv::ParameterSet*>(p), alpha, padding, cellsize,
    assignment))
}
}

// FFTLog -----------------------------------------------------------------
extern "C" {
// type 0: HankelTransform(mu, q); 1: SphericalBesselTransform(ell, n)
void* vt_fl_new(int type, double mu, double q, int threaded) {
  try {
    if (type == 0)
      return new trv::maths::HankelTransform(mu, q, threaded != 0);
    return static_cast<trv::maths::HankelTransform*>(
      new trv::maths::SphericalBesselTransform(
        int(mu), int(q), threaded != 0));
  } catch (const std::exception& e) { g_err = e.what(); return nullptr; }
}
void vt_fl_del(int type, void* h) {
  if (type == 0) delete static_cast<trv::maths::HankelTransform*>(h);
  else delete static_cast<trv::maths::SphericalBesselTransform*>(
    static_cast<trv::maths::HankelTransform*>(h));
}
int vt_fl_init(int type, void* h, const double* x, int n, double krc,
               int lowring, int extrap, double exp_) {
  TRY({
    auto* b = static_cast<trv::maths::HankelTransform*>(h);
    std::vector<double> v(x, x + n);
    if (type == 0) b->initialise(v, krc, lowring != 0, extrap, exp_);
    else static_cast<trv::maths::SphericalBesselTransform*>(b)->initialise(
      v, krc, lowring != 0, extrap, exp_);
  })
}
void vt_fl_info(void* h, double* out) {
  auto* b = static_cast<trv::maths::HankelTransform*>(h);
  out[0] = b->order; out[1] = b->bias; out[2] = b->nsamp;
  out[3] = b->nsamp_trans; out[4] = b->logres; out[5] = b->pivot;
  out[6] = b->pre_sampts.size(); out[7] = b->post_sampts.size();
}
void vt_fl_pts(void* h, int post, double* out) {
  auto* b = static_cast<trv::maths::HankelTransform*>(h);
  auto& v = post ? b->post_sampts : b->pre_sampts;
  std::copy(v.begin(), v.end(), out);
}
int vt_fl_biased(int type, void* h, const double* a, double* b, int n) {
  TRY({
    auto* t = static_cast<trv::maths::HankelTransform*>(h);
    auto ya = reinterpret_cast<const cd*>(a);
    std::vector<cd> va(ya, ya + n);
    std::vector<cd> vb(type == 0 ? n : 0);
    if (type == 0) t->biased_transform(va.data(), vb.data());
    else static_cast<trv::maths::SphericalBesselTransform*>(t)
      ->biased_transform(va, vb);
    if ((int)vb.size() != n) { g_err = "size"; return 4; }
    std::memcpy(b, vb.data(), n*sizeof(cd));
  })
}
int vt_fl_cosmo(void* h, int dir, const double* a, double* b, int n) {
  TRY({
    auto* t = static_cast<trv::maths::SphericalBesselTransform*>(
      static_cast<trv::maths::HankelTransform*>(h));
    auto ya = reinterpret_cast<const cd*>(a);
    std::vector<cd> va(ya, ya + n);
    std::vector<cd> vb;
    t->transform_cosmological_multipole(dir, va, vb);
    if ((int)vb.size() != n) { g_err = "size"; return 4; }
    for (int i = 0; i < n; i++) if (va[i] != ya[i]) { g_err = "input changed"; return 5; }
    std::memcpy(b, vb.data(), n*sizeof(cd));
  })
}
}
