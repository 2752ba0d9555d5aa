# cython: language_level=3
"""Read the C++ parameter set behind a Python parameter set."""
from triumvirate.parameters cimport ParameterSet


def peek(ParameterSet ps):
    p = ps.thisptr
    return {
        'catalogue_dir': p.catalogue_dir,
        'measurement_dir': p.measurement_dir,
        'data_catalogue_file': p.data_catalogue_file,
        'rand_catalogue_file': p.rand_catalogue_file,
        'output_tag': p.output_tag,
        'boxsize': tuple(p.boxsize), 'ngrid': tuple(p.ngrid),
        'volume': p.volume, 'nmesh': p.nmesh, 'expand': p.expand,
        'alignment': p.alignment, 'padscale': p.padscale,
        'padfactor': p.padfactor, 'assignment': p.assignment,
        'interlace': p.interlace, 'assignment_order': p.assignment_order,
        'catalogue_type': p.catalogue_type,
        'statistic_type': p.statistic_type,
        'npoint': p.npoint, 'space': p.space, 'form': p.form,
        'norm_convention': p.norm_convention, 'binning': p.binning,
        'degrees': (p.ell1, p.ell2, p.ELL), 'wa_orders': (p.i_wa, p.j_wa),
        'range': (p.bin_min, p.bin_max), 'cutoff_nyq': p.cutoff_nyq,
        'num_bins': p.num_bins, 'idx_bin': p.idx_bin,
        'fftw_scheme': p.fftw_scheme,
        'fftw_planner_flag': p.fftw_planner_flag,
        'use_fftw_wisdom': p.use_fftw_wisdom,
        'fftw_wisdom_file_f': p.fftw_wisdom_file_f,
        'fftw_wisdom_file_b': p.fftw_wisdom_file_b,
        'verbose': p.verbose, 'progbar': p.progbar,
    }


from triumvirate._particles cimport _ParticleCatalogue


cdef extern from "include/particles.hpp":
    cdef struct PD "trv::ParticleData":
        double pos[3]
        double nz
        double ws
        double wc
        double w

    cdef cppclass PC "trv::ParticleCatalogue":
        int ntotal
        double wtotal
        double wstotal
        double pos_min[3]
        double pos_max[3]
        PD* pdata


def peek_catalogue(_ParticleCatalogue cat):
    cdef PC* c = <PC*>cat.thisptr
    rows = [(c.pdata[i].pos[0], c.pdata[i].pos[1], c.pdata[i].pos[2],
             c.pdata[i].nz, c.pdata[i].ws, c.pdata[i].wc,
             c.pdata[i].w) for i in range(c.ntotal)]
    return rows, c.wtotal, c.wstotal, tuple(c.pos_min), tuple(c.pos_max)
