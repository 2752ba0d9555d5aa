"""Single source for properties.jsonl and MANIFEST.json (see gen.py)."""
S = 'src/triumvirate/'
SS = S + 'src/'
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, observe, tech,
      note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over,
                      quant=quant, why=why, files=files, mech=mech,
                      observe=observe, tech=tech, note=note))


P('P01',
  'Mesh assignment deposits exactly the documented kernel everywhere',
  'For every particle position in the periodic box (cell boundaries and box '
  'edges included), every assignment scheme and every grid, painting a '
  'particle deposits the B-spline kernel weights of that scheme divided by '
  'the cell volume onto the periodically wrapped neighbouring cells and '
  'nothing anywhere else, so the summed mesh times the cell volume equals the '
  'particle weight. With interlacing the shadow mesh is the same kernel for '
  'the position shifted by half a cell. Several particles superpose linearly '
  'and complex weights are carried through.',
  ['inputs', 'configurations'],
  'all particle positions in the box, all schemes (ngp, cic, tsc, pcs), '
  'interlacing on/off, all grid shapes and box shapes, all catalogues',
  'Tests paint one random catalogue on one cubic grid and look at aggregate '
  'statistics; edge cells, odd or unequal grids, the shadow mesh and '
  'positions exactly on cell or box edges are never reached.',
  [SS+'field.cpp'],
  [('assignment by scheme', SS+'field.cpp assign_weighted_field_to_mesh_*'),
   ('interlacing', SS+'field.cpp shift_grid_indices / field_s')],
  ['mesh values after assigning a catalogue', 'interlaced Fourier transform'],
  'explicit-state enumeration of particle placements on the real mesh, '
  'compared with a kernel model',
  'exhaustive over a sub-cell lattice of positions (edges and their floating-'
  'point neighbours included) x schemes x grids, and all multisets of up to '
  'three particles on a coarse lattice')

P('P03',
  'Catalogue box placement keeps the points and reports true extents',
  'After any sequence of placements of one or two catalogues in a box '
  '(centring, padding by a box or grid fraction, periodic wrapping, '
  'offsetting) every other column is untouched, relative positions are '
  'preserved (modulo the box for wrapping), wrapped coordinates lie in '
  '[0, L), a reference catalogue and its partner are moved by the same '
  'displacement, and the midpoint or the lower padding of the reference '
  'catalogue is as requested. Counts, total weights and coordinate extents '
  'reported always equal those of the current columns. The Python catalogue '
  'and the C++ catalogue agree.',
  ['histories', 'inputs'],
  'all sequences of catalogue operations on up to two catalogues, all '
  'coordinates including box edges, tiny negatives and many box lengths away',
  'Tests apply one operation to one fixture catalogue; histories of '
  'operations, stale derived totals, and edge coordinates are not sampled.',
  [SS+'particles.cpp', S+'catalogue.py'],
  [('C++ placement', SS+'particles.cpp centre_in_box, pad_in_box, '
    'pad_grids, offset_coords_for_periodicity'),
   ('Python placement', S+'catalogue.py centre, pad, periodise, offset_coords')
   ],
  ['catalogue columns', 'catalogue bounds, total counts and weights'],
  'explicit-state exploration of operation histories, replayed on the real '
  'C++ and Python objects against an array model',
  'all operation sequences up to the stated depth over fixed awkward '
  'data sets; every state compared')

P('P04',
  'Mesh-field operations follow their definitions in every order',
  'For every sequence of operations on a mesh field (assigning weights, '
  'computing unweighted or mean-subtracted fields, harmonic-weighted fields '
  'from data and random catalogues and their quadratic counterparts, forward '
  'and inverse transform, window compensation, wide-angle weighting, '
  'band-limited and spherical-Bessel transforms) the mesh equals the direct '
  'evaluation of the definition of the last operations, whatever was done '
  'with the object before. This holds with and without interlacing, for grids '
  'of every parity and anisotropic boxes. Inverse transform after forward '
  'transform gives the field back.',
  ['histories', 'configurations'],
  'all operation sequences up to a depth, all schemes, interlacing, grid '
  'parities, box shapes, harmonic degrees and orders',
  'No test drives the mesh field itself; only end-to-end numbers of a few '
  'default configurations are compared with stored results.',
  [SS+'field.cpp'],
  [('field operations', SS+'field.cpp MeshField')],
  ['mesh values after each operation'],
  'explicit-state exploration of mesh-operation histories, replayed on the '
  'real mesh object against a direct-evaluation model',
  'all sequences to the stated depth over a 14-letter alphabet')

P('P05',
  'A binning is always consistent with its last accepted setting',
  'Whatever sequence of range, mesh-based and custom-edge settings is applied '
  'to a binning, accepted or rejected, its edges, centres, widths, range, '
  'number of bins and scheme always describe one and the same binning: that '
  'of the last accepted setting, edges strictly increasing, centres the '
  'midpoints and widths the differences, with linear, logarithmic and padded '
  'schemes spaced as documented. Requests that cannot be satisfied are '
  'rejected with an error and change nothing. The Python and the C++ binnings '
  'agree.',
  ['histories', 'inputs'],
  'all sequences of settings up to a depth; all combinations of space, '
  'scheme, range and number, degenerate ones included',
  'Tests set each scheme once with one valid range; rejected requests and '
  'histories of settings on one object are not covered.',
  [SS+'dataobjs.cpp', S+'dataobjs.pyx'],
  [('C++ binning', SS+'dataobjs.cpp Binning::set_bins'),
   ('Python binning', S+'dataobjs.pyx Binning')],
  ['bin edges, centres, widths, range, number, scheme'],
  'explicit-state exploration of setting histories, replayed on the real C++ '
  'and Python binnings against a model',
  'all histories to depth 3 (quick) / 4 (thorough) plus the full product on '
  'fresh objects')

P('P06',
  'Every grid vector is counted in exactly the bin that contains it',
  'For every box, grid and binning, each wavevector or separation vector of '
  'the grid whose magnitude lies in the lower-inclusive, upper-exclusive '
  'range of a bin contributes to that bin exactly once, and no other vector '
  'contributes; negative-frequency modes are included on grids of any parity. '
  'Reported mode and pair counts and effective coordinates are the count and '
  'mean of those vectors, and the list of binned vectors contains exactly '
  'these vectors with their bin bounds.',
  ['configurations', 'inputs'],
  'all grid parities, box shapes, spaces, and binnings inside, across and '
  'beyond the Nyquist range',
  'Tests compare with stored numbers for cubic even grids and one linear '
  'binning.',
  [SS+'field.cpp', S+'fieldmesh.py'],
  [('binned vectors', SS+'field.cpp FieldStats::record_binned_vectors'),
   ('two-point binning', SS+'field.cpp compute_ylm_wgtd_2pt_stats_*'),
   ('band limits', SS+'field.cpp inv_fourier_transform_ylm_wgtd_field_'
    'band_limited')],
  ['binned-vector records', 'mode and pair counts', 'effective coordinates'],
  'exhaustive enumeration of grid/binning configurations on the real code, '
  'compared with brute-force enumeration of all grid vectors',
  'all listed grids x binnings, every vector of each grid enumerated')

import props_more  # noqa: E402,F401
