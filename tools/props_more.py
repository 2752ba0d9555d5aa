from props import P, PROPS, S, SS  # noqa: F401

MEAS = ('Tests compare a handful of default configurations on one fixture '
        'catalogue with numbers stored from earlier runs of the same code; '
        'no test knows the definition, and odd grids, anisotropic boxes, '
        'other schemes, degrees, empty bins and extreme catalogues are not '
        'reached.')

P('P07',
  'Periodic-box two-point statistics equal their definition',
  'For every periodic-box catalogue, mesh, assignment scheme, binning and '
  'multipole degree, the power spectrum and two-point correlation function '
  'multipoles in the global plane-parallel approximation (raw values, shot '
  'noise, mode or pair counts, effective coordinates) equal the direct '
  'evaluation of their definitions from the particle positions, with window '
  'and aliasing corrections, times the chosen normalisation. Empty bins carry '
  'the bin centre, zero count and zero values. The Python interface gives the '
  'same whichever way the parameters are supplied, and leaves nothing of '
  'earlier calls behind.',
  ['inputs', 'configurations'],
  'all catalogues (single particles, coincident particles, particles on cell '
  'and box edges and outside the box), grids of any parity, boxes, schemes, '
  'interlacing, degrees, binnings, norms and parameter routes',
  MEAS, [SS+'twopt.cpp', SS+'field.cpp', S+'twopt.py'],
  [('C++ measurement', SS+'twopt.cpp compute_powspec_in_gpp_box, '
    'compute_corrfunc_in_gpp_box'),
   ('Python interface', S+'twopt.py compute_*_in_gpp_box'),
   ('binning and corrections', SS+'field.cpp FieldStats')],
  ['measurement results in C++ and in Python'],
  'exhaustive enumeration of configurations and lattice catalogues on the '
  'real code, compared with a direct-sum model',
  'all listed grids x schemes x interlacing x binnings x degrees, and all '
  'one- and two-particle catalogues on a lattice; exact model comparison')

P('P08',
  'Survey and window two-point statistics equal their definition',
  'For every pair of data and random catalogues with their lines of sight, '
  'mesh, scheme, binning and degree, the survey power spectrum and '
  'correlation function multipoles and the random-catalogue window function '
  'equal the direct pair-wise evaluation of their definitions (each '
  'particle weighted by the Legendre polynomial of the angle to its own line '
  'of sight), including shot noise, counts, effective coordinates and the '
  'chosen normalisation. The Python interface gives the same for every way '
  'of supplying parameters, every box alignment and given or derived lines '
  'of sight.',
  ['inputs', 'configurations'],
  'all catalogue pairs, weights, lines of sight (antipodal, axis-aligned and '
  'unnormalised ones included), grids of any parity, boxes, schemes, '
  'interlacing, degrees, binnings, norms, alignments and parameter routes',
  MEAS, [SS+'twopt.cpp', SS+'field.cpp', S+'twopt.py'],
  [('C++ measurement', SS+'twopt.cpp compute_powspec, compute_corrfunc, '
    'compute_corrfunc_window'),
   ('Python interface', S+'twopt.py')],
  ['measurement results in C++ and in Python'],
  'exhaustive enumeration of configurations and lines of sight on the real '
  'code, compared with a direct-sum model',
  'all listed grids x schemes x interlacing x catalogue pairs x binnings x '
  'degrees; all pairs of lattice lines of sight')

P('P09',
  'Periodic-box three-point statistics equal their definition',
  'For every periodic-box catalogue, mesh, scheme, binning, degree triplet '
  'and data-vector form, the bispectrum and three-point correlation function '
  'multipoles in the global plane-parallel approximation (raw values, shot '
  'noise, counts, centres and effective coordinates of both arguments) equal '
  'the direct evaluation of their definitions times the chosen normalisation, '
  'entry by entry in the documented order of that form. The Python interface '
  'gives the same whichever way the parameters are supplied.',
  ['inputs', 'configurations'],
  'all catalogues, grids of any parity, boxes, schemes, degree triplets, '
  'binnings (empty bins included), the diagonal, off-diagonal, row and full '
  'forms with every bin index, norms and parameter routes',
  MEAS, [SS+'threept.cpp', SS+'field.cpp', S+'threept.py'],
  [('C++ measurement', SS+'threept.cpp compute_bispec_in_gpp_box, '
    'compute_3pcf_in_gpp_box'),
   ('shot noise', SS+'field.cpp compute_uncoupled_shotnoise_for_*'),
   ('Python interface', S+'threept.py')],
  ['measurement results in C++ and in Python'],
  'exhaustive enumeration of configurations on the real code, compared with '
  'a direct-evaluation model',
  'all listed grids x schemes x degree triplets x forms x catalogues')

P('P10',
  'Survey and window three-point statistics equal their definition',
  'For every pair of data and random catalogues with lines of sight, mesh, '
  'scheme, binning, degree triplet and data-vector form, the survey '
  'bispectrum and three-point correlation function multipoles and the '
  '(plain and wide-angle) window functions equal the direct evaluation of '
  'their definitions, self-pair and self-triplet shot noise included, times '
  'the chosen normalisation. The Python interface gives the same for every '
  'way of supplying parameters and every box alignment.',
  ['inputs', 'configurations'],
  'all catalogue pairs, lines of sight, grids of any parity, boxes, schemes, '
  'degree triplets (odd ones included), wide-angle orders, binnings, forms '
  'with every bin index, norms, alignments and parameter routes',
  MEAS, [SS+'threept.cpp', SS+'field.cpp', S+'threept.py'],
  [('C++ measurement', SS+'threept.cpp compute_bispec, compute_3pcf, '
    'compute_3pcf_window'),
   ('shot noise', SS+'field.cpp compute_uncoupled_shotnoise_for_*'),
   ('Python interface', S+'threept.py')],
  ['measurement results in C++ and in Python'],
  'exhaustive enumeration of configurations on the real code, compared with '
  'a direct-evaluation model',
  'all listed grids x schemes x degree triplets x forms x catalogue pairs')

P('P02',
  'Results do not depend on the number or interleaving of threads',
  'Every mesh, catalogue, normalisation and measurement result is the same '
  '(up to floating-point reassociation) for any number of threads and any '
  'interleaving of their memory accesses as in single-threaded execution. No '
  'update of a shared value is lost and no thread sees another one\'s '
  'temporary values.',
  ['schedules'],
  'all numbers of threads, all start orders, all placements of a bounded '
  'number of preemptions at conflicting accesses of each parallel region',
  'The test suite runs whatever interleaving happens on one machine, mostly '
  'on few threads; lost updates need a preemption inside a '
  'read-modify-write of the same cell.',
  [SS+'field.cpp', SS+'maths.cpp', SS+'particles.cpp', SS+'twopt.cpp',
   SS+'threept.cpp', S+'include/monitor.hpp'],
  [('parallel regions', SS+'*.cpp omp parallel, atomic, critical and '
    'reduction clauses')],
  ['mesh values, catalogue properties, normalisations, measurement results'],
  'stateless exploration of the real code under a controlled scheduler that '
  'replaces the OpenMP runtime, preemption-bounded',
  'all schedules with at most one preemption per parallel region (two for '
  'small workloads in the thorough tier) for 2-3 threads, 1-8 threads '
  'without preemption')

P('P17',
  'Hankel and spherical Bessel transforms equal their discrete definition',
  'For every order, power-law bias, number of logarithmically spaced points, '
  'pivot (with and without low ringing), extrapolation option, layer and '
  'size, the biased Hankel transform of any real or complex samples equals '
  'the exact transform of their log-periodic expansion at the documented '
  'post-transform points, in C++ and in Python. Spherical Bessel transforms '
  'are that transform with the documented powers and prefactors, a backward '
  'transform inverts a forward one, double transforms are the composition in '
  'both dimensions, and resampling returns the spline of the samples at '
  'points spaced over the original range. A transform object can be reused '
  'any number of times with the same results, inputs are left intact and '
  'invalid set-ups are rejected with an exception.',
  ['inputs', 'configurations', 'histories'],
  'all sample vectors (a basis of them, by linearity), orders, biases, sizes, '
  'ranges, pivots, ringing and extrapolation options, and sequences of '
  'set-ups and transforms',
  'Tests transform two or three analytic functions on one large smooth grid '
  'with a loose tolerance; odd sizes, extrapolation layers, pivots and object '
  'reuse are not reached.',
  [SS+'fftlog.cpp', SS+'arrayops.cpp', S+'_fftlog.pyx', S+'transforms.py',
   S+'_arrayops.py'],
  [('C++ transform', SS+'fftlog.cpp HankelTransform, '
    'SphericalBesselTransform'),
   ('Python transforms', S+'transforms.py, '+S+'_fftlog.pyx')],
  ['post-transform points and samples'],
  'exhaustive enumeration of basis vectors x configurations and of operation '
  'histories on the real code, compared with a direct-sum model',
  'all basis vectors of sizes up to 16 (64 thorough) x listed orders, biases, '
  'ranges, pivots and extrapolations; all histories of up to 3 (4 thorough) '
  'operations')

P('P18',
  'Extrapolated and reshaped arrays follow their documented construction',
  'For every array and number of extra elements, extrapolation keeps the '
  'array in the middle and extends both ends by the given constants, by the '
  'end-point spacing (linear) or by the end-point ratio (log-linear), in one '
  'and in two dimensions and identically in C++ and Python; extrapolation of '
  'oscillating arrays extends both ends by power laws which never diverge. '
  'Wrong shapes, mixed-sign end points, inconsistent padding corners and '
  'unsorted or unevenly spaced arrays are told apart from valid ones, index '
  'sorting returns a sorting permutation, and flattened three-point data '
  'become the symmetric (or full) matrix with element (i, j) in its place, '
  'complex values included.',
  ['inputs'],
  'all arrays over small alphabets (zeros, signs, ties) up to a length, all '
  'small tables, extension sizes and flattened lengths',
  'Tests check one or two arrays per function; zeros, sign changes, short '
  'tails and non-square tables take other branches.',
  [S+'_arrayops.py', SS+'arrayops.cpp', S+'include/arrayops.hpp'],
  [('Python functions', S+'_arrayops.py'),
   ('C++ functions', SS+'arrayops.cpp')],
  ['returned arrays, raised exceptions and warnings'],
  'exhaustive enumeration of small arrays on the real code, compared with '
  'executable models',
  'all arrays over 2-8 letters up to length 4-5 (8-12 for oscillating ones); '
  'number of elements per side 0-3')

P('P19',
  'Multipoles, convolution formulae and window containers stay consistent',
  'Multipoles written in any documented form are equal, hash alike and are '
  'totally ordered by the last degree, then the others in turn; multipoles '
  'of different lengths are not comparable. Three-point convolution '
  'coefficients equal the projection of the product of two tri-polar basis '
  'functions onto a third, and the named formulae hold such coefficients. A '
  'formulae object lists exactly the windowed, window and unwindowed '
  'multipoles of its terms, in order, returns each formula by any form of '
  'its multipole, prints it faithfully and hands out copies only. A '
  'three-point window holds, for every multipole, its separation points, '
  'matrix and diagonal consistently through construction, subselection (in '
  'place or not), resampling, loading from measurement files and saving and '
  'loading, and leaves other windows intact.',
  ['inputs', 'histories'],
  'all multipoles up to a degree in all forms, all formulae over a universe '
  'of terms, and all sequences of window operations up to a depth',
  'Tests look at a few coefficients and one named formula; containers are '
  'not tested at all.',
  [S+'winconv.py', S+'_arrayops.py', S+'transforms.py'],
  [('multipoles and formulae', S+'winconv.py Multipole, WinConvTerm, '
    'WinConvFormulae, calc_threept_winconv_coeff, NAMED_FORMULAE'),
   ('windows', S+'winconv.py ThreePointWindow')],
  ['object attributes, comparisons, coefficients, LaTeX strings'],
  'exhaustive enumeration of multipoles and formulae, and explicit-state '
  'exploration of operation histories on the real objects against a model',
  'degrees up to 3 (5 thorough), coefficients up to degree 2 (4 thorough), '
  'formulae of up to 3 terms, window histories of depth 3 (4 thorough)')

P('P20',
  'Window convolution applies the formulae exactly, alone or across '
  'processes',
  'Convolving two- and three-point correlation functions with a window '
  'evaluates, at every requested separation, exactly the sum over the terms '
  'of the formulae of coefficient times window multipole times unwindowed '
  'multipole (interpolated in the requested way, zero or constant beyond the '
  'samples as documented), less the integral constraint where asked for, '
  'whose volume integral then vanishes; convolved power spectra and '
  'bispectra are its transform at the requested wavenumbers. Inputs may come '
  'in any documented form and are never changed; missing multipoles and '
  'inconsistent samples are rejected. The convolution matrix applied to a '
  'flattened data vector equals the convolution, and is the same for every '
  'number of processes, every assignment of columns to processes and every '
  'schedule of their communication.',
  ['inputs', 'configurations', 'schedules'],
  'formulae, windows, samplings, interpolation settings and input forms; '
  'process numbers, column shares and message schedules',
  'Tests do not exercise window convolution.',
  [S+'winconv.py', S+'transforms.py', S+'_mpitools.py'],
  [('correlation functions', S+'winconv.py TwoPCFWinConv, ThreePCFWinConv, '
    'calc_threept_ic'),
   ('spectra', S+'winconv.py PowspecWinConv, BispecWinConv'),
   ('matrices over processes', S+'winconv.py convolve matrices, '
    '_mpitools.py')],
  ['convolved multipoles, sample points, matrices and their indices'],
  'exhaustive enumeration of formulae, samplings and forms on the real code '
  'against a model, and exploration of message schedules of the real '
  'distributed code under a controlled communicator',
  'all listed combinations; 1-7 processes; all schedules up to a '
  'preemption bound')

P('P23',
  'Tasks are shared out completely and captured warnings replayed faithfully',
  'Any positive number of tasks divided among any positive number of '
  'processes gives one share per process, the shares add up to the number '
  'of tasks and differ by at most one, and the index segments derived from '
  'them are contiguous, disjoint, in rank order and cover every task '
  'exactly once; anything but positive integers is rejected with the '
  'documented error. Captured warnings are restored in their order, each '
  'distinct one once (or every one when asked), and shown only on the root '
  'process and only when asked.',
  ['inputs', 'histories'],
  'all task and process numbers, explicit shares, warning sequences, '
  'settings and ranks',
  'Tests do not touch this module.',
  [S+'_mpitools.py'],
  [('task shares', S+'_mpitools.py allocate_tasks, distribute_tasks'),
   ('warnings', S+'_mpitools.py restore_warnings')],
  ['returned shares, segments and warnings; warnings shown'],
  'exhaustive enumeration on the real code against a model',
  'up to 200 tasks x 40 processes (800 x 100 thorough); all explicit shares '
  'of length up to 5 (7); all warning sequences of length up to 4 (5) over a '
  'universe of 6')

P('P24',
  'Logs and progress bars report faithfully and never change a measurement',
  'A message logged at any level, by name, by number or by enumerated level, '
  'appears exactly once, with its time stamp, level and full formatted text, '
  'if and only if its level is at or above the threshold in force; colours '
  'appear only in an interactive colour terminal; long messages are cut, '
  'never overrun. The same holds for the Python logger however often it is '
  'set up, and for captured warnings. A progress bar prints one line for '
  'each update that has reached its next node, with the right percentage, '
  'position and name, through any history of settings and updates, and '
  'refuses impossible ones. No statistic, form or degree gives different '
  'numbers, fails or reports progress beyond 100% under any progress and '
  'verbosity setting. The string, path and environment-variable utilities '
  'behind file names follow their documentation for every string.',
  ['inputs', 'configurations', 'histories'],
  'levels, thresholds, terminal settings, progress histories, reporting '
  'settings of every statistic, and strings',
  'Tests look at one log line and no progress bar; measurements are only '
  'run silently.',
  [SS+'monitor.cpp', SS+'threept.cpp', SS+'io.cpp', S+'logger.py'],
  [('loggers', SS+'monitor.cpp Logger; '+S+'logger.py setup_logger'),
   ('progress bars', SS+'monitor.cpp ProgressBar, set_nodes_by_str; '
    + SS+'threept.cpp'),
   ('utilities', SS+'monitor.cpp has_extension, split_string, join_strings, '
    'expand_envar_in_path, show_elapsed_time; '+SS+'io.cpp '
    'if_filepath_is_set, make_write_dir')],
  ['standard output, raised errors, measurement results, returned strings'],
  'exhaustive enumeration of levels, histories, settings and strings on the '
  'real code against a model of each component',
  'all levels x thresholds x terminals; all progress histories of up to 2-5 '
  'operations; strings over small alphabets up to length 4-6')

P('P11',
  'Couplings, harmonics, Bessel and gamma functions equal their definitions',
  'For all degrees and orders, Wigner 3-j symbols and the two- and '
  'three-point coupling coefficients equal their definitions exactly '
  '(vanishing where selection rules say so), and degree combinations are '
  'accepted as parameters exactly if their coupling does not vanish. Reduced '
  'spherical harmonics have their defined value in every direction, on, near '
  'and off the poles and axes, independent of the length of the vector, and '
  'vanish at the origin (unity for degree zero). The spherical Bessel '
  'calculator agrees with the function at every non-negative argument, on '
  'both sides of the switch from interpolation to evaluation, for any '
  'degree, for an object and its copies in any order of use. The gamma '
  'function, its logarithm and the log-ratio of gamma functions agree with '
  'their definitions over the complex plane, on both sides of every switch '
  'of method.',
  ['inputs'],
  'degrees, orders, vectors and complex arguments',
  'Tests evaluate a few points with loose tolerances.',
  [SS+'maths.cpp', SS+'twopt.cpp', SS+'threept.cpp'],
  [('special functions', SS+'maths.cpp wigner_3j, '
    'SphericalHarmonicCalculator, SphericalBesselCalculator, eval_gamma_*'),
   ('couplings', SS+'twopt.cpp calc_coupling_coeff_2pt, ' + SS +
    'threept.cpp calc_coupling_coeff_3pt, validate_multipole_coupling')],
  ['values of the functions the estimators and transforms are built of'],
  'exhaustive enumeration of degrees, orders and argument lattices on the '
  'real code, compared with exact or independent models',
  'all degrees up to 8 (14) and orders; directions on a signed lattice with '
  'near-axis points; every knot and quarter interval of the interpolation; '
  'complex lattices around every switch')

P('P12',
  'Memory is used within bounds and given back; errors never end Python',
  'For every mesh, assignment scheme, statistic, form, binning and '
  'catalogue, including particles on, beyond or infinitely far from the '
  'box, bins beyond the mesh, single cells and single particles, no memory '
  'is read or written out of bounds, unset or after release, and no '
  'undefined operation is carried out. Whatever arguments the Python '
  'functions and classes are given (lines of sight of other shapes or '
  'types, impossible multipoles, grids, boxes, bins or indices, meshes too '
  'large for memory, unwritable directories) and whatever parameter and '
  'catalogue files contain, the outcome is a result or a Python exception: '
  'the interpreter never ends, lines of sight that do not match the '
  'particles and values that are no valid settings are refused, other '
  'numeric types are accepted, later measurements are unaffected, and '
  'repeated use, successful or refused, does not take more and more memory.',
  ['inputs', 'configurations', 'histories'],
  'meshes, particle positions, bins, arguments of Python functions, lines '
  'of files',
  'Tests measure valid inputs and cannot see reads out of bounds; an abort '
  'would end the test run itself.',
  [S+'_twopt.pyx', S+'_threept.pyx', S+'_field.pyx', S+'_fftlog.pyx',
   S+'catalogue.py', SS+'field.cpp', SS+'threept.cpp', SS+'twopt.cpp',
   SS+'particles.cpp', SS+'parameters.cpp', SS+'dataobjs.cpp',
   SS+'fftlog.cpp'],
  [('exceptions and memory in Python', S+'_twopt.pyx and _threept.pyx '
    'compute functions; _particles.pyx, _field.pyx, _fftlog.pyx'),
   ('line-of-sight arrays', S+'catalogue.py _parse_los'),
   ('meshes and fields', SS+'field.cpp MeshField, FieldStats'),
   ('data vectors', SS+'threept.cpp compute functions')],
  ['reports of the sanitisers', 'end of the process', 'exceptions',
   'bytes in use after repeated calls', 'a later measurement'],
  'exhaustive enumeration of meshes x schemes x particle placements x bins '
  'and of API functions x awkward arguments on the real code with address '
  'and undefined-behaviour sanitisers in every build product',
  'every statistic x 5 mesh shapes x forms x 3 placements x 4 binnings '
  '(thorough: x every scheme and degree); all mesh operations; all pairs '
  '(triples) of 20 lines of catalogue and 31 lines of parameter files; '
  '11 Python functions x about 110 changes of arguments, repeated; 2000 '
  '(7500) uses of objects of the package')

P('P13',
  'Parameter sets always hold exactly what was last accepted',
  'Whatever the source of a parameter set (file, dictionary, template, '
  'keyword overrides) and whatever sequence of updates is applied to it, '
  'item by item, by attribute or several at once, its entries are those of '
  'the source with the accepted updates in order, with the documented '
  'defaults, derivations (grid from cutoff, shape from form, interlacing '
  'switched off for three-point statistics, completed directories and '
  'paths) and conversions; the parameters the measurement engine sees hold '
  'the same values. Invalid settings are rejected with an error and change '
  'nothing. A parameter set rebuilt from its own entries, or saved and '
  'loaded, is the same one. Overrides by sampling or measurement parameters '
  'change only the documented entries.',
  ['inputs', 'histories', 'configurations'],
  'sources, update sequences, option values',
  'Tests set a few parameters once and read back some of them.',
  [S+'parameters.pyx', SS+'parameters.cpp', S+'resources'],
  [('Python parameter set', S+'parameters.pyx ParameterSet, '
    '_modify_sampling_parameters, _modify_measurement_parameters, '
    'fetch_paramset_template'),
   ('validation', SS+'parameters.cpp ParameterSet::validate')],
  ['entries of the Python set, fields of the C++ set behind it, errors'],
  'exhaustive enumeration of update histories on the real code against a '
  'model of the documented rules',
  'five base sets x every update of a list of about 230 (single and '
  'multiple), sequences of up to 2 (thorough: 3)')

P('P14',
  'Parameter files mean what they say, line by line, and print back the same',
  'For every parameter file of the C++ program, each parameter takes '
  'exactly the value of its own line, in full, wherever the line stands; '
  'comments, blank lines, white space, line ends, unknown names, names '
  'within other names and within values do not matter, and the last of '
  'repeated lines counts. Unset parameters take their documented defaults '
  'and derived ones (paths with environment variables and split files, box '
  'size and grid, number of meshes, data-vector shape, switched-off '
  'options) follow. Values outside the documented options and ranges are '
  'rejected. Overriding environment variables act as if written in the '
  'file. The printed parameters, read back, give the same set, and a copy '
  'or repeated validation changes nothing.',
  ['inputs', 'configurations'],
  'parameter files, values, line orders and forms, environment variables',
  'Tests read one parameter file of the examples.',
  [SS+'parameters.cpp', 'src/triumvirate/include/parameters.hpp',
   SS+'monitor.cpp'],
  [('reading', SS+'parameters.cpp ParameterSet::read_from_file'),
   ('rules', SS+'parameters.cpp ParameterSet::validate, '
    'set_boxsize_from_expand, set_ngrid_from_cutoff, '
    'override_paramset_by_envvars'),
   ('printing', SS+'parameters.cpp ParameterSet::print_to_file')],
  ['every field of the C++ parameter set, errors, the printed file'],
  'exhaustive enumeration of parameter files on the real code against a '
  'model of the documented rules',
  'five base files x every entry and value of a list of about 190, pairs '
  'of them (thorough), every transposition and rotation of lines, names of '
  'every parameter in other lines, lengths up to 70000, all combinations '
  'of overriding variables')

P('P15',
  'Catalogue files hold the same particles for the program and for Python',
  'Whatever the order of the columns and the other columns among them, the '
  'forms of the numbers, white space, comments and blank lines, line ends '
  'and the split of a catalogue over several files, reading it gives '
  'exactly the particles written, in order, with missing densities set to '
  'the mean density of the box (or zero) and missing weights to one, and '
  'the right totals and extents, the same in the C++ program and in '
  'Python, where columns may also be mapped by name and given as arrays of '
  'any numeric type. Files and rows that lack a mandatory or listed '
  'column, missing files and empty catalogues are rejected with an error; '
  'a loaded catalogue is not changed by a refused second load. Arguments '
  'of the caller are left unchanged.',
  ['inputs', 'configurations', 'histories'],
  'catalogue files, column lists, file lists, array types',
  'Tests read one catalogue file with one column order.',
  [SS+'particles.cpp', S+'catalogue.py', S+'_particles.pyx'],
  [('C++ reader', SS+'particles.cpp '
    'ParticleCatalogue::load_catalogue_file, load_particle_data, '
    'calc_total_weights, calc_pos_extents'),
   ('Python reader', S+'catalogue.py ParticleCatalogue.read_from_file, '
    '__init__, _convert_to_cpp_catalogue')],
  ['particle tables, totals and extents in C++ and in Python, errors'],
  'exhaustive enumeration of catalogue files on the real readers against '
  'a model',
  'all 1158 orders of all sets of columns, with a further column in every '
  'place; all sequences of up to 3 (4) of 17 kinds of lines; all '
  'distributions over up to 3 (4) files; 25 number forms in every column; '
  'sizes up to 257 (5000) on 1 to 8 threads')

P('P16',
  'Measurement files hold what was measured, under names of their settings',
  'A run of the program makes precisely the parameter record, the '
  'measurement file and, when asked for, the binned vectors of its '
  'settings, in the measurement directory, and no other file is changed. '
  'The name tells statistic, multipoles, wide-angle orders, form, bin index '
  'and the full output tag, so that runs with different settings never '
  'overwrite each other. Header and table are those of the measurement '
  'defined by the parameters: catalogue sources, sizes, weights and extents '
  'as aligned, box and mesh (given or derived), normalisation factor and '
  'alternatives, column names, and values to ten digits. Invalid '
  'parameters, unreadable inputs, incompatible statistics and unwritable '
  'outputs end the program with a nonzero exit status and without a '
  'measurement file. The Python functions return those results and save '
  'them, unchanged, to the same names as text or .npz, and save nothing '
  'unless asked to, with any kind of logger.',
  ['inputs', 'configurations', 'histories', 'fault_sequences'],
  'statistics, catalogue types, forms, options, directories, histories of '
  'runs',
  'Tests compare the returned values of a few settings; no test runs the '
  'program or reads its files.',
  [S+'main/triumvirate.cpp', SS+'io.cpp', S+'twopt.py', S+'threept.py'],
  [('program', S+'main/triumvirate.cpp main'),
   ('headers and tables', SS+'io.cpp print_measurement_header_to_file, '
    'print_measurement_datatab_to_file'),
   ('Python', S+'twopt.py and threept.py _assemble_measurement_header, '
    '_print_measurement_to_file and the compute functions')],
  ['files made by the program and the Python functions, exit status'],
  'exhaustive enumeration of runs of the real program, in scratch '
  'directories as an unprivileged user, and of the Python functions, '
  'against independent expectations of names, headers and tables',
  'all 24 statistic x catalogue type x form, with every single option '
  'changed, every normalisation x alignment x mesh choice and a covering '
  'set of pairs of options (thorough: all pairs); 28 faults x 6 '
  'statistics; histories of up to 42 runs in one directory; every Python '
  'function x form x format x tag and x normalisation x logger x directory '
  'x route')

P('P22',
  'FFTW wisdom changes the speed of measurements and nothing else',
  'With FFTW wisdom enabled, every measurement gives the results it gives '
  'without, whatever measurements came before in the process or in others, '
  'with either planning scheme, and whether the wisdom files are missing, '
  'empty, cut short, filled up with zeros, unreadable for this mesh, or in '
  'a directory that cannot be written. A wisdom file is made for each '
  'direction, mesh and wisdom directory in use, can be imported by FFTW, '
  'and holds the plan that was used; existing files are imported when '
  'their mesh or directory is first used and are left as they are; other '
  'files are not touched. Measurements without wisdom neither read nor '
  'write any file. The program creates the wisdom directory, and stops '
  'with an error when it cannot.',
  ['histories', 'fault_sequences', 'crash_points', 'configurations'],
  'histories of measurements in one and two processes, losses and '
  'truncations of the files',
  'Tests never enable wisdom for more than one mesh or over damaged files.',
  [SS+'field.cpp', SS+'parameters.cpp', S+'parameters.pyx',
   SS+'monitor.cpp'],
  [('wisdom', SS+'field.cpp MeshField::MeshField'),
   ('file names', SS+'parameters.cpp ParameterSet::validate and '
    'read_from_file'),
   ('directory', S+'main/triumvirate.cpp main')],
  ['measurement results, wisdom files, plans available from wisdom alone'],
  'exhaustive enumeration of histories of real measurements in processes '
  'of their own, stepped along with a model of the wisdom directories',
  'all pairs (thorough: triples) of 27 measurements in one process, all '
  'pairs of processes with any of 20 losses, truncations or locks in '
  'between, every truncation of the files of a run, all pairs of runs of '
  'the program with 4 kinds of directories; forged contents are left out '
  '(FFTW itself stops on some)')

P('P21',
  'A measurement depends on what it is given, not on what came before it',
  'Every measurement function of the Python package returns what it returns '
  'as the only call of a process, whichever measurements were made (or '
  'refused) before it in the same process, with the same or other '
  'catalogues, lines of sight, binnings, parameter sets and sampling '
  'options. The objects passed to a measurement are left as they were: '
  'catalogue columns, bounds and totals, lines of sight, binnings, '
  'parameter sets and sampling options, whether the call succeeds or '
  'raises an exception.',
  ['histories', 'inputs'],
  'all histories of calls up to a depth on shared objects',
  'Tests make each measurement once, on objects of its own.',
  [S+'twopt.py', S+'threept.py', S+'catalogue.py', S+'parameters.pyx',
   S+'_particles.pyx', SS+'monitor.cpp', SS+'field.cpp'],
  [('amalgamation', S+'twopt.py and threept.py _amalgamate_parameters'),
   ('alignment', S+'twopt.py and threept.py _compute_*_stats_*'),
   ('columns', S+'catalogue.py ParticleCatalogue._convert_to_cpp_catalogue')],
  ['measurement results and every object held by the caller'],
  'exhaustive enumeration of call histories of the real functions, with '
  'processes forked at every branch, against single calls',
  'every ordered pair of 54 kinds of calls (10 functions x parameters in '
  'full, derived box, overridden, keywords only, refused), every triple of '
  '12 (thorough: 34) of them, thorough also every quadruple of 7, and one '
  'session with every ordered pair; small catalogues and meshes')
