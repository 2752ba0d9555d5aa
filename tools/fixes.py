#!/usr/bin/env python3
"""Record the fix: commits of /repo in known_findings.txt."""
import subprocess
import sys
from pathlib import Path

F = Path(__file__).resolve().parent.parent/'known_findings.txt'
# property of each fix, by its subject
MAP = {k.strip(): p for p, ks in {
    'P17': '''compute extrapolated post-transform points from extrapolated points
resize the output of the spherical Bessel transform
accept two sample points in Hankel transforms as documented
leave the input samples of spherical Bessel transforms intact
check the sample size passed to Hankel transforms
return the pivots of double spherical Bessel transforms
return the sample points of both dimensions from double transforms
raise invalid Hankel transform parameters as Python exceptions
keep resampling points within the original range
resample in two dimensions at sample points of different sizes''',
    'P18': '''accept sorted arrays in sortedness checks
keep complex values when reshaping upper triangular matrices
accept sequences when reshaping upper triangular matrices''',
    'P19': '''load three-point window files in the order of the multipoles
order multipoles by all of their degrees
keep the number of points when resampling three-point windows by default
store separation points by multipole in loaded three-point windows
restore lists from three-point window files
subselect three-point windows for each multipole
concatenate window convolution matrices with recent NumPy''',
    'P20': '''weight the integral constraint by the multipole normalisation
gather window convolution vectors as complex from idle processes
generate serial window convolution matrices
leave the transform keyword arguments of window convolution intact
keep the number of wavenumbers of each multipole when resampling
accept any multipole keys in window-convolved multipoles
require all input multipoles, and no more, in window convolution
keep the integral constraint out of the input separation points
use the chosen spline order for the integral constraint
use the sample points of both dimensions in bispectrum convolution''',
    'P21': '''leave the catalogues passed to measurements in place
leave parameter sets passed to measurements unaltered''',
    'P24': '''log messages at any level given by number
keep the arguments of messages logged at an enumerated level
set each progress bar node once and stop at the last one''',
    'P13': '''fetch validated parameter options into Python parameter sets
require the bin index whatever the letter case of the form
accept fractional progress bar intervals
override the Nyquist cutoff before the box size it is used with''',
    'P14': '''read each parameter from its own line and in full
print used parameters in full
complete the FFTW wisdom directory overridden by the environment
move the default binned vectors path with the overridden output tag''',
    'P15': '''skip blank and indented comment lines of catalogue files
reject catalogue rows without the columns in use
leave the caller's catalogue table options unchanged
map catalogue columns whose names are exchanged''',
    'P12': '''raise C++ errors of measurements in Python
reject lines of sight that do not match the particles
release the field statistics used to record binned vectors
reject negative multipole degrees
raise an error when mesh memory cannot be allocated
release data vectors when a three-point measurement fails''',
    'P16': '''derive the survey box of the program from the random catalogue
reject the mixed-mesh normalisation of unpaired catalogues
stop when a measurement file cannot be opened
keep full output tags in measurement file names
save two-point windows when the output directory is unset
measure with the standard loggers of the logging module
measure and save wide-angle windows under their own name
set up padded bins of the program from the derived box
accept grid padding when the mesh grid is to be derived''',
    'P22': '''import and export FFTW wisdom for each mesh and directory''',
    'P23': '''emit repeated warnings once
ignore the process number when task numbers are given''',
}.items() for k in ks.split('\n')}
text = F.read_text()
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s',
                      '--reverse', '--abbrev=7'], capture_output=True,
                     text=True).stdout
for line in log.splitlines():
    h, s = line.split(' ', 1)
    if not s.startswith('fix: ') or h in text:
        continue
    s = s[5:]
    if s not in MAP:
        print('unmapped:', h, s)
        continue
    text += f'fixed: property={MAP[s]} {h} {s}\n'
F.write_text(text)
