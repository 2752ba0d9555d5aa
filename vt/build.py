"""Content-addressed scratch builds of the code under test.

Everything is compiled from the *current working tree* of /repo into
/verif/.build (git-ignored).  Artefacts are keyed by the content of all the
sources that can influence them, so a stale artefact can never be used, and a
run in a fresh copy of the sandbox simply builds everything anew (~20 s).
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

REPO = Path(os.environ.get('VT_REPO', '/repo'))
VERIF = Path(__file__).resolve().parent.parent
BUILD = Path(os.environ.get('VT_BUILD', VERIF / '.build'))
SRC = REPO / 'src' / 'triumvirate'
CC = VERIF / 'cc'

GXX = '/usr/bin/g++'
BASE = ['-std=c++17', '-fopenmp', '-fPIC', '-DTRV_USE_OMP',
        '-DTRV_USE_FFTWOMP', '-w']
LIBS = ['-lfftw3_omp', '-lfftw3', '-lgsl', '-lgslcblas', '-lm']
VARIANTS = {
    # the library as used from Python
    'ext': ['-O2', '-DTRV_EXTCALL', '-DNDEBUG'],
    # the library as used by the C++ program
    'exe': ['-O2', '-D__TRV_VERSION__="0.5.0"', '-D__TZOFFSET__="+0000"'],
    # address + undefined-behaviour sanitised
    'asan': ['-O1', '-g', '-DTRV_EXTCALL', '-fsanitize=address',
             '-fsanitize=bounds,object-size,vptr,null',
             '-fno-sanitize-recover=all', '-fno-omit-frame-pointer',
             '-D_GLIBCXX_ASSERTIONS'],
    # memory-access instrumentation, linked with the model checker's runtime
    'mc': ['-O1', '-g', '-DTRV_EXTCALL', '-fsanitize=thread'],
}


class BuildError(Exception):
    pass


def _run(cmd, **kw):
    res = subprocess.run(cmd, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True, **kw)
    if res.returncode:
        raise BuildError(' '.join(map(str, cmd)) + '\n' + res.stdout[-6000:])
    return res.stdout


def _h(*parts):
    m = hashlib.sha256()
    for p in parts:
        if isinstance(p, Path):
            p = p.read_bytes()
        elif isinstance(p, str):
            p = p.encode()
        m.update(len(p).to_bytes(8, 'big'))
        m.update(p)
    return m.hexdigest()[:24]


def _lock():
    BUILD.mkdir(parents=True, exist_ok=True)
    f = open(BUILD / 'lock', 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def _headers_hash(src):
    parts = []
    for p in sorted((src / 'include').rglob('*')):
        if p.is_file():
            parts += [p.name, p]
    return _h(*parts)


def lib_sources():
    return sorted((SRC / 'src').glob('*.cpp'))


def _compile_obj(src, flags, hh, incs):
    """Compile one translation unit into the object cache."""
    key = _h(src, src.name, ' '.join(flags), hh)
    out = BUILD / 'obj' / f'{src.stem}-{key}.o'
    if not out.exists():
        out.parent.mkdir(parents=True, exist_ok=True)
        tmp = out.with_suffix(f'.{os.getpid()}.tmp')
        _run([GXX, *BASE, *flags, *[f'-I{i}' for i in incs], '-c', str(src),
              '-o', str(tmp)])
        os.replace(tmp, out)
    return out


def objects(variant, pool):
    hh = _headers_hash(SRC)
    flags = VARIANTS[variant]
    return [pool.submit(_compile_obj, s, flags, hh, [SRC / 'include'])
            for s in lib_sources()]


def harness(source, variant, extra_flags=(), extra_libs=(), shared=False,
            own_sources=()):
    """Build cc/<source> linked with the library; returns the binary path.

    Files in `own_sources` are compiled without the variant's sanitizer
    flags (the model checker's own runtime must not be instrumented).
    """
    lk = _lock()
    try:
        with ThreadPoolExecutor(8) as pool:
            futs = objects(variant, pool)
            hh = _headers_hash(SRC) + _h(*sorted(CC.glob('*.hpp')))
            incs = [SRC / 'include', CC]
            fm = pool.submit(_compile_obj, CC / source,
                             VARIANTS[variant] + list(extra_flags), hh, incs)
            fo = [pool.submit(_compile_obj, CC / o, ['-O2', '-g'], hh, incs)
                  for o in own_sources]
            objs = [f.result() for f in [fm] + fo + futs]
        key = _h(' '.join(str(o) for o in objs), variant, str(shared),
                 ' '.join(extra_libs))
        stem = Path(source).stem
        out = BUILD / 'bin' / (f'{stem}-{key}' + ('.so' if shared else ''))
        if not out.exists():
            out.parent.mkdir(parents=True, exist_ok=True)
            tmp = Path(f'{out}.{os.getpid()}.tmp')
            lf = [f for f in VARIANTS[variant] if f.startswith('-fsan')]
            if variant == 'mc':
                lf = []
            _run([GXX, '-fopenmp', *(['-shared'] if shared else []), *lf,
                  *map(str, objs), '-o', str(tmp), *extra_libs, *LIBS])
            os.replace(tmp, out)
        return out
    finally:
        lk.close()


def _build_ext_one(pyx, hh, numpy_inc, variant):
    san = [] if variant == 'ext' else VARIANTS[variant]
    key = _h(pyx, pyx.name, hh, *san)
    cache = BUILD / 'ext' / f'{pyx.stem}-{key}'
    obj = cache / (pyx.stem + '.o')
    if not obj.exists():
        cache.mkdir(parents=True, exist_ok=True)
        work = cache / f'w{os.getpid()}'
        shutil.rmtree(work, ignore_errors=True)
        (work / 'triumvirate').mkdir(parents=True)
        for f in [pyx, *SRC.glob('*.pyx'), *SRC.glob('*.pxd')]:
            shutil.copy(f, work / 'triumvirate')
        shutil.copy(SRC / '__init__.py', work / 'triumvirate')
        _run([sys.executable, '-m', 'cython', '-3', '--cplus',
              '-X', 'c_string_encoding=utf-8',
              f'triumvirate/{pyx.name}', '-o', f'{pyx.stem}.cpp'], cwd=work)
        pyinc = subprocess.run(
            [sys.executable, '-c',
             'import sysconfig;print(sysconfig.get_paths()["include"])'],
            capture_output=True, text=True).stdout.strip()
        _run([GXX, *BASE, *(san or ['-O1', '-DTRV_EXTCALL', '-DNDEBUG']),
              '-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION',
              f"-I{SRC}", f"-I{SRC / 'include'}", f'-I{numpy_inc}', f'-I{pyinc}',
              '-c', f'{work}/{pyx.stem}.cpp', '-o', f'{work}/o.o'])
        os.replace(f'{work}/o.o', obj)
        shutil.rmtree(work, ignore_errors=True)
    return pyx, obj


def python_package(variant='ext'):
    """Build the Python package; returns a directory to put on sys.path."""
    lk = _lock()
    try:
        import numpy
        hh = _h(_headers_hash(SRC),
                *[x for p in sorted(SRC.glob('*.pxd')) for x in (p.name, p)])
        with ThreadPoolExecutor(8) as pool:
            pyxs = sorted([*SRC.glob('*.pyx'), *CC.glob('*.pyx')],
                          key=lambda p: -p.stat().st_size)
            fx = [pool.submit(_build_ext_one, p, hh, numpy.get_include(),
                              variant) for p in pyxs]
            fl = objects(variant, pool)
            objs = [f.result() for f in fl]
            exts = [f.result() for f in fx]
        parts = []
        for p in sorted(SRC.rglob('*')):
            rel = p.relative_to(SRC)
            if (not p.is_file() or p.suffix in ('.so', '.cpp', '.pyc')
                    or rel.parts[0] in ('src', 'include', 'main',
                                        '__pycache__')):
                continue
            parts.append((rel, p))
        key = _h(*[str(o) for o in objs], *[str(o) for _, o in exts],
                 *[x for rel, p in parts for x in (str(rel), p)])
        root = BUILD / 'pkg' / key
        if not (root / 'OK').exists():
            shutil.rmtree(root, ignore_errors=True)
            pk = root / 'triumvirate'
            for rel, p in parts:
                (pk / rel).parent.mkdir(parents=True, exist_ok=True)
                shutil.copy(p, pk / rel)
            # One shared core library: the extension modules share the
            # process-wide trackers exactly once instead of one copy each
            # being hidden; this mirrors nothing the user can observe, so
            # instead link statically per extension as setup.py does.
            ar = root / 'libtrv.a'
            _run(['ar', 'rcs', str(ar), *map(str, objs)])
            suffix = subprocess.run(
                [sys.executable, '-c',
                 'import sysconfig;print(sysconfig.get_config_var('
                 '"EXT_SUFFIX"))'],
                capture_output=True, text=True).stdout.strip()
            lf = [f for f in VARIANTS[variant] if f.startswith('-fsan')]
            with ThreadPoolExecutor(8) as pool:
                list(pool.map(
                    lambda e: _run([GXX, '-shared', '-fopenmp', *lf,
                                    str(e[1]), str(ar), *LIBS, '-o',
                                    str(pk / (e[0].stem + suffix))]), exts))
            (root / 'OK').write_text('')
        return root
    finally:
        lk.close()


def use_python_package():
    """Have this process and its workers import the package built here."""
    sys.path.insert(0, str(python_package()))


def cpp_program():
    """Build the C++ program (main/triumvirate.cpp)."""
    lk = _lock()
    try:
        hh = _headers_hash(SRC)
        with ThreadPoolExecutor(8) as pool:
            futs = objects('exe', pool)
            fm = pool.submit(_compile_obj, SRC / 'main' / 'triumvirate.cpp',
                             VARIANTS['exe'], hh, [SRC / 'include'])
            objs = [f.result() for f in [fm] + futs]
        key = _h(' '.join(str(o) for o in objs))
        out = BUILD / 'bin' / f'triumvirate-{key}'
        if not out.exists():
            out.parent.mkdir(parents=True, exist_ok=True)
            tmp = Path(f'{out}.{os.getpid()}.tmp')
            _run([GXX, '-fopenmp', *map(str, objs), '-o', str(tmp), *LIBS])
            os.replace(tmp, out)
        return out
    finally:
        lk.close()


def prune(keep=14):
    """Keep the scratch build area bounded."""
    for sub in ('obj', 'bin', 'ext', 'pkg'):
        d = BUILD / sub
        if not d.is_dir():
            continue
        items = sorted(d.iterdir(), key=lambda p: p.stat().st_mtime)
        lim = {'obj': 400, 'bin': 60, 'ext': 120, 'pkg': 30}[sub]
        for p in items[:-lim]:
            shutil.rmtree(p) if p.is_dir() else p.unlink()
