"""P22: FFTW wisdom changes the speed of measurements and nothing else.

A model of the wisdom directories (which file exists with which contents) is
stepped through every history of measurements, in one and in several
processes, with interruptions and damage of the files in between; the real
package and the real program are taken through the same histories.
"""
import ctypes
import itertools
import os
import pickle
import shutil
import tempfile
import time

import numpy as np

from vt import build, core, lib
from . import p16
from . import stats as st

MEASURE, PATIENT, ONLY = 0, 1 << 5, 1 << 21
GRIDS = {'a': (3, 4, 2), 'b': (4, 2, 3)}
BOX = (310., 400., 290.)
STATS = ('pk', 'bk', 'xi')
# calls: statistic, grid, directory ('' none), scheme
CALLS = [(s, g, d, m) for s in STATS for g in GRIDS for d in ('', 'w1', 'w2')
         for m in ('measure', 'patient')
         if (d or m == 'measure') and (s != 'xi' or (g, m) == ('a',
                                                              'measure'))]
ODD = (5, 3, 7)     # wisdom found in files put in place beforehand


def setup():
    import sys
    import warnings
    import logging
    sys.path.insert(0, str(p16_pkg()))
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    import triumvirate.twopt  # noqa: F401
    import triumvirate.threept  # noqa: F401


PKG = None


def p16_pkg():
    return PKG


def data():
    r = st.rows((1., 1., 1.), (0, 1, 2, 4, 6, 11))
    r[:, :3] *= np.array(BOX)
    return r


def measure(call):
    """The measurement of one call, through the package."""
    from triumvirate import parameters, threept, twopt
    from triumvirate.catalogue import ParticleCatalogue
    s, g, d, m = call
    r = data()
    c = ParticleCatalogue(r[:, 0], r[:, 1], r[:, 2], nz=r[:, 3] + 1e-4)
    p = parameters.fetch_paramset_template('dict')
    three = s == 'bk'
    p.update(catalogue_type='sim', statistic_type={
        'pk': 'powspec', 'bk': 'bispec', 'xi': '2pcf'}[s],
        boxsize=dict(zip('xyz', BOX)), ngrid=dict(zip('xyz', GRIDS[g])),
        interlace=not three, assignment='cic', num_bins=3,
        range=[10., 190.] if s == 'xi' else [.005, .04], verbose=60,
        degrees=dict(ell1=0, ell2=0, ELL=0), fftw_scheme=m,
        use_fftw_wisdom=d or False)
    ps = parameters.ParameterSet(param_dict=p)
    f = {'pk': twopt.compute_powspec_in_gpp_box,
         'bk': threept.compute_bispec_in_gpp_box,
         'xi': twopt.compute_corrfunc_in_gpp_box}[s]
    res = f(c, paramset=ps)
    names = ps['fftw_wisdom_file_f'], ps['fftw_wisdom_file_b']
    return {k: np.asarray(v) for k, v in res.items()}, names


def fftw():
    h = ctypes.CDLL('libfftw3.so.3', mode=ctypes.RTLD_GLOBAL)
    # before anything else: wisdom depends on when it happened
    ctypes.CDLL('libfftw3_omp.so.3').fftw_init_threads()
    h.fftw_alloc_complex.restype = ctypes.c_void_p
    h.fftw_alloc_complex.argtypes = [ctypes.c_size_t]
    h.fftw_plan_dft_3d.restype = ctypes.c_void_p
    h.fftw_plan_dft_3d.argtypes = [ctypes.c_int]*3 + [ctypes.c_void_p]*2 + [
        ctypes.c_int, ctypes.c_uint]
    h.fftw_import_wisdom_from_filename.argtypes = [ctypes.c_char_p]
    h.fftw_export_wisdom_to_filename.argtypes = [ctypes.c_char_p]
    return h


def plan(ng, sign, flags):
    """Whether a plan can be had (with ONLY: from wisdom alone)."""
    h = fftw()
    omp = ctypes.CDLL('libfftw3_omp.so.3')
    omp.fftw_plan_with_nthreads(1)
    a = h.fftw_alloc_complex(int(np.prod(ng)))
    return bool(h.fftw_plan_dft_3d(*ng, a, a, sign, flags))


def child(func, *args):
    """func(*args) in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            p16.drop()
            try:
                out = ('ok', func(*args))
            except BaseException as e:
                out = ('raised', repr(e))
            b = pickle.dumps(out)
            while b:
                b = b[os.write(w, b):]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        b = f.read()
    st_ = os.waitpid(pid, 0)[1]
    if not b:
        return 'died', st_
    return pickle.loads(b)


def session(calls, peek=()):
    """The calls of one process, with what the files hold after each."""
    out = []
    for c in calls:
        if c[0] == 'do':
            do_event(c, '.')
            out.append(None)
            continue
        t = time.monotonic()
        try:
            res = 'ok', *measure(c)
        except Exception as e:
            res = 'raised', repr(e), None
        out.append((res, tree('.'), time.monotonic() - t))
    return out, [plan(ODD, s, MEASURE | ONLY) for s in peek]


def tree(d):
    out = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            try:
                with open(p, 'rb') as fd:
                    out[os.path.relpath(p, d)] = fd.read()
            except OSError:
                out[os.path.relpath(p, d)] = None
    return out


def knows(path, ng, sign, flags):
    h = fftw()
    h.fftw_forget_wisdom()
    ok = h.fftw_import_wisdom_from_filename(path.encode())
    return ok, plan(ng, sign, flags | ONLY)


def make_odd(path, ng, sign):
    """A wisdom file with the plan of another mesh."""
    h = fftw()
    h.fftw_forget_wisdom()
    plan(ng, sign, MEASURE)
    return h.fftw_export_wisdom_to_filename(path.encode())


FN = 'fftw_omp_ci%s_%dx%dx%d.wisdom'


def wfile(d, g, s):
    return f'{d}/' + FN % (s, *GRIDS[g])


REF = {}


def reference(call):
    """The result without wisdom, in a process of its own."""
    k = call[0], call[1]
    if k not in REF:
        got = child(session, [(*k, '', 'measure')])
        assert got[0] == 'ok', got
        res = got[1][0][0][0]
        assert res[0] == 'ok', res
        REF[k] = res[1]
    return REF[k]


def same(a, b):
    if set(a) != set(b):
        return f'entries {sorted(a)} not {sorted(b)}'
    for k in a:
        x, y = a[k], b[k]
        if x.shape != y.shape:
            return f'{k}: shape {x.shape} not {y.shape}'
        m = np.nanmax(np.abs(y), initial=0.)
        # sums of several terms of very different sizes
        if 'raw' in k or k == 'xi':
            m = max(m, np.nanmax(np.abs(b.get('pk_shot', y)), initial=0.))
        if not np.allclose(x, y, rtol=1e-9, atol=1e-9*m, equal_nan=True):
            return f'{k}: {x} not {y}'
    return None


class Dirs:
    def __enter__(self):
        here = os.getcwd()
        for d in (here, os.path.dirname(here)):
            os.chmod(d, 0o755)
        self.d = tempfile.mkdtemp(dir=here)
        self.old = here
        os.chmod(self.d, 0o777)
        os.chdir(self.d)
        for w in ('w1', 'w2'):
            os.mkdir(w)
            os.chmod(w, 0o777)
        return self

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.d)


def do_event(ev, d):
    """Things that happen between measurements."""
    kind = ev[1]
    if kind == 'none':
        return
    if kind == 'lose':
        for s in ev[3]:
            p = wfile('w1', ev[2], s)
            if os.path.exists(p):
                os.remove(p)
    elif kind == 'cut':
        for s in ev[3]:
            p = wfile('w1', ev[2], s)
            if os.path.exists(p):
                b = open(p, 'rb').read()
                with open(p, 'r+b') as f:
                    f.truncate(int(len(b)*ev[4]))
    elif kind == 'rmdir':
        shutil.rmtree('w1', ignore_errors=True)
    elif kind == 'lock':
        os.chmod('w1', 0o555)


def follow(k, calls, got, have, rec, locked=False, seen=None):
    """Compare one session with the model; `have` maps files to contents."""
    seen = set() if seen is None else seen
    for i, (c, g) in enumerate(zip(calls, got)):
        kk = f'{k}:{i}'
        rec.step()
        res, files, took = g
        if res[0] != 'ok':
            rec.fail(f'{kk}:raised', f'{c}: {res[1]}')
            return False
        rec.valid()
        bad = same(res[1], reference(c))
        if bad:
            rec.fail(f'{kk}:result', f'{c}: {bad}')
        s, gr, d, m = c
        want = dict(have)
        if d and not locked and os.path.isdir(d):
            for x in 'fb':
                p = wfile(d, gr, x)
                if p not in want and p not in seen:
                    want[p] = b'new'
                elif p not in want and p in files:
                    want[p] = b'new'
                if took > .8 and p in want:
                    want[p] = b'new'    # renewed after slow planning
                seen.add(p)
        if set(files) != set(want):
            rec.fail(f'{kk}:files', f'{c}: {sorted(files)} not '
                     f'{sorted(want)}')
        for p in set(files) & set(want):
            if want[p] == b'new':
                r = child(knows, p, GRIDS[gr], -1 if '_cif_' in p else 1,
                          MEASURE if m == 'measure' else PATIENT)
                if r != ('ok', (1, True)):
                    rec.fail(f'{kk}:contents', f'{c}: {p}: {r}: '
                             f'{files[p][:300]}')
            elif files[p] != want[p]:
                rec.fail(f'{kk}:changed', f'{c}: {p} was\n{want[p][:300]}\n'
                         f'is\n{files[p][:300]}')
        have.clear()
        have.update(files)
    return True


def history_case(key, payload, rec):
    """Calls in one process, then an event, then calls in another."""
    firsts, seconds, events = payload
    for first, ev, second in itertools.product(firsts, events, seconds):
        k = f'{key}:{"+".join(map("-".join, first))}:{ev}:' \
            f'{"+".join(map("-".join, second))}'
        if os.environ.get('VT_ONLY') and not \
                os.environ['VT_ONLY'].startswith(k):
            continue
        rec.state(k)
        with Dirs():
            have, ok = {}, True
            for n, part in enumerate((first, second)):
                if not part:
                    continue
                if n:
                    do_event(('do', *ev), '.')
                    have = tree('.')
                got = child(session, part)
                if got[0] != 'ok':
                    rec.fail(f'{k}:{n}:process', str(got))
                    ok = False
                    break
                ok = follow(f'{k}:{n}', part, got[1][0], have, rec,
                            locked=n and ev[0] == 'lock')
                if not ok:
                    break
            os.chmod('w1', 0o777) if os.path.isdir('w1') else None
            rec.outcome((tuple(sorted(have)), ok))


def import_case(key, payload, rec):
    """Files in place beforehand are used, each of them."""
    call, which = payload
    with Dirs():
        for x in which:
            p = wfile(call[2], call[1], x)
            r = child(make_odd, p, ODD, -1 if x == 'f' else 1)
            if r != ('ok', 1):
                rec.fail(f'{key}:make', str(r))
                return
        have = tree('.')
        rec.state(key)
        got = child(session, [call], (-1, 1))
        if got[0] != 'ok':
            rec.fail(f'{key}:process', str(got))
            return
        follow(key, [call], got[1][0], have, rec)
        want = ['f' in which, 'b' in which]
        if got[1][1] != want:
            rec.fail(f'{key}:imported', f'{got[1][1]} not {want}')
        # without wisdom nothing is imported
        c0 = (call[0], call[1], '', 'measure')
        got = child(session, [c0], (-1, 1))
        if got[0] != 'ok' or got[1][1] != [False, False]:
            rec.fail(f'{key}:unasked', str(got[1][1:]))


def torn_case(key, payload, rec):
    """Every prefix of the files of a run, cut or filled up with zeros."""
    call, which, kind, part, of = payload
    with Dirs():
        got = child(session, [call])
        if got[0] != 'ok' or got[1][0][0][0][0] != 'ok':
            rec.fail(f'{key}:process', str(got)[:500])
            return
        full = tree('.')
        ps = [wfile(call[2], call[1], x) for x in which]
        n = max(len(full[p]) for p in ps)
        at = range(n)
        if kind != 'every':
            # around the ends of words
            at = sorted({j for p in ps for j, c in enumerate(full[p])
                         if c in b' ()\n'})
        for j, i in enumerate(at):
            if j % of != part:
                continue
            for tail in ((b'', b'\0') if kind == 'every' else (b'',)):
                kk = f'{key}:{i}:{len(tail)}'
                if os.environ.get('VT_ONLY') and not \
                        os.environ['VT_ONLY'].startswith(kk):
                    continue
                have = {}
                for p, b in full.items():
                    if p in ps:
                        b = b[:i] + tail*(len(b) - i)
                    with open(p, 'wb') as f:
                        f.write(b)
                    os.chmod(p, 0o666)
                    have[p] = b
                rec.state(kk)
                got = child(session, [call])
                if got[0] != 'ok':
                    rec.fail(f'{kk}:process', str(got))
                    continue
                follow(kk, [call], got[1][0], have, rec)


def program_case(key, payload, rec):
    """Runs of the program, one after another, in one directory."""
    runs, state = payload
    k = key
    rec.state(k)
    with p16.Box() as bx:
        r = data()
        bx.put('cat.dat', '\n'.join(
            ' '.join(repr(float(v)) for v in row) for row in r) + '\n')
        if state in ('empty', 'locked'):
            os.mkdir(bx.path('wis'))
            os.chmod(bx.path('wis'), 0o777 if state == 'empty' else 0o555)
        if state == 'file':
            bx.put('wis', 'not a directory\n')
        ref = {}
        for i, (g, m, wis) in enumerate((*runs, *((g, 'measure', 'false')
                                                  for g in GRIDS))):
            ini = [f'boxsize_{a} = {v}' for a, v in zip('xyz', BOX)] + [
                f'ngrid_{a} = {v}' for a, v in zip('xyz', GRIDS[g])] + [
                'catalogue_dir = .', 'measurement_dir = out',
                'data_catalogue_file = cat.dat', f'output_tag = _{i}',
                'catalogue_columns = x,y,z,nz,ws,wc', 'catalogue_type = sim',
                'statistic_type = powspec', 'alignment = centre',
                'assignment = cic', 'interlace = true', 'ELL = 0',
                'norm_convention = particle', 'binning = lin',
                'bin_min = 0.005', 'bin_max = 0.04', 'num_bins = 3',
                f'fftw_scheme = {m}', f'use_fftw_wisdom = {wis}',
                'verbose = 0']
            bx.put(f'p{i}.ini', '\n'.join(ini) + '\n')
            before = bx.files()
            t = time.monotonic()
            code, out = bx.run([f'p{i}.ini'])
            took = time.monotonic() - t
            after = bx.files()
            rec.step()
            rec.valid()
            if wis != 'false' and state == 'file':
                if code == 0:
                    rec.fail(f'{k}:{i}:accepted', out[-400:])
                elif code == -11:
                    rec.fail(f'{k}:{i}:died', f'{code}: {out[-400:]}')
                continue
            if code != 0:
                rec.fail(f'{k}:{i}:failed', f'{code}: {out[-600:]}')
                continue
            new = {f for f in after if f not in before
                   and not f.startswith('out/')}
            want = set()
            if wis != 'false' and state != 'locked':
                want = {wfile('wis', g, x) for x in 'fb'}
            if new != {w for w in want if w not in before}:
                rec.fail(f'{k}:{i}:files', f'{sorted(new)}')
            if took < .8:
                for f in before:
                    if after.get(f) != before[f]:
                        rec.fail(f'{k}:{i}:changed', f)
            pk = after.get(f'out/pk0_{i}')
            if pk is None:
                rec.fail(f'{k}:{i}:output', str(sorted(after)))
                continue
            ref.setdefault(g, []).append(
                (i, [ln for ln in pk.split('\n') if ln[:1] != '#']))
        for g, v in ref.items():
            for i, t in v[:-1]:
                a = np.array([ln.split() for ln in t if ln], float)
                b = np.array([ln.split() for ln in v[-1][1] if ln], float)
                if a.shape != b.shape or not np.allclose(
                        a, b, rtol=3e-9, atol=1e-8*np.abs(b).max(),
                        equal_nan=True):
                    rec.fail(f'{k}:{i}:result', f'{a}\nnot\n{b}')
        if os.path.isdir(bx.path('wis')):
            os.chmod(bx.path('wis'), 0o777)


EVENTS = [('none',)] + [(e, g, x, *a) for g in GRIDS for x in ('f', 'b', 'fb')
                        for e, *a in (('lose',), ('cut', 0.), ('cut', .5))] \
    + [('rmdir',), ('lock',)]


def main(tier=None):
    global PKG
    ch = core.Check('P22', tier)
    th = ch.tier == 'thorough'
    PKG = build.python_package()
    p16.PROG = build.cpp_program()
    on = [c for c in CALLS if c[2]]
    # every pair of calls in one process, of any kind
    cases = [(f'pair:{"-".join(a)}', ([(a, b) for b in CALLS], [()],
                                      [('none',)])) for a in CALLS]
    if th:
        cases += [(f'triple:{"-".join(a)}:{"-".join(b)}', (
            [(a, b, c) for c in CALLS], [()], [('none',)]))
            for a in CALLS for b in CALLS]
    # two processes with something happening in between
    base = [c for c in on if c[0] != 'xi' and (th or c[3] == 'measure')
            and (th or c[2] == 'w1')]
    cases += [(f'two:{"-".join(a)}', (
        [(a,)], [(b,) for b in base] + [(b, c) for b in base for c in base
                                        if th], EVENTS))
        for a in base]
    ch.run_cases('histories', cases, history_case, setup=setup, timeout=1500)
    ch.run_cases('imports', [
        (f'import:{"-".join(c)}:{w}', (c, w)) for c in on
        for w in ('', 'f', 'b', 'fb')], import_case, setup=setup)
    tc = [(s, 'a', 'w1', 'measure') for s in ('pk', 'bk')]
    if th:
        tc += [(s, 'b', 'w1', 'patient') for s in ('pk', 'bk')]
    cases = [('fb', 'every', tc[0])] if not th else []
    cases += [(w, 'every' if th else 'words', c) for c in tc
              for w in (('f', 'b', 'fb') if th else ('fb',))]
    ch.run_cases('torn files', [
        (f'torn:{kind}:{"-".join(c)}:{w}:{i}', (c, w, kind, i, 16))
        for w, kind, c in cases for i in range(16)],
        torn_case, setup=setup, timeout=1500)
    pr = [(g, m, w) for g in GRIDS for m in ('measure', 'patient')
          for w in ('wis', 'wis/', 'false') if w != 'false' or m == 'measure']
    ch.run_cases('program', [
        (f'prog:{s}:{i}', (runs, s))
        for s in ('none', 'empty', 'locked', 'file')
        for i, runs in enumerate(itertools.product(pr, repeat=2))
        if th or s == 'none' or i % 4 == 0], program_case)
    return ch.finish(
        rule='every pair (thorough: triple) of measurements in one process, '
        'every pair of processes with every loss or damage of files in '
        'between, every truncation of the files of a run, '
        'and every pair of runs of the program; a state is one history')
