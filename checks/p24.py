"""P24: progress bars and log messages report faithfully and change nothing."""
import ctypes as C
import itertools
import logging
import os
import re
import sys
import time
import warnings

import numpy as np

from vt import build, core, lib, model
from . import stats as st

f32 = np.float32


def setup():
    lib.L()


class Capture:
    """Everything written to standard output, C++ and Python."""

    def __enter__(self):
        sys.stdout.flush()
        self.old = os.dup(1)
        self.f = open('cap', 'w+b')
        os.dup2(self.f.fileno(), 1)
        return self

    def take(self):
        sys.stdout.flush()
        self.f.seek(0)
        t = self.f.read()
        self.f.seek(0)
        self.f.truncate()
        return t.decode()

    def __exit__(self, *a):
        sys.stdout.flush()
        os.dup2(self.old, 1)
        os.close(self.old)
        self.f.close()


STAMP = r'\[\d{4}-\d\d-\d\d \d\d:\d\d:\d\d \(\+\d\d+:\d\d:\d\d\)'
NAMES = {0: '', 10: 'DBUG', 20: 'STAT', 30: 'INFO', 40: 'WARN', 50: 'ERRO'}
ENVS = [dict(), dict(TERM='xterm'), dict(TERM='xterm-256color'),
        dict(TERM='xterm-256color', TRV_INTERACTIVE='true'),
        dict(TERM='xterm-256color', TRV_INTERACTIVE='yes'),
        dict(TERM='xterm-color', TRV_INTERACTIVE='1'),
        dict(TERM='color', TRV_INTERACTIVE='on'),
        dict(TERM='xterm-256color', TRV_INTERACTIVE='false'),
        dict(TERM='xterm-256color', TRV_INTERACTIVE=''),
        dict(TERM='dumb', TRV_INTERACTIVE='true'),
        dict(TRV_INTERACTIVE='true')]


def set_env(e):
    for k in ('TERM', 'TRV_INTERACTIVE'):
        os.environ.pop(k, None)
    os.environ.update(e)


def coloured(e):
    return 'color' in e.get('TERM', '') and e.get(
        'TRV_INTERACTIVE') in ('true', 'yes', '1', 'on')


def strip(s):
    return re.sub(r'\033\[[0-9;]*m', '', s)


def check_line(s, name, msg, col):
    """Error message or None for one log line."""
    if col != ('\033[' in s) and name:
        return f'colour: {s!r}'
    s = strip(s)
    m = re.fullmatch('(' + STAMP + ')' + r'( \w+)?(?: C\+\+)?\] (.*)\n', s,
                     re.S)
    if not m:
        return f'format: {s!r}'
    if (m[2] or '').strip() != name or m[3] != msg:
        return f'content: {s!r}'
    t = time.mktime(time.strptime(m[1][1:20], '%Y-%m-%d %H:%M:%S'))
    if abs(time.time() - t) > 120:
        return f'time: {s!r}'


def log_case(key, payload, rec):
    env, = payload
    set_env(env)
    L = lib.L()
    col = coloured(env)
    levels = (-10, 0, 1, 9, 10, 15, 19, 20, 25, 30, 35, 40, 49, 50, 51, 59)
    limits = (-1, 0, 5, 10, 11, 20, 25, 30, 40, 50, 51, 60, 100)
    named = dict(d=10, s=20, i=30, w=40, e=50)
    with Capture() as cap:
        for lim in limits:
            for how, lv in itertools.product(('l', 'n'), levels):
                rc = L.vt_log(lim, how.encode(), lv, b'a%sb', 7 - lv)
                out = cap.take()
                rec.step()
                rec.valid()
                rec.state((lim, how, lv))
                k = f'{key}:{how}:{lim}:{lv}'
                if lv >= lim and (lv < 0 or lv not in NAMES and lv > 59):
                    continue
                if rc:
                    rec.fail(f'{k}:raise', L.vt_err().decode())
                elif lv < lim:
                    if out:
                        rec.fail(f'{k}:silent', out)
                else:
                    e = check_line(out, NAMES[lv//10*10],
                                   f'a%sb and {7 - lv}', col)
                    if e:
                        rec.fail(f'{k}:line', e)
            for seq in itertools.product('dsiwe', repeat=2):
                L.vt_log(lim, ''.join(seq).encode(), 0, b'x' * 40, -3)
                out = cap.take().splitlines(True)
                exp = [named[c] for c in seq if named[c] >= lim]
                rec.step()
                rec.valid()
                rec.state((lim, seq))
                k = f'{key}:{"".join(seq)}:{lim}'
                if len(out) != len(exp):
                    rec.fail(f'{k}:lines', f'{out}')
                    continue
                for o, x in zip(out, exp):
                    e = check_line(o, NAMES[x], 'x'*40 + ' and -3', col)
                    if e:
                        rec.fail(f'{k}:line', e)
        # changing the threshold takes effect at once
        for l1, l2 in itertools.product((0, 20, 30, 50, 60), repeat=2):
            L.vt_log(l1, b'irie', l2, b'q', 1)
            out = cap.take()
            exp = (30 >= l1) + (30 >= l2) + (50 >= l2)
            rec.step()
            rec.valid()
            rec.state((l1, l2))
            if out.count('\n') != exp:
                rec.fail(f'{key}:reset:{l1}:{l2}', out)
        # long messages are cut, never overrun
        for n in (4000, 4095, 4096, 5000, 20000):
            L.vt_log(0, b'i', 0, b'z'*n, 1)
            out = strip(cap.take())
            rec.step()
            rec.valid()
            m = re.fullmatch(STAMP + r' INFO(?: C\+\+)?\] (z+)(.*)\n', out)
            if not m or len(m[1]) > n or len(m[1]) < min(n, 4000):
                rec.fail(f'{key}:long:{n}', out[:80])


# -- progress bars ----------------------------------------------------------
class Bar:
    """Model of the progress bar."""

    def __init__(self, n, name):
        self.n, self.name, self.w = n, name, 50
        self.nodes = [f32(i)/f32(100) for i in range(101)]
        self.nx = 0

    def setp(self, p):
        self.nx = 0
        while self.nx < len(self.nodes) and p > self.nodes[self.nx]:
            self.nx += 1

    def update(self, p):
        """Printed percentage and position, or None."""
        if self.nx < len(self.nodes) and p >= self.nodes[self.nx]:
            self.nx += 1
            return int(float(p)*100.), int(f32(self.w)*p)


def bar_out(b, p, hit, col):
    """Error message or None for the text of one update."""
    def chk(out):
        tail = '\n' if p == 1 else ''
        if not hit:
            return None if out == tail else f'{out!r}'
        if col != ('\033[' in out):
            return f'colour {out!r}'
        out = strip(out)
        pct, pos = hit
        bar = '='*min(pos, b.w) + ('>' if pos < b.w else '')
        exp = f'[{bar:<{b.w}}] {pct}%' + (f' < {b.name}' if b.name else '') \
            + '\r' + tail
        m = re.fullmatch('(' + STAMP + r') STAT\] (.*)', out, re.S)
        if not m or m[2] != exp:
            return f'{out!r} instead of ... {exp!r}'
    return chk


def bar_case(key, payload, rec):
    n, name, nodes, width, env, seqs = payload
    set_env(env)
    L = lib.L()
    col = coloured(env)
    with Capture() as cap:
        for seq in seqs:
            if L.vt_bar_new(n, name.encode()):
                rec.fail(f'{key}:new', L.vt_err().decode())
                return
            b = Bar(n, name)
            if nodes is not None:
                a = np.array(nodes, dtype=f32)
                L.vt_bar_nodes(a.ctypes.data_as(C.POINTER(C.c_float)),
                               len(a))
                b.nodes = list(a)
            if width:
                L.vt_bar_width(width)
                b.w = width
            cap.take()
            k = f'{key}:{seq}'
            rec.state(k)
            for op, v in seq:
                rec.step()
                rec.valid()
                if op in ('task', 'prog'):
                    rc = L.vt_bar_task(v) if op == 'task' else \
                        L.vt_bar_prog(C.c_double(v))
                    bad = not 0 <= v <= (n if op == 'task' else 1)
                    if bool(rc) != bad or cap.take():
                        rec.fail(f'{k}:{op}:{v}', 'accepted' if bad else
                                 'rejected')
                        break
                    if not bad:
                        b.setp(f32(v)/f32(n) if op == 'task' else f32(v))
                    continue
                p = f32(v)/f32(n) if op == 'upd' else f32(v)
                rc = L.vt_bar_update(v) if op == 'upd' else \
                    L.vt_bar_updatef(C.c_double(v))
                out = cap.take()
                if bool(rc) != bool(p > 1):
                    rec.fail(f'{k}:{v}:raise', L.vt_err().decode())
                    break
                if rc:
                    break
                hit = b.update(p)
                rec.outcome(str(hit))
                e = bar_out(b, p, hit, col)(out)
                if e:
                    rec.fail(f'{k}:{v}', e)
                    break


def bar_bad(key, payload, rec):
    L = lib.L()
    for n in range(-3, 4):
        rec.step()
        rec.valid()
        rec.state(n)
        if bool(L.vt_bar_new(n, b'')) != (n < 1):
            rec.fail(f'{key}:count:{n}', 'accepted' if n < 1 else 'rejected')
    L.vt_bar_new(3, b'')
    for w in range(-2, 4):
        rec.step()
        rec.valid()
        if bool(L.vt_bar_width(w)) != (w < 1):
            rec.fail(f'{key}:width:{w}', '')
    e = np.zeros(1, dtype=f32)
    if not L.vt_bar_nodes(e.ctypes.data_as(C.POINTER(C.c_float)), 0):
        rec.fail(f'{key}:nodes', 'no nodes accepted')


def nodes_case(key, payload, rec):
    """Node intervals given as text."""
    texts, = payload
    L = lib.L()
    buf = np.zeros(2000000, dtype=f32)
    for t in texts:
        n = C.c_int(-1)
        rc = L.vt_bar_strnodes(t.encode(), buf.ctypes.data_as(
            C.POINTER(C.c_float)), len(buf), C.byref(n))
        rec.step()
        rec.valid()
        rec.state(t)
        try:
            v = float(t)
        except ValueError:
            v = None
        if v is None or not 0 < v < 100:
            if not rc:
                rec.fail(f'{key}:{t}:accepted', '')
            continue
        if rc:
            rec.fail(f'{key}:{t}:rejected', L.vt_err().decode())
            continue
        a = buf[:n.value].astype(float)
        d = np.diff(np.concatenate([[0.], a]))
        s = v/100
        if a[-1] != 1 or (d <= 0).any() or (d > 2e-7 + s*(1 + 1e-3)).any() \
                or (np.abs(d[:-2] - s) > 2e-7 + s*1e-3).any() \
                or abs(len(a) - np.ceil(1/s)) > 2 + 1e-3/s:
            rec.fail(f'{key}:{t}:nodes', f'{a[:5]} .. {a[-5:]}')


# -- reporting never changes a measurement ----------------------------------
BARS = ('true', '10', '33', '50', '0.5', '99.9', '1')


def quiet_case(key, payload, rec):
    kind, form, idx, degs, scheme = payload
    os.environ.pop('TRV_INTERACTIVE', None)
    box, ng = (900., 1100., 1000.), (5, 4, 5)
    data, rand = st.rows(box, st.DATA), st.rows(box, st.RAND)
    ld, lr = st.los(st.DATA), st.los(st.RAND)
    L = lib.L()
    gpp = kind.endswith('gpp')
    win = '_win' in kind
    four = kind.startswith('bispec') or kind.startswith('powspec')
    S = model.System(box, ng, scheme, 'false', data)
    e = model.safe_edges(S.kmag if four else S.rmag, 3, 1e-5 if four else 1.)
    three = 'bispec' in kind or 'tpcf' in kind
    with Capture() as cap:
        base = None
        for bar, verb in [('false', 60), ('false', 0), ('false', 10),
                          ('false', 20), ('false', 30),
                          *((b, v) for b in BARS for v in (60, 20, 0))]:
            cd, cr = lib.Cat(data), lib.Cat(rand)
            p = lib.mkparams(
                box, ng, assignment=scheme, interlace='false', ell1=degs[0],
                ell2=degs[1], ELL=degs[2], form=form, idx_bin=idx,
                num_bins=3, bin_min=e[0], bin_max=e[-1],
                i_wa=1 if kind.endswith('_wa') else 0,
                j_wa=1 if kind.endswith('_wa') else 0,
                catalogue_type='sim' if gpp else 'random' if win else
                'survey', statistic_type={
                    'powspec': 'powspec', 'corrfunc': '2pcf-win' if win else
                    '2pcf', 'bispec': 'bispec', 'tpcf': '3pcf-win' if win
                    else '3pcf'}[kind.split('_')[0]])
            p.set(progbar=bar, verbose=verb)
            L.vt_loglevel(verb)
            b = lib.Bin('fourier' if four else 'config', 'lin').set_edges(e)
            k = f'{key}:{bar}:{verb}'
            rec.step()
            rec.state(k)
            rec.valid()
            cap.take()
            try:
                if win:
                    tab = lib.stat(kind, cr, None, lr, None, p, b, .7, 1.3)
                elif gpp:
                    tab = lib.stat(kind, cd, None, None, None, p, b, 1., 1.3)
                else:
                    tab = lib.stat(kind, cd, cr, ld, lr, p, b, .7, 1.3)
            except lib.LibError as x:
                rec.fail(f'{k}:raise', str(x))
                continue
            finally:
                L.vt_loglevel(100)
            out = strip(cap.take())
            if base is None:
                base = tab
            elif tab.shape != base.shape or not np.allclose(
                    tab, base, rtol=1e-9,
                    atol=1e-9*np.abs(base[:, -4:]).max()):
                rec.fail(f'{k}:result', f'{tab} {base}')
            pct = [int(x) for x in re.findall(r'\] (\d+)%', out)]
            rec.outcome(tuple(pct))
            if bar == 'false' or not three:
                if pct:
                    rec.fail(f'{k}:unasked', f'{pct}')
            else:
                # one bar per pair of orders, each rising to at most 100%
                bars = np.split(pct, np.flatnonzero(np.diff(pct) <= 0) + 1)
                if not all((x <= 100).all() and (np.diff(x) > 0).all()
                           for x in bars):
                    rec.fail(f'{k}:progress', f'{pct}')
            if verb == 60 and bar == 'false' and out:
                rec.fail(f'{k}:noise', out[:200])


# -- the Python logger ------------------------------------------------------
LG = None


def py_setup():
    global LG
    sys.path.insert(0, str(PKG))
    import triumvirate.logger as LG_
    LG = LG_


PKG = None
MSGS = ('plain', 'with {braces}', '100% of {0}', 'ünïcode', '', 'a\nb')


def py_emit(lg, how, msg, state):
    kw = {} if state is None else dict(cpp_state=state)
    getattr(lg, how)(msg, **kw)


PYL = dict(debug=(10, 'DBUG'), stat=(15, 'STAT'), info=(20, 'INFO'),
           warning=(30, 'WARN'), error=(40, 'ERRO'),
           critical=(50, 'FATAL'))
SUFFIX = {None: '', False: '', True: ' (in C++)', 'start': ' (entering C++)',
          'end': ' (exited C++)', 'START': ' (entering C++)',
          'End': ' (exited C++)', 1: ' (in C++)'}


def pylog_case(key, payload, rec):
    env, setups = payload
    set_env(env)
    col = 'color' in env.get('TERM', '') and 'TRV_INTERACTIVE' in env
    with Capture() as cap:
        # repeated set-up must not repeat messages
        sys.stdout = open(1, 'w', closefd=False)
        for seq in setups:
            for lv in seq:
                lg = LG.setup_logger(log_level=lv) if lv is not None \
                    else LG.setup_logger()
            lim = 15 if seq[-1] is None else seq[-1]
            for how, msg, state in itertools.product(PYL, MSGS, SUFFIX):
                py_emit(lg, how, msg, state)
                out = cap.take()
                k = f'{key}:{seq}:{how}:{MSGS.index(msg)}:{state}'
                rec.step()
                rec.valid()
                rec.state(k)
                lv, name = PYL[how]
                if lv < lim:
                    if out:
                        rec.fail(f'{k}:silent', out)
                    continue
                if col != ('\033[' in out):
                    rec.fail(f'{k}:colour', out)
                m = re.fullmatch('(' + STAMP + r') (\w+)\] (.*)\n',
                                 strip(out), re.S)
                if not m or m[2] != name or m[3] != msg + SUFFIX[state]:
                    rec.fail(f'{k}:line', repr(out))
                elif abs(time.time() - time.mktime(time.strptime(
                        m[1][1:20], '%Y-%m-%d %H:%M:%S'))) > 120:
                    rec.fail(f'{k}:time', repr(out))
            for n, (msg, cat) in enumerate(itertools.product(
                    ('careful', 'with {braces} {}', '100%'),
                    (UserWarning, FutureWarning))):
                with warnings.catch_warnings():
                    warnings.simplefilter('always')
                    warnings.warn_explicit(msg, cat, 'some_file.py', 12)
                out = strip(cap.take())
                rec.step()
                rec.valid()
                m = re.fullmatch(STAMP + r' WARN\] (.*?)\n+', out, re.S)
                if 30 < lim:
                    if out:
                        rec.fail(f'{key}:{seq}:warn:{n}:silent', out)
                elif not m or not m[1].startswith(msg) or \
                        f'some_file.py:12:{cat.__name__}' not in m[1]:
                    rec.fail(f'{key}:{seq}:warn:{n}', repr(out))
        sys.stdout = sys.__stdout__


# -- string and path utilities ---------------------------------------------
def elapsed_case(key, payload, rec):
    lo, hi = payload
    L = lib.L()
    for s in range(lo, hi):
        for fr in (0., .999):
            t = L.vt_elapsed(C.c_double(s + fr)).decode()
            rec.step()
            if t != f'{s//3600:02d}:{s//60 % 60:02d}:{s % 60:02d}':
                rec.fail(f'{key}:{s}', t)
    rec.valid(hi - lo)
    rec.state((lo, hi))


def words(alpha, n):
    return [''.join(w) for k in range(n + 1)
            for w in itertools.product(alpha, repeat=k)]


def string_case(key, payload, rec):
    part, n = payload
    L = lib.L()
    if part == 'ext':
        for a, b in itertools.product(words('a.b/', n), words('.a', 3)):
            rec.step()
            rec.valid()
            if bool(L.vt_has_ext(a.encode(), b.encode())) != a.endswith(b):
                rec.fail(f'{key}:{a}:{b}', '')
        rec.state(part)
    if part == 'split':
        k = C.c_int(0)
        for a, d, e in itertools.product(words('a,b', n), (',', 'a', ',,',
                                                           'ab', ''),
                                         ('', '-', '::')):
            exp = a.split(d) if d else [a]
            if exp and exp[-1] == '':
                exp.pop()
            if not a:
                exp = []
            got = L.vt_split_join(a.encode(), d.encode(), e.encode(),
                                  C.byref(k)).decode()
            rec.step()
            rec.valid()
            rec.state((a, d, e))
            if k.value != len(exp) or got != e.join(exp):
                rec.fail(f'{key}:{a}:{d}:{e}', f'{got!r} {k.value}')
    if part == 'paths':
        for a in words('a/ .\t', n):
            rec.step()
            rec.valid()
            rec.state(a)
            exp = bool(a.strip()) and not a.endswith('/')
            if bool(L.vt_path_is_set(a.encode())) != exp:
                rec.fail(f'{key}:{a!r}', f'{not exp}')
    if part == 'dirs':
        import shutil
        base = os.getcwd() + '/d'
        names = [w for w in words('ab/', n) if not w.startswith('/')]
        for a in names:
            for obst in (None, 'a', 'b'):
                shutil.rmtree(base, ignore_errors=True)
                os.mkdir(base)
                if obst:
                    open(f'{base}/{obst}', 'w').close()
                rc = L.vt_make_dir(f'{base}/{a}'.encode())
                rec.step()
                rec.valid()
                rec.state((a, obst))
                try:
                    os.makedirs(f'{base}/{a}', exist_ok=True)
                    ok = True
                except OSError:
                    ok = False
                want = ok
                shutil_ok = os.path.isdir(f'{base}/{a}')
                if bool(rc) == want:
                    rec.fail(f'{key}:{a}:{obst}', f'{rc} {shutil_ok}')
                shutil.rmtree(base, ignore_errors=True)
                os.mkdir(base)
                if obst:
                    open(f'{base}/{obst}', 'w').close()
                L.vt_make_dir(f'{base}/{a}'.encode())
                if os.path.isdir(f'{base}/{a}') != want:
                    rec.fail(f'{key}:{a}:{obst}:made', '')


def env_case(key, payload, rec):
    n, = payload
    L = lib.L()
    env = dict(A='x', AB='y/z', _E='', HOME1='/h$A')
    for k in ('A', 'AB', '_E', 'HOME1', 'B', 'NO'):
        os.environ.pop(k, None)
    os.environ.update(env)
    buf = C.create_string_buffer(4096)
    toks = ('${A}', '${AB}', '${_E}', '${NO}', '$', '{', '}', 'A', '/',
            '${', '${}', '$A')
    for w in (t for k in range(n + 1)
              for t in itertools.product(toks, repeat=k)):
        s = ''.join(w)
        exp = re.sub(r'\$\{([^}]+)\}', lambda m: env.get(m[1], m[0]), s)
        rc = L.vt_expand_env(s.encode(), buf, 4096)
        got = buf.value.decode()
        rec.step()
        rec.state(s)
        rec.valid()
        if rc or got != exp:
            rec.fail(f'{key}:{s}', f'{got!r} instead of {exp!r}')


def main():
    global PKG
    ch = core.Check('P24')
    th = ch.tier == 'thorough'
    lib.prepare()
    PKG = build.python_package()
    ch.run_cases('C++ log messages', [
        (f'log:{i}', (e,)) for i, e in enumerate(ENVS)], log_case,
        setup=setup)
    cases = []
    nodesets = [None, [.5], [.5, 1.], [.25, .5, .75, 1.], [.1, .2, .3, 1.],
                [0., .5, 1.], [1.]]
    for n, (i, nodes) in itertools.product((1, 2, 3, 4, 7),
                                           enumerate(nodesets)):
        seqs = [tuple(('upd', i) for i in c) for k in range(1, n + 2)
                for c in itertools.combinations_with_replacement(
                    range(n + 1), k)] if n < 5 else [
            tuple(('upd', i) for i in range(a, b, s)) for a in range(n)
            for b in range(a + 1, n + 2) for s in (1, 2, 3)]
        seqs += [tuple(('updf', x) for x in c)
                 for c in itertools.product((0., .33, .5, .999, 1., 1.01),
                                            repeat=3 if th else 2)]
        ops = [(o, v) for o in ('task', 'upd') for v in range(n + 2)] + [
            ('task', -1), ('prog', .5), ('prog', 0.), ('prog', 1.),
            ('prog', -.1), ('prog', 1.5), ('prog', .3)]
        seqs += list(itertools.product(ops, repeat=3 if n < 3 or th else 2))
        for e in (0, 3):
            cases.append((f'bar:{n}:{i}:{e}', (
                n, ('', 'name')[i % 2], nodes, (None, 1, 10)[(n + i) % 3],
                ENVS[e], seqs)))
    for n in (100, 101, 250, 1000):
        for i, nodes in enumerate(nodesets[:3]):
            cases.append((f'bar:{n}:{i}:long', (
                n, 'n', nodes, None, ENVS[0],
                [tuple(('upd', j) for j in range(a, n + 1, s))
                 + (('upd', n), ('upd', n), ('upd', n + 1))
                 for a in (0, 1) for s in (1, 3)])))
    ch.run_cases('progress bars', cases, bar_case, setup=setup)
    ch.run_cases('rejected bars', [('barbad', None)], bar_bad, setup=setup)
    texts = [f'{i/10:g}' for i in range(-20, 1020, 1 if th else 3)] + [
        '0.01', '0.05', '0.001', '99.999', '100', '0', '-0', 'x', 'nan',
        '1e1', '5e-1', '+7', 'inf', '-5', '1e2', '']
    ch.run_cases('node intervals', [
        (f'nodes:{i}', (texts[i::8],)) for i in range(8)], nodes_case,
        setup=setup)
    kinds = ['powspec', 'corrfunc', 'powspec_gpp', 'corrfunc_gpp',
             'corrfunc_win', 'bispec', 'tpcf', 'bispec_gpp', 'tpcf_gpp',
             'tpcf_win', 'tpcf_win_wa']
    forms = [('diag', 0), ('full', 0), ('row', 1), ('off-diag', 0),
             ('off-diag', 1), ('off-diag', -1), ('off-diag', -2),
             ('row', 0), ('row', 2)]
    degs = [(0, 0, 0), (1, 1, 0), (2, 0, 2), (1, 1, 2)]
    cases = []
    for i, (k, (d, dg)) in enumerate(itertools.product(
            kinds, enumerate(degs))):
        three = 'bispec' in k or 'tpcf' in k
        if not three:
            if d < 2:
                cases.append((f'same:{k}:{d}', (k, 'diag', 0,
                                                (0, 0, 2*d), 'cic')))
            continue
        for j, (f, x) in enumerate(forms):
            if th or (i + j) % 3 == 0:
                cases.append((f'same:{k}:{dg}:{f}:{x}',
                              (k, f, x, dg, ('tsc', 'cic', 'pcs')[j % 3])))
    ch.run_cases('measurements under reporting settings', cases, quiet_case,
                 setup=setup, timeout=600)
    lv = (None, 0, 10, 15, 20, 30, 50, 60)
    ch.run_cases('Python log messages', [
        (f'pylog:{i}:{s}', (e, [s])) for i, e in enumerate(ENVS)
        for s in [(a,) for a in lv] + [
            x for x in itertools.product(lv, repeat=2)
            if th or i in (0, 3)]], pylog_case, setup=py_setup)
    ch.run_cases('elapsed times', [
        (f'elapsed:{h}', (h*3600, h*3600 + 3600))
        for h in [*range(0, 30), 99, 100, 101]], elapsed_case, setup=setup)
    ch.run_cases('strings and paths', [
        (p, (p, n + th)) for p, n in (('ext', 5), ('split', 6),
                                      ('paths', 5), ('dirs', 5))],
        string_case, setup=setup)
    ch.run_cases('environment variables', [('envvar', (4 if th else 3,))],
                 env_case, setup=setup)
    return ch.finish(
        rule='all log levels x thresholds x terminal settings, all update '
        'histories of progress bars up to a length, all statistics x forms x '
        'degrees x reporting settings, all strings over small alphabets')
