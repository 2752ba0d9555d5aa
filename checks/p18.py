"""P18: array extrapolation, checking, sorting and reshaping.

All arrays over small alphabets up to a length are run through the Python
functions (and the C++ ones where they exist) and compared with models of
their documented behaviour.
"""
import itertools
import math
import warnings

import numpy as np

from vt import build, core, lib

A = None        # triumvirate._arrayops


def setup():
    global A
    lib.prepare('ext')
    import triumvirate._arrayops as A_
    A = A_
    np.seterr(all='ignore')
    warnings.simplefilter('ignore')


def same(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol,
                                              equal_nan=True)


# -- models -----------------------------------------------------------------
def m_pad(a, n, lo, hi):
    return [lo]*n + list(a) + [hi]*n


def m_lin(a, n):
    return ([a[0] - (a[1] - a[0])*i for i in range(n, 0, -1)] + list(a)
            + [a[-1] + (a[-1] - a[-2])*i for i in range(1, n + 1)])


def sign_ok(a):
    return (a[0]*a[1] > 0 or a[0] == 0) and (a[-1]*a[-2] > 0 or a[-1] == 0)


def m_geo(a0, a1, n):
    """n terms continuing a1, a0 beyond a0; None if undefined (0/0)."""
    if a0 == 0:
        return [0.]*n if a1 != 0 else None
    return [a0*(a0/a1)**i for i in range(1, n + 1)]


def m_loglin(a, n):
    lo, hi = m_geo(a[0], a[1], n), m_geo(a[-1], a[-2], n)
    if lo is None or hi is None:
        return None
    return lo[::-1] + list(a) + hi


def grad(v):
    """Gradient of ln|v|, non-finite values replaced as the code documents."""
    l = [math.log(abs(x)) if x else -math.inf for x in v]
    g = []
    for i in range(len(l)):
        if i == 0:
            d = l[1] - l[0]
        elif i == len(l) - 1:
            d = l[-1] - l[-2]
        else:
            d = (l[i + 1] - l[i - 1])/2
        g.append(d)
    return g


BIG = float(np.finfo(float).max)


def num(x):
    if math.isnan(x):
        return 0.
    return min(max(x, -BIG), BIG)


def sg(x):
    return (x > 0) - (x < 0)


def turns(v):
    """Indices i at which the sign of v changes between i and i + 1."""
    return [i for i in range(len(v) - 1) if sg(v[i]) != sg(v[i + 1])]


def mean(v):
    with np.errstate(all='ignore'):
        return float(np.mean(v))


def trend(m):
    """Slope of a mean gradient; constant (with a warning) if divergent."""
    if abs(m) < 1e-12:
        return 0., None       # either sign is within rounding
    return (-m, False) if m >= 0 else (0., True)


def m_slope(a):
    """Outward log-slopes (<= 0) of both ends, and the warnings expected.

    Written for the left end; the right end has its own index rules.
    """
    n = len(a)
    zc = turns(a)
    left = max(zc[0] + 1, 3) if zc else n - 1
    right = min(zc[-1] + 1, n - 4) if zc else 0
    gl = [num(x) for x in grad(a[:left])]
    gr = [num(x) for x in grad(a[right:])]
    tl, tr = turns(gl), turns(gr)
    left2 = max(tl[-1] + 1, 3) if tl else n - 1
    right2 = min(right + tr[0], n - 4) if tr else 0
    peak = max(range(n), key=lambda i: (abs(a[i]), -i))
    if peak in (0, n - 1):
        peak = n//2
    ql = max((peak + 1)//2 - 1, 3)
    qr = min(peak + (n - 1 - peak)//2, n - 4)
    lo, hi = a[:min(left, left2, ql)], a[max(right, right2, qr):]
    out = []
    for tail, quarter, rev in ((lo, a[:ql], False), (hi, a[qr:], True)):
        g = [num(x) for x in grad(tail)]
        s = -1. if rev else 1.
        warn = False
        if turns(g):
            p, warn = trend(s*mean(g))
        else:
            e = grad(tail)[-1 if rev else 0]
            e = s*num(e)
            if e >= 0:
                p = -e
            else:
                p, warn = trend(s*num(mean(grad(quarter))))
        out.append((p, warn))
    return out


def m_oscil(a, n):
    (pl, _), (pr, _) = m_slope(a)
    return ([a[0]*math.exp(pl*i) for i in range(n, 0, -1)] + list(a)
            + [a[-1]*math.exp(pr*i) for i in range(1, n + 1)])


# -- 1-d --------------------------------------------------------------------
def attempt(f, *a):
    try:
        return np.asarray(f(*a)), None
    except Exception as e:                                    # noqa: BLE001
        return None, type(e).__name__


def cpp_extrap(kind, a, n, lo=0., hi=0.):
    out = np.zeros(len(a) + 2*n)
    x = lib.D(np.array(a, float))
    r = lib.L().vt_extrap(kind, lib.pD(x), len(a), n, lib.C.c_double(lo),
                          lib.C.c_double(hi), lib.pD(out))
    return None if r else out


def one_case(key, payload, rec):
    first, n, alpha, next_ = payload
    for rest in itertools.product(alpha, repeat=n - 1):
        a = (first,) + rest
        k = f'{key}:{",".join(map(str, rest))}'
        rec.state(a)
        for ne in next_:
            x = np.array(a)
            for shape in ((n,), (1, n), (n, 1)):
                v = x.reshape(shape)
                for name, got, exp in (
                        ('pad', attempt(A.extrap_pad, v, ne, -7., 9.),
                         m_pad(a, ne, -7., 9.)),
                        ('lin', attempt(A.extrap_lin, v, ne), m_lin(a, ne))):
                    rec.step()
                    rec.valid()
                    if got[0] is None or not same(got[0], exp):
                        rec.fail(f'{k}:{ne}:{name}', f'{got} != {exp}')
                got, err = attempt(A.extrap_loglin, v, ne)
                rec.step()
                rec.valid()
                if not sign_ok(a):
                    if err != 'MixedSignError':
                        rec.fail(f'{k}:{ne}:loglin-sign',
                                 f'{a}: {got} {err}')
                else:
                    exp = m_loglin(a, ne)
                    if exp is not None and (got is None
                                            or not same(got, exp)):
                        rec.fail(f'{k}:{ne}:loglin',
                                 f'{a}: {got} {err} != {exp}')
                if not (x == a).all():
                    rec.fail(f'{k}:{ne}:input', 'input changed')
            for name, got, exp in (
                    ('cpp-pad', cpp_extrap(2, a, ne, -7., 9.),
                     m_pad(a, ne, -7., 9.)),
                    ('cpp-lin', cpp_extrap(0, a, ne), m_lin(a, ne))):
                rec.step()
                rec.valid()
                if got is None or not same(got, exp):
                    rec.fail(f'{k}:{ne}:{name}', f'{got} != {exp}')
            got = cpp_extrap(1, a, ne)
            rec.step()
            rec.valid()
            if any(p*q <= 0 for p, q in zip(a, a[1:])):
                if got is not None:
                    rec.fail(f'{k}:{ne}:cpp-loglin-sign', f'{a}: {got}')
            elif got is None or not same(got, m_loglin(a, ne)):
                rec.fail(f'{k}:{ne}:cpp-loglin',
                         f'{a}: {got} != {m_loglin(a, ne)}')


def check_case(key, payload, rec):
    """Verdicts of the array checks and sorting (Python and C++)."""
    first, n, alpha = payload
    for rest in itertools.product(alpha, repeat=n - 1):
        a = (first,) + rest
        x = np.array(a, float)
        k = f'{key}:{",".join(map(str, rest))}'
        rec.state(a)
        up = all(p <= q for p, q in zip(a, a[1:]))
        dn = all(p >= q for p, q in zip(a, a[1:]))
        d = [q - p for p, q in zip(a, a[1:])]
        lin = max(d) - min(d) <= 1e-9
        strict = a[0]*a[1] > 0 and a[-1]*a[-2] > 0
        allsign = all(p*q > 0 for p, q in zip(a, a[1:]))
        log = False
        if allsign:
            d = [math.log(q/p) for p, q in zip(a, a[1:])]
            log = max(d) - min(d) <= 1e-9
        exp = dict(check_sorted=None if up or dn else 'OrderError',
                   check_epsign=None if sign_ok(a) else 'MixedSignError',
                   check_lin=None if lin else 'SpacingError',
                   check_loglin='MixedSignError' if not strict else
                   None if log else 'SpacingError')
        for opt, want in exp.items():
            got, err = attempt(lambda: A._check_1d_array(x, **{opt: True}))
            rec.step()
            rec.valid()
            if err != want:
                rec.fail(f'{k}:{opt}', f'{a}: {err} != {want}')
        # 2-d checks on a separable table with this array as rows/columns
        t = np.array([x, x, x])
        for tt, nm in ((t, 'rows'), (t.T, 'cols')):
            got, err = attempt(lambda: A._check_2d_array(
                tt, check_sorted=True))
            want = exp['check_sorted']
            rec.step()
            rec.valid()
            if err != want:
                rec.fail(f'{k}:2d:{nm}', f'{a}: {err} != {want}')
        out = lib.C.c_int(0)
        for j, want in enumerate((
                0 if lin else 1,
                3 if any(p == 0 or q == 0 or p*q < 0 for p, q in
                         zip(a, a[1:])) else 0 if log else 2,
                0 if allsign else 3)):
            # a spacing mismatch may be met before a sign change
            ok = {want}
            if j == 1 and want == 3:
                ok = {3}
            lib.L().vt_check1d(lib.pD(x), n, int(j == 0), int(j == 1),
                               int(j == 2), lib.C.byref(out))
            rec.step()
            rec.valid()
            if out.value not in ok:
                rec.fail(f'{k}:cpp-check{j}', f'{a}: {out.value} not in {ok}')
        xi = np.array([int(2*v) for v in a], dtype=np.int32)
        o = np.zeros(n, dtype=np.int32)
        lib.L().vt_argsort(xi.ctypes.data_as(lib.C.c_void_p), n,
                           o.ctypes.data_as(lib.C.c_void_p))
        rec.step()
        rec.valid()
        if sorted(o.tolist()) != list(range(n)) \
                or (np.diff(xi[o]) < 0).any():
            rec.fail(f'{k}:argsort', f'{xi} -> {o}')


def oscil_case(key, payload, rec):
    first, n, alpha, next_ = payload
    for rest in itertools.product(alpha, repeat=n - len(first)):
        a = first + rest
        k = f'{key}:{",".join(map(str, rest))}'
        rec.state(a)
        exp = m_slope(a)
        for ne in next_:
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter('always')
                got, err = attempt(A.extrap_loglin_oscil, np.array(a), ne)
            rec.step()
            rec.valid()
            want = m_oscil(a, ne)
            if got is None or not same(got, want):
                rec.fail(f'{k}:{ne}', f'{a}: {got} {err} != {want}')
                continue
            t = got[:ne][::-1], got[n + ne:]
            for v, e in zip(t, (a[0], a[-1])):
                w = np.abs(np.concatenate([[e], v]))
                if not np.isfinite(w).all() or (np.diff(w) > 1e-12).any():
                    rec.fail(f'{k}:{ne}:diverge', f'{a}: {got}')
            cats = [w.category.__name__ for w in ws]
            nw = [w for _, w in exp]
            if None not in nw and cats.count('DivergenceWarning') != sum(nw):
                rec.fail(f'{k}:{ne}:warn', f'{a}: {cats} {exp}')
            if ('UserWarning' in cats) != (n < 8):
                rec.fail(f'{k}:{ne}:short', f'{a}: {cats}')


# -- 2-d --------------------------------------------------------------------
def two_case(key, payload, rec):
    """Row-wise then column-wise extension of every small table."""
    top, nr, nc, alpha, next_ = payload
    for rest in itertools.product(alpha, repeat=nr*nc - len(top)):
        v = top + rest
        t = np.array(v).reshape(nr, nc)
        k = f'{key}:{",".join(map(str, rest))}'
        rec.state(v)
        for ne in next_:
            exp = [m_lin(r, ne) for r in t.tolist()]
            exp = np.array([m_lin(c, ne) for c in np.array(exp).T]).T
            got, err = attempt(A.extrap2d_lin, t, ne)
            rec.step()
            rec.valid()
            if got is None or not same(got, exp):
                rec.fail(f'{k}:{ne}:lin', f'{got} {err} != {exp}')
            ok = all(sign_ok(r) for r in t.tolist()) and all(
                sign_ok(c) for c in t.T.tolist())
            got, err = attempt(A.extrap2d_loglin, t, ne)
            rec.step()
            rec.valid()
            if not ok:
                if err != 'MixedSignError':
                    rec.fail(f'{k}:{ne}:loglin-sign', f'{got} {err}')
            else:
                exp = [m_loglin(r, ne) for r in t.tolist()]
                if all(e is not None for e in exp):
                    exp = [m_loglin(c, ne) for c in np.array(exp).T]
                    if all(e is not None for e in exp):
                        if got is None or not same(got, np.array(exp).T):
                            rec.fail(f'{k}:{ne}:loglin',
                                     f'{got} {err} != {np.array(exp).T}')
            # padding
            for nm, args in (
                    ('scalar', (4., 4., 4., 4.)),
                    ('edges', (t[:, 0], t[:, -1], t[0], t[-1])),
                    ('mixed', (t[:, 0], t[:, -1], t[0].tolist(), t[-1])),
                    ('zero', (0., 0., 0., 0.))):
                got, err = attempt(A.extrap2d_pad, t, ne, *args)
                full = [np.broadcast_to(np.asarray(x, float), (m,))
                        for x, m in zip(args, (nr, nr, nc, nc))]
                exp = np.zeros((nr + 2*ne, nc + 2*ne))
                for i in range(nr + 2*ne):
                    for j in range(nc + 2*ne):
                        ii = min(max(i - ne, 0), nr - 1)
                        jj = min(max(j - ne, 0), nc - 1)
                        if i < ne:
                            e = full[2][jj]
                        elif i >= nr + ne:
                            e = full[3][jj]
                        elif j < ne:
                            e = full[0][ii]
                        elif j >= nc + ne:
                            e = full[1][ii]
                        else:
                            e = t[ii, jj]
                        exp[i, j] = e
                rec.step()
                rec.valid()
                if got is None or not same(got, exp):
                    rec.fail(f'{k}:{ne}:pad-{nm}', f'{got} {err} != {exp}')
            if not (t == np.array(v).reshape(nr, nc)).all():
                rec.fail(f'{k}:{ne}:input', 'input changed')


def pad_corner_case(key, payload, rec):
    """Inconsistent corner values are rejected, consistent ones accepted."""
    t = np.array([[1., 2., 3.], [4., 5., 6.]])
    for c in itertools.product((1., 2.), repeat=8):
        rl, ru = [c[0], c[1]], [c[2], c[3]]
        cl, cu = [c[4], 9., c[5]], [c[6], 9., c[7]]
        ok = c[0] == c[4] and c[2] == c[5] and c[1] == c[6] and c[3] == c[7]
        got, err = attempt(A.extrap2d_pad, t, 1, rl, ru, cl, cu)
        rec.state(c)
        rec.step()
        rec.valid()
        if (err == 'ValueError') == ok or (ok and got is None):
            rec.fail(f'{key}:{c}', f'{got} {err}')
    for bad in ([1.], [[[1., 2.]]*2]*2, 3., []):
        for f, args in ((A.extrap_pad, (1, 0., 0.)), (A.extrap_lin, (1,)),
                        (A.extrap_loglin, (1,)),
                        (A.extrap_loglin_oscil, (1,)),
                        (A.extrap2d_pad, (1, 0., 0., 0., 0.)),
                        (A.extrap2d_lin, (1,)), (A.extrap2d_loglin, (1,)),
                        (A.extrap2d_loglin_oscil, (1,))):
            got, err = attempt(f, np.array(bad), *args)
            rec.step()
            rec.valid()
            if err != 'ShapeError':
                rec.fail(f'{key}:shape:{f.__name__}:{bad}', f'{got} {err}')


def two_oscil_case(key, payload, rec):
    rows, cols, ne = payload
    t = np.outer(rows, cols)
    exp = [m_oscil(r, ne) for r in t.tolist()]
    exp = np.array([m_oscil(c, ne) for c in np.array(exp).T.tolist()]).T
    got, err = attempt(A.extrap2d_loglin_oscil, t, ne)
    rec.state((rows, cols, ne))
    rec.step()
    rec.valid()
    if got is None or not same(got, exp):
        rec.fail(key, f'{got} {err} != {exp}')


# -- reshaping --------------------------------------------------------------
def reshape_case(key, payload, rec):
    n, = payload
    for dt in (float, complex, int, 'list'):
        for shape in ('triu', 'full'):
            pairs = [(i, j) for i in range(n) for j in range(n)
                     if shape == 'full' or i <= j]
            x = np.array([.1*i + .05 for i in range(n)])
            pc = np.array([(x[i], x[j]) for i, j in pairs])
            val = [10*i + j + 1 for i, j in pairs]
            if dt is complex:
                val = [v - 1j*v*v for v in val]
            flat = val if dt == 'list' and shape == 'triu' \
                else np.array(val, dtype=None if dt == 'list' else dt)
            got = A.reshape_threept_datatab(pc, flat, shape=shape)
            rec.state((n, str(dt), shape))
            rec.step()
            rec.valid()
            exp = np.array([[val[pairs.index(
                (i, j) if shape == 'full' else (min(i, j), max(i, j)))]
                for j in range(n)] for i in range(n)])
            if not same(got[0], x):
                rec.fail(f'{key}:{dt}:{shape}:coords', f'{got[0]}')
            if np.shape(got[1]) != (n, n) or not np.allclose(got[1], exp):
                rec.fail(f'{key}:{dt}:{shape}', f'{got[1]} != {exp}')


def reshape_bad(key, payload, rec):
    m, = payload
    tri = {i*(i + 1)//2 for i in range(100)}
    sq = {i*i for i in range(100)}
    pc = np.arange(2.*m).reshape(m, 2)
    for shape, ok in (('triu', m in tri), ('full', m in sq),
                      ('tril', False), (None, False)):
        got, err = attempt(lambda: A.reshape_threept_datatab(
            pc, np.arange(float(m)), shape=shape)[1])
        rec.state((m, shape))
        rec.step()
        rec.valid()
        if ok != (err is None) or (not ok and err != 'ValueError'):
            rec.fail(f'{key}:{shape}', f'{err}')
    for f in (lambda: A.reshape_threept_datatab(pc, np.arange(m + 1.)),
              lambda: A.reshape_threept_datatab(np.arange(1.*m),
                                                np.arange(1.*m)),
              lambda: A.reshape_threept_datatab(pc[None], np.arange(1.))):
        got, err = attempt(f)
        rec.step()
        rec.valid()
        if err != 'ValueError':
            rec.fail(f'{key}:mismatch', f'{err}')


def main():
    ch = core.Check('P18')
    build.use_python_package()
    th = ch.tier == 'thorough'
    alpha = (-2., -1., 0., .5, 1., 3.)
    ch.run_cases('1-d extrapolation', [
        (f'one:{n}:{f}', (f, n, alpha, (0, 1, 3)))
        for n in ((2, 3, 4, 5) if th else (2, 3, 4)) for f in alpha],
        one_case, setup=setup)
    beta = (-2., -1., 0., .5, 1., 2., 4., 7.)
    ch.run_cases('array checks and sorting', [
        (f'chk:{n}:{f}', (f, n, beta)) for n in ((2, 3, 4, 5) if th
                                                 else (2, 3, 4))
        for f in beta], check_case, setup=setup)
    osc = [((a, b), n, al, ne)
           for n, al, ne in (
               (4, (-2., -.5, 0., 1., 3.), (0, 1, 3)),
               (5, (-2., -.5, 0., 1., 3.), (2,)),
               (7, (-1., 0., .5, 2.) if th else (-1., .5, 2.), (2,)),
               (8, (-1., .5, 2.), (1, 2)),
               (9, (-1., .5, 2.) if th else (-.5, 2.), (2,)),
               (12, (-1., .5, 2.) if th else (.5, 2.), (2,)))
           for a in al for b in al]
    ch.run_cases('oscillating extrapolation', [
        (f'osc:{n}:{f}', (f, n, al, ne)) for f, n, al, ne in osc],
        oscil_case, setup=setup, timeout=800)
    two = [(f, nr, nc, al, (0, 1, 2)) for nr, nc, al in (
        (2, 2, (-2., -1., 0., 1., 3.)), (2, 3, (-1., 1., 2.)),
        (3, 2, (-1., 1., 2.)), (3, 3, (-1., 1., 2.) if th else (1., 2.)))
        for f in itertools.product(al, repeat=2)]
    ch.run_cases('2-d extrapolation', [
        (f'two:{nr}x{nc}:{f}', (f, nr, nc, al, ne))
        for f, nr, nc, al, ne in two], two_case, setup=setup, timeout=800)
    ch.run_cases('2-d padding corners and shapes', [('corner', None)],
                 pad_corner_case, setup=setup)
    vec = [(1., 2., 4., 8., 4., 2., 1., .5), (1., -2., 3., 1., .5, .25, .1,
                                              .05, .02),
           (.1, .3, .2, 2., 1., 1.5, .2, .1, .3), (-1., -2., -4., -3., -2.,
                                                  -1., -.5, -.1),
           (0., 1., 2., 5., 3., 1., 0., 0.), (3., 2., 1., .5, .7, 2., 4., 8.)]
    ch.run_cases('2-d oscillating extrapolation', [
        (f'osc2:{i}:{j}:{ne}', (a, b, ne)) for i, a in enumerate(vec)
        for j, b in enumerate(vec) for ne in (1, 3)], two_oscil_case,
        setup=setup)
    ch.run_cases('reshaping', [
        (f'reshape:{n}', (n,)) for n in range(1, 31 if th else 13)],
        reshape_case, setup=setup)
    ch.run_cases('rejected shapes', [
        (f'bad:{m}', (m,)) for m in range(2, 200 if th else 60)],
        reshape_bad, setup=setup)
    return ch.finish(
        rule='a case is a length and leading entries; inside it every array '
        'over the alphabet is run through every function')
