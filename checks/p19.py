"""P19: multipoles, convolution formulae and three-point window containers."""
import copy
import itertools
import math
import os
import pickle
import warnings
from fractions import Fraction

import numpy as np

from vt import build as vtbuild, core, lib

W = None
EPS = 1e-9


def setup():
    global W
    lib.prepare('ext')
    warnings.simplefilter('ignore')
    import triumvirate.winconv as W_
    W = W_
    np.seterr(all='ignore')


# -- multipoles -------------------------------------------------------------
def forms(ix):
    """All documented ways of writing a multipole."""
    out = [tuple(ix), list(ix), tuple(map(str, ix)), W.Multipole(tuple(ix))]
    if len(ix) > 1:
        # (a lone number without commas is read digit by digit)
        out += [','.join(map(str, ix)), ', '.join(map(str, ix))]
    if all(i < 10 for i in ix):
        out.append(''.join(map(str, ix)))
    if len(ix) == 1:
        out.append(ix[0])
    else:
        out.append((str(ix[0]),) + tuple(ix[1:]))
    return out


def order_key(ix):
    return (ix[-1],) + tuple(ix[:-1])


def pole_case(key, payload, rec):
    a, others = payload
    ma = W.Multipole(a)
    for f in forms(a):
        m = W.Multipole(f)
        rec.step()
        rec.valid()
        if m.index != tuple(a) or not all(type(i) is int for i in m.index) \
                or m != ma or hash(m) != hash(ma):
            rec.fail(f'{key}:form:{f!r}', f'{m!r}')
        if m.abstr != ''.join(map(str, a)) \
                or str(m) != ','.join(map(str, a)) \
                or any(m[i] != a[i] for i in range(len(a))):
            rec.fail(f'{key}:repr:{f!r}', f'{m.abstr} {m} {m!r}')
    if len(a) > 1 and W.Multipole(str(ma)) != ma:
        rec.fail(f'{key}:roundtrip', str(ma))
    if ma == tuple(a) or ma == str(ma):
        rec.fail(f'{key}:eqtype', 'equal to a bare index')
    if pickle.loads(pickle.dumps(ma)) != ma or copy.deepcopy(ma) != ma:
        rec.fail(f'{key}:pickle', 'copies differ')
    rec.state(a)
    for b in others:
        mb = W.Multipole(b)
        rec.step()
        rec.valid()
        if len(a) != len(b):
            for op in ('__lt__', '__gt__'):
                try:
                    getattr(ma, op)(mb)
                except ValueError:
                    continue
                rec.fail(f'{key}:{b}:{op}', 'lengths differ')
            if ma == mb:
                rec.fail(f'{key}:{b}:eq', 'lengths differ')
            continue
        ka, kb = order_key(a), order_key(b)
        got = (ma < mb, ma > mb, ma <= mb, ma >= mb, ma == mb, ma != mb)
        exp = (ka < kb, ka > kb, ka <= kb, ka >= kb, ka == kb, ka != kb)
        if got != exp:
            rec.fail(f'{key}:{b}', f'{got} != {exp}')


def sort_case(key, payload, rec):
    poles, = payload
    exp = sorted(poles, key=order_key)
    for p in itertools.permutations(poles):
        got = [m.index for m in sorted(W.Multipole(x) for x in p)]
        rec.state(p)
        rec.step()
        rec.valid()
        if got != exp:
            rec.fail(f'{key}:{p}', f'{got}')


def bad_pole(key, payload, rec):
    for f in (None, 'a', '1,b', object(), (1, 'x'), [None], ''):
        try:
            m = W.Multipole(f)
        except (ValueError, TypeError):
            pass
        else:
            if m.index != ():
                rec.fail(f'{key}:{f!r}', f'{m!r}')
        rec.state(str(f)[:5])
        rec.step()
        rec.valid()


# -- coefficients -----------------------------------------------------------
GRID = {}


def tripo(l1, l2, L, n):
    """Tri-polar basis function of three directions, the third along z."""
    from scipy.special import sph_harm_y
    from sympy.physics.wigner import wigner_3j
    k = (l1, l2, L, n)
    if k in GRID:
        return GRID[k]
    x, w = np.polynomial.legendre.leggauss(n)
    ph = 2*np.pi*np.arange(n + 3)/(n + 3)
    th = np.arccos(x)

    def y(ell, m, t, p):
        return math.sqrt(4*math.pi/(2*ell + 1))*sph_harm_y(ell, m, t, p)
    out = 0.
    for m in range(-min(l1, l2), min(l1, l2) + 1):
        c = float(wigner_3j(l1, l2, L, m, -m, 0))
        if c:
            out = out + c*y(l1, m, th[:, None, None], ph) \
                * y(l2, -m, th[None, :, None], 0.)
    GRID[k] = out/float(wigner_3j(l1, l2, L, 0, 0, 0))
    GRID['w', n] = (w[:, None, None]*w[None, :, None]
                    * np.ones(len(ph))/4/len(ph))
    return GRID[k]


def coeff_case(key, payload, rec):
    a, poles, n = payload
    sa = tripo(*a, n)
    w = GRID['w', n]
    norm = (sa*sa.conj()*w).sum().real
    for b, c in itertools.product(poles, repeat=2):
        exp = (sa.conj()*tripo(*b, n)*tripo(*c, n)*w).sum()/norm
        got = W.calc_threept_winconv_coeff(a, b, c)
        rec.state((a, b, c))
        rec.step()
        rec.valid()
        rec.outcome(round(got, 9))
        if type(got) is not float or abs(got - exp) > 1e-10:
            rec.fail(f'{key}:{b}:{c}', f'{got} != {exp}')
    for b in poles:
        got = W.calc_threept_winconv_coeff(a, b, 'ic')
        rec.step()
        rec.valid()
        if got != (-1 if a == b else 0):
            rec.fail(f'{key}:{b}:ic', f'{got}')
        ref = W.calc_threept_winconv_coeff(a, b, a)
        fs = forms(a), forms(b)
        for i in range(max(map(len, fs))):
            fa, fb = (f[(i + j) % len(f)] for j, f in enumerate(fs))
            if W.calc_threept_winconv_coeff(fa, fb, fa) != ref:
                rec.fail(f'{key}:{b}:forms', f'{fa!r} {fb!r}')
            rec.step()
        s = W.calc_threept_winconv_coeff(a, b, a, symb=True)
        if not hasattr(s, 'evalf') or abs(float(s) - ref) > 1e-12:
            rec.fail(f'{key}:{b}:symb', f'{s!r}')


def named_case(key, payload, rec):
    """Named formulae hold the coefficients of the products of the bases."""
    name, = payload
    from sympy.physics.wigner import wigner_3j
    f = W.WinConvFormulae(W.NAMED_FORMULAE[name])
    want = {'wilson+16': [(0,), (2,), (4,)],
            'sugiyama+19': [(0, 0, 0), (1, 1, 0), (1, 1, 2), (2, 0, 2)]}
    if [m.index for m in f.multipoles] != want[name]:
        rec.fail(f'{key}:poles', f'{f.multipoles}')
    terms = {
        'wilson+16': {0: '00 22 44', 2: '20 02 22 42 24 44 64',
                      4: '40 22 42 62 04 24 44 64 84'},
        'sugiyama+19': {
            '000': '000:000 000:ic 110:110',
            '110': '000:110 110:000 110:ic',
            '202': '000:202 202:000 202:ic 110:112 112:110',
            '112': '000:112 112:000 112:ic 022:110 202:110 110:022 '
                   '110:202'}}[name]
    for m in f.multipoles:
        seen = set()
        for t in f[m]:
            k = (t.multipole_Q, str(t.multipole_Z))
            if k in seen:
                rec.fail(f'{key}:{m}:repeat', f'{t}')
            seen.add(k)
            if name == 'wilson+16':
                exp = (2*m[0] + 1)*float(wigner_3j(
                    m[0], t.index_Q[0], t.index_Z[0], 0, 0, 0))**2
            elif t.multipole_Z == 'ic':
                exp = -1. if t.multipole_Q == m else 0.
            else:
                n = 12
                sa = tripo(*m.index, n)
                w = GRID['w', n]
                exp = ((sa.conj()*tripo(*t.index_Q, n)*tripo(*t.index_Z, n)
                        * w).sum()/(sa*sa.conj()*w).sum()).real
            rec.state((m.index, t.index_Q, t.index_Z))
            rec.step()
            rec.valid()
            if abs(float(t.coeff) - exp) > 1e-10:
                rec.fail(f'{key}:{m}:{t}', f'{float(t.coeff)} != {exp}')
        raw = terms[m[0] if name == 'wilson+16' else m.abstr].split()
        wanted = {tuple(x.split(':')) if ':' in x else (x[0], x[1])
                  for x in raw}
        have = {(t.multipole_Q.abstr, t.multipole_Z if t.multipole_Z == 'ic'
                 else t.multipole_Z.abstr) for t in f[m]}
        if have != wanted:
            rec.fail(f'{key}:{m}:terms', f'{have ^ wanted}')


# -- formulae ---------------------------------------------------------------
def tex(terms):
    out = ''
    for q, z, c in terms:
        c = Fraction(c)
        s = '' if abs(c) == 1 else (
            str(abs(c.numerator)) if c.denominator == 1 else
            '\\frac{%d}{%d}' % (abs(c.numerator), c.denominator))
        t = ' '.join(x for x in (
            s, 'Q_{%s}' % ''.join(map(str, q)),
            '\\zeta_\\mathrm{ic}' if z == 'ic' else
            '\\zeta_{%s}' % ''.join(map(str, z))) if x)
        out += (' - ' if c < 0 else ' + ') + t
    out = out[3:] if out.startswith(' + ') else out[1:]
    return out


def formulae_case(key, payload, rec):
    poles, coeffs, nterm, conf = payload
    alias = [lambda x: x, lambda x: ','.join(map(str, x)),
             lambda x: ''.join(map(str, x)), lambda x: W.Multipole(x)][conf]
    zs = list(poles) + ['ic']
    uni = list(itertools.product(poles[:2], zs))
    i = 0
    for sel in itertools.permutations(uni, nterm):
        for m2 in (None,) + tuple(poles):
            i += 1
            cs = [coeffs[(i + j) % len(coeffs)] for j in range(nterm)]
            terms = [(q, z, c) for (q, z), c in zip(sel, cs)]
            spec = {poles[-1]: terms}
            if m2 is not None and m2 != poles[-1]:
                spec[m2] = [(poles[-1], poles[0], Fraction(-2, 7))]
            al = {}
            for m, ts in spec.items():
                al[alias(m)] = [
                    (alias(q), z if z == 'ic' else alias(z), c)
                    if j % 2 else
                    W.WinConvTerm(alias(q), z if z == 'ic' else alias(z), c)
                    for j, (q, z, c) in enumerate(ts)]
            f = W.WinConvFormulae(al)
            k = f'{key}:{i}'
            rec.state((tuple(map(str, terms)), m2))
            rec.step()
            rec.valid()
            exp = sorted(spec, key=order_key)
            if [m.index for m in f.multipoles] != exp:
                rec.fail(f'{k}:poles', f'{f.multipoles} != {exp}')
            exp = sorted({t[0] for ts in spec.values() for t in ts},
                         key=order_key)
            if [m.index for m in f.multipoles_Q] != exp:
                rec.fail(f'{k}:Q', f'{f.multipoles_Q} != {exp}')
            z = {t[1] for ts in spec.values() for t in ts}
            exp = sorted(z - {'ic'}, key=order_key) + sorted(z & {'ic'})
            got = [m if isinstance(m, str) else m.index
                   for m in f.multipoles_Z]
            if got != exp:
                rec.fail(f'{k}:Z', f'{got} != {exp}')
            d = f.get_dict()
            for m, ts in spec.items():
                for form in forms(m):
                    g = f[form]
                    if [(t.index_Q, t.index_Z, Fraction(str(t.coeff)))
                            for t in g] != [
                                (q, z, Fraction(c)) for q, z, c in ts]:
                        rec.fail(f'{k}:{m}:{form!r}', f'{g} != {ts}')
                if d[W.Multipole(m)] != f[m]:
                    rec.fail(f'{k}:{m}:dict', f'{d}')
                got = f.get_latex_expr(m)
                if got != tex(ts):
                    rec.fail(f'{k}:{m}:latex', f'{got!r} != {tex(ts)!r}')
                rec.valid(3)
            d[W.Multipole(poles[-1])].clear()
            if len(f[poles[-1]]) != nterm:
                rec.fail(f'{k}:alias', 'get_dict is not a copy')


def term_case(key, payload, rec):
    """Equality and zero-coefficient warnings of terms."""
    ts = [((0, 0, 0), 'ic', -1), ((0, 0, 0), (0, 0, 0), -1),
          ((1, 1, 0), 'ic', -1), ((0, 0, 0), 'ic', 1),
          ((0, 0, 0), 'ic', 0), ((1, 1, 0), (1, 1, 0), Fraction(1, 3)),
          ((1, 1, 0), (1, 1, 0), '1/3'), ((1, 1, 0), (1, 1, 0), '2/3'),
          ((1, 1, 0), (0, 0, 0), Fraction(1, 3)), ((0, 0, 0), 'ic', '0')]
    objs = []
    for t in ts:
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            objs.append(W.WinConvTerm(*t))
        zero = float(Fraction(t[2])) == 0
        if bool([w for w in ws if w.category is RuntimeWarning]) != zero:
            rec.fail(f'{key}:{t}:warn', f'{ws}')
    for (a, x), (b, y) in itertools.product(zip(ts, objs), repeat=2):
        exp = a[:2] == b[:2] and Fraction(a[2]) == Fraction(b[2])
        rec.state((a, b))
        rec.step()
        rec.valid()
        if (x == y) != exp or (x != y) == exp:
            rec.fail(f'{key}:{a}:{b}', f'{x == y}')


# -- three-point windows ----------------------------------------------------
class Model:
    """r[m], Q[m], in terms of plain arrays."""

    def __init__(self, r, q, src):
        self.r, self.q, self.src = r, q, src

    def copy(self):
        return Model({m: v.copy() for m, v in self.r.items()},
                     {m: v.copy() for m, v in self.q.items()},
                     list(self.src))

    def select(self, keep):
        for m in self.r:
            k = keep(m)
            self.r[m] = self.r[m][k]
            self.q[m] = self.q[m][np.ix_(k, k)]

    def resample(self, kind, size, spline):
        from scipy.interpolate import RectBivariateSpline
        for m in self.r:
            x = self.r[m]
            n = len(x) if size is None else size
            y = [x[0]*(x[-1]/x[0])**(i/(n - 1)) if kind == 'lglin'
                 else x[0] + (x[-1] - x[0])*i/(n - 1) for i in range(n)]
            self.q[m] = RectBivariateSpline(
                x, x, self.q[m], kx=spline, ky=spline)(y, y)
            self.r[m] = np.array(y)


POLES = [(0, 0, 0), (1, 1, 0), (2, 0, 2)]
NR = 7


def points(kind, i=0):
    if kind == 'log':
        return 10.*1.5**np.arange(NR)*(1 + .1*i)
    if kind == 'lin':
        return 10. + 12.*np.arange(NR) + i
    return np.array([10., 14., 25., 31., 50., 80., 90.]) + i


def table(m, r):
    """Distinct, smooth samples; symmetric only for equal degrees."""
    x, y = np.meshgrid(r, r, indexing='ij')
    a, b, c = m
    q = np.exp(-(x + y)/60.)*(1 + .3*a + .1*c) + .001*x*y/(1 + c)
    return q + (.002*x if a != b else 0.)


def flat(m, r):
    q = table(m, r)
    n = len(r)
    idx = [(i, j) for i in range(n) for j in range(n)
           if m[0] != m[1] or i <= j]
    return (np.array([(r[i], r[j]) for i, j in idx]),
            np.array([q[i, j] for i, j in idx]))


def build(conf, rec=None):
    """Construct a window and its model."""
    kind, common, loglin, alpha, names = conf
    rs = {m: points(kind, 0 if common else i) for i, m in enumerate(POLES)}
    poles = POLES[:2] if common == 2 else POLES
    nm = {m: [m, ''.join(map(str, m)), ','.join(map(str, m)),
              W.Multipole(m)][names] for m in poles}
    fl = {nm[m]: flat(m, rs[m])[1] for m in reversed(poles)}
    ps = flat(poles[0], rs[poles[0]])[0] if common == 2 else {
        nm[m]: flat(m, rs[m])[0] for m in poles}
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        w = W.ThreePointWindow(ps, fl, alpha_contrast=alpha,
                               make_loglin=loglin)
    md = Model({m: rs[m].copy() for m in poles},
               {m: alpha**2*table(m, rs[m]) for m in poles},
               ['array']*len(poles))
    if kind != 'log':
        if loglin is not False:
            md.resample('lglin', None if loglin is True else loglin, 3)
        elif rec is not None and not ws:
            rec.fail('warn', 'no warning of the spacing')
    return w, md


def compare(w, md):
    poles = sorted(md.r, key=order_key)
    if [m.index for m in w.multipoles] != poles:
        return f'multipoles {w.multipoles} != {poles}'
    for name, d in (('r', w.r), ('Q', w.Q), ('Q_diag', w.Q_diag)):
        if not isinstance(d, dict) or {m.index for m in d} != set(poles):
            return f'keys of {name}: {d}'
    for m in poles:
        p = W.Multipole(m)
        for name, got, exp in (('r', w.r[p], md.r[m]),
                               ('Q', w.Q[p], md.q[m]),
                               ('diag', w.Q_diag[p], np.diag(md.q[m]))):
            if np.shape(got) != np.shape(exp) \
                    or not np.allclose(got, exp, rtol=1e-9, atol=1e-13):
                return f'{name} of {m}: {got} != {exp}'
    if list(w.sources) != list(md.src):
        return f'sources {w.sources} != {md.src}'
    return ''


def ops(full):
    """Operations (name, apply) on (window, model) -> (window, model)."""
    out = []

    def sel(name, rr, ii):
        def keep(md):
            def k(m):
                r = md.r[m]
                a = rr.get(m, (None, None)) if isinstance(rr, dict) \
                    else rr or (None, None)
                b = ii.get(m, (None, None)) if isinstance(ii, dict) \
                    else ii or (None, None)
                ids = range(len(r))[slice(*b)]
                return np.array([i for i in ids
                                 if (a[0] is None or r[i] >= a[0])
                                 and (a[1] is None or r[i] <= a[1])],
                                dtype=int)
            return k

        def kw():
            d = {}
            if rr is not None:
                d['rrange'] = {''.join(map(str, k)): v
                               for k, v in rr.items()} \
                    if isinstance(rr, dict) else rr
            if ii is not None:
                d['idxrange'] = {W.Multipole(k): v for k, v in ii.items()} \
                    if isinstance(ii, dict) else ii
            return d

        def new(w, md):
            n = w.subselect(**kw())
            m = md.copy()
            m.select(keep(md))
            return n, m

        def place(w, md):
            r = w.subselect(inplace=True, **kw())
            assert r is None
            md.select(keep(md.copy()))
            return w, md
        out.append((f'new-{name}', new))
        out.append((f'place-{name}', place))

    # ends on sample points in between
    sel('r', (22., 70.), None)
    sel('i', None, (1, None))
    sel('rd', {(0, 0, 0): (None, 58.)}, None)
    sel('ri', (None, 80.), (None, -1))
    sel('id', None, {(1, 1, 0): (0, 6, 2)})
    if full:
        sel('none', None, None)
        sel('rlo', (11.5, None), None)
        sel('id', None, {(1, 1, 0): (0, 6, 2)})
        sel('rdlo', {(1, 1, 0): (22., 70.)}, None)
        sel('rid', {(1, 1, 0): (11., None)}, {(0, 0, 0): (None, -1)})
        sel('step', None, (None, None, 2))

    def res(kind, size, spline):
        def f(w, md):
            assert w.resample(spacing=kind, size=size, spline=spline) is None
            md.resample(kind, size, spline)
            return w, md
        out.append((f'resample-{kind}-{size}-{spline}', f))
    res('lglin', None, 3)
    res('lin', 6, 2)
    if full:
        res('lglin', 9, 1)
        res('lin', None, 3)

    def save(w, md):
        w.save_to_file('w.npz')
        n = W.ThreePointWindow.load_from_file('w.npz')
        os.unlink('w.npz')
        if not isinstance(n.multipoles, list) \
                or not isinstance(n.sources, list):
            raise AssertionError('lists became '
                                 f'{type(n.multipoles)} {type(n.sources)}')
        return n, md.copy()

    def dic(w, md):
        n = W.ThreePointWindow.load_from_dict(
            {'r': {m: v for m, v in w.r.items()},
             'Q': {m.abstr: v for m, v in w.Q.items()},
             'sources': [f'source{i}' for i, _ in enumerate(w.multipoles)]})
        m = md.copy()
        m.src = [f'source{i}' for i, _ in enumerate(m.r)]
        return n, m
    out += [('save-load', save), ('from-dict', dic)]
    return out


def window_case(key, payload, rec):
    conf, depth, full, first = payload
    table_ = dict(ops(full))
    names = [n for n, _ in ops(full)]
    w, md = build(conf, rec)
    msg = compare(w, md)
    rec.step()
    rec.valid()
    if msg:
        rec.fail(f'{key}:build', msg)
        return
    for rest in itertools.product(names, repeat=depth - 1):
        w, md = build(conf)
        old = []
        for i, n in enumerate((first,) + rest):
            k = f'{key}:{">".join((first,) + rest[:i])}'
            if min(len(v) for v in md.r.values()) < 4 and 'res' in n:
                break
            prev = (w, md.copy())
            w, md = table_[n](w, md)
            rec.step()
            if rec.state((conf, first) + rest[:i]):
                rec.valid()
                msg = compare(w, md)
                if msg:
                    rec.fail(k, msg)
                    return
                if w is not prev[0]:
                    msg = compare(*prev)
                    if msg:
                        rec.fail(f'{k}:original', msg)
                        return
            if w is not prev[0]:
                old.append(prev)
            if min(len(v) for v in md.r.values()) < 1:
                break
        for p in old:
            msg = compare(*p)
            if msg:
                rec.fail(f'{key}:{first}:{rest}:earlier', msg)
                return


def common_r_case(key, payload, rec):
    """Sample points given once for all multipoles when loading."""
    r = points('log')
    for poles in ([(0, 0, 0)], [(1, 1, 0), (0, 0, 0)], POLES):
        d = {'r': r, 'Q': {''.join(map(str, m)): table(m, r)
                           for m in poles}}
        w = W.ThreePointWindow.load_from_dict(d)
        md = Model({m: r for m in poles}, {m: table(m, r) for m in poles},
                   ['array']*len(poles))
        rec.state(str(poles))
        rec.step()
        rec.valid()
        msg = compare(w, md)
        if msg:
            rec.fail(f'{key}:{poles}', msg)
        n = w.subselect(rrange=(12., 60.))
        md.select(lambda m: np.array([i for i, x in enumerate(r)
                                      if 12 <= x <= 60]))
        msg = compare(n, md)
        if msg:
            rec.fail(f'{key}:{poles}:select', msg)


def text_case(key, payload, rec):
    """Windows loaded from measurement files."""
    shot, alpha, loglin, kind, names = payload
    files = {}
    rs, raw, sh = {}, {}, {}
    for i, m in enumerate(POLES):
        r = rs[m] = points(kind, i)
        p, raw[m] = flat(m, r)
        sh[m] = .01*np.arange(len(p)) + i
        cols = np.column_stack([p[:, 0] + .5, p[:, 0], 0*p[:, 0] + 3,
                                p[:, 1] + .5, p[:, 1], 0*p[:, 0] + 4,
                                raw[m], 0*raw[m] - 9, sh[m], 0*raw[m] - 8])
        fn = 'w' + ''.join(map(str, m[::-1])) + str(2 - i) + '.txt'
        np.savetxt(fn, cols, fmt='%.17e', header='a\nb')
        nm = [m, ''.join(map(str, m)), W.Multipole(m)][
            i % 3 if names == 3 else names]
        files[nm] = fn
    items = list(files.items())
    for perm in itertools.permutations(range(3)):
        fp = dict(items[i] for i in perm)
        kw = dict(alpha_contrast=alpha, make_loglin=loglin,
                  subtract_shotnoise=shot)
        if not shot:
            kw['usecols'] = (1, 4, 6)
        elif perm[0]:
            kw['usecols'] = (1, 4, 6, 8)
        rec.state((payload, perm))
        rec.step()
        rec.valid()
        w = W.ThreePointWindow.load_from_textfiles(fp, **kw)
        q = {}
        for m in POLES:
            f = raw[m] - (sh[m] if shot else 0.)
            n = len(rs[m])
            t = np.zeros((n, n))
            it = iter(f)
            for i in range(n):
                for j in range(n):
                    if m[0] != m[1] or i <= j:
                        t[i, j] = next(it)
                        if m[0] == m[1]:
                            t[j, i] = t[i, j]
            q[m] = alpha**2*t
        md = Model({m: rs[m].copy() for m in POLES}, q,
                   [files[k] for m in sorted(POLES, key=order_key)
                    for k in files if W.Multipole(k).index == m])
        if loglin and kind != 'log':
            md.resample('lglin', None if loglin is True else loglin, 3)
        msg = compare(w, md)
        if msg:
            rec.fail(f'{key}:{perm}', msg)
    for bad in ((1, 4, 6) if shot else (1, 4, 6, 8), (1, 4)):
        try:
            W.ThreePointWindow.load_from_textfiles(
                files, subtract_shotnoise=shot, usecols=bad)
        except ValueError:
            pass
        else:
            rec.fail(f'{key}:cols:{bad}', 'accepted')


def reject_case(key, payload, rec):
    r = points('log')
    for m in POLES:
        p, f = flat(m, r)
        for name, args in (
                ('short', (p, {m: f[:-1]})), ('long', (p, {m: list(f) + [1]})),
                ('1d', (p[:, 0], {m: f})), ('both', (p[:-1], {m: f[:-1]})),
                ('dict', ({m: p[:-1]}, {m: f}))):
            rec.state((m, name))
            rec.step()
            rec.valid()
            try:
                W.ThreePointWindow(*args)
            except ValueError:
                continue
            rec.fail(f'{key}:{m}:{name}', 'accepted')
    w, _ = build(('log', 0, True, 1., 0))
    for f in (lambda: w.resample(spacing='log'),):
        try:
            f()
        except ValueError:
            continue
        rec.fail(f'{key}:spacing', 'accepted')


def main():
    ch = core.Check('P19')
    vtbuild.use_python_package()
    th = ch.tier == 'thorough'
    nd = 6 if th else 4
    one = [(i,) for i in range(13)]
    two = [(i, j) for i in range(3) for j in range(3)]
    three = list(itertools.product(range(nd), repeat=3)) + [
        (0, 0, 10), (10, 0, 0), (0, 11, 2), (2, 10, 11)]
    ch.run_cases('multipoles', [
        (f'pole:{a}', (a, one + two + three)) for a in one + two + three],
        pole_case, setup=setup)
    sets = [[(0, 0, 0), (1, 1, 0), (2, 0, 2), (0, 2, 2), (1, 1, 2),
             (2, 2, 0)],
            [(0, 0, 0), (0, 1, 1), (1, 0, 1), (1, 2, 1), (1, 1, 1)],
            [(4,), (0,), (2,), (10,), (1,)]]
    ch.run_cases('sorting', [(f'sort:{i}', (s,))
                             for i, s in enumerate(sets)], sort_case,
                 setup=setup)
    ch.run_cases('invalid multipoles', [('badpole', None)], bad_pole,
                 setup=setup)
    lm = 4 if th else 2
    poles = [(a, b, c) for a in range(lm + 1) for b in range(lm + 1)
             for c in range(abs(a - b), min(a + b, lm) + 1)
             if (a + b + c) % 2 == 0]
    ch.run_cases('coefficients', [
        (f'coeff:{a}', (a, poles, 14 if th else 8)) for a in poles],
        coeff_case, setup=setup, timeout=850)
    ch.run_cases('named formulae', [
        (f'named:{n}', (n,)) for n in ('wilson+16', 'sugiyama+19')],
        named_case, setup=setup)
    co = (1, -1, Fraction(1, 3), Fraction(-2, 5), 3, -4, '2/7')
    ch.run_cases('formulae', [
        (f'formulae:{n}:{i}:{c}', (p, co, n, c))
        for i, p in enumerate(([(0, 0, 0), (1, 1, 0), (2, 0, 2)],
                               [(2,), (0,), (4,)],
                               [(0, 2, 2), (1, 1, 0), (2, 0, 2), (1, 1, 2)]))
        for n in (1, 2, 3) for c in range(4)], formulae_case, setup=setup)
    ch.run_cases('terms', [('terms', None)], term_case, setup=setup)
    confs = [(k, c, g, a, n) for k in ('log', 'lin', 'odd')
             for c in (0, 1, 2) for g in (True, False, 5)
             for a, n in ((1., 0), (.3, 1), (1., 2), (.5, 3))]
    ch.run_cases('window construction', [
        (f'win:{c}:{f}', (c, 1, True, f)) for c in confs
        for f in ('save-load', 'new-r', 'place-rid', 'from-dict')],
        window_case, setup=setup)
    names = [n for n, _ in _ops_names(th)]
    sel = [('log', 0, True, 1., 0), ('lin', 1, True, .3, 1),
           ('odd', 2, False, .5, 3)]
    ch.run_cases('window histories', [
        (f'hist:{c}:{f}', (c, 4 if th else 3, th, f)) for c in sel
        for f in names], window_case, setup=setup, timeout=850)
    ch.run_cases('common sample points', [('common', None)], common_r_case,
                 setup=setup)
    ch.run_cases('windows from text files', [
        (f'text:{s}:{a}:{g}:{k}:{n}', (s, a, g, k, n))
        for s in (True, False) for a in (1., .1) for g in (True, False, 6)
        for k in ('log', 'odd') for n in range(4)], text_case, setup=setup)
    ch.run_cases('rejected windows', [('reject', None)], reject_case,
                 setup=setup)
    return ch.finish(
        rule='all multipoles of bounded degree, all formulae of up to three '
        'terms over a universe of terms and all operation histories on '
        'windows up to a depth')


def _ops_names(full):
    return ops(full)
