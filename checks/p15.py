"""P15: catalogue files hold the same particles for every reader."""
import ctypes
import itertools
import logging
import math
import os
import shutil
import tempfile
import warnings

import numpy as np

from vt import build, core, lib

NAMES = ('x', 'y', 'z', 'nz', 'ws', 'wc')
ROWS = [(1.5, -2.25, 1e3, 4e-4, .75, .5),
        (-7.125, 1/3, 12., 1e-5, 1.25, 3.),
        (0., 5e-7, -880.0625, .02, 2., .1),
        (123456.789, .1, -.3, 7e-3, .9, 1.1)]
BAD = object()


class Tmp:
    def __enter__(self):
        self.d = tempfile.mkdtemp()
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d)

    def put(self, name, text):
        f = os.path.join(self.d, name)
        with open(f, 'w', newline='') as fd:
            fd.write(text)
        return f


def parse(text, cols):
    """Rows of numbers by column name, or BAD if a column is missing."""
    if any(a not in cols for a in 'xyz'):
        return BAD
    out = []
    for line in text.replace('\r\n', '\n').split('\n'):
        line = line.strip(' \t')
        if not line or line[0] == '#':
            continue
        row = []
        for tok in line.split():
            try:
                row.append(float(tok))
            except ValueError:
                break
        r = []
        for n in NAMES:
            if n in cols:
                if cols.index(n) >= len(row):
                    return BAD
                r.append(row[cols.index(n)])
            else:
                r.append(None)
        out.append(r)
    return out


def particles(texts, cols, volume):
    rows = []
    for t in texts:
        p = parse(t, cols)
        if p is BAD:
            return BAD
        rows += p
    if not rows:
        return BAD
    nz = len(rows)/volume if volume > 0 else 0.
    dflt = (None, None, None, nz, 1., 1.)
    rows = [[d if v is None else v for v, d in zip(r, dflt)] for r in rows]
    return np.array([r + [r[4]*r[5]] for r in rows])


def check_cat(got, props, exp):
    if got.shape != exp.shape or not (got == exp).all():
        return f'{got.tolist()} not {exp.tolist()}'
    n = len(exp)
    for k, col in (('wtotal', 6), ('wstotal', 4)):
        if abs(props[k] - math.fsum(exp[:, col])) > 1e-14*n*np.abs(
                exp[:, col]).sum():
            return f'{k} {props[k]}'
    lo, hi = exp[:, :3].min(0), exp[:, :3].max(0)
    if props['ntotal'] != n or not (
            (props['pos_min'] == lo).all() and (props['pos_max'] == hi).all()
            and (props['pos_span'] == hi - lo).all()):
        return f'{props}'
    return ''


def load(c, path, cols, volume=0.):
    return lib.L().vt_cat_load_file(
        lib.V(c.p), path.encode(), ','.join(cols).encode(),
        ctypes.c_double(volume))


def try_cpp(t, texts, cols, volume, key, rec, names=None, tail=''):
    paths = []
    for i, x in enumerate(texts):
        paths.append(t.put(names[i] if names else f'c{i}.dat', x)
                     if x is not None else os.path.join(t.d, 'none'))
    exp = BAD if any(x is None for x in texts) else particles(
        texts, cols, volume)
    rec.step()
    rec.valid()
    c = lib.Cat()
    rc = load(c, '::'.join(paths) + tail, cols, volume)
    rec.outcome((exp is BAD, bool(rc)))
    what = f'{cols} {texts!r}'[:600]
    if exp is BAD:
        if not rc:
            rec.fail(f'{key}:accepted', what)
    elif rc:
        rec.fail(f'{key}:rejected', f'{what} {lib.L().vt_err()!r}')
    else:
        s = check_cat(c.get()[:, :7], c.props(), exp)
        if s:
            rec.fail(f'{key}:differs', f'{what}: {s}'[:1500])
    return exp


def fmt(r, cols, junk=9.75, f=repr):
    return ' '.join(f(r[NAMES.index(c)]) if c in NAMES else f(junk)
                    for c in cols)


def specs():
    o = []
    for k in range(4):
        for sub in itertools.combinations(NAMES[3:], k):
            o += itertools.permutations(NAMES[:3] + sub)
    return o


def setup():
    global C, PK
    import triumvirate.catalogue as C_
    import triumvirate._vtpeek as PK_
    C, PK = C_, PK_
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    lib.L()


def py_view(cat):
    """Rows, totals and extents of a Python catalogue and its C++ twin."""
    got = np.array([np.asarray(cat[n], float) for n in NAMES]).T
    rows, wt, ws, lo, hi = PK.peek_catalogue(cat._convert_to_cpp_catalogue())
    return got, np.array(rows), wt, ws, lo, hi


def check_py(cat, exp):
    got, rows, wt, ws, lo, hi = py_view(cat)
    if got.shape != exp[:, :6].shape or not (got == exp[:, :6]).all():
        return f'Python: {got.tolist()} not {exp[:, :6].tolist()}'
    if not (rows == exp).all():
        return f'C++ twin: {rows.tolist()} not {exp.tolist()}'
    if len(cat) != len(exp) or cat.ntotal != len(exp):
        return f'ntotal {cat.ntotal}'
    for nm, a, col in (('wtotal', cat.wtotal, 6), ('wtotal C++', wt, 6),
                       ('wstotal', cat.wstotal, 4), ('wstotal C++', ws, 4)):
        if abs(a - math.fsum(exp[:, col])) > 1e-14*len(exp)*np.abs(
                exp[:, col]).sum():
            return f'{nm} {a}'
    mn, mx = exp[:, :3].min(0), exp[:, :3].max(0)
    for i, a in enumerate('xyz'):
        if tuple(cat.bounds[a]) != (mn[i], mx[i]) or \
                cat.spans[a] != mx[i] - mn[i] or (lo[i], hi[i]) != (
                    mn[i], mx[i]):
            return f'bounds {cat.bounds} {cat.spans} {lo} {hi}'
    return ''


def columns_case(key, payload, rec):
    """Every order of every set of columns, with other columns among them."""
    part, n = payload
    with Tmp() as t:
        for cols in specs()[part::n]:
            variants = [cols]
            for i in range(len(cols) + 1):
                variants.append(cols[:i] + ('id',) + cols[i:])
            variants.append(('a', *cols, 'b', 'x'))  # the first of its name
            variants += [cols[:i] + cols[i + 1:] for i in range(len(cols))]
            variants += [tuple('u' if c == a else c for c in cols)
                         for a in cols]
            for v in variants:
                rec.state(('cols', v))
                text = '\n'.join(fmt(r, v) for r in ROWS)
                try_cpp(t, [text + '\n'], v, 0., f'{key}:{v}', rec)
                if len(v) > len(cols) - 1 + ('id' in v) and 'a' not in v:
                    # a column beyond the end of the rows
                    rec.state(('cols+', v))
                    try_cpp(t, [text], v + ('q',), 0., f'{key}:{v}:long', rec)
                    k = NAMES[3] if NAMES[3] not in v else 'q'
                    try_cpp(t, [text], v + (k,), 0., f'{key}:{v}:{k}', rec)


LINES = {
    'row': lambda r: fmt(r, NAMES[:4]) + '\n',
    'row2': lambda r: fmt(r, NAMES[:4], f='{:.17e}'.format) + '\n',
    'wide': lambda r: '  \t' + fmt(r, NAMES[:4]).replace(' ', ' \t  ')
    + '\t \n',
    'crlf': lambda r: fmt(r, NAMES[:4]) + '\r\n',
    'more': lambda r: fmt(r, NAMES[:4] + ('id', 'id')) + '\n',
    'comment': lambda r: '# ' + fmt(r, NAMES[:4]) + '\n',
    'comment2': lambda r: '#' + fmt(r, NAMES[:4]) + '\n',
    'indented': lambda r: '  # ' + fmt(r, NAMES[:4]) + '\n',
    'inline': lambda r: fmt(r, NAMES[:4]) + ' # 5 6\n',
    'blank': lambda r: '\n',
    'spaces': lambda r: '   \n',
    'tab': lambda r: '\t\n',
    'cr': lambda r: '\r\n',
    'hash': lambda r: '#\n',
    'short': lambda r: fmt(r, NAMES[:3]) + '\n',
    'words': lambda r: 'x y z nz\n',
    'commas': lambda r: fmt(r, NAMES[:4]).replace(' ', ', ') + '\n',
}
SHARED = ('row', 'row2', 'wide', 'crlf', 'comment', 'comment2', 'indented',
          'blank', 'spaces', 'tab', 'cr', 'hash')


def lines_case(key, payload, rec):
    """Every sequence of kinds of lines up to a length."""
    first, depth = payload
    with Tmp() as t:
        for n in range(depth):
            for rest in itertools.product(LINES, repeat=n):
                seq = (first, *rest)
                text = ''.join(LINES[k](r) for k, r in zip(seq, ROWS))
                for end in (True, False):
                    if not end:
                        text = text.rstrip('\r\n')
                    rec.state((seq, end))
                    exp = try_cpp(t, [text], NAMES[:4], 0.,
                                  f'{key}:{seq}:{end}', rec)
                    if n < 3 and end and exp is not BAD and all(
                            k in SHARED for k in seq):
                        rec.step()
                        f = t.put('p.dat', text)
                        cat = C.ParticleCatalogue.read_from_file(
                            f, names=NAMES[:4])
                        s = check_py(cat, exp)
                        if s:
                            rec.fail(f'{key}:{seq}:python', s[:1500])


def split_case(key, payload, rec):
    """Every distribution of lines over the files of a list."""
    n, = payload
    cols = NAMES
    row = [fmt(r, cols) + '\n' for r in ROWS]
    pieces = [row[0], '', '# c\n', row[1] + row[2], '# d\n\n' + row[3],
              row[3].rstrip('\n'), None, '1 2\n']
    with Tmp() as t:
        for combo in itertools.product(range(len(pieces)), repeat=n):
            for tail in ('', '::'):
                rec.state((combo, tail))
                try_cpp(t, [pieces[i] for i in combo], cols, 0.,
                        f'{key}:{combo}:{tail}', rec, tail=tail)


TOKENS = ['0', '-0', '1', '+1', '007', '1.', '.5', '-.5', '+.25', '1e3',
          '1E3', '1e+3', '1e-3', '-2.5E-07', '3.141592653589793238462643',
          '123456789012345678901234567890', '1e-300', '1e300',
          '1.7976931348623157e308', '0.1', '1e0', '0.000000001',
          '99999.99999999999', '2.2250738585072014e-308']


def tokens_case(key, payload, rec):
    """Every form of a number in every column."""
    with Tmp() as t:
        for tok in TOKENS:
            for i in range(6):
                for rows in (1, 2):
                    ls = []
                    for r in ROWS[:rows]:
                        w = fmt(r, NAMES).split()
                        w[i] = tok
                        ls.append(' '.join(w))
                    if i >= 4 and abs(float(tok)) > 1e200:
                        continue
                    rec.state((tok, i, rows))
                    text = '\n'.join(ls) + '\n'
                    exp = try_cpp(t, [text], NAMES, 0.,
                                  f'{key}:{tok}:{i}:{rows}', rec)
                    if tok.isdigit() and len(tok) > 18:
                        continue  # beyond astropy's whole numbers
                    cat = C.ParticleCatalogue.read_from_file(
                        t.put('p.dat', text), names=NAMES)
                    # astropy's fast reader may be off in the last digit
                    got = np.array([np.asarray(cat[n], float)
                                    for n in NAMES]).T
                    if not (np.abs(got - exp[:, :6]) <= 4e-16*np.abs(
                            exp[:, :6])).all():
                        rec.fail(f'{key}:{tok}:{i}:python',
                                 f'{got} not {exp}')


def big_rows(n):
    i = np.arange(n)
    r = np.empty((n, 6))
    r[:, 0] = np.sin(i*1.3)*1000
    r[:, 1] = np.cos(i*.7)*500 - 20
    r[:, 2] = (i*37 % 101)*1.5 - 60
    r[:, 3] = 1e-4*(1 + i % 7)
    r[:, 4] = 1 + (i % 5)*.25
    r[:, 5] = .5 + (i % 3)*.125
    return r


def threads(n):
    ctypes.CDLL('libgomp.so.1').omp_set_num_threads(n)


def sizes_case(key, payload, rec):
    """Catalogue sizes, volumes, threads, and where the extremes are."""
    nt, th = payload
    threads(nt)
    with Tmp() as t:
        for n in (*range(1, 18), 31, 64, 100, 257, 4099,
                  *((1000, 20000) if th else ())):
            base = big_rows(n)
            for k in (4, 6):
                for vol in (0., 1., 12345.678, -1.)[:None if n < 300 else 1]:
                    rec.state((n, k, vol, nt))
                    cols = NAMES[:3] + NAMES[4:] if k == 4 else NAMES
                    text = '\n'.join(fmt(r, cols) for r in base)
                    try_cpp(t, [text + '\n'], cols, vol,
                            f'{key}:{n}:{k}:{vol}', rec)
            if n > 257:
                continue
            # the extreme of each coordinate in every place
            for ax, i, sgn in itertools.product(range(3), range(min(n, 33)),
                                                (-1, 1)):
                r = base.copy()
                r[i, ax] = sgn*2e4
                rec.state((n, ax, i, sgn, nt))
                rec.step()
                rec.valid()
                c = lib.Cat(r)
                exp = np.column_stack([r, r[:, 4]*r[:, 5]])
                s = check_cat(c.get()[:, :7], c.props(), exp)
                if s:
                    rec.fail(f'{key}:{n}:{ax}:{i}:{sgn}', s[:900])
    threads(1)


def reload_case(key, payload, rec):
    """A loaded catalogue stays as it is when another load is refused."""
    with Tmp() as t:
        good = t.put('a.dat', '\n'.join(fmt(r, NAMES) for r in ROWS))
        other = t.put('b.dat', '\n'.join(fmt(r, NAMES) for r in ROWS[:2]))
        bad = t.put('c.dat', '1 2\n')
        for seq in itertools.product((good, other, bad, t.d + '/none'),
                                     repeat=3):
            c = lib.Cat()
            rec.state(seq)
            held = None
            for f in seq:
                rec.step()
                rec.valid()
                rc = load(c, f, NAMES)
                if held is not None:
                    if not rc:
                        rec.fail(f'{key}:{seq}:again', 'loaded twice')
                    s = check_cat(c.get()[:, :7], c.props(), held)
                    if s:
                        rec.fail(f'{key}:{seq}:changed', s)
                elif not rc:
                    if f not in (good, other):
                        rec.fail(f'{key}:{seq}:accepted', f)
                        break
                    held = particles([open(f).read()], NAMES, 0.)
                    s = check_cat(c.get()[:, :7], c.props(), held)
                    if s:
                        rec.fail(f'{key}:{seq}:differs', s)
                else:
                    break


def python_case(key, payload, rec):
    """Python readers: columns in every order, by name or mapped, formats."""
    kind, part, n = payload
    from astropy.table import Table
    CC = C.ParticleCatalogue
    with Tmp() as t:
        for cols in specs()[part::n]:
            for junk in (None, 0, len(cols)):
                v = cols if junk is None else \
                    cols[:junk] + ('id',) + cols[junk:]
                text = '\n'.join(fmt(r, v) for r in ROWS) + '\n'
                exp = particles([text], v, 0.)
                alt = tuple('id' if c == 'id' else 'C_' + c for c in v)
                mapping = {c: 'C_' + c for c in cols}
                f = t.put('p.dat', text)
                h = t.put('h.dat', ' '.join(v) + '\n' + text)
                e = t.put('e.csv', (','.join(alt) + '\n'
                                    + text.replace(' ', ',')))
                kw = {'guess': False}
                calls = {
                    'names': (lambda: CC.read_from_file(f, names=v)),
                    'list': (lambda: CC.read_from_file(
                        f, 'astropy', list(v), table_kwargs=kw)),
                    'mapped': (lambda: CC.read_from_file(
                        f, names=alt, name_mapping=mapping)),
                    'header': (lambda: CC.read_from_file(h, format='text')),
                    'header2': (lambda: CC.read_from_file(
                        h, format='ascii.basic', table_kwargs=kw)),
                    'csv': (lambda: CC.read_from_file(
                        e, format='ascii.csv', name_mapping=mapping)),
                }
                for i, c in enumerate(cols if junk is None else ()):
                    # some columns renamed, the others under their names
                    m = {c: 'C_' + c} if (i + len(cols)) % 2 else {
                        a: 'C_' + a for a in cols if a != c}
                    part_ = tuple(m.get(a, a) for a in v)
                    calls[f'partly-{c}'] = (
                        lambda m=m, part_=part_: CC.read_from_file(
                            f, names=part_, name_mapping=m))
                if junk is None:
                    # names exchanged, or taken by a column not wanted
                    for by in range(1, len(cols)):
                        m = dict(zip(cols, cols[by:] + cols[:by]))
                        calls[f'turned-{by}'] = (
                            lambda m=m, n=tuple(m[a] for a in v):
                            CC.read_from_file(f, names=n, name_mapping=m))
                else:
                    for c in cols:
                        n_ = tuple({c: 'C_' + c, 'id': c}.get(a, a)
                                   for a in v)
                        calls[f'taken-{c}'] = (
                            lambda c=c, n=n_: CC.read_from_file(
                                f, names=n, name_mapping={c: 'C_' + c}))
                if kind == 'table':
                    d = {c: [r[NAMES.index(c)] if c in NAMES else 1.
                             for r in ROWS] for c in v}
                    tab = Table(d)
                    ft = os.path.join(t.d, 't.fits')
                    tab.write(ft, overwrite=True)
                    arr = {c: np.array(x) for c, x in d.items() if c != 'id'}
                    opt = {c: x for c, x in arr.items() if c not in 'xyz'}
                    calls = {
                        'fits': (lambda: CC.read_from_file(
                            ft, format='fits')),
                        'arrays': (lambda: CC(**arr)),
                        'lists': (lambda: CC(**{c: list(x)
                                                for c, x in arr.items()})),
                        'tables': (lambda: CC(**{c: tab[c] for c in arr})),
                        'xyz': (lambda: CC(arr['x'], arr['y'], arr['z'],
                                           **opt)),
                        'view': (lambda: CC(**{
                            c: np.repeat(x, 2)[::2]
                            for c, x in arr.items()})),
                    }
                for name, call in calls.items():
                    rec.state((v, name))
                    rec.step()
                    rec.valid()
                    k = f'{key}:{v}:{name}'
                    with warnings.catch_warnings(record=True) as w:
                        warnings.simplefilter('always')
                        cat = call()
                    told = any('nz' in str(x.message) for x in w)
                    if told != ('nz' not in cols):
                        rec.fail(f'{k}:warning', [str(x.message) for x in w])
                    s = check_py(cat, exp)
                    if s:
                        rec.fail(k, s[:1500])
                    if kw != {'guess': False}:
                        rec.fail(f'{k}:options', f'{kw}')
                        kw = {'guess': False}
                # every mandatory column must be there
                if junk is None and kind != 'table':
                    for a in 'xyz':
                        bad = tuple('u' if c == a else c for c in v)
                        rec.step()
                        try:
                            CC.read_from_file(f, names=bad)
                        except ValueError:
                            continue
                        rec.fail(f'{key}:{bad}:accepted', 'no error')


OPS = {
    'centre': (lambda c, b: c.centre(b)),
    'pad': (lambda c, b: c.pad(b, boxsize_pad=.1)),
    'grid': (lambda c, b: c.pad(b, ngrid=(8, 8, 8), ngrid_pad=.5)),
    'periodise': (lambda c, b: c.periodise(b)),
    'offset': (lambda c, b: c.offset_coords((3.5, -1., 0.25))),
    'mean': (lambda c, b: c.compute_mean_density(boxsize=b)),
    'volume': (lambda c, b: c.compute_mean_density(volume=77.)),
    'set': (lambda c, b: c.__setitem__('ws', np.arange(1., 1 + len(c)))),
    'setx': (lambda c, b: c.__setitem__('x', np.arange(0., len(c))[::-1])),
}


def dtype_case(key, payload, rec):
    """Files and arrays of whole numbers mean the same as of real ones."""
    a, = payload
    box = (16., 20., 24.)
    rows = np.array([[1, 2, 3, 1, 1, 2], [4, 9, 0, 2, 3, 1],
                     [-7, 5, 11, 1, 2, 2], [0, 0, 1, 3, 1, 1]])
    seqs = [(a,)] + [(a, b) for b in OPS]
    with Tmp() as t:
        f = t.put('p.dat', '\n'.join(' '.join(map(str, r)) for r in rows))
        makes = {
            'file': lambda: C.ParticleCatalogue.read_from_file(
                f, names=NAMES),
            'int': lambda: C.ParticleCatalogue(*rows.T),
            'int32': lambda: C.ParticleCatalogue(*rows.T.astype('i4')),
            'single': lambda: C.ParticleCatalogue(*rows.T.astype('f4')),
            'big': lambda: C.ParticleCatalogue(*rows.T.astype('>f8')),
            'lists': lambda: C.ParticleCatalogue(*rows.T.tolist()),
        }
        for seq in seqs:
            want = C.ParticleCatalogue(*rows.T.astype(float))
            for o in seq:
                OPS[o](want, box)
            wv = py_view(want)
            for name, mk in makes.items():
                rec.state((seq, name))
                rec.step()
                rec.valid()
                try:
                    c = mk()
                    for o in seq:
                        OPS[o](c, box)
                    got = py_view(c)
                except Exception as e:
                    rec.fail(f'{key}:{seq}:{name}', f'{e!r}')
                    continue
                tol = 1e-5 if name == 'single' else 1e-14
                for g, w in zip(got, wv):
                    if not (np.abs(np.subtract(g, w)) <= tol*32).all():
                        rec.fail(f'{key}:{seq}:{name}', f'{g} not {w}')
                        break


def main(tier=None):
    ch = core.Check('P15', tier)
    th = ch.tier == 'thorough'
    build.use_python_package()
    lib.prepare()
    n = 32
    ch.run_cases('columns', [(f'cols:{i}', (i, n)) for i in range(n)],
                 columns_case, setup=setup)
    ch.run_cases('lines', [(f'lines:{k}', (k, 4 if th else 3))
                           for k in LINES], lines_case, setup=setup,
                 timeout=1200)
    ch.run_cases('files', [(f'split:{k}', (k,)) for k in
                           ((1, 2, 3, 4) if th else (1, 2, 3))], split_case,
                 setup=setup, timeout=1200)
    ch.run_cases('numbers', [('tokens', None)], tokens_case, setup=setup)
    ch.run_cases('sizes', [(f'sizes:{k}', (k, th)) for k in (1, 2, 3, 8)],
                 sizes_case, setup=setup)
    ch.run_cases('reloads', [('reload', None)], reload_case, setup=setup)
    ch.run_cases('python', [
        (f'py:{k}:{i}', (k, i, 96)) for k in ('text', 'table')
        for i in range(96 if th else 12)], python_case, setup=setup,
        timeout=1200)
    ch.run_cases('types', [(f'type:{o}', (o,)) for o in OPS], dtype_case,
                 setup=setup)
    return ch.finish(
        rule='every order of every set of columns, every sequence of kinds '
        'of lines up to a length, every distribution over files, every '
        'number form in every column, every catalogue size listed, each read '
        'by the C++ program reader and by the Python reader and compared '
        'with the documented meaning')
