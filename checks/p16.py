"""P16: measurement files of the program and of the Python functions."""
import ctypes
import itertools
import os
import re
import shutil
import stat as statmod
import subprocess
import tempfile

import numpy as np

from vt import build, core, lib, model
from . import pyapi as pa
from . import stats as st

PROG = None
G = (np.sqrt(5) - 1)/2
NOBODY = 65534


def frac(n, k):
    """Irregular points, away from cell boundaries of every small grid."""
    i = np.arange(1, n + 1)[:, None]
    return (i*np.array([G, np.sqrt(2), np.e/3]) + .0317*k) % 1


DATA, RAND = frac(6, 1), frac(12, 7)
RAND[0], RAND[1] = (.003, .991, .017), (.997, .013, .985)
# two random points within a cell of 10 of data points, for the normalisation
# by mixed meshes
RAND[2], RAND[5] = DATA[0]*.8 + .108, DATA[3]*.8 + .092
ORIGIN, SPAN = np.array([310., -220., 800.]), np.array([210., 250., 190.])
BOX, NG = (320., 350., 305.), (5, 6, 5)
COLS = ('x', 'y', 'z', 'nz', 'ws', 'wc')

OPTS = dict(
    norm=('particle', 'none', 'mesh', 'mesh-mixed'),
    place=(('centre', 0.), ('box', .07), ('grid', .4)),
    mesh=('fixed', 'autobox', 'cutoff', 'both'),
    scheme=('tsc', 'ngp', 'cic', 'pcs'),
    inter=('false', 'on', 'true', 'off'),
    degs=(0, 1, 2),
    tag=('', '_x.1', '.v2.txt', '-b_#1', '_' + 'long'*40),
    dir=('out', '', 'a/b/', 'abs'),
    cols=('full', 'nonz', 'noweights', 'shuffled'),
    cat=('one', 'two'),
    bins=('lin', 'log', 'linpad', 'logpad'),
    vec=('', 'true', 'vec.dat'),
    misc=('', 'progbar', 'loud', 'quiet', 'threads', 'envtag', 'leftover',
          'measure', 'wisdom', 'eol'),
)
DEFAULT = {k: v[0] for k, v in OPTS.items()}


def bases():
    out = []
    for s in ('powspec', '2pcf'):
        out += [(s, 'survey', ''), (s, 'sim', '')]
    out.append(('2pcf-win', 'random', ''))
    forms = ('diag', 'off-diag:1', 'row:1', 'full')
    for s in ('bispec', '3pcf'):
        out += [(s, c, f) for c in ('survey', 'sim') for f in forms]
    out += [(s, c, 'off-diag:-1') for s, c in (('bispec', 'sim'),
                                               ('3pcf', 'survey'))]
    for s in ('3pcf-win', '3pcf-win-wa'):
        out += [(s, 'random', f) for f in forms]
    out += [('modes', 'none', ''), ('pairs', 'none', ''),
            ('modes', 'sim', '')]
    return out


def applies(base, o):
    s, ct, f = base
    if s in ('modes', 'pairs'):
        if o['vec'] == '' or o['norm'] != 'particle' or o['degs'] or \
                o['inter'] != 'false' or o['place'][0] != 'centre':
            return False
        if ct == 'none' and (o['mesh'] in ('autobox', 'both')
                             or o['cols'] != 'full' or o['cat'] != 'one'):
            return False
    three = s[0] == 'b' or s.startswith('3')
    if o['norm'] == 'mesh-mixed' and (ct != 'survey' or three):
        return False
    if ct == 'sim' and o['place'][0] != 'centre':
        return False
    if o['cols'] == 'nonz' and o['mesh'] in ('autobox', 'both'):
        return False
    if o['misc'] == 'envtag' and o['dir'] == 'abs':
        return False
    return True


def degrees(base, k):
    s = base[0]
    if s in ('powspec', '2pcf', '2pcf-win', 'modes', 'pairs'):
        return 0, 0, (0, 2, 1)[k]
    return ((0, 0, 0), (2, 0, 2), (1, 1, 2))[k]


WA = ((1, 0), (0, 1), (2, 0))


# --------------------------------------------------------------------------
# expectation
# --------------------------------------------------------------------------

cached = {}


def expect(base, o, tag):
    k = base, tuple((n, o[n]) for n in OPTS if n not in (
        'tag', 'dir', 'cat', 'vec', 'misc'))
    if k not in cached:
        if len(cached) > 8:
            cached.clear()
        cached[k] = work_out(base, o)
    return cached[k]


def work_out(base, o):
    """Placement, table and header, independently of the program."""
    s, ct, f = base
    fourier = s in ('powspec', 'bispec', 'modes')
    rand = np.column_stack([ORIGIN + RAND*SPAN, st.NZ*1e-4, st.WS, st.WC])
    data = np.column_stack([ORIGIN + DATA*SPAN*.8 + .1*SPAN,
                            *(c[:6] for c in (st.NZ[::-1]*1e-4, st.WC,
                                              st.WS))])
    if ct == 'sim':
        data[:, :3] = DATA*np.array(BOX)*[1.3, .9, 1.7] - [40., 0., 90.]
    files = dict(d=data.copy(), r=rand.copy())
    has_d, has_r = ct in ('survey', 'sim'), ct in ('survey', 'random')
    box, ng = np.array(BOX), np.array(NG)
    if o['mesh'] in ('autobox', 'both'):
        box = np.ptp((rand if has_r else data)[:, :3], axis=0)*1.37
    cut = .05 if fourier else 110.
    if o['mesh'] in ('cutoff', 'both'):
        ng = np.array([int(np.ceil(b*cut/np.pi)) if fourier else
                       int(np.ceil(2*b/cut)) for b in box])
        ng += ng % 2
    if o['cols'] == 'nonz':
        for a in (data, rand):
            a[:, 3] = len(a)/np.prod(box)
    if o['cols'] == 'noweights':
        data[:, 4:], rand[:, 4:] = 1., 1.
    losd = data[:, :3]/np.linalg.norm(data[:, :3], axis=1)[:, None]
    losr = rand[:, :3]/np.linalg.norm(rand[:, :3], axis=1)[:, None]
    align, pad = o['place']
    how = {'centre': 'centre', 'box': 'pad-box', 'grid': 'pad-grid'}[align]
    if has_r:
        raw = data.copy(), rand.copy()
        sh = pa.shift_of(rand, box, ng, how, pad)
        data[:, :3] -= sh
        rand[:, :3] -= sh
        if ct == 'random' and align == 'centre':
            rand[:, :3] = np.mod(rand[:, :3], box)
    else:
        data[:, :3] = np.mod(data[:, :3], box)
    cd, cr = lib.Cat(data), lib.Cat(rand)
    alpha = data[:, 4].sum()/rand[:, 4].sum() if ct == 'survey' else 1.
    three = s[0] == 'b' or s.startswith('3')
    l1, l2, L = degrees(base, o['degs'])
    inter = o['inter'] in ('on', 'true') and not three
    form, _, idx = f.partition(':')
    wa = WA[o['degs']] if s.endswith('wa') else (0, 0)
    bmin, bmax, nb = ((.012, .06, 3) if fourier else (31., 260., 3))
    if 'pad' in o['bins']:
        nb = 7
        bmax = .16 if fourier else 460.
    p = lib.mkparams(
        tuple(box), [int(n) for n in ng], assignment=o['scheme'],
        interlace='true' if inter else 'false',
        catalogue_type=ct if ct != 'none' else 'sim', statistic_type=s,
        binning=o['bins'], bin_min=bmin, bin_max=bmax, num_bins=nb,
        ell1=l1, ell2=l2, ELL=L, i_wa=wa[0], j_wa=wa[1],
        form=form or 'diag', idx_bin=int(idx or 0))
    b = lib.Bin(params=p)
    b.set()
    out = dict(files=files, box=box, ng=ng, l=(l1, l2, L), form=form,
               idx=idx, wa=wa, range=(bmin, bmax, nb), cut=cut, data=data,
               rand=rand, ct=ct, inter=inter, params=p, binning=b)
    if s in ('modes', 'pairs'):
        return out
    # normalisation
    ncat, power = (rand if has_r else data), 3 if three else 2
    S = model.System(tuple(box), tuple(ng), o['scheme'], inter,
                     data if has_d else None, rand if has_r else None,
                     losd if has_d else None, losr if has_r else None)
    pn, mn = pa.norms(S, ncat, alpha, power)
    xn = pa.mixed_norm(*raw, alpha, how, pad) \
        if ct == 'survey' and not three else 0.
    used = dict(none=1., particle=pn, mesh=mn)
    used['mesh-mixed'] = xn
    norm = used[o['norm']]
    kind = {'powspec': 'powspec', '2pcf': 'corrfunc',
            '2pcf-win': 'corrfunc_win', 'bispec': 'bispec', '3pcf': 'tpcf',
            '3pcf-win': 'tpcf_win', '3pcf-win-wa': 'tpcf_win_wa'}[s]
    args = (cd, cr, losd, losr)
    if '-win' in s:
        args = cr, None, losr, None
    elif ct == 'sim':
        kind, args = kind + '_gpp', (cd, None, None, None)
    tab = lib.stat(kind, *args, p, b, alpha, norm)
    floor = monopole(s, L, kind, args, p, (b, alpha, norm))
    out.update(tab=tab, floor=floor, norms=(norm, pn, mn, xn))
    return out


def stat_name(base, e, tag):
    s = base[0]
    l1, l2, L = e['l']
    head = {'powspec': 'pk', '2pcf': 'xi', '2pcf-win': 'xiw', 'bispec': 'bk',
            '3pcf': 'zeta', '3pcf-win': 'zetaw', '3pcf-win-wa': 'zetaw'}[s]
    if s in ('powspec', '2pcf', '2pcf-win'):
        return f'{head}{L}{tag}'
    wa = '_wa%d%d' % e['wa'] if s.endswith('wa') else ''
    return f'{head}{l1}{l2}{L}{wa}_{e["form"].replace("-", "")}' \
        f'{e["idx"]}{tag}'


def cat_lines(label, src, rows, br):
    w = rows[:, 4]*rows[:, 5]
    big, what = {'': ('Catalogue', 'Catalogue particle'),
                 'd': ('Data catalogue', 'Data-source particle'),
                 'r': ('Random catalogue', 'Random-source particle')}[label]
    lo, hi = rows[:, :3].min(0), rows[:, :3].max(0)
    ext = [v for a in range(3) for v in (lo[a], hi[a])]
    pat = '[(%.3f, %.3f), (%.3f, %.3f), (%.3f, %.3f)]' if br else \
        '([%.3f, %.3f], [%.3f, %.3f], [%.3f, %.3f])'
    return [f'# {big} source: {src}',
            f'# {big} size: ntotal = {len(rows)}, wtotal = {w.sum():.3f}, '
            f'wstotal = {rows[:, 4].sum():.3f}',
            f'# {what} extents: ' + pat % tuple(ext)]


def box_lines(box, align, ng, scheme, inter, conv, norms, na=''):
    return ['# Box size: [%.3f, %.3f, %.3f]' % tuple(box),
            f'# Box alignment: {align}',
            '# Mesh number: [%d, %d, %d]' % tuple(ng),
            f'# Mesh assignment and interlacing: {scheme}, {inter}',
            f'# Normalisation factor: {norms[0]:.9e} ({conv})',
            '# Normalisation factor alternatives: '
            f'{norms[1]:.9e} (particle), {norms[2]:.9e} (mesh), '
            f'{norms[3]:.9e} (mesh-mixed{na})']


def col_line(s, l):
    l1, l2, L = l
    if s == 'powspec':
        c = ['k_cen', 'k_eff', 'nmodes'] + [
            f'{p}{{pk{L}_{v}}}' for v in ('raw', 'shot') for p in ('Re', 'Im')]
    elif s.startswith('2pcf'):
        c = ['r_cen', 'r_eff', 'npairs', f'Re{{xi{L}}}', f'Im{{xi{L}}}']
    else:
        x, n, y = ('k', 'nmodes', 'bk') if s == 'bispec' else (
            'r', 'npairs', 'zeta')
        c = [f'{x}1_cen', f'{x}1_eff', f'{n}_1', f'{x}2_cen', f'{x}2_eff',
             f'{n}_2'] + [f'{p}{{{y}{l1}{l2}{L}_{v}}}'
                          for v in ('raw', 'shot') for p in ('Re', 'Im')]
    return '# ' + ', '.join(f'[{i}] {n}' for i, n in enumerate(c))


NUM = re.compile(r'(?<![\w.{])[-+]?\d+(?:\.\d+)?(?:e[-+]\d+)?(?![\w{])')


def same_line(got, want):
    """Same text; numbers may differ in the last digit printed."""
    if 'source: ' in want:
        got = re.sub('/+', '/', got)
    if got == want:
        return True
    if NUM.sub('@', got) != NUM.sub('@', want):
        return False
    for a, b in zip(NUM.findall(got), NUM.findall(want)):
        if a == b:
            continue
        if 'e' in b:
            if len(a.split('e')[0].lstrip('-+')) != \
                    len(b.split('e')[0].lstrip('-+')):
                return False
            if abs(float(a) - float(b)) > 3e-9*abs(float(b)):
                return False
        elif '.' in b:
            if len(a.split('.')[1]) != len(b.split('.')[1]) or \
                    abs(float(a) - float(b)) > 1.1e-3:
                return False
        else:
            return False
    return True


def columns(s):
    """(kind of column) in the file, from the columns of the result."""
    if s == 'powspec':
        return [(0, 'x'), (1, 'x'), (2, 'n'), (3, 'a'), (4, 'a'), (5, 'b'),
                (6, 'b')]
    if s.startswith('2pcf'):
        return [(0, 'x'), (1, 'x'), (2, 'n'), (3, 'a'), (4, 'a')]
    return [(0, 'x'), (2, 'x'), (4, 'n'), (1, 'x'), (3, 'x'), (5, 'n'),
            (6, 'a'), (7, 'a'), (8, 'b'), (9, 'b')]


def monopole(s, L, kind, args, p, tail):
    """Size of the monopole: the odd two-point multipoles of real fields are
    no more than rounding errors beside it."""
    if s not in ('powspec', '2pcf', '2pcf-win') or L % 2 == 0:
        return 0.
    p.set(ELL=0)
    t = lib.stat(kind, *args, p, *tail)
    p.set(ELL=L)
    return np.abs(t[:, 3:5]).max()


def check_table(lines, s, tab, floor=0.):
    """None or a message."""
    cols = columns(s)
    if len(lines) != len(tab):
        return f'{len(lines)} rows instead of {len(tab)}'
    mag = {}
    for q in 'ab':
        v = np.abs(tab[:, [c for c, k in cols if k == q]])
        if v.size:
            mag[q] = v[v == v].max(initial=floor)
    top = max(mag.values())
    for ln, row in zip(lines, tab):
        tok = ln.split('\t')
        if len(tok) != len(cols):
            return f'row {ln!r} has {len(tok)} entries'
        for t, (c, k) in zip(tok, cols):
            w = row[c]
            t = t.strip()
            if k == 'n':
                if not re.fullmatch(r'-?\d+', t) or int(t) != round(w):
                    return f'count {t} instead of {w}'
                continue
            if w != w:
                # nothing lies in the bin
                if t not in ('nan', '-nan'):
                    return f'column {c}: {t} instead of nan'
                continue
            if not re.fullmatch(r'-?\d\.\d{9}e[-+]\d\d+', t):
                return f'entry {t!r} is not printed to ten digits'
            tol = 2e-9*abs(w)
            if k != 'x':
                tol += 1e-8*max(mag[k], 1e-5*top)
            if not abs(float(t) - w) <= tol:
                return f'column {c}: {t} instead of {w:.9e}'
    return None


def vec_lines(e):
    fs = lib.Fs(e['params'], plan=False)
    head, rows = fs.record(e['binning'])
    cfg = e['binning'].get()
    out = ['# Box size: [%.3f, %.3f, %.3f]' % tuple(e['box']),
           '# Mesh number: [%d, %d, %d]' % tuple(e['ng']),
           f'# Vector count: {len(rows)}',
           f'# Bin number: {cfg["num_bins"]}',
           '# [0] bin_index, [1] bin_lower, [2] bin_upper, '
           '[3] vec_x, [4] vec_y, [5] vec_z']
    return out, rows


# --------------------------------------------------------------------------
# running the program
# --------------------------------------------------------------------------

def drop():
    try:
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
    except OSError:
        pass


class Box:
    """A scratch directory in which an unprivileged program runs."""

    def __enter__(self):
        here = os.getcwd()
        for d in (here, os.path.dirname(here)):
            os.chmod(d, 0o755)
        self.d = tempfile.mkdtemp(dir=here)
        os.chmod(self.d, 0o777)
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d)

    def path(self, *p):
        return os.path.join(self.d, *p)

    def put(self, name, text):
        with open(self.path(name), 'w') as f:
            f.write(text)
        os.chmod(self.path(name), 0o644)

    def run(self, args, env=None, timeout=120):
        ev = {k: v for k, v in os.environ.items()
              if not k.startswith(('TRV_', 'OMP_'))}
        ev['OMP_NUM_THREADS'] = '1'
        ev.update(env or {})
        prog = os.path.join(os.path.dirname(self.d), 'triumvirate.bin')
        if not os.path.exists(prog):
            shutil.copy(PROG, prog)
            os.chmod(prog, 0o755)
        r = subprocess.run([prog, *args], cwd=self.d, env=ev, timeout=timeout,
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, preexec_fn=drop,
                           start_new_session=True)
        return r.returncode, r.stdout.decode(errors='replace')

    def files(self):
        out = {}
        for root, ds, fs in os.walk(self.d):
            for f in fs:
                p = os.path.join(root, f)
                with open(p, errors='replace') as fd:
                    out[os.path.relpath(p, self.d)] = fd.read()
        return out


def fmt_rows(rows, cols):
    lines = ['# a catalogue']
    for r in rows:
        d = dict(zip(COLS, r))
        lines.append(' '.join(repr(float(d.get(c, 9.)))for c in cols))
    return '\n'.join(lines) + '\n'


def catalogue_cols(o):
    return {'full': COLS, 'nonz': ('x', 'y', 'z', 'ws', 'wc'),
            'noweights': ('x', 'y', 'z', 'nz'),
            'shuffled': ('wc', 'z', 'id', 'x', 'nz', 'y', 'ws')}[o['cols']]


def write_inputs(bx, base, o, e, tag, name='params.ini'):
    cols = catalogue_cols(o)
    names = {}
    for w in ('d', 'r'):
        rows = e['files'][w]
        if o['cat'] == 'two':
            bx.put(f'{w}1.dat', fmt_rows(rows[:2], cols))
            bx.put(f'{w}2.dat', fmt_rows(rows[2:], cols))
            names[w] = f'{w}1.dat::{w}2.dat'
        else:
            bx.put(f'{w}.dat', fmt_rows(rows, cols))
            names[w] = f'{w}.dat'
    mdir = bx.path('out') if o['dir'] == 'abs' else o['dir']
    bmin, bmax, nb = e['range']
    p = dict(catalogue_dir='./', measurement_dir=mdir, output_tag=tag,
             catalogue_columns=','.join(cols), data_catalogue_file=names['d'],
             rand_catalogue_file=names['r'], expand='1.37',
             alignment='centre' if o['place'][0] == 'centre' else 'pad',
             padscale='box' if o['place'][0] == 'centre' else o['place'][0],
             padfactor=o['place'][1] or '', assignment=o['scheme'],
             interlace=o['inter'], catalogue_type=base[1],
             statistic_type=base[0], ell1=e['l'][0], ell2=e['l'][1],
             ELL=e['l'][2], i_wa=e['wa'][0], j_wa=e['wa'][1],
             form=e['form'] or 'diag', norm_convention=o['norm'],
             binning=o['bins'], bin_min=repr(bmin), bin_max=repr(bmax),
             num_bins=nb, idx_bin=e['idx'] or '',
             fftw_scheme='measure' if o['misc'] in (
                 'measure', 'wisdom') else 'estimate',
             use_fftw_wisdom='wis' if o['misc'] == 'wisdom' else 'false',
             save_binned_vectors=o['vec'] or 'false',
             verbose={'loud': 10, 'quiet': 60}.get(o['misc'], 20),
             progbar='true' if o['misc'] == 'progbar' else 'false')
    for i, ax in enumerate('xyz'):
        if o['mesh'] in ('fixed', 'cutoff'):
            p['boxsize_' + ax] = repr(float(BOX[i]))
        if o['mesh'] in ('fixed', 'autobox'):
            p['ngrid_' + ax] = NG[i]
    if o['mesh'] in ('cutoff', 'both'):
        p['cutoff_nyq'] = repr(e['cut'])
    if base[1] == 'none':
        p['data_catalogue_file'] = p['rand_catalogue_file'] = ''
    eol = '\r\n' if o['misc'] == 'eol' else '\n'
    if eol != '\n':
        eol = '\n\n'
    bx.put(name, eol.join(f'{k} = {v}' for k, v in p.items()) + eol)
    return p, names


def check_stat(text, base, o, e, srcs):
    """Content of a measurement file; None or a message."""
    lines = text.split('\n')
    if lines[-1] != '':
        return 'last line is not ended'
    lines = lines[:-1]
    s, ct, _ = base
    # the two-catalogue header is that of data-and-random measurements
    head = []
    if ct == 'survey' and '-win' not in s:
        head += cat_lines('d', srcs['d'], e['data'], True)
        head += cat_lines('r', srcs['r'], e['rand'], True)
    elif ct == 'sim':
        head += cat_lines('', srcs['d'], e['data'], True)
    else:
        head += cat_lines('', srcs['r'], e['rand'], True)
    head += box_lines(
        e['box'], 'centre' if o['place'][0] == 'centre' else 'pad', e['ng'],
        o['scheme'], 'true' if e['inter'] else 'false', o['norm'],
        e['norms'])
    head.append(col_line(s, e['l']))
    for i, want in enumerate(head):
        got = lines[i] if i < len(lines) else '(none)'
        if not same_line(got, want):
            return f'header line {got!r} instead of {want!r}'
    return check_table(lines[len(head):], s, e['tab'], e['floor'])


def check_vec(text, e, threads):
    head, rows = vec_lines(e)
    lines = text.split('\n')[:-1]
    for i, want in enumerate(head):
        if i >= len(lines) or not same_line(lines[i], want):
            return f'header line {lines[i:i + 1]} instead of {want!r}'
    body = lines[len(head):]
    if len(body) != len(rows):
        return f'{len(body)} rows instead of {len(rows)}'
    if threads:
        # the order within a bin is that of the threads
        def order(v):
            return [round(float(x), 12) + 0. for x in v]
        body = sorted(body, key=lambda ln: order(ln.split('\t')))
        rows = sorted(rows, key=order)
    for ln, r in zip(body, rows):
        tok = [float(t) for t in ln.split('\t')]
        if len(tok) != 6 or any(
                abs(a - b) > 2e-9*abs(b) for a, b in zip(tok, r)):
            return f'row {ln!r} instead of {list(r)}'
    return None


def paths_expected(base, o, e, tag):
    mdir = {'out': 'out/', '': '', 'a/b/': 'a/b/', 'abs': 'out/'}[o['dir']]
    out = {}
    if base[0] not in ('modes', 'pairs'):
        out['stat'] = mdir + stat_name(base, e, tag)
    if o['vec']:
        out['vec'] = mdir + ('binned_vectors' + tag if o['vec'] == 'true'
                             else o['vec'])
    return out


def one_run(bx, base, o, key, rec):
    """Run one configuration in the given directory and compare."""
    tag = o['tag']
    env = {}
    if o['misc'] == 'envtag':
        env['TRV_OVERRIDE_OUTPUT_TAG'] = tag = o['tag'] + '_env'
        env['TRV_OVERRIDE_VERBOSE'] = '30'
    if o['misc'] == 'threads':
        env['OMP_NUM_THREADS'] = '3'
    e = expect(base, o, tag)
    p, names = write_inputs(bx, base, o, e, o['tag'])
    want = paths_expected(base, o, e, tag)
    if o['misc'] == 'leftover':
        for f in want.values():
            os.makedirs(os.path.dirname(bx.path(f)) or '.', exist_ok=True)
            bx.put(f, '0 1 2 stale line\n'*4000)
            for root, ds, fs in os.walk(bx.d):
                for n in (root, *(os.path.join(root, x) for x in fs)):
                    os.chmod(n, 0o777)
    before = bx.files()
    rc, log = bx.run(['params.ini'], env)
    rec.step()
    rec.valid()
    if rc:
        rec.fail(f'{key}:exit', f'exit status {rc}\n{log[-1500:]}\n{p}')
        return None
    after = bx.files()
    mdir = {'out': 'out/', '': '', 'a/b/': 'a/b/', 'abs': 'out/'}[o['dir']]
    exp = set(want.values()) | {mdir + 'parameters_used' + tag}
    made = {f for f in after
            if f not in before or (f in exp and after[f] != before[f])}
    if o['misc'] == 'wisdom':
        made = {f for f in made if not f.startswith('wis/')}
    new_exp = {f for f in exp if f in made or f not in before}
    if made != new_exp:
        rec.fail(f'{key}:files', f'files {sorted(made)} instead of '
                 f'{sorted(exp)}\n{log[-800:]}')
        return None
    lost = {f for f in before if f not in exp and
            after.get(f) != before[f]}
    if lost:
        rec.fail(f'{key}:changed', f'other files changed: {sorted(lost)}')
    srcs = {}
    for w in ('d', 'r'):
        srcs[w] = 'extfile:' + '::'.join(
            './' + n for n in names[w].split('::'))
    if 'stat' in want:
        msg = check_stat(after[want['stat']], base, o, e, srcs)
        if msg:
            rec.fail(f'{key}:table', f'{want["stat"]}: {msg}\n{p}')
    if 'vec' in want:
        msg = check_vec(after[want['vec']], e, o['misc'] == 'threads')
        if msg:
            rec.fail(f'{key}:vectors', f'{want["vec"]}: {msg}\n{p}')
    rec.outcome((base, tuple(sorted(exp))))
    return exp


def run_prog(key, payload, rec):
    base, devs = payload
    for dev in devs:
        o = dict(DEFAULT, **dict(dev))
        if base[0] in ('modes', 'pairs') and 'vec' not in dict(dev):
            o['vec'] = 'true'
        if not applies(base, o):
            continue
        k = key + ''.join(f':{a}={b}' for a, b in dev)
        rec.state(k)
        with Box() as bx:
            one_run(bx, base, o, k, rec)


def prog_cases(tier):
    out = []
    for base in bases():
        devs = [()]
        for n, vals in OPTS.items():
            devs += [((n, v),) for v in vals[1:]]
        prod = list(itertools.product(OPTS['norm'], OPTS['place'],
                                      OPTS['mesh']))
        if base[2] and tier != 'thorough':
            # the forms share the product
            prod = prod[('diag', 'off-diag:1', 'row:1', 'full').index(
                base[2].replace(':-', ':'))::4]
        devs += [(('norm', a), ('place', b), ('mesh', c))
                 for a, b, c in prod]
        if tier == 'thorough':
            for n, m in itertools.combinations(OPTS, 2):
                devs += [((n, v), (m, w)) for v in OPTS[n][1:]
                         for w in OPTS[m][1:]]
        else:
            for i, (n, m) in enumerate(itertools.combinations(OPTS, 2)):
                a, b = OPTS[n][1:], OPTS[m][1:]
                j = i + len(out)
                devs.append(((n, a[j % len(a)]), (m, b[(j//3) % len(b)])))
        seen, dd = set(), []
        for d in devs:
            d = tuple((n, v) for n, v in d if v != DEFAULT[n])
            if d not in seen:
                seen.add(d)
                dd.append(d)
        nm = 'prog:' + '-'.join(x for x in base if x)
        for i in range(0, len(dd), 16):
            out.append((f'{nm}:{i//16}', (base, dd[i:i + 16])))
    return out


# --------------------------------------------------------------------------
# several runs in one directory
# --------------------------------------------------------------------------

def run_hist(key, payload, rec):
    """Different settings never overwrite each other's measurements."""
    confs = payload
    with Box() as bx:
        seen = {}
        for i, (base, dev) in enumerate(confs):
            o = dict(DEFAULT, **dict(dev))
            if base[0] in ('modes', 'pairs'):
                o['vec'] = 'true'
            got = one_run(bx, base, o, f'{key}:{i}', rec)
            rec.state((key, i))
            if got is None:
                return
            now = bx.files()
            for f, (j, txt) in seen.items():
                if f not in got and now.get(f) != txt:
                    rec.fail(f'{key}:lost', f'{f} of run {j} was changed by '
                             f'run {i}')
            for f in got:
                seen[f] = (i, now[f])
            stats = [f for f in got if 'parameters_used' not in f
                     and 'binned_vectors' not in f]
            for f in stats:
                if f in names_of.setdefault(key, {}) and \
                        names_of[key][f] != (base, dev):
                    rec.fail(f'{key}:clash', f'{f} stands for two settings')
                names_of[key][f] = (base, dev)


names_of = {}


def hist_cases(tier):
    confs = [(b, ()) for b in bases() if b[1] != 'survey'
             or b[0] not in ('2pcf-win', '3pcf-win')]
    # sampled settings that must be told apart by their names
    confs = [c for c in confs if c[0][1] in ('sim', 'random', 'none')
             and c[0] != ('modes', 'sim', '')]
    extra = [(b, (('degs', k),)) for b, _ in confs for k in (1, 2)
             if b[0] not in ('modes', 'pairs')]
    confs += extra + [(('powspec', 'sim', ''), (('tag', '_x.1'),)),
                      (('bispec', 'sim', 'row:1'), (('tag', '.v2.txt'),))]
    idx2 = [(('bispec', 'sim', 'row:2'), ()),
            (('3pcf', 'sim', 'off-diag:2'), ())]
    confs += idx2
    n = 12 if tier == 'thorough' else 6
    out = []
    # every pair occurs together in the history of all of them, both orders
    seqs = [confs, confs[::-1]]
    for i, sq in enumerate(seqs):
        out.append((f'hist:{i}:all', sq))
    for i in range(n):
        out.append((f'hist:rot{i}', confs[i::n] + confs[i::n][:2]))
    return out


# --------------------------------------------------------------------------
# refusals
# --------------------------------------------------------------------------

def refusals():
    """name, how to change the valid input, arguments."""
    def setk(**kw):
        def f(bx, p):
            q = dict(p, **kw)
            bx.put('params.ini', ''.join(f'{k} = {v}\n'
                                         for k, v in q.items()))
        return f

    def rm(*names):
        def f(bx, p):
            for n in names:
                os.remove(bx.path(n))
        return f

    def put(name, text):
        return lambda bx, p: bx.put(name, text)

    def mk(path):
        def f(bx, p):
            os.makedirs(bx.path(path))
            for root, ds, fs in os.walk(bx.path('out')):
                os.chmod(root, 0o777)
        return f
    out = [('noargs', None, []), ('nofile', None, ['none.ini']),
           ('unknownopt', None, ['params.ini', '--frobnicate']),
           ('dir', None, ['.']),
           ('nodata', rm('d.dat'), None), ('norand', rm('r.dat'), None),
           ('emptydata', put('d.dat', ''), None),
           ('onlycomments', put('r.dat', '# x\n#y\n'), None),
           ('short', put('d.dat', '1. 2. 3.\n4. 5. 6.\n'), None),
           ('nox', setk(catalogue_columns='a,y,z,nz,ws,wc'), None),
           ('outfile', put('out', 'a file'), None),
           ('outisdir', 'DIR', None)]
    for k, v in (('statistic_type', 'spec'), ('catalogue_type', 'mock'),
                 ('form', 'half'), ('norm_convention', 'mean'),
                 ('binning', 'cubic'), ('assignment', 'fft'),
                 ('alignment', 'left'), ('num_bins', '1'),
                 ('num_bins', 'x'), ('bin_min', '.5'), ('bin_max', '-1.'),
                 ('data_catalogue_file', ''), ('rand_catalogue_file', ''),
                 ('fftw_scheme', 'slow'),
                 ('measurement_dir', '/nonexistent/x'),
                 ('measurement_dir', '/proc/x')):
        out.append((f'{k}={v or "unset"}', setk(**{k: v}), None))
    return out, mk


def run_refuse(key, payload, rec):
    base, name = payload
    tests, mk = refusals()
    _, change, args = next(t for t in tests if t[0] == name)
    o = dict(DEFAULT)
    e = expect(base, o, '')
    with Box() as bx:
        p, names = write_inputs(bx, base, o, e, '')
        w = 'd' if base[1] != 'random' else 'r'
        used = dict(d=base[1] in ('survey', 'sim'),
                    r=base[1] in ('survey', 'random'))
        if name in ('nodata', 'emptydata', 'short',
                    'data_catalogue_file=unset') and not used['d']:
            return
        if name in ('norand', 'onlycomments', 'rand_catalogue_file=unset') \
                and not used['r']:
            return
        if name == 'form=half' and base[2] == '':
            pass
        if name == 'bin_min=.5' and base[0] not in ('powspec', 'bispec'):
            return
        if change == 'DIR':
            os.makedirs(bx.path('out', stat_name(base, e, '')))
            for root, ds, fs in os.walk(bx.path('out')):
                os.chmod(root, 0o777)
        elif change:
            change(bx, p)
        before = set(bx.files())
        rc, log = bx.run(['params.ini'] if args is None else args)
        rec.step()
        rec.valid()
        rec.state(key)
        made = {f for f in bx.files() if f not in before}
        left = {f for f in made if 'parameters_used' not in f}
        rec.outcome((rc, bool(made)))
        if rc == 0:
            rec.fail(f'{key}:accepted', f'exit status 0, files {made}\n'
                     f'{log[-1200:]}')
        elif rc in (-11, -7, -8):
            rec.fail(f'{key}:crash', f'killed by signal {-rc}\n{log[-1200:]}')
        if left:
            rec.fail(f'{key}:output', f'files {sorted(left)} were made')


def run_refuse_mixed(key, payload, rec):
    """Normalisations that do not exist for a measurement are refused."""
    base = payload
    o = dict(DEFAULT)
    e = expect(base, o, '')
    with Box() as bx:
        p, _ = write_inputs(bx, base, o, e, '')
        p['norm_convention'] = 'mesh-mixed'
        bx.put('params.ini', ''.join(f'{k} = {v}\n' for k, v in p.items()))
        before = set(bx.files())
        rc, log = bx.run(['params.ini'])
        rec.step()
        rec.valid()
        rec.state(key)
        left = {f for f in bx.files() if f not in before
                and 'parameters_used' not in f}
        if rc == 0 or left:
            rec.fail(key, f'exit status {rc}, files {left}')


def run_incompatible(key, payload, rec):
    """Statistics of another type of catalogue are refused."""
    base, (stype, ctype) = payload
    o = dict(DEFAULT)
    e = expect(base, o, '')
    with Box() as bx:
        p, _ = write_inputs(bx, base, o, e, '')
        p.update(statistic_type=stype, catalogue_type=ctype)
        bx.put('params.ini', ''.join(f'{k} = {v}\n' for k, v in p.items()))
        before = set(bx.files())
        rc, log = bx.run(['params.ini'])
        rec.step()
        rec.valid()
        rec.state(key)
        left = {f for f in bx.files() if f not in before
                and 'parameters_used' not in f}
        if rc == 0 or left or rc in (-11, -7, -8):
            rec.fail(key, f'exit status {rc}, files {left} {log[-300:]}')


def run_info(key, payload, rec):
    with Box() as bx:
        rc, log = bx.run([payload])
        rec.step()
        rec.valid()
        rec.state(key)
        if rc or bx.files():
            rec.fail(key, f'exit status {rc}, files {list(bx.files())}')
        want = {'-h': 'Usage', '--help': 'Usage', '-V': '0.5.0',
                '--version': '0.5.0'}[payload]
        if want.lower() not in log.lower():
            rec.fail(key, f'no {want!r} in {log[:300]!r}')


# --------------------------------------------------------------------------
# Python
# --------------------------------------------------------------------------

PYF = dict(
    powspec='compute_powspec', powspec_gpp='compute_powspec_in_gpp_box',
    corrfunc='compute_corrfunc', corrfunc_gpp='compute_corrfunc_in_gpp_box',
    corrfunc_win='compute_corrfunc_window', bispec='compute_bispec',
    bispec_gpp='compute_bispec_in_gpp_box', tpcf='compute_3pcf',
    tpcf_gpp='compute_3pcf_in_gpp_box', tpcf_win='compute_3pcf_window',
    tpcf_win_wa='compute_3pcf_window')
PSTAT = dict(powspec='powspec', corrfunc='2pcf', bispec='bispec',
             tpcf='3pcf')


def run_py(key, sp, rec):
    import logging
    from triumvirate import parameters, threept, twopt
    from triumvirate.catalogue import ParticleCatalogue
    kind, _, sub = sp['kind'].partition('_')
    gpp, win, wa = sub == 'gpp', sub.startswith('win'), sub == 'win_wa'
    s = PSTAT[kind] + ('-win' if win else '') + ('-wa' if wa else '')
    three = kind in ('bispec', 'tpcf')
    fourier = kind in ('powspec', 'bispec')
    ct = 'sim' if gpp else 'random' if win else 'survey'
    rand = np.column_stack([ORIGIN + RAND*SPAN, st.NZ*1e-4, st.WS, st.WC])
    data = np.column_stack([ORIGIN + DATA*SPAN*.8 + .1*SPAN,
                            *(c[:6] for c in (st.NZ[::-1]*1e-4, st.WC,
                                              st.WS))])
    form, _, idx = sp['form'].partition(':')
    l1, l2, L = sp['degs'] if three else (0, 0, sp['degs'][2])
    worders = sp.get('wa')
    tag, mdir, save, norm = sp['tag'], sp['dir'], sp['save'], sp['norm']
    align, pad = sp.get('place', ('centre', 0.))
    with Box() as bx:
        os.chdir(bx.d)
        try:
            if mdir:
                os.makedirs(mdir)
            bmin, bmax, nb = ((.012, .06, 3) if fourier else (31., 260., 3))
            d = parameters.fetch_paramset_template('dict')
            d.update(
                catalogue_type=ct, statistic_type=s, assignment=sp['scheme'],
                alignment='centre' if align == 'centre' else 'pad',
                interlace=sp['inter'], norm_convention=norm,
                range=[bmin, bmax], num_bins=nb, verbose=60,
                degrees=dict(ell1=l1, ell2=l2, ELL=L), form=form or 'diag',
                idx_bin=int(idx) if idx else None)
            if align != 'centre':
                d.update(padscale=align, padfactor=pad)
            d['boxsize'] = dict(zip('xyz', BOX))
            d['ngrid'] = dict(zip('xyz', NG))
            d['directories']['measurements'] = mdir
            d['tags']['output'] = tag
            if worders:
                d['wa_orders'] = dict(i=worders[0], j=worders[1])
            if sp['route'] == 'paramset':
                d = parameters.ParameterSet(param_dict=d)

            def cat(r, w):
                if sp['src'] == 'file':
                    bx.put(f'{w}.dat', fmt_rows(r, COLS))
                    return ParticleCatalogue.read_from_file(
                        bx.path(f'{w}.dat'), names=list(COLS))
                return ParticleCatalogue(
                    *r.T[:3], nz=r[:, 3], ws=r[:, 4], wc=r[:, 5])
            cats = [cat(data, 'd')] if gpp else [cat(rand, 'r')] if win \
                else [cat(data, 'd'), cat(rand, 'r')]
            logger = None
            if sp['logger'] == 'plain':
                logger = logging.getLogger('vt16')
                logger.propagate = False
                if not logger.handlers:
                    logger.addHandler(logging.NullHandler())
            elif sp['logger'] == 'adapter':
                from triumvirate.logger import setup_logger
                logger = setup_logger(logging.CRITICAL)
            kw = dict(paramset=d, save=save, logger=logger)
            if wa and sp.get('wa_arg', True):
                kw['wa_orders'] = worders
                if sp['route'] == 'dict':
                    kw['wa_orders'] = '%d%d' % worders
            f = getattr(threept if three else twopt, PYF[sp['kind']])
            before = bx.files()
            res = f(*cats, **kw)
            rec.step()
            rec.valid()
            rec.state(key)
            after = bx.files()
            e = dict(l=(l1, l2, L), form=form, idx=idx, wa=worders)
            base = (s, ct, sp['form'])
            made = {x for x in after if x not in before}
            want = set()
            if save:
                want = {os.path.join(mdir or '', stat_name(base, e, tag or '')
                                     + save.lower())}
            if made != want:
                rec.fail(f'{key}:files', f'{sorted(made)} instead of '
                         f'{sorted(want)}')
                return
            # the measurement itself
            md, mr = data.copy(), rand.copy()
            box, ng = np.array(BOX), np.array(NG)
            losd, losr = (v[:, :3]/np.linalg.norm(
                v[:, :3], axis=1)[:, None] for v in (data, rand))
            inter = sp['inter'] and not three
            how = {'centre': 'centre', 'box': 'pad-box',
                   'grid': 'pad-grid'}[align]
            sh = pa.shift_of(md if gpp else mr, box, ng,
                             'centre' if gpp or win else how, pad)
            md[:, :3] -= sh
            mr[:, :3] -= sh
            if gpp:
                md[:, :3] = np.mod(md[:, :3], box)
            elif win:
                mr[:, :3] = np.mod(mr[:, :3], box)
            alpha = 1. if gpp or win else \
                data[:, 4].sum()/rand[:, 4].sum()
            S = model.System(
                BOX, NG, sp['scheme'], inter, None if win else md,
                None if gpp else mr, None if win else losd,
                None if gpp else losr)
            pn, mn = pa.norms(S, md if gpp else mr, alpha,
                              3 if three else 2)
            xn = pa.mixed_norm(data, rand, alpha, how, pad) \
                if ct == 'survey' and not three else 0.
            nf = dict(none=1., particle=pn, mesh=mn)
            nf['mesh-mixed'] = xn
            p = lib.mkparams(
                BOX, NG, assignment=sp['scheme'],
                interlace='true' if inter else 'false', catalogue_type=ct,
                statistic_type=s, bin_min=bmin, bin_max=bmax, num_bins=nb,
                ell1=l1, ell2=l2, ELL=L, i_wa=(worders or (0, 0))[0],
                j_wa=(worders or (0, 0))[1], form=form or 'diag',
                idx_bin=int(idx or 0))
            b = lib.Bin(params=p).set()
            cd, cr = lib.Cat(md), lib.Cat(mr)
            a = (cr, None, losr, None) if win else \
                (cd, None, None, None) if gpp else (cd, cr, losd, losr)
            tab = lib.stat(sp['kind'], *a, p, b, alpha, nf[norm])
            floor = monopole(s, L, sp['kind'], a, p, (b, alpha, nf[norm]))
            x, n = ('k', 'nmodes') if fourier else ('r', 'npairs')
            if not three:
                y = 'pk' if fourier else 'xi'
                v = res['pk_raw'] if fourier else res['xi']
                cols = [res[x + 'bin'], res[x + 'eff'], res[n], v.real,
                        v.imag]
                keys = {x + 'bin', x + 'eff', n}
                keys |= {'pk_raw', 'pk_shot'} if fourier else {'xi'}
                if fourier:
                    cols += [res['pk_shot'].real, res['pk_shot'].imag]
            else:
                y = 'bk' if fourier else 'zeta'
                r, h = res[y + '_raw'], res[y + '_shot']
                cols = [res[x + '1_bin'], res[x + '2_bin'], res[x + '1_eff'],
                        res[x + '2_eff'], res[n + '_1'], res[n + '_2'],
                        r.real, r.imag, h.real, h.imag]
                keys = {x + '1_bin', x + '2_bin', x + '1_eff', x + '2_eff',
                        n + '_1', n + '_2', y + '_raw', y + '_shot'}
            got = np.column_stack(cols)
            if got.shape[0] != len(tab):
                rec.fail(f'{key}:result', f'{len(got)} entries')
                return
            for c in range(got.shape[1]):
                pair = tab[:, 3:5] if not three else tab[:, 6:8]
                tol = 1e-8*max(np.abs(tab[:, c]).max(),
                               1e-4*np.abs(pair).max())
                if c < (3 if not three else 6):
                    tol = 1e-9*np.abs(tab[:, c]).max()
                if c in (3, 4) and not three:
                    tol = 1e-8*max(floor, np.abs(tab[:, 3:5]).max())
                if c in (6, 7) and three:
                    tol = 1e-8*np.abs(tab[:, 6:8]).max()
                if c in (8, 9) and three:
                    tol = 1e-8*max(np.abs(tab[:, 8:10]).max(),
                                   1e-5*np.abs(tab[:, 6:8]).max())
                if c in (5, 6) and not three:
                    tol = 1e-8*max(floor, np.abs(tab[:, 3:7]).max())
                if not (np.abs(got[:, c] - tab[:, c]) <= tol).all():
                    rec.fail(f'{key}:result', f'column {c}: {got[:, c]} '
                             f'instead of {tab[:, c]}')
                    return
            if set(res) - {'header'} != keys:
                rec.fail(f'{key}:keys', f'{sorted(res)}')
            if not save:
                return
            out = want.pop()
            head = []
            src = [c._source for c in cats]
            for c, w in zip(cats, 'dr' if len(cats) == 2 else
                            'r' if win else 'd'):
                ok = c._source == 'extfile:' + bx.path(f'{w}.dat') \
                    if sp['src'] == 'file' else \
                    c._source.startswith('extdata:')
                if not ok:
                    rec.fail(f'{key}:source', c._source)
            if len(cats) == 2:
                head += cat_lines('d', src[0], md, False)
                head += cat_lines('r', src[1], mr, False)
            else:
                head += cat_lines('', src[0], md if gpp else mr, False)
            head += box_lines(
                BOX, 'centre' if align == 'centre' else 'pad', NG,
                sp['scheme'], inter, norm, (nf[norm], pn, mn, xn),
                '; n/a' if three else '')
            head.append(col_line(s, (l1, l2, L)))
            if save.lower() == '.txt':
                lines = after[out].split('\n')[:-1]
                body = lines[len(head):]
                lines = lines[:len(head)]
                msg = check_table(body, s, got)
                # the file holds precisely the returned results
                if msg:
                    rec.fail(f'{key}:table', msg)
            else:
                with np.load(bx.path(out)) as z:
                    lines = ['# ' + ln for ln in
                             str(z['header']).split('\n')]
                    for k in keys:
                        if k not in z or not np.array_equal(
                                z[k], res[k], equal_nan=True):
                            rec.fail(f'{key}:npz', f'{k} differs')
                    if set(z.files) != keys | {'header'}:
                        rec.fail(f'{key}:npz', f'{z.files}')
            if len(lines) != len(head):
                rec.fail(f'{key}:header', f'{lines}')
                return
            for g, w in zip(lines, head):
                if not same_line(g, w):
                    rec.fail(f'{key}:header', f'{g!r} instead of {w!r}')
                    break
        finally:
            os.chdir(os.path.dirname(bx.d))


def py_cases(tier):
    out = []
    i = 0
    for kind in PYF:
        two = kind.split('_')[0] in ('powspec', 'corrfunc')
        gw = '_' in kind
        forms = ('',) if two else ('diag', 'off-diag:1', 'row:1', 'full',
                                   'off-diag:-1')
        norms = ('particle', 'none', 'mesh') + (
            ('mesh-mixed',) if two and not gw else ())
        for form, save, tag in itertools.product(
                forms, ('.txt', '.npz'), (None, '_x', '_z0.5', '.v2.1')):
            i += 1
            places = (('centre', 0.),) if gw else OPTS['place']
            sp = dict(kind=kind, form=form, save=save, tag=tag,
                      degs=((0, 0, 0), (2, 0, 2), (1, 1, 2))[i % 3],
                      dir=(None, 'o', 'p.q/r')[i//2 % 3],
                      norm=norms[i % len(norms)], scheme=st.SCHEMES[i % 4],
                      inter=bool(i//4 % 2), place=places[i % len(places)],
                      src=('array', 'file')[i//3 % 2],
                      logger=(None, 'plain', 'adapter')[i % 3],
                      route=('paramset', 'dict')[i//5 % 2])
            if two:
                sp['degs'] = (0, 0, (0, 2, 1)[i % 3])
            if kind.endswith('wa'):
                sp['wa'] = ((1, 0), (0, 1), (2, 0), (1, 1))[i % 4]
                sp['wa_arg'] = bool(i//2 % 2)
            out.append((f'py:{kind}:{form}:{save}:{tag}', sp))
        for norm, lg, mdir, route in itertools.product(
                norms, (None, 'plain', 'adapter'), (None, 'o'),
                ('paramset', 'dict')):
            i += 1
            sv = ('.txt', False, '.npz', '.TXT', '.NPZ')[i % 5]
            out.append((
                f'py:{kind}:{norm}:{lg}:{mdir}:{route}:{sv}', dict(
                    kind=kind, form=forms[i % len(forms)], save=sv,
                    tag=None, degs=(0, 0, 0), dir=mdir, norm=norm,
                    scheme='tsc', inter=False, src='array', logger=lg,
                    route=route, wa=(1, 0) if kind.endswith('wa') else None,
                    wa_arg=True)))
    return out


def setup():
    pa.setup()


def main(tier=None):
    global PROG
    ch = core.Check('P16', tier)
    PROG = build.cpp_program()
    lib.prepare()
    pa.PKG = build.python_package()
    ch.run_cases('refusals', [
        (f'refuse:{"-".join(x for x in b if x)}:{t[0]}', (b, t[0]))
        for b in (('powspec', 'survey', ''), ('2pcf', 'sim', ''),
                  ('2pcf-win', 'random', ''), ('bispec', 'survey', 'row:1'),
                  ('3pcf', 'sim', 'diag'), ('3pcf-win-wa', 'random', 'full'))
        for t in refusals()[0]], run_refuse, setup=lib.L)
    ch.run_cases('normalisations', [
        (f'mixed:{"-".join(x for x in b if x)}', b) for b in bases()
        if b[0] not in ('modes', 'pairs')
        and not applies(b, dict(DEFAULT, norm='mesh-mixed'))],
        run_refuse_mixed, setup=lib.L)
    valid = {b[:2] for b in bases()}
    ch.run_cases('catalogue types', [
        (f'types:{x}:{c}', (('powspec', 'survey', ''), (x, c)))
        for x in sorted({b[0] for b in bases()} - {'modes', 'pairs'})
        for c in ('survey', 'sim', 'random', 'none')
        if (x, c) not in valid], run_incompatible, setup=lib.L)
    ch.run_cases('information', [(f'info:{a}', a) for a in
                                 ('-h', '--help', '-V', '--version')],
                 run_info, setup=lib.L)
    ch.run_cases('program', prog_cases(ch.tier), run_prog, setup=lib.L,
                 timeout=400)
    ch.run_cases('histories', hist_cases(ch.tier), run_hist, setup=lib.L,
                 timeout=400)
    ch.run_cases('python', py_cases(ch.tier), run_py, setup=setup)
    return ch.finish(
        rule='every statistic x catalogue type x form, with every single '
        'option changed, every normalisation x alignment x mesh choice and '
        'a covering set of option pairs (thorough: all pairs); all listed '
        'refusals; runs sharing a directory; every Python function x form '
        'x format x tag, and x normalisation x logger x directory x route')


if __name__ == '__main__':
    import sys
    sys.exit(main(sys.argv[1] if len(sys.argv) > 1 else None))
