"""P13: a parameter set is one consistent configuration after any history."""
import itertools
import logging
import math
import os
import sys
import tempfile
import warnings
from copy import deepcopy
from pathlib import Path

import numpy as np
import yaml

from vt import build, core

PR = PK = None
LOWER = ('alignment', 'padscale', 'assignment', 'form', 'norm_convention',
         'binning')
DEFAULT = dict(alignment='centre', padscale='box', assignment='tsc',
               form='diag', norm_convention='particle', binning='lin')
ALLOWED = dict(
    alignment=('centre', 'pad'), padscale=('box', 'grid'),
    assignment=('ngp', 'cic', 'tsc', 'pcs'),
    form=('diag', 'off-diag', 'row', 'full'),
    norm_convention=('none', 'particle', 'mesh', 'mesh-mixed'),
    binning=('lin', 'log', 'linpad', 'logpad', 'custom'))
NPT = {'powspec': ('2pt', 'fourier'), '2pcf': ('2pt', 'config'),
       '2pcf-win': ('2pt', 'config'), 'bispec': ('3pt', 'fourier'),
       '3pcf': ('3pt', 'config'), '3pcf-win': ('3pt', 'config'),
       '3pcf-win-wa': ('3pt', 'config'), 'modes': ('none', 'fourier'),
       'pairs': ('none', 'config')}
PLAN = {'measure': 0, 'patient': 1 << 5, 'estimate': 1 << 6}
AX = 'xyz'


class Reject(Exception):
    pass


def need(c):
    if not c:
        raise Reject


def expect(d):
    """The public entries and the C++ parameters of a valid configuration.

    Written from the documentation; raises Reject if it is invalid.
    """
    pub, cpp = deepcopy(d), {}
    for sec, key, name in (('directories', 'catalogues', 'catalogue_dir'),
                           ('directories', 'measurements', 'measurement_dir'),
                           ('files', 'data_catalogue', 'data_catalogue_file'),
                           ('files', 'rand_catalogue', 'rand_catalogue_file'),
                           ('tags', 'output', 'output_tag')):
        v = d.get(sec, {}).get(key) or ''
        if key in d.get(sec, {}):
            pub[sec][key] = v
        cpp[name] = v
    # paths
    cdir = cpp['catalogue_dir']
    if cdir.strip():
        cdir += '/'
    mdir = cpp['measurement_dir']
    cpp['catalogue_dir'] = cdir
    cpp['measurement_dir'] = mdir + '/' if mdir.strip() else './'
    ct = d.get('catalogue_type')
    ct = '' if ct is None else ct.lower()
    st = d.get('statistic_type')
    st = '' if st is None else st.lower()
    for name, types in (('data_catalogue_file', ('survey', 'sim')),
                        ('rand_catalogue_file', ('survey', 'random'))):
        fs = [f for f in cpp[name].split('::')] if cpp[name] else []
        if fs and fs[-1] == '':
            fs.pop()
        cpp[name] = '::'.join(f if f.startswith('/') else cdir + f
                              for f in fs) if ct in types else ''
    cpp['catalogue_type'], cpp['statistic_type'] = ct, st
    need(ct in ('', 'survey', 'random', 'sim', 'none'))
    # mesh
    for k in ('boxsize', 'ngrid', 'degrees', 'wa_orders', 'range'):
        need(k in d)
    for k in ('boxsize', 'ngrid'):
        need(None in d[k].values() or set(AX) <= set(d[k]))
    boxset = None not in d['boxsize'].values()
    gridset = None not in d['ngrid'].values()
    box = tuple(float(d['boxsize'][a]) for a in AX) if boxset else (0.,)*3
    ng = tuple(d['ngrid'][a] for a in AX) if gridset else (0,)*3
    expand = 1. if d.get('expand') is None else d['expand']
    pad = 0. if d.get('padfactor') is None else d['padfactor']
    vol = box[0]*box[1]*box[2]
    for k in LOWER:
        v = DEFAULT[k] if d.get(k) is None else d[k].lower()
        need(v in ALLOWED[k])
        pub[k] = cpp[k] = v
    inter = d.get('interlace')
    inter = 'false' if inter is None else str(inter).lower()
    need(inter in ('true', 'on', 'false', 'off'))
    inter = inter in ('true', 'on')
    # statistics
    if st:
        need(st in NPT)
        npt, space = NPT[st]
        if st.endswith(('win', 'wa')):
            need(ct == 'random')
        elif npt != 'none':
            need(ct not in ('random', 'none'))
    else:
        npt = d.get('npoint', '') if d.get('npoint') in ('2pt', '3pt') else ''
        space = d.get('space', '') if d.get('space') in ('fourier', 'config') \
            else ''
    need(cpp['norm_convention'] != 'mesh-mixed' or
         npt == '2pt' and ct in ('', 'survey'))
    if npt == '3pt':
        inter = False
    # binning
    need(d['range'] is not None and None not in d['range'])
    lo, hi = map(float, d['range'][:2])
    need(0 <= lo < hi)
    nb = d.get('num_bins')
    need(nb is not None and nb >= 2)
    need(not cpp['binning'].endswith('pad') or nb >= 7)
    idx = d.get('idx_bin')
    need(idx is not None or cpp['form'] not in ('off-diag', 'row'))
    idx = 0 if idx is None else idx
    need(abs(idx) < nb)
    need(not (idx < 0 and npt == '3pt' and cpp['form'] == 'row'))
    for k, names in (('degrees', ('ell1', 'ell2', 'ELL')),
                     ('wa_orders', 'ij')):
        need(set(names) <= set(d[k]))
        cpp[k] = tuple(d[k][n] or 0 for n in names)
    # mesh derivation
    need(vol > 0 or expand >= 1)
    cut = 0.
    nm = int(ng[0])*int(ng[1])*int(ng[2])
    if nm == 0:
        cut = d.get('cutoff_nyq')
        need(cut is not None and cut >= 0)
        if vol > 0:
            need(cut > 0 and space)
            ng = []
            for L in box:
                n = math.ceil(L*cut/math.pi if space == 'fourier'
                              else 2*L/cut)
                ng.append(n + n % 2)
            pub['ngrid'] = dict(zip(AX, ng))
            nm = ng[0]*ng[1]*ng[2]
    ng = tuple(int(n) for n in ng)
    if cpp['alignment'] == 'pad':
        need(pad >= 0)
        # the grid is only bounded once it is known
        need(pad < (1 if cpp['padscale'] == 'box' else
                    min(ng) if nm > 0 else np.inf))
    # transforms
    sch = d.get('fftw_scheme')
    sch = 'measure' if sch is None else sch
    need(sch in PLAN)
    wis = d.get('use_fftw_wisdom')
    wis = 'false' if wis is None else str(wis)
    wis = '' if wis.lower() == 'false' else wis
    if wis:
        need(sch != 'estimate')
        wis += '' if wis.endswith('/') else '/'
    for s in 'fb':
        cpp[f'fftw_wisdom_file_{s}'] = '%sfftw_omp_ci%s_%dx%dx%d.wisdom' % (
            wis, s, *ng) if wis else ''
    pb = d.get('progbar')
    if pb is None or pb is False or str(pb).lower() == 'false':
        pb = False
    elif pb is True or str(pb).lower() == 'true':
        pb = True
    else:
        try:
            pb = float(pb)
        except ValueError:
            raise Reject from None
    cpp.update(
        boxsize=box, ngrid=ng, volume=vol, nmesh=nm, expand=expand,
        padfactor=pad, interlace=str(inter).lower(), npoint=npt, space=space,
        assignment_order=1 + ALLOWED['assignment'].index(cpp['assignment']),
        range=(lo, hi), cutoff_nyq=0. if nm > 0 else cut, num_bins=nb, idx_bin=idx,
        fftw_scheme=sch, fftw_planner_flag=PLAN[sch], use_fftw_wisdom=wis,
        verbose=20 if d.get('verbose') is None else d['verbose'], progbar=pb)
    pub.update(
        volume=vol, nmesh=nm, interlace=inter, npoint=npt, space=space,
        assignment_order=cpp['assignment_order'],
        fftw_planner_flag=PLAN[sch],
        fftw_wisdom_file_f=cpp['fftw_wisdom_file_f'],
        fftw_wisdom_file_b=cpp['fftw_wisdom_file_b'],
        use_fftw_wisdom=wis or False, progbar=pb)
    for k in ('catalogue_type', 'statistic_type'):
        if d.get(k) is not None:
            pub[k] = d[k].lower()
    return pub, cpp


def plain(v):
    """Values up to their type."""
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple, np.ndarray)):
        return [plain(x) for x in v]
    if isinstance(v, bytes):
        return v.decode()
    if isinstance(v, np.generic):
        return v.item()
    return v


def close(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(close(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(close, a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or abs(a - b) <= 1e-13*abs(b)
    return a == b


def diff(a, b):
    ks = [k for k in {**a, **b} if k not in a or k not in b
          or not close(a[k], b[k])]
    return ' '.join(f'{k}: {a.get(k)!r} not {b.get(k)!r};' for k in ks)


def norm_path(p):
    while '//' in p:
        p = p.replace('//', '/')
    return p


def view(ps):
    pub = plain(dict(ps.items()))
    cpp = {k: plain(v) for k, v in PK.peek(ps).items()}
    if cpp['nmesh'] > 0:  # no longer applicable
        cpp['cutoff_nyq'] = 0.
    return pub, cpp


def against(ps, d):
    """Compare a parameter set with the model; returns what differs."""
    pub, cpp = view(ps)
    epub, ecpp = map(plain, expect(d))
    s = diff(pub, epub)
    for k in ('catalogue_dir', 'measurement_dir'):
        cpp[k], ecpp[k] = norm_path(cpp[k]), norm_path(ecpp[k])
    for k in ('data_catalogue_file', 'rand_catalogue_file'):
        cpp[k] = [norm_path(x) for x in cpp[k].split('::')]
        ecpp[k] = [norm_path(x) for x in ecpp[k].split('::')]
    p, e = cpp.pop('progbar'), ecpp.pop('progbar')
    if p in ('true', 'false'):
        p = p == 'true'
    else:
        p = float(p)
    if not close(p, e):
        s += f'progbar {p} not {e}'
    t = diff(cpp, ecpp)
    return s + (' C++ ' + t if t else '')


def base_dict(**kw):
    d = {
        'directories': {'catalogues': None, 'measurements': '/tmp/m'},
        'files': {'data_catalogue': 'a.dat', 'rand_catalogue': '/r/b.dat'},
        'catalogue_columns': [], 'catalogue_dataset': None,
        'tags': {'output': '_t'},
        'boxsize': {'x': 1000., 'y': 900., 'z': 800.},
        'ngrid': {'x': 64, 'y': 48, 'z': 32},
        'expand': 1., 'cutoff_nyq': None, 'alignment': 'centre',
        'padscale': 'box', 'padfactor': None, 'assignment': 'tsc',
        'interlace': False, 'catalogue_type': 'survey',
        'statistic_type': 'powspec',
        'degrees': {'ell1': 0, 'ell2': 0, 'ELL': 0},
        'wa_orders': {'i': None, 'j': None}, 'form': 'diag',
        'norm_convention': 'particle', 'binning': 'lin',
        'range': [.005, .105], 'num_bins': 10, 'idx_bin': None,
        'fftw_scheme': 'measure', 'use_fftw_wisdom': False,
        'save_binned_vectors': False, 'verbose': 60, 'progbar': False}
    d.update(kw)
    return d


NB = {'x': None, 'y': None, 'z': None}
BASES = [
    base_dict(),
    base_dict(statistic_type='bispec', form='row', idx_bin=2,
              degrees={'ELL': 2, 'ell2': 0, 'ell1': 2},
              boxsize={'y': 900., 'z': 800., 'x': 1000.},
              ngrid={'z': 32, 'y': 48, 'x': 64}),
    base_dict(statistic_type='2pcf', interlace=True, range=[10, 200],
              boxsize=NB, expand=1.1, alignment='pad', padfactor=.02),
    base_dict(statistic_type='powspec', ngrid=NB, cutoff_nyq=.21,
              norm_convention='mesh-mixed', binning='linpad'),
    base_dict(statistic_type='3pcf-win-wa', catalogue_type='random',
              ngrid=NB, cutoff_nyq=25., range=[0., 150.], form='full',
              wa_orders={'i': 1, 'j': 0}, use_fftw_wisdom='/w'),
    base_dict(statistic_type='3pcf', catalogue_type='sim', boxsize=NB,
              ngrid=NB, cutoff_nyq=9., form='off-diag', idx_bin=-3,
              fftw_scheme='estimate', progbar=True),
]


def ops():
    o = []

    def add(key, *vals):
        o.extend((key, v) for v in vals)
    add('directories', {'catalogues': '/a', 'measurements': None},
        {'catalogues': 'c/d/', 'measurements': 'out'}, {})
    add('files', {'data_catalogue': 'x::y.h5', 'rand_catalogue': None},
        {'data_catalogue': '/p/x', 'rand_catalogue': 'q::/r::s'}, {})
    add('tags', {'output': None}, {'output': '_v1.0'}, {})
    # by name, in whatever order
    add('boxsize', {'z': 700, 'x': 500, 'y': 600}, NB,
        {'x': 500., 'y': None, 'z': 700.}, {'x': 1., 'y': 2.})
    add('ngrid', {'y': 64, 'z': 16, 'x': 32}, NB,
        {'x': None, 'y': 8, 'z': 8}, {'x': 8.0, 'y': 6.0, 'z': 4.0},
        {'x': 2048, 'y': 2048, 'z': 2048})
    add('expand', 1.25, .9, None)
    add('cutoff_nyq', .3, 20., 0., -1., None)
    add('alignment', 'pad', 'centre', 'PAD', 'Centre', 'left', None)
    add('padscale', 'grid', 'box', 'Grid', 'cell', None)
    add('padfactor', .1, 1., -.5, 40., None)
    add('assignment', 'ngp', 'cic', 'pcs', 'TSC', 'nnb', None)
    add('interlace', True, False, 'on', 'off', 'On', 'maybe', None)
    add('catalogue_type', 'survey', 'random', 'sim', 'none', 'Sim', None)
    add('statistic_type', *NPT, 'Bispec', None)
    add('degrees', {'ELL': 3, 'ell2': 1, 'ell1': 2},
        {'ell1': None, 'ell2': None, 'ELL': 4}, {'ell1': 0, 'ELL': 0})
    add('wa_orders', {'j': 2, 'i': 1}, {'i': 0})
    add('form', 'diag', 'off-diag', 'row', 'full', 'Row', 'OFF-DIAG',
        'square', None)
    add('norm_convention', 'none', 'particle', 'mesh', 'mesh-mixed', 'Mesh',
        'grid', None)
    add('binning', 'lin', 'log', 'linpad', 'logpad', 'custom', 'LogPad',
        'cubic', None)
    add('range', [.01, .2], (0, 100), [.1, .1], [-.1, .1], [None, .1],
        [.1, None], None)
    add('num_bins', 6, 7, 2, 1, 0, None)
    add('idx_bin', 0, 5, 9, 10, -1, -9, -10, None)
    add('fftw_scheme', 'estimate', 'measure', 'patient', 'fast', None)
    add('use_fftw_wisdom', False, 'False', '/W/Dir', '/w/', None)
    add('verbose', 50, None)
    add('progbar', True, False, 10, 12.5, '5', 'TRUE', 'often', None)
    add('free_lunch', 1)
    return o


def multi():
    """Updates of several entries at once."""
    return [
        {'statistic_type': 'bispec', 'form': 'row', 'idx_bin': 1},
        {'statistic_type': 'bispec', 'form': 'row', 'idx_bin': -1},
        {'statistic_type': '2pcf-win', 'catalogue_type': 'random'},
        {'form': 'diag', 'num_bins': 0},
        {'assignment': 'pcs', 'padscale': 'nowhere'},
        {'ngrid': NB, 'cutoff_nyq': .17},
        {'boxsize': NB, 'expand': .5},
        {'degrees': {'ell1': 4, 'ell2': 4, 'ELL': 0}, 'range': None},
        {'interlace': True, 'statistic_type': 'powspec'},
        {'fftw_scheme': 'patient', 'use_fftw_wisdom': 'w'},
        {'boxsize': {'x': 10, 'y': 10, 'z': 10},
         'ngrid': {'x': 4, 'y': 4, 'z': 4}, 'alignment': 'pad',
         'padscale': 'grid', 'padfactor': 3.5},
        {},
    ]


OPS = [('one', {k: v}) for k, v in ops()] + [('many', m) for m in multi()]


def setup():
    global PR, PK
    import triumvirate.parameters as PR_
    import triumvirate._vtpeek as PK_
    PR, PK = PR_, PK_
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)


def apply(ps, op, how):
    kind, e = op
    e = deepcopy(e)
    if kind == 'one' and how % 4 < 2:
        (k, v), = e.items()
        if how % 4:
            setattr(ps, k, v)
        else:
            ps[k] = v
    elif how % 4 == 2:
        ps.update(**e)
    else:
        ps.update(e)


def make(b, path):
    ps = PR.ParameterSet(param_dict=deepcopy(BASES[b]))
    for i in path:
        apply(ps, OPS[i], i)
    return ps


def history_case(key, payload, rec):
    """Every update after every accepted or rejected prefix."""
    b, prefix, depth = payload
    try:
        d = expect(BASES[b])[0]
        for i in prefix:
            d = expect({**d, **OPS[i][1]})[0]
    except Reject:
        # every update is tried on sets that have rejected others before
        return
    try:
        make(b, prefix)
    except Exception as e:
        rec.fail(f'{key}:prefix', f'{[OPS[i][1] for i in prefix]}: {e!r}')
        return

    def level(path, d, left):
        ps = None
        for i, op in enumerate(OPS):
            if ps is None:
                ps = make(b, path)
            e = {**d, **deepcopy(op[1])}
            try:
                new = expect(e)[0]
            except Reject:
                new = None
            before = view(ps)
            orig = path or 'original=True' in str(ps)
            try:
                apply(ps, op, i + len(path))
                ok = True
            except Exception as ex:
                ok = ex
            rec.step()
            k = f'{key}:' + '/'.join(map(str, (*path[len(prefix):], i)))
            what = f'{[OPS[j][1] for j in path]} then {op[1]}'
            if new is None:
                rec.outcome(('rejected', type(ok).__name__))
                if ok is True:
                    rec.fail(f'{k}:accepted', f'{what}: invalid, but accepted')
                    ps = None
                elif view(ps) != before or not path and \
                        orig != ('original=True' in str(ps)):
                    s = ' '.join(diff(x, y) for x, y in
                                 zip(view(ps), before)).strip()
                    rec.fail(f'{k}:changed', f'{what}: rejected, but {s}')
                    ps = None
                rec.valid()
                continue
            if ok is not True:
                rec.fail(f'{k}:rejected', f'{what}: valid, but {ok!r}')
                ps = None
                continue
            s = against(ps, e)
            if s:
                rec.fail(f'{k}:differs', f'{what}: {s}')
            if not path and 'original=False' not in str(ps):
                rec.fail(f'{k}:original', f'{what}: still original')
            rec.valid()
            rec.outcome(('ok', repr(sorted(op[1]))))
            if rec.state(repr(sorted(plain(new).items(), key=str))):
                # built afresh from its own entries
                src = dict(ps.items())
                copy = deepcopy(src)
                q = PR.ParameterSet(param_dict=src)
                s = ' '.join(diff(x, y) for x, y in zip(view(q), view(ps))).strip()
                if s:
                    rec.fail(f'{k}:rebuilt', f'{what}: rebuilt {s}')
                if src != copy:
                    rec.fail(f'{k}:argument', f'{what}: argument modified')
                if left > 1:
                    level((*path, i), new, left - 1)
            ps = None

    level(tuple(prefix), d, depth)


def build_case(key, payload, rec):
    """Construction, access, saving and loading from each base."""
    b, i = payload
    d = base = deepcopy(BASES[b])
    if i is not None:
        d = {**base, **deepcopy(OPS[i][1])}
    dels = [None] if i is not None else [None, *base]
    with tempfile.TemporaryDirectory() as tmp:
        for k in dels:
            e = deepcopy(d)
            if k is not None:
                del e[k]
            f = Path(tmp, 'p.yml')
            f.write_text(yaml.safe_dump(plain(e)))
            try:
                expect(e)
                ok = True
            except Reject:
                ok = False
            for src in ('dict', 'file', 'path'):
                kk = f'{key}:{k}:{src}'
                given = deepcopy(e)
                rec.step()
                rec.valid()
                rec.state((b, i, k, src))
                try:
                    ps = PR.ParameterSet(param_dict=given) if src == 'dict' \
                        else PR.ParameterSet(str(f) if src == 'file' else f)
                except Exception as ex:
                    rec.outcome(type(ex).__name__)
                    if ok:
                        rec.fail(f'{kk}:rejected', repr(ex))
                    continue
                if not ok:
                    rec.fail(f'{kk}:accepted', f'{e}')
                    continue
                if given != e:
                    rec.fail(f'{kk}:argument', f'{diff(given, e)}')
                s = against(ps, e)
                if s:
                    rec.fail(f'{kk}:differs', s)
                given['degrees']['ELL'] = 77
                given['range'] = None
                if src == 'dict' and ps['degrees']['ELL'] == 77:
                    rec.fail(f'{kk}:alias', 'shares the given dictionary')
                access(ps, kk, rec)
                # saved and loaded back
                out = Path(tmp, 's.yml')
                ps.save(out if src == 'dict' else str(out))
                q = PR.ParameterSet(out)
                s = ' '.join(diff(x, y) for x, y in zip(view(q), view(ps))).strip()
                if s:
                    rec.fail(f'{kk}:saved', s)
                if src == 'dict':
                    tag = ps['tags'].get('output') if 'tags' in e else None
                    if tag is not None:
                        ps.update(directories={'measurements': tmp,
                                               'catalogues': ''})
                        ps.save()
                        n = Path(tmp, f'parameters_used{tag}.yml')
                        if not n.exists():
                            rec.fail(f'{kk}:save', f'{os.listdir(tmp)}')
                        else:
                            n.unlink()


def access(ps, kk, rec):
    items = dict(ps.items())
    bad = []
    if set(ps.names()) != set(items):
        bad.append('names')
    for k, v in items.items():
        if not (ps[k] is v or ps[k] == v) or not close(
                plain(getattr(ps, k)), plain(v)) \
                or not close(plain(ps.get(k)), plain(v)):
            bad.append(k)
    if ps.get('no_such') is not None or ps.get('no_such', 3) != 3:
        bad.append('get')
    try:
        ps['no_such']
        bad.append('missing item')
    except PR.NonParameterError:
        pass
    try:
        ps.no_such
        bad.append('missing attribute')
    except AttributeError:
        pass
    if bad:
        rec.fail(f'{kk}:access', str(bad))


def source_case(key, payload, rec):
    d = base_dict()
    with tempfile.TemporaryDirectory() as tmp:
        f = Path(tmp, 'p.yml')
        f.write_text(yaml.safe_dump(d))
        for a, b in itertools.product((None, f), (None, d)):
            rec.state((a is None, b is None))
            rec.step()
            rec.valid()
            try:
                ps = PR.ParameterSet(a, b)
                got = None
            except Exception as e:
                got = type(e)
            if (got is None) != ((a is None) != (b is None)):
                rec.fail(f'{key}:{a is None}:{b is None}', f'{got}')
            if got is None:
                s = str(ps)
                if ('original=True' not in s) or \
                        (str(f) in s) != (a is not None):
                    rec.fail(f'{key}:str', s[:80])
        # template
        t = PR.fetch_paramset_template('dict')
        text = PR.fetch_paramset_template('text')
        if yaml.safe_load(text) != t:
            rec.fail(f'{key}:template', 'text and dictionary differ')
        for fmt in ('text', 'dict', 'TEXT', 'Dict'):
            t2, df = PR.fetch_paramset_template(fmt, ret_defaults=True)
            exp = {k: v for k, v in t.items() if v is not None
                   and not isinstance(v, (dict, list))}
            rec.step()
            if df != exp or t2 != (text if fmt.lower() == 'text' else t):
                rec.fail(f'{key}:template:{fmt}', f'{df}')
        t['degrees']['ell1'] = 5
        if PR.fetch_paramset_template('dict')['degrees']['ell1'] == 5:
            rec.fail(f'{key}:template:shared', 'template modified')
        for ret in (False, True):
            try:
                PR.fetch_paramset_template('yaml', ret_defaults=ret)
            except ValueError:
                continue
            rec.fail(f'{key}:template:bad{ret}', 'unknown format accepted')


# -- overrides --------------------------------------------------------------
SAMPLING = [('expand', 1.5), ('alignment', 'pad'), ('boxsize', (40., 50., 60)),
            ('ngrid', [4, 6, 8]), ('assignment', 'ngp'), ('interlace', True),
            ('cutoff_nyq', .5), ('boxpad', .25), ('gridpad', 3.)]
MEASURE = [('ell1', 1), ('ell2', 3), ('ELL', 2), ('i_wa', 1), ('j_wa', 2),
           ('form', 'row'), ('bin_min', .02), ('bin_max', .09),
           ('num_bins', 8), ('idx_bin', 1)]


def over_sampling(d, s):
    for k in ('expand', 'alignment', 'assignment', 'interlace', 'cutoff_nyq'):
        if k in s:
            d[k] = s[k]
    if d['alignment'] == 'pad':
        need(not ('boxpad' in s and 'gridpad' in s))
    for k in ('boxpad', 'gridpad'):
        if k in s:
            d['padscale'], d['padfactor'] = k[:-3], s[k]
    for k in ('boxsize', 'ngrid'):
        if k in s:
            d[k] = dict(zip(AX, s[k]))
    return d


def over_measure(d, m):
    for k in ('ell1', 'ell2', 'ELL'):
        if k in m:
            d['degrees'][k] = m[k]
    for k in ('i_wa', 'j_wa'):
        if k in m:
            d['wa_orders'][k[0]] = m[k]
    for k in ('form', 'num_bins', 'idx_bin'):
        if k in m:
            d[k] = m[k]
    for i, k in enumerate(('bin_min', 'bin_max')):
        if k in m:
            d['range'][i] = m[k]
    return d


TOUCH = {'boxpad': ('padscale', 'padfactor'), 'gridpad': ('padscale',
                                                          'padfactor')}


def override_case(key, payload, rec):
    """Every subset of overrides, on a parameter set and on a dictionary."""
    which, b, forms = payload
    univ, func, over = (
        (SAMPLING, PR._modify_sampling_parameters, over_sampling)
        if which == 'sampling' else
        (MEASURE, PR._modify_measurement_parameters, over_measure))
    tmpl, tdef = PR.fetch_paramset_template('dict', ret_defaults=True)
    for n, form in itertools.product(range(len(univ) + 1), forms):
        if form != 'set' and b:
            break
        for sub in itertools.combinations(univ, n):
            s = dict(sub)
            given = deepcopy(s)
            k = f'{key}:{form}:{"+".join(s)}'
            rec.state((which, b, form, tuple(s)))
            rec.step()
            rec.valid()
            d = deepcopy(tmpl if form == 'defaults' else BASES[b])
            try:
                if form == 'set':
                    e = expect(over(expect(d)[0], s))[0]
                else:
                    e = over(deepcopy(d), s)
            except Reject:
                e = None
            try:
                if form == 'defaults':
                    df = dict(tdef)
                    gone = {x for o in s for x in TOUCH.get(o, (o,))}
                    exp = {o: v for o, v in df.items() if o not in gone}
                    got, left = func(d, given, params_default=df,
                                     ret_defaults=True)
                    if left != exp:
                        rec.fail(f'{k}:left', f'{left} not {exp}')
                elif form == 'set':
                    got = PR.ParameterSet(param_dict=d)
                    func(got, given)
                    got.update()
                    got = dict(got.items())
                else:
                    got = func(d, given)
            except Exception as ex:
                rec.outcome(type(ex).__name__)
                # overrides of a parameter set are validated one by one
                if e is not None and form != 'set':
                    rec.fail(f'{k}:raised', repr(ex))
                continue
            if given != s:
                rec.fail(f'{k}:argument', f'{given}')
            if e is None:
                rec.fail(f'{k}:accepted', '')
            elif not close(plain(got), plain(e)):
                rec.fail(k, diff(plain(got), plain(e)))
            rec.outcome(tuple(s))
    # nothing to override; defaults of another parameter set
    d = deepcopy(BASES[b])
    if func(d, None) is not d or d != BASES[b]:
        rec.fail(f'{key}:none', 'changed without overrides')
    try:
        func(d, {}, params_default={'expand': -3})
        rec.fail(f'{key}:foreign', 'foreign defaults accepted')
    except ValueError:
        pass


def main(tier=None):
    ch = core.Check('P13', tier)
    th = ch.tier == 'thorough'
    build.use_python_package()
    ch.run_cases('sources', [('source', None)], source_case, setup=setup)
    ch.run_cases('construction', [
        (f'build:{b}:{i}', (b, i)) for b in range(len(BASES))
        for i in (None, *range(len(OPS)))], build_case, setup=setup)
    ch.run_cases('overrides', [
        (f'over:{w}:{b}:{f[0]}', (w, b, f)) for w in ('sampling', 'measure')
        for b in range(len(BASES))
        for f in (('dict', 'defaults'), ('set',))], override_case, setup=setup)
    cases = [(f'hist:{b}:', (b, (), 1)) for b in range(len(BASES))]
    cases += [(f'hist:{b}:{i}', (b, (i,), 2 if th and b in (0, 1, 4) else 1))
              for b in range(len(BASES)) for i in range(len(OPS))]
    ch.run_cases('histories', cases, history_case, setup=setup, timeout=1200)
    return ch.finish(
        rule='every base configuration x every single update and every '
        'listed multiple update, in every sequence up to a length, each '
        'compared with the documented rules in Python and in C++, and rebuilt '
        'from its own entries')
