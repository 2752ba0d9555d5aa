"""P14: parameter files mean exactly what they say."""
import itertools
import math
import os
import shutil
import tempfile
from pathlib import Path

from vt import core, lib

STR = ('catalogue_dir', 'measurement_dir', 'data_catalogue_file',
       'rand_catalogue_file', 'catalogue_columns', 'catalogue_dataset',
       'output_tag', 'alignment', 'padscale', 'assignment', 'interlace',
       'catalogue_type', 'statistic_type', 'form', 'norm_convention',
       'binning', 'fftw_scheme', 'use_fftw_wisdom', 'save_binned_vectors',
       'progbar')
DBL = ('boxsize_x', 'boxsize_y', 'boxsize_z', 'expand', 'cutoff_nyq',
       'padfactor', 'bin_min', 'bin_max')
INT = ('ngrid_x', 'ngrid_y', 'ngrid_z', 'ell1', 'ell2', 'ELL', 'i_wa', 'j_wa',
       'num_bins', 'idx_bin', 'verbose')
KEYS = STR + DBL + INT
DEFAULT = dict(
    {k: '' for k in STR}, alignment='centre', padscale='box',
    assignment='tsc', interlace='false', form='diag',
    norm_convention='particle', binning='lin', fftw_scheme='measure',
    use_fftw_wisdom='false', save_binned_vectors='false', progbar='false',
    **{k: '0' for k in DBL + INT})
DEFAULT.update(expand='1', verbose='20')
NPT = {'powspec': ('2pt', 'fourier'), '2pcf': ('2pt', 'config'),
       '2pcf-win': ('2pt', 'config'), 'bispec': ('3pt', 'fourier'),
       '3pcf': ('3pt', 'config'), '3pcf-win': ('3pt', 'config'),
       '3pcf-win-wa': ('3pt', 'config'), 'modes': ('none', 'fourier'),
       'pairs': ('none', 'config')}
PLAN = {'measure': 0, 'patient': 1 << 5, 'estimate': 1 << 6}
SCHEMES = ('ngp', 'cic', 'tsc', 'pcs')
ENV = {'VT_ABS': '/abs/d', 'VT_REL': 'rel/s', 'VT_EMPTY': ''}


class Reject(Exception):
    pass


def need(c):
    if not c:
        raise Reject


def env(s):
    for k, v in ENV.items():
        s = s.replace('${%s}' % k, v)
    return s


def model(entries):
    """C++ parameters from the assigned entries, by the documentation."""
    e = {**DEFAULT, **entries}
    d = {k: e[k] for k in STR}
    for k in DBL:
        if k[:3] != 'box':
            d[k] = float(e[k])
    for k in INT:
        if k[:3] != 'ngr':
            d[k] = int(e[k])
    box = [float(e[f'boxsize_{a}']) for a in 'xyz']
    ng = [int(e[f'ngrid_{a}']) for a in 'xyz']
    cdir = d['catalogue_dir'] + '/' if d['catalogue_dir'] else ''
    mdir = d['measurement_dir'] + '/' if d['measurement_dir'] else './'
    mdir = env(mdir)
    d['catalogue_dir'], d['measurement_dir'] = env(cdir), mdir
    ct, st = d['catalogue_type'], d['statistic_type']
    need(ct in ('survey', 'random', 'sim', 'none') and st in NPT)
    for k, types in (('data_catalogue_file', ('survey', 'sim')),
                     ('rand_catalogue_file', ('survey', 'random'))):
        fs = d[k].split('::') if d[k] else []
        if fs and fs[-1] == '':
            fs.pop()
        fs = [env(f if f[:1] == '/' else env(cdir) + f) for f in fs]
        d[k] = '::'.join(fs) if ct in types else ''
    need(d['alignment'] in ('centre', 'pad'))
    need(d['padscale'] in ('box', 'grid'))
    need(d['assignment'] in SCHEMES)
    d['assignment_order'] = 1 + SCHEMES.index(d['assignment'])
    need(d['interlace'] in ('true', 'on', 'false', 'off'))
    inter = d['interlace'] in ('true', 'on')
    npt, space = NPT[st]
    d['npoint'], d['space'] = npt, space
    if '-win' in st:
        need(ct == 'random')
    elif npt != 'none':
        need(ct in ('survey', 'sim'))
    d['interlace'] = 'true' if inter and npt != '3pt' else 'false'
    need(d['form'] in ('diag', 'off-diag', 'row', 'full'))
    d['shape'] = 'triu' if d['form'] == 'full' and d['ell1'] == d['ell2'] \
        else d['form']
    need(d['norm_convention'] in ('none', 'particle', 'mesh', 'mesh-mixed'))
    need(d['norm_convention'] != 'mesh-mixed' or
         npt == '2pt' and ct == 'survey')
    need(d['binning'] in ('lin', 'log', 'linpad', 'logpad', 'custom'))
    need(d['fftw_scheme'] in PLAN)
    d['planner'] = PLAN[d['fftw_scheme']]
    # mesh
    vol = box[0]*box[1]*box[2]
    need(vol > 0 or d['expand'] >= 1)
    if ng[0]*ng[1]*ng[2] <= 0:
        need(d['cutoff_nyq'] >= 0)
        if vol > 0:
            need(d['cutoff_nyq'] > 0)
            ng = []
            for L in box:
                n = math.ceil(L*d['cutoff_nyq']/math.pi if space == 'fourier'
                              else 2*L/d['cutoff_nyq'])
                ng.append(n + n % 2)
    d['boxsize'], d['ngrid'] = box, ng
    d['volume'], d['nmesh'] = vol, ng[0]*ng[1]*ng[2]
    if d['alignment'] == 'pad':
        need(0 <= d['padfactor'] < (
            1 if d['padscale'] == 'box' else
            min(ng) if d['nmesh'] > 0 else math.inf))
    w = d['use_fftw_wisdom']
    w = '' if w == 'false' else w
    if w:
        need(d['fftw_scheme'] != 'estimate')
        w = env(w if w.endswith('/') else w + '/')
    d['use_fftw_wisdom'] = w
    for s in 'fb':
        d[f'fftw_wisdom_file_{s}'] = '%sfftw_omp_ci%s_%dx%dx%d.wisdom' % (
            w, s, *ng) if w else ''
    b = d['save_binned_vectors']
    dflt = mdir + 'binned_vectors' + d['output_tag']
    if b == 'true' or b in ('', 'false') and st in ('modes', 'pairs'):
        b = dflt
    elif b == 'false':
        b = ''
    elif b and b[0] != '/':
        b = mdir + b
    d['save_binned_vectors'] = env(b)
    need(0 <= d['bin_min'] < d['bin_max'])
    need(d['num_bins'] >= (7 if d['binning'].endswith('pad') else 2))
    need(abs(d['idx_bin']) < d['num_bins'])
    need(d['idx_bin'] >= 0 or npt != '3pt' or d['form'] != 'row')
    return d


def view(p):
    d = {k: lib.L().vt_params_get_s(lib.V(p.p), k.encode()).decode(
        errors='replace') for k in lib.S_FIELDS}
    for k in lib.D_FIELDS:
        d[k] = lib.L().vt_params_get_d(lib.V(p.p), k.encode(), 0)
    for k in lib.I_FIELDS:
        d[k] = lib.L().vt_params_get_i(lib.V(p.p), k.encode(), 0)
    d['boxsize'] = [lib.L().vt_params_get_d(lib.V(p.p), b'boxsize', i)
                    for i in range(3)]
    d['ngrid'] = [lib.L().vt_params_get_i(lib.V(p.p), b'ngrid', i)
                  for i in range(3)]
    d['nmesh'] = lib.L().vt_params_get_nmesh(lib.V(p.p))
    d['planner'] = lib.L().vt_params_get_planner(lib.V(p.p))
    if not d['use_fftw_wisdom']:
        d['fftw_wisdom_file_f'] = d['fftw_wisdom_file_b'] = ''  # not used
    return d


PATHS = ('catalogue_dir', 'measurement_dir', 'data_catalogue_file',
         'rand_catalogue_file', 'use_fftw_wisdom', 'save_binned_vectors',
         'fftw_wisdom_file_f', 'fftw_wisdom_file_b')


def slim(p):
    return os.path.normpath(p) + '/'*p.endswith('/') if p else p


def diff(got, exp):
    out = []
    for k in got:
        a, b = got[k], exp[k]
        if k in PATHS:
            a, b = slim(a), slim(b)
        if a != b and not (k == 'volume' and abs(a - b) <= 1e-14*abs(b)):
            out.append(f'{k}: {a!r} not {b!r}')
    return '; '.join(out)[:1500]


def lines(entries):
    return [f'{k} = {v}' for k, v in entries.items()]


class Tmp:
    def __enter__(self):
        self.d = tempfile.mkdtemp()
        self.f = os.path.join(self.d, 'p.ini')
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d)

    def read(self, text):
        with open(self.f, 'w', newline='') as f:
            f.write(text)
        p = lib.Params()
        rc = lib.L().vt_params_read(lib.V(p.p), self.f.encode())
        return p, rc


def setup():
    lib.L()
    os.environ.update(ENV)
    os.environ.pop('VT_UNSET', None)
    for k in list(os.environ):
        if k.startswith('TRV_OVERRIDE'):
            del os.environ[k]


def compare(t, text, entries, k, rec, deep=False, what=None):
    """Read a file and compare it with the model of its entries."""
    rec.step()
    rec.valid()
    try:
        e = model(entries)
    except Reject:
        e = None
    p, rc = t.read(text)
    what = what or text[-600:]
    rec.outcome((e is None, rc))
    if e is None:
        if rc == 0:
            rec.fail(f'{k}:accepted', what)
        return None
    if rc:
        rec.fail(f'{k}:rejected', f'{what}: {lib.L().vt_err()!r}')
        return None
    got = view(p)
    s = diff(got, e)
    if s:
        rec.fail(f'{k}:differs', f'{what}: {s}')
        return None
    if deep:
        q = lib.Params(lib.L().vt_params_copy(lib.V(p.p)))
        s = diff(view(q), got)
        if s:
            rec.fail(f'{k}:copied', f'{what}: {s}')
        for i in range(2):
            rc = lib.L().vt_params_validate(lib.V(q.p), 0)
            s = lib.L().vt_err() if rc else diff(view(q), got)
            if s:
                rec.fail(f'{k}:again', f'{what}: {s!r}')
        cd, md = entries.get('catalogue_dir', ''), entries.get(
            'measurement_dir', '')
        if cd[:1] in '/' and md[:1] in '/':
            # printed and read back
            out = os.path.join(t.d, 'out.ini').encode()
            rc = lib.L().vt_params_print(lib.V(q.p), out)
            r = lib.Params()
            rc = rc or lib.L().vt_params_read(lib.V(r.p), out)
            s = lib.L().vt_err() if rc else diff(view(r), got)
            if s:
                rec.fail(f'{k}:printed', f'{what}: {s!r}')
    return p


BASE = dict(
    catalogue_dir='/c', measurement_dir='/m/d', data_catalogue_file='d.dat',
    rand_catalogue_file='/r/r.dat::r2.dat', catalogue_columns='x,y,z,nz,ws',
    catalogue_dataset='/set', output_tag='_t', boxsize_x='1000.',
    boxsize_y='900.5', boxsize_z='800.', ngrid_x='64', ngrid_y='48',
    ngrid_z='32', expand='1.1', cutoff_nyq='0.123456', alignment='pad',
    padscale='grid', padfactor='2.5', assignment='pcs', interlace='on',
    catalogue_type='survey', statistic_type='powspec', ell1='1', ell2='2',
    ELL='3', i_wa='4', j_wa='5', form='row', norm_convention='mesh-mixed',
    binning='logpad', bin_min='0.00512', bin_max='0.105123', num_bins='9',
    idx_bin='6', fftw_scheme='patient', use_fftw_wisdom='/w/Dir',
    save_binned_vectors='bv', verbose='60', progbar='2.5')
BASES = [
    BASE,
    dict(catalogue_type='sim', statistic_type='bispec', bin_min='0.01',
         bin_max='0.1', num_bins='3', boxsize_x='1e3', boxsize_y='1.5E3',
         boxsize_z='2e3', cutoff_nyq='.2', verbose='60'),
    dict(catalogue_type='random', statistic_type='3pcf-win-wa',
         rand_catalogue_file='r', bin_min='0.', bin_max='100', num_bins='7',
         ngrid_x='8', ngrid_y='8', ngrid_z='8', form='full', i_wa='1',
         verbose='60', save_binned_vectors='true', measurement_dir='/o'),
    dict(catalogue_type='none', statistic_type='modes', bin_min='0.',
         bin_max='100', num_bins='7', output_tag='.v1', boxsize_x='10',
         boxsize_y='10', boxsize_z='10', ngrid_x='4', ngrid_y='6',
         ngrid_z='8', verbose='60', catalogue_dir='rel',
         data_catalogue_file='x', measurement_dir='rel/out'),
    dict(catalogue_type='survey', statistic_type='2pcf', bin_min='1',
         bin_max='100', num_bins='4', cutoff_nyq='9', alignment='pad',
         padfactor='.1', verbose='60', data_catalogue_file='a::b::',
         rand_catalogue_file='c', catalogue_dir='/q/'),
]


def values():
    o = []

    def add(k, *vs):
        o.extend((k, v) for v in vs)
    add('catalogue_dir', '/x/y', 'z', '/x/y/', '.', '${VT_ABS}/e',
        '/p/${VT_REL}', '${VT_UNSET}/q', '${VT_ABS}${VT_REL}${VT_EMPTY}')
    add('measurement_dir', '/x/y', 'z', './', '${VT_ABS}', 'k/${VT_REL}/${VT'
        '_REL}')
    add('data_catalogue_file', '/x/y.h5', 'f', 'f::g', 'f::/g::h::',
        'p/${VT_REL}::/${VT_REL}')
    add('rand_catalogue_file', '/x/y.h5', 'f', 'f::g', '/f::g::/h',
        '/${VT_REL}')
    add('catalogue_columns', 'x,y,z', 'attr::cols')
    add('catalogue_dataset', 'grp/set')
    add('output_tag', '_a', '.v2', '-3')
    for a in 'xyz':
        add(f'boxsize_{a}', '512', '0', '1e4', '333.333333333', '+7.')
        add(f'ngrid_{a}', '12', '0', '1024')
    add('expand', '1', '1.05', '0.9', '2e0')
    add('cutoff_nyq', '0.3', '25', '0', '-1', '0.0612345')
    add('alignment', 'centre', 'pad', 'Pad', 'left')
    add('padscale', 'box', 'grid', 'cell')
    add('padfactor', '0', '0.02', '1', '-0.1', '7.75', '48')
    add('assignment', *SCHEMES, 'TSC', 'nearest')
    add('interlace', 'true', 'on', 'false', 'off', 'yes', '1')
    add('catalogue_type', 'survey', 'random', 'sim', 'none', 'mock')
    add('statistic_type', *NPT, 'trispec')
    add('ell1', '0', '2')
    add('ell2', '1', '4')
    add('ELL', '0', '2')
    add('i_wa', '0', '1')
    add('j_wa', '0', '2')
    add('form', 'diag', 'off-diag', 'row', 'full', 'triu', 'square')
    add('norm_convention', 'none', 'particle', 'mesh', 'mesh-mixed', 'grid')
    add('binning', 'lin', 'log', 'linpad', 'logpad', 'custom', 'cubic')
    add('bin_min', '0', '0.02', '-0.1', '200', '0.000123456789')
    add('bin_max', '0.2', '150.', '0.000001', '0.12345678901')
    add('num_bins', '1', '2', '6', '7', '200')
    add('idx_bin', '0', '1', '8', '-1', '-8', '9', '-9')
    add('fftw_scheme', 'estimate', 'measure', 'patient', 'exhaustive')
    add('use_fftw_wisdom', 'false', '/w', '/W/x/', 'rel', '${VT_ABS}/w')
    add('save_binned_vectors', 'true', 'false', 'f.bin', '/a/f.bin',
        's/${VT_REL}')
    add('verbose', '100', '55')
    add('progbar', 'true', 'false', '10', '33.3')
    return o


VALUES = values()


def one_case(key, payload, rec):
    """Every entry and value in every base, in several places of the file."""
    b, = payload
    with Tmp() as t:
        for k, v in VALUES:
            e = {**BASES[b], k: v}
            other = {x: y for x, y in e.items() if x != k}
            rec.state((b, k, v))
            for place, ls in (('in', lines(e)),
                              ('last', lines(other) + [f'{k} = {v}']),
                              ('first', [f'{k} = {v}'] + lines(other)),
                              ('twice', lines(BASES[b]) + [f'{k} = {v}'])):
                compare(t, '\n'.join(ls) + '\n', e, f'{key}:{k}={v}:{place}',
                        rec, deep=place == 'in')
        for k in KEYS:
            other = {x: y for x, y in BASES[b].items() if x != k}
            rec.state((b, k, None))
            for form in ('', f'{k} =\n', f'{k} =  \n', f'# {k} = 5\n',
                         f'{k} = \r\n'):
                compare(t, form + '\n'.join(lines(other)) + '\n', other,
                        f'{key}:{k}:unset:{form!r}', rec, deep=not form)


def pairs_case(key, payload, rec):
    """Every pair of entries and values."""
    b, part, n = payload
    ps = list(itertools.combinations(VALUES, 2))[part::n]
    with Tmp() as t:
        for (k1, v1), (k2, v2) in ps:
            if k1 == k2:
                continue
            e = {**BASES[b], k1: v1, k2: v2}
            rec.state((b, k1, v1, k2, v2))
            compare(t, '\n'.join(lines(e)) + '\n', e,
                    f'{key}:{k1}={v1}:{k2}={v2}', rec, deep=True)


def names_case(key, payload, rec):
    """Names of parameters within other names, values and comments."""
    b, k = payload
    base = BASES[b]
    other = {x: y for x, y in base.items() if x != k}
    val = base.get(k)
    own = [f'{k} = {val}'] if val is not None else []
    junk = []
    for bad in ('77', 'zz', '='):
        junk += [f'my_{k} = {bad}', f'{k}_x = {bad}', f'x{k} = {bad}',
                 f'{k}{k} = {bad}', f'{k.upper()}_ = {bad}',
                 f'# {k} = {bad}', f' # {k} = {bad}', f'#{k} = {bad}',
                 f'\t# = {k}', f'{k} {bad}', f'{k}', f'= {k} {bad}',
                 f'note: {k} = {bad}', f'see = {k}', f'z = a{k}b',
                 f'{k} == {bad}', f'{k} : {bad}']
    with Tmp() as t:
        for j in junk:
            for place, ls in (('after', lines(other) + own + [j]),
                              ('before', [j] + own + lines(other)),
                              ('between', own + [j] + lines(other))):
                rec.state((b, k, j, place))
                compare(t, '\n'.join(ls) + '\n', base, f'{key}:{j}:{place}',
                        rec)
        for pk in ('catalogue_dir', 'measurement_dir', 'data_catalogue_file',
                   'rand_catalogue_file', 'catalogue_columns',
                   'catalogue_dataset', 'output_tag', 'use_fftw_wisdom',
                   'save_binned_vectors'):
            if pk == k or pk == 'use_fftw_wisdom' and \
                    base.get('fftw_scheme') == 'estimate':
                continue
            v = f'/a/{k}/{k}_1'
            e = {x: y for x, y in base.items() if x not in (k, pk)}
            ls = lines(e)
            for place, ls in (('after', ls + own + [f'{pk} = {v}']),
                              ('before', [f'{pk} = {v}'] + own + ls)):
                rec.state((b, k, pk, place))
                compare(t, '\n'.join(ls) + '\n', {**base, pk: v},
                        f'{key}:in {pk}:{place}', rec)


def order_case(key, payload, rec):
    """Orders of the lines."""
    b, tier = payload
    ls = lines(BASES[b])
    n = len(ls)
    orders = [ls[::-1]] + [ls[i:] + ls[:i] for i in range(n)]
    for i, j in itertools.combinations(range(n), 2):
        o = list(ls)
        o[i], o[j] = o[j], o[i]
        orders.append(o)
    for i in range(n):
        orders += [[ls[i]] + ls[:i] + ls[i + 1:], ls[:i] + ls[i + 1:] + [ls[i]]]
    with Tmp() as t:
        for i, o in enumerate(orders):
            rec.state((b, i))
            compare(t, '\n'.join(o) + '\n', BASES[b], f'{key}:{i}', rec)


def format_case(key, payload, rec):
    """White space, comments, line ends, lengths."""
    b, = payload
    base = BASES[b]
    ls = lines(base)
    with Tmp() as t:
        forms = {
            'crlf': '\r\n'.join(ls) + '\r\n',
            'no end': '\n'.join(ls),
            'blank': '\n\n'.join(ls) + '\n\n \n\t\n',
            'indent': '\n'.join('  \t' + x for x in ls) + '\n',
            'wide': '\n'.join(x.replace(' = ', ' \t =   ') for x in ls),
            'trailing': '\n'.join(x + '   \t' for x in ls) + '\n',
            'comment': '\n'.join(x + ' # 5 = 6' for x in ls) + '\n',
            'more': '\n'.join(x + ' extra words' for x in ls) + '\n',
            'comments': '\n'.join(f'# {x}\n#\n#{x}\n{x}' for x in ls),
            'twice': '\n'.join(ls*2),
            'long comment': '# ' + 'x'*5000 + '\n' + '\n'.join(ls),
            'long words': '\n'.join([f'{"k"*3000} = {"v"*3000}'] + ls),
        }
        for name, text in forms.items():
            rec.state((b, name))
            compare(t, text, base, f'{key}:{name}', rec, deep=True,
                    what=name)
        for k in STR:
            for n in (1, 14, 15, 16, 17, 18, 31, 32, 63, 64, 100, 255, 256,
                      700, *((1022, 1023, 1024, 1025, 3000)
                             if k.endswith(('file', 'columns', 'dataset'))
                             else ()),
                      *((5000, 70000) if k.endswith('file') else ())):
                v = ('/' + 'abcdefghi/'*n)[:n] + '' if k not in (
                    'catalogue_columns',) else ('x,yz,'*n)[:n]
                if k.endswith('file') and n > 3000:
                    v = '::'.join(['/' + 'q'*98]*(n//100))
                if n == 1 and k == 'progbar' or k == 'verbose':
                    continue
                e = {**base, k: v}
                if k == 'progbar':
                    # its value is only used by the measurement
                    pass
                rec.state((b, k, n))
                compare(t, '\n'.join(lines(e)), e, f'{key}:{k}:len{n}', rec,
                        what=f'{k} of {n} characters')


def env_case(key, payload, rec):
    """Every combination of overriding environment variables."""
    b, = payload
    opts = dict(
        OUTPUT_TAG=(None, '_env', ''), FFTW_SCHEME=(None, 'estimate',
                                                    'patient', 'bad'),
        USE_FFTW_WISDOM=(None, 'false', '/ew', '/ew/', '${VT_ABS}'),
        VERBOSE=(None, '70'), PROGBAR=(None, 'true', '12.5'))
    base = BASES[b]
    with Tmp() as t:
        text = '\n'.join(lines(base))
        for combo in itertools.product(*opts.values()):
            e = dict(base)
            p, rc = t.read(text)
            for k, v in zip(opts, combo):
                os.environ.pop(f'TRV_OVERRIDE_{k}', None)
                if v is not None:
                    os.environ[f'TRV_OVERRIDE_{k}'] = v
                    e[k.lower()] = v
            rec.state((b, combo))
            rec.step()
            rec.valid()
            rc = rc or lib.L().vt_params_envvars(lib.V(p.p))
            try:
                m = model(e)
            except Reject:
                m = None
            k = f'{key}:{combo}'
            rec.outcome((m is None, rc))
            if (m is None) != (rc != 0):
                rec.fail(f'{k}:{"accepted" if m is None else "rejected"}',
                         f'{lib.L().vt_err()!r}')
            elif m is not None:
                s = diff(view(p), m)
                if s:
                    rec.fail(k, s)
        for k in opts:
            os.environ.pop(f'TRV_OVERRIDE_{k}', None)


def derive_case(key, payload, rec):
    """Box sizes from particle spans, grid numbers from the cutoff."""
    b, = payload
    spans = [(100., 200., 300.), (1., 1., 1.), (333.3, 1e4, 7.)]
    with Tmp() as t:
        for sp, ex, cut, ngs in itertools.product(
                spans, ('1', '1.1', '3'), ('0.5', '0', '20'),
                ('0', '32')):
            e = {k: v for k, v in BASES[b].items() if k[:3] != 'box'}
            e.update(expand=ex, cutoff_nyq=cut, alignment='centre',
                     **{f'ngrid_{a}': ngs for a in 'xyz'})
            k = f'{key}:{sp}:{ex}:{cut}:{ngs}'
            p = compare(t, '\n'.join(lines(e)), e, k, rec)
            if p is None:
                continue
            rec.state((b, sp, ex, cut, ngs))
            import numpy as np
            rc = lib.L().vt_params_box_from_expand(
                lib.V(p.p), lib.pD(lib.D(sp)))
            e2 = {**e, **{f'boxsize_{a}': repr(s*float(ex))
                          for a, s in zip('xyz', sp)}}
            try:
                m = model(e2)
            except Reject:
                m = None
            if (m is None) != (rc != 0):
                rec.fail(f'{k}:box', f'{rc} {lib.L().vt_err()!r}')
            elif m is not None:
                s = diff(view(p), m)
                if s:
                    rec.fail(f'{k}:box:differs', s)
                if ngs == '0':
                    rc = lib.L().vt_params_ngrid_from_cutoff(lib.V(p.p))
                    s = rc or diff(view(p), m)
                    if s:
                        rec.fail(f'{k}:grid', f'{s}')


def print_case(key, payload, rec):
    """The file of used parameters in the measurement directory."""
    b, = payload
    with Tmp() as t:
        for tag in ('', '_t', '.v1.2', '_' + 'x'*100):
            m = Path(t.d, 'meas' + tag[:3])
            m.mkdir(exist_ok=True)
            e = {**BASES[b], 'output_tag': tag, 'measurement_dir': str(m)}
            if not tag:
                del e['output_tag']
            rec.state((b, tag))
            p = compare(t, '\n'.join(lines(e)), e, f'{key}:{tag}', rec)
            rc = lib.L().vt_params_print_default(lib.V(p.p))
            names = sorted(x.name for x in m.iterdir())
            if rc or names != ['parameters_used' + tag]:
                rec.fail(f'{key}:{tag}:name', f'{rc} {names}')
                continue
            q = lib.Params()
            rc = lib.L().vt_params_read(lib.V(q.p),
                                        str(m/names[0]).encode())
            s = rc or diff(view(q), view(p))
            if s and not e.get('catalogue_dir', '/').startswith('r'):
                rec.fail(f'{key}:{tag}:read', f'{s}')
            rc = lib.L().vt_params_print(lib.V(p.p),
                                         f'{t.d}/no/such/f'.encode())
            if not rc:
                rec.fail(f'{key}:{tag}:unwritable', 'no error')


def main(tier=None):
    ch = core.Check('P14', tier)
    th = ch.tier == 'thorough'
    lib.prepare('exe')
    nb = range(len(BASES))
    ch.run_cases('entries', [(f'one:{b}', (b,)) for b in nb], one_case,
                 setup=setup)
    ch.run_cases('names', [(f'name:{b}:{k}', (b, k))
                           for b in (nb if th else (0, 1, 4)) for k in KEYS],
                 names_case, setup=setup)
    ch.run_cases('orders', [(f'order:{b}', (b, th)) for b in nb], order_case,
                 setup=setup)
    ch.run_cases('formats', [(f'form:{b}', (b,)) for b in nb], format_case,
                 setup=setup)
    ch.run_cases('environment', [(f'env:{b}', (b,)) for b in nb], env_case,
                 setup=setup)
    ch.run_cases('derived', [(f'derive:{b}', (b,)) for b in nb], derive_case,
                 setup=setup)
    ch.run_cases('printed', [(f'print:{b}', (b,)) for b in nb], print_case,
                 setup=setup)
    ch.run_cases('pairs', [(f'pair:{b}:{i}', (b, i, 24))
                           for b in nb for i in range(24)], pairs_case,
                 setup=setup)
    return ch.finish(
        rule='every listed entry and value in every base file and place, '
        'every pair of them, names of all parameters inside other lines, '
        'line orders, white space, lengths and environment overrides; each '
        'compared with the documented meaning, copied, validated again, '
        'printed and read back')
