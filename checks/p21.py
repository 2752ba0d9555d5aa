"""P21: a measurement depends on what it is given, not on what came before.

Every history of measurement calls up to a depth is executed in one process
on one set of catalogues, parameter sets, binnings and lines of sight; each
call must return what it returns as the only call of a process, and leave
what it was given as it was.
"""
import itertools
import os
import pickle
import signal
import sys
import warnings

import numpy as np

from vt import build, core
from . import p22
from . import pyapi as pa
from . import stats as st

TWO = ('powspec', 'corrfunc')
FUNCS = {
    'pk': ('twopt', 'compute_powspec', 's', 'k'),
    'xi': ('twopt', 'compute_corrfunc', 's', 'r'),
    'pkb': ('twopt', 'compute_powspec_in_gpp_box', 'b', 'k'),
    'xib': ('twopt', 'compute_corrfunc_in_gpp_box', 'b', 'r'),
    'xiw': ('twopt', 'compute_corrfunc_window', 'w', 'r'),
    'bk': ('threept', 'compute_bispec', 's', 'k'),
    'zeta': ('threept', 'compute_3pcf', 's', 'r'),
    'bkb': ('threept', 'compute_bispec_in_gpp_box', 'b', 'k'),
    'zetab': ('threept', 'compute_3pcf_in_gpp_box', 'b', 'r'),
    'zetaw': ('threept', 'compute_3pcf_window', 'w', 'r'),
}
# full: everything set, one parameter set for all calls of a space
# auto/autob: box and mesh derived from the catalogue (a, b)
# over: parameter set overridden by keywords; keyw: keywords only, all of
# them; lean: keywords only, as few as there can be
# bad: refused
VARIANTS = ('full', 'auto', 'autob', 'over', 'keyw', 'lean', 'bad')
OPS = [(f, v) for f in FUNCS for v in VARIANTS
       if not (FUNCS[f][2] == 'w' and v.startswith('auto'))]
# histories of three calls
SUB = [('pk', 'full'), ('pk', 'autob'), ('xi', 'auto'), ('pkb', 'full'),
       ('xib', 'autob'), ('xiw', 'keyw'), ('bk', 'full'), ('zeta', 'over'),
       ('zeta', 'bad'), ('pk', 'lean'), ('zetab', 'lean'), ('bkb', 'keyw'), ('zetab', 'full'), ('zetaw', 'full')]
MORE = SUB + [o for o in OPS if o[1] in ('full', 'autob', 'over')
              and o not in SUB]
CHEAP = [('xib', 'full'), ('zetaw', 'keyw'), ('bk', 'full'), ('bkb', 'full'),
         ('zeta', 'autob'), ('zetab', 'auto'), ('pk', 'autob')]
# the mesh of the mixed normalisation has cells of 10
SCALE = .2
BOXF = (128., 140., 122.)
PKG = None


def setup():
    sys.path.insert(0, str(PKG))
    warnings.simplefilter('ignore')
    import triumvirate.threept  # noqa: F401
    import triumvirate.twopt  # noqa: F401


class World:
    """The objects of one user session."""

    def __init__(self):
        from triumvirate.catalogue import ParticleCatalogue
        from triumvirate.dataobjs import Binning
        from triumvirate import parameters

        def cat(r, nz=True):
            return ParticleCatalogue(r[:, 0], r[:, 1], r[:, 2],
                                     nz=r[:, 3] if nz else None,
                                     ws=r[:, 4], wc=r[:, 5])
        da = pa.tables(pa.DFRAC, pa.DIDX, pa.ORIGIN*SCALE,
                       pa.SPAN*SCALE)
        ra = pa.tables(pa.RFRAC, pa.RIDX, pa.ORIGIN*SCALE,
                       pa.SPAN*SCALE)
        ob, sb = np.array([-18., 26., 82.]), np.array([30., 42., 36.])
        db = pa.tables(pa.DFRAC[1:], pa.DIDX[1:], ob, sb)
        rb = pa.tables(pa.RFRAC[::-1], pa.RIDX[::-1], ob, sb)
        self.cats = dict(da=cat(da), ra=cat(ra), db=cat(db), rb=cat(rb),
                         ba=cat(da), bb=cat(db, False))
        self.los = dict(d=st.los(pa.DIDX), r=st.los(pa.RIDX),
                        d2=st.los(pa.DIDX[1:]), r2=st.los(pa.RIDX[::-1]))
        self.binnings = dict(
            k=Binning('fourier', 'lin', .06, .25, 3),
            r=Binning('config', 'lin', 6., 62., 4))
        self.par = {}
        for sp, rg, cut in (('k', [.04, .2], .13), ('r', [3., 56.], 17.)):
            for kind in ('full', 'auto'):
                p = parameters.fetch_paramset_template('dict')
                p.update(
                    catalogue_type='survey',
                    statistic_type='powspec' if sp == 'k' else '2pcf',
                    assignment='tsc' if kind == 'full' else 'cic',
                    interlace=kind == 'full', num_bins=3, range=rg,
                    degrees=dict(ell1=1, ell2=0, ELL=1)
                    if kind == 'full' else dict(ell1=0, ell2=0, ELL=0),
                    form='diag' if kind == 'full' else 'row', idx_bin=1,
                    fftw_scheme='estimate', verbose=60)
                if kind == 'full':
                    p.update(boxsize=dict(zip('xyz', BOXF)),
                             ngrid=dict(zip('xyz', (5, 7, 4))))
                else:
                    p.update(expand=1.3, cutoff_nyq=cut, alignment='pad',
                             padscale='grid', padfactor=.25,
                             norm_convention='particle')
                self.par[sp, kind] = parameters.ParameterSet(param_dict=p)
        self.sampling = dict(
            a=dict(boxsize=[138., 130., 144.], ngrid=[6, 4, 5],
                   assignment='pcs', alignment='pad', boxpad=.02),
            b=dict(boxsize=[70., 60., 58.], ngrid=[4, 5, 4],
                   assignment='ngp'),
            c=dict(boxsize=[128., 140., 122.], ngrid=[5, 4, 6]))

    def call(self, op):
        import triumvirate.threept
        import triumvirate.twopt
        f, v = op
        mod, name, kind, sp = FUNCS[f]
        func = getattr(getattr(triumvirate, mod), name)
        three = mod == 'threept'
        b = v in ('autob', 'keyw')
        c = self.cats
        kw = {}
        if kind == 's':
            args = (c['db' if b else 'da'], c['rb' if b else 'ra'])
        elif kind == 'b':
            args = (c['bb' if b else 'ba'],)
        else:
            args = (c['rb' if b else 'ra'],)
        if v in ('over', 'keyw'):
            if kind in 'sw':
                kw['los_rand'] = self.los['r2' if b else 'r']
            if kind == 's':
                kw['los_data'] = self.los['d2' if b else 'd']
            if three:
                kw['degrees'] = (1, 1, 0) if b else (0, 2, 2)
                kw['form'], kw['idx_bin'] = ('full', 0) if b else ('row', 2)
            else:
                kw['degree'] = 1 if b else 2
            kw['binning'] = self.binnings[sp]
            kw['sampling_params'] = self.sampling['b' if b else 'a']
        if v == 'lean':
            kw['degrees' if three else 'degree'] = (0, 0, 0) if three else 0
            if three:
                kw['form'] = 'diag'
            kw['binning'] = self.binnings[sp]
            kw['sampling_params'] = self.sampling['c']
        elif v != 'keyw':
            kw['paramset'] = self.par[
                sp, 'auto' if v.startswith('auto') else 'full']
        if v == 'bad':
            # refused after the catalogues have been looked at, or before
            if kind == 's':
                kw['los_rand'] = self.los['d']
            elif kind == 'w':
                kw['los_rand'] = self.los['d']
            elif three:
                kw['degrees'] = (0, 0, 1)
                kw['sampling_params'] = dict(assignment='none')
            else:
                kw['degree'] = -2
                kw['sampling_params'] = dict(assignment='none')
        try:
            res = func(*args, **kw)
        except Exception as e:
            return 'raised', type(e).__name__
        return 'ok', {k: np.array(x) for k, x in res.items()}

    def held(self):
        """What the user holds."""
        out = {}
        for n, c in self.cats.items():
            for col in ('x', 'y', 'z', 'nz', 'ws', 'wc'):
                out[n, col] = np.array(c[col]).tobytes()
            out[n, 'bounds'] = repr((c.bounds, c.spans))
            out[n, 'totals'] = c.ntotal, c.wtotal, c.wstotal
        for n, x in self.los.items():
            out['los', n] = x.tobytes()
        for n, b in self.binnings.items():
            out['binning', n] = repr((
                b.space, b.scheme, b.bin_min, b.bin_max, b.num_bins,
                list(b.bin_edges), list(b.bin_centres), list(b.bin_widths)))
        for n, p in self.par.items():
            out['parameters', n] = repr(dict(p.items()))
        out['sampling'] = repr(self.sampling)
        return out


def fork(func, *args):
    """func(*args) in a copy of this process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.alarm(600)
            b = pickle.dumps(func(*args))
            while b:
                b = b[os.write(w, b):]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        b = f.read()
    status = os.waitpid(pid, 0)[1]
    return pickle.loads(b) if b and not status else ('died', status)


REF = {}


def reference(op):
    if op not in REF:
        REF[op] = fork(lambda: World().call(op))
    return REF[op]


def judge(op, got):
    ref = reference(op)
    if op[1] == 'bad':
        if ref[0] != 'raised':
            return f'not refused: {ref}'
    elif ref[0] != 'ok':
        return f'the only call of a process: {ref}'
    if got[0] != ref[0]:
        return f'{got} not {ref}'
    if got[0] == 'raised':
        return None if got == ref else f'{got} not {ref}'
    return p22.same(got[1], ref[1])


def step(world, held, op, k):
    """One call; the failures and the outcome."""
    fails = []
    got = world.call(op)
    bad = judge(op, got)
    if bad:
        fails.append((f'{k}:result', bad))
    now = world.held()
    for x in held:
        if now[x] != held[x]:
            fails.append((f'{k}:changed', f'{x} changed'))
            break
    return fails, got[0]


def name(op):
    return '.'.join(op)


def grow(world, held, prefix, levels, only):
    """All histories that go on from here (this process has the prefix)."""
    op, fails, n = prefix[-1], [], 1
    k = '+'.join(map(name, prefix))
    fails, _ = step(world, held, op, k)
    if not fails and levels:
        for nxt in levels[0]:
            p = (*prefix, nxt)
            if only and not only.startswith('+'.join(map(name, p))):
                continue
            out = fork(grow, world, held, p, levels[1:], only)
            if out[0] == 'died':
                fails.append(('+'.join(map(name, p)) + ':died',
                              f'the process ended: {out[1]}'))
                n += 1
            else:
                fails += out[0][:5]
                n += out[1]
            if len(fails) > 30:
                break
    return fails, n


def tree_case(key, payload, rec):
    prefix, levels = payload
    for o in OPS:
        reference(o)
    w = World()
    held = w.held()
    only = os.environ.get('VT_ONLY')
    only = only and only.split('|', 1)[-1]
    # the calls before the last of the prefix belong to other cases
    for op in prefix[:-1]:
        step(w, held, op, '')
    out = fork(grow, w, held, prefix, levels, only)
    if out[0] == 'died':
        rec.fail(f'{key}|{"+".join(map(name, prefix))}:died', str(out))
        return
    rec.nstates += out[1]
    rec.step(out[1])
    rec.valid(out[1])
    for f in out[0]:
        rec.fail(f'{key}|{f[0]}', f[1])
    for o in OPS:
        rec.outcome((o, repr(reference(o))))


def order2(ops):
    """A closed walk through every ordered pair of calls once."""
    out = {a: list(ops) for a in ops}
    walk, stack = [], [ops[0]]
    while stack:
        if out[stack[-1]]:
            stack.append(out[stack[-1]].pop())
        else:
            walk.append(stack.pop())
    return walk[::-1]


def walk_case(key, payload, rec):
    """One long session that takes every ordered pair of calls."""
    for o in OPS:
        reference(o)
    w = World()
    held = w.held()
    for i, op in enumerate(order2(payload)):
        rec.state((key, i))
        rec.step()
        rec.valid()
        fails, _ = step(w, held, op, f'{key}:{i}:{name(op)}')
        for f in fails:
            rec.fail(*f)
        if len(rec.fails) > 3:
            return


def main(tier=None):
    global PKG
    c = core.Check('P21', tier)
    deep = c.tier == 'thorough'
    PKG = build.python_package()
    cases = []
    sub = MORE if deep else SUB
    for a in OPS:
        rest = [b for b in OPS if b not in sub or a not in sub]
        if rest:
            cases.append((f'two:{name(a)}', ((a,), [rest])))
    for a, b in itertools.product(sub, sub):
        cases.append((f'three:{name(a)}:{name(b)}', ((a, b), [sub])))
    if deep:
        four = CHEAP
        for a, b in itertools.product(four, four):
            cases.append((f'four:{name(a)}:{name(b)}',
                          ((a, b), [four, four])))
    c.run_cases('histories', cases, tree_case, setup=setup, timeout=600)
    by = {}
    for o in OPS:
        by.setdefault(FUNCS[o[0]][0], []).append(o)
    most = [o for o in OPS if o[1] in ('full', 'autob', 'bad')]
    walks = [('walk:most', most), ('walk:reversed', most[::-1])]
    if deep:
        walks = [('walk:all', OPS), ('walk:reversed', OPS[::-1])] + [
            (f'walk:{m}', by[m]) for m in by]
    c.run_cases('long sessions', walks, walk_case, setup=setup, timeout=600)
    c.assumptions += [
        'Histories of two calls out of all '
        f'{len(OPS)} kinds and of three out of {len(sub)}'
        + (f' and of four out of {len(CHEAP)}' if deep else '')
        + ', and sessions with every ordered pair of calls in one process.',
        'One thread; the results of the only call of a process are compared '
        'with their definitions by P07-P10.']
    return c.finish(
        'every history of measurement calls up to the depth on one set of '
        'catalogues, parameter sets, binnings and lines of sight; after each '
        'call the result is that of the same call alone in a process and '
        'nothing the user holds has changed')
