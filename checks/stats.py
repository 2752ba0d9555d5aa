"""Shared by the statistics checks P07-P11: catalogues and comparisons."""
import numpy as np

from vt import lib, model

# fixed fractional positions with awkward members (edges, half-cells, corner)
FRAC = np.array([
    [.031, .112, .973], [.52, .521, .13], [.88, .4, .666], [0., .5, .25],
    [.999, .001, .5], [.3, .7, .1], [.615, .215, .805], [.75, .75, .75],
    [.11, .62, .44], [.4, .93, .27], [.19, .34, .58], [.83, .08, .37]])
WS = np.array([1., 1.5, .5, 1., 2., .75, 1.25, .9, 1.1, .6, 1.7, .8])
WC = np.array([1., .8, 1.2, 1., 1.1, .95, .7, 1.3, 1., .85, 1.15, .65])
NZ = np.array([.1, .2, .3, .25, .15, .05, .35, .4, .12, .22, .32, .42])
LOS = np.array([
    [1., 2., -.5], [0., 0., 1.], [-.3, .4, .2], [5., -5., 1.], [.2, -.1, .9],
    [1., 0., 0.], [0., -1., 0.], [-1., -1., -1.], [0., 0., -2.], [.6, .8, 0.],
    [-.7, .1, .4], [.05, .9, -.3]])


def rows(box, idx, frac=FRAC):
    idx = list(idx)
    return np.column_stack([frac[idx]*np.array(box), NZ[idx], WS[idx],
                            WC[idx]])


def los(idx):
    return LOS[list(idx)]


# more cells, particles and bins than the rest
LARGE = (1200., 1000., 1500.), (10, 12, 9)
LARGE3 = (((1200., 1000., 1500.), (11, 9, 13)),
          ((1200., 1000., 1500.), (12, 10, 14)))


def large(n, box, part):
    """Rows and lines of sight of n particles."""
    i = np.arange(1, n + 1)[:, None]
    u = (i*np.sqrt([2., 3., 5., 7., 11., 13., 17., 19., 23.]) + part*.37) % 1.
    r = np.column_stack([u[:, :3]*np.array(box), .1 + .3*u[:, 3],
                         .5 + u[:, 4], .6 + .8*u[:, 5]])
    return r, u[:, 6:] - .45


DATA = (0, 1, 2, 4, 6)
RAND = (3, 5, 7, 8, 9, 10, 11)

GRIDS = [((500., 730., 610.), (5, 7, 5)), ((640., 640., 640.), (6, 6, 6)),
         ((800., 530., 700.), (4, 7, 6)), ((900., 900., 900.), (7, 7, 7))]
GRIDS_T = GRIDS + [((1000., 1000., 1000.), (8, 8, 8)),
                   ((450., 1210., 777.), (3, 9, 6)),
                   ((1300., 600., 900.), (9, 4, 5))]
SCHEMES = ('ngp', 'cic', 'tsc', 'pcs')


def close(got, want, scale, tol):
    """Error message, or None."""
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        return f'{got.shape[0]} entries instead of {want.shape[0]}'
    bad = ~(np.abs(got - want) <= tol*scale)
    if not bad.any():
        return None
    i = int(np.argmax(bad))
    return f'entry {i}: {got[i]} instead of {want[i]} (scale {scale:.3g})'


def compare2(rec, key, tab, want, edges, norm, gscale=None, tol=1e-8):
    num, eff, raw, sn = want
    if len(tab) != len(num):
        rec.fail(key, f'{len(tab)} bins returned instead of {len(num)}')
        return
    rec.valid()
    cen = (edges[:-1] + edges[1:])/2
    scale = norm*max(np.abs(raw).max(), gscale or 0.)
    for name, g, w, s in (
            ('bin centre', tab[:, 0], cen, cen.max()),
            ('count', tab[:, 2], num, 1e-3),
            ('effective coordinate', tab[:, 1], eff, cen.max()),
            ('raw value', tab[:, 3] + 1j*tab[:, 4], norm*raw, scale)):
        msg = close(g, w, s, tol)
        if msg:
            rec.fail(f'{key}:{name}', f'{name} {msg}')
    if sn is not None:
        msg = close(tab[:, 5] + 1j*tab[:, 6], norm*sn, scale, tol)
        if msg:
            rec.fail(f'{key}:shot noise', f'shot noise {msg}')


def compare3(rec, key, tab, want, edges, lay, norm, gscale, sscale, tol=5e-6):
    num, eff, raw, sn = want
    if len(tab) != len(lay):
        rec.fail(key, f'{len(tab)} entries returned instead of {len(lay)}')
        return
    rec.valid()
    cen = (edges[:-1] + edges[1:])/2
    i = [a for a, _ in lay]
    j = [b for _, b in lay]
    for name, g, w, s, t in (
            ('first bin centre', tab[:, 0], cen[i], cen.max(), 1e-8),
            ('second bin centre', tab[:, 1], cen[j], cen.max(), 1e-8),
            ('first effective coordinate', tab[:, 2], eff[i], cen.max(),
             1e-8),
            ('second effective coordinate', tab[:, 3], eff[j], cen.max(),
             1e-8),
            ('first count', tab[:, 4], num[i], 1e-3, 1e-8),
            ('second count', tab[:, 5], num[j], 1e-3, 1e-8),
            ('raw value', tab[:, 6] + 1j*tab[:, 7], norm*raw,
             max(norm*gscale, 1e-300), tol),
            ('shot noise', tab[:, 8] + 1j*tab[:, 9], norm*sn,
             max(norm*sscale, 1e-300), tol)):
        msg = close(g, w, s, t)
        if msg:
            rec.fail(f'{key}:{name}', f'{name} {msg}')


def kbinnings(S, tier):
    """Named edge lists in Fourier space, clear of every mode."""
    kf = 2*np.pi/max(S.box)
    out = [('all', model.safe_edges(S.kmag, 4, 1e-5)),
           ('top', np.array([S.kmag.max()*1.01, S.kmag.max()*1.5,
                             S.kmag.max()*1.9]))]
    out.append(('zero', np.array([0., *model.safe_edges(S.kmag, 2, 1e-5)])))
    e = model.safe_edges(S.kmag, 2, 1e-5, stop=3*kf)
    # an empty bin between two populated ones
    out.append(('gap', np.array([e[0]*.2, e[0]*.3, *e])))
    if tier == 'large':
        return [('many', model.safe_edges(S.kmag, 12, 1e-5))]
    if tier == 'thorough':
        out.append(('fine', model.safe_edges(S.kmag, 9, 1e-5)))
    return out


def rbinnings(S, tier, step):
    out = [('all', model.safe_edges(S.rmag, 4, step)),
           ('zero', np.concatenate([[0.], model.safe_edges(S.rmag, 2, step)
                                    ]))]
    e = model.safe_edges(S.rmag, 2, step)
    out.append(('gap', np.array([e[0]*.2, e[0]*.3, *e])))
    if tier == 'large':
        return [('many', model.safe_edges(S.rmag, 12, step))]
    if tier == 'thorough':
        out.append(('fine', model.safe_edges(S.rmag, 8, step)))
    return out


def with_scale(S):
    return S
