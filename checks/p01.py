"""P01: mesh assignment deposits exactly the documented kernel, everywhere.

State space: every placement of one particle on a lattice of sub-cell
positions (all cells x all sub-cell offsets, cell edges and the box edges
included, along every axis), every scheme, with and without interlacing, for
grids of every parity and several box shapes; and every multiset of up to
two/three particles on a coarser lattice (superposition).  Each is executed on
the real mesh and compared with B-spline weights computed in the model.
"""
import itertools

import numpy as np

from vt import build, core, lib, ref

SCHEMES = ('ngp', 'cic', 'tsc', 'pcs')
TOL = 1e-9


def grids(tier):
    # (box, ngrid): powers of two keep lattice positions exact
    g = [((8., 8., 8.), (4, 4, 4)),
         ((16., 6., 10.), (4, 6, 5)),
         ((7., 9., 11.), (7, 3, 4)),
         ((100., 130., 90.), (5, 8, 3))]
    if tier == 'thorough':
        g += [((3.3, 5.7, 12.1), (8, 9, 5)), ((1e3, 1e3, 1e3), (6, 6, 6)),
              ((1., 1., 1.), (3, 3, 3)), ((2., 4., 8.), (5, 5, 7)),
              ((1e-3, 2e-3, 5e3), (4, 5, 6))]
    return g


SUB = (0., .125, .25, .375, .5, .625, .75, .875)
SUB_T = tuple(i/16 for i in range(16))


def lattice(L, n, sub):
    """Positions on one axis: (position, exact location in cells)."""
    out = [(L*(i + s)/n, i + s) for i in range(n) for s in sub]
    # the edges of the half-open box
    eps = np.nextafter(L, 0.)
    out += [(eps, float(n)), (L*(1 - 1e-12), n*(1 - 1e-12)),
            (np.nextafter(L*.5/n, 0.), .5), (np.nextafter(L*.5/n, L), .5),
            (5e-324, 0.), (L, float(n))]
    return out


def is_tie(loc, shift):
    f = (loc + shift) % 1.
    return abs(f - .5) < 1e-9


def run_one(mesh, F, box, ng, scheme, inter, cat, w, pred, preds, tie, rec,
            key, where):
    """Execute the assignment and compare with the predicted meshes."""
    mesh.assign(cat, w)
    got = mesh.arr()
    vc = np.prod(box)/np.prod(ng)
    rec.valid()
    rec.step()
    scale = np.abs(w).sum()/vc
    if not np.all(np.isfinite(got)):
        rec.fail(key, f'{where}: non-finite mesh')
        return
    if abs(got.sum()*vc - w.sum()) > TOL*np.abs(w).sum():
        rec.fail(key, f'{where}: total weight {got.sum()*vc} != {w.sum()}')
        return
    if not tie and np.abs(got - pred).max() > TOL*scale:
        rec.fail(key, f'{where}: mesh differs from the {scheme} kernel by '
                      f'{np.abs(got - pred).max()/scale:.3e} (relative)\n'
                      f'got {np.round(got[np.abs(got-pred)>TOL*scale][:6],9)}'
                      f' want '
                      f'{np.round(pred[np.abs(got-pred)>TOL*scale][:6],9)}')
        return
    if inter:
        mesh.ft()
        gF = mesh.arr()
        # total weight of both meshes
        if abs(gF[0, 0, 0] - w.sum()) > TOL*np.abs(w).sum():
            rec.fail(key, f'{where}: interlaced zero mode '
                          f'{gF[0, 0, 0]} != {w.sum()}')
            return
        if not tie:
            want = ref.fourier(pred, box, preds)
            if np.abs(gF - want).max() > TOL*np.abs(w).sum():
                rec.fail(key, f'{where}: interlaced transform differs by '
                              f'{np.abs(gF - want).max():.3e}')


def case(key, payload, rec):
    box, ng, scheme, inter, mode, sub, part = payload
    p = lib.mkparams(box, ng, assignment=scheme,
                     interlace='true' if inter else 'false')
    mesh = lib.Mesh(p)
    order = ref.ORDER[scheme]
    vc = np.prod(box)/np.prod(ng)
    lat = [lattice(box[a], ng[a], sub) for a in range(3)]
    tabs = [[(ref.weights_1d(l, ng[a], order),
              ref.weights_1d(l + .5, ng[a], order)) for _, l in lat[a]]
            for a in range(3)]
    F = None

    def pred(ids, j):
        return tabs[0][ids[0]][j][:, None, None] \
            * tabs[1][ids[1]][j][None, :, None] \
            * tabs[2][ids[2]][j][None, None, :]/vc

    def tie(ids):
        return scheme == 'ngp' and any(
            is_tie(lat[a][ids[a]][1], s) for a in range(3)
            for s in ((0., .5) if inter else (0.,)))

    if mode == 'axis':
        # all placements along one axis x representative others
        a = part
        others = [[0, 3, len(lat[b]) - 9, len(lat[b]) - 6, len(lat[b]) - 1]
                  for b in range(3) if b != a]
        todo = []
        for i in range(len(lat[a])):
            for o in itertools.product(*others):
                ids = list(o)
                ids.insert(a, i)
                todo.append((tuple(ids),))
    elif mode == 'crowd':
        # the placements of the three axes as one catalogue
        one = []
        for a in range(3):
            others = [[0, 3, len(lat[b]) - 9, len(lat[b]) - 5]
                      for b in range(3) if b != a]
            for i in range(len(lat[a])):
                for o in itertools.product(*others):
                    ids = list(o)
                    ids.insert(a, i)
                    if not tie(ids):
                        one.append(tuple(ids))
        todo = [tuple(one), tuple(one[::-1]), tuple(one[:257])]
    elif mode == 'full':
        r = [range(len(lat[0]))[part::4], range(len(lat[1])),
             range(len(lat[2]))]
        todo = [(ids,) for ids in itertools.product(*r)]
    else:
        # multisets of particles on few sites, some sharing cells
        n = [len(x) for x in lat]
        sites = [(0, 0, 0), (1, 1, 1), (n[0] - 6, n[1] - 6, n[2] - 6),
                 (5, n[1] - 7, 2), (n[0] - 7, 3, n[2] - 8),
                 (n[0] - 9, n[1] - 9, 9), (3, 3, 3)]
        todo = [t for k in (1, 2, part) for t in
                itertools.combinations_with_replacement(sites, k)]
    wt = [1., -.75+.5j, 2.j, 3.25]
    for t in todo:
        rows = np.ones((len(t), 6))
        for q, ids in enumerate(t):
            rows[q, :3] = [lat[a][ids[a]][0] for a in range(3)]
        w = np.array([wt[q % 4] for q in range(len(t))], dtype=complex)
        cat = lib.Cat(rows)
        pr = sum(w[q]*pred(ids, 0) for q, ids in enumerate(t))
        prs = sum(w[q]*pred(ids, 1) for q, ids in enumerate(t)) \
            if inter else None
        ti = any(tie(ids) for ids in t)
        rec.state((key, len(t), t[:4]) if mode == 'crowd' else (key, t))
        nf = len(rec.fails)
        edge = any(lat[a][ids[a]][0] == box[a] for ids in t
                   for a in range(3))
        run_one(mesh, F, box, ng, scheme, inter, cat, w, pr, prs, ti, rec,
                key + (':upper-box-edge' if edge else ''),
                f'{len(t)} particles at {rows[:4, :3].tolist()}... weights '
                f'{w[:4].tolist()}...')
        cat.close()
        if len(rec.fails) > nf and len(rec.fails) > 4:
            break
    rec.sample(dict(box=box, ngrid=ng, scheme=scheme, interlace=inter,
                    mode=mode, first=str(todo[0]), placements=len(todo)))
    rec.outcome((key, len(todo)))


def main():
    ck = core.Check('P01')
    lib.prepare()
    thorough = ck.tier == 'thorough'
    cases = []
    for gi, (box, ng) in enumerate(grids(ck.tier)):
        for scheme in SCHEMES:
            for inter in (False, True):
                k = f'g{ng[0]}x{ng[1]}x{ng[2]}:b{box[0]:g}:{scheme}:' \
                    f'{"interlaced" if inter else "plain"}'
                for a in range(3):
                    cases.append((f'{k}:axis{a}', (box, ng, scheme, inter,
                                                   'axis', SUB_T, a)))
                if gi == 0 or thorough:
                    sub = SUB if thorough and gi < 4 else (0., .25, .5, .625)
                    for q in range(4):
                        cases.append((f'{k}:full{q}', (
                            box, ng, scheme, inter, 'full', sub, q)))
                cases.append((f'{k}:multi', (box, ng, scheme, inter, 'multi',
                                             SUB, 4 if thorough else 3)))
    # thousands of particles at once, and many cells along an axis
    for box, ng in [((8., 8., 8.), (4, 4, 4)), ((7., 9., 11.), (7, 3, 4)),
                    ((260., 6., 8.), (130, 3, 4)),
                    ((3., 41., 5.), (3, 41, 5)),
                    ((4., 5., 300.), (4, 5, 96))]:
        for scheme, inter in itertools.product(SCHEMES, (False, True)):
            k = f'g{ng[0]}x{ng[1]}x{ng[2]}:{scheme}:' \
                f'{"interlaced" if inter else "plain"}:crowd'
            cases.append((k, (box, ng, scheme, inter, 'crowd', SUB, 0)))
    ck.run_cases('placements', cases, case, timeout=600)
    return ck.finish(
        rule='every single-particle placement on the sub-cell lattice and '
             'every multiset of up to 3 (4) particles on colliding sites, and '
             'the placements along all axes as one catalogue; a placement is '
             'one state', exhaustive=True)
