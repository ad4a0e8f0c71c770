"""AMR interpolation uses the patch that contains the point."""
import numpy as np
from sym.run import Case
from harness.common import raw
from harness.P11 import tri

PROP = 'P17'
CYTHON = ['cyfield', 'cyamr', 'cycalc']
ENCODED = ['viscid/cython/cyamr.pyx: make_cyamrfield, activate_patch, _contains_patch, discover_neighbors (translated from the Cython source)',
           'viscid/cython/cycalc.pyx: interp, _py_interp_trilin, _py_interp_nearest', 'viscid/amr_grid.py: AMRSkeleton, AMRGrid; viscid/amr_field.py: AMRField']
BOUNDS = ("two to seven patches (chains, 2x2 blocks, a refined block) with symbolic dividing planes, every order of two or three queries anywhere in or "
          "outside the region; symbolic field values per patch; scalar and vector, node and cell centered, both interpolations, all patches and slices")
ASSUME = ["patches do not overlap and cover a box", "within 2e-4 of a common border the value of either patch is accepted"]
OUTSIDE = "floating point rounding"


def amr(ctx, boxes, npts, ftype='scalar', center='node', layout='flat'):
    """AMR field; returns it with the arrays of every patch"""
    import viscid
    from viscid import amr_grid
    ds = viscid.dataset.Dataset()
    pats = []
    for p, (lo, hi) in enumerate(boxes):
        vals, cs = [], []
        n1 = [n + (center == 'cell') for n in npts]
        for k in range(3):
            c = ctx.consts(np.zeros(n1[k]))
            for i in range(n1[k]):
                c[i] = lo[k] + (hi[k] - lo[k]) * (i / float(n1[k] - 1))
            vals.append(('xyz'[k], c))
            c = [c[i] for i in range(n1[k])]
            cs.append([(a + b) * 0.5 for a, b in zip(c[1:], c[:-1])] if center == 'cell' else c)
        crds = viscid.wrap_crds('nonuniform_cartesian', vals)
        off = ctx.real('v%d' % p, -9, 9)
        sh = tuple(npts)
        comps = []
        for m in range(3 if ftype == 'vector' else 1):
            V = ctx.consts(np.zeros(sh))
            for i in np.ndindex(*sh):
                V[i] = off * (m + 1) + float((7 * i[0] + 3 * i[1] + i[2] * i[2] + 5 * m) % 8) + 32 * p
            comps.append(V)
        if ftype == 'vector':
            dat = ctx.consts(np.zeros((3,) + sh))
            for m in range(3):
                for i in np.ndindex(*sh):
                    dat[(m,) + i] = comps[m][i]
            if layout == 'interlaced':
                dat = dat.transpose(1, 2, 3, 0)
            fl = viscid.wrap_field(dat, crds, name='v', fldtype='vector', layout=layout, center=center)
        else:
            fl = viscid.wrap_field(comps[0], crds, name='v', center=center)
        g = viscid.grid.Grid()
        g.crds = crds
        g.add_field(fl)
        ds.add(g)
        pats.append((cs, comps))
    res, ok = amr_grid.dataset_to_amr_grid(ds)
    ctx.check(ok, 'patches form an AMR grid')
    return res['v'], pats


def near_tri(ctx, cs, V, p, near, got, what):
    if not near:
        return got == tri(ctx, cs, V, p)
    hit = False
    for i in np.ndindex(*V.shape):
        e = (got == V[i])
        hit = e if hit is False else (hit | e)
    return hit


def agrees(ctx, boxes, pats, p, got, near, what):
    """got is the value of a patch that contains p (or of the patch with the closest center)"""
    inside, near_by = [], []
    for j, (lo, hi) in enumerate(boxes):
        ok = all(bool(p[k] >= lo[k] - 2e-4) and bool(p[k] <= hi[k] + 2e-4) for k in range(3))
        if ok:
            near_by.append(j)
            if all(bool(p[k] >= lo[k]) and bool(p[k] <= hi[k]) for k in range(3)):
                inside.append(j)
    if not inside:
        best = None
        for j, (lo, hi) in enumerate(boxes):
            r2 = sum((p[k] - (lo[k] + hi[k]) * 0.5) ** 2 for k in range(3))
            if best is None or bool(r2 < best):
                best, inside = r2, [j]
            elif bool(r2 == best):
                inside.append(j)
        what = 'outside: ' + what
    inside = sorted(set(inside) | set(near_by))
    hit = False
    for j in inside:
        cs, comps = pats[j]
        e = True
        for m, V in enumerate(comps):
            e1 = near_tri(ctx, cs, V, p, near, got[m], what)
            e = e1 if e is True else (e & e1)
        hit = e if hit is False else (hit | e)
    ctx.check(hit, what)


def tolcheck(ctx, boxes, pats, p, got, near, what):
    if ctx.symbolic:
        return agrees(ctx, boxes, pats, p, got, near, what)

    class Near(float):
        def __eq__(self, o):
            return bool(abs(float(self) - float(o)) < 1e-6)
    return agrees(ctx, boxes, pats, p, [Near(g) for g in got], near, what)


def layout_boxes(ctx, kind, a):
    b, c = (a + 1) % 3, (a + 2) % 3

    def mk(x0, x1, y0, y1, z0=0., z1=2.):
        lo, hi = [0.] * 3, [0.] * 3
        lo[a], hi[a], lo[b], hi[b], lo[c], hi[c] = x0, x1, y0, y1, z0, z1
        return lo, hi
    X = [-4., ctx.real('cut', -3, 3), 4.]
    if kind == 'two':
        return [mk(X[0], X[1], 0., 2.), mk(X[1], X[2], 0., 2.)]
    if kind == 'chain':
        return [mk(X[0], X[1], 0., 2.), mk(X[1], X[2], 0., 2.), mk(4., 6., 0., 2.)]
    if kind == 'chain3':      # first and last patch do not touch; shuffled
        return [mk(4., 6., 0., 2.), mk(X[0], X[1], 0., 2.), mk(X[1], X[2], 0., 2.)]
    if kind == 'block':
        return [mk(x0, x1, y0, y0 + 2.) for x0, x1 in ((X[0], X[1]), (X[1], X[2])) for y0 in (0., 2.)]
    if kind == 'fine':        # coarse patch next to four half as large
        xm = (X[1] + X[2]) * 0.5
        return [mk(X[0], X[1], 0., 2.)] + [mk(x0, x1, y0, y0 + 1.) for x0, x1 in ((X[1], xm), (xm, X[2])) for y0 in (0., 1.)]


def queries(ctx, kind, a, nq, near, ftype, center, freeaxes, lo=-5., hi=7., layout='flat'):
    import viscid
    boxes = layout_boxes(ctx, kind, a)
    npts = (2, 2, 2)
    f, pats = amr(ctx, boxes, npts, ftype, center, layout)
    p = ctx.consts(np.zeros((3, nq)))
    b, c = (a + 1) % 3, (a + 2) % 3
    for q in range(nq):
        p[c, q] = 0.75
        p[b, q] = 0.5 if q % 2 == 0 else 1.75
        p[a, q] = ctx.real('p%d' % q, lo, hi)
        if q == 0 and nq == 2 and kind != 'two':       # some point of any patch
            j = int(ctx.int('first', 0, len(boxes) - 1))
            for k in range(3):
                p[k, q] = (boxes[j][0][k] + boxes[j][1][k]) * 0.5
        if 'b' in freeaxes:
            p[b, q] = ctx.real('r%d' % q, -1, 5)
    r = raw((viscid.interp_nearest if near else viscid.interp_trilin)(f, p, wrap=False))
    for q in range(1 if nq == 2 and kind != 'two' else 0, nq):
        got = [r[q, m] for m in range(3)] if ftype == 'vector' else [r[q]]
        tolcheck(ctx, boxes, pats, [p[k, q] for k in range(3)], got, near, 'value of the patch that contains the point')


def sliced(ctx, a, near, sel):
    """a sliced AMR field is interpolated with its own patches"""
    import viscid
    boxes = layout_boxes(ctx, 'block', a)
    ctx.assume(boxes[0][1][a] > -1.5)
    ctx.assume(boxes[0][1][a] < 1.5)
    f, pats = amr(ctx, boxes, (3, 3, 3))
    b = (a + 1) % 3
    if sel == 'drop':       # only the patches of the second row are left
        g = f['%s=2.5j:' % 'xyz'[b]]
    else:
        g = f['%s=:1.75j' % 'xyz'[b]]
    p = ctx.consts(np.zeros((3, 2)))
    lo, hi = (2.5, 3.5) if sel == 'drop' else (0.5, 1.5)
    for q in range(2):
        p[:, q] = [0.75] * 3
        p[b, q] = 3.25 if sel == 'drop' else 0.75
        p[a, q] = ctx.real('p%d' % q, -3.5, 3.5)
    try:
        r = raw((viscid.interp_nearest if near else viscid.interp_trilin)(g, p, wrap=False))
    except (RuntimeError, ValueError, NotImplementedError, TypeError, AttributeError):
        return        # refused
    for q in range(2):
        tolcheck(ctx, boxes, pats, [p[k, q] for k in range(3)], [r[q]], near, 'value of the patch that contains the point')


def cases(tier):
    T = tier == 'thorough'
    out = []

    def add(nm, fn, *a, **k):
        out.append(Case(nm, lambda ctx: fn(ctx, *a), **k))
    for near in (False, True):
        w = 'nearest' if near else 'trilinear'
        q = {False: ('two/y', 'chain3/x', 'block/z', 'fine/y'), True: ('two/x', 'chain3/z', 'fine/x')}[near]
        for a in range(3):
            for kind in ('two', 'chain3', 'block', 'fine'):
                if T or '%s/%s' % (kind, 'xyz'[a]) in q:
                    add('%s/%s/%s' % (w, kind, 'xyz'[a]), queries, kind, a, 2, near, 'scalar', 'node', '', weight=7)
        if T:
            add('%s/chain/x' % w, queries, 'chain', 0, 2, near, 'scalar', 'node', '', weight=5)
            add('%s/two/three queries' % w, queries, 'two', 0, 3, near, 'scalar', 'node', '', -3.5, 3.5, weight=6)
        if T or not near:
            add('%s/block/plane' % w, queries, 'block', 0, 1, near, 'scalar', 'node', 'b', weight=9)
        if T:
            add('%s/fine/plane' % w, queries, 'fine', 1, 1, near, 'scalar', 'node', 'b', weight=6)
        for lay in ('flat', 'interlaced'):
            add('%s/vector/%s' % (w, lay), queries, 'two', 0, 2, near, 'vector', 'node', '', -3.5, 3.5, lay, weight=4)
        add('%s/cell' % w, queries, 'chain3' if T else 'two', 0, 2, near, 'scalar', 'cell', '', weight=6)
        for sel in ('drop', 'cut'):
            add('%s/sliced/%s' % (w, sel), sliced, 0, near, sel, weight=3)
    return out
