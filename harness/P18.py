"""AMR neighbor discovery."""
import numpy as np
from sym.run import Case
from harness.common import raw

PROP = 'P18'
CYTHON = ['cyamr']
ENCODED = ['viscid/cython/cyamr.pyx: discover_neighbors, _py_discover_neighbors; viscid/cython/misc_inlines.pxd: isclose, less_close '
           '(translated from the Cython source)', 'viscid/amr_grid.py: AMRSkeleton, AMRPatch, AMRGrid, dataset_to_amr_grid']
BOUNDS = ("two patches with every bound symbolic in 3D; three patches with the bounds along one or two axes symbolic; chains and blocks of up to 9 patches "
          "with symbolic dividing planes; sizes up to 8")
ASSUME = ["patches do not overlap (the grid is properly nested)", "gaps between patches are zero or larger than 0.002"]
OUTSIDE = "more than 9 patches"


def skel(ctx, boxes, npts=2):
    import viscid
    from viscid import amr_grid
    grids = []
    for lo, hi in boxes:
        vals = []
        for k in range(3):
            c = ctx.consts(np.zeros(npts))
            for i in range(npts):
                c[i] = lo[k] + (hi[k] - lo[k]) * (i / float(npts - 1))
            vals.append(('xyz'[k], c))
        crds = viscid.wrap_crds('nonuniform_cartesian', vals)
        g = viscid.grid.Grid()
        g.crds = crds
        g.add_field(viscid.wrap_field(ctx.consts(np.zeros((npts,) * 3)), crds, name='v'))
        grids.append(g)
    ds = viscid.dataset.Dataset()
    for g in grids:
        ds.add(g)
    res, ok = amr_grid.dataset_to_amr_grid(ds)
    ctx.check(ok, 'patches form an AMR grid')
    return res.skeleton


def seps(a, b):
    """distance of two boxes along each axis (negative: overlap)"""
    out = []
    for k in range(3):
        p = a[0][k] - b[1][k]
        q = b[0][k] - a[1][k]
        out.append((p, q))
    return out


def verify(ctx, boxes):
    n = len(boxes)
    state = {}
    for i in range(n):
        for j in range(i):
            s = []
            for p, q in seps(boxes[i], boxes[j]):
                if isinstance(p, float) and isinstance(q, float):
                    m = max(p, q)
                else:
                    m = p if bool(p >= q) else q
                ctx.assume((m == 0) | (m > 0.002) | (m < -0.002))
                s.append(1 if bool(m > 0) else (0 if bool(m == 0) else -1))
            ctx.assume(max(s) >= 0)
            state[i, j] = state[j, i] = s
    sk = skel(ctx, boxes)
    nn, nb, mask = raw(sk.nr_neighbors), raw(sk.neighbors), raw(sk.neighbor_mask)
    ctx.check(nn.shape == (n,), 'a count per patch')
    rec = {}
    for i in range(n):
        cnt = int(nn[i])
        lst = [int(nb[i, m]) for m in range(cnt)]
        ctx.check(i not in lst, 'no patch is its own neighbor')
        ctx.check(len(set(lst)) == len(lst), 'each neighbor once')
        ctx.check(all(0 <= j < n for j in lst), 'neighbors exist')
        ctx.check(all(int(nb[i, m]) == -1 for m in range(cnt, nb.shape[1])), 'unused entries are empty')
        for m, j in enumerate(lst):
            rec[i, j] = int(mask[i, m])
    for i in range(n):
        for j in range(n):
            if i == j:
                continue
            s = state[i, j]
            touch = max(s) == 0
            ctx.check(((i, j) in rec) == touch, 'neighbors exactly when touching')
            if touch and (i, j) in rec and (j, i) in rec:
                a, b = rec[i, j], rec[j, i]
                for k in range(3):
                    ctx.check(bool((a >> (6 + k)) & 1) == (s[k] == 0), 'direction of contact')
                    fa, fb = (a >> (2 * k)) & 3, (b >> (2 * k)) & 3
                    ctx.check((fa, fb) in ((1, 2), (2, 1)) if s[k] == 0 else (fa, fb) == (0, 0), 'opposite sides')
                    if s[k] == 0:
                        right = bool(boxes[i][0][k] + boxes[i][1][k] > boxes[j][0][k] + boxes[j][1][k])
                        ctx.check((fa == 1) == right, 'same side, same code')


def box(ctx, nm, axes, fixed):
    """box with symbolic bounds along axes"""
    lo, hi = list(fixed[0]), list(fixed[1])
    for k in axes:
        a = ctx.real('%s_lo%d' % (nm, k), -8, 8)
        L = ctx.real('%s_L%d' % (nm, k), 0.25, 8)
        lo[k], hi[k] = a, a + L
    return lo, hi


def pair(ctx, axes):
    verify(ctx, [box(ctx, 'a', axes, ([0., 0., 0.], [2., 2., 2.])), box(ctx, 'b', axes, ([0., 0., 0.], [2., 1., 4.]))])


def triple(ctx, axes):
    verify(ctx, [box(ctx, n, axes, ([0., 0., 0.], [2., 2., 2.])) for n in 'abc'])


def chain(ctx, axis, order):
    c = [ctx.real('c%d' % i, -8, 8) for i in range(4)]
    for i in range(3):
        ctx.assume(c[i + 1] - c[i] > 0.25)
    bs = []
    for i in order:
        lo, hi = [0., 0., 0.], [2., 2., 2.]
        lo[axis], hi[axis] = c[i], c[i + 1]
        bs.append((lo, hi))
    verify(ctx, bs)


def block(ctx, a, b, nx, ny, fine):
    """nx by ny patches with symbolic dividing planes, one of them refined"""
    X = [ctx.real('x%d' % i, -8, 8) for i in range(nx + 1)]
    Y = [float(2 * i) for i in range(ny + 1)]
    if ny > 1:
        Y[1] = ctx.real('y1', 0.5, 3.5)
    for i in range(nx):
        ctx.assume(X[i + 1] - X[i] > 0.5)
    bs = []
    for i in range(nx):
        for j in range(ny):
            cells = [(X[i], X[i + 1], Y[j], Y[j + 1])]
            if fine and i == 0 and j == 0:
                xm, ym = (X[0] + X[1]) * 0.5, (Y[0] + Y[1]) * 0.5
                cells = [(X[0], xm, Y[0], ym), (xm, X[1], Y[0], ym), (X[0], xm, ym, Y[1]), (xm, X[1], ym, Y[1])]
            for x0, x1, y0, y1 in cells:
                lo, hi = [0.] * 3, [2.] * 3
                lo[a], hi[a], lo[b], hi[b] = x0, x1, y0, y1
                bs.append((lo, hi))
    verify(ctx, bs)


def cases(tier):
    T = tier == 'thorough'
    out = []

    def add(nm, fn, *a, **k):
        out.append(Case(nm, lambda ctx: fn(ctx, *a), **k))
    add('pair/xyz', pair, (0, 1, 2), weight=6)
    for ax in ((0,), (1,), (2,), (0, 1), (1, 2), (0, 2)):
        add('pair/%s' % ''.join('xyz'[k] for k in ax), pair, ax, weight=2)
    for ax in ((0,), (1,), (2,)):
        add('triple/%s' % 'xyz'[ax[0]], triple, ax, weight=5)
        for o in ((0, 1, 2), (2, 0, 1)):
            add('chain/%s/%s' % ('xyz'[ax[0]], ''.join(map(str, o))), chain, ax[0], o, weight=2)
        b = (ax[0] + 1) % 3
        add('block/%s/2x2' % 'xyz'[ax[0]], block, ax[0], b, 2, 2, False, weight=4)
        add('block/%s/2x1 fine' % 'xyz'[ax[0]], block, ax[0], b, 2, 1, True, weight=4)
        add('block/%s/2x2 fine' % 'xyz'[ax[0]], block, ax[0], b, 2, 2, True, weight=7)
        if T:
            add('block/%s/3x2 fine' % 'xyz'[ax[0]], block, ax[0], b, 3, 2, True, weight=9)
            add('triple/%s' % 'xyz'[ax[0]] + 'xyz'[b], triple, (ax[0], b), weight=9)
    return out
