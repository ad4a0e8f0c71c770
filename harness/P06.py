"""Cell centers, bounds, lengths and spacings agree with the nodes, on every grid type."""
import numpy as np
from sym.run import Case
from harness.common import raw

PROP = 'P06'
ENCODED = ['viscid.coordinate.UniformCrds (all bounds, extents, spacings, nc2cc, get_clist)',
           'viscid.coordinate.NonuniformCrds / StructuredCrds (_fill_crds_dict, get_xl, get_xh, get_L, get_dx, get_min_dx, nc2cc, '
           'shape_nc, shape_cc, nr_points, get_points)', 'viscid.coordinate.wrap_crds, arrays2crds']
BOUNDS = ("1..3 axes; 2..5 nodes per axis (thorough 2..7); nonuniform: symbolic ascending node positions (first in [-4, 4], gaps in "
          "[1/4, 4]); uniform: symbolic low end in [-4, 4], symbolic spacing in [1/4, 4]")
ASSUME = []
OUTSIDE = "axes with a single node (their cell count is a convention of the grid type), time-like axes"


def chk_array(ctx, got, want, label):
    got = list(raw(np.asarray(got)) if not hasattr(got, 'view') else raw(got))
    ctx.check(len(got) == len(want), label + ': count')
    for g, w in zip(got, want):
        ctx.eq(g, w, label)


def lmin(ctx, v):
    r = v[0]
    for x in v[1:]:
        if ctx.symbolic:
            from sym import shim
            r = shim.sym_ext(r, x, False)
        else:
            r = min(r, x)
    return r


def unmask(a):
    """plain list from a (masked) array"""
    if isinstance(a, np.ma.MaskedArray):
        return list(np.ma.getdata(a))
    if not isinstance(a, np.ndarray) and hasattr(a, 'mask') and hasattr(a, 'data'):
        a = a.data
    return list(raw(a))


def verify(ctx, crds, nodes, axes):
    """crds hold the given node positions; everything else must follow"""
    cells = [[(v[i] + v[i + 1]) / 2 for i in range(len(v) - 1)] for v in nodes]
    nd = len(axes)
    for sfx, arrs, center, shape in (('nc', nodes, 'node', crds.shape_nc), ('cc', cells, 'cell', crds.shape_cc)):
        ctx.check([int(s) for s in shape] == [len(a) for a in arrs], center + ' shape')
        for ax, want in zip(axes, arrs):
            chk_array(ctx, crds.get_crd(ax, center=center), want, center + ' coordinates')
            chk_array(ctx, raw(crds[ax + sfx]), want, center + ' coordinates by key')
            sh = crds.get_crd(ax, shaped=True, center=center)
            ctx.check(sh.shape == tuple(len(want) if a == ax else 1 for a in axes), 'shaped coordinates')
        chk_array(ctx, crds.get_xl(center=center), [a[0] for a in arrs], center + ' lower bound')
        chk_array(ctx, crds.get_xh(center=center), [a[-1] for a in arrs], center + ' upper bound')
        chk_array(ctx, getattr(crds, 'xl_' + sfx), [a[0] for a in arrs], center + ' lower bound')
        chk_array(ctx, getattr(crds, 'xh_' + sfx), [a[-1] for a in arrs], center + ' upper bound')
        chk_array(ctx, crds.get_L(center=center), [a[-1] - a[0] for a in arrs], center + ' length')
        chk_array(ctx, getattr(crds, 'L_' + sfx), [a[-1] - a[0] for a in arrs], center + ' length')
        dx = crds.get_dx(center=center)
        for k, a in enumerate(arrs):
            if len(a) > 1:
                chk_array(ctx, dx[k], [a[i + 1] - a[i] for i in range(len(a) - 1)], center + ' spacing')
        if all(len(a) > 1 for a in arrs):
            want = [lmin(ctx, [a[i + 1] - a[i] for i in range(len(a) - 1)]) for a in arrs]
            for got in (crds.get_min_dx(center=center), getattr(crds, 'min_dx_' + sfx)):
                chk_array(ctx, np.asarray(unmask(got), dtype=object), want, center + ' minimum spacing')
        n = 1
        for a in arrs:
            n *= len(a)
        ctx.check(int(crds.get_nr_points(center=center)) == n, 'number of points')
        # one axis asked for by name
        chk_array(ctx, crds.get_xl(axes=[axes[-1]], center=center), [arrs[-1][0]], 'lower bound of one axis')
        chk_array(ctx, crds.get_L(axes=[axes[-1]], center=center), [arrs[-1][-1] - arrs[-1][0]], 'length of one axis')
    ctx.check([int(s) for s in crds.shape] == [len(a) for a in nodes], 'shape is the node shape')


def points(ctx, crds, nodes):
    import itertools
    for center, arrs in (('node', nodes), ('cell', [[(v[i] + v[i + 1]) / 2 for i in range(len(v) - 1)] for v in nodes])):
        p = raw(crds.get_points(center=center))
        for k, want in enumerate(itertools.product(*arrs)):
            for c in range(len(arrs)):
                ctx.eq(p[c, k], want[c], 'points are listed in C order')
        it = list(crds.iter_points(center=center))
        ctx.check(len(it) == p.shape[1], 'iterated point count')


def build(ctx, kind, counts, axes, form):
    import viscid
    nodes = []
    if kind == 'non':
        arrs = [ctx.ascending(ax, n) for ax, n in zip(axes, counts)]
        nodes = [list(raw(a)) for a in arrs]
        if form == 'wrap':
            crds = viscid.wrap_crds('nonuniform_cartesian', list(zip(axes, arrs)))
        else:
            crds = viscid.arrays2crds(arrs, crd_type='nonuniform', crd_names=axes)
    else:
        cl = []
        for ax, n in zip(axes, counts):
            lo, dx = ctx.real(ax + '.lo', -4, 4), ctx.real(ax + '.dx', 0.25, 4)
            nodes.append([lo + i * dx for i in range(n)])
            cl.append((ax, [lo, lo + (n - 1) * dx, n]))
        if form == 'wrap':
            crds = viscid.wrap_crds('uniform_cartesian', cl)
        else:
            v = []
            for nd in nodes:
                a = ctx.consts([0.0] * len(nd))
                for i, x in enumerate(nd):
                    a[i] = x
                v.append(a)
            crds = viscid.arrays2crds(v, crd_type='uniform_cartesian', crd_names=axes)
    return crds, nodes


def grid(ctx, kind, counts, form):
    axes = 'xyz'[:len(counts)]
    crds, nodes = build(ctx, kind, counts, axes, form)
    if form == 'wrap':
        ctx.check(crds.is_uniform() == (kind == 'uni'), 'grid type')
    verify(ctx, crds, nodes, axes)
    if len(counts) > 1:
        points(ctx, crds, nodes)


def widen(ctx, kind, n):
    """node coordinates to cell coordinates around the same points"""
    crds, nodes = build(ctx, kind, [n], 'x', 'wrap')
    c2 = crds.nc2cc()
    got = raw(c2.get_nc('x'))
    ctx.check(len(got) == n + 1, 'one more node than cells')
    if kind == 'uni':
        chk_array(ctx, c2.get_cc('x'), nodes[0], 'cells around the given points')
        for i in range(n):
            ctx.eq(got[i + 1] - got[i], nodes[0][1] - nodes[0][0], 'cell width')
    else:
        for i in range(n - 1):
            ctx.eq(got[i + 1], (nodes[0][i] + nodes[0][i + 1]) / 2, 'interior cell walls are half way')
        for i in range(n):
            ctx.check(bool(got[i] < nodes[0][i]) and bool(nodes[0][i] < got[i + 1]), 'each point is inside its cell')


def both(ctx, counts):
    """a uniform grid and the nonuniform grid of the same nodes report the same"""
    import viscid
    axes = 'xyz'[:len(counts)]
    cu, nodes = build(ctx, 'uni', counts, axes, 'wrap')
    v = []
    for nd in nodes:
        a = ctx.consts([0.0] * len(nd))
        for i, x in enumerate(nd):
            a[i] = x
        v.append(a)
    cn = viscid.wrap_crds('nonuniform_cartesian', list(zip(axes, v)))
    verify(ctx, cn, nodes, axes)
    for center in ('node', 'cell'):
        for f in ('get_xl', 'get_xh', 'get_L'):
            chk_array(ctx, getattr(cu, f)(center=center), list(raw(getattr(cn, f)(center=center))), f + ' agrees across grid types')
    # from the clist of one another
    c2 = viscid.wrap_crds('nonuniform_cartesian', cu.get_clist(full_arrays=True))
    for ax, nd in zip(axes, nodes):
        chk_array(ctx, c2.get_nc(ax), nd, 'full arrays of a uniform grid')
    c3 = viscid.wrap_crds('uniform_cartesian', cu.get_clist())
    for ax, nd in zip(axes, nodes):
        chk_array(ctx, c3.get_nc(ax), nd, 'clist of a uniform grid')
    c4 = viscid.wrap_crds('uniform_cartesian', cu.get_clist(center='cell'))
    for ax, nd in zip(axes, nodes):
        chk_array(ctx, c4.get_nc(ax), [(nd[i] + nd[i + 1]) / 2 for i in range(len(nd) - 1)], 'cell clist of a uniform grid')


def fieldside(ctx, kind, center):
    """a field reports the same through its own accessors"""
    import viscid
    crds, nodes = build(ctx, kind, [3, 4], 'xy', 'wrap')
    f = viscid.zeros(crds, center=center)
    cells = [[(v[i] + v[i + 1]) / 2 for i in range(len(v) - 1)] for v in nodes]
    arrs = nodes if center == 'node' else cells
    for ax, a in zip('xy', arrs):
        chk_array(ctx, f.get_crd(ax), a, 'field coordinates follow its centering')
    ctx.check(tuple(f.shape) == tuple(len(a) for a in arrs), 'field shape')
    chk_array(ctx, f.xl, [v[0] for v in nodes], 'field bounds are node bounds')
    chk_array(ctx, f.xh, [v[-1] for v in nodes], 'field bounds are node bounds')
    g = f.as_centered('cell' if center == 'node' else 'node')
    ctx.check(tuple(g.shape) == tuple(f.shape), 'recentering keeps the number of values')
    if kind == 'uni' or center == 'cell':
        for ax, a in zip('xy', arrs):
            chk_array(ctx, g.get_crd(ax), a, 'recentering keeps the place of every value')


def cases(tier):
    out = []
    mx = 5 if tier == 'quick' else 7
    for kind in ('non', 'uni'):
        for form in ('wrap', 'arrays'):
            for n in range(2, mx + 1):
                out.append(Case('%s_%s_%d' % (kind, form, n), lambda ctx, k=kind, f=form, n=n: grid(ctx, k, [n], f)))
            for cnt in ([2, 3], [3, 2, 4]):
                out.append(Case('%s_%s_%s' % (kind, form, 'x'.join(map(str, cnt))),
                                lambda ctx, k=kind, f=form, c=cnt: grid(ctx, k, c, f), weight=3))
        for n in range(2, mx + 1):
            out.append(Case('widen_%s_%d' % (kind, n), lambda ctx, k=kind, n=n: widen(ctx, k, n)))
        for c in ('node', 'cell'):
            out.append(Case('field_%s_%s' % (kind, c), lambda ctx, k=kind, c=c: fieldside(ctx, k, c)))
    for cnt in ([3], [2, 4], [3, 2, 2]):
        out.append(Case('both_' + 'x'.join(map(str, cnt)), lambda ctx, c=cnt: both(ctx, c)))
    return out
