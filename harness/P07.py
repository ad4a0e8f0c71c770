"""Reflection reverses data and coordinates together; transposing moves each coordinate with its data axis."""
import itertools
import numpy as np
from sym.run import Case
from harness.common import raw, mkcrds

PROP = 'P07'
ENCODED = ['viscid.coordinate.StructuredCrds.apply_reflections, _reflect_axis_arr, reflect_fld_arr, reflect_slices, _fill_crds_dict',
           'viscid.coordinate.UniformCrds.get_clist, get_xl, get_xh, get_L', 'viscid.sliceutil.make_fwd_slice',
           'viscid.field.Field.crds, data, _dat_to_ndarray, _finalize_slice',
           'viscid.field.Field.transpose, transpose_crds, T, TC, swapaxes, swap_crd_axes']
BOUNDS = ("1..3 axes, 2..4 nodes each, symbolic node positions (uniform: symbolic low end and spacing), every set of reflected axes, "
          "node and cell centers, scalar fields and vector fields in both layouts with symbolic values, every axis permutation; "
          "slices of reflected fields: 1-D, every integer start/stop in [-n-1, n+1] and location windows")
ASSUME = []
OUTSIDE = "time-like axes; more than 3 axes"


def nodes_of(crds):
    return {ax: list(raw(crds.get_nc(ax))) for ax in crds.axes}


def cells_of(crds):
    return {ax: list(raw(crds.get_cc(ax))) for ax in crds.axes}


def chk_list(ctx, got, want, label):
    got = got if isinstance(got, list) else list(raw(got))
    ctx.check(len(got) == len(want), label + ': count')
    for g, w in zip(got, want):
        ctx.eq(g, w, label)


def reflect(ctx, crds, axes, how='attr'):
    """reflected coordinates, resolved"""
    import viscid
    if how == 'attr':
        c = viscid.wrap_crds(crds.crdtype, crds.get_clist())
        c.reflect_axes = axes
    else:
        c = viscid.wrap_crds(crds.crdtype, crds.get_clist(), reflect_axes=axes)
    return c


def crd_case(ctx, counts, uniform):
    names = 'xyz'[:len(counts)]
    base = mkcrds(ctx, names, counts, uniform, sym=True)
    n0, c0 = nodes_of(base), cells_of(base)
    axes = ctx.choice('axes', [''.join(s) for k in range(1, len(names) + 1) for s in itertools.combinations(names, k)])
    for how in ('attr', 'kwarg'):
        lazy = reflect(ctx, base, axes, how)
        done = lazy.apply_reflections()
        ctx.check(list(done.axes) == list(names), 'axes and their order are kept')
        ctx.check(done.crdtype == base.crdtype, 'grid type is kept')
        for c, lbl in ((done, ''), (lazy, 'pending reflection: ')):
            for ax in names:
                wn, wc = n0[ax], c0[ax]
                if ax in axes:
                    wn, wc = [-v for v in wn[::-1]], [-v for v in wc[::-1]]
                chk_list(ctx, c.get_nc(ax), wn, lbl + 'nodes are negated and reversed on the reflected axes only')
                chk_list(ctx, c.get_cc(ax), wc, lbl + 'cells are negated and reversed on the reflected axes only')
                g = raw(c.get_nc(ax))
                for i in range(len(g) - 1):
                    ctx.check(bool(g[i] < g[i + 1]), lbl + 'still ascending')
                for cen, w in (('node', wn), ('cell', wc)):
                    chk_list(ctx, c.get_xl([ax], center=cen), [w[0]], lbl + 'lower bound')
                    chk_list(ctx, c.get_xh([ax], center=cen), [w[-1]], lbl + 'upper bound')
                    chk_list(ctx, c.get_L([ax], center=cen), [w[-1] - w[0]], lbl + 'length')
        back = reflect(ctx, done, axes, how).apply_reflections()
        for ax in names:
            chk_list(ctx, back.get_nc(ax), n0[ax], 'reflecting twice restores the nodes')
            chk_list(ctx, back.get_cc(ax), c0[ax], 'reflecting twice restores the cells')
        # reflections one axis at a time, in the other order
        one = base
        for ax in axes[::-1]:
            one = reflect(ctx, one, [ax], how).apply_reflections()
        for ax in names:
            chk_list(ctx, one.get_nc(ax), list(raw(done.get_nc(ax))), 'axis by axis gives the same')


def mkfield(ctx, crds, center, comps, nc=2):
    import viscid
    sh = [int(s) for s in (crds.shape_nc if center == 'node' else crds.shape_cc)]
    kw = {}
    if comps == 'flat':
        sh, kw = [nc] + sh, dict(fldtype='vector', layout='flat')
    elif comps == 'interlaced':
        sh, kw = sh + [nc], dict(fldtype='vector', layout='interlaced')
    vals = ctx.reals('v', tuple(sh))
    f = viscid.wrap_field(vals, crds, name='f', center=center, **kw)
    return f, raw(vals)


def comp_axis(comps, nd):
    return {None: None, 'flat': 0, 'interlaced': nd}[comps]


def flip(arr, names, axes, comps):
    off = 1 if comps == 'flat' else 0
    sl = [slice(None)] * arr.ndim
    for k, ax in enumerate(names):
        if ax in axes:
            sl[k + off] = slice(None, None, -1)
    return arr[tuple(sl)]


def fld_case(ctx, counts, uniform, center, comps):
    """the data of a field on reflected coordinates"""
    import viscid
    names = 'xyz'[:len(counts)]
    base = mkcrds(ctx, names, counts, uniform, sym=True)
    axes = ctx.choice('axes', [''.join(s) for k in range(1, len(names) + 1) for s in itertools.combinations(names, k)])
    lazy = reflect(ctx, base, axes)
    f, v = mkfield(ctx, lazy, center, comps)
    want = flip(v, names, axes, comps)
    g = raw(f.data)
    ctx.check(g.shape == want.shape, 'shape')
    for i in np.ndindex(*want.shape):
        ctx.eq(g[i], want[i], 'data are reversed along the reflected axes only')
    for ax in names:
        src = list(raw(base.get_nc(ax) if center == 'node' else base.get_cc(ax)))
        if ax in axes:
            src = [-x for x in src[::-1]]
        chk_list(ctx, f.get_crd(ax), src, 'field coordinates are reflected with the data')
    # and a second time
    again = reflect(ctx, f.crds, axes)
    kw = dict(fldtype='vector', layout=comps) if comps else {}
    f2 = viscid.wrap_field(f.data, again, name='f', center=center, **kw)
    g2 = raw(f2.data)
    for i in np.ndindex(*v.shape):
        ctx.eq(g2[i], v[i], 'reflecting data and coordinates twice restores the field')
    for ax in names:
        chk_list(ctx, f2.get_crd(ax), list(raw(base.get_nc(ax) if center == 'node' else base.get_cc(ax))),
                 'reflecting data and coordinates twice restores the field')


def recenter_case(ctx, uniform, center, loaded, comps):
    """recentering a field keeps the reflection of data and coordinates together"""
    base = mkcrds(ctx, 'xy', [3, 4], uniform, sym=True)
    axes = ctx.choice('axes', ['x', 'y', 'xy'])
    f, v = mkfield(ctx, reflect(ctx, base, axes), center, comps)
    if loaded:
        f.resolve()
    g = f.as_centered('cell' if center == 'node' else 'node')
    want = flip(v, 'xy', axes, comps)
    for r, lbl in ((g, 'recentered field'), (f, 'original field after recentering')):
        d = raw(r.data)
        ctx.check(d.shape == want.shape, lbl + ': shape')
        for i in np.ndindex(*want.shape):
            ctx.eq(d[i], want[i], lbl + ': data are reflected')
    for ax in 'xy':
        src = list(raw(base.get_nc(ax) if center == 'node' else base.get_cc(ax)))
        if ax in axes:
            src = [-x for x in src[::-1]]
        chk_list(ctx, f.get_crd(ax), src, 'original field after recentering: coordinates')
        if uniform or center == 'cell':
            chk_list(ctx, g.get_crd(ax), src, 'recentered field: coordinates are reflected with the data')
        else:
            chk_list(ctx, list(raw(g.crds.get_nc(ax)))[1:-1], [(a + b) / 2 for a, b in zip(src, src[1:])],
                     'recentered field: cell walls are reflected with the data')


def slc_case(ctx, n, uniform, center, loaded):
    """slicing a field on reflected coordinates = slicing the resolved field"""
    import viscid
    base = mkcrds(ctx, 'x', [n + (center == 'cell')], uniform, sym=True)
    lazy = reflect(ctx, base, 'x')
    f, v = mkfield(ctx, lazy, center, None)
    crd = [-x for x in list(raw(base.get_nc('x') if center == 'node' else base.get_cc('x')))[::-1]]
    val = v[::-1]
    if loaded:
        f.resolve()
    kind = ctx.choice('kind', ['index', 'window', 'nearest'])
    if kind == 'index':
        a = int(ctx.int('a', -n - 1, n + 1)) if ctx.choice('a?', [True, False]) else None
        b = int(ctx.int('b', -n - 1, n + 1)) if ctx.choice('b?', [True, False]) else None
        st = ctx.choice('step', [1, 2, -1])
        idx = list(range(n))[a:b:st]
        r = f[a:b:st]
    elif kind == 'window':
        i = int(ctx.int('i', 0, n - 1))
        j = int(ctx.int('j', 0, n - 1))
        ctx.assume(i < j)
        idx = list(range(i, j + 1))
        lo, hi = (crd[i] + crd[i - 1]) / 2 if i else crd[0] - 1, (crd[j] + crd[j + 1]) / 2 if j < n - 1 else crd[-1] + 1
        r = f.loc[lo:hi]
    else:
        i = int(ctx.int('i', 0, n - 1))
        idx = [i]
        r = f.loc[crd[i]]
    if not idx:
        ctx.check(getattr(r, 'size', 1) == 0, 'empty selection')
        return
    if not hasattr(r, 'crds'):
        ctx.check(len(idx) == 1, 'a single value')
        ctx.eq(r, val[idx[0]], 'value of a slice')
        return
    chk_list(ctx, r.data, [val[k] for k in idx], 'values of a slice of a reflected field')
    chk_list(ctx, r.get_crd('x'), [crd[k] for k in idx], 'coordinates of a slice of a reflected field')


def chk_transposed(ctx, t, v, f, names, order, comps, tcomps, label):
    """t holds v with spatial axes in the given order"""
    off = 1 if comps == 'flat' else 0
    perm = [off + names.index(a) for a in order]
    if comps:
        ci = comp_axis(comps, len(names))
        perm = [ci] + perm if tcomps == 'flat' else perm + [ci]
    want = v.transpose(perm)
    ctx.check(list(t.crds.axes) == list(order), label + ': axis order')
    g = raw(t.data)
    if not g.shape == want.shape:
        ctx.fail(label + ': shape')
        return
    for i in np.ndindex(*want.shape):
        ctx.eq(g[i], want[i], label + ': values')
    ctx.check(t.center == f.center, label + ': centering')
    if comps:
        ctx.check(t.layout == tcomps and int(t.nr_comps) == int(f.nr_comps), label + ': layout')
    for ax in order:
        chk_list(ctx, t.crds.get_nc(ax), list(raw(f.crds.get_nc(ax))), label + ': coordinates')
        chk_list(ctx, t.get_crd(ax), list(raw(f.get_crd(ax))), label + ': coordinates')
    ctx.check(t.crds.crdtype == f.crds.crdtype, label + ': grid type')


def trn_case(ctx, counts, uniform, center, comps, refl='', strided=False):
    names = 'xyz'[:len(counts)]
    base = mkcrds(ctx, names, [c + (center == 'cell') for c in counts], uniform, sym=True)
    if refl:
        base = reflect(ctx, base, refl)
    if comps == 'interlaced' and all(c == 2 for c in counts):
        # as many components as points per axis: only the layout change tells which axis is which
        f, v = mkfield(ctx, base, center, 'flat')
        f, v = f.as_layout('interlaced'), v.transpose(list(range(1, v.ndim)) + [0])
    else:
        f, v = mkfield(ctx, base, center, comps)
    v = flip(v, names, refl, comps)
    if strided:
        f = f['x=::2']
        off = 1 if comps == 'flat' else 0
        v = v[tuple([slice(None)] * off + [slice(None, None, 2)])]
    nd = len(names)
    off = 1 if comps == 'flat' else 0
    for order in itertools.permutations(names):
        lay = comps
        chk_transposed(ctx, f.transpose_crds(*order), v, f, names, order, comps, lay, 'transpose_crds')
        chk_transposed(ctx, f.spatial_transpose(*order), v, f, names, order, comps, lay, 'spatial_transpose')
        ai = [off + names.index(a) for a in order]
        if comps:
            ci = comp_axis(comps, nd)
            chk_transposed(ctx, f.transpose(*([ci] + ai)), v, f, names, order, comps, 'flat', 'transpose')
            chk_transposed(ctx, f.transpose(*(ai + [ci])), v, f, names, order, comps, 'interlaced', 'transpose')
        else:
            chk_transposed(ctx, f.transpose(*ai), v, f, names, order, None, None, 'transpose')
            if nd > 1:
                chk_transposed(ctx, f.transpose(ai), v, f, names, order, None, None, 'transpose of a list')
    for a, b in itertools.combinations(names, 2):
        order = list(names)
        ia, ib = names.index(a), names.index(b)
        order[ia], order[ib] = b, a
        chk_transposed(ctx, f.swap_crd_axes(a, b), v, f, names, order, comps, comps, 'swap_crd_axes')
        chk_transposed(ctx, f.swapaxes(off + ia, off + ib), v, f, names, order, comps, comps, 'swapaxes')
        twice = f.swapaxes(off + ia, off + ib).swapaxes(off + ia, off + ib)
        chk_transposed(ctx, twice, v, f, names, names, comps, comps, 'swapping twice restores')
    rev = names[::-1]
    chk_transposed(ctx, f.T, v, f, names, rev, comps, {None: None, 'flat': 'interlaced', 'interlaced': 'flat'}[comps], 'T')
    chk_transposed(ctx, f.TC, v, f, names, rev, comps, comps, 'TC')
    chk_transposed(ctx, f.ST, v, f, names, rev, comps, comps, 'ST')


def cases(tier):
    out = []
    grids = [[2], [3], [2, 3], [3, 2, 2]] + ([[4], [4, 3], [3, 4, 2], [3, 3, 3]] if tier != 'quick' else [])
    for uniform in (False, True):
        u = 'uni' if uniform else 'non'
        for g in grids:
            out.append(Case('crds_%s_%s' % (u, 'x'.join(map(str, g))), lambda ctx, g=g, u=uniform: crd_case(ctx, g, u), weight=2))
        for center in ('node', 'cell'):
            for comps in (None, 'flat', 'interlaced'):
                for g in ([3], [2, 3], [2, 3, 2]):
                    gg = [c + (center == 'cell') for c in g]
                    nm = '%s_%s_%s_%s' % (u, center, comps or 'scalar', 'x'.join(map(str, g)))
                    out.append(Case('field_' + nm, lambda ctx, g=gg, u=uniform, c=center, k=comps: fld_case(ctx, g, u, c, k), weight=2))
                for g in ([2, 3], [2, 2], [2, 3, 4]) + (([3, 3, 2], [2, 2, 2]) if tier != 'quick' else ()):
                    nm = '%s_%s_%s_%s' % (u, center, comps or 'scalar', 'x'.join(map(str, g)))
                    out.append(Case('transpose_' + nm, lambda ctx, g=g, u=uniform, c=center, k=comps: trn_case(ctx, g, u, c, k),
                                    weight=4))
                out.append(Case('transpose_refl_%s_%s_%s' % (u, center, comps or 'scalar'),
                                lambda ctx, u=uniform, c=center, k=comps: trn_case(ctx, [2, 3], u, c, k, refl='y'), weight=4))
                out.append(Case('transpose_strided_%s_%s_%s' % (u, center, comps or 'scalar'),
                                lambda ctx, u=uniform, c=center, k=comps: trn_case(ctx, [4, 3], u, c, k, strided=True), weight=4))
            for comps in (None, 'flat'):
                for ld in (False, True):
                    out.append(Case('recenter_%s_%s_%s_%s' % (u, center, comps or 'scalar', 'loaded' if ld else 'lazy'),
                                    lambda ctx, u=uniform, c=center, k=comps, l=ld: recenter_case(ctx, u, c, l, k), weight=2))
            for n in (2, 3) + ((4, 5) if tier != 'quick' else ()):
                for ld in (False, True):
                    out.append(Case('slice_%s_%s_%d_%s' % (u, center, n, 'loaded' if ld else 'lazy'),
                                    lambda ctx, n=n, u=uniform, c=center, l=ld: slc_case(ctx, n, u, c, l), weight=5))
    return out
