"""Layout changes keep every component value; component access and assignment address one component."""
import numpy as np
from sym.run import Case
from harness.common import raw, mkcrds, rejects

PROP = 'P08'
ENCODED = ['viscid.field.Field.layout, nr_comp, nr_comps, shape, _src_data_to_ndarray, _dat_to_ndarray, _detect_layout, set_slice, wrap',
           'viscid.field.VectorField.as_layout, as_flat, as_interlaced, component_views, component_fields',
           'viscid.field.wrap_field, full, full_like, scalar_fields_to_vector', 'viscid.sliceutil.prune_comp_sel']
BOUNDS = ("1..3 axes of 2..3 points, 2..4 components, symbolic component values, node and cell centers; sources: flat, interlaced, "
          "list of arrays, list of scalar fields, forced to the other layout when wrapped, full_like; every sequence of up to 2 "
          "(thorough 3) layout changes; assignment to one component, whole, sliced or through a view")
ASSUME = ["an array whose shape fits both layouts is wrapped as flat (the documented default); interlaced ones are made by conversion"]
OUTSIDE = "more than 4 components (default names run out at 6)"

NAMES = 'xyzuvw'


def build(ctx, src, sh, nc, center, uniform=False):
    """vector field and list of its components"""
    import viscid
    crds = mkcrds(ctx, 'xyz'[:len(sh)], [s + (center == 'cell') for s in sh], uniform)
    v = ctx.reals('v', (nc,) + tuple(sh))
    comps = [raw(v)[k].copy() for k in range(nc)]

    def inter():
        r = ctx.reals('w', tuple(sh) + (nc,))
        for k in range(nc):
            raw(r)[..., k] = raw(v)[k]
        return r
    kw = dict(center=center, fldtype='vector', name='f')
    if src == 'flat':
        f = viscid.wrap_field(v, crds, **kw)
    elif src == 'interlaced':
        f = viscid.wrap_field(inter(), crds, **kw)
    elif src == 'list':
        f = viscid.wrap_field([v[k] for k in range(nc)], crds, **kw)
    elif src == 'fields':
        f = viscid.scalar_fields_to_vector([viscid.wrap_field(v[k], crds, center=center, name='s%d' % k) for k in range(nc)],
                                           name='f')
    elif src == 'list_forced':
        f = viscid.wrap_field([v[k] for k in range(nc)], crds, _force_layout='interlaced', **kw)
    elif src == 'fields_forced':
        f = viscid.scalar_fields_to_vector([viscid.wrap_field(v[k], crds, center=center, name='s%d' % k) for k in range(nc)],
                                           name='f', _force_layout='interlaced')
    elif src == 'flat_forced':
        f = viscid.wrap_field(v, crds, _force_layout='interlaced', **kw)
    elif src == 'interlaced_forced':
        f = viscid.wrap_field(inter(), crds, _force_layout='flat', **kw)
    elif src in ('full_flat', 'full_interlaced'):
        f = viscid.full(crds, 0.0, layout=src[5:], nr_comps=nc, center=center)
        for k in range(nc):
            f[NAMES[k]] = v[k]
    elif src in ('like_flat', 'like_interlaced'):
        g = viscid.full(crds, 1.0, layout=src[5:], nr_comps=nc, center=center)
        f = viscid.full_like(g, 0.0)
        for k in range(nc):
            f[NAMES[k]] = v[k]
    return f, comps


EXPECT = dict(flat='flat', interlaced='interlaced', list='flat', fields='flat', list_forced='interlaced', fields_forced='interlaced',
              flat_forced='interlaced', interlaced_forced='flat', full_flat='flat', full_interlaced='interlaced',
              like_flat='flat', like_interlaced='interlaced')


def alleq(ctx, g, w, label):
    g, w = raw(g), raw(w)
    if g.shape != w.shape:
        ctx.fail('%s: shape %s instead of %s' % (label, g.shape, w.shape))
        return
    for i in np.ndindex(*w.shape):
        ctx.eq(g[i], w[i], label)


def verify(ctx, f, comps, layout, lbl):
    nc = len(comps)
    sh = tuple(comps[0].shape)
    ctx.check(f.layout == layout, lbl + 'reported layout')
    ctx.check(int(f.nr_comps) == nc, lbl + 'number of components')
    ctx.check(tuple(int(s) for s in f.shape) == ((nc,) + sh if layout == 'flat' else sh + (nc,)), lbl + 'shape')
    ctx.check(tuple(int(s) for s in f.sshape) == sh, lbl + 'spatial shape')
    for k in range(nc):
        c = f[NAMES[k]]
        alleq(ctx, c, comps[k], lbl + 'component by name')
        ctx.check(c.nr_comps == 0 and tuple(c.crds.axes) == tuple(f.crds.axes) and c.center == f.center,
                  lbl + 'a component is a scalar field on the same coordinates')
        for ax in f.crds.axes:
            alleq(ctx, c.get_crd(ax), f.get_crd(ax), lbl + 'a component is a scalar field on the same coordinates')
        alleq(ctx, f[(slice(None), NAMES[k])], comps[k], lbl + 'component by name')
    views = f.component_views()
    for k, (a, b) in enumerate(zip(views, f.component_fields())):
        alleq(ctx, a, comps[k], lbl + 'component view')
        alleq(ctx, b, comps[k], lbl + 'component field')
    ctx.check(len(views) == nc, lbl + 'number of component views')
    d = raw(f.data)
    for k in range(nc):
        alleq(ctx, d[k] if layout == 'flat' else d[..., k], comps[k], lbl + 'data in the layout')


def change(ctx, f, op):
    """returns (field, layout after)"""
    if op == 'as_flat':
        return f.as_flat(), 'flat'
    if op == 'as_interlaced':
        return f.as_interlaced(), 'interlaced'
    if op == 'flat_view':
        return f.as_layout('flat', force_c_contiguous=False), 'flat'
    if op == 'interlaced_view':
        return f.as_layout('interlaced', force_c_contiguous=False), 'interlaced'
    if op == 'set_flat':
        f.layout = 'flat'
        return f, 'flat'
    if op == 'set_interlaced':
        f.layout = 'interlaced'
        return f, 'interlaced'
    if op == 'arith':
        return f * 1.0, f.layout
    if op == 'copy':
        return f.shell_copy(force=True), f.layout
    raise ValueError(op)


OPS = ['as_flat', 'as_interlaced', 'flat_view', 'interlaced_view', 'set_flat', 'set_interlaced', 'arith', 'copy']


def seq_case(ctx, src, sh, nc, center, depth):
    f, comps = build(ctx, src, sh, nc, center)
    if ctx.choice('look first', [True, False]):
        verify(ctx, f, comps, EXPECT[src], 'new field: ')
    for d in range(depth):
        op = ctx.choice('op%d' % d, OPS)
        g, lay = change(ctx, f, op)
        if g is not f and op != 'copy' and ctx.choice('old%d' % d, [True, False]):
            for k in range(nc):
                alleq(ctx, f[NAMES[k]], comps[k], 'the original after %s: component' % op)
        f = g
        if d == depth - 1 or ctx.choice('look%d' % d, [True, False]):
            verify(ctx, f, comps, lay, 'after %s: ' % op)


def assign_case(ctx, src, sh, nc, center):
    import viscid
    f, comps = build(ctx, src, sh, nc, center)
    op = ctx.choice('op', [None, 'as_flat', 'as_interlaced', 'set_flat', 'set_interlaced', 'arith'])
    if op:
        f, _ = change(ctx, f, op)
    lay = f.layout
    k = int(ctx.choice('comp', list(range(nc))))
    how = ctx.choice('how', ['whole', 'scalar', 'slice', 'slice_first', 'string', 'view', 'inplace', 'field', 'last'])
    new = [c.copy() for c in comps]
    ax0 = f.crds.axes[0]
    if how in ('whole', 'field', 'view'):
        w = ctx.reals('n', tuple(sh))
        new[k] = raw(w)
        if how == 'whole':
            f[NAMES[k]] = w
        elif how == 'field':
            f[NAMES[k]] = viscid.wrap_field(w, f.crds, center=f.center)
        else:
            f.component_views()[k][...] = w
    elif how == 'scalar':
        x = ctx.real('n', -4, 4)
        f[NAMES[k]] = x
        for i in np.ndindex(*sh):
            new[k][i] = x
    elif how in ('slice', 'slice_first', 'string', 'last'):
        x = ctx.real('n', -4, 4)
        if how == 'slice':
            f[slice(1, None), NAMES[k]] = x
        elif how == 'slice_first':
            f[NAMES[k], slice(1, None)] = x
        elif how == 'string':
            f['%s=1:, %s' % (ax0, NAMES[k])] = x
        else:
            f[Ellipsis, slice(-1, None), NAMES[k]] = x
        for i in np.ndindex(*sh):
            if (how == 'last' and i[-1] == sh[-1] - 1) or (how != 'last' and i[0] >= 1):
                new[k][i] = x
    elif how == 'inplace':
        c = f[NAMES[k]]
        x = ctx.real('n', -4, 4)
        f[NAMES[k]] = c * 2.0 + x
        for i in np.ndindex(*sh):
            new[k][i] = comps[k][i] * 2.0 + x
    verify(ctx, f, new, lay, 'assignment to one component (%s): ' % how)


def slices_case(ctx, src, sh, nc, center):
    """component of a slice and slice of a component"""
    f, comps = build(ctx, src, sh, nc, center)
    if ctx.choice('load', [True, False]):
        f.resolve()
    k = int(ctx.choice('comp', list(range(nc))))
    a = ctx.choice('sel', [slice(1, None), slice(None, None, 2), slice(None, None, -1), slice(0, 2)])
    want = comps[k][a]
    alleq(ctx, f[(a, NAMES[k])], want, 'component and slice at once')
    alleq(ctx, f[(NAMES[k], a)], want, 'component and slice at once')
    alleq(ctx, f[NAMES[k]][a], want, 'slice of the component')
    g = f[a]
    alleq(ctx, g[NAMES[k]], want, 'component of the slice')
    for j in range(nc):
        alleq(ctx, g.component_views()[j], comps[j][a], 'components of the slice')


def cases(tier):
    out = []
    th = tier != 'quick'
    srcs = list(EXPECT)
    for center in ('node', 'cell'):
        for src in srcs:
            for sh, nc in (([3], 2), ([2, 3], 3), ([3, 3], 3), ([2, 2], 2), ([2, 3, 2], 3)) + ((([3, 3, 3], 3), ([4], 4)) if th else ()):
                if src in ('interlaced', 'interlaced_forced') and all(s == nc for s in sh):
                    continue
                if not th and (center == 'cell' and sh not in ([2, 3], [2, 2]) or
                               sh == [3, 3] and not src.startswith(('flat', 'full'))):
                    continue
                nm = '%s_%s_%s_%d' % (src, center, 'x'.join(map(str, sh)), nc)
                big = len(sh) == 3
                out.append(Case('seq_' + nm, lambda ctx, s=src, sh=sh, n=nc, c=center, d=(2 if th or sh in ([3], [2, 2]) else 1):
                                seq_case(ctx, s, sh, n, c, d), weight=6))
                out.append(Case('assign_' + nm, lambda ctx, s=src, sh=sh, n=nc, c=center: assign_case(ctx, s, sh, n, c), weight=6))
                out.append(Case('slice_' + nm, lambda ctx, s=src, sh=sh, n=nc, c=center: slices_case(ctx, s, sh, n, c), weight=2))
    return out
