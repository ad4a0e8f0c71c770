"""Staggered fields convert to cell centers conservatively; boundary extension."""
import numpy as np
from sym.run import Case
from harness.common import raw, rejects

PROP = 'P23'
ENCODED = ['viscid.calculator.ecfc: fc2cc, ec2cc, div_fc, make_ecfc_field_leading, _prep_slices (numexpr and numpy paths)',
           'viscid.calculator.calc: div of face centered fields, extend_boundaries, extend_boundaries_ndarr',
           'viscid.field: slicing and item assignment of face/edge centered vector fields, atleast_3d, zeros_like']
BOUNDS = ("1 to 5 cells per axis (1, 2 and 3 dimensional), every face/edge value symbolic; coordinates concrete and uneven or uniform, or the "
          "nodes of one axis symbolic; leading and trailing staggering, every combination of flipped axes, flat and interlaced; boundary "
          "extension by 0..2 cells on either side, every subset of axes, order 0 and 1")
ASSUME = ["node coordinates strictly ascending", "mixed staggering along different axes is not used by any reader"]
OUTSIDE = "trim_leading=False; values put in new corner regions of an extension (documented as unspecified); rounding"


def clist(ctx, ncell, symax=-1, uniform=False):
    cl = []
    for k, (ax, n) in enumerate(zip('xyz', ncell)):
        if uniform:
            cl.append((ax, [-1.0 + k, -1.0 + k + (0.5 + 0.25 * k) * n, n + 1]))
        elif k == symax:
            cl.append((ax, ctx.ascending(ax, n + 1)))
        else:
            cl.append((ax, ctx.consts([0.5 * k + i + 0.25 * i * i for i in range(n + 1)])))
    return cl


def build(ctx, ncell, center, layout='flat', symax=-1, uniform=False, name='v'):
    import viscid
    crds = viscid.wrap_crds('uniform_cartesian' if uniform else 'nonuniform_cartesian', clist(ctx, ncell, symax, uniform))
    v = ctx.reals(name, (3,) + tuple(ncell))
    A = v if layout == 'flat' else np.moveaxis(v, 0, -1).copy()
    f = viscid.wrap_field(A, crds, name=name, fldtype='vector', center=center, layout=layout)
    return f, raw(v), [raw(x) for x in crds.get_crds_nc()]


def convention(ctx, f, kind, ndim):
    """mark the field as written by the staggering convention; returns (first cell, leading?(axis))"""
    import viscid
    if kind == 'plain':
        return 0, [True] * 3
    stag, flips = kind
    st = viscid.STAGGER_LEADING if stag == 'leading' else viscid.STAGGER_TRAILING
    f.set_info(viscid.STAGGER_KEY, [st] * 3)
    f.set_info(viscid.FLIP_KEY, list(flips))
    f.set_info(viscid.PREPROCESSED_KEY, False)
    return 1, [(stag == 'leading') != fl for fl in flips]


def between(ctx, r, nodes, ncell, first, label, inner):
    """result cells sit exactly at cells first..N-2 (axes with one cell: that cell)"""
    for k, n in enumerate(ncell):
        want = nodes[k] if n == 1 else nodes[k][first:n]
        got = raw(r.get_crds_nc()[k]) if r.center.lower() != 'node' else raw(r.get_crds()[k])
        if inner and n > 1:
            got = got[1:-1]
        elif inner:
            got = got[1:-1]
        if len(got) != len(want):
            ctx.fail('%s: %d node positions along axis %d instead of %d' % (label, len(got), k, len(want)))
            return False
        for a, b in zip(got, want):
            ctx.eq(a, b, label + ': cell borders')
    return True


def conversion(ctx, what, ncell, kind, layout, force, symax, uniform, bnd=False):
    import viscid
    f, V, nodes = build(ctx, ncell, 'face' if what != 'ec2cc' else 'edge', layout, symax, uniform)
    nd = len(ncell)
    first, lead = convention(ctx, f, kind, nd)
    if what == 'div':
        r = viscid.div(f, bnd=bnd) if not force else viscid.div_fc(f, force_numpy=True, bnd=bnd)
    else:
        r = getattr(viscid, what)(f, force_numpy=force, bnd=bnd)
    full = list(ncell) + [1] * (3 - nd)
    V = V.reshape((3,) + tuple(full))
    nodes = nodes + [np.array([-1, 1])] * (3 - nd)
    cells = [range(first, n - 1) if n > 1 else range(1) for n in full]
    shape = tuple(len(c) for c in cells)
    if not between(ctx, r, nodes[:nd], ncell, first, what, bnd):
        return
    ctx.check(r.center.lower() == 'cell', what + ': result is cell centered')
    comps = [raw(r)] if what == 'div' else [raw(c) for c in r.component_views()]
    cut = (slice(1, -1),) * 3 if bnd else (Ellipsis,)
    comps = [c[cut] for c in comps]
    for c in comps:
        if tuple(c.shape) != shape:
            ctx.fail('%s: shape %s instead of %s' % (what, c.shape, shape))
            return

    def lo(comp, axes, i, side):
        """value of a component at the lower/upper (0/1) border of cell i along the given axes"""
        j = list(i)
        for a, s in zip(axes, side):
            if full[a] > 1:
                j[a] = i[a] + s - (0 if lead[a] else 1)
        return V[(comp,) + tuple(j)]
    total = 0
    for o in np.ndindex(*shape):
        i = tuple(cells[k][o[k]] for k in range(3))
        if what == 'fc2cc':
            for c in range(3):
                ctx.eq(comps[c][o], (lo(c, [c], i, [0]) + lo(c, [c], i, [1])) / 2, "mean of the cell's own faces")
        elif what == 'ec2cc':
            for c in range(3):
                ax = [a for a in range(3) if a != c]
                ctx.eq(comps[c][o], sum(lo(c, ax, i, [p, q]) for p in (0, 1) for q in (0, 1)) / 4, "mean of the cell's own edges")
        else:
            w = 0
            for c in range(3):
                if full[c] > 1:
                    w = w + (lo(c, [c], i, [1]) - lo(c, [c], i, [0])) / (nodes[c][i[c] + 1] - nodes[c][i[c]])
            ctx.eq(comps[0][o], w, 'flux through own faces over cell size')


def conserve(ctx, ncell, kind, layout, force):
    """sum of divergence times volume equals the net outward flux"""
    import viscid
    f, V, nodes = build(ctx, ncell, 'face', layout)
    first, lead = convention(ctx, f, kind, 3)
    r = raw(viscid.div_fc(f, force_numpy=force, bnd=False))
    cells = [range(first, n - 1) for n in ncell]
    if tuple(r.shape) != tuple(len(c) for c in cells):
        ctx.fail('div shape')
        return
    d = [np.array([nodes[k][i + 1] - nodes[k][i] for i in cells[k]], dtype=object) for k in range(3)]
    tot = 0
    for o in np.ndindex(*r.shape):
        tot = tot + r[o] * (d[0][o[0]] * d[1][o[1]] * d[2][o[2]])
    flux = 0
    for c in range(3):
        a, b = [k for k in range(3) if k != c]
        for p in range(len(cells[a])):
            for q in range(len(cells[b])):
                for side, cell in ((1, cells[c][-1]), (0, cells[c][0])):
                    i = [0] * 3
                    i[c] = cell + side - (0 if lead[c] else 1)
                    i[a], i[b] = cells[a][p], cells[b][q]
                    v = V[(c,) + tuple(i)] * (d[a][p] * d[b][q])
                    flux = flux + v if side else flux - v
    ctx.eq(tot, flux, 'net outward flux')


def extend(ctx, shape, center, layout, axes, nl, nh, order, crd_order, uniform, byname):
    """boundary extension of fields"""
    import viscid
    vec = layout is not None
    n = [s + (1 if center == 'cell' else 0) for s in shape]
    crds = viscid.wrap_crds('uniform_cartesian' if uniform else 'nonuniform_cartesian', clist(ctx, [k - 1 for k in n], -1, uniform))
    v = ctx.reals('v', ((3,) if vec else ()) + tuple(shape))
    A = np.moveaxis(v, 0, -1).copy() if layout == 'interlaced' else v
    f = viscid.wrap_field(A, crds, name='v', center=center, **(dict(fldtype='vector', layout=layout) if vec else {}))
    arg = 'all' if axes is None else ([('xyz'[a] if byname else a) for a in axes])
    axes = range(len(shape)) if axes is None else axes
    r = viscid.extend_boundaries(f, nl=nl, nh=nh, axes=arg, order=order, crd_order=crd_order)
    want = tuple(s + (nl + nh if k in axes else 0) for k, s in enumerate(shape))
    V = raw(v) if vec else raw(v)[None]
    R = np.array([raw(c) for c in r.component_views()], dtype=object) if vec else raw(r)[None]
    if tuple(R.shape[1:]) != want:
        ctx.fail('extend_boundaries: shape %s instead of %s' % (R.shape[1:], want))
        return
    ctx.check(r.center == f.center, 'extend_boundaries: centering')
    if vec:
        ctx.check(r.layout == f.layout, 'extend_boundaries: layout')
    for o in np.ndindex(*want):
        i = [o[k] - (nl if k in axes else 0) for k in range(len(shape))]
        out = [k for k in range(len(shape)) if not 0 <= i[k] < shape[k]]
        if len(out) > 1:
            continue
        for c in range(V.shape[0]):
            if not out:
                w = V[(c,) + tuple(i)]
            else:
                k = out[0]
                e, s = (0, 1) if i[k] < 0 else (shape[k] - 1, shape[k] - 2)
                m = -i[k] if i[k] < 0 else i[k] - (shape[k] - 1)
                j = list(i)
                j[k] = e
                w = V[(c,) + tuple(j)]
                if order == 1 and shape[k] > 1:
                    j[k] = s
                    w = w + m * (w - V[(c,) + tuple(j)])
            ctx.eq(R[(c,) + o], w, 'extend_boundaries: order %d value' % order if out else 'extend_boundaries: interior value')
    # coordinates
    for k in range(len(shape)):
        a, b = raw(f.get_crds_nc()[k]), raw(r.get_crds_nc()[k])
        L, H = (nl, nh) if k in axes else (0, 0)
        if len(b) != len(a) + L + H:
            ctx.fail('extend_boundaries: number of nodes')
            return
        for q in range(len(b)):
            p = q - L
            if 0 <= p < len(a):
                w = a[p]
            elif p < 0:
                w = a[0] if crd_order == 0 else a[0] + (-p) * ((a[0] - a[1]) if len(a) > 1 else -1.0)
            else:
                m = p - (len(a) - 1)
                w = a[-1] if crd_order == 0 else a[-1] + m * ((a[-1] - a[-2]) if len(a) > 1 else 1.0)
            ctx.eq(b[q], w, 'extend_boundaries: node positions')
        if center == 'cell':
            ca, cb = raw(f.get_crds_cc()[k]), raw(r.get_crds_cc()[k])
            if len(cb) != len(ca) + L + H:
                ctx.fail('extend_boundaries: number of cells')
                return
            for q in range(len(ca)):
                ctx.eq(cb[q + L], ca[q], 'extend_boundaries: interior cell centers')


def cases(tier):
    th = tier != 'quick'
    out = []
    import itertools
    flips = list(itertools.product((False, True), repeat=3))
    kinds = ['plain'] + [(s, fl) for s in ('leading', 'trailing') for fl in (flips if th else [flips[0], flips[6], flips[1], flips[3]])]
    shapes = [(4, 5, 4), (4, 1, 5), (1, 4, 5), (4, 5, 1)] + ([(5, 4), (1, 5), (4,), (1, 1, 4)] if th else [(5, 4), (4,)])
    for what in ('fc2cc', 'ec2cc', 'div'):
        for kind in kinds:
            for shape in shapes:
                if len(shape) < 3 and kind != 'plain' and not th:
                    continue
                for layout in ('flat', 'interlaced'):
                    for force in (False, True):
                        if not th and force and layout == 'interlaced':
                            continue
                        nm = kind if kind == 'plain' else kind[0] + ''.join('-+'[x] for x in kind[1])
                        out.append(Case('%s_%s_%s_%s_%s' % (what, nm, 'x'.join(map(str, shape)), layout, force),
                                        lambda ctx, w=what, s=shape, k=kind, l=layout, f=force: conversion(ctx, w, s, k, l, f, -1, f)))
        for symax in (0, 1, 2):
            out.append(Case('%s_sym_%s' % (what, 'xyz'[symax]), lambda ctx, w=what, s=symax:
                            conversion(ctx, w, (4, 4, 4), ('trailing', (True, False, False)), 'flat', False, s, False)))
        for shape in ((4, 4, 5), (4, 1, 4), (4, 4)):
            out.append(Case('%s_bnd_%s' % (what, 'x'.join(map(str, shape))), lambda ctx, w=what, s=shape:
                            conversion(ctx, w, s, 'plain', 'flat', False, -1, False, True)))
    for kind in kinds[:4]:
        for layout in ('flat', 'interlaced'):
            nm = kind if kind == 'plain' else kind[0] + ''.join('-+'[x] for x in kind[1])
            out.append(Case('conserve_%s_%s' % (nm, layout), lambda ctx, k=kind, l=layout: conserve(ctx, (4, 5, 4), k, l, l == 'flat')))
    n = 0
    for shape, axs in (((4,), (None,)), ((4, 2), (None, (0,), (1,))), ((4, 1, 2), (None, (0, 2), (1,), (2,))), ((1, 2), (None, (1,)))):
        for layout in (None, 'flat', 'interlaced'):
            for center in ('node', 'cell'):
                for axes in axs:
                    for nl, nh in ((1, 1), (0, 1), (2, 0), (1, 2)):
                        for order, crd_order in ((0, 0), (1, 1), (0, 1)):
                            n += 1
                            if not th and n % 3:
                                continue
                            out.append(Case('extend_%s_%s_%s_%s_%d%d_%d%d' % ('x'.join(map(str, shape)), center, layout, axes, nl, nh, order, crd_order),
                                            lambda ctx, s=shape, c=center, l=layout, a=axes, nl=nl, nh=nh, o=order, co=crd_order, n=n:
                                            extend(ctx, s, c, l, a, nl, nh, o, co, n % 2 == 0 and min(s) > 1, n % 4 == 0)))
    return out
