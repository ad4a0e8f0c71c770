"""Slicing an AMR field keeps the patches overlapping the selection; arithmetic acts patch by patch."""
import operator
import numpy as np
from sym.run import Case
from harness.common import raw, rejects

PROP = 'P19'
ENCODED = ['viscid.amr_field.AMRField.slice, slice_reduce, slice_and_keep, patch_indices, _prepare_amr_slice, _finalize_amr_slice, '
           'wrap_field_method, all operators, __array__, __array_wrap__, xl, xh, get_slice_extent',
           'viscid.coordinate.StructuredCrds.get_slice_extent; viscid.sliceutil.sel2values, std_sel2index']
BOUNDS = ("2 and 3 patches side by side and one above two others (a coarse patch next to finer ones), in 2 axes (1 and 3 axes in a few "
          "cases), 3 nodes per axis, symbolic patch borders, node and cell centered scalar and vector fields with symbolic values; selection: "
          "window with symbolic ends, one or both ends missing, or one symbolic location, in one or two axes, steps 1; named, "
          "positional, with a component; operators + - * / comparisons, neg, abs, with numbers, other AMR fields")
ASSUME = ["a selection end is on a patch border or at least 1/50 away from it", "the selection overlaps at least one patch; a single location "
          "lies strictly inside the covered region or on an inner border"]
OUTSIDE = "windows that hold no grid point of any patch, selection by global index (rejected by the code), patches whose selection is one single number, interpolated_slice"


def layout(ctx, kind, fixed=False):
    """list of patches, each a list of (lo, hi) per axis"""
    if kind == 'row2':
        m = ctx.real('m', 1, 3)
        return [[(0, m), (0, 2)], [(m, 4), (0, 2)]]
    if kind == 'row3':
        m = ctx.real('m', 1, 2)
        k = ctx.real('k', 2.5, 3.5)
        return [[(0, m), (0, 2)], [(m, k), (0, 2)], [(k, 5), (0, 2)]]
    if kind == 'tee':
        m, h = (2, 1) if fixed else (ctx.real('m', 1, 3), ctx.real('h', 0.5, 1.5))
        return [[(0, m), (0, 2)], [(m, 4), (0, h)], [(m, 4), (h, 2)]]
    if kind == 'line':
        m = ctx.real('m', 1, 3)
        return [[(0, m)], [(m, 4)]]
    if kind == 'flat3':          # third axis with one point
        m = ctx.real('m', 1, 3)
        return [[(0, m), (0, 2), (0.5, 0.5)], [(m, 4), (0, 2), (0.5, 0.5)]]
    if kind == 'box':
        m = 2 if fixed else ctx.real('m', 1, 3)
        return [[(0, m), (0, 1), (0, 2)], [(m, 4), (0, 1), (0, 2)]]


def build(ctx, boxes, center, vec, name='v', n=3):
    import viscid
    from viscid.amr_field import AMRField
    flds = []
    for p, box in enumerate(boxes):
        cl = []
        for ax, (lo, hi) in zip('xyz', box):
            k = 1 if lo is hi or (not hasattr(lo, 't') and not hasattr(hi, 't') and lo == hi) else n
            cl.append((ax, ctx.consts([lo + (hi - lo) * i / (k - 1) for i in range(k)] if k > 1 else [lo])))
        crds = viscid.wrap_crds('nonuniform_cartesian', cl)
        sh = tuple(max(len(a) - 1, 1) if center == 'cell' else len(a) for _, a in cl)
        v = ctx.reals('%s%d' % (name, p), ((2,) if vec else ()) + sh)
        flds.append(viscid.wrap_field(v, crds, name=name, center=center, fldtype='vector' if vec else 'scalar'))
    return AMRField(flds, None)


def eqs(ctx, g, w, label):
    g, w = raw(g), raw(w)
    if tuple(g.shape) != tuple(w.shape):
        ctx.fail('%s: shape %s instead of %s' % (label, g.shape, w.shape))
        return
    for i in np.ndindex(*w.shape):
        ctx.eq(g[i], w[i], label)


def samefld(ctx, g, w, label):
    if hasattr(g, 'crds') != hasattr(w, 'crds'):
        ctx.fail(label + ': kind')
        return
    if not hasattr(w, 'crds'):
        ctx.eq(g, w, label)
        return
    eqs(ctx, g, w, label)
    ctx.check(list(g.crds.axes) == list(w.crds.axes), label + ': axes')
    for a in w.crds.axes:
        eqs(ctx, g.get_crd(a), w.get_crd(a), label + ': coordinates')


def off(ctx, x, borders):
    """x is on a border or well away from it"""
    for b in borders:
        if bool(x == b):
            return
    for b in borders:
        d = x - b
        ctx.assume((d > 0.02) | (d < -0.02) if hasattr(d, 't') or hasattr(d, 'dtype') else (abs(d) > 0.02))


def within(lo, hi, x, one):
    """does [lo, hi] overlap the selected interval x = (a, b)"""
    a, b = x
    ok = True
    if b is not None:
        ok = ok and bool(lo <= b)
    if a is not None:
        ok = ok and bool(hi > a)
    return ok


def slicing(ctx, kind, center, vec, how, axes, few=False):
    boxes = layout(ctx, kind, few or bool(vec))
    f = build(ctx, boxes, center, vec)
    sel = {}
    lohi = []
    for ax in axes:
        k = 'xyz'.index(ax)
        bs = []
        for b in boxes:
            for q in b[k]:
                if not any(q is z for z in bs):
                    bs.append(q)
        glo, ghi = boxes[0][k][0], boxes[-1][k][1]
        forms = ['window', 'from', 'to', 'point']
        if few and lohi:
            forms = {'window': ['to'], 'from': ['point'], 'to': ['window'], 'point': ['from']}[lohi[0][2]]
        form = ctx.choice('form' + ax, forms)
        if form == 'point':
            a = ctx.real('a' + ax, 0, 5)
            ctx.assume(a >= glo)
            ctx.assume(a < ghi)
            off(ctx, a, bs)
            sel[ax], iv = a, (a, a)
        else:
            a = ctx.real('a' + ax, -1, 6) if form != 'to' else None
            b = ctx.real('b' + ax, -1, 6) if form != 'from' else None
            if a is not None:
                off(ctx, a, bs)
                ctx.assume(a < ghi)
            if b is not None:
                off(ctx, b, bs)
                ctx.assume(b >= glo)
            if a is not None and b is not None:
                ctx.assume(a <= b)
            sel[ax], iv = slice(a, b), (a, b)
        lohi.append((k, iv, form))
    parts = []
    for ax in 'xyz'[:len(boxes[0])]:
        s = sel.get(ax, slice(None))
        if isinstance(s, slice):
            parts.append(slice(None if s.start is None else 1j * s.start, None if s.stop is None else 1j * s.stop))
        else:
            parts.append(1j * s)
    item = tuple(parts)
    if vec == 'comp':
        item = ('y',) + item
    want_i = []
    for p, box in enumerate(boxes):
        if all(within(box[k][0], box[k][1], iv, form) for k, iv, form in lohi):
            want_i.append(p)
    want = [getattr(f.patches[p], how)(item) for p in want_i]
    want = [w for w in want if not hasattr(w, 'crds') or w.size > 0] if len(want_i) > 1 else want
    if len(want_i) > 1 and any(not hasattr(w, 'crds') for w in want):
        return
    if not want:
        return          # the window lies between the grid points of every patch: nothing to return
    got = getattr(f, how)(item)
    inds = f.patch_indices(item)
    inds = [int(i) for i in inds] if isinstance(inds, list) else [int(inds)]
    ctx.check(inds == want_i, 'patches %s overlap the selection, not %s' % (want_i, inds) if not ctx.symbolic else 'patches that overlap')
    gl = got.patches if hasattr(got, 'patches') else [got]
    if len(gl) != len(want):
        ctx.fail('number of patches in the result')
        return
    for g, w in zip(gl, want):
        samefld(ctx, g, w, 'patch slices')
        if hasattr(g, 'crds'):
            for k, iv, form in lohi:
                ax = 'xyz'[k]
                if form != 'point' and ax in g.crds.axes:
                    for c in raw(g.get_crd(ax)).ravel():
                        if iv[0] is not None:
                            ctx.check(c >= iv[0] - 1e-3, 'inside the selection')
                        if iv[1] is not None:
                            ctx.check(c <= iv[1] + 1e-3, 'inside the selection')


def byindex(ctx):
    f = build(ctx, layout(ctx, 'row2'), 'node', False)
    rejects(ctx, lambda: f[1:2], 'selection by global index is rejected')


OPS = dict(add=operator.add, sub=operator.sub, mul=operator.mul, div=operator.truediv, lt=operator.lt, ge=operator.ge, eq=operator.eq,
           ne=operator.ne, le=operator.le, gt=operator.gt)


def arith(ctx, kind, center, vec):
    boxes = layout(ctx, kind)
    f = build(ctx, boxes, center, vec)
    g = build(ctx, boxes, center, vec, name='w')
    o = ctx.choice('op', ['add', 'sub', 'mul', 'neg', 'abs', 'lt', 'ge', 'eq', 'iadd', 'isub', 'imul', 'div', 'rdiv', 'pos', 'square'])
    how = ctx.choice('how', ['ff', 'fn', 'nf'])
    x = ctx.real('x', 0.5, 4)
    if o in ('neg', 'abs', 'pos', 'square'):
        if how != 'ff':
            return
        if o == 'abs':
            for p in f.patches:
                for e in raw(p.data).ravel()[2:]:
                    ctx.assume(e >= 0)
        fn = dict(neg=operator.neg, abs=abs, pos=operator.pos, square=np.square)[o]
        got = fn(f)
        want = [fn(p) for p in f.patches]
    elif o in ('iadd', 'isub', 'imul'):
        if how == 'nf':
            return
        keep = [raw(p.data).copy() for p in f.patches]
        fn = dict(iadd=operator.iadd, isub=operator.isub, imul=operator.imul)[o]
        plain = dict(iadd=operator.add, isub=operator.sub, imul=operator.mul)[o]
        b = x if how == 'fn' else g
        want = [plain(p, x if how == 'fn' else q) for p, q in zip(f.patches, g.patches)]
        got = fn(f, b)
        for p, k in zip(f.patches, keep):
            eqs(ctx, p, k, 'operand unchanged')
    else:
        fn = operator.truediv if o in ('div', 'rdiv') else OPS[o]
        if o in ('lt', 'ge', 'eq', 'div', 'rdiv'):
            # few symbolic values only
            one = np.ones(())
            for fl in (f, g):
                for p in fl.patches:
                    for e in raw(p.data).ravel()[1:]:
                        ctx.assume(e == 1)
                    if o in ('div', 'rdiv'):
                        ctx.assume(raw(p.data).ravel()[0] >= 0.5)
        if how == 'ff':
            got, want = fn(f, g), [fn(p, q) for p, q in zip(f.patches, g.patches)]
        elif how == 'fn':
            got, want = fn(f, x), [fn(p, x) for p in f.patches]
        else:
            got, want = fn(x, f), [fn(x, p) for p in f.patches]
    if not hasattr(got, 'patches') or len(got.patches) != len(want):
        ctx.fail('one result per patch')
        return
    for a, b in zip(got.patches, want):
        if o in ('lt', 'ge', 'eq'):
            A, B = raw(a.data), raw(b.data)
            ctx.check(A.shape == B.shape, 'shape')
            for i in np.ndindex(*B.shape):
                ctx.check(bool(A[i]) == bool(B[i]), 'comparison patch by patch')
        else:
            samefld(ctx, a, b, 'operation patch by patch')
        ctx.check(a.center == b.center, 'centering')


def cases(tier):
    th = tier != 'quick'
    out = []
    for center in ('node', 'cell'):
        for vec in (False, True, 'comp'):
            for kind, axs in (('row2', ['x']), ('row2', ['y']), ('row3', ['x']), ('tee', ['x', 'y']), ('line', ['x']), ('flat3', ['x']),
                              ('flat3', ['z']), ('box', ['x', 'z'])):
                if not th and vec and (kind not in ('row2', 'tee') or kind == 'tee'):
                    continue
                if not th and kind == 'tee' and vec == 'comp' and center == 'node':
                    continue
                for how in ('slice', 'slice_reduce', 'slice_and_keep'):
                    if not th and how != 'slice' and (vec or kind != 'row2' or axs != ['x']):
                        continue
                    if kind == 'line' and vec == 'comp':
                        continue
                    out.append(Case('slice_%s_%s_%s_%s_%s' % (center, vec, kind, ''.join(axs), how),
                                    lambda ctx, k=kind, c=center, v=vec, h=how, a=axs: slicing(ctx, k, c, v, h, a, not th), weight=5))
        for vec in (False, True):
            for kind in ('row2',) if not th else ('row2', 'tee', 'line'):
                out.append(Case('arith_%s_%s_%s' % (center, vec, kind), lambda ctx, k=kind, c=center, v=vec: arith(ctx, k, c, v), weight=5))
    out.append(Case('byindex', byindex))
    return out
