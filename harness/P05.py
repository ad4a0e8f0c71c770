"""Sliced data stay attached to their own coordinates."""
import itertools
import numpy as np
from sym.run import Case
from harness.common import raw, mkcrds

PROP = 'P05'
ENCODED = ['viscid.coordinate.StructuredCrds._make_slice, make_slice, make_slice_reduce, make_slice_keep',
           'viscid.coordinate.wrap_crds', 'viscid.coordinate.UniformCrds.__init__', 'viscid.coordinate.StructuredCrds._fill_crds_dict',
           'viscid.field.Field.slice, slice_reduce, slice_keep, _finalize_slice', 'viscid.sliceutil (selection parsing)']
BOUNDS = ("1-D fields of 1..4 points or cells (thorough 1..6), node coordinates symbolic (ascending, spacing 1/4..4; uniform: "
          "symbolic low end and spacing), every integer start/stop in [-n-1, n+1], strides +-1, +-2, 3; one integer; "
          "selection by every real location and location interval; 2-D fields of 2 x 3 with every pair of selections; "
          "slice, slice_reduce and slice_keep; scalar and both vector layouts")
ASSUME = ["cell centers and nodes of an axis are compared exactly, in exact arithmetic"]
OUTSIDE = "time-like axes; more than two dimensions; face and edge centered fields; strided slices keep each cell's center, not its width"


def tagged(ctx, sshape, center, uniform, comps=None, axes='xyz', sym=True):
    """field whose value at (i, j) is 10*i + j (+1000*component)"""
    import viscid
    axes = axes[:len(sshape)]
    pts = [n + 1 for n in sshape] if center == 'cell' else list(sshape)
    crds = mkcrds(ctx, axes, pts, uniform, sym=sym)
    b = np.zeros(sshape)
    for k in range(len(sshape)):
        sh = [1] * len(sshape)
        sh[k] = -1
        b = b + np.arange(sshape[k]).reshape(sh) * 10 ** (len(sshape) - 1 - k)
    kw = {}
    if comps == 'flat':
        b = np.array([b + 1000 * k for k in range(3)])
        kw = dict(fldtype='vector', layout='flat')
    elif comps == 'interlaced':
        b = np.stack([b + 1000 * k for k in range(3)], axis=-1)
        kw = dict(fldtype='vector', layout='interlaced')
    f = viscid.wrap_field(b, crds, name='f', center=center, **kw)
    return f


def axinfo(f):
    """original coordinates per axis as plain lists"""
    out = {}
    for ax in f.crds.axes:
        out[ax] = (list(raw(f.crds.get_nc(ax))), list(raw(f.get_crd(ax))))
    return out


def verify(ctx, f, info, r, axes, sshape, unit, extra=0, lbl=''):
    """every value of r sits at the coordinates it had in f"""
    center = f.center
    if not hasattr(r, 'crds'):
        ctx.check(True, lbl + 'a single value')
        return None
    c = list(r.crds.axes)
    sh = tuple(r.sshape)
    d = np.array(raw(r.data), dtype=float)
    if r.nr_comps:
        d = d[0] if r.layout == 'flat' else d[..., 0]
    d = d % 1000
    ctx.check(d.shape == tuple(len(r.get_crd(ax)) for ax in c), lbl + 'data shape agrees with the coordinates')
    old = [ax for ax in c if ax in axes]
    ctx.check(old == [ax for ax in axes if ax in old], lbl + 'axes keep their order')
    red = dict((a, v) for a, v in (r.meta.get('reduced') or []))
    if r.size == 0:
        return None
    digits = {ax: np.array((d // 10 ** (len(axes) - 1 - axes.index(ax))) % 10, dtype=int) for ax in axes}
    for ax in axes:
        dg = digits[ax]
        if ax in c:
            k = c.index(ax)
            dg = np.moveaxis(dg, k, 0).reshape(dg.shape[k], -1)
            ctx.check(bool((dg == dg[:, :1]).all()), lbl + 'index along an axis depends on that axis only')
            crd = raw(r.get_crd(ax))
            for j in range(dg.shape[0]):
                ctx.eq(crd[j], info[ax][1][int(dg[j, 0])], lbl + 'coordinate of a remaining value (%s)' % center)
            nc = raw(r.crds.get_nc(ax))
            if center == 'cell' and (unit.get(ax, True) or dg.shape[0] == 1):
                ctx.check(len(nc) == dg.shape[0] + 1, lbl + 'one more node than cells')
                idx = [int(x) for x in dg[:, 0]]
                up = len(idx) == 1 or idx[1] > idx[0]
                for j, i in enumerate(idx):
                    lo, hi = (nc[j], nc[j + 1])
                    if len(idx) > 1 and not up:
                        lo, hi = hi, lo
                    ctx.eq(lo, info[ax][0][i], lbl + 'lower node of a cell')
                    ctx.eq(hi, info[ax][0][i + 1], lbl + 'upper node of a cell')
        else:
            ctx.check(bool((dg == dg.flat[0]).all()), lbl + 'a dropped axis has one index')
            ctx.check(ax in red, lbl + 'dropped axis is recorded')
            ctx.eq(red[ax], info[ax][1][int(dg.flat[0])], lbl + 'location of a dropped axis')
    return d


def opt(ctx, name, n):
    if ctx.choice(name + '?', [True, False]):
        return int(ctx.int(name, -n - 1, n + 1))
    return None


def oned(ctx, n, center, uniform, steps, comps=None):
    f = tagged(ctx, (n,), center, uniform, comps)
    info = axinfo(f)
    a, b, st = opt(ctx, 'start', n), opt(ctx, 'stop', n), ctx.choice('step', steps)
    how = ctx.choice('how', ['slice', 'slice_keep', 'slice_reduce'])
    s = slice(a, b, st)
    want = list(range(n))[s]
    if not want:
        r = getattr(f, how)((s,))
        if hasattr(r, 'crds'):
            ctx.check(r.size == 0, 'an empty selection is empty')
        return
    r = getattr(f, how)((s,))
    d = verify(ctx, f, info, r, ['x'], (n,), {'x': abs(st or 1) == 1})
    if hasattr(r, 'crds'):
        ctx.check([int(v) for v in np.ravel(d)] == want, 'selected points')


def one(ctx, n, center, uniform, comps):
    f = tagged(ctx, (n, 2), center, uniform, comps)
    info = axinfo(f)
    i = int(ctx.int('i', -n, n - 1))
    how = ctx.choice('how', ['slice', 'slice_keep', 'slice_reduce'])
    if ctx.choice('second', [True, False]):
        sel = (slice(None), int(ctx.int('j', -2, 1)))
    else:
        sel = (i, slice(None))
    r = getattr(f, how)(sel)
    verify(ctx, f, info, r, ['x', 'y'], (n, 2), {})
    if how == 'slice_keep' and hasattr(r, 'crds'):
        ctx.check(list(r.crds.axes) == ['x', 'y'], 'slice_keep keeps every axis')
    if how == 'slice' and hasattr(r, 'crds'):
        ctx.check(list(r.crds.axes) == (['y'] if sel[0] == i and isinstance(sel[0], int) else ['x']),
                  'an axis given by one index is dropped')
    if how == 'slice_reduce' and hasattr(r, 'crds'):
        ctx.check(all(len(r.get_crd(a)) > 1 for a in r.crds.axes), 'slice_reduce drops single point axes')


def loc(ctx, n, center, uniform, kind):
    """by location"""
    f = tagged(ctx, (n,) if kind != 'one' else (n, 2), center, uniform)
    info = axinfo(f)
    axes = ['x'] if kind != 'one' else ['x', 'y']
    how = ctx.choice('how', ['slice', 'slice_keep', 'slice_reduce'])
    a = ctx.real('a', -6, 20)
    if kind == 'one':
        sel = (1j * a, slice(None))
    elif kind == 'from':
        sel = (slice(1j * a, None),)
    elif kind == 'to':
        sel = (slice(None, 1j * a),)
    else:
        b = ctx.real('b', -6, 20)
        ctx.assume(a <= b)
        sel = (slice(1j * a, 1j * b, 2 if kind == 'between2' else None),)
    r = getattr(f, how)(sel)
    verify(ctx, f, info, r, axes, f.sshape, {'x': kind != 'between2'})


def twod(ctx, center, uniform, comps, ks):
    f = tagged(ctx, (2, 3), center, uniform, comps)
    info = axinfo(f)
    how = ctx.choice('how', ['slice', 'slice_keep', 'slice_reduce'])
    sel, unit = [], {}
    for ax, n, k in zip('xy', (2, 3), ks):
        if k == 'int':
            sel.append(int(ctx.int(ax, -n, n - 1)))
        elif k == 'from':
            sel.append(slice(int(ctx.int(ax, -n, n - 1)), None))
        elif k == 'rev':
            sel.append(slice(int(ctx.int(ax, -n, n - 1)), None, -1))
        elif k == 'two':
            sel.append(slice(None, None, 2))
            unit[ax] = False
        else:
            sel.append(slice(None))
    r = getattr(f, how)(tuple(sel))
    verify(ctx, f, info, r, ['x', 'y'], (2, 3), unit)


def again(ctx, center, uniform):
    """slices of slices"""
    f = tagged(ctx, (4,), center, uniform)
    info = axinfo(f)
    s1 = slice(ctx.choice('a', [None, 1, -3]), None, ctx.choice('st', [None, -1, 2]))
    s2 = slice(ctx.choice('b', [None, 1]), ctx.choice('c', [None, 2]), ctx.choice('st2', [None, -1]))
    r = f[s1][s2]
    unit = s1.step in (None, 1, -1)
    verify(ctx, f, info, r, ['x'], (4,), {'x': unit})
    if hasattr(r, 'crds'):
        ctx.check([int(v) for v in raw(r.data)] == list(range(4))[s1][s2], 'selected points')


def newaxis(ctx, center, uniform):
    f = tagged(ctx, (2, 1), center, uniform)
    info = axinfo(f)
    how = ctx.choice('how', ['slice', 'slice_keep', 'slice_reduce'])
    i = int(ctx.int('i', -2, 1))
    N = np.newaxis
    sel = ctx.choice('k', [(N, slice(None), slice(None)), (slice(None), N, slice(None)), (slice(None), slice(None), N),
                           (N, i, slice(None)), (i, N, slice(None)), (N, slice(i, None, None), slice(None))])
    r = getattr(f, how)(sel)
    verify(ctx, f, info, r, ['x', 'y'], (2, 1), {})


def cases(tier):
    out = []
    mx = 4 if tier == 'quick' else 6
    for c in ('node', 'cell'):
        for u in (False, True):
            t = '%s_%s' % (c, 'uni' if u else 'non')
            for n in range(1, mx + 1):
                for st in ([None, -1], [2, -2, 3]):
                    out.append(Case('1d_%s_n%d_%s' % (t, n, st[-1]), lambda ctx, n=n, c=c, u=u, st=st: oned(ctx, n, c, u, st),
                                    weight=n * n))
            for n in (1, 2, 3):
                for v in (None, 'flat', 'interlaced'):
                    if n == 1 and u:
                        continue
                    out.append(Case('one_%s_n%d_%s' % (t, n, v), lambda ctx, n=n, c=c, u=u, v=v: one(ctx, n, c, u, v)))
            for n in ((2, 3) if tier == 'quick' else (2, 3, 4)):
                for k in ('one', 'from', 'to', 'between', 'between2'):
                    out.append(Case('loc_%s_n%d_%s' % (t, n, k), lambda ctx, n=n, c=c, u=u, k=k: loc(ctx, n, c, u, k),
                                    weight=n * n))
            for ks in itertools.product(['int', 'from', 'rev', 'two', 'all'], repeat=2):
                v = {('node', False): None, ('node', True): 'flat', ('cell', False): 'interlaced', ('cell', True): None}[(c, u)]
                out.append(Case('2d_%s_%s_%s' % (t, ks[0], ks[1]), lambda ctx, c=c, u=u, v=v, ks=ks: twod(ctx, c, u, v, ks)))
            out.append(Case('again_' + t, lambda ctx, c=c, u=u: again(ctx, c, u)))
            out.append(Case('newaxis_' + t, lambda ctx, c=c, u=u: newaxis(ctx, c, u)))
    return out
