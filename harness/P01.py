"""Index selections follow NumPy."""
import itertools
import numpy as np
from sym.run import Case
from harness.common import same, raw, mkcrds, rejects

PROP = 'P01'
ENCODED = ['viscid.sliceutil.raw_sel2sel_list', 'viscid.sliceutil.prune_comp_sel', 'viscid.sliceutil.fill_nd_sel_list',
           'viscid.sliceutil.standardize_sel', 'viscid.sliceutil.standardize_value', 'viscid.sliceutil.std_sel2index',
           'viscid.coordinate.StructuredCrds._make_slice', 'viscid.field.Field.__getitem__, slice, iloc, _prepare_slice, _finalize_slice']
BOUNDS = ("one axis: 1..4 points (thorough 1..6), start and stop absent or every integer in [-n-2, n+2], every stride in "
          "+-1..+-3; several axes: 2-D and 3-D fields of up to 3 points per axis, each axis selected by an int or a slice "
          "or left out, in every axis order and text form; all data values symbolic; node and cell centered, uniform and "
          "nonuniform, scalar and both vector layouts")
ASSUME = []
OUTSIDE = "lazily loaded data (P10), location selections (P02, P03), array selections"


def idx(ctx, name, n):
    if ctx.choice(name + '?', [True, False]):
        return int(ctx.int(name, -n - 2, n + 2))
    return None


def mkfield(ctx, sshape, center, uniform, comps=None, axes='xyz'):
    import viscid
    axes = axes[:len(sshape)]
    pts = [n + 1 for n in sshape] if center == 'cell' else list(sshape)
    crds = mkcrds(ctx, axes, pts, uniform)
    shape = tuple(sshape)
    kw = {}
    if comps == 'flat':
        shape = (3,) + shape
        kw = dict(fldtype='vector', layout='flat')
    elif comps == 'interlaced':
        shape = shape + (3,)
        kw = dict(fldtype='vector', layout='interlaced')
    d = ctx.reals('d', shape)
    return viscid.wrap_field(d, crds, name='f', center=center, **kw), d


def oned(ctx, n, center, uniform, steps):
    f, d = mkfield(ctx, (n,), center, uniform)
    a, b = idx(ctx, 'start', n), idx(ctx, 'stop', n)
    step = ctx.choice('step', steps)
    s = slice(a, b, step)
    form = ctx.choice('form', ['slice', 'tuple', 'str', 'named', 'iloc']) if center == 'node' else 'slice'
    txt = "%s:%s" % ('' if a is None else a, '' if b is None else b)
    if step is not None:
        txt += ":%d" % step
    if form == 'slice':
        r = f[s]
    elif form == 'tuple':
        r = f[(s,)]
    elif form == 'str':
        r = f[txt]
    elif form == 'named':
        r = f['x = ' + txt]
    else:
        r = f.iloc[txt] if False else f[(s, Ellipsis)]
    same(ctx, r, raw(d)[s], 'values of a slice (%s)' % form)


def ints(ctx, n, center, uniform):
    f, d = mkfield(ctx, (n, 2), center, uniform)
    i = int(ctx.int('i', -n, n - 1))
    form = ctx.choice('form', ['int', 'tuple', 'np', 'str', 'named', 'iloc', 'ell'])
    r = {'int': lambda: f[i], 'tuple': lambda: f[i, :], 'np': lambda: f[np.int64(i)], 'str': lambda: f["%d" % i],
         'named': lambda: f["x=%d" % i], 'iloc': lambda: f["%d, :" % i], 'ell': lambda: f[i, ...]}[form]()
    same(ctx, r, raw(d)[i], 'values of an int selection (%s)' % form)
    j = int(ctx.int('j', -2, 1))
    v = f[i, j]
    same(ctx, v, raw(d)[i, j], 'a single value')
    v = f["y=%d, x=%d" % (j, i)]
    same(ctx, v, raw(d)[i, j], 'a single value by name')


def outside(ctx, n, center):
    f, d = mkfield(ctx, (n, 2), center, False)
    i = ctx.int('i', -n - 3, n + 2)
    ctx.assume((i < -n) | (i >= n) if ctx.symbolic else (i < -n or i >= n))
    i = int(i)
    rejects(ctx, lambda: f[i], 'an int beyond the axis is rejected', IndexError)


SEL = ['int', 'slice', 'rev', 'none']


def axsel(ctx, name, n, kind):
    if kind == 'int':
        return int(ctx.int(name, -n, n - 1))
    if kind == 'slice':
        return slice(int(ctx.int(name + 'a', -n, n)), None, 1)
    if kind == 'stop':
        return slice(None, int(ctx.int(name + 'a', -n, n + 1)), 2)
    if kind == 'rev':
        return slice(None, None, -1)
    return slice(None)


def text(s):
    if isinstance(s, slice):
        t = "%s:%s" % ('' if s.start is None else s.start, '' if s.stop is None else s.stop)
        return t if s.step in (None, 1) else t + ":%d" % s.step
    return str(s)


def multi(ctx, shape, kinds, center, uniform, comps=None):
    f, d = mkfield(ctx, shape, center, uniform, comps)
    axes = 'xyz'[:len(shape)]
    sel = [axsel(ctx, ax, n, k) for ax, n, k in zip(axes, shape, kinds)]
    form = ctx.choice('form', ['tuple', 'str', 'named', 'part'])
    if form == 'tuple':
        r = f[tuple(sel)]
    elif form == 'str':
        r = f[", ".join(text(s) for s in sel)]
    elif form == 'named':
        order = ctx.choice('order', list(itertools.permutations(range(len(shape)))))
        r = f[", ".join("%s=%s" % (axes[k], text(sel[k])) for k in order)]
    else:
        # name only the axes that are not whole, rest missing
        use = [k for k in range(len(shape)) if sel[k] != slice(None)]
        r = f[", ".join("%s=%s" % (axes[k], text(sel[k])) for k in use)] if use else f[...]
    tr = raw(d)
    if comps == 'flat':
        want = tr[(slice(None),) + tuple(sel)]
    else:
        want = tr[tuple(sel)]
    same(ctx, r, want, 'values of a selection (%s)' % form)
    if hasattr(r, 'crds'):
        keep = [ax for ax, s in zip(axes, sel) if isinstance(s, slice)]
        ctx.check(list(r.crds.axes) == keep, 'remaining axes in order')


def comp(ctx, layout, center):
    """component given along with the selection"""
    f, d = mkfield(ctx, (2, 3), center, False, layout)
    c = ctx.choice('comp', ['x', 'y', 'z'])
    k = 'xyz'.index(c)
    dd = raw(d)[k] if layout == 'flat' else raw(d)[..., k]
    i = int(ctx.int('i', -2, 1))
    a = int(ctx.int('a', -3, 3))
    same(ctx, f[c], dd, 'component by name')
    same(ctx, f["%s, %d" % (c, i)], dd[i], 'component and selection in text')
    same(ctx, f["%s, y=%d:" % (c, a)], dd[:, a:], 'component and named axis in text')
    same(ctx, f["%d, %d:, %s" % (i, a, c)], dd[i, a:], 'component last')
    same(ctx, f[c, i, a:], dd[i, a:], 'component in a tuple')


def ellnew(ctx):
    """Ellipsis and newaxis, tuple and text forms, against NumPy"""
    f, d = mkfield(ctx, (2, 3, 2), 'node', False)
    b = raw(d)
    i = int(ctx.int('i', -2, 1))
    a = int(ctx.int('a', -3, 3))
    N = np.newaxis
    k = ctx.choice('k', list(range(12)))
    sel, txt = [((Ellipsis, i), "..., %d" % i), ((i, Ellipsis), "%d, ..." % i),
                ((Ellipsis,), "..."), ((slice(None), a if -3 <= a < 3 else 0, Ellipsis), ":, %d, ..." % (a if a < 3 else 0)),
                ((N, Ellipsis), "newaxis, ..."), ((Ellipsis, N), "..., newaxis"),
                ((N, i), "newaxis, %d" % i), ((slice(a, None), N, slice(None)), "%d:, newaxis, :" % a),
                ((i, N, Ellipsis), "%d, newaxis, ..." % i), ((Ellipsis, slice(a, None), i), "..., %d:, %d" % (a, i)),
                ((N, slice(None), N, i if False else slice(a, None)), "newaxis, :, newaxis, %d:" % a),
                ((i, slice(a, None), N, Ellipsis, N), "%d, %d:, newaxis, ..., newaxis" % (i, a))][k]
    want = b[sel]
    same(ctx, f[sel], want, 'Ellipsis / newaxis')
    same(ctx, f[txt], want, 'Ellipsis / newaxis in text')


def newname(ctx):
    f, d = mkfield(ctx, (2, 3), 'node', False)
    a = int(ctx.int('a', -3, 3))
    r = f["q=newaxis, y=%d:" % a]
    same(ctx, r, raw(d)[np.newaxis, :, a:], 'named new axis')
    if hasattr(r, 'crds'):
        ctx.check(list(r.crds.axes) == ['q', 'x', 'y'], 'new axis has the given name')


def bad(ctx):
    f, d = mkfield(ctx, (2, 3), 'node', False)
    i = int(ctx.int('i', -2, 1))
    rejects(ctx, lambda: f["q=%d" % i], 'unknown axis name')
    rejects(ctx, lambda: f["x=%d, q=%d" % (i, i)], 'unknown axis name after a known one')
    rejects(ctx, lambda: f[i, i, i], 'too many axes')
    rejects(ctx, lambda: f["%d, %d, %d" % (i, i, i)], 'too many axes in text')
    rejects(ctx, lambda: f[i, i, slice(None)], 'too many axes, trailing slice')
    rejects(ctx, lambda: f["x=%d, x=%d" % (i, i)], 'an axis given twice')
    rejects(ctx, lambda: f["x=%d, y=0, x=%d" % (i, i)], 'an axis given twice, later')
    rejects(ctx, lambda: f[..., i, ...], 'two ellipses')
    rejects(ctx, lambda: f["x=newaxis"], 'new axis named like an existing one')


def cases(tier):
    out = []
    mx = 4 if tier == 'quick' else 6
    for n in range(1, mx + 1):
        for st in ([None], [1], [2, 3], [-1], [-2, -3]):
            out.append(Case('1d_n%d_%s' % (n, st[-1]), lambda ctx, n=n, st=st: oned(ctx, n, 'node', False, st),
                            weight=n * n * len(st), max_witness=10))
    for n in (2, 3):
        for st in ([1], [2], [-1], [-2]):
            for u in (False, True):
                out.append(Case('1d_cell_n%d_%s_%s' % (n, st[-1], 'uni' if u else 'non'),
                                lambda ctx, n=n, st=st, u=u: oned(ctx, n, 'cell', u, st), weight=n * n))
    for c in ('node', 'cell'):
        for n in (1, 2, 3):
            out.append(Case('ints_%s_n%d' % (c, n), lambda ctx, n=n, c=c: ints(ctx, n, c, n == 2)))
        out.append(Case('outside_' + c, lambda ctx, c=c: outside(ctx, 3, c)))
    for kinds in itertools.product(['int', 'slice', 'stop', 'rev', 'none'], repeat=2):
        for c, u, v in (('node', False, None), ('cell', True, 'flat'), ('node', True, 'interlaced')):
            out.append(Case('2d_%s_%s_%s_%s' % (c, v, kinds[0], kinds[1]),
                            lambda ctx, k=kinds, c=c, u=u, v=v: multi(ctx, (2, 3), k, c, u, v)))
    for kinds in itertools.product(['int', 'slice', 'none'], repeat=3):
        out.append(Case('3d_%s_%s_%s' % kinds, lambda ctx, k=kinds: multi(ctx, (2, 2, 2), k, 'node', False),
                        weight=4))
    for l in ('flat', 'interlaced'):
        for c in ('node', 'cell'):
            out.append(Case('comp_%s_%s' % (l, c), lambda ctx, l=l, c=c: comp(ctx, l, c)))
    out += [Case('ellipsis_newaxis', ellnew), Case('named_newaxis', newname), Case('rejected', bad)]
    return out
