"""Slicing a field before its data are loaded equals loading everything and slicing afterwards."""
import os
import shutil
import tempfile
import numpy as np
from sym.run import Case
from harness.common import raw, mkcrds

PROP = 'P10'
ENCODED = ['viscid.field.Field._finalize_slice, _prepare_slice, slice, slice_keep, slice_reduce, _fill_cache, _xyz_src_data, '
           '_src_data_to_ndarray, _dat_to_ndarray, _reshape_ndarray_to_crds, _detect_layout, clear_cache, native_shape, __getitem__',
           'viscid.coordinate.Coordinates.reflect_slices, reflect_fld_arr; viscid.sliceutil.make_fwd_slice',
           'viscid.readers.hdf5.H5pyDataWrapper.__getitem__, __array__, read_direct, _inject_comp_slice, __len__, shape',
           'viscid.readers.openggcm.mhd2gse_field_scalar, mhd2gse_field_scalar_m1, mhd2gse_field_vector']
BOUNDS = ("1..3 axes of 2..3 points (one axis of one cell too), symbolic stored values; stored x,y,z or z,y,x; one array, list of arrays, "
          "list of scalar fields, hdf5 data sets (whole, transposed, one component of a data set), component first / last / forced; node and "
          "cell centers; no, one or two reflected axes, with the openggcm sign flips; one axis with every integer start/stop in [-n-1, n+1] "
          "(vectors in the quick check: [-2, n+1]) or none, stride +-1, +-2, every index, the other axes with fixed selections; a component or all")
ASSUME = ["hdf5 data sets follow h5py's rules (no negative strides, no newaxis, no index out of range); the counterexamples are replayed "
          "with files written and read by h5py itself", "2 or 3 vector components, different from the number of points per axis where the shape would not "
          "tell the layout"]
OUTSIDE = "selections by location (P02, P05), masked arrays, parallel reads"

THOROUGH = False


class FakeDset(object):
    def __init__(self, arr):
        self.arr = arr
        self.shape = arr.shape
        self.dtype = arr.dtype

    def __len__(self):
        return self.shape[0]

    def __getitem__(self, item):
        if not isinstance(item, tuple):
            item = (item,)
        if len([i for i in item if i is not Ellipsis]) > len(self.shape):
            raise TypeError("Argument sequence too long")
        for i in item:
            if isinstance(i, slice):
                if i.step is not None and i.step < 1:
                    raise ValueError("Step must be >= 1")
            elif i is Ellipsis or hasattr(i, '__index__'):
                pass
            else:
                raise TypeError("Selection can't process %r" % (i,))
        r = self.arr[item]
        if not isinstance(r, np.ndarray):
            z = self.arr.reshape(-1)[:1].reshape(())
            z = z.copy()
            z[()] = r
            r = z
        return r

    def read_direct(self, dest, source_sel=None, dest_sel=None):
        src = self.arr if source_sel is None else self[source_sel]
        if tuple(src.shape) != tuple(dest.shape):
            raise TypeError("Can't broadcast %s -> %s" % (src.shape, dest.shape))
        dest[...] = src


class FakeH5(object):
    def __init__(self, dsets):
        self.dsets = dsets

    def File(self, fname, mode='r'):
        return self

    def __enter__(self):
        return self.dsets

    def __exit__(self, *a):
        return None


def h5dset(ctx, arr):
    """fname, loc of a data set holding arr"""
    from viscid.readers import hdf5
    if ctx.symbolic:
        hdf5.h5py = FakeH5({'/a/d': FakeDset(arr)})
        return 'mem.h5', '/a/d'
    import h5py
    hdf5.h5py = h5py
    d = tempfile.mkdtemp(prefix='p10')
    ctx.scratch.append(d)
    fn = os.path.join(d, 'f.h5')
    with h5py.File(fn, 'w') as f:
        f['/a/d'] = np.asarray(arr)
    return fn, '/a/d'


def lazy(arr):
    from viscid.readers import vfile

    class Lazy(vfile.DataWrapper):
        @property
        def shape(self):
            return tuple(arr.shape)

        @property
        def dtype(self):
            return arr.dtype

        def __array__(self, *a, **k):
            return arr.copy()

        def __len__(self):
            return arr.shape[0]
    return Lazy()


def source(ctx, src, v, nc, crds, center, squeeze=False):
    """build a lazy source holding v (component first, xyz); returns (data, kwargs)"""
    from viscid.readers.hdf5 import H5pyDataWrapper as W
    import viscid
    nd = v.ndim - (nc > 0)

    def T(a):
        return np.transpose(a)

    def vec(first, zyx):
        """v stored component first / last"""
        ax = list(range(1, nd + 1))
        if zyx:
            ax = ax[::-1]
        return np.ascontiguousarray(np.transpose(v, [0] + ax if first else ax + [0]))
    zyx = 'zyx' in src
    kw = dict(zyx_native=True) if zyx else {}
    p = src.split('_')
    if nc == 0:
        a = T(v) if (zyx or 'T' in p) else v
        if squeeze:
            a = a.reshape([n for n in a.shape if n > 1])
        a = np.ascontiguousarray(a)
        if p[0] == 'arr':
            return a, kw
        if p[0] == 'lazy':
            return lazy(a), kw
        if p[0] == 'h5':
            return W(*h5dset(ctx, a), transpose='T' in p), kw
        if p[0] == 'h5comp':      # one component of a data set of vectors
            cd = int(p[1])
            o = a * 0 + 7
            st = np.ascontiguousarray(np.stack([o, a], axis=cd))
            return W(*h5dset(ctx, st), comp_dim=cd, comp_idx=1, transpose='T' in p), kw
    a = vec('last' not in p, zyx)
    if p[0] == 'arr':
        return a, kw
    if p[0] == 'lazy':
        return lazy(a), kw
    if p[0] == 'h5':
        return W(*h5dset(ctx, a)), kw
    if p[0] == 'list':
        return [a[k] for k in range(nc)], kw
    if p[0] == 'lazylist':
        return [lazy(a[k]) for k in range(nc)], kw
    if p[0] == 'h5list':
        fn, loc = h5dset(ctx, a)
        return [W(fn, loc, comp_dim=0, comp_idx=k) for k in range(nc)], kw
    if p[0] == 'h5listlast':
        a = vec(False, zyx)
        fn, loc = h5dset(ctx, a)
        return [W(fn, loc, comp_dim=-1, comp_idx=k) for k in range(nc)], kw
    if p[0] == 'fields':
        return [viscid.wrap_field(a[k], crds, name='s%d' % k, center=center, **kw) for k in range(nc)], {}
    if p[0] == 'h5fields':
        fn, loc = h5dset(ctx, a)
        return [viscid.wrap_field(W(fn, loc, comp_dim=0, comp_idx=k), crds, name='s%d' % k, center=center, **kw)
                for k in range(nc)], {}
    raise ValueError(src)


def eqs(ctx, g, w, label):
    g, w = raw(g), raw(w)
    if tuple(g.shape) != tuple(w.shape):
        ctx.fail('%s: shape %s instead of %s' % (label, g.shape, w.shape))
        return
    for i in np.ndindex(*w.shape):
        ctx.eq(g[i], w[i], label)


def one(ctx, src, sh, nc, center, uniform, refl, force, gse, ax, others, squeeze, modes):
    ctx.scratch = []
    try:
        _one(ctx, src, sh, nc, center, uniform, refl, force, gse, ax, others, squeeze, modes)
    finally:
        from viscid.readers import hdf5
        for d in ctx.scratch:
            shutil.rmtree(d, ignore_errors=True)


def _one(ctx, src, sh, nc, center, uniform, refl, force, gse, ax, others, squeeze, modes):
    import viscid
    from viscid.readers import openggcm
    names = 'xyz'[:len(sh)]
    v = ctx.reals('v', ((nc,) if nc else ()) + tuple(sh))

    def make():
        crds = mkcrds(ctx, names, [s + (center == 'cell') for s in sh], uniform)
        if refl:
            crds.reflect_axes = refl
        dat, kw = source(ctx, src, v.copy(), nc, crds, center, squeeze)
        if 'fields' in src:
            if gse:
                for q in range(nc):
                    dat[q].post_reshape_transform_func = openggcm.mhd2gse_field_scalar if q > 1 else openggcm.mhd2gse_field_scalar_m1
                    dat[q].transform_func_kwargs = dict(copy_on_transform=True)
            return viscid.scalar_fields_to_vector(dat, name='f', **(dict(_force_layout=force) if force else {}))
        if force:
            kw['_force_layout'] = force
        if gse:
            kw['post_reshape_transform_func'] = openggcm.mhd2gse_field_vector if nc else (
                openggcm.mhd2gse_field_scalar_m1 if gse == 'm1' else openggcm.mhd2gse_field_scalar)
            kw['transform_func_kwargs'] = dict(copy_on_transform=True)
        return viscid.wrap_field(dat, crds, name='f', center=center, fldtype='vector' if nc else 'scalar', **kw)
    # what the field should hold
    want = raw(v).copy()
    for a in refl:
        want = np.flip(want, names.index(a) + (nc > 0))
    if gse and nc:
        want = want.copy()
        want[0], want[1] = -want[0], -want[1]
    if gse == 'm1' and not nc:
        want = -want
    f1, f2 = make(), make()
    d2 = raw(f2.data)
    lay = force or ('interlaced' if ('last' in src.split('_') and nc) else 'flat')
    if nc:
        ctx.check(f2.layout == lay, 'layout of the loaded field')
    eqs(ctx, d2, np.moveaxis(want, 0, -1) if (nc and lay == 'interlaced') else want, 'loaded data')
    n = sh[ax]
    kind = ctx.choice('kind', ['slice', 'index'])
    if kind == 'index':
        s = int(ctx.int('i', -n, n - 1))
    else:
        st = ctx.choice('step', [1, -1, 2, -2])
        lo = -n - 1 if THOROUGH or not nc else -2
        a = int(ctx.int('a', lo, n + 1)) if ctx.choice('a?', [True, False]) else None
        b = int(ctx.int('b', lo, n + 1)) if ctx.choice('b?', [True, False]) else None
        s = slice(a, b, st)
        if not range(n)[s]:
            return
    sel = list(others[:ax]) + [s] + list(others[ax:])
    sel = tuple(sel)
    if nc:
        c = ctx.choice('comp', [None, 'x', 'y'])
        if c:
            sel = (c,) + sel
    mode = ctx.choice('mode', list(modes))
    w = getattr(f2, mode)(sel) if mode != 'get' else f2[sel]
    g = getattr(f1, mode)(sel) if mode != 'get' else f1[sel]
    if hasattr(g, 'crds') != hasattr(w, 'crds'):
        ctx.fail('kind of result')
        return
    if not hasattr(w, 'crds'):
        ctx.eq(g, w, 'value')
        return
    eqs(ctx, g, w, 'slice before loading')
    ctx.check(list(g.crds.axes) == list(w.crds.axes), 'axes')
    for x in w.crds.axes:
        eqs(ctx, g.get_crd(x), w.get_crd(x), 'coordinates')
    ctx.check(g.center == w.center, 'centering')
    ctx.check(g.nr_comps == w.nr_comps, 'components')
    if w.nr_comps:
        ctx.check(g.layout == w.layout, 'layout')
        cn = w.comp_names[1]
        eqs(ctx, g[cn], w[cn], 'component of the slice')


def reload(ctx, src, sh, nc, center, refl, force, gse):
    """clear_cache, then data again; a slice after that; chained lazy slices"""
    import viscid
    from viscid.readers import openggcm
    ctx.scratch = []
    try:
        names = 'xyz'[:len(sh)]
        v = ctx.reals('v', ((nc,) if nc else ()) + tuple(sh))
        crds = mkcrds(ctx, names, [s + (center == 'cell') for s in sh], False)
        if refl:
            crds.reflect_axes = refl
        dat, kw = source(ctx, src, v.copy(), nc, crds, center)
        if force:
            kw['_force_layout'] = force
        if 'fields' in src:
            f = viscid.scalar_fields_to_vector(dat, name='f', **kw)
        else:
            if gse:
                kw['post_reshape_transform_func'] = openggcm.mhd2gse_field_vector if nc else openggcm.mhd2gse_field_scalar_m1
                kw['transform_func_kwargs'] = dict(copy_on_transform=True)
            f = viscid.wrap_field(dat, crds, name='f', center=center, fldtype='vector' if nc else 'scalar', **kw)
        first = raw(f.data).copy()
        how = ctx.choice('how', ['clear', 'with', 'twice', 'shell', 'part'])
        if how == 'clear':
            f.clear_cache()
            ctx.check(not f.is_loaded, 'clear_cache empties the cache')
        elif how == 'with':
            with f as h:
                eqs(ctx, h.data, first, 'data in a with block')
            ctx.check(not f.is_loaded, 'leaving a with block empties the cache')
        elif how == 'twice':
            f.clear_cache()
            _ = f.data
            f.clear_cache()
        elif how == 'shell':
            f.clear_cache()
            g = f.shell_copy()
            eqs(ctx, g.data, first, 'data of a lazy copy')
        else:
            f.clear_cache()
            p = f[(slice(0, 1),)]
            q = f[(slice(1, None),)]
            ca = 0 if (not nc or f.layout == 'interlaced') else 1
            eqs(ctx, np.concatenate([raw(p), raw(q)], axis=ca), first, 'two lazy pieces')
        eqs(ctx, f.data, first, 'data after reload')
        if nc:
            f.clear_cache()
            k = ctx.choice('k', [0, 1])
            c = f['xy'[k]]
            cc = np.take(first, k, axis=0 if f.layout == 'flat' else -1)
            eqs(ctx, c, cc, 'component of a lazy field')
            f.clear_cache()
            eqs(ctx, f.component_fields()[k], cc, 'component fields of a lazy field')
    finally:
        for d in ctx.scratch:
            shutil.rmtree(d, ignore_errors=True)


def cases(tier):
    global THOROUGH
    th = THOROUGH = tier != 'quick'
    out = []
    full = slice(None)

    def add(src, sh, nc, center='node', uniform=False, refl='', force='', gse='', ax=0, others=None, squeeze=False, modes=('get',)):
        others = others or [full] * (len(sh) - 1)
        nm = '_'.join(str(x) for x in (src, 'x'.join(map(str, sh)), nc, center, 'u' if uniform else 'n', refl or '-', force or '-',
                                       gse or '-', 'sq' if squeeze else '', 'ax%d' % ax,
                                       ','.join(str(o) if not isinstance(o, slice) else '%s:%s:%s' % (o.start, o.stop, o.step) for o in others)))
        if any(c.name == nm for c in out):
            return
        out.append(Case(nm, lambda ctx: one(ctx, src, sh, nc, center, uniform, refl, force, gse, ax, others, squeeze, modes), weight=4))
    rev, one_, two = slice(None, None, -1), 1, slice(None, None, 2)
    allm = ('get', 'slice_keep', 'slice_reduce')
    S = ['arr', 'arr_zyx', 'lazy_zyx', 'h5', 'h5_zyx', 'h5_T', 'h5comp_0', 'h5comp_-1', 'h5comp_0_zyx', 'h5comp_0_T']
    V = ['arr_first', 'arr_last', 'arr_first_zyx', 'arr_last_zyx', 'list', 'list_zyx', 'h5_first', 'h5_last', 'h5_first_zyx',
         'h5_last_zyx', 'lazy_first_zyx', 'h5list_zyx', 'h5listlast_zyx', 'fields', 'h5fields_zyx', 'lazylist_zyx']
    for q, src in enumerate(S):
        cen = 'node' if q % 2 else 'cell'
        add(src, [3, 2], 0, cen, modes=allm if th else ('get', 'slice_keep'))
        add(src, [3, 2], 0, 'cell' if q % 2 else 'node', refl='x')
        add(src, [2, 3], 0, cen, ax=1, others=[rev], refl='xy', gse='m1')
        add(src, [2, 3], 0, cen, ax=1, others=[one_], refl='y')
        if th or src in ('h5_zyx', 'h5_T', 'arr_zyx'):
            add(src, [2, 3, 2], 0, cen, ax=1, others=[one_, full], refl='xy', gse='s')
            add(src, [2, 2, 3], 0, cen, ax=2, others=[full, rev], uniform=True)
            add(src, [1, 3, 2], 0, 'cell', ax=1, others=[full, one_], squeeze=src.startswith('h5') and 'comp' not in src)
            add(src, [3, 1, 2], 0, 'cell', ax=0, others=[0, full], squeeze=src.startswith('h5') and 'comp' not in src, refl='x')
    for q, src in enumerate(V):
        cen = 'node' if q % 2 else 'cell'
        add(src, [3, 2], 3, cen, modes=allm if th else ('get',))
        add(src, [2, 4] if 0 else [2, 3], 2, 'cell' if q % 2 else 'node', ax=1, others=[rev], refl='y')
        add(src, [3, 2, 2], 3, cen, refl='xy', gse='v', others=[one_, full])
        lay = 'flat' if 'last' in src.split('_') else 'interlaced'
        add(src, [3, 2], 2, cen, force=lay)
        if th:
            add(src, [3, 2, 2], 3, 'node', force=lay, refl='xy', gse='v', others=[rev, 0])
            add(src, [2, 3], 3, 'cell', ax=1, others=[two], uniform=True)
    for src in S:
        for refl, gse in (('', ''), ('xy', 'm1')):
            out.append(Case('reload_%s_%s' % (src, refl), lambda ctx, s=src, r=refl, g=gse: reload(ctx, s, [2, 3], 0, 'cell', r, '', g)))
    for src in V:
        for refl, gse, force in (('', '', ''), ('xy', 'v', ''), ('x', '', 'interlaced'), ('', '', 'flat')):
            out.append(Case('reload_%s_%s_%s' % (src, refl, force),
                            lambda ctx, s=src, r=refl, g=gse, f=force: reload(ctx, s, [2, 2, 2], 3, 'node', r, f, g)))
    return out
