"""make_fwd_slice: forward slice + post slice == original slice on the (reversed) array."""
from sym.run import Case

PROP = 'P04'
ENCODED = ['viscid.sliceutil.make_fwd_slice']
BOUNDS = ("one dimension: length any integer >= 0 (unbounded), start and stop absent or any integer in [-L, L] "
          "(the documented restriction), stride +-1..+-5 (thorough +-1..+-9), either reversal flag, integer "
          "selections in [-L, L-1]; several dimensions: 3 axes with symbolic lengths, ints, slices and new axes mixed")
ASSUME = ["NumPy basic slicing is modelled by the arithmetic progression Python documents for slice objects"]
OUTSIDE = "strides beyond the bound; start/stop outside [-L, L] (documented as unsupported)"


def prog(start, stop, step, L):
    """(first, step, count) of the elements that slice picks out of range(L)"""
    if step > 0:
        a = 0 if start is None else start
        b = L if stop is None else stop
        if start is not None:
            if a < 0:
                a = a + L
                if a < 0:
                    a = 0
            elif a > L:
                a = L
        if stop is not None:
            if b < 0:
                b = b + L
                if b < 0:
                    b = 0
            elif b > L:
                b = L
        if b <= a:
            return 0, step, 0
        return a, step, (b - a + step - 1) // step
    a = L - 1 if start is None else start
    b = -1 if stop is None else stop
    if start is not None:
        if a < 0:
            a = a + L
            if a < 0:
                a = -1
        elif a >= L:
            a = L - 1
    if stop is not None:
        if b < 0:
            b = b + L
            if b < 0:
                b = -1
        elif b >= L:
            b = L - 1
    if a <= b:
        return 0, step, 0
    return a, step, (a - b + (-step) - 1) // (-step)


def compose(first, second, L):
    a, d, n = prog(first.start, first.stop, first.step or 1, L)
    a2, d2, n2 = prog(second.start, second.stop, second.step or 1, n)
    return a + a2 * d, d * d2, n2


def end(ctx, name, L, given):
    if not given:
        return None
    v = ctx.int(name, None, None)
    ctx.assume(v >= -L)
    ctx.assume(v <= L)
    return v


def one(ctx, step, wrapit):
    from viscid.sliceutil import make_fwd_slice
    L = ctx.int('L', 0, None if ctx.symbolic else 10 ** 9)
    start = end(ctx, 'start', L, ctx.choice('has_start', [True, False]))
    stop = end(ctx, 'stop', L, ctx.choice('has_stop', [True, False]))
    rev = ctx.choice('rev', [False, True])
    stp = step
    if step == 1 and ctx.choice('nostep', [True, False]):
        stp = None
    s = slice(start, stop, stp)
    if wrapit == 'scalar':
        first, second = make_fwd_slice(L, s, rev)
    elif wrapit == 'tuple':
        first, second = make_fwd_slice((L,), (s,), (rev,))
    else:
        first, second = make_fwd_slice([L], [s], [rev])
    ctx.check(len(first) == 1 and len(second) == 1, 'one slice per dimension')
    first, second = first[0], second[0]
    ctx.check((first.step or 1) > 0, 'the first slice goes forward')
    a, d, n = prog(start, stop, step, L)
    if rev:
        a, d = L - 1 - a, -d
    a1, d1, n1 = compose(first, second, L)
    ctx.check(n1 == n, 'number of selected elements')
    ctx.implies(n > 0, a1 == a, 'first selected element')
    ctx.implies(n > 1, d1 == d, 'order and stride of the selected elements')
    if not ctx.symbolic and L < 100000:
        import numpy as np
        arr = np.arange(L)
        want = (arr[::-1] if rev else arr)[s]
        ctx.check(np.array_equal(arr[first][second], want), 'real slicing agrees')


def multi(ctx, cull):
    from viscid.sliceutil import make_fwd_slice
    import numpy as np
    n = 2
    Ls = [ctx.int('L%d' % i, 1, None if ctx.symbolic else 50) for i in range(n)]
    slices, rev, ref = [], [], []
    for i in range(n):
        if ctx.choice('newax%d' % i, [False, True]):
            slices.append(np.newaxis)
            rev.append(False)
            ref.append('new')
        r = ctx.choice('rev%d' % i, [False, True])
        rev.append(r)
        kind = ctx.choice('kind%d' % i, ['int', 'slice', 'neg'])
        if kind == 'int':
            v = ctx.int('i%d' % i)
            ctx.assume(v >= -Ls[i])
            ctx.assume(v < Ls[i])
            slices.append(v)
            w = v + Ls[i] if v < 0 else v
            ref.append(('int', Ls[i] - 1 - w if r else w, Ls[i]))
        else:
            st = end(ctx, 'start%d' % i, Ls[i], True)
            sp = end(ctx, 'stop%d' % i, Ls[i], kind == 'slice')
            step = 2 if kind == 'slice' else -1
            slices.append(slice(st, sp, step))
            a, d, c = prog(st, sp, step, Ls[i])
            ref.append(('slice', Ls[i] - 1 - a if r else a, -d if r else d, c, Ls[i]))
    first, second = make_fwd_slice(list(Ls), list(slices), list(rev), cull_second=cull)
    ctx.check(len(first) == n, 'one first slice per stored dimension')
    k = 0
    j = 0
    for r in ref:
        if r == 'new':
            ctx.check(second[j] is None, 'new axis kept in place')
            j += 1
            continue
        f = first[k]
        k += 1
        if r[0] == 'int':
            ctx.check(not isinstance(f, slice), 'int stays an int')
            w = f + r[2] if f < 0 else f
            ctx.check(w == r[1], 'int selects the same element')
            if not cull:
                ctx.check(second[j] is None, 'dropped dimension marked')
                j += 1
            continue
        s = second[j]
        j += 1
        a1, d1, n1 = compose(f, s, r[4])
        ctx.check(n1 == r[3], 'count per dimension')
        ctx.implies(r[3] > 0, a1 == r[1], 'first per dimension')
        ctx.implies(r[3] > 1, d1 == r[2], 'stride per dimension')
    ctx.check(j == len(second), 'no extra post slices')
    if not ctx.symbolic and cull:
        sh = tuple(Ls)
        arr = np.arange(int(np.prod(sh))).reshape(sh)
        flip = tuple(slice(None, None, -1) if q else slice(None)
                     for q, s in zip(rev, slices) if s is not None)
        ctx.check(np.array_equal(arr[tuple(first)][tuple(second)], arr[flip][tuple(slices)]),
                  'real slicing agrees')


def short(ctx):
    """dimensions without a slice, or without a reversal flag, are left alone"""
    from viscid.sliceutil import make_fwd_slice
    L0 = ctx.int('L0', 1, None if ctx.symbolic else 50)
    L1 = ctx.int('L1', 1, None if ctx.symbolic else 50)
    r0 = ctx.choice('r0', [True, False])
    first, second = make_fwd_slice([L0, L1], [slice(None)], [r0])
    for f, s, L, r in zip(first, second, (L0, L1), (r0, False)):
        a, d, n = compose(f, s, L)
        ctx.check(n == L, 'whole dimension')
        ctx.check(a == (L - 1 if r else 0), 'starts at the right end')
        ctx.implies(n > 1, d == (-1 if r else 1), 'right direction')


def cases(tier):
    mx = 5 if tier == 'quick' else 9
    out = [Case('step%d' % s, lambda ctx, s=s: one(ctx, s, 'list')) for a in range(1, mx + 1) for s in (a, -a)]
    out += [Case('scalar_args', lambda ctx: one(ctx, -1, 'scalar')),
            Case('tuple_args', lambda ctx: one(ctx, -2, 'tuple')),
            Case('multi', lambda ctx: multi(ctx, True), weight=5),
            Case('multi_keep', lambda ctx: multi(ctx, False), weight=5),
            Case('missing', short)]
    return out
