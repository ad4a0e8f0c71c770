"""Chunking partitions its input; parallel.map keeps order."""
from sym.run import Case

PROP = 'P30'
ENCODED = ['viscid.parallel.chunk_slices', 'viscid.parallel.chunk_list', 'viscid.parallel.chunk_sizes',
           'viscid.parallel.chunk_interslices', 'viscid.parallel.map (serial, threads)']
BOUNDS = ("number of elements: any integer >= 0 (unbounded) for chunk_slices and chunk_sizes, <= 10 for chunk_list; "
          "number of chunks 1..10, enumerated by the solver; chunk size 1..7 with at most 24 elements")
ASSUME = ["worker processes of multiprocessing pools return what Pool.map_async documents"]


def slices(ctx, maxn=10):
    from viscid import parallel
    nel = ctx.int('nel', 0)
    nch = ctx.int('nchunks', 1, maxn)
    r = parallel.chunk_slices(nel, nch)
    n = int(nch)
    ctx.check(len(r) == n, 'requested number of pieces')
    pos = 0
    for a, b in r:
        ctx.check(a == pos, 'pieces are consecutive')
        ctx.check(b >= a, 'pieces are not reversed')
        pos = b
    ctx.check(pos == nel, 'pieces cover the whole length')
    for a, b in r:
        for c, d in r:
            ctx.check((b - a) - (d - c) <= 1, 'sizes differ by at most one')
    if ctx.symbolic:
        from sym import shim
        shim.INT_SYM = True
    try:
        s = parallel.chunk_sizes(nel, nch)
    finally:
        if ctx.symbolic:
            shim.INT_SYM = False
    ctx.check(len(s) == n, 'sizes: one per piece')
    for (a, b), k in zip(r, s):
        ctx.check(k == b - a, 'sizes agree with slices')


def sized(ctx):
    from viscid import parallel
    nel = ctx.int('nel', 1, 24)
    size = ctx.int('size', 1, 7)
    r = parallel.chunk_slices(nel, None, size=size)
    pos = 0
    for a, b in r:
        ctx.check(a == pos, 'sized pieces are consecutive')
        ctx.check(b - a <= size, 'sized pieces hold at most size elements')
        ctx.check(2 * (b - a) >= size if len(r) > 1 else True, 'sized pieces are about size elements')
        pos = b
    ctx.check(pos == nel, 'sized pieces cover everything')
    ctx.check((len(r) - 1) * size < nel, 'no more sized pieces than needed')
    s = parallel.chunk_sizes(nel, None, size=size)
    ctx.check(len(s) == len(r), 'sized: one size per piece')
    for (a, b), k in zip(r, s):
        ctx.check(k == b - a, 'sized sizes agree with slices')
    seq = list(range(int(nel)))
    parts = parallel.chunk_list(seq, None, size=size)
    ctx.check(len(parts) == len(r), 'sized chunk_list: same pieces')
    ctx.check([x for p in parts for x in p] == seq, 'sized chunk_list: concatenation is the input')


def lists(ctx):
    from viscid import parallel
    import numpy as np
    nel = int(ctx.int('nel', 0, 10))
    nch = ctx.int('nchunks', 1, 12)
    seq = [ctx.int('v%d' % i) for i in range(nel)]
    kind = ctx.choice('kind', ['list', 'tuple', 'array'])
    s = seq if kind == 'list' else tuple(seq)
    if kind == 'array':
        s = np.array(seq, dtype=object)
    parts = parallel.chunk_list(s, nch)
    ctx.check(len(parts) == int(nch), 'chunk_list: requested number')
    flat = [x for p in parts for x in p]
    ctx.check(len(flat) == nel, 'chunk_list: every element once')
    for a, b in zip(flat, seq):
        ctx.check(a == b, 'chunk_list: input order kept')
    ln = [len(p) for p in parts]
    ctx.check(max(ln) - min(ln) <= 1, 'chunk_list: balanced')


def inter(ctx):
    from viscid import parallel
    nel = int(ctx.int('nel', 0, 12))
    nch = int(ctx.int('nchunks', 1, 8))
    seq = list(range(nel))
    seen = []
    sz = sorted(parallel.chunk_sizes(nel, nch).tolist())
    parts = [seq[slice(*sl)] for sl in parallel.chunk_interslices(nch)]
    ctx.check(len(parts) == nch, 'interslices: requested number')
    for p in parts:
        seen += p
    ctx.check(sorted(seen) == seq, 'interslices: every element exactly once')
    ctx.check(sorted(len(p) for p in parts) == sz, 'interslices: documented sizes')


def order(ctx):
    from viscid import parallel
    n = int(ctx.int('n', 0, 5))
    vals = [ctx.int('v%d' % i) for i in range(n)]
    off = ctx.int('off')
    thr = ctx.choice('threads', [False, True])
    if thr and ctx.symbolic:
        thr = False       # one symbolic thread: executor.map keeps order by contract
    f = lambda x, k=0, o=0: 3 * x + k + o
    r = parallel.map(1 if not thr else 3, f, [(v, i) for i, v in enumerate(vals)],
                     args_kw=dict(o=off), threads=thr)
    ctx.check(len(r) == n, 'map: one result per input')
    for i, v in enumerate(vals):
        ctx.check(r[i] == 3 * v + i + off, 'map: result of its own input')


def cases(tier):
    mx = 10 if tier == 'quick' else 24
    return [Case('slices', lambda ctx: slices(ctx, mx), weight=5),
            Case('sized', sized, weight=9),
            Case('lists', lists), Case('interslices', inter), Case('map', order)]
