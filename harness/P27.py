"""Bucket: lookups after any history of insertions, replacements and removals."""
from sym.run import Case

PROP = 'P27'
ENCODED = ['viscid.bucket.Bucket: set_item, __setitem__, __getitem__, __delitem__, remove_item, remove_item_by_handle, remove_reference, '
           'remove_all_items, items, keys, values, __iter__, __len__, contains_item, contains_handle, __contains__, get_primary_handles']
BOUNDS = ("every history of 3 operations (4 for insertion and deletion only) on an ordered or plain bucket, choosing freely among insertions of 3 items "
          "(hashable and unhashable) under 0 to 2 of 3 handles, with or without index handle, deletion by handle or item, dropping references "
          "and emptying; every handle, item and the iteration order looked up after each operation")
ASSUME = []
OUTSIDE = "handles that are equal but of different type (1, True, 1.0); files loaded as items (VFileBucket)"


class Model(object):
    """what a bucket should hold: items in order with their handles"""

    def __init__(self):
        self.items = []       # [item, [handles], references]
        self.n = 0

    def row(self, item):
        for r in self.items:
            if r[0] is item:
                return r
        return None

    def owner(self, h):
        for r in self.items:
            if h in r[1]:
                return r
        return None

    def set(self, handles, item, index, ref=False):
        hs = list(handles)
        r = self.row(item)
        if r is None and index:
            hs.append(self.n)
            self.n += 1
        new = []
        for h in hs:
            o = self.owner(h)
            if o is not None and o is r or h in new:
                continue
            if o is not None:
                o[1].remove(h)
                if not o[1]:
                    self.items.remove(o)
            new.append(h)
        if r is None:
            if new:
                self.items.append([item, new, 1])
        else:
            r[1].extend(new)
            if ref:
                r[2] += 1

    def remove(self, r):
        self.items = [q for q in self.items if q is not r]


class Item(object):
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return 'item%d' % self.n


class Unhashable(Item):
    __hash__ = None

    def __eq__(self, o):
        return isinstance(o, Unhashable)        # all equal


HANDLES = ['a', 'b', ('c', 1)]


def agree(ctx, b, m, items, label):
    ctx.check(len(b) == len(m.items), label + ': number of items')
    got = list(b)
    ctx.check(len(got) == len(m.items) and all(g is r[0] for g, r in zip(got, m.items)), label + ': each item once in the order of insertion')
    got = b.items_as_list()
    ctx.check(len(got) == len(m.items) and all(g is r[0] for g, r in zip(got, m.items)), label + ': items_as_list')
    got = [(list(hs), it) for hs, it in b.items()]
    ctx.check(len(got) == len(m.items) and all(it is r[0] and sorted(map(str, hs)) == sorted(map(str, r[1])) for (hs, it), r in zip(got, m.items)),
              label + ': handles of each item')
    ctx.check([sorted(map(str, k)) for k in b.keys()] == [sorted(map(str, r[1])) for r in m.items], label + ': keys')
    ctx.check([h for h in b.get_primary_handles()] == [r[1][0] for r in m.items], label + ': first handles')
    for h in HANDLES + [0, 1, 2, 3, 4]:
        r = m.owner(h)
        ctx.check(b.contains_handle(h) == (r is not None), label + ': contains_handle')
        try:
            it = b[h]
        except KeyError:
            it = None
        ctx.check(it is (r[0] if r else None), label + ': item last stored under a handle')
        if r is not None:
            ctx.check(h in b, label + ': handle in bucket')
    for it in items:
        ctx.check(b.contains_item(it) == (m.row(it) is not None), label + ': contains_item')
    ctx.check(all(r[1] for r in m.items), label + ': reachable')


def history(ctx, nops, kind, ordered, ops, first=None):
    from viscid.bucket import Bucket
    b, m = Bucket(ordered=ordered), Model()
    cls = [Item, Item, Item] if kind == 'plain' else ([Unhashable] * 3 if kind == 'unhashable' else [Item, Unhashable, Item])
    items = [c(i) for i, c in enumerate(cls)]
    for n in range(nops):
        op = first if first and n == 0 else ctx.choice('op%d' % n, ops)
        if op in ('set', 'setitem', 'noindex', 'ref', 'refno'):
            it = items[ctx.choice('item%d' % n, range(min(n + 1, 3)))]
            hs = list(ctx.choice('handles%d' % n, [(), ('a',), ('b',), ('b', 'a')] if nops < 4 or n < 2 else [('a',), ('b', ('c', 1))] if op != 'setitem' else [('a',), ('b', 'a')]))
            keep = list(hs)
            if op == 'setitem':
                if len(hs) == 1:
                    b[hs[0]] = it
                else:
                    b[hs] = it
                m.set(keep, it, True)
            elif op == 'set':
                b.set_item(hs, it)
                m.set(keep, it, True)
            elif op == 'ref':
                b.set_item(hs, it, _add_ref=True)
                m.set(keep, it, True, True)
            elif op == 'refno':
                b.set_item(hs, it, index_handle=False, _add_ref=True)
                m.set(keep, it, False, True)
            else:
                b.set_item(hs, it, index_handle=False)
                m.set(keep, it, False)
            ctx.check(hs == keep, "caller's list of handles unchanged")
        elif op in ('del', 'byhandle'):
            h = ctx.choice('del%d' % n, ['a', 'b', 0, 1])
            r = m.owner(h)
            try:
                if op == 'del':
                    del b[h]
                else:
                    b.remove_item_by_handle(h)
                ok = True
            except KeyError:
                ok = False
            ctx.check(ok == (r is not None), 'removing by handle')
            if r is not None:
                m.remove(r)
        elif op in ('delitem', 'remove', 'unref'):
            it = items[ctx.choice('rm%d' % n, range(2))]
            r = m.row(it)
            if op == 'unref':
                if r is None:
                    continue
                if r[1] and bool(ctx.bool('by handle%d' % n)):
                    b.remove_reference(r[1][0])
                else:
                    b.remove_reference(it)
                r[2] -= 1
                if r[2] <= 0:
                    m.remove(r)
            else:
                try:
                    if op == 'delitem':
                        del b[it]
                    else:
                        b.remove_item(it)
                    ok = True
                except KeyError:
                    ok = False
                ctx.check(ok == (r is not None), 'removing an item')
                if r is not None:
                    m.remove(r)
        elif op == 'clear':
            b.remove_all_items()
            m.items = []
        agree(ctx, b, m, items, op)


def shared(ctx):
    """one list of handles used for several items"""
    from viscid.bucket import Bucket
    b = Bucket(ordered=True)
    hs = ['a'] if bool(ctx.bool('named')) else []
    items = [Item(i) for i in range(3)]
    for it in items:
        b.set_item(hs, it)
    for i, it in enumerate(items):
        ctx.check(b[i] is it, 'index handles of items stored with one list of handles')


def cases(tier):
    T = tier == 'thorough'
    out = []

    def add(nm, fn, *a, **k):
        out.append(Case(nm, lambda ctx: fn(ctx, *a), **k))
    ALL = ['set', 'setitem', 'noindex', 'ref', 'del', 'byhandle', 'delitem', 'remove', 'unref', 'clear']
    for kind in ('plain', 'unhashable', 'mixed'):
        for f, ops in (('set', ['set', 'ref', 'unref', 'byhandle', 'clear']), ('noindex', ['setitem', 'noindex', 'del', 'delitem', 'remove'])):
            add('history/%s/%s' % (kind, f), history, 3, kind, kind != 'mixed', ALL if T else ops, f, weight=10)
        add('insertions/' + kind, history, 3, kind, True, ['set', 'noindex'], 'setitem')
        add('sets and removals/' + kind, history, 4 if kind == 'plain' else 3, kind, True, ['set', 'del'], 'setitem', weight=20)
        add('references/' + kind, history, 3, kind, kind != 'plain', ['noindex', 'refno', 'unref', 'setitem'], 'noindex', weight=10)
        if T:
            add('references4/' + kind, history, 4, kind, kind != 'plain', ['noindex', 'refno', 'unref', 'setitem'], 'noindex', weight=10)
            for f in ('set', 'noindex'):
                add('long/%s/%s' % (kind, f), history, 5, kind, True, ['set', 'del', 'unref'], f)
                add('history4/%s/%s' % (kind, f), history, 4, kind, True, ALL, f)
    add('shared list', shared)
    return out
