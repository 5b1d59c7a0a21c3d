"""C12: deferred reads are transparent and batched."""
import copy
from replay.common import Backend


class Store(object):
    def __init__(self, data):
        self.data = data
        self.calls = []

    def fetch(self, keys, *args, **kw):
        self.calls.append((set(keys), args, kw))
        return {k: (self.data[k], args, tuple(sorted(kw.items()))) for k in keys if k in self.data}

    def fetch2(self, keys, *args, **kw):
        self.calls.append((set(keys), ('2',) + args, kw))
        return {k: ('2', self.data[k], args) for k in keys if k in self.data}

    def nothing(self, keys, *args, **kw):
        self.calls.append((set(keys), ('n',) + args, kw))
        return None


def make(store, rng, seen):
    """A random deferred with its expected results, newest first."""
    from cache_dependencies import defer
    kind = rng.choice(['fetch', 'fetch', 'fetch', 'fetch2', 'none', 'nothing'])
    args = rng.choice([(), (1,), (2,), (1, 2)])
    kw = rng.choice([{}, {}, {'x': 1}, {'x': 2}, {'y': 1}])
    if kind == 'none':
        d = defer.Deferred(None, defer.NoneDeferredIterator)
    else:
        d = defer.Deferred(getattr(store, kind), defer.GetManyDeferredIterator, *args, **kw)
    exp = []
    for _ in range(rng.randrange(1, 4)):
        ident = len(seen)
        seen.append(None)
        exp.append(add(d, store, rng, ident, kind, args, kw))
    return d, list(reversed(exp)), kind


def add(d, store, rng, ident, kind, args, kw):
    if kind == 'none':
        extra = rng.choice([(), ('e',)])
        d.add_callback(lambda node, caches, *a, **k: ('none', ident, caches, a, k), *extra, q=3)
        return ('none', ident, None, extra, {'q': 3})
    keys = rng.sample('abcdefgh', rng.randrange(0, 4))
    kt = rng.choice([list, tuple, set, frozenset])(keys)
    d.add_callback(lambda node, caches, ks, *a, **k: ('got', ident, dict(caches), sorted(ks), a), kt, 'z')
    if kind == 'nothing':
        want = {}
    elif kind == 'fetch':
        want = {k: (store.data[k], args, tuple(sorted(kw.items()))) for k in keys if k in store.data}
    else:
        want = {k: ('2', store.data[k], args) for k in keys if k in store.data}
    return ('got', ident, want, sorted(keys), ('z',))


def drain(d, n):
    out = []
    for _ in range(n):
        try:
            out.append(d.get())
        except StopIteration:
            out.append('stop')
            break
    return out


def check_combining(rep):
    rep.rule.add('random deferred reads over several operations, arguments and overlapping key sets, combined in random '
                 'order and grouping; results against executing each alone, and the number and keys of backend calls; '
                 'non-trivial: several operations and shared keys')
    from cache_dependencies import defer
    rng = rep.rng
    for _ in range(600 * rep.scale):
        store = Store({k: k.upper() for k in rng.sample('abcdefgh', rng.randrange(0, 9))})
        seen = []
        groups = [make(store, rng, seen) for _ in range(rng.randrange(1, 6))]
        if rng.random() < .3 and len(groups) > 2:
            # a group that is itself combined
            a, b = groups[1], groups[2]
            d = a[0]
            d += b[0]
            groups[1:3] = [(d, b[1] + a[1], None)]
        total, exp = groups[0][0], list(groups[0][1])
        used = []
        for d, e, _ in groups[1:]:
            total += d
            exp = list(e) + exp
            used.append((d, e))
        rep.case((tuple(map(repr, exp)),))
        shape = [[x[:2] for x in e] for _, e, _ in groups]
        rep.check(store.calls == [], 'combining reads', shape=shape)
        got = drain(total, len(exp) + 1)
        rep.check(got == exp + ['stop'], 'wrong results of combined reads', shape=shape, expected=exp, got=got)
        # one call for the union of the keys
        want = {}
        for x in exp:
            pass
        ops = {}
        for keys, args, kw in store.calls:
            ops.setdefault((repr(args), repr(sorted(kw.items()))), []).append(keys)
        rep.check(all(len(v) == 1 for v in ops.values()), 'more than one backend call for one operation', calls=store.calls,
                  shape=shape)
        # what was added can still be used, and gives the same
        for d, e in used:
            del store.calls[:]
            got = drain(d, len(e) + 1)
            rep.check(got == list(e) + ['stop'], 'an added deferred is not usable unchanged', expected=e, got=got)


def check_union(rep):
    """The one call asks for exactly the union of the keys."""
    from cache_dependencies import defer
    rng = rep.rng
    for _ in range(100 * rep.scale):
        store = Store({k: k for k in 'abcdefgh'})
        n = rng.randrange(1, 6)
        sets = [set(rng.sample('abcdefgh', rng.randrange(0, 5))) for _ in range(n)]
        total = None
        foreign = rng.random() < .4
        for i, ks in enumerate(sets):
            d = defer.Deferred(store.fetch, defer.GetManyDeferredIterator, 5)
            d.add_callback(lambda node, caches, keys: dict(caches), sorted(ks))
            if total is None:
                total = d
            else:
                total += d
            if foreign and i == n // 2:
                total += nones()
        rep.case((n, foreign, tuple(map(tuple, map(sorted, sets)))))
        got = drain(total, n + 1 + int(foreign))
        rep.check(len(store.calls) == 1 and store.calls[0][0] == set().union(*sets) and store.calls[0][1:] == ((5,), {}),
                  'not one call for the union of the keys', sets=sets, calls=store.calls)
        rep.check([g for g in got if isinstance(g, dict)] == [{k: (k, (5,), ()) for k in s} for s in reversed(sets)],
                  'wrong results', got=got, sets=sets)


def nones():
    from cache_dependencies import defer
    d = defer.Deferred(None, defer.NoneDeferredIterator)
    d.add_callback(lambda node, caches: 'none')
    return d


def check_nested_gets(rep):
    """A callback may ask for the results of older reads itself."""
    from cache_dependencies import defer
    rng = rep.rng
    for _ in range(150 * rep.scale):
        store = Store({k: k for k in 'abcd'})
        n = rng.randrange(1, 5)
        total, exp = None, []
        for i in range(n):
            ks = rng.sample('abcd', rng.randrange(0, 4))
            arg = rng.choice([1, 1, 2])
            d = defer.Deferred(store.fetch, defer.GetManyDeferredIterator, arg)
            d.add_callback(lambda node, caches, keys, i=i: (i, sorted(caches)), ks)
            exp.append((i, sorted(ks)))
            if total is None:
                total = d
            else:
                total += d
        outer = defer.Deferred(None, defer.NoneDeferredIterator)
        total += outer
        total.add_callback(lambda node, caches: [node.get() for _ in range(n)])
        rep.case((n, tuple(map(repr, exp))))
        got = total.get()
        rep.check(got == list(reversed(exp)), 'wrong results of nested gets', got=got, expected=exp)


def check_errors(rep):
    """A result that raises does not disturb the others."""
    from cache_dependencies import defer
    rng = rep.rng
    for _ in range(150 * rep.scale):
        store = Store({k: k for k in 'abcd'})
        n = rng.randrange(1, 6)
        bad = [rng.random() < .4 for _ in range(n)]
        total = None
        for i in range(n):
            d = defer.Deferred(store.fetch, defer.GetManyDeferredIterator, rng.choice([1, 2])) if rng.random() < .7 \
                else defer.Deferred(None, defer.NoneDeferredIterator)

            def cb(node, caches, keys=(), i=i):
                if bad[i]:
                    raise ValueError(i)
                return i
            d.add_callback(cb, ['a', 'b'][:rng.randrange(3)])
            if total is None:
                total = d
            else:
                total += d
        got = []
        for _ in range(n):
            try:
                got.append(total.get())
            except ValueError as e:
                got.append(('bad', e.args[0]))
        want = [('bad', i) if bad[i] else i for i in reversed(range(n))]
        rep.case((tuple(bad),))
        rep.check(got == want, 'an error disturbs the other results', got=got, expected=want)
