"""C17: derived backend operations follow from the primitive ones."""
import warnings
from replay.common import clock


def backend(prefix='', version=1, key_func=None):
    from cache_dependencies.cache import AbstractCache

    class B(AbstractCache):
        def __init__(self):
            self.data, self.calls = {}, []
            self.key_prefix, self.version = prefix, version
            if key_func is not None:
                self.key_func = key_func

        def get(self, key, default=None, version=None):
            v = self.data.get(self.make_key(key, version))
            self.calls.append(('get', key, version))
            return default if v is None else v[0]

        def set(self, key, value, timeout=None, version=None):
            self.calls.append(('set', key, value, timeout, version))
            self.data[self.make_key(key, version)] = (value, timeout)

        def delete(self, key, version=None):
            self.calls.append(('delete', key, version))
            return self.data.pop(self.make_key(key, version), None) is not None
    return B()


def check_operations(rep):
    rep.rule.add('random sequences of all derived operations on a dictionary backend against a dictionary model, with '
                 'missing keys, falsy values, several versions and deltas')
    rng = rep.rng
    for _ in range(300 * rep.scale):
        own = rng.choice([1, 1, 3])
        b = backend(rng.choice(['', 'pre']), own)
        m = {}                     # (key, version) -> (value, timeout)
        hist = []
        V = lambda v: own if v is None else v
        for _ in range(rng.randrange(1, 12)):
            op = rng.choice(['set_many', 'get_many', 'delete_many', 'incr', 'decr', 'incr_version', 'decr_version',
                             'has_key', 'contains', 'set'])
            ver = rng.choice([None, None, 1, 2, 3])
            keys = rng.sample('abcde', rng.randrange(0, 5))
            k = rng.choice('abcde')
            d = rng.choice([None, 1, 2, -1, 0, 5])
            hist.append((op, ver, keys, k, d))
            exc = exp = None
            try:
                if op == 'set':
                    v = rng.choice([0, 1, 5, 10])
                    b.set(k, v, None, ver)
                    m[k, V(ver)] = (v, None)
                    got = None
                elif op == 'set_many':
                    data = {x: rng.choice([0, 1, 7, 9]) for x in keys}
                    to = rng.choice([None, 0, 5])
                    got = b.set_many(data, to, ver) and None
                    for x, v in data.items():
                        m[x, V(ver)] = (v, to)
                elif op == 'get_many':
                    got = b.get_many(rng.choice([list, tuple, set, iter])(keys), ver)
                    exp = {x: m[x, V(ver)][0] for x in keys if (x, V(ver)) in m}
                elif op == 'delete_many':
                    got = b.delete_many(rng.choice([list, tuple, set, iter])(keys), ver) and None
                    for x in keys:
                        m.pop((x, V(ver)), None)
                elif op in ('incr', 'decr'):
                    dd = 1 if d is None else d
                    f = getattr(b, op)
                    if (k, V(ver)) in m:
                        exp = m[k, V(ver)][0] + (dd if op == 'incr' else -dd)
                        m[k, V(ver)] = (exp, None)
                    else:
                        exc = ValueError
                    got = f(k, version=ver) if d is None else f(k, d, ver)
                elif op in ('incr_version', 'decr_version'):
                    dd = 1 if d is None else d
                    if dd == 0:
                        continue
                    f = getattr(b, op)
                    if (k, V(ver)) in m:
                        exp = V(ver) + (dd if op == 'incr_version' else -dd)
                        m[k, exp] = (m.pop((k, V(ver)))[0], None)
                    else:
                        exc = ValueError
                    got = f(k, version=ver) if d is None else f(k, d, ver)
                elif op == 'has_key':
                    got, exp = b.has_key(k, ver), (k, V(ver)) in m
                elif op == 'contains':
                    got, exp = k in b, (k, own) in m
            except Exception as e:
                rep.check(exc is not None and isinstance(e, exc), 'an operation raised %r' % e, history=hist)
            else:
                rep.check(exc is None, 'no ValueError for a missing key', history=hist)
                if exc is None:
                    rep.check(got == exp and type(got) is type(exp), 'wrong result', history=hist, expected=exp, got=got)
            have = {}
            for x in 'abcde':
                for v in range(-8, 20):
                    e = b.data.get(b.make_key(x, v))
                    if e is not None:
                        have[x, v] = e
            if not rep.check(have == m, 'wrong contents', history=hist, expected=m, got=have):
                break
        rep.case(repr(hist))


def check_primitives_only(rep):
    """The derived operations only use the primitive ones, with the given version."""
    b = backend()
    b.set_many({'a': 1, 'b': 2}, 9, 4)
    rep.case('calls')
    rep.check(sorted(b.calls) == [('set', 'a', 1, 9, 4), ('set', 'b', 2, 9, 4)], 'wrong primitive calls', calls=b.calls)
    del b.calls[:]
    b.delete_many(['a', 'q'], 4)
    rep.check(b.calls == [('delete', 'a', 4), ('delete', 'q', 4)], 'wrong primitive calls', calls=b.calls)
    del b.calls[:]
    b.get_many(['a', 'b'], 4)
    rep.check(b.calls == [('get', 'a', 4), ('get', 'b', 4)], 'wrong primitive calls', calls=b.calls)


def check_overridden(rep):
    """Membership follows the primitive read even when has_key is overridden, counters go through set."""
    from cache_dependencies.cache import AbstractCache

    class B(AbstractCache):
        def has_key(self, key, version=None):
            return key == 'special'
    rep.case('override')
    rep.check(('special' in B()) is True and ('x' in B()) is False, 'membership ignores has_key')


def check_keys(rep):
    rng = rep.rng
    seen = {}
    for prefix in ('', 'p', 'pp', 'a b'):
        b = backend(prefix)
        for ver in (None, 1, 2, 10, 0):
            for key in ['k', 'k1', '1', 'x y', '', 'long' * 20, u'\u00e9']:
                full = b.make_key(key, ver)
                ident = (prefix, 1 if ver is None else ver, key)
                rep.case(ident)
                rep.check(seen.setdefault(full, ident) == ident, 'one backend key for several', key=full, first=seen[full],
                          second=ident)
                rep.check(b.make_key(key, ver) == full, 'the backend key is not stable', key=key)
    b = backend('p', 7, lambda key, prefix, version: ('custom', key, prefix, version))
    rep.check(b.make_key('k') == ('custom', 'k', 'p', 7) and b.make_key('k', 2) == ('custom', 'k', 'p', 2) and
              b.make_key('k', 0) == ('custom', 'k', 'p', 0), 'the key function is not used with prefix and version',
              got=b.make_key('k'))


def check_validate(rep):
    b = backend()
    for key, warn in [('ok', 0), ('x' * 250, 0), ('x' * 251, 1), ('a b', 1), ('a\x7fb', 1), ('\n', 1), ('', 0),
                      ('a\x00', 1), (u'\u00e9', 0), ('!', 0), ('~', 0), ('x' * 251 + ' {0}', 1), ('{} {0} %s ', 1),
                      ('{' * 300, 1), ('\x20', 1), ('\x21', 0)]:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            rep.case(key)
            try:
                r = b.validate_key(key)
            except Exception as e:
                rep.fail('validating a key raised', key=key, error=e)
                continue
        rep.check(bool(w) == bool(warn) and r is None, 'wrong warning', key=key, warned=len(w), result=r)
