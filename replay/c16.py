"""C16: read-through computes once and only on a miss."""
from replay.common import Backend, Session, make_cache, worker, advance
from replay.world import TAGS, VERSIONS
from replay.c15 import observe, dep


FALSY = ('str', 'list', 'dict', 'false', 'float', 'tuple', 'bytes')


class Boom(Exception):
    pass


def check_read_through(rep):
    rep.rule.add('read-through calls of the tag and of the dependency interface over every prior state of the key, value, '
                 'arguments and outcome of the callback; non-trivial: the key was present but invalid, or storing is refused')
    rng = rep.rng
    for front in ('tags', 'dependency'):
        for prior in ('missing', 'valid', 'none', 'falsy', 'invalid', 'otherversion', 'expired') + FALSY:
            for result in ('value', None, 0, Boom('b')):
                for args, kwargs in ((None, None), ((1, 2), None), (None, {'x': 1}), ([3], {'y': 2}), ((), {})):
                    for ver in VERSIONS if prior not in FALSY else (None,):
                        for refused in (False, True):
                            one(rep, front, prior, result, args, kwargs, ver, refused, rng)


def one(rep, front, prior, result, args, kwargs, ver, refused, rng):
    b = Backend()
    level = 'REPEATABLE READ' if refused else 'READ COMMITTED'
    s, o = Session(0, b, level), Session(1, b, level)
    stored = {'valid': 'old', 'none': None, 'falsy': 0, 'invalid': 'old', 'otherversion': 'old', 'expired': 'old',
              'str': '', 'list': [], 'dict': {}, 'false': False, 'float': .0, 'tuple': (), 'bytes': b''}
    if prior != 'missing':
        s.run(lambda c: c.set('k', stored[prior], ['p'], 1 if prior == 'expired' else 100,
                              9 if prior == 'otherversion' else ver))
    if prior == 'invalid':
        s.run(lambda c: c.invalidate_tags('p', version=ver))
    if prior == 'expired':
        advance(2)
    if refused:
        o.run(lambda c: c.transaction.begin() and None)
        o.run(lambda c: c.invalidate_tags('a', version=ver))
    before = b.snapshot()
    now = b.snapshot
    calls = []

    def cb(*a, **k):
        calls.append((a, k))
        if isinstance(result, Exception):
            raise result
        return result
    tags = rng.choice([('a', 'b'), ['a', 'b'], {'a', 'b'}])
    if front == 'tags':
        f = lambda c: c.get_or_set_callback('k', cb, tags, 77, ver, args, kwargs)
    else:
        f = lambda c: c.cache.get_or_set_callback('k', cb, dep(['a', 'b']), 77, ver, args, kwargs)
    kind, got = s.do(f)
    info = dict(front=front, prior=prior, callback_result=result, args=args, kwargs=kwargs, version=ver, refused=refused)
    rep.case((front, prior, repr(result), repr(args), repr(kwargs), ver, refused))
    if prior in ('valid', 'falsy') + FALSY:
        rep.check(calls == [], 'the callback was called although a value was found', **info)
        rep.check((kind, got) == ('ret', stored[prior]), 'not the cached value', got=got, **info)
        return
    rep.check(calls == [(tuple(args or ()), dict(kwargs or {}))], 'the callback was not called exactly once as given',
              calls=calls, **info)
    if isinstance(result, Exception):
        rep.check(kind == 'exc' and got is result, 'the exception of the callback was not propagated', got=got, **info)
        rep.check(now() == before, 'something was stored although the callback raised', **info)
        return
    if not rep.check(kind == 'ret' and got is result, 'not the result of the callback', got=got, **info):
        return
    if refused:
        rep.check(now().get(('k', 1 if ver is None else ver)) == before.get(('k', 1 if ver is None else ver)),
                  'stored although refused', **info)
        return
    r = observe(b, ver, ['a', 'b', 'c', 'p'])
    rep.check(r[:2] == (result, 77) and r[2] == {'a', 'b'}, 'not stored under the given tags, timeout and version', got=r,
              **info)
    n = len(calls)
    again = s.run(f)
    if result is not None:
        rep.check(again == result and len(calls) == n, 'computed again although it was stored', **info)


def check_nested(rep):
    """Read-through calls in callbacks: each computed once, the outer depends on the inner."""
    for depth in (2, 4):
        b = Backend()
        s = Session(0, b)
        calls = []

        def make(c, i):
            def cb():
                calls.append(i)
                if i + 1 < depth:
                    c.get_or_set_callback('n%d' % (i + 1), make(c, i + 1), ['t%d' % (i + 1)])
                return 'v%d' % i
            return cb
        s.run(lambda c: c.get_or_set_callback('n0', make(c, 0), ['t0']))
        rep.case(depth)
        rep.check(calls == list(range(depth)), 'not each computed once', calls=calls)
        s.run(lambda c: c.get_or_set_callback('n0', make(c, 0), ['t0']))
        rep.check(calls == list(range(depth)), 'computed again', calls=calls)
        s.run(lambda c: c.invalidate_tags('t%d' % (depth - 1)))
        del calls[:]
        s.run(lambda c: c.get_or_set_callback('n0', make(c, 0), ['t0']))
        rep.check(calls == list(range(depth)), 'not recomputed after an inner tag was invalidated', calls=calls)


def check_defaults(rep):
    """Without optional arguments."""
    s = Session(0, Backend())
    got = s.run(lambda c: (c.get_or_set_callback('k', lambda: 5), c.get_or_set_callback('k', lambda: 6),
                           c.get_or_set_callback('l', lambda: 7, ())))
    rep.case('defaults')
    rep.check(got == (5, 5, 7), 'wrong results', got=got)
