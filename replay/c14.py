"""C14: one configured cache object per thread and alias."""
from replay.common import Backend, Session, worker, advance, clock, timers

CONF = {'default': {}, 'second': {'ISOLATION_LEVEL': 'REPEATABLE READ', 'DELAY': 3}, 'third': {'DELAY': 2},
        'tagged': {'BACKEND': 'second', 'ISOLATION_LEVEL': 'SERIALIZABLE'}, 'ru': {'BACKEND': 'third', 'DELAY': 4,
        'ISOLATION_LEVEL': 'READ UNCOMMITTED'}, 'nodelay': {'BACKEND': 'default', 'DELAY': None},
        'bad': {'BACKEND': 'default', 'ISOLATION_LEVEL': 'NONSENSE'}}
ALIASES = ['default', 'second', 'third', 'tagged', 'ru', 'nodelay']


def fresh():
    from django.conf import settings
    from django_cache_dependencies import CacheCollection
    settings.CACHE_TAGGING = CONF
    return CacheCollection()


def check_identity(rep):
    rep.rule.add('random sequences of requests for aliases in several threads; non-trivial: several aliases and threads')
    import django_cache_dependencies as dj
    rng = rep.rng
    for _ in range(40 * rep.scale):
        coll = fresh()
        got = {}
        for _ in range(rng.randrange(2, 14)):
            w, alias = rng.randrange(3), rng.choice(ALIASES)
            how = rng.choice(['call', 'item', 'none'] if alias == 'default' else ['call', 'item'])
            f = {'call': lambda: coll(alias), 'item': lambda: coll[alias], 'none': lambda: coll()}[how]
            kind, c = worker(w).do(f)
            rep.case((w, alias, how))
            if kind == 'exc':
                rep.fail('asking for a configured cache raised', alias=alias, error=c)
                break
            rep.check(got.setdefault((w, alias), c) is c, 'another object for the same alias in the same thread', alias=alias)
        objs = list(got.values())
        rep.check(len({id(o) for o in objs}) == len(objs), 'one object for several aliases or threads', got=list(got))
        rep.check(len({id(o.cache) for o in objs}) == len(objs), 'one wrapper for several aliases or threads')
        rep.check(len({id(o.transaction) for o in objs}) == len(objs), 'one transaction manager for several caches')
        rep.check(len({id(o.relation_manager) for o in objs}) == len(objs), 'one fragment manager for several caches')
        for w in range(3):
            k, alls = worker(w).do(lambda: list(coll.all()))
            want = {id(c) for (x, _), c in got.items() if x == w}
            rep.check({id(c) for c in alls} == want and len(alls) == len(want),
                      'the caches of a thread are not exactly those it asked for', thread=w)


def check_arguments(rep):
    """Different arguments, different objects."""
    coll = fresh()

    def f():
        a = coll('default', 1)
        b = coll('default', 2)
        c = coll('default', x=1)
        d = coll('default', 1)
        e = coll('default', x=1)
        g = coll('default', x=2)
        h = coll('default', y=1)
        return a is d, c is e, len({id(x) for x in (a, b, c, g, h, coll('default'))}) == 6
    k, r = worker(0).do(f)
    rep.case('args')
    if rep.check(k == 'ret', 'asking with arguments raised', error=r):
        rep.check(r == (True, True, True), 'arguments are not part of the identity', result=r)


def check_settings(rep):
    """Backend, isolation level and delay of every alias, observed through what ending a transaction does."""
    from django.conf import settings
    import django.core.cache
    for alias in ALIASES:
        coll = fresh()
        conf = CONF[alias]
        level = conf.get('ISOLATION_LEVEL', 'READ COMMITTED')
        delay = conf.get('DELAY') or 0
        b = Backend()

        def f():
            c = coll(alias)
            native = django.core.cache.caches[conf.get('BACKEND', alias)]
            same = c.cache.cache is native
            del timers[:]
            c.set('probe-%s' % alias, 1, ['zz'])
            stored = native.get('probe-%s' % alias) is not None
            foreign = [x for x in ('default', 'second', 'third') if x != conf.get('BACKEND', alias) and
                       django.core.cache.caches[x].get('probe-%s' % alias) is not None]
            c.transaction.begin()
            c.invalidate_tags('t')
            advance(.5)
            c.transaction.finish()
            return same, stored, foreign, [(t.interval) for t in timers]
        k, r = worker(1).do(f)
        rep.case(alias)
        if not rep.check(k == 'ret', 'using a configured cache raised', alias=alias, error=r):
            continue
        rep.check(r[0] and r[1] and not r[2], 'not built over the configured backend', alias=alias, result=r)
        want = [delay] if delay and level.startswith('READ') else []
        rep.check(r[3] == want, 'wrong delay', alias=alias, expected=want, got=r[3])
        del timers[:]
        # level
        locks = level in ('REPEATABLE READ', 'SERIALIZABLE')

        def g():
            c = coll(alias)
            c.transaction.begin()
            c.invalidate_tags('lvl')
        worker(1).do(g)
        k, blocked = worker(2).do(lambda: (coll(alias).set('q', 1, ['lvl']), coll(alias).get('q', abort=True))[1] is None)
        rep.check(k == 'ret' and blocked == locks, 'wrong isolation level', alias=alias, level=level, refused=blocked)
        if level == 'READ COMMITTED':
            worker(1).do(lambda: coll(alias).transaction.finish())
            k, gone = worker(2).do(lambda: coll(alias).get('q', abort=True) is None)
            rep.check(gone, 'not invalidated at the end of the transaction', alias=alias)
        elif level == 'READ UNCOMMITTED':
            worker(1).do(lambda: coll(alias).transaction.finish())
            k, gone = worker(2).do(lambda: coll(alias).get('q', abort=True) is None)
            rep.check(not gone, 'invalidated at the end of the transaction', alias=alias)
            advance(delay + .1)
            k, gone = worker(2).do(lambda: coll(alias).get('q', abort=True) is None)
            rep.check(gone, 'not invalidated after the delay', alias=alias)
        else:
            advance(.5)
            worker(1).do(lambda: coll(alias).transaction.finish())
            advance(delay * .5)
            k, blocked = worker(2).do(lambda: (coll(alias).set('q2', 1, ['lvl']), coll(alias).get('q2', abort=True))[1] is None)
            if delay:
                rep.check(blocked, 'the delay is not respected', alias=alias)
            advance(delay + .1)
            k, blocked = worker(2).do(lambda: (coll(alias).set('q3', 1, ['lvl']), coll(alias).get('q3', abort=True))[1] is None)
            rep.check(not blocked, 'still locked after the delay', alias=alias)
        del timers[:]
    coll = fresh()
    k, r = worker(0).do(lambda: coll('bad'))
    rep.check(k == 'exc' and isinstance(r, ValueError), 'an unknown isolation level was accepted', result=r)


def check_no_settings(rep):
    """Without a configuration: READ COMMITTED and no delay."""
    from django.conf import settings
    from django_cache_dependencies import CacheCollection
    for conf in ({}, None):
        if conf is None:
            del settings.CACHE_TAGGING
        else:
            settings.CACHE_TAGGING = conf
        coll = CacheCollection()
        del timers[:]

        def f():
            c = coll('second')
            c.transaction.begin()
            c.invalidate_tags('t')
            c.set('x', 1, ['t'])
            a = c.get('x', abort=True)
            c.transaction.finish()
            return a, c.get('x', abort=True), len(timers)
        k, r = worker(0).do(f)
        rep.case(repr(conf))
        rep.check(k == 'ret' and r == (1, None, 0), 'the defaults are not READ COMMITTED without delay', result=r)
    settings.CACHE_TAGGING = {}


def check_request_end(rep):
    """The end of a request closes exactly the caches of its thread."""
    import django_cache_dependencies as dj
    from django.core import signals
    from django.conf import settings
    settings.CACHE_TAGGING = {}
    opened = [(w, a) for w in (0, 1) for a in ('default', 'second', 'third')]
    for ending in (0, 1):
        for w, a in opened:
            def f():
                c = dj.caches[a]
                c.transaction.begin()
                c.transaction.begin()
                c.get('open-fragment-%s' % a)
            k, e = worker(w).do(f)
            rep.check(k == 'ret', 'using a cache raised', error=e)
        k, e = worker(ending).do(lambda: signals.request_finished.send(sender=None) and None)
        rep.case(ending)
        rep.check(k == 'ret', 'the end of a request raised', error=e)
        for w, a in opened:
            k, (tx, node, key) = worker(w).do(lambda: (bool(dj.caches[a].transaction.current()),
                                                       bool(dj.caches[a].relation_manager.current()), 0))
            if w == ending:
                rep.check(not tx and not node, 'the end of the request left something open', alias=a, transaction=tx, node=node)
            else:
                rep.check(tx and node, 'the end of a request closed a cache of another thread', alias=a)
        for w in (0, 1):
            worker(w).do(lambda: [dj.caches[a].close() for a in ('default', 'second', 'third')])
    # a thread that used no cache
    k, e = worker(5).do(lambda: signals.request_finished.send(sender=None) and None)
    rep.check(k == 'ret', 'the end of a request without caches raised', error=e)


def check_default_proxy(rep):
    import django_cache_dependencies as dj
    for w in (0, 1):
        def f():
            dj.cache.set('proxied', w, ['pt'])
            return (dj.caches['default'].get('proxied'), 'proxied' in dj.cache, dj.cache == dj.caches['default'],
                    dj.cache != dj.caches['default'], dj.cache.transaction is dj.caches['default'].transaction)
        k, r = worker(w).do(f)
        rep.case(w)
        rep.check(k == 'ret' and r == (w, True, True, False, True), 'the default cache object is not the default cache', result=r)


def check_accessor(rep):
    """The accessor given to the lock finds, in every thread, the object of that thread."""
    from cache_dependencies.locks import DependencyLock
    real = DependencyLock.__dict__['make']
    seen = []

    def make(*args, **kwargs):
        seen.append([a for a in list(args) + list(kwargs.values()) if callable(a)])
        return getattr(real, '__func__', real)(*args, **kwargs)
    for alias in ('default', 'second', 'tagged'):
        del seen[:]
        DependencyLock.make = staticmethod(make)
        try:
            coll = fresh()
            k, c = worker(0).do(lambda: coll(alias))
        finally:
            DependencyLock.make = real
        rep.case(alias)
        if k != 'ret' or len(seen) != 1 or len(seen[0]) != 1:
            continue            # built in another way
        accessor = seen[0][0]
        for w in (0, 1, 0, 2):
            k, r = worker(w).do(lambda: (accessor(), coll(alias).cache))
            if rep.check(k == 'ret', 'the accessor raised', error=r, thread=w):
                rep.check(r[0] is r[1], 'the lock would work on the cache object of another thread', alias=alias, thread=w)


def check_kept(rep):
    """The object of a thread is kept by the collection, also when nobody else holds it."""
    import gc
    coll = fresh()

    def f():
        for a in ALIASES:
            coll(a).transaction.begin()
            coll(a).transaction.begin()
        for _ in range(3):
            gc.collect()
        got = {}
        for a in ALIASES:
            n, t = 0, coll(a).transaction.current()
            while t:
                n, t = n + 1, t.parent()
            got[a] = n
            coll(a).transaction.flush()
        return got, len(list(coll.all()))
    k, r = worker(0).do(f)
    rep.case('collected')
    if rep.check(k == 'ret', 'asking for a cache raised', error=r):
        rep.check(r == ({a: 2 for a in ALIASES}, len(ALIASES)), 'another object for the same alias in the same thread',
                  open_scopes=r)


def check_many_arguments(rep):
    """Many different arguments, as many objects."""
    coll = fresh()

    def f():
        objs = [coll('default', i) for i in range(150)] + [coll('default', x=i) for i in range(150)]
        return len({id(o) for o in objs})
    k, r = worker(0).do(f)
    rep.case('many')
    rep.check(k == 'ret' and r == 300, 'one object for different arguments', result=r)
