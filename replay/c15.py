"""C15: the tag interface is a faithful front of the dependency interface."""
from replay.common import Backend, Session, make_cache, worker, advance, clock
from replay.world import TAGS, tag_keys

VERSIONS = [None, 0, 2, 3]


def observe(b, ver, tags):
    """What is stored under "k": value, remaining time and the tags it depends on."""
    def f(bb):
        return lambda: make_cache(bb).get('k', 'none', ver, True)
    v = worker(7).do(f(b))[1]
    out = set()
    for t in tags:
        bb = b.clone()

        def g():
            c = make_cache(bb)
            c.cache.invalidate_dependency(dep([t]), ver)
            return c.get('k', 'none', ver, True)
        if worker(7).do(g)[1] != v:
            out.add(t)
    return v, b.ttl('k', ver), out


def dep(tags):
    from cache_dependencies.dependencies import TagsDependency
    return TagsDependency(*tags)


def check_set(rep):
    rep.rule.add('stores through the tag interface in every calling convention, compared with the dependency interface '
                 'through what is stored; invalidations in every form, compared through what is deleted')
    from cache_dependencies.dependencies import CompositeDependency, DummyDependency
    for n in (0, 1, 2, 4):
        for timeout in (None, 5, 1000):
            for ver in VERSIONS:
                for how in ('tuple', 'list', 'set', 'fset', 'dep', 'comp', 'dummy', 'kw', 'none', 'mixed'):
                    tags = TAGS[:n]
                    arg = {'tuple': tuple(tags), 'list': list(tags), 'set': set(tags), 'fset': frozenset(tags),
                           'dep': dep(tags), 'comp': CompositeDependency(dep(tags[:1]), dep(tags[1:])),
                           'dummy': DummyDependency(), 'kw': tuple(tags), 'mixed': tuple(tags), 'none': ()}[how]
                    if how in ('dummy', 'none'):
                        tags = []
                    b = Backend()
                    s = Session(0, b)
                    if how == 'kw':
                        f = lambda c: c.set(key='k', value='v', tags=arg, timeout=timeout, version=ver)
                    elif how == 'mixed':
                        f = lambda c: c.set('k', 'v', arg, version=ver, timeout=timeout)
                    elif how == 'none':
                        f = lambda c: c.set('k', 'v', timeout=timeout, version=ver)
                    else:
                        f = lambda c: c.set('k', 'v', arg, timeout, ver)
                    k, e = s.do(f)
                    rep.case((n, timeout, ver, how))
                    info = dict(tags=tags, timeout=timeout, version=ver, how=how)
                    if not rep.check(k == 'ret', 'storing raised', error=e, **info):
                        continue
                    got = observe(b, ver, TAGS)
                    rep.check(got == ('v', 300 if timeout is None else timeout, set(tags)),
                              'not stored as the dependency interface does', got=got, **info)
                    rep.check({k[1] for k in b.data} == {1 if ver is None else ver}, 'stored in another version',
                              versions=sorted({k[1] for k in b.data}), **info)


def check_native(rep):
    """set(key, value, timeout, version)"""
    for timeout in (0.5, 7, 100, None):
        for ver in VERSIONS:
            for how in ('pos', 'kwversion', 'timeoutonly'):
                if timeout is None:
                    continue
                b = Backend()
                s = Session(0, b)
                if how == 'timeoutonly':
                    f = lambda c: c.set('k', 'v', timeout)
                    v = None
                elif how == 'pos':
                    if ver is None:
                        continue
                    f = lambda c: c.set('k', 'v', timeout, ver)
                    v = ver
                else:
                    f = lambda c: c.set('k', 'v', timeout, version=ver)
                    v = ver
                k, e = s.do(f)
                rep.case((timeout, ver, how))
                info = dict(timeout=timeout, version=ver, how=how)
                if rep.check(k == 'ret', 'the native calling convention raised', error=e, **info):
                    got = observe(b, v, TAGS)
                    rep.check(got == ('v', timeout, set()), 'not stored untagged with timeout and version', got=got, **info)
                    rep.check(len(b.data) == 1, 'more was stored', keys=list(b.data), **info)
    b = Backend()
    s = Session(0, b)
    s.run(lambda c: c.set('k', 'v', None, 2))
    rep.check(observe(b, 2, TAGS) == ('v', 300, set()), 'timeout None in the native convention', got=observe(b, 2, TAGS))


def check_invalidate(rep):
    from cache_dependencies.dependencies import CompositeDependency, DummyDependency
    for n in (0, 1, 2, 4):
        for ver in VERSIONS:
            for how in ('names', 'tuple', 'list', 'set', 'fset', 'dep', 'comp', 'dummy'):
                tags = TAGS[:n]
                args = {'names': tuple(tags), 'tuple': (tuple(tags),), 'list': (list(tags),), 'set': (set(tags),),
                        'fset': (frozenset(tags),), 'dep': (dep(tags),),
                        'comp': (CompositeDependency(dep(tags[:1]), dep(tags[1:])),), 'dummy': (DummyDependency(),)}[how]
                if how == 'dummy':
                    tags = []
                for intx in (False, True):
                    b = Backend()
                    s = Session(0, b)

                    def f(c):
                        if intx:
                            c.transaction.begin()
                        if ver is None:
                            c.invalidate_tags(*args)
                        else:
                            c.invalidate_tags(*args, version=ver)
                    k, e = s.do(f)
                    rep.case((n, ver, how, intx))
                    info = dict(tags=tags, version=ver, how=how, in_transaction=intx)
                    if not rep.check(k == 'ret', 'invalidating raised', error=e, **info):
                        continue
                    want = {('del', tag_keys(t)[0], 1 if ver is None else ver) for t in tags}
                    rep.check(set(b.ev) == want, 'not exactly the given tags were invalidated', got=sorted(b.ev), **info)
                    if intx:
                        m = len(b.ev)
                        s.run(lambda c: c.transaction.finish())
                        rep.check(set(b.ev[m:]) == want, 'the transaction recorded other tags', got=sorted(b.ev[m:]), **info)


def check_attributes(rep):
    """Every other attribute is that of the wrapped cache."""
    class B2(Backend):
        marker = 'from the backend'

        def special(self, x):
            return ('special', x)
    b = B2()
    s = Session(0, b)

    def f(c):
        c.add('added', 5, 100)
        c.set_many({'m1': 1, 'm2': 2}, 50)
        out = [c.marker, c.special(3), c.has_key('added'), c.has_key('zz'), 'added' in c, 'zz' in c,
               c.incr('m1'), b.raw('m2'), c.cache.cache is b]
        c.delete('added')
        out.append('added' in c)
        c.delete_many(['m1', 'm2'])
        out.append(b.raw('m1'))
        try:
            c.no_such_attribute
            out.append('no error')
        except AttributeError:
            out.append('AttributeError')
        return out
    k, r = s.do(f)
    rep.case('attributes')
    if rep.check(k == 'ret', 'a native operation raised', error=r):
        rep.check(r == ['from the backend', ('special', 3), True, False, True, False, 2, 2, True, False, None,
                        'AttributeError'], 'an attribute differs from that of the wrapped cache', got=r)

    def g(c):
        a = c.ignore_descendants, c.cache.ignore_descendants
        c.ignore_descendants = True
        b1 = c.ignore_descendants, c.cache.ignore_descendants
        c.cache.ignore_descendants = False
        return a, b1, c.ignore_descendants
    rep.check(s.run(g) == ((False, False), (True, True), False), 'ignore_descendants is not that of the wrapped cache',
              got=s.run(g))


def check_transaction_aliases(rep):
    for old, new in (('transaction_begin', 1), ('transaction_finish', -1), ('transaction_finish_all', 0)):
        s = Session(0, Backend())

        def depth(c):
            n, t = 0, c.transaction.current()
            while t:
                n, t = n + 1, t.parent()
            return n

        def f(c):
            for _ in range(3):
                c.transaction.begin()
            r = getattr(c, old)()
            return depth(c), r is c
        k, r = s.do(f)
        rep.case(old)
        rep.check(k == 'ret' and r == ({1: 4, -1: 2, 0: 0}[new], True), 'the deprecated transaction operation differs',
                  operation=old, result=r)


def check_reads_delegate(rep):
    """Reading through the front and through the wrapped cache gives the same."""
    b = Backend()
    s = Session(0, b)

    def f(c):
        c.set('a', 1, ['x'], 50, 2)
        c.set('b', 2, ['y'], 50, 2)
        c.invalidate_tags('y', version=2)
        return [(c.get(k, 'd', version=v), c.cache.get(k, 'd', version=v)) for k in 'abc' for v in (None, 2)] + \
            [(c.get_many(['a', 'b'], version=2), c.cache.get_many(['a', 'b'], version=2))]
    r = s.run(f)
    rep.case('reads')
    rep.check(all(x == y for x, y in r) and r[1][0] == 1 and r[-1][0] == {'a': 1}, 'the front reads differently', got=r)
