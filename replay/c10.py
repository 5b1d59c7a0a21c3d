"""C10: a composite dependency behaves as the union of its parts."""
from replay.common import Backend, Session, advance, clock
from replay.world import TAGS, VERSIONS, tag_keys


class Tx(object):
    """A transaction seen by a dependency."""

    def __init__(self, session='s', start=None, end=None):
        self.session = session
        self.start, self.end = (clock.now if start is None else start), (clock.now if end is None else end)

    def get_session_id(self):
        return self.session

    def get_start_time(self):
        return self.start

    def get_end_time(self):
        return self.end


def probe_class():
    from cache_dependencies import interfaces, exceptions, defer

    class Probe(interfaces.IDependency):
        """A part that records its calls and is locked or invalid as told."""

        def __init__(self, name, log, locked=False, invalid=False, kind='plain'):
            self.name, self.log, self.locked, self.invalid, self.kind = name, log, locked, invalid, kind

        def evaluate(self, cache, transaction, version):
            self.log.append((self.name, 'evaluate', cache, transaction, version))
            if self.locked:
                raise exceptions.DependencyLocked(self, [self.name])

        def validate(self, cache, version):
            self.log.append((self.name, 'validate', cache, version))
            if self.kind == 'bulk':
                d = defer.Deferred(cache.get_many, defer.GetManyDeferredIterator, version)
                d.add_callback(self._bulk, [self.name])
            else:
                d = defer.Deferred(None, defer.NoneDeferredIterator)
                d.add_callback(self._none)
            return d

        def _bulk(self, node, caches, keys):
            self.log.append((self.name, 'caches', dict(caches)))
            self._none()

        def _none(self, *a, **k):
            self.log.append((self.name, 'done'))
            if self.invalid:
                raise exceptions.DependencyInvalid(self, [self.name])

        def invalidate(self, cache, version):
            self.log.append((self.name, 'invalidate', cache, version))

        def acquire(self, cache, transaction, version):
            self.log.append((self.name, 'acquire', cache, transaction, version))

        def release(self, cache, transaction, delay, version):
            self.log.append((self.name, 'release', cache, transaction, delay, version))

        def extend(self, other):
            return False
    return Probe


def check_delegation(rep):
    rep.rule.add('composites of 0 to 6 parts, some of them composites or locked/invalid, against the parts themselves; '
                 'non-trivial: at least one part fails and one does not')
    from cache_dependencies.dependencies import CompositeDependency
    from cache_dependencies import exceptions
    Probe = probe_class()
    rng = rep.rng
    for _ in range(300 * rep.scale):
        log = []
        n = rng.randrange(0, 7)
        parts = [Probe('p%d' % i, log, rng.random() < .4, rng.random() < .4, rng.choice(['plain', 'bulk']))
                 for i in range(n)]
        comp = CompositeDependency(*parts)
        b = Backend()
        for p in parts:
            if rng.random() < .6:
                b._set(p.name, 'v' + p.name, None, 2)
        tx, ver = Tx(), rng.choice([2, 3, None])
        locked = [p for p in parts if p.locked]
        invalid = [p for p in parts if p.invalid]
        rep.case(tuple((p.locked, p.invalid, p.kind) for p in parts))
        info = dict(parts=[(p.name, 'locked' if p.locked else '', 'invalid' if p.invalid else '', p.kind) for p in parts])

        def attempt(f):
            try:
                f()
            except exceptions.DependencyLocked as e:
                return e
            except exceptions.DependencyInvalid as e:
                return e
        e = attempt(lambda: comp.evaluate(b, tx, ver))
        rep.check([x[0] for x in log] == [p.name for p in parts] and
                  all(x[1:] == ('evaluate', b, tx, ver) for x in log), 'not every part was evaluated once', log=log, **info)
        cmp_error(rep, e, exceptions.DependencyLocked, comp, locked, 'items', info)
        del log[:]
        d = comp.validate(b, ver)
        rep.check(sorted(x[0] for x in log if x[1] == 'validate') == sorted(p.name for p in parts) and
                  all(x[2:] == (b, ver) for x in log if x[1] == 'validate'), 'not every part is validated', log=log, **info)
        e = attempt(lambda: d.get())
        rep.check(sorted(x[0] for x in log if x[1] == 'done') == sorted(p.name for p in parts),
                  'not every part is processed once', log=log, **info)
        for x in log:
            if x[1] == 'caches':
                have = b.raw(x[0], ver)
                rep.check(x[2] == ({} if have is None else {x[0]: have}), 'a part saw other backend entries', log=log, **info)
        cmp_error(rep, e, exceptions.DependencyInvalid, comp, invalid, 'errors', info)
        for op, args in (('invalidate', (b, ver)), ('acquire', (b, tx, ver)), ('release', (b, tx, 4, ver))):
            del log[:]
            getattr(comp, op)(*args)
            rep.check(sorted(log, key=lambda x: x[0]) == [(p.name, op) + args for p in parts],
                      'wrong calls of the parts in %s' % op, log=log, **info)


def cmp_error(rep, e, cls, comp, failing, attr, info):
    if not failing:
        return rep.check(e is None, 'an error although no part fails', error=e, **info)
    if not rep.check(isinstance(e, cls), 'no error although a part fails', error=e, **info):
        return
    rep.check(e.dependency is comp, 'the error names another dependency', **info)
    kids = list(e)
    rep.check(sorted(k.dependency.name for k in kids) == sorted(p.name for p in failing),
              'the error does not name exactly the failing parts', got=[k.dependency.name for k in kids], **info)
    rep.check(sorted(getattr(e, attr)) == sorted(p.name for p in failing),
              'the error does not name exactly the failing items', got=list(getattr(e, attr)), **info)


def check_tags(rep):
    """Composites of tag dependencies against a flat tag dependency over the same backend."""
    from cache_dependencies.dependencies import CompositeDependency, TagsDependency, DummyDependency
    from cache_dependencies import exceptions
    rng = rep.rng
    for _ in range(200 * rep.scale):
        ver = rng.choice(VERSIONS)
        universe = rng.sample(TAGS, rng.randrange(1, 6))

        def build(depth):
            parts = []
            for _ in range(rng.randrange(0, 4)):
                r = rng.random()
                if r < .6:
                    parts.append(TagsDependency(*rng.sample(universe, rng.randrange(0, len(universe) + 1))))
                elif r < .75:
                    parts.append(DummyDependency())
                elif depth:
                    parts.append(build(depth - 1))
            return CompositeDependency(*parts)

        def flat(d):
            if isinstance(d, CompositeDependency):
                return set().union(*[flat(x) for x in d.delegates]) if d.delegates else set()
            return set(getattr(d, 'tags', ()))

        def leaves(d):
            if isinstance(d, CompositeDependency):
                return [y for x in d.delegates for y in leaves(x)]
            return [d]

        def shape(d):
            if isinstance(d, CompositeDependency):
                return tuple(shape(x) for x in d.delegates)
            return tuple(sorted(getattr(d, 'tags', ('dummy',))))
        comp = build(2)
        tags = flat(comp)
        b = Backend()
        rep.case((shape(comp), ver))
        info = dict(shape=shape(comp), version=ver)
        # locks
        other = Tx('other')
        held = set(rng.sample(universe, rng.randrange(0, len(universe) + 1)) if rng.random() < .5 else [])
        if held:
            TagsDependency(*held).acquire(b, other, ver)
        err = None
        try:
            comp.evaluate(b, Tx('me'), ver)
        except exceptions.DependencyLocked as e:
            err = e
        if tags & held:
            rep.check(err is not None and set(err.items) == tags & held, 'wrong locked tags', held=sorted(held),
                      error=err, **info)
            continue
        rep.check(err is None, 'locked although no part is', held=sorted(held), **info)
        b2 = Backend()
        comp.evaluate(b2, Tx('me'), ver)
        # all version records exist, each leaf recorded its own
        for t in tags:
            rep.check(b2.raw(tag_keys(t)[0], ver) is not None, 'no version record was made', tag=t, **info)
        bad = set(rng.sample(universe, rng.randrange(0, len(universe) + 1)) if rng.random() < .6 else [])
        for t in bad:
            b2.delete(tag_keys(t)[0], ver)
        n = len(b2.log)
        d = comp.validate(b2, ver)
        rep.check(len(b2.log) == n, 'validation reads before its result is asked for', **info)
        err = None
        try:
            d.get()
        except exceptions.DependencyInvalid as e:
            err = e
        if tags & bad:
            rep.check(err is not None and set(err.errors) == tags & bad, 'wrong invalid tags', bad=sorted(bad),
                      error=err and list(err.errors), **info)
            if err is not None:
                failing = [x for x in comp.delegates if flat(x) & bad]
                got = [x.dependency for x in err]
                rep.check(len(got) == len(failing) and all(any(a is g for g in got) for a in failing),
                          'the error does not name exactly the failing parts', bad=sorted(bad), **info)
        else:
            rep.check(err is None, 'invalid although no part is', bad=sorted(bad), error=err, **info)
        # invalidate, acquire, release: effect of all tags
        for op in ('invalidate', 'acquire', 'release'):
            x, y = Backend(), Backend()
            for t in TAGS:
                for q in (x, y):
                    q._set(tag_keys(t)[0], 1, None, ver)
            me = Tx('me')
            if op == 'invalidate':
                comp.invalidate(x, ver)
                TagsDependency(*tags).invalidate(y, ver)
            elif op == 'acquire':
                comp.acquire(x, me, ver)
                TagsDependency(*tags).acquire(y, me, ver)
            else:
                comp.release(x, me, 3, ver)
                TagsDependency(*tags).release(y, me, 3, ver)
            rep.check(x.data == y.data, 'another effect than that of the parts in %s' % op, **info)


def check_many(rep):
    """Nothing in the union is dropped when there are many parts, or many tags in one part."""
    from cache_dependencies.dependencies import CompositeDependency, TagsDependency
    from cache_dependencies import exceptions
    Probe = probe_class()
    n = 1300
    log, b, tx = [], Backend(), Tx()
    names = ['p%d' % i for i in range(n)]
    comp = CompositeDependency(*[Probe(x, log) for x in names])
    comp.evaluate(b, tx, 2)
    comp.validate(b, 2).get()
    comp.invalidate(b, 2)
    comp.acquire(b, tx, 2)
    comp.release(b, tx, 4, 2)
    rep.case('parts')
    for op in ('evaluate', 'validate', 'done', 'invalidate', 'acquire', 'release'):
        got = sorted(x[0] for x in log if x[1] == op)
        rep.check(got == sorted(names), 'a part of many was left out or repeated', operation=op, parts=n, calls=len(got))
    b = Backend()
    dep = TagsDependency(*names)
    dep.evaluate(b, tx, 2)
    rep.case('tags')
    rep.check(all(b.raw(tag_keys(t)[0], 2) is not None for t in names), 'a tag of many got no version', tags=n)
    for t in (names[0], names[99], names[777], names[-1]):
        held = Backend()
        TagsDependency(t).acquire(held, Tx('other'), 2)
        try:
            TagsDependency(*names).evaluate(held, Tx('me'), 2)
            rep.fail('a locked tag of many was not seen', tag=t)
        except exceptions.DependencyLocked as e:
            rep.check(list(e.items) == [t], 'wrong locked tags', tag=t, got=list(e.items))
        gone = b.raw(tag_keys(t)[0], 2)
        b.delete(tag_keys(t)[0], 2)
        try:
            dep.validate(b, 2).get()
            rep.fail('an invalid tag of many was not seen', tag=t)
        except exceptions.DependencyInvalid as e:
            rep.check(list(e.errors) == [t], 'wrong invalid tags', tag=t, got=list(e.errors))
        b._set(tag_keys(t)[0], gone, None, 2)
    x = Backend()
    dep.acquire(x, tx, 2)
    dep.release(x, tx, 3, 2)
    dep.invalidate(b, 2)
    for t in names:
        rep.check(b.raw(tag_keys(t)[0], 2) is None, 'a tag of many was not invalidated', tag=t, tags=n)
        rep.check(x.raw(tag_keys(t)[1], 2) is not None and x.raw(tag_keys(t)[2], 2) is not None,
                  'a tag of many has no lock record', tag=t, tags=n)
