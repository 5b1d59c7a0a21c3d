"""C03: bulk reads agree with single reads."""
from replay.common import Backend, Session, make_cache, worker, advance
from replay.world import history, World, Diverged, TAGS, VERSIONS, KEYS

KINDS = {'bulk', 'exc'}


def check_histories(rep):
    rep.rule.add('random histories with bulk reads over lists, tuples, sets, iterators and generators, compared with '
                 'a reference model and with single reads of a copy; non-trivial: valid and invalid entries mixed')
    for _ in range(300 * rep.scale):
        history(rep, KINDS, {'frag': 3, 'set': 4, 'many': 5, 'inv': 3, 'adv': 1}, ends=False)


def check_against_single(rep):
    """Mixed states: every key missing, untagged, tagged and valid, tagged and invalid, or stored natively."""
    rng = rep.rng
    from cache_dependencies.dependencies import TagsDependency, CompositeDependency, DummyDependency
    for n in range(150 * rep.scale):
        b = Backend()
        s = Session(0, b)
        ver = rng.choice(VERSIONS)
        states = {}
        n = rng.randrange(0, 7)
        for k in ['x%d' % i for i in range(n)]:
            st = rng.choice(['missing', 'untagged', 'valid', 'invalid', 'native', 'shared', 'othver', 'nested', 'expired'])
            states[k] = st
            v = rng.choice([('v', k), ('v', k), ('v', k), 0, '', {}, [], False, {'__value': 1}, {'__dependency': 1}])
            if st == 'untagged':
                s.run(lambda c: c.set(k, v, (), None, ver))
            elif st == 'valid':
                s.run(lambda c: c.set(k, v, rng.sample(['g1', 'g2', 'g3'], 2), None, ver))
            elif st == 'shared':
                s.run(lambda c: c.set(k, v, ['shared'], None, ver))
            elif st == 'invalid':
                s.run(lambda c: c.set(k, v, ['bad', rng.choice(['g1', 'g2'])], None, ver))
            elif st == 'native':
                b._set(k, v, None, ver)
            elif st == 'othver':
                s.run(lambda c: c.set(k, v, ['g1'], None, 9))
            elif st == 'nested':
                dep = CompositeDependency(TagsDependency('g1'), CompositeDependency(TagsDependency(
                    rng.choice(['g2', 'bad'])), DummyDependency()))
                s.run(lambda c: c.set(k, v, dep, None, ver))
            elif st == 'expired':
                s.run(lambda c: c.set(k, v, ['g1'], 1, ver))
        advance(2)
        s.run(lambda c: c.invalidate_tags('bad', version=ver))
        keys = list(states) + ['absent']
        rng.shuffle(keys)
        kind = rng.choice([list, tuple, iter, set, lambda k: (q for q in k), lambda k: dict.fromkeys(k)])
        singles = worker(7).do(lambda: {k: v for k, v in [
            (k, make_cache(b).get(k, 'NO', ver)) for k in keys] if v != 'NO'})[1]
        bulk = s.run(lambda c: c.get_many(kind(keys), version=ver))
        rep.case((tuple(sorted(states.items())), ver))
        rep.check(bulk == singles, 'a bulk read differs from single reads', states=states, version=ver, bulk=bulk,
                  single=singles)
        # enclosing fragment inherits exactly the tags of the returned entries
        enclosing(rep, b, states, keys, ver, kind, singles)


def enclosing(rep, b, states, keys, ver, kind, singles):
    tags = ['g1', 'g2', 'g3', 'bad', 'shared', 'own']

    def store(reader):
        bb = b.clone()

        def f():
            c = make_cache(bb)
            c.get('outer', None, ver)
            reader(c)
            c.set('outer', 1, ['own'], None, ver)
        k, v = worker(7).do(f)
        if k == 'exc':
            raise v
        deps = set()
        for t in tags:
            b2 = bb.clone()

            def g():
                c = make_cache(b2)
                c.invalidate_tags(t, version=ver)
                return c.get('outer', None, ver, True)
            if worker(7).do(g)[1] is None:
                deps.add(t)
        return deps
    bulk = store(lambda c: c.get_many(kind(keys), version=ver))
    single = store(lambda c: [c.get(k, None, ver) for k in sorted(singles)])
    rep.check(bulk == single, 'the enclosing fragment inherits other tags from a bulk read than from single reads',
              states=states, version=ver, bulk=sorted(bulk), single=sorted(single))


def check_empty(rep):
    s = Session(0, Backend())
    for keys in ([], (), set(), iter(()), {}):
        rep.case(repr(type(keys)))
        rep.check(s.run(lambda c: c.get_many(keys)) == {}, 'a bulk read of nothing returned something')


def check_many(rep):
    """Many keys in one bulk read: the same as single reads."""
    for n in (64, 101, 530):
        b = Backend()
        s = Session(0, b)
        keys = ['m%d' % i for i in range(n)]

        def f(c):
            for i, k in enumerate(keys):
                if i % 7:
                    c.set(k, ('v', i), ['t%d' % (i % 50)] if i % 3 else ())
            c.invalidate_tags('t4', 't20')
        s.run(f)
        single = {}
        for k in keys:
            v = s.run(lambda c: c.get(k, abort=True))
            if v is not None:
                single[k] = v
        for abort in (True, False):
            got = s.run(lambda c: c.get_many(keys, abort=abort))
            rep.case((n, abort))
            rep.check(got == single, 'a bulk read of many keys differs from single reads', keys=n, abort=abort,
                      differing=[k for k in keys if got.get(k) != single.get(k)][:5])
            s.run(lambda c: c.close())
