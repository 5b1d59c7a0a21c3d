"""C11: combining dependencies never alters or aliases the arguments."""
import copy
from replay.common import Backend, Session, advance, clock
from replay.c10 import Tx
from replay.world import TAGS, VERSIONS


def build(rng, depth=2):
    from cache_dependencies.dependencies import CompositeDependency, TagsDependency, DummyDependency
    r = rng.random()
    if r < .55 or not depth:
        d = TagsDependency(*rng.sample(TAGS, rng.randrange(0, 4)))
        for t in list(d.tags):
            if rng.random() < .6:
                d.tag_versions[t] = 'v-' + t
        return d
    if r < .7:
        return DummyDependency()
    return CompositeDependency(*[build(rng, depth - 1) for _ in range(rng.randrange(0, 4))])


def state(d):
    """Tags and recorded versions, recursively."""
    from cache_dependencies.dependencies import CompositeDependency, TagsDependency
    if isinstance(d, CompositeDependency):
        return ('composite', tuple(state(x) for x in d.delegates))
    if isinstance(d, TagsDependency):
        return ('tags', frozenset(d.tags), frozenset(d.tag_versions.items()))
    return ('dummy',)


def content(d):
    from cache_dependencies.dependencies import CompositeDependency, TagsDependency
    if isinstance(d, CompositeDependency):
        ts, vs = set(), set()
        for x in d.delegates:
            a, b = content(x)
            ts |= a
            vs |= b
        return ts, vs
    if isinstance(d, TagsDependency):
        return set(d.tags), set(d.tag_versions.items())
    return set(), set()


def mutate(d, rng):
    """Changes everything reachable from a dependency."""
    from cache_dependencies.dependencies import CompositeDependency, TagsDependency, DummyDependency
    if isinstance(d, CompositeDependency):
        for x in list(d.delegates):
            mutate(x, rng)
        d.delegates.append(TagsDependency('mutated'))
        if rng.random() < .5:
            d.extend(TagsDependency('mutated2'))
    elif isinstance(d, TagsDependency):
        d.tags.add('mutated')
        d.tag_versions['mutated'] = 'm'
        for t in list(d.tag_versions):
            d.tag_versions[t] = 'changed'


def check_extend(rep):
    rep.rule.add('random dependencies (nested composites, tags with recorded versions, dummies), extended and copied, '
                 'then either side mutated everywhere; non-trivial: both sides have tags')
    from cache_dependencies.dependencies import CompositeDependency, TagsDependency
    rng = rep.rng
    for _ in range(500 * rep.scale):
        base = CompositeDependency()
        others = [build(rng) for _ in range(rng.randrange(1, 4))]
        tags, vers = set(), {}
        for o in others:
            before = state(o)
            r = base.extend(o)
            t, v = content(o)
            tags |= t
            rep.check(state(o) == before, 'extending changed the argument', argument=before, after=state(o))
            got = content(base)
            rep.check(got[0] == tags, 'wrong tags after extending', expected=sorted(tags), got=sorted(got[0]),
                      others=[state(x) for x in others])
            rep.check(v <= got[1], 'a recorded version was lost', argument=before, got=state(base))
            rep.check(got[1] <= set().union(*[content(x)[1] for x in others]), 'recorded versions were invented',
                      got=state(base))
            rep.check(bool(r), 'extending a composite reports failure')
        rep.case(tuple(state(o) for o in others))
        if rng.random() < .5:
            before = state(base)
            for o in others:
                mutate(o, rng)
            rep.check(state(base) == before, 'a combined dependency shares state with an argument', before=before,
                      after=state(base))
        else:
            before = [state(o) for o in others]
            mutate(base, rng)
            base.extend(TagsDependency('later'))
            rep.check([state(o) for o in others] == before, 'an argument shares state with the combined dependency',
                      before=before, after=[state(o) for o in others])


def check_tags_extend(rep):
    from cache_dependencies.dependencies import CompositeDependency, TagsDependency, DummyDependency
    rng = rep.rng
    for _ in range(200 * rep.scale):
        a, o = TagsDependency(*rng.sample(TAGS, rng.randrange(4))), build(rng, 1)
        for t in list(a.tags):
            a.tag_versions[t] = 'av'
        b0, o0 = state(a), state(o)
        r = a.extend(o)
        rep.case((b0, o0))
        rep.check(state(o) == o0, 'extending changed the argument', argument=o0)
        if isinstance(o, TagsDependency):
            vers = dict(b0[2])
            vers.update(dict(o0[2]))
            rep.check(r is True and a.tags == set(b0[1]) | set(o0[1]) and a.tag_versions == vers,
                      'wrong result of extending', before=b0, argument=o0, after=state(a), returned=r)
            x = state(a)
            mutate(o, rng)
            rep.check(state(a) == x, 'extended tags share state with the argument', argument=o0)
        else:
            rep.check(not r and state(a) == b0, 'extended with a foreign dependency', argument=o0, after=state(a))
        d = DummyDependency()
        rep.check(bool(d.extend(o)) == isinstance(o, DummyDependency), 'a dummy took over a dependency', argument=o0)


def check_copy(rep):
    rng = rep.rng
    for _ in range(300 * rep.scale):
        d = build(rng)
        before = state(d)
        c = copy.copy(d)
        rep.case(before)
        rep.check(type(c) is type(d) and state(c) == before and state(d) == before, 'a copy differs', before=before,
                  copy=state(c))
        x, y = (d, c) if rng.random() < .5 else (c, d)
        mutate(x, rng)
        rep.check(state(y) == before, 'a copy shares state with the original', before=before, after=state(y))


def check_constructor(rep):
    """Constructing from collections does not alias them."""
    from cache_dependencies.dependencies import TagsDependency
    for mk in (list, tuple, set, frozenset):
        src = mk(['a', 'b'])
        d = TagsDependency(src)
        rep.case(mk.__name__)
        rep.check(d.tags == {'a', 'b'}, 'wrong tags', tags=d.tags)
        d.tags.add('c')
        rep.check(sorted(src) == ['a', 'b'], 'the collection was changed')
        e = TagsDependency(*src)
        rep.check(e.tags == {'a', 'b'}, 'wrong tags', tags=e.tags)


def check_cache_operations(rep):
    """Dependencies passed to the cache are not changed by it, and changing them later does not change what was recorded."""
    from cache_dependencies.dependencies import CompositeDependency, TagsDependency
    rng = rep.rng
    for _ in range(150 * rep.scale):
        b = Backend()
        level = rng.choice(['READ COMMITTED', 'REPEATABLE READ'])
        s = Session(0, b, level)
        d = TagsDependency('a', 'b') if rng.random() < .5 else CompositeDependency(TagsDependency('a'), TagsDependency('b'))
        passed = rng.choice(['store', 'invalidate', 'fragment'])
        before = [sorted(content(d)[0])]
        tags0 = content(d)[0]
        hist = [passed]
        nested = rng.random() < .5

        def f(c):
            if passed == 'store':
                c.get('outer')
                c.set('k', 1, d)
                if nested:
                    c.set('k9', 1, ['z'])
                c.set('outer', 2, ['o'])
            elif passed == 'invalidate':
                c.transaction.begin()
                if nested:
                    c.transaction.begin()
                    c.invalidate_tags('first')
                c.invalidate_tags(d)
                c.invalidate_tags('other')
                c.invalidate_tags(TagsDependency('more'))
            else:
                c.get('outer')
                c.get('inner')
                c.finish('inner', d)
                c.set('z', 1, ['z'])
                c.get('inner2')
                c.finish('inner2', TagsDependency('w'))
        s.run(f)
        rep.case((passed, type(d).__name__, nested, level))
        rep.check(content(d)[0] == tags0, 'a dependency passed to the cache was changed', operation=passed,
                  before=sorted(tags0), after=sorted(content(d)[0]))
        mutate(d, rng)
        if isinstance(d, TagsDependency):
            d.tags.discard('a')
        else:
            del d.delegates[:]
        if passed == 'store':
            for t, gone in (('mutated', False), ('a', True)):
                s2 = Session(1, b)
                s2.run(lambda c: c.invalidate_tags(t))
                got = s2.run(lambda c: (c.get('k', None, None, True), c.get('outer', None, None, True)))
                rep.check(got == ((None, None) if gone else (1, 2)), 'changing a dependency later changed a stored entry',
                          tag=t, got=got)
        elif passed == 'invalidate':
            n = len(b.ev)
            s.run(lambda c: c.transaction.flush())
            from replay.world import tag_keys
            i = 0 if level == 'READ COMMITTED' else 2
            got = {e[1] for e in b.ev[n:]}
            want = {tag_keys(t)[i] for t in ['a', 'b', 'other', 'more'] + (['first'] if nested else [])}
            rep.check(got == want, 'changing a dependency later changed what the transaction releases', level=level)
        else:
            s.run(lambda c: c.set('outer', 2, ['o']))
            for t, gone in (('mutated', False), ('a', True)):
                s2 = Session(1, b)
                s2.run(lambda c: c.invalidate_tags(t))
                got = s2.run(lambda c: c.get('outer', None, None, True))
                rep.check(got == (None if gone else 2), 'changing a dependency later changed the tags of an open fragment',
                          tag=t, got=got)
