"""C04: enclosing fragments inherit the tags of nested fragments."""
from replay.common import Backend, Session, worker, make_cache, advance
from replay.world import history, World, Diverged, TAGS, VERSIONS, LEVELS, LOCKING

KINDS = {'inherit', 'own'}


def check_histories(rep):
    rep.rule.add('random nestings of fragments (opened by missed reads; nested ones read or stored, singly or in bulk, '
                 'aborted or left unfinished), the tags of every stored entry observed by invalidating each tag in a '
                 'copy of the backend; non-trivial: an entry has inherited tags')
    for _ in range(300 * rep.scale):
        history(rep, KINDS, {'frag': 8, 'set': 1, 'inv': 2, 'many': 1}, sessions=1, steps=15, ends=False)


def check_locked_histories(rep):
    for _ in range(150 * rep.scale):
        history(rep, KINDS, {'frag': 6, 'inv': 2, 'begin': 2, 'finish': 1, 'adv': 1}, isolations=LOCKING, delays=(0, 1),
                steps=18, ends=False)


def check_depth(rep):
    """Chains of nested fragments of any depth; the innermost read or stored, under every version."""
    for depth in (2, 3, 5, 9):
        for ver in VERSIONS:
            for mode in ('store', 'read', 'bulk', 'refused', 'native'):
                for left in (False, True):
                    chain(rep, depth, ver, mode, left)


def chain(rep, depth, ver, mode, left):
    b = Backend()
    level = 'REPEATABLE READ' if mode == 'refused' else 'READ COMMITTED'
    s = Session(0, b, level)
    o = Session(1, b, level)
    if mode in ('read', 'bulk'):
        o.run(lambda c: c.set('leaf', 1, ['t-leaf'], None, ver))
    elif mode == 'refused':
        o.run(lambda c: c.transaction.begin() and None)
        o.run(lambda c: c.invalidate_tags('t-leaf', version=ver))

    def f(c):
        if left:          # fragments opened earlier and never finished
            for i in range(depth):
                c.get('n%d' % i, None, ver)
            c.get('other', None, ver)
        for i in range(depth):
            c.get('n%d' % i, None, ver)
        if mode in ('store', 'refused'):
            c.get('leaf', None, ver)
            c.set('leaf', 1, ['t-leaf'], None, ver)
        elif mode == 'native':
            c.set('leaf', 1, ['t-leaf'], None, ver)       # stored without a preceding read
        elif mode == 'read':
            c.get('leaf', None, ver)
        elif mode == 'bulk':
            c.get_many(['leaf', 'nothing'], ver)
        if mode == 'refused':
            return
        for i in reversed(range(depth)):
            c.set('n%d' % i, i, ['t%d' % i], None, ver)
    s.run(f)
    if mode == 'refused':
        rep.check(s.run(lambda c: c.get('leaf', None, ver, True)) is None, 'setup: the leaf was stored')
        o.run(lambda c: c.transaction.finish())
        advance(20)

        def g(c):
            for i in reversed(range(depth)):
                c.set('n%d' % i, i, ['t%d' % i], None, ver)
        s.run(g)
    for i in range(depth):
        want = {'t%d' % j for j in range(i, depth)} | {'t-leaf'}
        got = set()
        for t in sorted({'t%d' % j for j in range(depth)} | {'t-leaf'}):
            bb = b.clone()

            def h():
                c = make_cache(bb)
                c.invalidate_tags(t, version=ver)
                return c.get('n%d' % i, None, ver, True)
            if worker(7).do(h)[1] is None:
                got.add(t)
        rep.case((depth, ver, mode, left, i))
        rep.check(want <= got, 'an enclosing fragment does not depend on the tags of a nested one', depth=depth,
                  version=ver, mode=mode, unfinished_before=left, fragment='n%d' % i, missing=sorted(want - got))


def check_many(rep):
    """A deep chain, and an open fragment around many other fragments, finished and unfinished."""
    for mode in ('store', 'read'):
        chain(rep, 45, 2, mode, False)
    for mode in ('stored', 'read', 'unfinished'):
        b = Backend()
        s = Session(0, b)
        n = 120 if mode == 'unfinished' else 400

        def f(c):
            if mode == 'read':
                for i in range(n):
                    c.set('s%d' % i, 1, ['s-tag%d' % i])
                c.close()
            c.get('outer')
            c.get('inner')
            for i in range(n):
                c.get('s%d' % i)
                if mode == 'stored':
                    c.set('s%d' % i, 1, ['s-tag%d' % i])
            for i in range(n):
                if mode == 'unfinished':
                    c.set('s%d' % (n - 1 - i), 1, ['s-tag%d' % (n - 1 - i)])
            c.set('inner', 1, ['inner-tag'])
            c.set('outer', 1, ['outer-tag'])
        s.run(f)
        for key in ('inner', 'outer'):
            for t in ['s-tag0', 's-tag1', 's-tag43', 's-tag%d' % (n // 2), 's-tag%d' % (n - 1), 'inner-tag'] + ['outer-tag'] * (key == 'outer'):
                def h():
                    c = make_cache(b.clone())
                    c.invalidate_tags(t)
                    return c.get(key, abort=True)
                rep.case((mode, key, t))
                rep.check(worker(7).do(h) == ('ret', None), 'an enclosing fragment does not depend on the tags of a nested one',
                          fragment=key, tag=t, mode=mode)
