"""C05: tag attribution is scoped to the open fragments."""
from replay.common import Backend, Session, worker, make_cache
from replay.world import history, World, Diverged, TAGS, VERSIONS, LEVELS, LOCKING

KINDS = {'scope'}


def deps(b, key, ver, tags):
    out = set()
    for t in tags:
        bb = b.clone()

        def h():
            c = make_cache(bb)
            if c.get(key, None, ver, True) is None:
                return 'unreadable'
            c.invalidate_tags(t, version=ver)
            return c.get(key, None, ver, True)
        r = worker(7).do(h)[1]
        if r == 'unreadable':
            return None
        if r is None:
            out.add(t)
    return out


def check_histories(rep):
    rep.rule.add('random nestings of fragments as in C04; the tags of every stored entry must not exceed those of the '
                 'fragments nested in it; non-trivial: siblings or aborted fragments carry other tags')
    for _ in range(350 * rep.scale):
        history(rep, KINDS, {'frag': 8, 'set': 2, 'inv': 1, 'many': 2, 'get': 1, 'close': 1}, sessions=2, steps=18,
                ends=False)


def check_script(rep):
    """Scripts with siblings, aborts, opting out, switching off and closing."""
    for ver in VERSIONS:
        other = 7

        def case(name, script, want):
            b = Backend()
            s = Session(0, b)
            s.run(lambda c: c.set('stored', 1, ['r'], None, ver))
            s.run(lambda c: c.set('stored', 1, ['ro'], None, other))
            s.run(script)
            rep.case((name, ver))
            for key, tags in want.items():
                got = deps(b, key, ver, ['a', 'b', 'c', 'd', 'r', 'ro', 'x'])
                rep.check(got == tags, 'wrong tags: ' + name, version=ver, key=key, expected=sorted(tags),
                          got=got and sorted(got))

        def siblings(c):
            c.get('p', None, ver)
            c.get('a', None, ver)
            c.set('a', 1, ['a'], None, ver)
            c.get('b', None, ver)
            c.set('b', 1, ['b'], None, ver)
            c.set('p', 1, ['c'], None, ver)
        case('siblings', siblings, {'a': {'a'}, 'b': {'b'}, 'p': {'a', 'b', 'c'}})

        def finished(c):
            c.get('p', None, ver)
            c.set('p', 1, ['c'], None, ver)
            c.get('a', None, ver)
            c.set('a', 1, ['a'], None, ver)
            c.get('q', None, ver)
            c.set('q', 1, ['d'], None, ver)
        case('after a finished one', finished, {'p': {'c'}, 'a': {'a'}, 'q': {'d'}})

        def aborted(c):
            c.get('p', None, ver)
            c.get('a', None, ver)
            c.get('stored', None, ver)
            c.abort('a')
            c.get('b', None, ver)
            c.set('b', 1, ['b'], None, ver)
            c.set('p', 1, ['c'], None, ver)
            c.get('a', None, ver)
            c.set('a', 1, ['a'], None, ver)
        case('aborted', aborted, {'b': {'b'}, 'p': {'b', 'c', 'r'}, 'a': {'a'}})

        def abort_inner(c):
            c.get('p', None, ver)
            c.get('a', None, ver)
            c.abort('a')
            c.get('stored', None, ver)
            c.get('b', None, ver)
            c.set('b', 1, ['b'], None, ver)
            c.set('p', 1, ['c'], None, ver)
        case('inner aborted', abort_inner, {'b': {'b'}, 'p': {'b', 'c', 'r'}})

        def optout(c):
            c.get('p', None, ver)
            c.get('a', None, ver, True)
            c.get_many(['b', 'd'], ver, True)
            c.set('x', 1, ['x'], None, ver)
            c.set('p', 1, ['c'], None, ver)
            c.get('a', None, ver)
            c.set('a', 1, ['a'], None, ver)
        case('opting out', optout, {'p': {'c', 'x'}, 'x': {'x'}, 'a': {'a'}})

        def optout2(c):
            c.get('a', None, ver, True)
            c.get('p', None, ver)
            c.get('q', None, ver, abort=True)
            c.set('b', 1, ['b'], None, ver)
            c.set('q', 1, ['d'], None, ver)
            c.set('p', 1, ['c'], None, ver)
            c.set('a', 1, ['a'], None, ver)
        case('opting out opens nothing', optout2, {'q': {'d'}, 'p': {'b', 'c', 'd'}, 'a': {'a'}})

        def off(c):
            c.ignore_descendants = True
            c.get('p', None, ver)
            c.get('a', None, ver)
            c.set('a', 1, ['a'], None, ver)
            c.get_many(['b'], ver)
            c.set('b', 1, ['b'], None, ver)
            c.set('p', 1, ['c'], None, ver)
        case('inheritance switched off', off, {'a': {'a'}, 'p': {'c'}, 'b': {'b'}})

        def closed(c):
            c.get('p', None, ver)
            c.get('a', None, ver)
            c.set('b', 1, ['b'], None, ver)
            c.close()
            c.set('x', 1, ['x'], None, ver)
            c.set('a', 1, ['a'], None, ver)
            c.set('p', 1, ['c'], None, ver)
        case('closed', closed, {'x': {'x'}, 'a': {'a'}, 'p': {'c'}})

        def versions(c):
            c.get('p', None, ver)
            c.get('stored', None, other)
            c.set('y', 1, ['x'], None, other)
            c.set('p', 1, ['c'], None, ver)
        case('across versions', versions, {'p': {'c'}})

        def downward(c):
            c.get('p', None, ver)
            c.get('stored', None, ver)
            c.get('a', None, ver)
            c.set('a', 1, ['a'], None, ver)
            c.get_many(['b', 'd'], ver)
            c.set('b', 1, ['b'], None, ver)
            c.set('d', 1, ['d'], None, ver)
            c.set('p', 1, ['c'], None, ver)
        case('downward', downward, {'a': {'a'}, 'b': {'b'}, 'd': {'d'}, 'p': {'a', 'b', 'c', 'd', 'r'}})

        def bulk_siblings(c):
            c.get('p', None, ver)
            c.get_many(['a', 'b'], ver)
            c.get('q', None, ver)
            c.set('q', 1, ['d'], None, ver)
            c.set('b', 1, ['b'], None, ver)
            c.set('a', 1, ['a'], None, ver)
            c.set('p', 1, ['c'], None, ver)
        case('bulk siblings', bulk_siblings, {'a': {'a'}, 'b': {'b'}, 'q': {'d'}, 'p': {'a', 'b', 'c', 'd'}})

        def unfinished(c):
            c.get('p', None, ver)
            c.get('a', None, ver)
            c.set('x', 1, ['x'], None, ver)
            c.abort('a')
            c.abort('p')
            c.get('a', None, ver)
            c.set('a', 1, ['a'], None, ver)
            c.get('p', None, ver)
            c.set('p', 1, ['c'], None, ver)
        case('opened again after an abort', unfinished, {'a': {'a'}, 'p': {'c'}})

        def again(c):
            c.get('p', None, ver)
            c.set('x', 1, ['x'], None, ver)
            c.get('q', None, ver)
            c.get('p', None, ver)       # the first creating of p never finished
            c.set('b', 1, ['b'], None, ver)
            c.set('p', 1, ['c'], None, ver)
        case('opened again inside another', again, {'p': {'b', 'c'}})


def check_relation_manager(rep):
    """The innermost open fragment after any sequence of opening and closing, against a list."""
    from cache_dependencies.relations import RelationManager
    rng = rep.rng
    for _ in range(200 * rep.scale):
        rm = RelationManager()
        stack, hist = [], []
        for _ in range(rng.randrange(1, 14)):
            op = rng.choice(['open', 'open', 'open', 'close', 'closeouter', 'clear'])
            if op == 'open':
                k = rng.choice([x for x in 'abcdefg' if x not in stack] or ['h'])
                if k in stack:
                    continue
                rm.current(k)
                stack.append(k)
            elif op == 'close' and stack:
                k = stack.pop()
                n = rm.pop(k)
                rep.check(n.key() == k, 'closing returned another fragment', history=hist)
            elif op == 'closeouter' and len(stack) > 1:
                # aborting an enclosing fragment leaves the innermost one open
                k = stack[0]
                rm.pop(k)
                hist.append((op, k))
                rep.check(rm.current().key() == stack[-1], 'aborting an outer fragment changed the innermost', history=hist)
                break
            elif op == 'clear' and rng.random() < .2:
                rm.clear()
                stack = []
            hist.append((op, tuple(stack)))
            cur = rm.current()
            if stack:
                rep.check(bool(cur) and cur.key() == stack[-1], 'wrong innermost fragment', history=hist)
            else:
                rep.check(not cur, 'a fragment is open that was closed', history=hist)
        rep.case(tuple(hist))
