"""C09: transaction scopes are strictly balanced."""
from replay.common import Backend, Session, advance, clock, make_cache


class Boom(Exception):
    pass


class Base(BaseException):
    pass


def managers():
    from cache_dependencies.locks import DependencyLock
    from cache_dependencies.transaction import TransactionManager, ThreadSafeTransactionManagerDecorator
    mk = lambda: TransactionManager(DependencyLock.make('READ COMMITTED', lambda: Backend(), 0))
    return [mk, lambda: ThreadSafeTransactionManagerDecorator(mk())]


def scopes(tm):
    """The open scopes, innermost first."""
    out, t = [], tm.current()
    while t:
        out.append(t)
        t = t.parent()
    return out


def check_sequences(rep):
    rep.rule.add('random sequences of begin, finish, flush, with-blocks, decorated calls and exceptions against a list '
                 'of scopes; non-trivial: more than one scope open')
    rng = rep.rng
    for _ in range(200 * rep.scale):
        for mk in managers():
            tm = mk()
            stack, hist = [], []

            def agree(what):
                got = scopes(tm)
                ok = len(got) == len(stack) and all(a is b for a, b in zip(got, reversed(stack)))
                return rep.check(ok, 'wrong open scopes after ' + what, history=hist, expected=len(stack), got=len(got))
            for _ in range(rng.randrange(1, 12)):
                op = rng.choice(['begin', 'begin', 'finish', 'flush', 'with', 'withexc', 'deco', 'decoexc', 'left'])
                hist.append(op)
                if op == 'begin':
                    r = tm.begin()
                    rep.check(r is tm.current(), 'begin returned another transaction', history=hist)
                    stack.append(tm.current())
                elif op == 'finish':
                    tm.finish()
                    if stack:
                        stack.pop()
                elif op == 'flush':
                    tm.flush()
                    stack = []
                elif op in ('with', 'withexc'):
                    exc = rng.choice([Boom, KeyError, Base])('x')
                    caught = None
                    depth = len(scopes(tm))
                    try:
                        with tm:
                            inner = len(scopes(tm))
                            if rng.random() < .3:
                                with tm:
                                    rep.check(len(scopes(tm)) == depth + 2, 'no scope opened', history=hist)
                            if op == 'withexc':
                                raise exc
                    except BaseException as e:
                        caught = e
                    rep.check(inner == depth + 1, 'with opened no scope', history=hist)
                    rep.check(caught is (exc if op == 'withexc' else None), 'the exception did not propagate unchanged',
                              history=hist, raised=caught)
                elif op in ('deco', 'decoexc'):
                    exc, seen = Boom('y'), []
                    depth = len(scopes(tm))

                    def fn(*a, **k):
                        seen.append((a, k, len(scopes(tm))))
                        if op == 'decoexc':
                            raise exc
                        return ('result', a)
                    caught = res = None
                    dec = tm(fn) if rng.random() < .5 else tm()(fn)
                    rep.check(len(scopes(tm)) == depth, 'decorating opened a scope', history=hist)
                    for _ in range(rng.randrange(1, 3)):
                        try:
                            res = dec(1, x=2)
                        except BaseException as e:
                            caught = e
                        rep.check(len(scopes(tm)) == depth, 'a decorated call left a scope open', history=hist)
                    rep.check(seen and all(s == ((1,), {'x': 2}, depth + 1) for s in seen),
                              'the decorated function was not called as given, inside one scope', history=hist, seen=seen)
                    rep.check(caught is (exc if op == 'decoexc' else None), 'exception changed', history=hist)
                    rep.check(op == 'decoexc' or res == ('result', (1,)), 'result changed', history=hist, result=res)
                elif op == 'left':
                    # scopes left open inside a with block: the block closes one scope, the innermost
                    with tm:
                        tm.begin()
                    cur = tm.current()
                    rep.check(len(scopes(tm)) == len(stack) + 1, 'a with block closed more or less than one scope',
                              history=hist)
                    stack.append(cur)
                if not agree(op):
                    break
            rep.case(tuple(hist))


def check_flush_order(rep):
    """Flushing finishes every open scope, innermost first, each once."""
    from cache_dependencies.transaction import TransactionManager
    from cache_dependencies.locks import DependencyLock
    for depth in (0, 1, 2, 5, 150):
        for how in ('flush', 'finish'):
            tm = TransactionManager(DependencyLock.make('READ COMMITTED', lambda: Backend(), 0))
            order = []
            for i in range(depth):
                tm.begin()
                t = tm.current()

                def fin(i=i, orig=t.finish):
                    order.append(i)
                    return orig()
                t.finish = fin
            if how == 'flush':
                tm.flush()
            else:
                for _ in range(depth + 2):
                    tm.finish()
            rep.case((depth, how))
            rep.check(order == list(reversed(range(depth))), 'scopes were not each finished once, innermost first',
                      depth=depth, order=order)
            rep.check(not tm.current(), 'scopes are left open')
            tm.flush()
            tm.finish()
            rep.check(order == list(reversed(range(depth))) and not tm.current(), 'finishing with none open had an effect')


def check_cache_close(rep):
    for depth in (0, 1, 3):
        b = Backend()
        s = Session(0, b)
        for i in range(depth):
            s.run(lambda c: c.transaction.begin() and None)
            s.run(lambda c: c.invalidate_tags('t%d' % i))
        s.run(lambda c: c.close())
        rep.case(depth)
        rep.check(not s.run(lambda c: bool(c.transaction.current())), 'closing the cache left a transaction open', depth=depth)


def check_decorators(rep):
    """The module-level decorators, on the default and on a given cache, in every calling convention."""
    from django_cache_dependencies import decorators, caches
    import django_cache_dependencies
    default = caches['default']
    other = caches['second']
    for nm in ('cache_transaction', 'cache_transaction_all'):
        d = getattr(decorators, nm)
        for how in ('plain', 'called', 'cachefirst', 'cachekw', 'both'):
            target = default if how in ('plain', 'called') else other
            for exc in (None, Boom('z'), Base('q')):
                for outer in (0, 2):
                    default.transaction.flush()
                    other.transaction.flush()
                    for _ in range(outer):
                        target.transaction.begin()
                    seen = []

                    def fn(*a, **k):
                        seen.append((a, k, len(scopes(target.transaction)), len(scopes(
                            (other if target is default else default).transaction))))
                        if nm.endswith('all'):
                            target.transaction.begin()       # left open: everything is closed
                        if exc is not None:
                            raise exc
                        return 'R'
                    if how == 'plain':
                        g = d(fn)
                    elif how == 'called':
                        g = d()(fn)
                    elif how == 'cachefirst':
                        g = d(other)(fn)
                    elif how == 'cachekw':
                        g = d(cache=other)(fn)
                    else:
                        g = d(fn, cache=other)
                    info = dict(decorator=nm, how=how, raising=exc, outer=outer)
                    caught = res = None
                    try:
                        res = g(1, 2, x=3)
                    except BaseException as e:
                        caught = e
                    rep.case((nm, how, repr(exc), outer))
                    rep.check(seen == [((1, 2), {'x': 3}, outer + 1, 0)], 'not called as given, inside one scope',
                              seen=seen, **info)
                    rep.check(caught is exc, 'the exception did not propagate unchanged', caught=caught, **info)
                    rep.check(exc is not None or res == 'R', 'the result was changed', result=res, **info)
                    left = len(scopes(target.transaction))
                    rep.check(left == (0 if nm.endswith('all') else outer), 'scopes left open', left=left, **info)
    default.transaction.flush()
    other.transaction.flush()


def check_left_by_decorated(rep):
    """A decorated call that leaves scopes open closes one scope, the innermost."""
    for mk in managers():
        for left in (0, 1, 3):
            for exc in (None, Boom('left')):
                tm = mk()
                tm.begin()

                def fn():
                    for _ in range(left):
                        tm.begin()
                    made.extend(scopes(tm))
                    if exc is not None:
                        raise exc
                made, caught = [], None
                try:
                    tm(fn)()
                except Boom as e:
                    caught = e
                rep.case((left, repr(exc)))
                got = scopes(tm)
                rep.check(caught is exc and len(got) == left + 1 and all(a is b for a, b in zip(got, made[1:])),
                          'a decorated call closed more or less than one scope', left=left, raising=exc, open=len(got))
