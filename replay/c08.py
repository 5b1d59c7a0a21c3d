"""C08: nested transactions are part of the outermost one."""
from collections import Counter
from replay.common import Backend, Session, advance, clock, timers
from replay.world import history, World, Diverged, TAGS, VERSIONS, LEVELS, LOCKING, tag_keys
from replay import c07

KINDS = {'stale', 'lost', 'lock', 'unlock'}


def check_histories(rep):
    rep.rule.add('random histories of nested transactions under every isolation level, against a reference model, and '
                 'random scripts whose effects on the backend are compared exactly; non-trivial: nesting deeper than one')
    for _ in range(150 * rep.scale):
        history(rep, KINDS, {'set': 5, 'inv': 4, 'begin': 5, 'finish': 4, 'flush': 1, 'adv': 2, 'all': 2},
                delays=(0, 0, 1), sessions=2, steps=35)


def check_effects(rep):
    rng = rep.rng
    for level in LEVELS:
        for delay in (0, 2):
            for ending in ('finish', 'exit', 'flush', 'close'):
                for k in range(6 * rep.scale):
                    script, tv, depth = [], set(), 0
                    for _ in range(rng.randrange(1, 9)):
                        r = rng.random()
                        if r < .4:
                            script.append(('begin',))
                            depth += 1
                        elif r < .6 and depth:
                            script.append(('finish',))
                            depth -= 1
                        else:
                            ts, v = rng.sample(TAGS, rng.randrange(1, 4)), rng.choice([2, 3, None])
                            script.append(('inv', ts, v))
                            tv |= {(t, v) for t in ts}
                    if ending not in ('flush', 'close'):
                        script += [('finish',)] * depth
                    c07.compare(rep, level, delay, script, ending, tv, exactly_once=True)


def check_inner_finish(rep):
    """Finishing a nested transaction has no effect on the backend and starts no timer."""
    for level in LEVELS:
        for delay in (0, 2):
            for depth in (1, 2, 5):
                for ending in ('finish', 'exit', 'exc', 'decorated'):
                    b = Backend()
                    s = Session(0, b, level, delay)
                    del timers[:]

                    def f(c):
                        for _ in range(depth + 1):
                            c.transaction.begin()
                            c.invalidate_tags('d%d' % _, version=_ + 2)
                    s.run(f)
                    n = len(b.ev)
                    for _ in range(depth):
                        if ending == 'finish':
                            s.run(lambda c: c.transaction.finish())
                        elif ending == 'exit':
                            s.run(lambda c: c.transaction.__exit__(None, None, None) and None)
                        elif ending == 'exc':
                            s.run(lambda c: c.transaction.__exit__(KeyError, KeyError(), None) and None)
                        else:
                            s.run(lambda c: c.transaction(lambda: 1)())
                    rep.case((level, delay, depth, ending))
                    rep.check(b.ev[n:] == [] and not timers, 'finishing a nested transaction had an effect',
                              level=level, delay=delay, depth=depth, events=b.ev[n:], timers=len(timers))


def check_identity(rep):
    """Start time, end time and session of every nested transaction are those of the outermost one."""
    from cache_dependencies.locks import DependencyLock
    from cache_dependencies.transaction import TransactionManager
    for depth in (1, 2, 4):
        tm = TransactionManager(DependencyLock.make('READ COMMITTED', lambda: Backend(), 0))
        txs = []
        for i in range(depth + 1):
            advance(1)
            tm.begin()
            txs.append(tm.current())
        start = txs[0].get_start_time()
        for i, t in enumerate(txs):
            rep.case((depth, i))
            rep.check(t.get_start_time() == start, 'a nested transaction has another start time', depth=i)
            rep.check(t.get_session_id() == txs[0].get_session_id(), 'a nested transaction has another session', depth=i)
            rep.check(t.parent() is (txs[i - 1] if i else None), 'wrong enclosing transaction', depth=i)
        for t in reversed(txs):
            advance(1)
            tm.finish()
        for i, t in enumerate(txs):
            rep.check(t.get_end_time() == clock.now, 'a nested transaction has another end time', depth=i)


def check_locks_of_nested(rep):
    """Locks taken in nested transactions hold until the outermost one finishes, and count from its start."""
    for level in LOCKING:
        for inner_open in (True, False):
            b = Backend()
            s, o = Session(0, b, level, 0), Session(1, b, level, 0)

            def stored(x):
                n = len(b.ev)
                x.run(lambda c: c.set('k', 1, ['t']))
                return any(e[1] == 'k' for e in b.ev[n:])
            s.run(lambda c: c.transaction.begin() and None)
            advance(.5)
            s.run(lambda c: c.transaction.begin() and None)
            s.run(lambda c: c.invalidate_tags('t'))
            advance(.5)
            if not inner_open:
                s.run(lambda c: c.transaction.finish())
            advance(.5)
            rep.case((level, inner_open))
            rep.check(not stored(o), 'stored while the outermost transaction is open', level=level)
            # a transaction begun now in the other session starts before the end
            o.run(lambda c: c.transaction.begin() and None)
            o.run(lambda c: c.transaction.begin() and None)
            advance(.5)
            s.run(lambda c: c.transaction.flush())
            advance(.25)
            o.run(lambda c: c.transaction.finish())
            o.run(lambda c: c.transaction.begin() and None)      # nested, begun after the end
            rep.check(not stored(o), 'a nested transaction does not count from the start of the outermost', level=level)
            o.run(lambda c: c.transaction.flush())
            advance(.25)
            rep.check(stored(o), 'not stored after everything ended', level=level)


def check_deep(rep):
    """What the innermost of many nested transactions invalidates is released by the outermost."""
    for level in LEVELS:
        for depth in (20, 70):
            script = [('inv', ['b'], 2)] + [('begin',)] * depth + [('inv', ['a', 'c'], 2)] + [('finish',)] * depth
            c07.compare(rep, level, 2, script, 'finish', {('a', 2), ('b', 2), ('c', 2)}, exactly_once=True)
            # nested ones in between are asked for their own locks and dependencies as well
            b = Backend()
            s = Session(0, b, level, 2)

            def f(c):
                for _ in range(depth):
                    c.transaction.begin()
                start = c.transaction.current().get_start_time()
                t, n = c.transaction.current(), 0
                while t:
                    n, t = n + 1, t.parent()
                return n, start
            n, start = s.run(f)
            rep.case((level, depth))
            rep.check(n == depth, 'a nested transaction was lost', depth=depth, got=n)
            s.run(lambda c: c.transaction.flush())
