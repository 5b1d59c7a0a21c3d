"""C07: transaction end re-applies every invalidation by isolation level."""
from collections import Counter
from replay.common import Backend, Session, advance, clock, timers
from replay.world import history, World, Diverged, TAGS, VERSIONS, LEVELS, LOCKING, tag_keys

KINDS = {'stale', 'lost', 'lock', 'unlock'}


def check_histories(rep):
    rep.rule.add('random histories of transactions over several tags and versions under every isolation level and '
                 'several delays, against a reference model; non-trivial: a transaction that invalidated something ended')
    for _ in range(220 * rep.scale):
        history(rep, KINDS, {'set': 5, 'inv': 4, 'begin': 3, 'finish': 3, 'flush': 1, 'adv': 2, 'all': 2},
                delays=(0, 0, 1, 2), sessions=2, steps=30)


def run_tx(rep, level, delay, script, ending):
    """Effects on the backend at the end of one transaction, right then and after the delay."""
    b = Backend()
    s = Session(0, b, level, delay)
    del timers[:]

    def f(c):
        c.transaction.begin()
        for op in script:
            if op[0] == 'inv':
                c.invalidate_tags(*op[1], version=op[2])
            elif op[0] == 'begin':
                c.transaction.begin()
            elif op[0] == 'finish':
                c.transaction.finish()
    s.run(f)
    acq = [e for e in b.ev if e[0] == 'set']
    advance(1)
    n = len(b.ev)
    if ending == 'finish':
        s.run(lambda c: c.transaction.finish())
    elif ending == 'exit':
        s.run(lambda c: c.transaction.__exit__(None, None, None) and None)
    elif ending == 'exc':
        s.run(lambda c: c.transaction.__exit__(ValueError, ValueError(), None) and None)
    elif ending == 'flush':
        s.run(lambda c: c.transaction.flush())
    elif ending == 'close':
        s.run(lambda c: c.close())
    at_end = b.ev[n:]
    n = len(b.ev)
    advance(delay * .5)
    rep.check(b.ev[n:] == [], 'something happened before the delay was over', level=level, delay=delay,
              script=script, events=b.ev[n:])
    advance(delay * .5 + .001)
    later = b.ev[n:]
    n = len(b.ev)
    advance(1000)
    rep.check(b.ev[n:] == [], 'something happened long after the end', level=level, delay=delay, script=script)
    return at_end, later, acq, b


def expected(level, delay, tagvers):
    dels = Counter(('del', tag_keys(t)[0], 1 if v is None else v) for t, v in tagvers)
    rels = Counter((tag_keys(t)[2], 1 if v is None else v) for t, v in tagvers)
    if level == 'READ COMMITTED':
        return dels, (dels if delay else Counter()), Counter()
    if level == 'READ UNCOMMITTED':
        return Counter(), (dels if delay else Counter()), Counter()
    return Counter(), Counter(), rels


def compare(rep, level, delay, script, ending, tagvers, exactly_once=False):
    at_end, later, acq, b = run_tx(rep, level, delay, script, ending)
    d0, d1, r = expected(level, delay, tagvers)
    got0 = Counter(e for e in at_end if e[0] == 'del')
    got1 = Counter(e for e in later)
    rel = Counter((e[1], e[2]) for e in at_end if e[0] == 'set')
    if not exactly_once:
        got0, got1, rel = [Counter(set(x)) for x in (got0, got1, rel)]
    rep.case((level, delay, tuple(map(repr, script)), ending))
    info = dict(level=level, delay=delay, script=script, ending=ending)
    rep.check(got0 == d0, 'wrong invalidations at the end of the transaction', expected=sorted(d0.items()),
              got=sorted(got0.items()), **info)
    rep.check(got1 == d1, 'wrong invalidations after the delay', expected=sorted(d1.items()),
              got=sorted(got1.items()), **info)
    rep.check(rel == r, 'wrong release records', expected=sorted(r.items()), got=sorted(rel.items()), **info)
    if acq and level in LOCKING:
        top = max(e[3] for e in acq)
        for e in at_end:
            if e[0] == 'set':
                rep.check(e[3] > top, 'a release record does not outlive the acquire record', ttl=e[3], acquire=top, **info)
                rep.check(e[3] > delay, 'a release record does not outlive the delay', ttl=e[3], **info)


def check_effects(rep):
    rng = rep.rng
    for level in LEVELS:
        for delay in (0, 1, 2, 7):
            for ending in ('finish', 'exit', 'exc'):
                for k in range(4 * rep.scale):
                    script, tv = [], set()
                    for _ in range(rng.randrange(0, 4)):
                        ts, v = rng.sample(TAGS, rng.randrange(1, 4)), rng.choice([2, 3, None])
                        script.append(('inv', ts, v))
                        tv |= {(t, v) for t in ts}
                    compare(rep, level, delay, script, ending, tv)


def check_many_versions(rep):
    for level in LEVELS:
        for delay in (0, 2):
            script = [('inv', ['a', 'b'], v) for v in (None, 2, 3, 4)] + [('inv', ['c'], 4)]
            tv = {(t, v) for t in 'ab' for v in (None, 2, 3, 4)} | {('c', 4)}
            compare(rep, level, delay, script, 'finish', tv)
    script = [('inv', ['a'], v) for v in range(2, 42)]
    for level in LEVELS:
        compare(rep, level, 2, script, 'finish', {('a', v) for v in range(2, 42)})


def check_release_semantics(rep):
    """The record carries the end time, the session and the delay: whom it blocks, and until when."""
    for level in LOCKING:
        for delay in (0, 2):
            b = Backend()
            s, o = Session(0, b, level, delay), Session(1, b, level, delay)
            s.run(lambda c: c.transaction.begin() and None)
            s.run(lambda c: c.invalidate_tags('t'))
            advance(3)
            o.run(lambda c: c.transaction.begin() and None)
            advance(.5)
            s.run(lambda c: c.transaction.finish())

            def stored(x):
                n = len(b.ev)
                x.run(lambda c: c.set('k', 1, ['t']))
                return any(e[1] == 'k' for e in b.ev[n:])
            rep.case((level, delay))
            rep.check(stored(s), 'the session is blocked by its own release', level=level, delay=delay)
            rep.check(not stored(o), 'a transaction started before the end is not blocked', level=level, delay=delay)
            o.run(lambda c: c.transaction.finish())
            advance(delay)
            if delay:
                advance(-.125)
                rep.check(not stored(o), 'not blocked within the delay', level=level, delay=delay)
                advance(.25)
            else:
                advance(.125)
            rep.check(stored(o), 'blocked after the end plus the delay', level=level, delay=delay)


def check_unknown_level(rep):
    from cache_dependencies.locks import DependencyLock
    for bad in ('', 'read committed', 'READ', None, 'SNAPSHOT', 'READ COMMITTED ', 3):
        rep.case(bad)
        try:
            DependencyLock.make(bad, lambda: None, 0)
        except ValueError:
            continue
        except Exception as e:
            rep.fail('an unknown isolation level raised %r' % e, level=bad)
            continue
        rep.fail('an unknown isolation level was accepted', level=bad)


def check_outside(rep):
    """An invalidation outside any transaction leaves nothing behind."""
    for level in LEVELS:
        for delay in (0, 2):
            b = Backend()
            s = Session(0, b, level, delay)
            s.run(lambda c: c.invalidate_tags('a', 'b', version=2))
            rep.case((level, delay))
            rep.check(Counter(b.ev) == Counter(('del', tag_keys(t)[0], 2) for t in 'ab'),
                      'an invalidation outside a transaction has other effects', level=level, events=b.ev)
            n = len(b.ev)
            advance(50)
            s.run(lambda c: c.transaction.finish())
            rep.check(b.ev[n:] == [], 'finishing nothing had an effect', events=b.ev[n:])
