"""C06: locked tags keep stale entries from being stored."""
from replay.common import Backend, Session, worker, make_cache, advance, clock
from replay.world import history, World, Diverged, TAGS, VERSIONS, LOCKING, tag_keys

KINDS = {'lock', 'unlock'}


def check_histories(rep):
    rep.rule.add('random histories of stores, fragments, transactions and invalidations in three sessions with clock '
                 'steps, with and without a delay, against a reference model of the lock records; non-trivial: a store '
                 'was refused')
    for _ in range(260 * rep.scale):
        history(rep, KINDS, {'frag': 3, 'set': 6, 'inv': 4, 'begin': 4, 'finish': 3, 'adv': 3}, isolations=LOCKING,
                delays=(0, 0, 1, 2, 3), sessions=3, steps=30, ends=False)


def check_no_lock_levels(rep):
    """Under the other levels nothing is refused."""
    for _ in range(40 * rep.scale):
        history(rep, KINDS, {'frag': 2, 'set': 5, 'inv': 4, 'begin': 3, 'finish': 3, 'adv': 1},
                isolations=('READ COMMITTED', 'READ UNCOMMITTED'), delays=(0, 2), sessions=2, ends=False)


def check_boundaries(rep):
    """Every relation of the storing transaction's start to the end of the invalidating one plus the delay."""
    for level in LOCKING:
        for delay in (0, 1, 2):
            for ver in VERSIONS:
                for storer in ('same', 'other'):
                    for start in ('before', 'during', 'end', 'mid', 'limit', 'after', 'none'):
                        for phase in ('open', 'finished'):
                            for when in ('own', 'nested', 'inherited', 'other tag', 'other version'):
                                boundary(rep, level, delay, ver, storer, start, phase, when)


def boundary(rep, level, delay, ver, storer, start, phase, when):
    if phase == 'open' and start not in ('before', 'during', 'none'):
        return
    b = Backend()
    inv = Session(0, b, level, delay)
    st = Session(0 if storer == 'same' else 1, b, level, delay)
    tagver = 9 if when == 'other version' else ver
    if when == 'inherited':
        st.run(lambda c: c.set('child', 1, ['x', 't'], None, ver))
        st.run(lambda c: c.get('k', None, ver))
        st.run(lambda c: c.get('child', None, ver))
    if start == 'before':
        st.run(lambda c: c.transaction.begin() and None)
        advance(1)
    inv.run(lambda c: c.transaction.begin() and None)
    if when == 'nested':
        inv.run(lambda c: c.transaction.begin() and None)
    advance(.5)
    inv.run(lambda c: c.invalidate_tags(*(['q'] if when == 'other tag' else ['t', 'z']), version=tagver))
    advance(.25)
    if when == 'nested':
        inv.run(lambda c: c.transaction.finish())
    if start == 'during':
        st.run(lambda c: c.transaction.begin() and None)
    if phase == 'finished':
        inv.run(lambda c: c.transaction.finish())
        end = clock.now
        if start == 'end':
            st.run(lambda c: c.transaction.begin() and None)
        elif start == 'mid':
            advance(delay / 2.)
            st.run(lambda c: c.transaction.begin() and None)
        elif start == 'limit':
            advance(delay)
            st.run(lambda c: c.transaction.begin() and None)
        elif start in ('after', 'none'):
            advance(delay + .125)
            if start == 'after':
                st.run(lambda c: c.transaction.begin() and None)
        advance(.0625)
        begun = clock.now
    else:
        begun = end = None
    n = len(b.ev)
    k, v = st.do(lambda c: c.set('k', 'value', ['x'] if when == 'inherited' else ['t', 'x'], None, ver))
    if k == 'exc':
        return rep.fail('storing raised', error=v, level=level, delay=delay, start=start)
    wrote = any(e[1] == 'k' for e in b.ev[n:])
    conflict = storer == 'other' and when not in ('other tag', 'other version')
    blocked = conflict and (phase == 'open' or start not in ('after', 'none'))
    rep.case((level, delay, ver, storer, start, phase, when))
    d = dict(level=level, delay=delay, version=ver, storer=storer, storing_transaction_started=start,
             invalidating_transaction=phase, tag=when)
    if blocked:
        rep.check(not wrote, 'an entry with a locked tag was stored', **d)
    else:
        rep.check(wrote, 'an entry without locked tags was not stored', **d)


def check_record_order(rep):
    """Several transactions touching the same tag: a later acquire of another session is not hidden by an earlier release."""
    for level in LOCKING:
        b = Backend()
        a, o, st = [Session(i, b, level, 0) for i in range(3)]

        def stored(s=st):
            n = len(b.ev)
            s.run(lambda c: c.set('k', 1, ['t']))
            return any(e[1] == 'k' for e in b.ev[n:])
        a.run(lambda c: c.transaction.begin() and None)
        o.run(lambda c: c.transaction.begin() and None)
        a.run(lambda c: c.invalidate_tags('t'))
        advance(.25)
        o.run(lambda c: c.invalidate_tags('t'))
        rep.case(level)
        rep.check(not stored(), 'stored while two transactions hold the tag', level=level)
        advance(.25)
        a.run(lambda c: c.transaction.finish())
        advance(.25)
        rep.check(not stored(), 'stored while the later transaction still holds the tag', level=level)
        o.run(lambda c: c.transaction.finish())
        advance(.25)
        rep.check(stored(), 'not stored after both finished', level=level)
        # the same session again: its old release does not hide its new acquire
        advance(.25)
        o.run(lambda c: c.transaction.begin() and None)
        o.run(lambda c: c.invalidate_tags('t'))
        advance(.25)
        rep.check(not stored(), 'stored although the tag was acquired again', level=level)
        rep.check(stored(o), 'a session is blocked by its own record', level=level)
        o.run(lambda c: c.transaction.finish())
        rep.check(stored(o), 'a session is blocked by its own release', level=level)


def check_many(rep):
    """One locked tag among many."""
    names = ['t%d' % i for i in range(1300)]
    for level in LOCKING:
        for t in names[::87] + [names[-1], 'none']:
            b = Backend()
            a, st = Session(0, b, level, 0), Session(1, b, level, 0)
            a.run(lambda c: c.transaction.begin() and None)
            a.run(lambda c: c.invalidate_tags(t))
            n = len(b.ev)
            st.run(lambda c: c.set('k', 1, names))
            rep.case((level, t))
            rep.check(any(e[1] == 'k' for e in b.ev[n:]) == (t == 'none'), 'one locked tag among many', tag=t, level=level)


def check_processes(rep):
    """Sessions of two processes are two sessions, also when one was forked from the other after loading the modules."""
    import subprocess
    import sys
    import cache_dependencies
    import os
    root = os.path.dirname(os.path.dirname(os.path.abspath(cache_dependencies.__file__)))
    code = """import sys, os; sys.path.insert(0, %r)
from cache_dependencies import utils
from cache_dependencies.locks import DependencyLock
from cache_dependencies.transaction import TransactionManager
def session():
    tm = TransactionManager(DependencyLock.make('REPEATABLE READ', lambda: None, 0))
    tm.begin()
    return repr(tm.current().get_session_id())
r, w = os.pipe()
pid = os.fork()
if not pid:
    try:
        os.write(w, session().encode())
    finally:
        os._exit(0)
os.close(w)
os.waitpid(pid, 0)
child = os.read(r, 65536).decode()
sys.stdout.write('SAME' if not child or child == session() else 'DIFFERENT')
""" % root
    out = subprocess.run([sys.executable, '-W', 'ignore', '-c', code], stdout=subprocess.PIPE, timeout=60).stdout.decode()
    rep.case('processes')
    rep.check(out == 'DIFFERENT', 'a process takes the locks of another for its own', out=out[:200])
