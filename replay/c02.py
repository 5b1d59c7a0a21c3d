"""C02: entries whose tags are untouched are served unchanged."""
from replay.common import Session, Backend, clock, advance
from replay.world import history, World, Diverged, TAGS, VERSIONS

KINDS = {'lost', 'exc', 'phantom'}


def check_histories(rep):
    rep.rule.add('random histories of nested stores, single and bulk reads, invalidations, transactions and clock steps '
                 'in up to three sessions, against a reference model; non-trivial: an entry was valid when read')
    for _ in range(260 * rep.scale):
        history(rep, KINDS, {'frag': 4, 'set': 4, 'get': 3, 'many': 2, 'inv': 2, 'all': 2, 'begin': 1, 'finish': 1,
                             'adv': 1}, sessions=3)


def check_other_tags(rep):
    """Invalidating other tags, or the same tags in other versions, changes nothing."""
    for ver in VERSIONS:
        for n in (0, 1, 3):
            for how in ('names', 'list', 'set', 'dep'):
                w = World(rep, KINDS, sessions=2)
                rep.case((ver, n, how))
                try:
                    w.set(0, 'k1', TAGS[:n], ver)
                    before = dict(w.b.data)
                    w.invalidate(1, TAGS[3:], ver, how)
                    for v in VERSIONS:
                        if v != ver:
                            w.invalidate(1, TAGS, v, how)
                    rep.check(w.b.data == before, 'invalidating other tags changed the backend', version=ver, tags=n)
                    w.set(1, 'k2', TAGS, ver)
                    w.get(1, 'k1', ver, True)
                    w.get_many(0, ['k1', 'k2', 'k3'], ver)
                    w.advance(250)
                    w.get(0, 'k1', ver, True)
                except Diverged:
                    pass


def check_values(rep):
    """Any picklable value, including falsy ones and dictionaries looking like internal ones, comes back unchanged."""
    s = Session(0, Backend())
    vals = [0, False, '', (), [], {}, 0.0, 'x', {'a': 1}, {'__value': 3}, {'__dependency': None}, [None], {None: 1}, b'q']
    for v in vals:
        for tags in ((), ('a',), ('a', 'b')):
            for ver in VERSIONS:
                s.run(lambda c: c.set('key', v, tags, 100, ver))
                rep.case((repr(v), tags, ver))
                got = s.run(lambda c: (c.get('key', 'nothing', ver), c.get_many(['key', 'zz'], ver)))
                rep.check(got == (v, {'key': v}) and type(got[0]) is type(v), 'a stored value was not served unchanged',
                          value=v, tags=tags, version=ver, got=got)


def check_reads_do_not_write(rep):
    b = Backend()
    s = Session(0, b)
    for tags in ((), ('a',), ('a', 'b', 'c')):
        s.run(lambda c: c.set('k', 1, tags))
        before = dict(b.data)
        for _ in range(3):
            s.run(lambda c: c.get('k'))
            s.run(lambda c: c.get_many(['k', 'q']))
            s.run(lambda c: c.get('missing'))
        rep.case(tags)
        rep.check(dict(b.data) == before, 'reading changed the backend', tags=tags)
