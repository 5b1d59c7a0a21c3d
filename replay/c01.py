"""C01: invalidated entries are never served again."""
from replay.world import history, World, Diverged, TAGS, VERSIONS

KINDS = {'stale', 'own', 'inherit', 'phantom'}


def check_histories(rep):
    rep.rule.add('random histories of nested stores, single and bulk reads, invalidations, transactions and clock steps '
                 'in up to three sessions under every isolation level, against a reference model; non-trivial: an entry '
                 'was invalid when read')
    for _ in range(260 * rep.scale):
        history(rep, KINDS, {'frag': 4, 'set': 3, 'get': 3, 'many': 2, 'inv': 4, 'all': 1, 'begin': 1, 'finish': 1})


def check_single_session(rep):
    for _ in range(140 * rep.scale):
        history(rep, KINDS, {'frag': 5, 'set': 3, 'many': 3, 'inv': 5, 'all': 2, 'adv': 1}, sessions=1,
                isolations=('READ COMMITTED',))


def check_every_tag(rep):
    """Every tag of an entry, however many there are, makes it unreadable on its own, in every version."""
    for n in (1, 2, 3, 6):
        for ver in VERSIONS:
            for how in ('tags', 'list', 'set', 'fset', 'dep', 'comp'):
                for t in TAGS[:n]:
                    for bulk in (False, True):
                        w = World(rep, KINDS, sessions=1)
                        rep.case((n, ver, how, t, bulk))
                        try:
                            w.set(0, 'k1', TAGS[:n], ver, how=how)
                            w.set(0, 'k2', [t], ver)
                            w.invalidate(0, [t], ver)
                            w.set(0, 'k3', [t], ver)        # gives the tag a new version
                            if bulk:
                                w.get_many(0, ['k1', 'k2', 'k3'], ver, True)
                            else:
                                w.get(0, 'k1', ver, True)
                            w.set(0, 'k2', TAGS[:n], ver)
                            w.get(0, 'k1', ver, True)
                            w.get_many(0, ['k1', 'k3'], ver)
                        except Diverged:
                            pass
