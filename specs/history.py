"""Lemmas about histories: steps and short sequences of the real operations over the store of records.

A recorded version (of a stored entry) is *dead* when the record of its tag is missing or differs from it.
The lemmas state how one operation of any dependency changes dead and living recorded versions, for an arbitrary
entry; the statement about every history is the induction over these steps.
"""
from .model import *
from dv.engine import Raise
from dv.lemma import Lemma
from . import deps
from .deps import TAGS, CACHE, TX, INV, LKD, stored, record_key, NewVersion

VER = [NONE_T, NUM]
LIVING = 'versions made later differ from every version recorded before'


class FreshVersion(NewVersion):
    """A new version differs from all versions recorded anywhere before (lemma "fresh versions")."""

    def apply(self, eng, fn, args, kwargs):
        t = NewVersion.apply(self, eng, fn, args, kwargs)
        for r in eng.state.extra.get('recorded', ()):
            if eng.loopvars:
                xs = [z3.Const('h!%d' % i, x.sort()) for i, x in enumerate(eng.loopvars)]
                g = z3.substitute(t, *zip(eng.loopvars, xs)) != r
                f = z3.ForAll(xs, g, patterns=[z3.substitute(t, *zip(eng.loopvars, xs))])
                ax = eng.state.extra.get('hist_facts', ())
                eng.state.extra['hist_facts'] = ax + (f,)
                eng.assume(t != r)
            else:
                eng.assume(t != r)
        return t


def fresh_versions(eng):
    eng.contracts[deps.keys.U + 'generate_tag_version'] = FreshVersion()


ENV = envs(deps.ENV, fresh_versions)


class World(object):
    """An arbitrary recorded version of a tag in a version of a cache, and an arbitrary other operation."""

    def __init__(self, L):
        self.L, self.eng = L, L.eng
        self.cache, self.ver = L.param('cache', Obj(CACHE)), L.param('version', VER)
        self.tag, self.rec = L.param('entry_tag', STR), L.param('recorded_version', STR)
        self.key = record_key(self.eng, 'version', self.tag)
        L.eng.state.extra['recorded'] = (self.rec,)
        self.dep = L.param('dependency', Obj(TAGS, True))
        self.ocache, self.over = L.param('other_cache', Obj(CACHE)), L.param('other_version', VER)
        self.tx = L.param('transaction', Obj(TX))

    def lives(self):
        e, L = self.eng, self.L
        return And(stored(L, self.cache, self.ver, self.key),
                   e.eq(L.g('RECORD', self.cache, self.ver, self.key), self.rec))

    def real(self, name, *args):
        return self.L.real(TAGS + '.' + name, self.dep, *args)

    def prove(self, label, f):
        self.L.prove(label, f, self.eng.state.extra.get('hist_facts', ()))

    def hit(self):
        """The operation is about the same tag in the same place."""
        e = self.eng
        return And(e.eq(self.cache, self.ocache), e.eq(self.ver, self.over),
                   lib.memfn(e, self.L.field(self.dep, 'tags'))(self.tag))


def step(name, args):
    def lemma(L):
        w = World(L)
        before, hit = w.lives(), w.hit()
        try:
            w.real(name, w.ocache, *args(w))
        except Raise as r:
            if not (name == 'evaluate' and L.isinstance(r.value, LKD)):
                raise
        after = w.lives()
        w.prove('a dead version stays dead', Implies(after, before))
        if name == 'invalidate':
            w.prove('every version of an invalidated tag is dead', Implies(hit, Not(after)))
            w.prove('other versions live on', Implies(And(before, Not(hit)), after))
        else:
            w.prove('a living version lives on', Implies(before, after))
    return lemma


def l_validate(L):
    """Reading changes nothing, and decides exactly whether all recorded versions live."""
    w = World(L)
    before = w.lives()
    tv = L.field(w.dep, 'tag_versions')
    e = w.eng
    has, mine = L.has(tv, w.tag), e.eq(e.gmap('VAL').get(tv, w.tag), w.rec)
    ok = True
    try:
        d = w.real('validate', w.cache, w.ver)
        L.method(d, 'get')
    except Raise as r:
        if not L.isinstance(r.value, INV):
            raise
        ok = False
    w.prove('reading changes no record', w.lives() == before)
    if ok:
        w.prove('a successful read: all recorded versions live', Implies(And(has, mine), before))
        return
    y = z3.Const('some!tag', V)
    k = record_key(e, 'version', y)
    known = lib.memfn(e, L.field(w.dep, 'tags'))(y)
    lives = And(known, stored(L, w.cache, w.ver, k), e.eq(L.g('RECORD', w.cache, w.ver, k), e.gmap('VAL').get(tv, y)))
    w.prove('a failed read: some recorded version is dead', z3.Exists([y], And(L.has(tv, y), Not(lives))))


def l_roundtrip(L):
    """Stored, then read: valid; whatever was invalidated in between in other places or of other tags."""
    w = World(L)
    e = w.eng
    mine = L.param('stored_dependency', Obj(TAGS, True))
    tx = L.param('storing_transaction', Obj(TX))
    try:
        L.real(TAGS + '.evaluate', mine, w.cache, tx, w.ver)
    except Raise as r:
        if not L.isinstance(r.value, LKD):
            raise
        return
    tv = L.field(mine, 'tag_versions')
    own = lib.memfn(e, L.field(mine, 'tags'))(w.tag)
    w.prove('exactly the tags of the dependency are recorded', L.has(tv, w.tag) == own)
    k = w.key
    w.prove('the recorded versions live', Implies(own, And(
        stored(L, w.cache, w.ver, k),
        e.eq(L.g('RECORD', w.cache, w.ver, k), e.gmap('VAL').get(tv, w.tag)))))


# ---- locks: what an invalidation by another session means for a store
def sess(w, tx):
    return deps.method(w.L, TX, 'get_session_id', tx)


def time_of(w, which, tx):
    return V.nv(deps.method(w.L, TX, 'get_%s_time' % which, tx))


def records(w, kind):
    """Presence and value of the record of the tag."""
    k = record_key(w.eng, kind, w.tag)
    return stored(w.L, w.cache, w.ver, k), deps.record(w.L, w.cache, w.ver, k)


def attempt(w, dep, tx):
    """Evaluate, as a store does: is the tag among those reported as locked?"""
    L = w.L
    try:
        L.real(TAGS + '.evaluate', dep, w.cache, tx, w.ver)
    except Raise as r:
        if not L.isinstance(r.value, LKD):
            raise
        return lib.memfn(w.eng, L.field(r.value, 'items'))(w.tag)
    return FALSE


def two_sessions(L, same=False):
    w = World(L)
    e = w.eng
    other, tx = L.param('storing_dependency', Obj(TAGS, True)), L.param('storing_transaction', Obj(TX))
    eq = e.eq(sess(w, tx), sess(w, w.tx))
    L.assume(eq if same else Not(eq))
    for d in (w.dep, other):
        L.assume(lib.memfn(e, L.field(d, 'tags'))(w.tag))
    L.assume(time_of(w, 'start', w.tx) < time_of(w, 'end', w.tx))
    return w, other, tx


def l_acquire(L):
    """While an invalidation is under way in another session, nothing that depends on the tag is stored."""
    w, other, tx = two_sessions(L)
    hr, r = records(w, 'released')
    L.assume(Implies(And(hr, w.eng.eq(L.field(r, 'session_id'), sess(w, w.tx))),
                     V.nv(L.field(r, 'time')) <= time_of(w, 'start', w.tx)))
    L.real(TAGS + '.acquire', w.dep, w.cache, w.tx, w.ver)
    w.prove('an acquired tag locks the stores of other sessions', attempt(w, other, tx))


def l_acquire_own(L):
    w, other, tx = two_sessions(L, True)
    L.real(TAGS + '.acquire', w.dep, w.cache, w.tx, w.ver)
    w.prove('an acquired tag does not lock the stores of its own session', Not(attempt(w, other, tx)))


def released(L, same=False):
    w, other, tx = two_sessions(L, same)
    ha, a = records(w, 'acquired')
    delay = L.param('delay', NUM)
    mine = w.eng.eq(L.field(a, 'session_id'), sess(w, w.tx))
    L.assume(Implies(And(ha, mine), V.nv(L.field(a, 'time')) < time_of(w, 'end', w.tx)))
    return w, other, tx, delay, ha, mine, a


def l_release(L):
    """After the end of the invalidating transaction, transactions that started before it (plus the delay) store nothing."""
    w, other, tx, delay, ha, mine, a = released(L)
    L.assume(Implies(ha, Not(w.eng.eq(L.field(a, 'session_id'), sess(w, tx)))))
    L.assume(time_of(w, 'start', tx) <= time_of(w, 'end', w.tx) + V.nv(delay))
    L.real(TAGS + '.release', w.dep, w.cache, w.tx, delay, w.ver)
    w.prove('a released tag locks the stores of transactions started earlier', attempt(w, other, tx))


def l_release_later(L):
    w, other, tx, delay, ha, mine, a = released(L)
    L.assume(Implies(ha, mine))
    L.assume(time_of(w, 'start', tx) > time_of(w, 'end', w.tx) + V.nv(delay))
    L.real(TAGS + '.release', w.dep, w.cache, w.tx, delay, w.ver)
    w.prove('a released tag does not lock the stores of transactions started later', Not(attempt(w, other, tx)))


def l_release_own(L):
    w, other, tx, delay, ha, mine, a = released(L, True)
    L.assume(Implies(ha, mine))
    L.real(TAGS + '.release', w.dep, w.cache, w.tx, delay, w.ver)
    w.prove('a released tag does not lock the stores of its own session', Not(attempt(w, other, tx)))


# ---- what a store leaves for the reads that follow it
class Put(OpaqueMethod):
    def __init__(self):
        pass

    def apply(self, eng, fn, args, kwargs):
        cache, key, data, timeout, version = self.args(eng, fn, args, kwargs)
        eng.state.extra['put'] = data
        eng.gput('STORED', (cache, version, key), TRUE)
        eng.gput('RECORD', (cache, version, key), data)
        return NONE


class Fetch(OpaqueMethod):
    def __init__(self):
        pass

    def apply(self, eng, fn, args, kwargs):
        cache, key, default, version = self.args(eng, fn, args, kwargs)
        if eng.branch(eng.gmap('STORED').get(cache, version, key)):
            return eng.type_assume(eng.gmap('RECORD').get(cache, version, key))
        return default


def backend(eng):
    from .cache import Validate, check, CHECK
    eng.contracts[CACHE + '.set'] = Put()
    eng.contracts[CACHE + '.get'] = Fetch()
    for k in (DEP, DUMMY, COMP):
        eng.contracts[k + '.validate'] = Validate()
    define(eng, CHECK, {'dependency': field(Obj(DEP)), 'cache': field(ANY), 'version': field(ANY)}, methods={'get': check})


def wrapper_env():
    from . import cache
    return envs(cache.OPEN, opaque_methods(TM, ['current'], result=Obj(TX), pure=True), opaque_methods(TX, ['evaluate']),
                backend)


def l_wrapper(L):
    """What was stored is what a valid read returns, through any front of the same backend."""
    from .cache import invalid, INVALID
    from .tagging import CW
    e = L.eng
    one, two = L.param('storing_cache', Obj(CW, True)), L.param('reading_cache', Obj(CW, True))
    L.assume(e.eq(L.field(one, 'cache'), L.field(two, 'cache')))
    key, value, default = L.param('key', STR), L.param('value', ANY), L.param('default', ANY)
    ver, dep = L.param('version', VER), L.param('dependency', Obj(DEP))
    cache = L.field(one, 'cache')
    try:
        L.real(CW + '.set', one, key, value, dep, L.param('timeout', ANY), ver)
    except Raise:
        pass
    data = e.state.extra.get('put')
    if data is None:
        L.prove('nothing is stored', L.g('STORED', cache, ver, key) == L.eng.decl('STORED0', V, V, V, z3.BoolSort())(cache, ver, key))
        return
    n = len(e.state.trace.segs)
    r = L.real(CW + '.get', two, key, default, ver)
    events = [e.untup(x) for k, x in e.state.trace.segs[n:] if k == 'v']
    checks = [x for x in events if e.pystr(x[0]) == 'validation']
    L.prove('the read checks one dependency', len(checks) == 1)
    if len(checks) != 1:
        return
    d, c, v = checks[0][1:]
    mine = L.const('__dependency')
    L.prove('which is the one stored with it', Implies(L.has(data, mine), e.eq(d, L.item(data, mine))))
    L.prove('in the place of the entry', And(e.eq(c, cache), e.eq(v, ver)))
    bad = invalid(e, d, c, v)
    L.prove('a valid entry is returned unchanged', Implies(Not(bad), r == value))
    L.prove('an invalid entry is not returned', Implies(bad, r == default))


def contracts():
    return []


def lemmas():
    kw = dict(env=ENV, assumes=[LIVING])
    out = []
    for name, args in (('evaluate', lambda w: [w.tx, w.over]), ('invalidate', lambda w: [w.over]),
                       ('acquire', lambda w: [w.tx, w.over]),
                       ('release', lambda w: [w.tx, w.L.param('delay', NUM), w.over])):
        out.append(Lemma('history step %s' % name, step(name, args), {'*': ['C01', 'C02']}, **kw))
    out.append(Lemma('history step read', l_validate, {'*': ['C01', 'C02']}, **kw))
    out.append(Lemma('store then read', l_roundtrip, {'*': ['C01', 'C02']}, **kw))
    out.append(Lemma('a stored value comes back', l_wrapper, {'*': ['C01', 'C02']}, env=wrapper_env(),
                     assumes=['the backend returns what was stored last under the key', 'stores in the backend do not raise']))
    for name, fn in (('acquired, other session', l_acquire), ('acquired, own session', l_acquire_own),
                     ('released, started earlier', l_release), ('released, started later', l_release_later),
                     ('released, own session', l_release_own)):
        out.append(Lemma('locks: ' + name, fn, {'*': ['C06', 'C07']}, env=ENV,
                         assumes=['a transaction ends after it starts', 'clocks of the sessions agree']))
    return out
