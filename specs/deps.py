"""Contracts of dependencies.py over a ghost store of the records of tags."""
import ast
import z3
from .model import *
from dv.contract import Contract
from dv.engine import is_old
from . import keys
from .transaction import method
from .tagging import COLL, set_tags

P = D + 'dependencies.'
ACQ, REL, ATS = keys.ACQ, keys.REL, P + 'AbstractTagState'
LKD, INV = D + 'exceptions.TagsLocked', D + 'exceptions.TagsInvalid'
B = z3.BoolSort()
TAGSET = ('set', (STR,))


# ---- the ghost store: presence and value of the record of a key, per cache and version
def install(eng):
    keys.install(eng)
    define(eng, ATS, {'session_id': field(STR)})
    define(eng, ACQ, {'time': field(NUM)})
    define(eng, REL, {'time': field(NUM), 'delay': field(NUM)})
    define(eng, TAGS, {'tags': field(TAGSET, owned=True), 'tag_versions': field(('dict', (STR,), (STR,)), owned=True)})
    define(eng, DUMMY, {})
    define(eng, COMP, {'delegates': field(('list', (Obj(DEP),)), owned=True)})
    define(eng, DEP, {}, closed=False)
    define(eng, TX, {}, closed=False)
    define(eng, CACHE, {}, closed=False)
    has, val = eng.decl('STORED0', V, V, V, B), eng.decl('RECORD0', V, V, V, V)
    OLD_DECLS.add('RECORD0')

    def ty(t):
        k = t.arg(2)
        n = k.decl().name() if z3.is_app(k) else ''
        return {'key_version': (STR,), 'key_acquired': (Obj(ACQ, True),), 'key_released': (Obj(REL, True),)}.get(n, (ANY,))
    eng.decl_ty['RECORD0'] = ty
    eng.ghost_bases.update({'STORED': GMapBase('STORED', lambda *a: has(*a)), 'RECORD': GMapBase('RECORD', lambda *a: val(*a))})
    eng.ghost_sorts.update({'STORED': (V, V, V), 'RECORD': (V, V, V)})
    eng.ghost_noobj = eng.ghost_noobj | {'STORED', 'RECORD'}


def GMapBase(name, f):
    return f


def members(eng, keys):
    """The keys as a set of their own."""
    if any(a[0] in ('list', 'tuple', 'iter') for a in eng.base_alts(keys)):
        s = eng.handlers['builtins.set'](eng, [keys], {})
        return s
    m = lib.memfn(eng, keys)
    return eng.new_set(mem=lambda y: m(y), el=(STR,))


class GetMany(OpaqueMethod):
    """Reads the records that are there, in one operation."""

    def __init__(self):
        pass

    def apply(self, eng, fn, args, kwargs):
        cache, ks, version = self.args(eng, fn, args, kwargs)
        s = members(eng, ks)
        eng.event('get_many', [cache, s, version])
        return found(eng, cache, s, version)


def found(eng, cache, s, version):
    st, rec, mem = eng.gmap('STORED'), eng.gmap('RECORD'), lib.memfn(eng, s)
    d = eng.alloc(('dict', (STR,), (ANY,)))

    def at(c, y):
        return eng.eq(c, d)
    at.target = d
    eng.gregion('DOM', at, lambda c, y: And(mem(y), st.get(cache, version, y)))
    eng.gregion('VAL', at, lambda c, y: rec.get(cache, version, y))
    return d


class SetMany(OpaqueMethod):
    def __init__(self):
        pass

    def apply(self, eng, fn, args, kwargs):
        cache, data, timeout, version = self.args(eng, fn, args, kwargs)
        eng.event('set_many', [cache, data, timeout, version])
        dom, val = eng.gmap('DOM'), eng.gmap('VAL')

        def at(c, v, k):
            return And(eng.eq(c, cache), eng.eq(v, version), dom.get(data, k))
        eng.gregion('STORED', at, lambda c, v, k: TRUE)
        eng.gregion('RECORD', at, lambda c, v, k: val.get(data, k))
        return NONE


class DeleteMany(OpaqueMethod):
    def __init__(self):
        pass

    def apply(self, eng, fn, args, kwargs):
        cache, ks, version = self.args(eng, fn, args, kwargs)
        s = members(eng, ks)
        eng.event('delete_many', [cache, s, version])
        mem = lib.memfn(eng, s)

        def at(c, v, k):
            return And(eng.eq(c, cache), eng.eq(v, version), mem(k))
        eng.gregion('STORED', at, lambda c, v, k: FALSE)
        return NONE


def store(eng):
    eng.contracts[CACHE + '.get_many'] = GetMany()
    eng.contracts[CACHE + '.set_many'] = SetMany()
    eng.contracts[CACHE + '.delete_many'] = DeleteMany()


TXQ = envs(opaque_methods(TX, ['get_session_id'], result=STR, pure=True),
           opaque_methods(TX, ['get_start_time', 'get_end_time'], result=NUM, pure=True))
ENV = envs(store, TXQ)


def tags_of(c, self):
    return c.field(self, 'tags')


def rec(c, kind, tag):
    return keys.s_key(kind)(CallCtx(c), tag=tag)


class CallCtx(object):
    def __init__(self, c):
        self.eng, self.mode = c.eng, 'call'


def stored(c, cache, version, key):
    return c.g('STORED', cache, version, key)


def record(c, cache, version, key):
    return c.eng.type_assume(c.g('RECORD', cache, version, key))


# ---- records
def s_state_init(c, self, transaction):
    c.setfield(self, 'session_id', method(c, TX, 'get_session_id', transaction))
    return NONE


def s_acq_init(c, self, transaction):
    s_state_init(c, self, transaction)
    c.setfield(self, 'time', method(c, TX, 'get_start_time', transaction))
    return NONE


def s_rel_init(c, self, transaction, delay):
    s_state_init(c, self, transaction)
    c.setfield(self, 'time', method(c, TX, 'get_end_time', transaction))
    c.setfield(self, 'delay', delay)
    return NONE


def acq_locks(c, st, transaction):
    """Another session is between the invalidation and the end of its transaction."""
    return Not(c.eq(c.field(st, 'session_id'), method(c, TX, 'get_session_id', transaction)))


def rel_locks(c, st, transaction):
    """Another session invalidated the tag, and this transaction started not later than that one ended (plus the delay)."""
    other = Not(c.eq(c.field(st, 'session_id'), method(c, TX, 'get_session_id', transaction)))
    return And(other, V.nv(method(c, TX, 'get_start_time', transaction)) <= V.nv(c.field(st, 'time')) + V.nv(c.field(st, 'delay')))


def supersedes(c, rel, acq):
    return And(c.eq(c.field(rel, 'session_id'), c.field(acq, 'session_id')),
               V.nv(c.field(rel, 'time')) > V.nv(c.field(acq, 'time')))



def contracts():
    tx = ('transaction', Obj(TX))
    me = ('self', ('self', TAGS))
    cache, ver = ('cache', Obj(CACHE)), ('version', [NONE_T, NUM])
    kw = dict(call_mode=False, env=ENV)
    P6, P7 = {'*': ['C06']}, {'*': ['C06', 'C07']}
    bools = lambda f: lambda c, **a: c.const(bool(c.branch(f(c, **a))))
    return [
        Contract(ATS + '.__init__', s_state_init, [('self', Obj(ATS)), tx], props=P6, **kw),
        Contract(ACQ + '.__init__', s_acq_init, [('self', ('self', ACQ)), tx], props=P6, **kw),
        Contract(REL + '.__init__', s_rel_init, [('self', ('self', REL)), tx, ('delay', NUM)], props=P7, **kw),
        Contract(ACQ + '.is_locked', bools(lambda c, self, transaction: acq_locks(c, self, transaction)),
                 [('self', ('self', ACQ)), tx], props=P6, ret='truth', **kw),
        Contract(REL + '.is_locked', bools(lambda c, self, transaction: rel_locks(c, self, transaction)),
                 [('self', ('self', REL)), tx], props=P7, ret='truth', **kw),
        Contract(REL + '.is_released', bools(lambda c, self, acquired_tag_state: supersedes(c, self, acquired_tag_state)),
                 [('self', ('self', REL)), ('acquired_tag_state', Obj(ACQ, True))], props=P6, ret='truth', **kw),
        Contract(TAGS + '.invalidate', s_invalidate, [me, cache, ver], props={'*': ['C01', 'C07']}, **kw),
        Contract(TAGS + '.acquire', s_acquire, [me, cache, tx, ver], props={'*': ['C06', 'C07']}, **kw),
        Contract(TAGS + '.release', s_release, [me, cache, tx, ('delay', NUM), ver], props={'*': ['C06', 'C07']}, **kw),
    ]


# ---- tags
def s_invalidate(c, self, cache, version):
    ks = c.eng.new_set()

    def one(tag):
        lib.set_add(c.eng, ks, rec(c, 'version', tag))
    c.foreach(tags_of(c, self), one)
    method(c, CACHE, 'delete_many', cache, ks, version)
    return NONE


def put_all(c, self, kind, value, cache, ttl, version):
    d = c.dict()
    c.foreach(tags_of(c, self), lambda tag: c.put(d, rec(c, kind, tag), value))
    method(c, CACHE, 'set_many', cache, d, ttl, version)
    return NONE


def s_acquire(c, self, cache, transaction, version):
    st = c.new(ACQ)
    s_acq_init(c, st, transaction)
    return put_all(c, self, 'acquired', st, cache, c.const(5), version)


def s_release(c, self, cache, transaction, delay, version):
    st = c.new(REL)
    s_rel_init(c, st, transaction, delay)
    ttl = V.num(5 + If(V.nv(delay) >= 1, V.nv(delay), z3.RealVal(1)))
    return put_all(c, self, 'released', st, cache, ttl, version)


# ---- versions
class NewVersion(OpaqueMethod):
    """A version nobody has been given before (see the lemma on fresh versions): one per call, and per element in a loop."""

    def __init__(self):
        pass

    def apply(self, eng, fn, args, kwargs):
        n = eng.state.extra.get('versions', 0)
        eng.state.extra['versions'] = n + 1
        name = 'new_version%d' % n
        xs = list(eng.loopvars)
        t = eng.decl(name + '_%d' % len(xs), *([x.sort() for x in xs] + [V]))(*xs) if xs else z3.Const(name, V)
        nm = t.decl().name()
        eng.decl_ty[nm] = (STR,)
        OLD_DECLS.add(nm)
        eng.assume(V.is_s(t))
        return t


def versions(eng):
    eng.contracts[keys.U + 'generate_tag_version'] = NewVersion()


def read(c, self, kinds, cache, version):
    ks = c.eng.new_set()

    def one(tag):
        for k in kinds:
            lib.set_add(c.eng, ks, rec(c, k, tag))
    c.foreach(tags_of(c, self), one)
    method(c, CACHE, 'get_many', cache, ks, version)


def locks(c, tag, cache, transaction, version):
    """A record of an invalidation by another session that is not known to have been released long ago."""
    ka, kr = rec(c, 'acquired', tag), rec(c, 'released', tag)
    a, r = c.g('RECORD', cache, version, ka), c.g('RECORD', cache, version, kr)
    ha, hr = stored(c, cache, version, ka), stored(c, cache, version, kr)
    use = And(hr, Or(Not(ha), supersedes(c, r, a)))
    return Or(And(use, rel_locks(c, r, transaction)), And(Not(use), ha, acq_locks(c, a, transaction)))


def s_evaluate(c, self, cache, transaction, version):
    read(c, self, ['version', 'acquired', 'released'], cache, version)
    mem = lib.memfn(c.eng, tags_of(c, self))
    locked = c.eng.new_set(mem=lambda y: And(mem(y), locks(c, y, cache, transaction, version)), el=(STR,))
    if c.branch(c.eng.nonempty(locked)):
        c.throw(LKD, self, locked)
    new, known = c.dict(), c.dict()

    def one(tag):
        k = rec(c, 'version', tag)
        if not c.branch(stored(c, cache, version, k)):
            v = c.call(c.fn(keys.U + 'generate_tag_version'))
            c.put(new, k, v)
            c.put(known, tag, v)
        else:
            c.put(known, tag, record(c, cache, version, k))
    c.foreach(tags_of(c, self), one)
    if c.branch(c.eng.nonempty(new)):
        method(c, CACHE, 'set_many', cache, new, c.const(24 * 3600), version)
    c.setfield(self, 'tag_versions', known)
    return NONE


def s_init(c, self, tags):
    """One collection of tags, or the tags themselves."""
    n = c.eng.state.extra['ntags']
    one = n == 1 and c.isinstance(tags.arg(0), *COLL)
    c.setfield(self, 'tags', c.builtin('set', tags.arg(0) if one else tags))
    c.setfield(self, 'tag_versions', c.dict())
    return NONE


def s_check(c, self, cache, version):
    """All tags have the versions they had when the dependency was evaluated."""
    read(c, self, ['version'], cache, version)
    tv = c.field(self, 'tag_versions')
    mem = lib.memfn(c.eng, tags_of(c, self))
    dom = c.eng.gmap('DOM')
    val = c.eng.gmap('VAL')
    st, rc = c.eng.gmap('STORED'), c.eng.gmap('RECORD')

    def bad(y):
        k = record_key(c.eng, 'version', y)
        there = And(mem(y), st.get(cache, version, k))     # versions are never None: no record means invalid
        return And(dom.get(tv, y), Not(And(there, c.eq(rc.get(cache, version, k), val.get(tv, y)))))
    invalid = c.eng.new_set(mem=bad, el=(STR,))
    if c.branch(c.eng.nonempty(invalid)):
        c.throw(INV, self, invalid)
    return NONE


def record_key(eng, kind, t):
    return eng.decl('key_' + kind, V, V)(t)


def run_validate(c, fn, self, cache, version):
    d = c.call(fn, [self, cache, version])
    return c.method(d, 'get')


def run_validate_twice(c, fn, self, other, cache, version):
    """Two validations added up: the first get is that of the second one."""
    d = c.call(fn, [self, cache, version])
    e = c.call(fn, [other, cache, version])
    d = lib.inplace(c.eng, ast.Add(), d, e)
    return c.method(d, 'get')


def s_extend(c, self, other):
    if not c.isinstance(other, TAGS):
        return c.const(False)
    m1, m2 = lib.memfn(c.eng, tags_of(c, self)), lib.memfn(c.eng, tags_of(c, other))
    lib.set_region(c.eng, tags_of(c, self), lambda y: m2(y), TRUE)
    lib.dict_update(c.eng, c.field(self, 'tag_versions'), c.field(other, 'tag_versions'))
    return c.const(True)


def s_copy(c, self):
    o = c.new(TAGS, tags=c.builtin('set', tags_of(c, self)))
    d = c.dict()
    lib.dict_update(c.eng, d, c.field(self, 'tag_versions'))
    c.setfield(o, 'tag_versions', d)
    return o


_old = contracts


def contracts():
    tx = ('transaction', Obj(TX))
    me = ('self', ('self', TAGS))
    cache, ver = ('cache', Obj(CACHE)), ('version', [NONE_T, NUM])
    kw = dict(call_mode=False, env=envs(ENV, versions))
    return _old() + [
        Contract(TAGS + '.__init__', s_init, [me, ('tags', ANY)], setup=set_tags, props={'*': ['C01', 'C15']}, **kw),
        Contract(TAGS + '.evaluate', s_evaluate, [me, cache, tx, ver], props={'*': ['C06', 'C01']}, **kw),
        Contract(TAGS + '.validate', s_check, [me, cache, ver], props={'*': ['C01', 'C02', 'C12']}, run=run_validate, **kw),
        Contract(TAGS + '.extend', s_extend, [me, ('other', [Obj(TAGS, True), Obj(COMP, True), Obj(DUMMY, True)])],
                 props={'*': ['C10', 'C11']}, **kw),
        Contract(TAGS + '.__copy__', s_copy, [me], props={'*': ['C11']}, **kw),
    ]
