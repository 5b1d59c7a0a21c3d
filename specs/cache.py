"""Contracts of CacheWrapper that do not depend on the meaning of dependencies."""
from .model import *
from dv.contract import Contract
from .transaction import method
from .tagging import CW, s_gosc
from dv import terms

NODEC = D + 'relations.CacheNode'
DUMMYN = D + 'relations.DummyCacheNode'
RMC = D + 'relations.RelationManager'
VAL, DEPK = '__value', '__dependency'
CALLS = envs(opaque_methods(NODE, ['add_dependency'], raises=False), opaque_methods(NODEC, ['add_dependency'], raises=False))


def install(eng):
    from . import tagging
    tagging.install(eng)
    define(eng, CW, {'relation_manager': field(Obj(RMC, True))})
    define(eng, DEP, {}, closed=False)
    if 'entries' in getattr(eng, 'installed', ()):
        return
    eng.installed = getattr(eng, 'installed', frozenset()) | {'entries'}
    x = z3.Const('x!e', V)
    for f, g, t in (('found_entry', 'key_of_entry', ANY), ('Q_packed_dependency', 'entry_of_dependency', Obj(DEP))):
        ff, gg = eng.decl(f, V, V), eng.decl(g, V, V)
        eng.decl_ty[f] = (t,)
        OLD_DECLS.add(f)
        eng.axioms.append(z3.ForAll([x], gg(ff(x)) == x, patterns=[ff(x)]))
        eng.inverses[f] = (gg, lambda y, ff=ff, gg=gg: y == ff(gg(y)))
        terms.RULES[g] = lambda a, f=f: a.arg(0) if z3.is_app(a) and a.decl().name() == f else None


def s_init(c, self, cache, relation_manager, transaction):
    c.setfield(self, 'cache', cache)
    c.setfield(self, 'ignore_descendants', c.const(False))
    c.setfield(self, 'transaction', transaction)
    c.setfield(self, 'relation_manager', relation_manager)
    return NONE


def data(c, self):
    rm = c.field(self, 'relation_manager')
    return rm, c.field(rm, '_data')


def s_begin(c, self, key):
    """The fragment becomes the innermost one, below the one open so far, unless it already is."""
    rm, d = data(c, self)
    cur = c.field(rm, '_current')
    if c.branch(c.has(d, key)) and c.is_(c.item(d, key), cur):
        return NONE
    n = c.new(NODEC, _key=key, _parent=cur, _dependencies=c.dict())
    c.put(d, key, n)
    c.setfield(rm, '_current', n)
    return NONE


def forget(c, self, key):
    """The node of the key, forgotten; its parent becomes the innermost open one if it was."""
    rm, d = data(c, self)
    if not c.branch(c.has(d, key)):
        return None
    n = c.item(d, key)
    c.remove(d, key)
    if c.is_(n, c.field(rm, '_current')):
        c.setfield(rm, '_current', c.field(n, '_parent'))
    return n


def s_abort(c, self, key):
    forget(c, self, key)
    return NONE


def s_finish(c, self, key, dependency, version):
    n = forget(c, self, key)
    if n is not None:
        c.eng.call(c.fn(NODEC + '.add_dependency'), [n, dependency, version], {})
    return NONE


def s_close(c, self):
    method(c, TM, 'flush', c.field(self, 'transaction'))
    rm, _ = data(c, self)
    c.setfield(rm, '_current', c.new(DUMMYN))
    c.setfield(rm, '_data', c.dict())
    return NONE


def s_invalidate(c, self, dependency, version):
    tx = method(c, TM, 'current', c.field(self, 'transaction'))
    method(c, TX, 'add_dependency', tx, dependency, version)
    method(c, DEP, 'invalidate', dependency, c.field(self, 'cache'), version)
    return NONE


def packed(c, data):
    return c.isinstance(data, 'builtins.dict') and c.branch(c.has(data, c.const(DEPK))) and \
        c.branch(c.has(data, c.const(VAL)))


def s_pack(c, value, dependency):
    return c.dict([(c.const(VAL), value), (c.const(DEPK), dependency)])


def s_unpack(c, cls, data):
    if packed(c, data):
        return c.tup([c.item(data, c.const(VAL)), c.item(data, c.const(DEPK))])
    return c.tup([data, c.new(DUMMY)])


def s_add(c, self, dependency, version):
    d = c.field(self, '_dependencies')
    if not c.branch(c.has(d, version)):
        c.put(d, version, c.call(c.fn(COMP)))
    method(c, COMP, 'extend', c.item(d, version), dependency)
    method(c, NODE, 'add_dependency', c.field(self, '_parent'), dependency, version)
    return NONE


def s_get_dependency(c, self, version):
    d = c.field(self, '_dependencies')
    return c.item(d, version) if c.branch(c.has(d, version)) else c.new(DUMMY)


def s_getattr(c, self, name):
    return c.getattr(c.field(self, 'cache'), c.eng.state.extra['attr'])


NATIVE = ['delete', 'clear', 'incr', 'delete_many', 'has_key']


def set_attr(c):
    n = NATIVE[c.eng.choose(len(NATIVE))]
    c.eng.state.extra['attr'] = n
    return {'name': c.const(n)}


# ---- reading and storing
INVALID, LOCKED = D + 'exceptions.DependencyInvalid', D + 'exceptions.DependencyLocked'
CINVALID = D + 'exceptions.CompositeDependencyInvalid'
CHECK = 'a deferred validation'


class Unpack(OpaqueMethod):
    """By the contract of _unpack_data: what was packed with a dependency, or native data, which depends on nothing."""

    def __init__(self):
        pass

    def apply(self, eng, fn, args, kwargs):
        data = self.args(eng, fn, args, kwargs)[-1]
        if eng.branch(eng.truth(query(eng, 'is_packed', [data], BOOL))):
            return eng.tup([query(eng, 'packed_value', [data], ANY), query(eng, 'packed_dependency', [data], Obj(DEP))])
        return eng.tup([data, eng.call(fn_of(eng, DUMMY), [], {})])


def fn_of(eng, dotted):
    from dv.contract import fn_term
    return fn_term(eng, dotted)


class Validate(OpaqueMethod):
    """A check to be made later."""

    def __init__(self):
        pass

    def apply(self, eng, fn, args, kwargs):
        a = self.args(eng, fn, args, kwargs)
        o = eng.alloc(('obj', CHECK, True))
        for n, v in zip(('dependency', 'cache', 'version'), a):
            eng.setfield(o, n, v)
        return o


def invalid(eng, dep, cache, version):
    return eng.truth(query(eng, 'invalid', [dep, cache, version], BOOL))


def invalid_error(eng, dep, cache, version):
    return query(eng, 'invalid_error', [dep, cache, version], Obj(INVALID))


def check(eng, args, kwargs):
    """What a deferred validation does when it is resolved."""
    o = args[0]
    dep, cache, version = [eng.type_assume(eng.getfield(o, n)) for n in ('dependency', 'cache', 'version')]
    eng.event('validation', [dep, cache, version])
    if eng.isinstance(dep, DUMMY):
        return NONE
    if eng.branch(invalid(eng, dep, cache, version)):
        raise Raise(invalid_error(eng, dep, cache, version))
    return NONE


class Begin(OpaqueMethod):
    def __init__(self, name):
        self.name, self.raises, self.result = name, False, None


def validation(eng):
    eng.contracts[DEP + '.validate'] = Validate()
    eng.contracts[DUMMY + '.validate'] = Validate()
    eng.contracts[CW + '._unpack_data'] = Unpack()
    define(eng, CHECK, {'dependency': field(Obj(DEP)), 'cache': field(ANY), 'version': field(ANY)}, methods={'get': check})


OPEN = envs(opaque_methods(COMP, ['extend'], raises=False, result=None), CALLS)


def s_set(c, self, key, value, dependency, timeout, version):
    if c.is_(dependency, NONE):
        dependency = c.new(DUMMY)
    comb = c.call(c.fn(COMP))
    method(c, COMP, 'extend', comb, dependency)
    rm, d = data(c, self)
    if c.branch(c.has(d, key)):
        node = c.item(d, key)
        own = s_get_dependency(c, node, version)
    else:
        own = c.new(DUMMY)
    method(c, COMP, 'extend', comb, own)
    tx = method(c, TM, 'current', c.field(self, 'transaction'))
    try:
        method(c, TX, 'evaluate', tx, comb, version)
        r = method(c, CACHE, 'set', c.field(self, 'cache'), key, s_pack(c, value, comb), timeout, version)
    except Raise as e:
        finished(c, self, key, dependency, version)
        if c.isinstance(e.value, LOCKED) and c.eng.state.extra.get('stored') is None:
            return NONE
        raise
    finished(c, self, key, dependency, version)
    return r


def finished(c, self, key, dependency, version):
    """A fragment not open so far is opened below the innermost one: its dependency reaches that one."""
    rm, d = data(c, self)
    if not c.branch(c.has(d, key)):
        n = c.new(NODEC, _key=key, _parent=c.field(rm, '_current'), _dependencies=c.dict())
        c.put(d, key, n)
    s_finish(c, self, key, dependency, version)


class CacheSet(OpaqueMethod):
    """The store itself: whatever it raises is no DependencyLocked of the evaluation."""

    def __init__(self):
        self.name, self.raises, self.result = 'set', True, ANY

    def apply(self, eng, fn, args, kwargs):
        eng.state.extra['stored'] = True
        return OpaqueMethod.apply(self, eng, fn, args, kwargs)


def sets(eng):
    eng.contracts[CACHE + '.set'] = CacheSet()


def opens(c, self, abort):
    return not c.truth(abort) and not c.truth(c.field(self, 'ignore_descendants'))


def s_cget(c, self, key, default, version, abort):
    if opens(c, self, abort):
        s_begin(c, self, key)
    cache = c.field(self, 'cache')
    found = method(c, CACHE, 'get', cache, key, NONE, version)
    if c.is_(found, NONE):
        return default
    value, dep = lib.unpack(c.eng, c.call(c.fn(CW + '._unpack_data'), [c.fn(CW), found]), 2)
    try:
        chk = method(c, DEP, 'validate', dep, cache, version)
        check(c.eng, [chk], {})
    except Raise as e:
        if c.isinstance(e.value, INVALID):
            return default
        raise
    s_finish(c, self, key, dep, version)
    return value


class ValidateAll(OpaqueMethod):
    """By the contract of CompositeDependency.validate: resolved later, all parts are checked."""

    def __init__(self):
        pass

    def apply(self, eng, fn, args, kwargs):
        a = self.args(eng, fn, args, kwargs)
        o = eng.alloc(('obj', CHECKS, True))
        for n, v in zip(('dependency', 'cache', 'version'), a):
            eng.setfield(o, n, v)
        return o


CHECKS = 'a deferred validation of many'


def check_all(eng, args, kwargs):
    from dv.contract import Ctx
    c = Ctx(eng, 'call', None)
    comp, cache, version = [eng.getfield(args[0], n) for n in ('dependency', 'cache', 'version')]
    errors = c.list()

    def one(d):
        d = eng.pick(d)
        if not eng.isinstance(d, DUMMY) and eng.branch(invalid(eng, d, cache, version)):
            e = eng.alloc(('obj', INVALID, True))
            eng.setfield(e, 'dependency', d)
            lib.m_list_append(eng, errors, e)
    c.foreach(c.field(comp, 'delegates'), one)
    if c.truth(errors):
        c.throw(CINVALID, comp, errors)
    return NONE


def bulk(eng):
    validation(eng)
    eng.contracts[COMP + '.validate'] = ValidateAll()
    define(eng, CHECKS, {'dependency': field(Obj(COMP, True)), 'cache': field(ANY), 'version': field(ANY)},
           methods={'get': check_all})


def s_get_many(c, self, keys, version, abort):
    """Exactly the valid ones of the entries found; each of them, and nothing else, is inherited."""
    rm = c.field(self, 'relation_manager')
    ks = c.builtin('list', keys)
    if opens(c, self, abort):
        cur = method(c, RMC, 'current', rm)

        def open_(k):
            method(c, CW, 'begin', self, k)
            method(c, RMC, 'current', rm, cur)
        c.foreach(ks, open_)
    cache = c.field(self, 'cache')
    found = method(c, CACHE, 'get_many', cache, ks, version)
    values, deps = c.dict(), c.dict()

    def one(k, data):
        value, dep = lib.unpack(c.eng, c.call(c.fn(CW + '._unpack_data'), [c.fn(CW), data]), 2)
        if c.isinstance(dep, DUMMY) or not c.branch(invalid(c.eng, dep, cache, version)):
            c.put(values, k, value)
            c.put(deps, k, dep)
    c.foreach(found, one, view='items')
    c.foreach(values, lambda k: method(c, CW, 'finish', self, k, c.item(deps, k), version))
    return values


class Current(OpaqueMethod):
    """The innermost open fragment, or the event of making one the innermost."""

    def __init__(self):
        pass

    def apply(self, eng, fn, args, kwargs):
        rm, node = self.args(eng, fn, args, kwargs)
        if node.eq(eng.modules['cache_dependencies.utils'].env['Undef']):
            return query(eng, 'innermost', [rm], Obj(NODE))
        eng.event('current', [rm, node])
        return NONE


class GetEntries(OpaqueMethod):
    """The entries the backend holds under the keys, each an object of its own."""

    def __init__(self):
        pass

    def apply(self, eng, fn, args, kwargs):
        a = self.args(eng, fn, args, kwargs)
        eng.event('method get_many', a)
        mem = lib.memfn(eng, eng.handlers['builtins.set'](eng, [a[1]], {}))
        d = eng.alloc(('dict', (STR,), (ANY,)))
        there, entry = eng.decl('found', V, z3.BoolSort()), eng.decl('found_entry', V, V)

        def at(c, y):
            return eng.eq(c, d)
        at.target = d
        eng.gregion('DOM', at, lambda c, y: And(mem(y), there(y)))
        eng.gregion('VAL', at, lambda c, y: entry(y))
        return d


def entries(eng):
    eng.contracts[CACHE + '.get_many'] = GetEntries()


def currents(eng):
    eng.contracts[RMC + '.current'] = Current()


def contracts():
    me = ('self', ('self', CW))
    key, ver, dep = ('key', STR), ('version', [NONE_T, NUM]), ('dependency', Obj(DEP))
    node = ('self', ('self', NODEC))
    DATA = [NONE_T, NUM, STR, BOOL, ('list', (ANY,)), ('dict', (STR,), (ANY,)), Obj('builtins.object')]
    kw = dict(call_mode=False)
    thin = ['the fragment manager behaves as RelationManager: its thread-confining decorator is transparent (C13)']
    return [
        Contract(CW + '.__init__', s_init, [me, ('cache', Obj(CACHE)), ('relation_manager', Obj(RM)), ('transaction', Obj(TM))],
                 props={'*': ['C15', 'C14']}, **kw),
        Contract(CW + '.get_or_set_callback', lambda c, **a: gosc(c, **a),
                 [me, key, ('callback', CALL), dep, ('timeout', ANY), ('version', ANY),
                  ('args', [NONE_T, ('tuple', (ANY,)), ('list', (ANY,))]), ('kwargs', [NONE_T, ('dict', (STR,), (ANY,))])],
                 props={'*': ['C16']}, env=opaque_methods(CW, ['get', 'set']), **kw),
        Contract(CW + '.begin', s_begin, [me, key], props={'*': ['C04', 'C05']}, assumes=thin, **kw),
        Contract(CW + '.abort', s_abort, [me, key], props={'*': ['C05']}, assumes=thin, **kw),
        Contract(CW + '.finish', s_finish, [me, key, dep, ver], props={'*': ['C04', 'C05']}, env=CALLS,
                 assumes=thin + ['adding a dependency to a fragment does not raise'], **kw),
        Contract(CW + '.close', s_close, [me], props={'*': ['C05', 'C09']}, env=opaque_methods(TM, ['flush']), assumes=thin,
                 channels={'method flush': 'tx'}, **kw),
        Contract(CW + '.invalidate_dependency', s_invalidate, [me, dep, ver], props={'*': ['C01', 'C06', 'C07', 'C15']},
                 env=envs(opaque_methods(TM, ['current'], result=Obj(TX), pure=True),
                          opaque_methods(TX, ['add_dependency']), opaque_methods(DEP, ['invalidate'])), **kw),
        Contract(CW + '.set', s_set, [me, key, ('value', ANY), ('dependency', [NONE_T, Obj(DEP)]), ('timeout', ANY), ver],
                 props={'*': ['C01', 'C02', 'C04', 'C05', 'C06', 'C11']}, assumes=thin,
                 env=envs(OPEN, opaque_methods(TM, ['current'], result=Obj(TX), pure=True),
                          opaque_methods(TX, ['evaluate']), sets), **kw),
        Contract(CW + '.get', s_cget, [me, key, ('default', ANY), ('version', [NONE_T, NUM]), ('abort', BOOL)],
                 props={'*': ['C01', 'C02', 'C03', 'C04', 'C05']}, assumes=thin,
                 env=envs(CALLS, opaque_methods(CACHE, ['get']), validation), **kw),
        Contract(CW + '.get_many', s_get_many, [me, ('keys', [('set', (STR,)), ('list', (STR,)), ('tuple', (STR,)), ('iter', (STR,))]), ('version', [NONE_T, NUM]), ('abort', BOOL)],
                 props={'*': ['C03', 'C01', 'C02', 'C04', 'C05']},
                 assumes=thin + ['the entries found have dependency objects of their own'],
                 env=envs(opaque_methods(CW, ['begin', 'finish'], raises=False, result=None), currents,
                          entries, bulk), **kw),
        Contract(CW + '._pack_data', s_pack, [('value', ANY), dep], props={'*': ['C01', 'C02']}, **kw),
        Contract(CW + '._unpack_data', s_unpack, [('cls', ANY), ('data', DATA)], setup=lambda c: {'cls': c.fn(CW)},
                 props={'*': ['C01', 'C02']}, **kw),
        Contract(CW + '.__getattr__', s_getattr, [me, ('name', STR)], setup=set_attr, props={'*': ['C15']},
                 env=opaque_methods(CACHE, NATIVE), **kw),
        Contract(CW + '.__contains__', lambda c, self, key: method(c, CACHE, '__contains__', c.field(self, 'cache'), key),
                 [me, key], props={'*': ['C15']}, env=opaque_methods(CACHE, ['__contains__'], result=BOOL), **kw),
        Contract(NODEC + '.add_dependency', s_add, [node, dep, ('version', ANY)], props={'*': ['C04', 'C05']},
                 env=envs(opaque_methods(COMP, ['extend'], raises=False), opaque_methods(NODE, ['add_dependency'], raises=False)),
                 channels={'method extend': 'own'}, **kw),
        Contract(NODEC + '.get_dependency', s_get_dependency, [node, ('version', ANY)], props={'*': ['C04', 'C05']}, **kw),
        Contract(DUMMYN + '.add_dependency', lambda c, self, dependency, version: NONE,
                 [('self', ('self', DUMMYN)), dep, ('version', ANY)], props={'*': ['C05']}, **kw),
        Contract(DUMMYN + '.get_dependency', lambda c, self, version: c.new(DUMMY), [('self', ('self', DUMMYN)), ('version', ANY)],
                 props={'*': ['C05']}, **kw),
    ]


def gosc(c, self, key, callback, dependency, timeout, version, args, kwargs):
    return s_gosc(c, self, key, callback, dependency, timeout, version, args, kwargs, get=CW, target=lambda c, s: s)
