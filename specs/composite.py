"""Contracts of CompositeDependency and DummyDependency over the abstract contracts of IDependency."""
import ast
import z3
from .model import *
from dv.contract import Contract, fn_term
from dv.terms import ctor, TRUE
from dv.engine import BreakEx, Obj as O
from .transaction import method
from . import deps

P = D + 'dependencies.'
LOCKED, INVALID = D + 'exceptions.DependencyLocked', D + 'exceptions.DependencyInvalid'
CLOCKED, CINVALID = D + 'exceptions.CompositeDependencyLocked', D + 'exceptions.CompositeDependencyInvalid'
COPIED = 'a copied dependency'


def install(eng):
    deps.install(eng)
    unit, cnt = eng.decl('UNIT0', V, V, V), eng.decl('COUNT0', V, V)
    eng.ghost_bases.update({'UNIT': lambda *a: unit(*a), 'COUNT': lambda *a: cnt(*a)})
    eng.ghost_sorts.update({'UNIT': (V, V), 'COUNT': (V,)})
    eng.ghost_noobj = eng.ghost_noobj | {'UNIT', 'COUNT'}
    define(eng, DEFERRED, {})
    define(eng, COPIED, {'source': field(Obj(DEP))}, bases=[DEP])


# ---- the abstract contract of a dependency
class Evaluate(OpaqueMethod):
    """Succeeds or raises DependencyLocked."""

    def __init__(self):
        pass

    def apply(self, eng, fn, args, kwargs):
        a = self.args(eng, fn, args, kwargs)
        eng.event('method evaluate', a)
        locked = query(eng, 'locked', a, BOOL)
        if eng.branch(eng.truth(locked)):
            raise Raise(query(eng, 'locked_error', a, Obj(LOCKED)))
        return NONE


class Extend(OpaqueMethod):
    """Takes the other dependency in and returns True, or does nothing and returns False."""

    def __init__(self):
        pass

    def apply(self, eng, fn, args, kwargs):
        a = self.args(eng, fn, args, kwargs)
        if eng.branch(eng.truth(query(eng, 'takes', a, BOOL))):
            eng.event('method extend', a)
            return V.boo(TRUE)
        return V.boo(FALSE)


class Copy(OpaqueMethod):
    def __init__(self):
        pass

    def apply(self, eng, fn, args, kwargs):
        t, = self.args(eng, fn, args, kwargs)
        o = eng.alloc(('obj', COPIED, True))
        eng.setfield(o, 'source', t)
        return o


def interface(eng):
    eng.contracts[DEP + '.evaluate'] = Evaluate()
    eng.contracts[DEP + '.extend'] = Extend()
    eng.contracts[DEP + '.__copy__'] = Copy()


ENV = envs(interface, opaque_methods(DEP, ['invalidate', 'acquire', 'release'], raises=False, result=None))


def recursive(eng):
    """The call of extend for each part of another composite dependency, by contract."""
    k = COMP + '.extend'
    eng.contracts[k] = OpaqueMethod('extend', False, None)
    eng.inline = eng.inline - {k}


# ---- deferred reads: a sequence of units; get takes the newest one and gives its outcome
DEFERRED = D + 'defer.Deferred'


def unit(eng, o, i):
    return eng.gmap('UNIT').get(o, V.num(z3.ToReal(i) if i.sort() == z3.IntSort() else i))


def count(eng, o):
    n = lib.simplify_under(eng, eng.gmap('COUNT').get(o), TRUE, None)
    return n.arg(0) if ctor(n) == 'num' else V.nv(n)


def push(eng, o, u):
    n = count(eng, o)
    eng.gput('UNIT', (o, V.num(n)), u)
    eng.gput('COUNT', (o,), V.num(z3.simplify(n + 1)))


def d_init(eng, args, kwargs):
    """A deferred of nothing. The one of no backend operation, that is."""
    self, executor, factory = args
    if ctor(executor) != 'none' or kwargs or not factory.eq(fn_term(eng, D + 'defer.NoneDeferredIterator')):
        raise Unsupported('a deferred of another operation')
    eng.gput('COUNT', (self,), eng.const(0))
    return NONE


def d_iadd(eng, args, kwargs):
    """The units of the other one are newer than those of this one. (Here: of at most one unit.)"""
    self, other = args
    n = count(eng, other)
    if not z3.is_rational_value(z3.simplify(n)):
        raise Unsupported('adding an unknown number of deferred reads')
    n = z3.simplify(n).numerator_as_long()
    for u in [lib.simplify_under(eng, unit(eng, other, z3.RealVal(i)), TRUE, None) for i in range(n)]:
        push(eng, self, u)
    return self


def d_callback(eng, args, kwargs):
    if kwargs:
        raise Unsupported('keyword arguments of a callback')
    push(eng, args[0], eng.tup(list(args[1:])))
    return args[0]


def d_get(eng, args, kwargs):
    self, = args
    n = count(eng, self)
    if eng.branch(n <= 0):
        raise Raise(eng.exc('builtins.StopIteration', []))
    n = z3.simplify(n - 1, som=True)
    eng.gput('COUNT', (self,), V.num(n))
    u = eng.pick(lib.simplify_under(eng, unit(eng, self, n), TRUE, None))
    items = eng.untup(u)
    if items is None:
        raise Unsupported('an unknown deferred read')
    if items[0].eq(eng.const('validation')):
        return outcome(eng, *items[1:])
    return eng.call(items[0], [self, NONE] + items[1:], {})


def outcome(eng, d, cache, version):
    """Whether a dependency is invalid, and the error that says so, is a function of the state at the time of the read."""
    a = [d, cache, version]
    if eng.branch(eng.truth(query(eng, 'invalid', a, BOOL))):
        raise Raise(query(eng, 'invalid_error', a, Obj(INVALID)))
    return NONE


class Validate(OpaqueMethod):
    """A deferred of one unit, whose outcome is that of the dependency."""

    def __init__(self):
        pass

    def apply(self, eng, fn, args, kwargs):
        d, cache, version = self.args(eng, fn, args, kwargs)
        o = eng.alloc(('obj', DEFERRED, True))
        eng.gput('COUNT', (o,), eng.const(0))
        push(eng, o, eng.tup([eng.const('validation'), d, cache, version]))
        return o


def deferred(eng):
    eng.contracts[DEP + '.validate'] = Validate()
    for n, f in {'__init__': d_init, '__iadd__': d_iadd, 'add_callback': d_callback, 'get': d_get}.items():
        eng.overrides[DEFERRED, n] = f


def s_validate(c, self, cache, version):
    """The errors of all invalid parts, the newest part first."""
    errors = c.list()
    n = c.builtin('len', parts(c, self))

    def one(i):
        d = lib.getitem(c.eng, parts(c, self), V.num(z3.simplify(V.nv(n) - 1 - V.nv(i), som=True)))
        try:
            outcome(c.eng, d, cache, version)
        except Raise as e:
            lib.m_list_append(c.eng, errors, e.value)
    c.foreach(c.builtin('range', n), one)
    if c.truth(errors):
        c.throw(CINVALID, self, errors)
    return NONE


def run_validate(c, fn, self, cache, version):
    return c.method(c.call(fn, [self, cache, version]), 'get')


def parts(c, self):
    return c.field(self, 'delegates')


def s_evaluate(c, self, cache, transaction, version):
    items = c.list()

    def one(d):
        try:
            method(c, DEP, 'evaluate', d, cache, transaction, version)
        except Raise as e:
            lib.m_list_append(c.eng, items, e.value)
    c.foreach(parts(c, self), one)
    if c.truth(items):
        c.throw(CLOCKED, self, items)
    return NONE


def each(name, *names):
    def spec(c, self, **kw):
        c.foreach(parts(c, self), lambda d: method(c, DEP, name, d, *[kw[n] for n in names]))
        return NONE
    return spec


def s_init(c, self, delegates):
    c.setfield(self, 'delegates', c.builtin('list', delegates))
    return NONE


def s_extend(c, self, other):
    if c.isinstance(other, COMP):
        c.foreach(parts(c, other), lambda d: method(c, COMP, 'extend', self, d))
        return c.const(True)
    taken = []

    def one(d):
        if c.truth(method(c, DEP, 'extend', d, other)):
            taken.append(d)
            raise BreakEx()
    c.foreach(parts(c, self), one)
    if not taken:
        lib.m_list_append(c.eng, parts(c, self), c.call(c.fn(DEP + '.__copy__'), [other]))
    return c.const(True)


def s_copy(c, self):
    o = c.new(COMP)
    ds = c.list()
    c.foreach(parts(c, self), lambda d: lib.m_list_append(c.eng, ds, c.call(c.fn(DEP + '.__copy__'), [d])))
    c.setfield(o, 'delegates', ds)
    return o


def contracts():
    tx = ('transaction', Obj(TX))
    me = ('self', ('self', COMP))
    cache, ver = ('cache', Obj(CACHE)), ('version', [NONE_T, NUM])
    kw = dict(call_mode=False, env=ENV)
    du = ('self', ('self', DUMMY))
    nothing = lambda c, **a: NONE
    return [
        Contract(COMP + '.__init__', s_init, [me, ('delegates', ('tuple', (Obj(DEP),)))], props={'*': ['C10', 'C11']}, **kw),
        Contract(COMP + '.evaluate', s_evaluate, [me, cache, tx, ver], props={'*': ['C10', 'C06']}, **kw),
        Contract(COMP + '.invalidate', each('invalidate', 'cache', 'version'), [me, cache, ver], props={'*': ['C10', 'C01', 'C07']}, **kw),
        Contract(COMP + '.acquire', each('acquire', 'cache', 'transaction', 'version'), [me, cache, tx, ver],
                 props={'*': ['C10', 'C06']}, **kw),
        Contract(COMP + '.release', each('release', 'cache', 'transaction', 'delay', 'version'),
                 [me, cache, tx, ('delay', NUM), ver], props={'*': ['C10', 'C07']}, **kw),
        Contract(COMP + '.validate', s_validate, [me, cache, ver], props={'*': ['C10', 'C03', 'C01']}, call_mode=False,
                 run=run_validate, env=envs(ENV, deferred), ignore=('COUNT', 'UNIT')),
        Contract(DUMMY + '.validate', nothing, [du, cache, ver], props={'*': ['C10']}, call_mode=False,
                 run=run_validate, env=envs(ENV, deferred), ignore=('COUNT', 'UNIT')),
        Contract(COMP + '.extend', s_extend, [me, ('other', Obj(DEP))], props={'*': ['C10', 'C11']}, call_mode=False,
                 env=envs(ENV, recursive)),
        Contract(COMP + '.__copy__', s_copy, [me], props={'*': ['C11']}, **kw),
        Contract(DUMMY + '.evaluate', nothing, [du, cache, tx, ver], props={'*': ['C10']}, **kw),
        Contract(DUMMY + '.invalidate', nothing, [du, cache, ver], props={'*': ['C10']}, **kw),
        Contract(DUMMY + '.acquire', nothing, [du, cache, tx, ver], props={'*': ['C10']}, **kw),
        Contract(DUMMY + '.release', nothing, [du, cache, tx, ('delay', NUM), ver], props={'*': ['C10']}, **kw),
        Contract(DUMMY + '.extend', lambda c, self, other: c.const(c.isinstance(other, DUMMY)),
                 [du, ('other', Obj(DEP))], props={'*': ['C10', 'C11']}, **kw),
        Contract(DUMMY + '.__copy__', lambda c, self: c.new(DUMMY), [du], props={'*': ['C11']}, **kw),
    ]
