"""Contracts of locks.py."""
from .model import *
from dv.contract import Contract
from dv.engine import Partial
from .transaction import method

L = D + 'locks.'
DL, RU, RC = L + 'DependencyLock', L + 'ReadUncommittedDependencyLock', L + 'ReadCommittedDependencyLock'
RR, SER = L + 'RepeatableReadDependencyLock', L + 'SerializableDependencyLock'
LEVELS = [('READ UNCOMMITTED', RU), ('READ COMMITTED', RC), ('REPEATABLE READ', RR), ('SERIALIZABLE', SER)]
DEPS = opaque_methods(DEP, ['evaluate', 'invalidate', 'acquire', 'release'])


def install(eng):
    define(eng, DL, {'_cache': field(CALL), '_delay': field(NUM)})

    def timer(e, a, k):
        o = e.alloc(('obj', 'threading.Timer', True))
        names = ['interval', 'function', 'args', 'kwargs']
        env = dict(zip(names, a), **k)
        for n in names[:2]:
            e.setfield(o, n, env[n])
        e.setfield(o, 'args', env.get('args', NONE))
        e.setfield(o, 'kwargs', env.get('kwargs', NONE))
        return o

    def start(e, a, k):
        o = a[0]
        f, args, kwargs = e.getfield(o, 'function'), e.getfield(o, 'args'), e.getfield(o, 'kwargs')
        items = [] if args.eq(NONE) else lib.concrete_items(e, args)
        if items is None or not kwargs.eq(NONE):
            raise Unsupported('arguments of a timer')
        e.event('timer', [e.getfield(o, 'interval'), e.mkfn(Partial(f, list(items), {}))])
        return NONE
    eng.handlers['threading.Timer'] = timer
    eng.handlers['threading.Timer.start'] = start
    define(eng, 'threading.Timer', {}, getattr=lambda e, t, n: e.mkfn(Partial(e.mkfn(Ext('threading.Timer.' + n)), [t], {})))


def cache(c, self):
    return c.call(c.field(self, '_cache'))


def s_make(c, isolation_level, thread_safe_cache_accessor, delay):
    for name, cls in LEVELS:
        if c.branch(isolation_level == c.const(name)):
            return c.new(cls, _cache=thread_safe_cache_accessor, _delay=delay)
    c.raise_('builtins.ValueError', isolation_level)


def s_init(c, self, thread_safe_cache_accessor, delay):
    c.setfield(self, '_cache', thread_safe_cache_accessor)
    c.setfield(self, '_delay', delay)
    return NONE


def s_eval(c, self, dependency, transaction, version):
    method(c, DEP, 'evaluate', dependency, cache(c, self), transaction, version)
    return NONE


def again(c, self, dependency, version):
    method(c, DEP, 'invalidate', dependency, cache(c, self), version)
    return NONE


def s_ru(c, self, dependency, transaction, version):
    """Only after the delay."""
    if c.truth(c.field(self, '_delay')):
        c.event('timer', c.field(self, '_delay'), c.callable(lambda cc: again(cc, self, dependency, version)))
    return NONE


def s_rc(c, self, dependency, transaction, version):
    """At once and, with a delay, once more after it."""
    again(c, self, dependency, version)
    return s_ru(c, self, dependency, transaction, version)


def s_rr_acq(c, self, dependency, transaction, version):
    method(c, DEP, 'acquire', dependency, cache(c, self), transaction, version)
    return NONE


def s_rr_rel(c, self, dependency, transaction, version):
    method(c, DEP, 'release', dependency, cache(c, self), transaction, c.field(self, '_delay'), version)
    return NONE


def nothing(c, **kw):
    return NONE


def contracts():
    three = [('dependency', Obj(DEP)), ('transaction', Obj(TX)), ('version', ANY)]
    P6, P7 = {'*': ['C06']}, {'*': ['C07']}
    kw = dict(call_mode=False, env=DEPS)
    out = [
        Contract(DL + '.__init__', s_init, [('self', Obj(DL)), ('thread_safe_cache_accessor', CALL), ('delay', NUM)],
                 props={'*': ['C07', 'C06']}, call_mode=False),
        Contract(DL + '.make', s_make, [('isolation_level', ANY), ('thread_safe_cache_accessor', CALL), ('delay', NUM)],
                 props={'*': ['C07', 'C14']}, call_mode=False),
        Contract(DL + '.evaluate', s_eval, [('self', Obj(DL))] + three, props=P6, name='lock', **kw),
        Contract(RU + '.acquire', nothing, [('self', ('self', RU))] + three, props=P7, **kw),
        Contract(RU + '.release', s_ru, [('self', ('self', RU))] + three, props=P7, **kw),
        Contract(RC + '.release', s_rc, [('self', ('self', RC))] + three, props=P7, **kw),
        Contract(RC + '.acquire', nothing, [('self', ('self', RC))] + three, props=P7, **kw),
    ]
    for cls in (RR, SER):
        out += [Contract(cls + '.acquire', s_rr_acq, [('self', ('self', cls))] + three, props={'*': ['C07', 'C06']}, **kw),
                Contract(cls + '.release', s_rr_rel, [('self', ('self', cls))] + three, props={'*': ['C07', 'C06']}, **kw)]
    return out
