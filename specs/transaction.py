"""Contracts of transaction.py and mixins.py."""
from .model import *
from dv.contract import Contract

T = D + 'transaction.'
TR = T + 'Transaction'
SP = T + 'SavePoint'
DT = T + 'DummyTransaction'
MG = T + 'TransactionManager'
TS = T + 'ThreadSafeTransactionManagerDecorator'
AT = T + 'AbstractTransaction'
AM = T + 'AbstractTransactionManager'
MX = D + 'mixins.ThreadSafeDecoratorMixIn'


def install(eng):
    define(eng, AT, {'_lock': field(Obj(LOCK))})
    define(eng, DT, {})
    deps = ('dict', (ANY,), (Obj(COMP, True),))
    define(eng, TR, {'_dependencies': field(deps, owned=True), '_start_time': field(NUM),
                     '_end_time': field([NONE_T, NUM])})
    define(eng, SP, {'_parent': field(Obj(TR))})
    define(eng, MG, {'_lock': field(Obj(LOCK)), '_current': field([NONE_T, Obj(TR)])})
    define(eng, MX, {'_delegate': field(ANY), '_thread_id': field(NUM)})
    define(eng, LOCK, {}, closed=False)
    define(eng, TX, {}, closed=False)


def undef(c):
    return c.eng.modules['cache_dependencies.utils'].env['Undef']


PARENT = opaque_methods(TR, ['parent'], result=[NONE_T, Obj(TR)], pure=True)
LOCKS = opaque_methods(LOCK, ['acquire', 'release', 'evaluate'])
QUIET = opaque_methods(LOCK, ['acquire', 'release'], raises=False)
EXT = opaque_methods(COMP, ['extend'])


def method(c, cls, name, o, *args):
    """The call of a method as the environment defines it."""
    return c.eng.call(c.fn(cls + '.' + name), [o] + list(args), {})


def s_lock_evaluate(c, self, dependency, version):
    return method(c, LOCK, 'evaluate', c.field(self, '_lock'), dependency, self, version)


def s_new_tx(c, self, lock):
    c.setfield(self, '_lock', lock)
    c.setfield(self, '_dependencies', c.dict())
    c.setfield(self, '_start_time', c.now())
    c.setfield(self, '_end_time', NONE)
    return NONE


def s_new_sp(c, self, lock, parent):
    s_new_tx(c, self, lock)
    c.setfield(self, '_parent', parent)
    return NONE


def s_add(c, self, dependency, version):
    d = c.field(self, '_dependencies')
    if not c.branch(c.has(d, version)):
        comp = c.call(c.fn(COMP))
        c.put(d, version, comp)
    method(c, COMP, 'extend', c.item(d, version), dependency)
    method(c, LOCK, 'acquire', c.field(self, '_lock'), dependency, self, version)
    return NONE


def s_sp_add(c, self, dependency, version):
    s_add(c, self, dependency, version)
    method(c, TR, 'add_dependency', c.field(self, '_parent'), dependency, version)
    return NONE


def s_finish(c, self):
    c.setfield(self, '_end_time', c.now())
    lock = c.field(self, '_lock')
    c.foreach(c.field(self, '_dependencies'), lambda v, d: method(c, LOCK, 'release', lock, d, self, v), view='items')
    return NONE


def s_end_time(c, self):
    e = c.field(self, '_end_time')
    if c.is_(e, NONE):
        c.raise_('builtins.RuntimeError')
    return e


def s_cur(c, self):
    cur = c.field(self, '_current')
    if c.is_(cur, NONE):
        return c.new(DT, _lock=c.field(self, '_lock'))
    return cur


def s_current(c, self, node):
    if c.is_(node, undef(c)):
        return s_cur(c, self)
    c.setfield(self, '_current', node)
    return NONE


def set_current(c):
    k = c.eng.choose(3)
    return {'node': undef(c) if k == 0 else NONE if k == 1 else c.eng.param('node', Obj(TR))}


def s_begin(c, self):
    cur = c.field(self, '_current')
    if c.is_(cur, NONE):
        tx = c.new(TR)
        s_new_tx(c, tx, c.field(self, '_lock'))
    else:
        tx = c.new(SP)
        s_new_sp(c, tx, c.field(self, '_lock'), cur)
    c.setfield(self, '_current', tx)
    return tx


def s_mfinish(c, self):
    cur = c.field(self, '_current')
    if not c.is_(cur, NONE):
        method(c, TR, 'finish', cur)
        c.setfield(self, '_current', method(c, TR, 'parent', cur))
    return NONE


def pre_flush(c, self):
    """The scopes open in a thread: the innermost one and those around it, outwards."""
    c.chain(c.field(self, '_current'), lambda t: c.eng.decl('Q_parent', V, V)(t), Obj(TR))


def s_flush(c, self):
    """Every open scope ends, innermost first; none is left open."""
    tx = c.eng.state.extra['chains'][0]
    c.walk(tx, lambda t: method(c, TR, 'finish', t))
    c.setfield(self, '_current', NONE)
    return NONE


def s_decorated(c, f, self, args, kw):
    """begin; the call; finish on every outcome."""
    method(c, TM, 'begin', self)
    try:
        r = c.call(f, [Star(args)], {'**': Star(kw, True)})
    except Raise:
        method(c, TM, 'finish', self)
        raise
    method(c, TM, 'finish', self)
    return r


def s_call(c, self, func):
    if c.is_(func, NONE):
        return self

    def params(cc):
        return [Star(cc.eng.param('args', ANY))], {'**': Star(cc.eng.param('kw', ANY), True)}

    def spec(cc, *args, **kw):
        return s_decorated(cc, func, self, args[0].term, kw['**'].term)
    return c.callable(spec, params)


def contracts():
    tx_self, sp_self, mg_self = ('self', ('self', TR)), ('self', ('self', SP)), ('self', ('self', MG))
    dep, ver = ('dependency', Obj(DEP)), ('version', ANY)
    out = [
        Contract(AT + '.get_session_id', lambda c, self: c.call(c.fn(D + 'utils.get_thread_id')), [tx_self],
                 props={'*': ['C07', 'C06']}, name='tx',
                 env=opaque_methods(D + 'utils', [])),
        Contract(AT + '.evaluate', s_lock_evaluate, [('self', Obj(AT)), dep, ver], props={'*': ['C07', 'C06']}, env=LOCKS),
        Contract(TR + '.__init__', s_new_tx, [tx_self, ('lock', Obj(LOCK))], props={'*': ['C07', 'C08']}, call_mode=False),
        Contract(SP + '.__init__', s_new_sp, [sp_self, ('lock', Obj(LOCK)), ('parent', Obj(TR))], props={'*': ['C08']},
                 call_mode=False),
        Contract(TR + '.add_dependency', s_add, [tx_self, dep, ver], props={'*': ['C07', 'C08']}, call_mode=False,
                 env=envs(LOCKS, EXT)),
        Contract(SP + '.add_dependency', s_sp_add, [sp_self, dep, ver], props={'*': ['C08']}, call_mode=False,
                 inline=[TR + '.add_dependency'], env=envs(LOCKS, EXT, sp_parent)),
        Contract(TR + '.finish', s_finish, [tx_self], props={'*': ['C07']}, call_mode=False, env=QUIET,
                 assumes=['releasing a lock does not raise (a backend failure while a transaction ends)']),
        Contract(TR + '.__bool__', lambda c, self: c.const(True), [tx_self], props={'*': ['C09', 'C07']}, call_mode=False,
                 ret='truth'),
        Contract(DT + '.__bool__', lambda c, self: c.const(False), [('self', ('self', DT))], props={'*': ['C09']},
                 call_mode=False, ret='truth'),
        Contract(DT + '.__init__', lambda c, self, lock: (c.setfield(self, '_lock', lock), NONE)[1],
                 [('self', ('self', DT)), ('lock', Obj(LOCK))], props={'*': ['C07', 'C09']}, call_mode=False),
        Contract(DT + '.parent', lambda c, self: NONE, [('self', ('self', DT))], props={'*': ['C09']}, call_mode=False),
        Contract(DT + '.get_start_time', lambda c, self: c.now(), [('self', ('self', DT))], props={'*': ['C07', 'C06']},
                 call_mode=False),
        Contract(DT + '.get_end_time', lambda c, self: c.now(), [('self', ('self', DT))], props={'*': ['C07']},
                 call_mode=False),
        Contract(SP + '.finish', lambda c, self: NONE, [sp_self], props={'*': ['C08']}, call_mode=False),
        Contract(DT + '.finish', lambda c, self: NONE, [('self', ('self', DT))], props={'*': ['C09']}, call_mode=False),
        Contract(DT + '.add_dependency', lambda c, self, dependency, version: NONE, [('self', ('self', DT)), dep, ver],
                 props={'*': ['C07']}, call_mode=False),
        Contract(TR + '.parent', lambda c, self: NONE, [tx_self], props={'*': ['C09']}, call_mode=False),
        Contract(SP + '.parent', lambda c, self: c.field(self, '_parent'), [sp_self], props={'*': ['C08', 'C09']},
                 call_mode=False),
        Contract(TR + '.get_start_time', lambda c, self: c.field(self, '_start_time'), [tx_self], props={'*': ['C07']},
                 call_mode=False),
        Contract(TR + '.get_end_time', s_end_time, [tx_self], props={'*': ['C07']}, call_mode=False),
        Contract(SP + '.get_start_time', lambda c, self: method(c, TR, 'get_start_time', c.field(self, '_parent')), [sp_self],
                 props={'*': ['C08']}, call_mode=False, env=opaque_methods(TR, ['get_start_time'], result=NUM, pure=True)),
        Contract(SP + '.get_end_time', lambda c, self: method(c, TR, 'get_end_time', c.field(self, '_parent')), [sp_self],
                 props={'*': ['C08']}, call_mode=False, env=opaque_methods(TR, ['get_end_time'], result=NUM)),
        Contract(MG + '.__init__', lambda c, self, lock: (c.setfield(self, '_lock', lock), c.setfield(self, '_current', NONE),
                                                          NONE)[2],
                 [mg_self, ('lock', Obj(LOCK))], props={'*': ['C09']}, call_mode=False),
        Contract(MG + '.current', s_current, [mg_self, ('node', ANY)], setup=set_current, props={'*': ['C09', 'C08']},
                 call_mode=False),
        Contract(MG + '.begin', s_begin, [mg_self], props={'*': ['C09', 'C08']}, call_mode=False),
        Contract(MG + '.finish', s_mfinish, [mg_self], props={'*': ['C09', 'C08']}, call_mode=False,
                 env=envs(PARENT, opaque_methods(TR, ['finish']))),
        Contract(MG + '.flush', s_flush, [mg_self], pre=pre_flush, props={'*': ['C09', 'C21']}, call_mode=False,
                 env=envs(PARENT, opaque_methods(TR, ['finish'], raises=False)),
                 assumes=['the scopes open in a thread form a finite chain of enclosing scopes',
                          'finishing a scope does not raise (a backend failure while a transaction ends)']),
        Contract(AM + '.__enter__', lambda c, self: (method(c, TM, 'begin', self), NONE)[1], [('self', Obj(AM))],
                 props={'*': ['C09']}, call_mode=False, env=opaque_methods(TM, ['begin', 'finish'])),
        Contract(AM + '.__exit__', lambda c, self, args: (method(c, TM, 'finish', self), c.const(False))[1],
                 [('self', Obj(AM)), ('args', ANY)], props={'*': ['C09']}, call_mode=False, ret='truth',
                 env=opaque_methods(TM, ['begin', 'finish'])),
        Contract(AM + '.__call__', s_call, [('self', Obj(AM)), ('func', [NONE_T, CALL])], props={'*': ['C09']},
                 call_mode=False, env=opaque_methods(TM, ['begin', 'finish'])),
        Contract(MX + '.__init__', lambda c, self, delegate: (c.setfield(self, '_delegate', delegate),
                                                              c.setfield(self, '_thread_id', c.eng.state.extra['ident']),
                                                              NONE)[2],
                 [('self', ('self', TS)), ('delegate', Obj(TM))], props={'*': ['C13']}, call_mode=False),
    ]
    return out


def sp_parent(eng):
    """The parent of a savepoint: its add_dependency is that of any transaction."""
    inner = eng.contracts.get(TR + '.add_dependency')
    eng.contracts[TR + '.add_dependency'] = OpaqueMethod('add_dependency')
