"""Contracts of the collection of caches, the default cache and the end of a request (django_cache_dependencies)."""
from .model import *
from dv.contract import Contract, fn_term
from dv.lemma import Lemma
from dv.engine import View
from .transaction import method
from .tagging import CT, CW

CC = DJ + 'CacheCollection'
LOCAL = 'threading.local'
MAP = ('dict', (ANY,), (Obj(CT, True),))


def install(eng):
    from . import cache, locks, transaction
    for m in (transaction, locks, cache):
        if hasattr(m, 'install'):
            m.install(eng)
    define(eng, CC, {'ctx': field(Obj(LOCAL, True))})
    define(eng, REG, {'_registry': field(('list', (ANY,)), owned=True)})
    define(eng, PROXY, {})
    define(eng, LOCAL, {'caches': field(MAP, owned=True, optional=True)})


def mine(c, coll):
    """The caches of the current thread."""
    l = c.field(coll, 'ctx')
    if not c.branch(c.hasfield(l, 'caches')):
        c.setfield(l, 'caches', c.dict())
    return c.field(l, 'caches')


def items_of(eng, kw):
    """frozenset(kwargs.items()) as a value: equal for equal arguments, different for different ones."""
    return eng.pure('arguments', [kw], ANY)


def frozen(eng, args, kwargs):
    if args:
        v = eng.entry(args[0])
        if isinstance(v, View) and v.which == 'items' and len(args) == 1:
            if eng.kinds.get(v.d.arg(0).as_long() if ctor(v.d) == 'ref' else None):
                raise Unsupported('frozenset of the items of a new dict')
            return items_of(eng, v.d)
    return eng.plain_frozenset(eng, args, kwargs)


class SelfCall(OpaqueMethod):
    """collection(alias, *args, **kwargs) by its own contract: the object of this thread for these arguments."""

    def __init__(self):
        self.raises, self.result = False, Obj(CT, True)

    def apply(self, eng, fn, args, kwargs):
        a = eng.bindargs(fn, args, kwargs)
        alias = a['backend']
        if not eng.branch(eng.truth(alias)):
            alias = eng.const('default')
        kw = a['kwargs'] if kwargs else NIL
        return query(eng, 'cache_of_thread', [a['self'], alias, a['args'], kw, eng.state.extra['ident']],
                     self.result)


def call_env(eng):
    eng.plain_frozenset = getattr(eng, 'plain_frozenset', None) or eng.handlers['builtins.frozenset']
    eng.handlers['builtins.frozenset'] = frozen
    eng.contracts[CC + '.__call__'] = SelfCall()
    eng.inline = eng.inline - {CC + '.__call__'}


def configured(c, alias):
    """The options of the alias, {} without any."""
    st = c.eng.ext_terms['django.conf.settings'](c.eng)
    if c.branch(c.hasfield(st, 'CACHE_TAGGING')) and c.branch(c.has(c.field(st, 'CACHE_TAGGING'), alias)):
        return c.item(c.field(st, 'CACHE_TAGGING'), alias)
    return None


def option(c, opts, name, default):
    if opts is not None and c.branch(c.has(opts, c.const(name))):
        return c.item(opts, c.const(name))
    return default


def s_call(c, self, backend, args, kwargs):
    alias = backend if c.truth(backend) else c.const('default')
    d = mine(c, self)
    key = c.tup([alias, args, items_of(c.eng, kwargs)])
    if c.branch(c.has(d, key)):
        return c.item(d, key)
    opts = configured(c, alias)
    delay = option(c, opts, 'DELAY', c.const(0))
    if not c.truth(delay):
        delay = c.const(0)
    level = option(c, opts, 'ISOLATION_LEVEL', c.const('READ COMMITTED'))
    native = query(c.eng, 'configured_cache', [c.eng.ext_terms['django.core.cache.caches'](c.eng),
                                               option(c, opts, 'BACKEND', alias)], Obj(CACHE))

    def accessor(c):
        """The wrapper of whatever thread asks."""
        t = query(c.eng, 'cache_of_thread', [self, alias, args, kwargs, c.eng.state.extra['ident']], Obj(CT, True))
        return c.field(t, 'cache')
    lock = c.call(c.fn(D + 'locks.DependencyLock.make'), [level, c.callable(accessor, []), delay])
    make = lambda cls, *a: c.call(c.fn(D + cls), list(a))
    tm = make('transaction.ThreadSafeTransactionManagerDecorator', make('transaction.TransactionManager', lock))
    rm = make('relations.ThreadSafeRelationManagerDecorator', make('relations.RelationManager'))
    r = c.new(CT, cache=c.new(CW, cache=native, ignore_descendants=c.const(False), transaction=tm, relation_manager=rm))
    c.put(d, key, r)
    return r


def s_getitem(c, self, alias):
    return c.call(c.fn(CC + '.__call__'), [self, alias])


def s_all(c, self):
    return c.call(c.getattr(mine(c, self), 'values'))


def s_caches(c, self):
    return mine(c, self)


PROXY = DJ + 'DefaultCacheProxy'


def default_cache(c):
    return c.call(c.fn(CC + '.__call__'), [c.fn(DJ + 'caches'), c.const('default')])


def attr_names(c):
    names = ['set', 'get', 'get_many', 'get_or_set_callback', 'invalidate_tags', 'begin', 'abort', 'finish', 'close',
             'transaction', 'relation_manager', 'ignore_descendants', 'cache']
    n = names[c.eng.choose(len(names))]
    c.eng.state.extra['attr'] = n
    return {'name': c.const(n)}


def attr_written(c):
    n = ['ignore_descendants', 'cache'][c.eng.choose(2)]
    c.eng.state.extra['attr'] = n
    return {'name': c.const(n)}


def s_pgetattr(c, self, name):
    return c.getattr(default_cache(c), c.eng.state.extra['attr'])


def s_psetattr(c, self, name, value):
    c.eng.setattr(default_cache(c), c.eng.state.extra['attr'], value)
    return NONE


def s_pcontains(c, self, key):
    return c.call(c.fn(CT + '.__contains__'), [default_cache(c), key])


def s_peq(same):
    def spec(c, self, other):
        e = lib.equal(c.eng, default_cache(c), other, False)
        return V.boo(e if same else Not(e))
    return spec


def s_close(c, kwargs):
    """Every cache of the current thread, and no other."""
    c.foreach(mine(c, c.fn(DJ + 'caches')), lambda t: method(c, CW, 'close', c.field(t, 'cache')), view='values')
    return NONE


# ---- model signals
COLLS = ['builtins.list', 'builtins.tuple', 'builtins.set', 'builtins.frozenset']


def s_clear(c, tags_func, cache_alias, args, kwargs):
    """Invalidates the tags the function computes for the changed object, in the registered cache of this thread."""
    if not c.branch(c.has(kwargs, c.const('instance'))):
        c.raise_('builtins.KeyError', c.const('instance'))
    obj = c.item(kwargs, c.const('instance'))
    try:
        tags = c.call(tags_func, [Star(args)], {'**': Star(kwargs, True)})
    except Raise as r:
        if not c.isinstance(r.value, 'builtins.TypeError'):
            raise
        tags = c.call(tags_func, [obj])
    if not c.isinstance(tags, *COLLS):
        tags = c.tup([tags])
    cache = cache_alias
    if c.isinstance(cache_alias, 'builtins.str'):
        cache = c.call(c.fn(CC + '.__call__'), [c.fn(DJ + 'caches'), cache_alias])
    c.call(c.fn(CT + '.invalidate_tags'), [cache, Star(tags)])
    return NONE


REG = DJ + 'CacheRegistry'
SIGNALS = ['post_save', 'pre_delete']


def curry_env(eng):
    def curry(e, a, k):
        if k:
            raise Unsupported('curry with keywords')
        return e.pure('curry', [a[0], e.args_term(a[1:])], [Obj('builtins.object')])
    eng.handlers['django.utils.functional.curry'] = eng.handlers['functools.partial'] = curry

    def connect(name):
        def h(e, a, k):
            k = dict(k)
            names = ['receiver', 'sender', 'weak', 'dispatch_uid']
            v = [a[i] if i < len(a) else k.pop(n, {'weak': TRUE_V}.get(n, NONE)) for i, n in enumerate(names)]
            if k:
                raise Unsupported('connect with other arguments')
            if z3.is_app(v[0]) and v[0].decl().name() != 'pure:curry':
                raise Unsupported('a receiver that is not a curried function')
            e.event('connect ' + name, v)
            return NONE
        return h
    for n in SIGNALS + ['pre_save', 'post_delete', 'pre_init', 'post_init', 'm2m_changed', 'class_prepared']:
        eng.handlers['django.db.models.signals.%s.connect' % n] = connect(n)


TRUE_V = V.boo(TRUE)


def pairs_or_more(c, self, model_tags):
    """Every registered element has at least a model and a function."""
    i = z3.Int('i')
    ln = c.eng.decl('LEN0', V, z3.IntSort())
    el = c.eng.decl('ELEM0', V, z3.IntSort(), V)(model_tags, i)
    c.eng.assume(z3.ForAll([i], ln(el) >= 2, patterns=[ln(el)]))


def s_register(c, self, model_tags):
    """Both signals of every model call _clear_cached with the function and the cache of its element, and stay connected."""
    c.eng.call(c.getattr(c.field(self, '_registry'), 'append'), [model_tags], {})

    def connect(data):
        it = lambda i: lib.getitem(c.eng, data, c.const(i))
        cache = c.const('default')
        if c.branch(c.eng.getlist(data).length() > 2) and c.truth(it(2)):
            cache = it(2)
        r = c.eng.pure('curry', [c.fn(DJ + '_clear_cached'), c.tup([it(1), cache])], [Obj('builtins.object')])
        for n in SIGNALS:
            c.event('connect ' + n, r, it(0), V.boo(FALSE), NONE)
    c.foreach(model_tags, connect)
    return NONE


def l_end(L):
    """Loading the package connects close_caches to the end of requests."""
    eng = L.eng
    want = fn_term(eng, DJ + 'close_caches')
    about = [(n, a, k) for n, a, k in eng.load_calls if 'request_finished' in n or any(
        isinstance(eng.entry(x), Ext) and 'request_finished' in eng.entry(x).name for x in list(a) + list(k.values()))]
    ok = [1 for n, a, k in about if n == 'django.core.signals.request_finished.connect' and
          (a[0] if a else k.get('receiver', NONE)).eq(want)]
    if not ok and about:
        raise Unsupported('request_finished used in another way')
    L.prove('connected to request_finished', z3.BoolVal(bool(ok)))


def lemmas():
    return [Lemma('close_caches.connected', l_end, {'*': ['C14']})]


def contracts():
    me, px = ('self', ('self', CC)), ('self', ('self', PROXY))
    P = {'*': ['C14']}
    kw = dict(call_mode=False, props=P)
    return [
        Contract(CC + '.__init__', lambda c, self: (c.setfield(self, 'ctx', c.call(c.eng.mkfn(Ext('threading.local')))),
                                                    NONE)[1], [me], **kw),
        Contract(CC + '.__call__', s_call, [me, ('backend', [NONE_T, STR]), ('args', ('tuple', (ANY,))),
                                            ('kwargs', ('dict', (STR,), (ANY,)))], env=call_env, **kw),
        Contract(CC + '.__getitem__', s_getitem, [me, ('alias', [NONE_T, STR])], env=call_env, **kw),
        Contract(CC + '.all', s_all, [me], **kw),
        Contract(CC + '._caches', s_caches, [me], **kw),
        Contract(PROXY + '.__getattr__', s_pgetattr, [px, ('name', STR)], setup=attr_names, env=call_env, **kw),
        Contract(PROXY + '.__setattr__', s_psetattr, [px, ('name', STR), ('value', ANY)], setup=attr_written,
                 env=call_env, **kw),
        Contract(PROXY + '.__contains__', s_pcontains, [px, ('key', STR)],
                 env=envs(call_env, opaque_methods(CW, ['__contains__'], result=BOOL)), **kw),
        Contract(PROXY + '.__eq__', s_peq(True), [px, ('other', [NONE_T, STR, Obj(CT, True)])], env=call_env, **kw),
        Contract(PROXY + '.__ne__', s_peq(False), [px, ('other', [NONE_T, STR, Obj(CT, True)])], env=call_env, **kw),
        Contract(DJ + 'close_caches', s_close, [('kwargs', ('dict', (STR,), (ANY,)))],
                 env=opaque_methods(CW, ['close'], raises=False), **kw),
        Contract(DJ + '_clear_cached', s_clear,
                 [('tags_func', CALL), ('cache_alias', [STR, Obj(CT, True)]), ('args', ('tuple', (ANY,))),
                  ('kwargs', ('dict', (STR,), (ANY,)))], call_mode=False, props={'*': ['C19']},
                 env=envs(call_env, opaque_methods(CT, ['invalidate_tags']))),
        Contract(REG + '.__init__', lambda c, self: (c.setfield(self, '_registry', c.list()), NONE)[1],
                 [('self', ('self', REG))], call_mode=False, props={'*': ['C19']}),
        Contract(REG + '.register', s_register,
                 [('self', ('self', REG)), ('model_tags', ('list', (('tuple', (ANY,)),)))], pre=pairs_or_more,
                 call_mode=False, props={'*': ['C19']}, env=curry_env,
                 channels={'connect ' + n: n for n in SIGNALS}),
    ]
