"""Contracts of the page cache, the transaction middleware and the decorators (django_cache_dependencies)."""
import ast
from .model import *
from dv.contract import Contract, fn_term
from dv.engine import View
from .transaction import method
from .tagging import CT, CW
from .collection import call_env

MW = DJ + 'middleware.'
TXM, UPD, FET, CMW = MW + 'TransactionMiddleware', MW + 'UpdateCacheMiddleware', MW + 'FetchFromCacheMiddleware', \
    MW + 'CacheMiddleware'
UT = DJ + 'utils.'
REQ, RESP, SESS, USER = 'http.request', 'http.response', 'http.session', 'http.user'
TMS = opaque_methods(TM, ['begin', 'finish', 'flush'])


def effect(name, names, result=ANY, raises=True, defaults=()):
    """An external function with effects: an event with its arguments, any outcome."""
    d = dict(defaults)

    def h(eng, args, kwargs):
        k = dict(kwargs)
        v = [args[i] if i < len(args) else k.pop(n) if n in k else d[n] for i, n in enumerate(names)]
        if k or len(args) > len(names):
            raise Unsupported('arguments of %s' % name)
        return outcome(eng, name, v, result, raises)
    return h


def outcome(eng, name, v, result=ANY, raises=True):
    eng.event(name, v)
    if raises and eng.branch(eng.seqfresh('raises', z3.BoolSort())):
        e = eng.seqfresh('exc', V, Obj('builtins.Exception'))
        eng.assume(V.is_opq(e))
        raise Raise(e)
    if result is None:
        return NONE
    r = eng.seqfresh('res', V, result)
    eng.assume(eng.type_formula(r, list(result) if isinstance(result, list) else [result]))
    return r


def raw_header(eng, resp, name):
    return query(eng, 'header', [resp, name], STR)


def set_header(eng, a, k):
    outcome(eng, 'set header', a, None, False)
    return NONE


def install(eng):
    from . import collection
    collection.install(eng)
    alias = [STR]
    define(eng, MW + 'MiddlewareMixin', {'get_response': field([NONE_T, CALL])})
    define(eng, TXM, {'cache_alias': field(alias)})
    conf = {'cache_timeout': field([NONE_T, NUM]), 'key_prefix': field([NONE_T, STR]),
            'cache_anonymous_only': field([NONE_T, BOOL]), 'cache_alias': field(alias)}
    define(eng, FET, dict(conf))
    define(eng, UPD, dict(conf, tags=field([NONE_T, CALL])))
    define(eng, CMW, dict(conf, tags=field([NONE_T, CALL])))
    flag = [NONE_T, BOOL]
    define(eng, REQ, {'method': field(STR), '_cache_update_cache': field(flag, optional=True),
                      'session': field(Obj(SESS, True), optional=True), 'user': field(Obj(USER, True), optional=True),
                      'cache_tagging': field(('set', (ANY,)), optional=True)})
    define(eng, SESS, {'accessed': field(flag, optional=True)})
    define(eng, USER, {}, methods={'is_authenticated': lambda e, a, k: query(e, 'is_authenticated', a, BOOL)})
    define(eng, RESP, {'streaming': field(flag, optional=True), 'status_code': field(NUM), 'content': field(STR),
                       'render': field([NONE_T, CALL], optional=True)},
           methods={'has_header': lambda e, a, k: query(e, 'has_header', a, BOOL),
                    '__getitem__': lambda e, a, k: raw_header(e, *a),
                    '__setitem__': set_header,
                    'add_post_render_callback': lambda e, a, k: outcome(e, 'after rendering', a, None, False)},
           truth=lambda e, t: TRUE)
    H = eng.handlers
    H['django.utils.cache.get_max_age'] = lambda e, a, k: query(e, 'get_max_age', a, [NONE_T, NUM])
    H['django.utils.cache.cc_delim_re.split'] = split_header
    H['django.utils.cache.get_cache_key'] = effect('get_cache_key', ['request', 'prefix', 'method', 'cache'],
                                                   [NONE_T, STR], defaults={'prefix': NONE, 'cache': NONE})
    made = effect('_generate_cache_key', ['request', 'method', 'headerlist', 'key_prefix'], STR)

    def generate(e, a, k):      # only the content of the list matters
        k = dict(k)
        a = list(a) + [k.pop(n) for n in ['request', 'method', 'headerlist', 'key_prefix'][len(a):] if n in k]
        return made(e, a[:2] + [e.handlers['builtins.tuple'](e, [a[2]], {})] + a[3:], k)
    H['django.utils.cache._generate_cache_key'] = generate
    H['django.utils.cache._generate_cache_header_key'] = \
        lambda e, a, k: query(e, 'header_key', list(a) + [k[n] for n in ('key_prefix', 'request') if n in k], STR)


def iterables(eng):
    """set(x) of a value of unknown type: the elements of an iterable, as a function of it."""
    plain = eng.plain_set = getattr(eng, 'plain_set', None) or eng.handlers['builtins.set']

    def f(e, a, k):
        if len(a) == 1 and not isinstance(a[0], Star) and e.entry(a[0]) is None and \
                e.one_alt(e.pick(a[0]))[0] == 'any':
            a = [query(e, 'elements', a, ('tuple', (ANY,)))]
        return plain(e, a, k)
    eng.handlers['builtins.set'] = f


# ---- transaction middleware
def s_tx_init(c, self, get_response, kwargs):
    c.setfield(self, 'get_response', get_response)
    a = c.item(kwargs, c.const('cache_alias')) if c.branch(c.has(kwargs, c.const('cache_alias'))) else NONE
    c.setfield(self, 'cache_alias', c.const('default') if c.is_(a, NONE) else a)
    return NONE


def cache_named(c, alias):
    return c.call(c.fn(DJ + 'CacheCollection.__call__'), [c.fn(DJ + 'caches'), alias])


def tx_of(c, self):
    return c.field(c.field(cache_named(c, c.field(self, 'cache_alias')), 'cache'), 'transaction')


def s_tx(name, result):
    def spec(c, self, **a):
        method(c, TM, name, tx_of(c, self))
        return a[result] if result else NONE
    return spec


def s_tx_call(c, self, request):
    """begin; the view; flush; its response."""
    method(c, TM, 'begin', tx_of(c, self))
    r = c.call(c.field(self, 'get_response'), [request])
    method(c, TM, 'flush', tx_of(c, self))
    return r


# ---- page cache
def s_page_call(ask, tell):
    """Answered from the cache, or by the view; then handed to the storing half."""
    def spec(c, self, request):
        r = method(c, FET, 'process_request', self, request) if ask else NONE
        if c.is_(r, NONE):
            r = c.call(c.field(self, 'get_response'), [request])
        return method(c, UPD, 'process_response', self, request, r) if tell else r
    return spec


def page_cache(c, self):
    return cache_named(c, c.field(self, 'cache_alias'))


def flag(c, o, name):
    """The attribute, None without it."""
    return c.field(o, name) if c.branch(c.hasfield(o, name)) else NONE


def s_accessed(c, self, request):
    """Nothing true unless the session was accessed."""
    if c.branch(c.hasfield(request, 'session')):
        s = c.field(request, 'session')
        if c.branch(c.hasfield(s, 'accessed')):
            return c.field(s, 'accessed')
    return c.const(False)


def named(c, self, **a):
    """The middleware has a cache of its own name."""
    c.eng.assume(c.eng.truth(c.field(self, 'cache_alias')))


def allowed(c, self, request):
    if not c.truth(flag(c, request, '_cache_update_cache')):
        return False
    if c.truth(c.field(self, 'cache_anonymous_only')) and c.truth(s_accessed(c, self, request)):
        if not c.branch(c.hasfield(request, 'user')):
            c.raise_('builtins.AssertionError')
        if c.truth(query(c.eng, 'is_authenticated', [c.field(request, 'user')], BOOL)):
            return False
    return True


def s_should(c, self, request, response):
    return c.const(allowed(c, self, request))


def s_update(c, self, request, response):
    """Stored under its key with the tags of the view and of the request iff everything allows it."""
    if not allowed(c, self, request):
        return response
    if c.truth(flag(c, response, 'streaming')) or not c.branch(c.eq(c.field(response, 'status_code'), c.const(200))):
        return response
    timeout = query(c.eng, 'get_max_age', [response], [NONE_T, NUM])
    if c.is_(timeout, NONE):
        timeout = c.field(self, 'cache_timeout')
    elif not c.truth(timeout):
        return response
    c.call(c.fn(UT + 'patch_response_headers'), [response, timeout])
    f = c.field(self, 'tags')
    own = c.call(f, [request]) if c.truth(f) else c.tup([])
    tags = c.builtin('set', own)
    if c.branch(c.hasfield(request, 'cache_tagging')):
        c.eng.call(c.getattr(tags, 'update'), [c.field(request, 'cache_tagging')], {})
    if c.truth(timeout):
        cache = page_cache(c, self)
        key = c.call(c.fn(UT + 'learn_cache_key'), [request, response, tags, timeout, c.field(self, 'key_prefix'), cache])
        store = lambda c, r: c.call(c.fn(CT + '.set'), [page_cache(c, self), key, r, tags, timeout])
        render = flag(c, response, 'render')
        if not c.is_(render, NONE):
            outcome(c.eng, 'after rendering', [response, c.callable(store, [('r', Obj(RESP, True))])], None, False)
        else:
            store(c, response)
    return response


def s_fetch(c, self, request):
    """Only GET and HEAD are answered from the cache; a miss is marked for storing."""
    m = c.field(request, 'method')
    get, head = c.branch(c.eq(m, c.const('GET'))), False
    if not get:
        head = c.branch(c.eq(m, c.const('HEAD')))
        if not head:
            c.setfield(request, '_cache_update_cache', c.const(False))
            return NONE
    cache = page_cache(c, self)

    def key(of):
        return c.eng.handlers['django.utils.cache.get_cache_key'](
            c.eng, [request, c.field(self, 'key_prefix'), c.const(of), cache], {})
    k = key('GET')
    if c.is_(k, NONE):
        c.setfield(request, '_cache_update_cache', c.const(True))
        return NONE
    read = lambda k: method(c, CW, 'get', c.field(cache, 'cache'), k, NONE, NONE, c.const(False))
    r = read(k)
    if c.is_(r, NONE) and head:
        r = read(key('HEAD'))
    hit = not c.is_(r, NONE)
    c.setfield(request, '_cache_update_cache', c.const(not hit))
    return r


def settings(c, name):
    return c.field(c.eng.ext_terms['django.conf.settings'](c.eng), name)


def anonymous(c):
    st = c.eng.ext_terms['django.conf.settings'](c.eng)
    n = 'CACHE_MIDDLEWARE_ANONYMOUS_ONLY'
    return c.field(st, n) if c.branch(c.hasfield(st, n)) else c.const(False)


def no_tags(c):
    return c.callable(lambda c, request: c.tup([]), [('request', Obj(REQ, True))])


def s_conf(tags):
    def spec(c, self, get_response):
        for f, n in (('cache_timeout', 'SECONDS'), ('key_prefix', 'KEY_PREFIX'), ('cache_alias', 'ALIAS')):
            c.setfield(self, f, settings(c, 'CACHE_MIDDLEWARE_' + n))
        c.setfield(self, 'cache_anonymous_only', anonymous(c))
        c.setfield(self, 'get_response', get_response)
        if tags:
            c.setfield(self, 'tags', no_tags(c))
        return NONE
    return spec


def s_page_conf(c, self, get_response, cache_timeout, cache_anonymous_only, kwargs):
    opt = lambda n: c.item(kwargs, c.const(n)) if c.branch(c.has(kwargs, c.const(n))) else None
    c.setfield(self, 'get_response', get_response)
    t = opt('tags')
    c.setfield(self, 'tags', no_tags(c) if t is None else t)
    for f, n, d in (('key_prefix', 'KEY_PREFIX', ''), ('cache_alias', 'ALIAS', 'default')):
        v = opt(f)
        c.setfield(self, f, settings(c, 'CACHE_MIDDLEWARE_' + n) if v is None else c.const(d) if c.is_(v, NONE) else v)
    c.setfield(self, 'cache_anonymous_only',
               anonymous(c) if c.is_(cache_anonymous_only, NONE) else cache_anonymous_only)
    c.setfield(self, 'cache_timeout',
               settings(c, 'CACHE_MIDDLEWARE_SECONDS') if c.is_(cache_timeout, NONE) else cache_timeout)
    return NONE


def s_etag(c, response):
    """An entity tag on a response that is not streaming; the same response."""
    if not c.truth(flag(c, response, 'streaming')):
        v = c.call(c.getattr(c.const('"{0}"'), 'format'),
                   [c.eng.pure('md5hex', [c.field(response, 'content')], [STR])])
        set_header(c.eng, [response, c.const('ETag'), v], {})
    return response


def s_headers(c, response, cache_timeout):
    """At most the entity tag changes."""
    if c.truth(settings(c, 'USE_ETAGS')) and not c.truth(query(c.eng, 'has_header', [response, c.const('ETag')], BOOL)):
        if not c.is_(flag(c, response, 'render'), NONE):
            outcome(c.eng, 'after rendering', [response, c.fn(UT + 'set_response_etag')], None, False)
        else:
            c.call(c.fn(UT + 'set_response_etag'), [response])
    return NONE


def s_learn(c, request, response, tags, cache_timeout, key_prefix, cache):
    """The list of varying headers is stored under the key of the address with the tags and time-out of the page."""
    if c.is_(key_prefix, NONE):
        key_prefix = settings(c, 'CACHE_MIDDLEWARE_KEY_PREFIX')
    if c.is_(cache_timeout, NONE):
        cache_timeout = settings(c, 'CACHE_MIDDLEWARE_SECONDS')
    at = query(c.eng, 'header_key', [key_prefix, request], STR)
    if c.is_(cache, NONE):
        cache = cache_named(c, settings(c, 'CACHE_MIDDLEWARE_ALIAS'))
    names = c.list([])
    if c.truth(query(c.eng, 'has_header', [response, c.const('Vary')], BOOL)):
        text = lambda o, n, *a: c.call(c.getattr(o, n), list(a))

        def add(h):
            h = text(text(h, 'upper'), 'replace', c.const('-'), c.const('_'))
            if not (c.branch(c.eq(h, c.const('ACCEPT_LANGUAGE'))) and
                    (c.truth(settings(c, 'USE_I18N')) or c.truth(settings(c, 'USE_L10N')))):
                text(names, 'append', c.op(ast.Add(), c.const('HTTP_'), h))
        c.foreach(split_header(c.eng, [raw_header(c.eng, response, c.const('Vary'))], {}), add)
        text(names, 'sort')
    c.call(c.fn(CT + '.set'), [cache, at, names, tags, cache_timeout])
    return c.eng.handlers['django.utils.cache._generate_cache_key'](
        c.eng, [request, c.field(request, 'method'), names, key_prefix], {})


def split_header(eng, a, k):
    return query(eng, 'split_header', a, ('list', (STR,)))


def s_prevent(c, request):
    c.setfield(request, '_cache_update_cache', c.const(False))
    return NONE


# ---- decorators
MAKE = 'django.utils.decorators.decorator_from_middleware_with_args'


def make_env(eng):
    eng.handlers[MAKE] = lambda e, a, k: query(e, 'decorator_from_middleware', a, CALL)


def page_args(c):
    """Any number of positional arguments and any of the keywords."""
    e = c.eng
    n = e.choose(4)
    one = [CALL, NUM, NONE_T]
    args = c.tup([e.param('arg%d' % i, one) for i in range(n)])
    kw = [(c.const(k), e.param('kw_' + k, t)) for k, t in
          (('cache', STR), ('key_prefix', STR), ('tags', CALL), ('other', ANY)) if e.choose(2)]
    e.state.extra['page'] = (n, dict((e.pystr(k), v) for k, v in kw))
    return {'args': args, 'kwargs': c.dict(kw)}


def s_page(c, args, kwargs):
    """The middleware's decorator for these options, applied to the view if it is given."""
    n, kw = c.eng.state.extra['page']
    if 'other' in kw or n > 2:
        c.raise_('builtins.AssertionError')
    arg = []
    t = args
    for _ in range(n):
        arg.append(t.arg(0))
        t = t.arg(1)
    opts = {'cache_alias': kw.get('cache', NONE), 'key_prefix': kw.get('key_prefix', NONE), 'tags': kw.get('tags', c.tup([]))}
    view, timeout = None, None
    is_view = lambda v: c.isinstance(v, 'collections.Callable')
    if n == 2:
        if is_view(arg[0]):
            view, timeout = arg
        elif is_view(arg[1]):
            timeout, view = arg
        else:
            c.raise_('builtins.AssertionError')
    elif n == 1:
        if is_view(arg[0]):
            view = arg[0]
        else:
            timeout = arg[0]
    if timeout is not None:
        opts['cache_timeout'] = timeout
    d = c.call(query(c.eng, 'decorator_from_middleware', [c.fn(CMW)], CALL), [], opts)
    return d if view is None else c.call(d, [view])


DECO = DJ + 'decorators.'


def which(c, f, cache):
    """The function and the cache meant."""
    if not c.is_(f, NONE) and c.is_(cache, NONE) and c.isinstance(f, CT):
        return NONE, f
    if c.is_(cache, NONE):
        return f, cache_named(c, c.const('default'))
    return f, cache


def tx_field(c, cache):
    return c.field(c.field(cache, 'cache'), 'transaction')


def s_deco(c, f, cache):
    f, cache = which(c, f, cache)
    tx = tx_field(c, cache)
    return tx if c.is_(f, NONE) else method(c, TM, '__call__', tx, f)


def s_deco_all(c, f, cache):
    """begin; the call; flush on every outcome, on the cache of the calling thread."""
    named = c.is_(cache, NONE) and (c.is_(f, NONE) or not c.isinstance(f, CT))
    f, cache = which(c, f, cache)

    def target(c):
        return tx_field(c, cache_named(c, c.const('default')) if named else cache)

    def params(cc):
        return [Star(cc.eng.param('args', ANY))], {'**': Star(cc.eng.param('kw', ANY), True)}

    def wrapping(f):
        def spec(c, *args, **kw):
            method(c, TM, 'begin', target(c))
            try:
                r = c.call(f, [args[0]], kw)
            except Raise:
                method(c, TM, 'flush', target(c))
                raise
            method(c, TM, 'flush', target(c))
            return r
        return spec
    if not c.is_(f, NONE):
        return c.callable(wrapping(f), params)
    return c.callable(lambda c, f: c.callable(wrapping(f), params), [CALL])


def contracts():
    P1, P = {'*': ['C21']}, {'*': ['C20']}
    me = lambda n: ('self', ('self', n))
    req, resp = ('request', Obj(REQ, True)), ('response', Obj(RESP, True))
    gr = ('get_response', [NONE_T, CALL])
    KW = ('dict', (STR,), (NONE_T, STR))
    tx = dict(call_mode=False, props=P1, env=envs(call_env, TMS))
    kw = dict(call_mode=False, props=P)
    page = opaque_methods(CW, ['get'])
    store = envs(call_env, iterables, opaque_methods(CT, ['set']), opaque_fn(UT + 'patch_response_headers', None, False),
                 opaque_fn(UT + 'learn_cache_key', STR))
    return [
        Contract(TXM + '.__init__', s_tx_init, [me(TXM), gr, ('kwargs', KW)], call_mode=False, props=P1),
        Contract(TXM + '.process_request', s_tx('begin', None), [me(TXM), req], **tx),
        Contract(TXM + '.process_response', s_tx('flush', 'response'), [me(TXM), req, resp], **tx),
        Contract(TXM + '.process_exception', s_tx('flush', None), [me(TXM), req, ('exception', Obj('builtins.Exception'))],
                 **tx),
        Contract(MW + 'MiddlewareMixin.__call__', s_tx_call, [me(TXM), req], name='transaction', **tx),
    ] + [
        Contract(MW + 'MiddlewareMixin.__call__', s_page_call(ask, tell), [me(n), req], name=n.split('.')[-1],
                 env=envs(opaque_methods(FET, ['process_request'], result=[NONE_T, Obj(RESP, True)]),
                          opaque_methods(UPD, ['process_response'])), **kw)
        for n, ask, tell in ((UPD, False, True), (FET, True, False), (CMW, True, True))
    ] + [
        Contract(UPD + '.__init__', s_conf(True), [me(UPD), gr], **kw),
        Contract(FET + '.__init__', s_conf(False), [me(FET), gr], **kw),
        Contract(CMW + '.__init__', s_page_conf,
                 [me(CMW), gr, ('cache_timeout', [NONE_T, NUM]), ('cache_anonymous_only', [NONE_T, BOOL]),
                  ('kwargs', ('dict', (STR,), (NONE_T, STR, CALL)))], **kw),
        Contract(UPD + '.cache', page_cache, [me(UPD)], pre=named, env=call_env, **kw),
        Contract(FET + '.cache', page_cache, [me(FET)], pre=named, env=call_env, **kw),
        Contract(UPD + '._session_accessed', s_accessed, [me(UPD), req], **kw),
        Contract(UPD + '._should_update_cache', s_should, [me(UPD), req, resp], ret='truth', **kw),
        Contract(UPD + '.process_response', s_update, [me(UPD), req, resp], env=store, pre=named,
                 assumes=['the function of the view that computes tags returns an iterable'], **kw),
        Contract(FET + '.process_request', s_fetch, [me(FET), req], pre=named, env=envs(call_env, page), **kw),
        Contract(DECO + 'cache_page', s_page, [('args', ANY), ('kwargs', ANY)], setup=page_args, env=make_env, **kw),
        Contract(DECO + 'cache_transaction', s_deco, [('f', [NONE_T, CALL, Obj(CT, True)]), ('cache', [NONE_T, Obj(CT, True)])],
                 call_mode=False, props={'*': ['C09']}, env=envs(call_env, opaque_methods(TM, ['__call__']))),
        Contract(DECO + 'cache_transaction_all', s_deco_all,
                 [('f', [NONE_T, CALL, Obj(CT, True)]), ('cache', [NONE_T, Obj(CT, True)])],
                 call_mode=False, props={'*': ['C09']}, env=envs(call_env, TMS)),
        Contract(UT + 'prevent_cache_page', s_prevent, [req], **kw),
        Contract(UT + 'learn_cache_key', s_learn,
                 [req, resp, ('tags', ('set', (ANY,))), ('cache_timeout', [NONE_T, NUM]), ('key_prefix', [NONE_T, STR]),
                  ('cache', [NONE_T, Obj(CT, True)])], env=envs(call_env, opaque_methods(CT, ['set'])), **kw),
        Contract(UT + 'set_response_etag', s_etag, [resp], **kw),
        Contract(UT + 'patch_response_headers', s_headers, [resp, ('cache_timeout', NUM)],
                 env=opaque_fn(UT + 'set_response_etag', Obj(RESP, True), False), **kw),
    ]


def opaque_fn(dotted, result, raises=True):
    def env(eng):
        eng.contracts[dotted] = OpaqueMethod(dotted.split('.')[-1], raises, result)
    return env
