"""Contracts of tagging.py."""
from .model import *
from dv.contract import Contract
from .transaction import method

CT = D + 'tagging.CacheTagging'
CW = D + 'cache.CacheWrapper'
LISTS = [('list', (ANY,)), ('tuple', (ANY,)), ('set', (ANY,)), ('fset', (ANY,))]
COLL = ['builtins.list', 'builtins.tuple', 'builtins.set', 'builtins.frozenset']
WRAP = opaque_methods(CW, ['get', 'set', 'invalidate_dependency'])
OWN = envs(opaque_methods(CW, ['get']), opaque_methods(CT, ['set']))
TMS = opaque_methods(TM, ['begin', 'finish', 'flush'])


def install(eng):
    define(eng, CT, {'cache': field(Obj(CW, True))})
    define(eng, CW, {'cache': field(Obj(CACHE)), 'ignore_descendants': field(ANY), 'transaction': field(Obj(TM)),
                     'relation_manager': field(Obj(RM))})
    define(eng, CACHE, {}, closed=False)
    define(eng, TM, {}, closed=False)
    define(eng, RM, {}, closed=False)


def s_init(c, self, cache, relation_manager, transaction):
    w = c.new(CW, cache=cache, ignore_descendants=c.const(False), transaction=transaction,
              relation_manager=relation_manager)
    c.setfield(self, 'cache', w)
    return NONE


def tags_dep(c, tags):
    return c.new(TAGS, tags=c.builtin('set', tags), tag_versions=c.dict())


def s_set(c, self, key, value, tags, timeout, version):
    if c.isinstance(tags, DEP):
        dep = tags
    elif c.isinstance(tags, *COLL):
        dep = tags_dep(c, tags) if c.truth(tags) else c.new(DUMMY)
    else:       # set(key, value, timeout, version)
        dep = c.new(DUMMY)
        if c.is_(version, NONE) and not c.is_(timeout, NONE):
            version = timeout
        timeout = tags
    method(c, CW, 'set', c.field(self, 'cache'), key, value, dep, timeout, version)
    return NONE


def s_invalidate(c, self, tags, kwargs):
    """One dependency, one collection of tags, or the tags themselves."""
    n = c.eng.state.extra['ntags']
    if n == 1 and c.isinstance(tags.arg(0), DEP):
        dep = tags.arg(0)
    elif n == 1 and c.isinstance(tags.arg(0), *COLL):
        dep = tags_dep(c, tags.arg(0))
    elif n:
        dep = tags_dep(c, tags)
    else:
        dep = c.new(DUMMY)
    version = c.item(kwargs, c.const('version')) if c.branch(c.has(kwargs, c.const('version'))) else NONE
    method(c, CW, 'invalidate_dependency', c.field(self, 'cache'), dep, version)
    return NONE


def set_tags(c):
    n = c.eng.choose(4)
    c.eng.state.extra['ntags'] = n
    one = [Obj(DEP)] + LISTS + [STR, NUM]
    tags = [c.eng.param('tag%d' % i, one if n == 1 else [STR, NUM, Obj('builtins.object')]) for i in range(n)] if n < 3 \
        else []
    if n == 3:      # two or more
        return {'tags': V.cons(c.eng.param('tag0', [STR, NUM]), V.cons(c.eng.param('tag1', [STR, NUM]),
                               c.eng.param('rest', ('tuple', (ANY,)))))}
    return {'tags': c.tup(tags)}


def s_gosc(c, self, key, callback, tags, timeout, version, args, kwargs, get=CW, target=None):
    r = method(c, CW, 'get', target(c, self), key, NONE, version, c.const(False))
    if not c.is_(r, NONE):
        return r
    r = c.call(callback, [Star(args)] if c.truth(args) else [], {'**': Star(kwargs, True)} if c.truth(kwargs) else {})
    method(c, get, 'set', self, key, r, tags, timeout, version)
    return r


def s_tx(name):
    def spec(c, self):
        method(c, TM, name, c.field(c.field(self, 'cache'), 'transaction'))
        return self
    return spec


def s_contains(c, self, key):
    return c.call(c.fn(D + 'cache.CacheWrapper.__contains__'), [c.field(self, 'cache'), key])


NATIVE = ['ignore_descendants', 'transaction', 'relation_manager']


def s_getattr(c, self, name):
    k = c.eng.state.extra['attr']
    w = c.field(self, 'cache')
    return c.field(w, k) if k in NATIVE else c.getattr(w, k)


def set_attr(c):
    names = ['transaction', 'relation_manager', 'get', 'get_many', 'begin', 'abort', 'finish', 'close',
             'invalidate_dependency']
    n = names[c.eng.choose(len(names))]
    c.eng.state.extra['attr'] = n
    return {'name': c.const(n)}


def contracts():
    me = ('self', ('self', CT))
    tags = ('tags', LISTS + [Obj(DEP), NONE_T, NUM])
    P = {'*': ['C15']}
    kw = dict(call_mode=False)
    return [
        Contract(CT + '.__init__', s_init, [me, ('cache', Obj(CACHE)), ('relation_manager', Obj(RM)),
                                            ('transaction', Obj(TM))], props={'*': ['C15', 'C14']}, **kw),
        Contract(CT + '.set', s_set, [me, ('key', STR), ('value', ANY), tags, ('timeout', [NONE_T, NUM]),
                                      ('version', [NONE_T, NUM])], props=P, env=WRAP, **kw),
        Contract(CT + '.invalidate_tags', s_invalidate,
                 [me, ('tags', ANY), ('kwargs', ('dict', (STR,), (ANY,)))], setup=set_tags, props={'*': ['C15', 'C19']},
                 env=WRAP, **kw),
        Contract(CT + '.get_or_set_callback',
                 lambda c, **a: s_gosc(c, get=CT, target=lambda c, s: c.field(s, 'cache'), **a),
                 [me, ('key', STR), ('callback', CALL), ('tags', ANY), ('timeout', ANY), ('version', ANY),
                  ('args', [NONE_T, ('tuple', (ANY,)), ('list', (ANY,))]), ('kwargs', [NONE_T, ('dict', (STR,), (ANY,))])],
                 props={'*': ['C16']}, env=OWN, **kw),
        Contract(CT + '.ignore_descendants', lambda c, self: c.field(c.field(self, 'cache'), 'ignore_descendants'), [me],
                 props={'*': ['C15', 'C05']}, **kw),
        Contract(CT + '.ignore_descendants.setter',
                 lambda c, self, value: (c.setfield(c.field(self, 'cache'), 'ignore_descendants', value), NONE)[1],
                 [me, ('value', ANY)], props={'*': ['C15', 'C05']}, **kw),
        Contract(CT + '.transaction_begin', s_tx('begin'), [me], props={'*': ['C09']}, env=TMS, **kw),
        Contract(CT + '.transaction_finish', s_tx('finish'), [me], props={'*': ['C09']}, env=TMS, **kw),
        Contract(CT + '.transaction_finish_all', s_tx('flush'), [me], props={'*': ['C09']}, env=TMS, **kw),
        Contract(CT + '.__contains__', s_contains, [me, ('key', STR)], props=P,
                 env=opaque_methods(CW, ['__contains__'], result=BOOL), **kw),
        Contract(CT + '.__getattr__', s_getattr, [me, ('name', STR)], setup=set_attr, props=P, **kw),
    ]
