"""Contracts of the template tags: fragments, added tags, prevention of caching (django_cache_dependencies.templatetags)."""
from .model import *
from dv.contract import Contract, fn_term
from dv.engine import BreakEx, Raise
from dv.state import Dom, ListC
from dv import loops
from dv.engine import OLD_DECLS
from .transaction import method
from .tagging import CT, CW
from .collection import call_env
from .pages import REQ, outcome, cache_named, iterables

TT = DJ + 'templatetags.cache_tagging_tags.'
NODE_, ADD = TT + 'CacheNode', TT + 'CacheAddTagsNode'
PARSER, TOKEN, TEXT, MATCH = 'template.parser', 'template.token', 'template.token.contents', 're.match'
CTX, EXPR, LIST, VAR = 'template.context', 'template.expression', 'template.nodelist', 'template.variable'
SCOPE = ('dict', (STR,), (ANY,))
KEYS = {'request': Obj(REQ, True), 'cache_tagging': ('set', (ANY,))}
PREVENT, TAGS = 'cache_tagging_prevent', 'cache_tagging'
SYNTAX, MISSING = 'django.template.TemplateSyntaxError', 'django.template.VariableDoesNotExist'


# ---- django's Context: a stack of scopes, the innermost last
def backwards(eng, lst):
    out = []
    for kind, s in reversed(lib.segs_of(eng, lst)):
        if kind == 'd':
            if not s.indexed:
                raise Unsupported('scopes of unknown order')
            i = z3.Int('i!%d' % eng.uid('li'))
            g, v = s.at(s.length - 1 - i)
            s = Dom(i, And(i >= 0, i < s.length), v, s.length)
        out.append((kind, s))
    return out


def search(eng, ctx, key):
    """The innermost scope with the key, or None."""
    hit = []

    def one(d):
        if eng.branch(eng.dict_has(d, key)):
            hit.append(d)
            raise BreakEx()
    if loops.run(eng, backwards(eng, eng.getattr(ctx, 'dicts')), one) == 'break':
        return hit[-1]
    return None


def typed(eng, key, v):
    k = eng.pystr(key)
    if k in KEYS and any(a[0] == 'any' for a in eng.base_alts(v)):
        return query(eng, 'as_' + k, [v], KEYS[k])
    return v


def ctx_get(eng, args, kwargs):
    ctx, key = args
    d = search(eng, ctx, key)
    if d is None:
        raise Raise(eng.exc('builtins.KeyError', [key]))
    return typed(eng, key, eng.gmap('VAL').get(d, key))


def ctx_set(eng, args, kwargs):
    ctx, key, v = args
    eng.dict_put(top(eng, ctx), key, v)
    return NONE


def top(eng, ctx):
    return lib.getitem(eng, eng.getattr(ctx, 'dicts'), eng.const(-1))


def ctx_contains(eng, args, kwargs):
    ctx, key = args
    return V.boo(z3.BoolVal(search(eng, ctx, key) is not None))


def ctx_push(eng, args, kwargs):
    if len(args) > 1 or kwargs:
        raise Unsupported('push with values')
    d = eng.new_dict()
    lib.m_list_append(eng, eng.getattr(args[0], 'dicts'), d)
    return d


def ctx_copy(eng, t):
    """The copy has a stack of its own, of the same scopes."""
    o = eng.alloc(('obj', CTX, True))
    eng.setfield(o, 'dicts', lib.m_list_copy(eng, eng.getattr(t, 'dicts')))
    return o


def render(eng, args, kwargs):
    """Renders the body: text; tags may be added to the innermost fragment and to the request, caching may be prevented."""
    nodes, ctx = args
    eng.event('render', [nodes, ctx])
    if eng.branch(eng.seqfresh('raises', z3.BoolSort())):
        e = eng.seqfresh('exc', V, Obj('builtins.Exception'))
        eng.assume(V.is_opq(e))
        raise Raise(e)
    d = search(eng, ctx, eng.const(TAGS))
    if d is not None:
        grow(eng, typed(eng, eng.const(TAGS), eng.gmap('VAL').get(d, eng.const(TAGS))))
    d = search(eng, ctx, eng.const(PREVENT))
    if d is not None:
        old = eng.gmap('VAL').get(d, eng.const(PREVENT))
        if not old.eq(V.boo(FALSE)):
            raise Unsupported('a body rendered with an unknown flag of prevention')
        eng.dict_put(d, eng.const(PREVENT), V.boo(eng.seqfresh('prevented', z3.BoolSort())))
    if search(eng, ctx, eng.const('request')) is not None:
        r = ctx_get(eng, [ctx, eng.const('request')], {})
        has = eng.seqfresh('tagged', z3.BoolSort())
        if eng.branch(eng.hasfield(r, 'cache_tagging')):
            grow(eng, eng.getattr(r, 'cache_tagging'))
        elif eng.branch(has):
            s = eng.new_set()
            grow(eng, s)
            eng.setattr(r, 'cache_tagging', s)
        page = eng.seqfresh('page', z3.BoolSort())
        old, had = eng.getfield(r, '_cache_update_cache'), eng.hasfield(r, '_cache_update_cache')
        eng.gput('F:_cache_update_cache', (r,), If(page, V.boo(FALSE), old))
        eng.gput('H:_cache_update_cache', (r,), Or(page, had))
    r = eng.seqfresh('text', V, STR)
    eng.assume(V.is_s(r))
    return r


def grow(eng, s):
    """Unknown elements are added to the set."""
    if not any(a[0] == 'set' for a in eng.alts(s)):
        return
    n = eng.seqfresh('added', z3.IntSort())
    added = eng.decl("ADDED", z3.IntSort(), V, z3.BoolSort())
    lib.set_region(eng, s, lambda y: added(n, y), TRUE)


def resolve_as(name, alts, missing=False):
    """The value of an expression in a context."""
    def f(eng, args, kwargs):
        e, ctx = args
        if missing and eng.branch(eng.truth(query(eng, 'unresolved', [e, ctx], BOOL))):
            raise Raise(eng.exc(MISSING, []))
        return query(eng, name, [e, ctx], alts)
    return f


def install(eng):
    from . import pages
    pages.install(eng)
    define(eng, CTX, {'dicts': field(('list', (SCOPE,)), owned=True)}, copy=ctx_copy,
           methods={'__getitem__': ctx_get, '__setitem__': ctx_set, '__contains__': ctx_contains, 'push': ctx_push})
    define(eng, LIST, {}, methods={'render': render})
    for n, alts, missing in (('name', STR, False), ('tag', ANY, False), ('option', ('tuple', (ANY,)), False),
                             ('timeout', ANY, True)):
        define(eng, EXPR + ' of ' + n, {'var': field(STR)}, methods={'resolve': resolve_as('resolve_' + n, alts, missing)})
    of = lambda n: Obj(EXPR + ' of ' + n, True)
    define(eng, NODE_, {'nodelist': field(Obj(LIST, True)), 'timeout_var': field([NONE_T, of('timeout')]),
                        'fragment_name': field(of('name')), 'vary_on': field(('list', (of('tag'),)), owned=True),
                        'kwargs': field(('dict', (STR,), (of('option'),)), owned=True), 'filters': field(ANY)})
    define(eng, ADD, {'tags': field(('list', (of('tag'),)))})
    define(eng, EXPR, {})
    define(eng, 'django.template.Node', {})
    define(eng, PARSER, {'filters': field(ANY)}, methods={
        'parse': parse, 'delete_first_token': lambda e, a, k: (e.event('delete_first_token', a), NONE)[1],
        'compile_filter': lambda e, a, k: query(e, 'compiled', a, Obj(EXPR, True))})
    define(eng, TOKEN, {'contents': field(Obj(TEXT, True))}, methods={'split_contents': lambda e, a, k: bits(e)})
    define(eng, TEXT, {}, methods={'split': lambda e, a, k: bits(e)})
    define(eng, MATCH, {'string': field(STR)}, methods={
        'groups': lambda e, a, k: groups(e, e.getattr(a[0], 'string')),
        'group': lambda e, a, k: lib.getitem(e, groups(e, e.getattr(a[0], 'string')), e.const(int(e.pynum(a[1])) - 1))})
    H = eng.handlers
    H['re.compile:' + OPTION + '.match'] = match
    eng.ext_terms['django.template.base.builtins'] = no_builtins
    for n in (SYNTAX, MISSING):     # their messages are left open
        H[n] = lambda e, a, k, n=n: e.exc(n, [])
    define(eng, SYNTAX, {}, bases=['builtins.Exception'])
    define(eng, MISSING, {}, bases=['builtins.Exception'])


def numbers(eng):
    """int(x) of a resolved time-out."""
    plain = eng.plain_int = getattr(eng, 'plain_int', None) or eng.handlers['builtins.int']

    def f(e, a, k):
        if len(a) != 1 or not (z3.is_app(a[0]) and a[0].decl().name() == 'Q_resolve_timeout'):
            return plain(e, a, k)
        if e.branch(e.truth(query(e, 'of_no_number_type', a, BOOL))):
            e.throw('TypeError', e.const('int() argument'))
        if e.branch(e.truth(query(e, 'not_a_number', a, BOOL))):
            e.throw('ValueError', e.const('invalid literal'))
        return query(e, 'number', a, NUM)
    eng.handlers['builtins.int'] = f


ENV = envs(call_env, iterables, numbers, opaque_methods(CW, ['get']),
           opaque_methods(CW, ['abort'], raises=False, result=None), opaque_methods(CT, ['set'], raises=False, result=None))


# ---- what django hands to the compilation functions of tags
OPTION = r'(?:(\w+)=)?(.+)'


def no_builtins(eng):
    """Since Django 1.9 the libraries are known to the parser."""
    eng.throw('AttributeError', eng.const('builtins'))


def parse(eng, args, kwargs):
    """The nodes up to one of the tags."""
    parser, until = args
    eng.event('parse', [parser, lib.getitem(eng, until, eng.const(0)), eng.handlers['builtins.len'](eng, [until], {})])
    return query(eng, 'parsed', [parser], Obj(LIST, True))


def bits(eng):
    return eng.new_listc(ListC(eng.state.extra['bits']))


def match(eng, args, kwargs):
    """Matches every word."""
    o = eng.alloc(('obj', MATCH, True))
    eng.setfield(o, 'string', args[0])
    return o


def keyword_of(eng, bit):
    return eng.decl('Q_keyword', V, V)(bit)


def keyword(eng, bit):
    k = query(eng, 'keyword', [bit], [NONE_T, STR])
    eng.assume(Or(V.is_none(k), eng.truth(k)))
    return k


def groups(eng, bit):
    """The keyword, None without one, and the rest."""
    return eng.tup([keyword(eng, bit), query(eng, 'option', [bit], STR)])


# ---- specifications
def s_mark(c, context):
    """The innermost scope that knows of the prevention; the innermost of all without one."""
    d = search(c.eng, context, c.const(PREVENT))
    c.put(top(c.eng, context) if d is None else d, c.const(PREVENT), c.const(True))
    return NONE


def s_prevent(c, context):
    s_mark(c, context)
    return c.const('')


def look(c, context, key):
    return ctx_get(c.eng, [context, c.const(key)], {})


def s_add(c, self, context):
    tags = c.list()
    c.foreach(c.field(self, 'tags'), lambda t: lib.m_list_append(c.eng, tags, c.method(t, 'resolve', context)))
    if c.branch(c.eq(c.builtin('len', tags), c.const(1))):
        one = lib.getitem(c.eng, tags, c.const(0))
        if c.isinstance(one, 'builtins.list', 'builtins.tuple', 'builtins.set', 'builtins.frozenset'):
            tags = one
    c.method(look(c, context, TAGS), 'update', tags)
    return c.const('')


def s_render(c, self, context):
    cache = cache_named(c, c.const('default'))
    name = c.method(c.field(self, 'fragment_name'), 'resolve', context)
    text = method(c, CW, 'get', c.field(cache, 'cache'), name, NONE, NONE, c.const(False))
    if not c.is_(text, NONE):
        return text
    timeout = NONE
    var = c.field(self, 'timeout_var')
    if not c.is_(var, NONE):
        try:
            timeout = c.method(var, 'resolve', context)
            timeout = c.builtin('int', timeout)
        except Raise as r:
            if not c.isinstance(r.value, MISSING, 'builtins.ValueError', 'builtins.TypeError'):
                raise
            c.raise_(SYNTAX)
    tags = c.eng.new_set()
    c.foreach(c.field(self, 'vary_on'), lambda t: lib.set_add(c.eng, tags, c.method(t, 'resolve', context)))
    if c.branch(c.has(c.field(self, 'kwargs'), c.const('tags'))):
        c.method(tags, 'update', c.method(c.item(c.field(self, 'kwargs'), c.const('tags')), 'resolve', context))
    if search(c.eng, context, c.const(PREVENT)) is None:
        c.put(top(c.eng, context), c.const(PREVENT), c.const(False))
    sub = ctx_copy(c.eng, context)
    own = ctx_push(c.eng, [sub], {})
    c.put(own, c.const(TAGS), tags)
    c.put(own, c.const(PREVENT), c.const(False))
    text = c.method(c.field(self, 'nodelist'), 'render', sub)
    prevented = c.truth(c.item(own, c.const(PREVENT)))
    if prevented:
        s_mark(c, context)
    if search(c.eng, context, c.const('request')) is not None:
        request = look(c, context, 'request')
        if not c.branch(c.hasfield(request, 'cache_tagging')):
            c.setfield(request, 'cache_tagging', c.eng.new_set())
        c.method(c.field(request, 'cache_tagging'), 'update', tags)
        if c.truth(look(c, context, PREVENT)):
            c.setfield(request, '_cache_update_cache', c.const(False))
    if prevented:
        method(c, CW, 'abort', c.field(cache, 'cache'), name)
    else:
        method(c, CT, 'set', cache, name, text, tags, timeout, NONE)
    return text


# ---- a context of any number of scopes
def context(c, **more):
    eng = c.eng
    ctx = eng.param('context', Obj(CTX, True))
    last = eng.param('top', SCOPE)
    n = z3.Int('scopes')
    eng.assume(n >= 0)
    eng.decl_ty['OUTER'] = (SCOPE,)
    outer = eng.decl('OUTER', z3.IntSort(), V)
    OLD_DECLS.add('OUTER')
    i = z3.Int('i!%d' % eng.uid('li'))
    eng.assume(z3.ForAll([i], And(V.is_opq(outer(i)), outer(i) != last)))
    eng.setlist(eng.getattr(ctx, 'dicts'), ListC([('d', Dom(i, And(i >= 0, i < n), outer(i), n)), ('v', last)]))
    return dict(more, context=ctx)


def plain(timed, listed):
    """Neither of the two forms of second passes over the text; one of four cases: with or without a time-out, with or
    without the option of tags."""
    def f(c, self, **a):
        for k in ('nocache', 'phased'):
            c.eng.assume(Not(c.has(c.field(self, 'kwargs'), c.const(k))))
        untimed = c.field(self, 'timeout_var') == NONE
        given = c.has(c.field(self, 'kwargs'), c.const('tags'))
        c.eng.assume(And(Not(untimed) if timed else untimed, given if listed else Not(given)))
    return f


# ---- the compilation functions: a tag with any number of words, none given twice
def words(c, **a):
    eng = c.eng
    n = z3.Int('words')
    eng.assume(n >= 0)
    eng.decl_ty['WORD'] = (STR,)
    OLD_DECLS.add('WORD')
    word = eng.decl('WORD', z3.IntSort(), V)
    i = z3.Int('i!%d' % eng.uid('li'))
    eng.assume(z3.ForAll([i], V.is_s(word(i))))
    k, index, of = keyword(eng, word(i)), eng.decl('INDEX', V, z3.IntSort()), eng.decl('WORD_OF', V, V)
    inside = And(i >= 0, i < n)
    eng.assume(z3.ForAll([i], Implies(inside, index(word(i)) == i), patterns=[word(i)]))
    eng.assume(z3.ForAll([i], Implies(And(inside, Not(V.is_none(k))), of(k) == word(i)), patterns=[k]))
    known = lambda w: word(index(w)) == w
    eng.inverses['WORD'] = (index, known)
    eng.cond_inverses['Q_keyword'] = (of, lambda w: And(known(w), Not(V.is_none(keyword_of(eng, w)))),
                                      lambda y: And(known(of(y)), keyword_of(eng, of(y)) == y))
    ls = [('v', eng.param('tag', STR))]
    if eng.choose(2):
        first = eng.param('first', STR)
        eng.assume(V.is_none(keyword(eng, first)))
        ls += [('v', first), ('d', Dom(i, And(i >= 0, i < n), word(i), n))]
    eng.state.extra['bits'] = ls
    return {'parser': eng.param('parser', Obj(PARSER, True)), 'token': eng.param('token', Obj(TOKEN, True))}


def compiled(c, parser, x):
    return query(c.eng, 'compiled', [parser, x], Obj(EXPR, True))


def s_compile_add(c, parser, token):
    tags = c.list()
    ls = c.eng.state.extra['bits'][1:]
    if not ls:
        c.raise_(SYNTAX)
    c.foreach(c.eng.new_listc(ListC(ls)), lambda b: lib.m_list_append(c.eng, tags, compiled(c, parser, b)))
    return c.new(ADD, tags=tags)


def s_compile_cache(c, parser, token):
    """The first word is the name, a word with a keyword is an option, the others are tags."""
    eng = c.eng
    body = parse(eng, [parser, c.tup([c.const('end_cache_tagging')])], {})
    c.method(parser, 'delete_first_token')
    ls = eng.state.extra['bits'][1:]
    if not ls:
        c.raise_(SYNTAX)
    tags, options = c.list(), c.dict()

    def one(b):
        v = compiled(c, parser, query(eng, 'option', [b], STR))
        k = keyword(eng, b)
        if c.is_(k, NONE):
            lib.m_list_append(eng, tags, v)
        else:
            c.put(options, k, v)
    c.foreach(eng.new_listc(ListC(ls[1:])), one)
    timeout, t = NONE, c.const('timeout')
    if c.branch(c.has(options, t)):
        timeout = c.item(options, t)
        c.remove(options, t)
    return c.new(NODE_, nodelist=body, fragment_name=compiled(c, parser, query(eng, 'option', [ls[0][1]], STR)),
                 timeout_var=timeout, vary_on=tags, kwargs=options, filters=c.field(parser, 'filters'))


def contracts():
    kw = dict(call_mode=False, env=ENV, setup=context, props={'*': ['C22']})
    ctx = ('context', ANY)
    return [
        Contract(TT + 'set_prevent', s_mark, [ctx], **kw),
        Contract(TT + 'cache_tagging_prevent', s_prevent, [ctx], **kw),
        Contract(TT + 'do_cache_add_tags', s_compile_add, [('parser', ANY), ('token', ANY)], **dict(kw, setup=words)),
        Contract(TT + 'do_cache', s_compile_cache, [('parser', ANY), ('token', ANY)], **dict(kw, setup=words)),
        Contract(ADD + '.render', s_add, [('self', ('self', ADD)), ctx], **kw),
    ] + [
        Contract(NODE_ + '.render', s_render, [('self', ('self', NODE_)), ctx], pre=plain(timed, listed),
                 name=('timed' if timed else 'untimed') + ('-listed' if listed else ''), **kw)
        for timed in (False, True) for listed in (False, True)
    ]
