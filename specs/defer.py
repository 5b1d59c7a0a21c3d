"""Contracts of defer.py: deferred reads, chained by backend operation, and the iterators that resolve them."""
import ast
from .model import *
from dv.contract import Contract, fn_term
from .transaction import method

F = D + 'defer.'
DN, DF, AI, GI, NI, ST = [F + n for n in ('DeferredNode', 'Deferred', 'AbstractDeferredIterator', 'GetManyDeferredIterator',
                                          'NoneDeferredIterator', 'State')]
IDEF = D + 'interfaces.IDeferred'
HASH = D + 'utils.to_hashable'
ARGS, KWARGS = ('tuple', (ANY,)), ('dict', (STR,), (ANY,))
ITEMS = ('dict', (STR,), (ANY,))
KEYS = ('set', (STR,))
KEYARGS = ('tuple', (ANY,), (KEYS,), Ellipsis)
EXECUTOR = ('call', (NONE_T, ITEMS))
CONTEXT = ('dict', (STR,), (('dict', (ANY,), (ITEMS,)),))
UNIT = ('list', (ANY,), (CALL,), (KEYARGS,), (KWARGS,))


def install(eng):
    define(eng, DN, {'execute': field([NONE_T, EXECUTOR]), 'args': field(ARGS), 'kwargs': field(KWARGS),
                     'queue': field(('list', (UNIT,)), owned=True), 'iterator_factory': field(CALL),
                     'aggregation_criterion': field(ANY), '_parent': field([NONE_T, Obj(DN, True)]),
                     '_iterator': field([NONE_T, Obj(AI)])})
    define(eng, DF, {'node': field(Obj(DN, True))})
    define(eng, ST, {'_contexts': field(('dict', (ANY,), (CONTEXT,)), owned=True),
                     '_current_context': field([NONE_T, CONTEXT])})
    define(eng, AI, {'_node': field(Obj(DN, True)), '_index': field(NUM), '_state': field([NONE_T, Obj(ST, True)])})


FINITE = 'the nodes a deferred read is chained to are finitely many'
HASHABLE = lambda eng: eng.contracts.update({HASH: PureMethod('hashable', ANY)})


def s_node(c, self, executor, iterator_factory, args, kwargs):
    c.setfield(self, 'execute', executor)
    c.setfield(self, 'args', args)
    c.setfield(self, 'kwargs', kwargs)
    c.setfield(self, 'queue', c.list())
    c.setfield(self, 'iterator_factory', iterator_factory)
    c.setfield(self, 'aggregation_criterion', query(c.eng, 'hashable', [c.tup([executor, iterator_factory, args, kwargs])], ANY))
    c.setfield(self, '_parent', NONE)
    c.setfield(self, '_iterator', NONE)
    return NONE


def factories(c):
    return {'iterator_factory': c.fn((GI, NI)[c.eng.choose(2)])}


def s_push(c, self, callback, args, kwargs):
    lib.m_list_append(c.eng, c.field(self, 'queue'), c.list([callback, args, kwargs]))
    return self


def s_attach(c, self, parent):
    """The parent of the last node of the chain."""
    p = c.field(self, '_parent')
    if c.is_(parent, NONE) or c.is_(p, NONE):
        c.setfield(self, '_parent', parent)
    else:
        c.call(c.fn(DN + '.parent.setter'), [p, parent])
    return NONE


# ---- the reads of a chain, oldest first: those of the nodes it is chained to, then those of the queue
I = z3.IntSort()


def reads(eng):
    """Number, operation and callback of the reads of a node and what it is chained to."""
    return eng.decl('READS', V, I), eng.decl('READ_OPERATION', V, I, V), eng.decl('READ_UNIT', V, I, V)


def element(l, j):
    """The element of a list at a symbolic index."""
    r, off = NONE, z3.IntVal(0)
    out = []
    for kind, s in l.segs:
        n = z3.IntVal(1) if kind == 'v' else s.length
        out.append((j < off + n, s if kind == 'v' else s.at(j - off)[1]))
        off = off + n
    for g, v in reversed(out):
        r = If(g, v, r)
    return r


def chained(c, n):
    """(number, i -> (operation, unit)) of the reads of a node, one step unfolded."""
    count, op, unit = reads(c.eng)
    p, q = c.field(n, '_parent'), c.eng.getlist(c.field(n, 'queue'))
    crit = c.field(n, 'aggregation_criterion')
    before = If(c.eng.eq(p, NONE), z3.IntVal(0), count(p))
    return before + q.length(), lambda i: (If(i < before, op(p, i), crit), If(i < before, unit(p, i), element(q, i - before)))


def define_reads(c, n, k):
    """What the functions mean for a node in the current state, at one index."""
    count, op, unit = reads(c.eng)
    m, at = chained(c, n)
    o, u = at(k)
    c.eng.assume(And(count(n) == m, m >= 0, Implies(And(k >= 0, k < m), And(op(n, k) == o, unit(n, k) == u))))


def same_reads(c, a, b, ks):
    count, op, unit = reads(c.eng)
    return And(count(a) == count(b), count(a) >= 0, *[And(op(a, k) == op(b, k), unit(a, k) == unit(b, k)) for k in ks])


def joined(a, b, k):
    """At index k of the concatenation."""
    (n, f), (m, g) = a, b
    x, y = f(k), g(k - n)
    return n + m, (If(k < n, x[0], y[0]), If(k < n, x[1], y[1]))


def s_copy(c, self):
    """A node of its own with a queue of its own, before copies of the nodes it is chained to."""
    o = c.new(DN)
    for n in ('execute', 'args', 'kwargs', 'iterator_factory', 'aggregation_criterion', '_iterator'):
        c.setfield(o, n, c.field(self, n))
    p = c.field(self, '_parent')
    q = c.list()
    lib.m_list_extend(c.eng, q, c.field(self, 'queue'))
    c.setfield(o, 'queue', q)
    c.setfield(o, '_parent', NONE if c.is_(p, NONE) else c.eng.call(c.fn(DN + '.__copy__'), [p], {}))
    return o


class Copy(OpaqueMethod):
    """The contract of copying a node, for its callers."""

    def apply(self, eng, fn, args, kwargs):
        from dv.contract import Ctx
        eng.contracts[DN + '.__copy__'] = OpaqueMethod('copy', False, Obj(DN, True))
        try:
            return s_copy(Ctx(eng, 'call', None), *args)
        finally:
            eng.contracts[DN + '.__copy__'] = self


def copies(eng):
    eng.contracts[DN + '.__copy__'] = OpaqueMethod('copy', False, Obj(DN, True))
    eng.inline = eng.inline - {DN + '.__copy__'}


def attach(eng):
    eng.contracts[DN + '.parent.setter'] = OpaqueMethod('attach', False, None)
    eng.inline = eng.inline - {DN + '.parent.setter'}


def s_iter(c, self):
    """The same iterator every time."""
    it = c.field(self, '_iterator')
    if c.is_(it, NONE):
        it = c.call(c.field(self, 'iterator_factory'), [self])
        c.setfield(self, '_iterator', it)
    return it


def node_of(c, other):
    if c.isinstance(other, DF):
        return c.field(other, 'node')
    if not c.isinstance(other, IDEF):
        c.raise_('builtins.TypeError')
    return other


def s_iadd(c, self, other):
    """What the other one is chained to first; then its reads, after those of the last node when the operation is the same.
    So the reads of the other one follow those of this one."""
    eng = c.eng
    k = z3.Int('read')
    count, op, unit = reads(eng)
    eng.assume(ForAllNodes(eng))
    there = node_of(c, other)
    n0 = c.field(self, 'node')
    mine, its = chained(c, n0), chained(c, there)
    define_reads(c, n0, k)
    define_reads(c, there, k - mine[0])
    new = eng.call(c.fn(DN + '.__copy__'), [there], {})
    p, p0 = c.field(new, '_parent'), c.field(there, '_parent')
    if not c.is_(p, NONE):
        eng.assume(same_reads(c, p, p0, [k - mine[0]]))                # the contract of copying
        eng.overrides[DF, '__iadd__'](eng, [self, p], {})
        c.setfield(new, '_parent', NONE)
        n1 = c.field(self, 'node')
        m, (o, u) = joined((count(n0), lambda i: (op(n0, i), unit(n0, i))), (count(p), lambda i: (op(p, i), unit(p, i))), k)
        eng.assume(And(count(n1) == m, Implies(And(k >= 0, k < m), And(op(n1, k) == o, unit(n1, k) == u))))
        define_reads(c, n1, k)
    last = c.field(self, 'node')
    if c.branch(c.eq(c.field(last, 'aggregation_criterion'), c.field(new, 'aggregation_criterion'))):
        lib.m_list_extend(eng, c.field(last, 'queue'), c.field(new, 'queue'))
    else:
        c.setfield(new, '_parent', last)
        c.setfield(self, 'node', new)
    want, (o, u) = joined(mine, its, k)
    now = []
    c.ensure('number of reads', lambda: (now.append(chained(c, c.field(self, 'node'))), now[0][0] == want)[1])
    c.ensure('order of the reads', lambda: Implies(And(k >= 0, k < want), now[0][1](k)[1] == u))
    c.ensure('operations of the reads', lambda: Implies(And(k >= 0, k < want), now[0][1](k)[0] == o))
    return self


def ForAllNodes(eng):
    count, _, _ = reads(eng)
    n = z3.Const('anynode', V)
    return z3.ForAll([n], count(n) >= 0, patterns=[count(n)])


def adding(eng):
    """Adding the reads another one is chained to: by the contract of adding itself."""
    def iadd(e, args, kwargs):
        e.event('add', list(args))
        n = e.seqfresh('node', V, Obj(DN, True))
        e.assume(V.is_opq(n))
        e.setfield(args[0], 'node', n)
        return args[0]
    eng.overrides[DF, '__iadd__'] = iadd
    eng.contracts[DN + '.__copy__'] = Copy('copy')


# ---- resolving
def pre_chain(c, self, **kw):
    c.chain(c.field(self, '_node'), lambda t: c.eng.base_map('F:_parent').get(t), Obj(DN, True))


def pre_index(c, self, **kw):
    i = z3.Int('index')
    c.setfield(self, '_index', V.num(z3.ToReal(i)))
    c.eng.assume(i >= 0)


def pre_next(case):
    """Three cases that together are all there are."""
    def pre(c, self, **kw):
        pre_chain(c, self)
        pre_index(c, self)
        n = c.field(self, '_node')
        c.eng.assume(Not(c.eng.eq(c.field(n, 'execute'), NONE)))
        st = c.field(self, '_state')
        none = c.eng.eq(st, NONE)
        if case == 'without a state':
            c.eng.assume(none)
            return
        c.eng.assume(Not(none))
        known = c.has(c.field(st, '_contexts'), c.field(n, 'aggregation_criterion'))
        c.eng.assume(known if case == 'known operation' else Not(known))
    return pre


def unit_keys(c, u):
    return lib.getitem(c.eng, lib.getitem(c.eng, u, c.const(1)), c.const(0))


def s_node_keys(c, node):
    keys = c.eng.new_set()
    c.foreach(c.field(node, 'queue'), lambda u: lib.m_set_update(c.eng, keys, unit_keys(c, u)))
    return keys


def s_union(c, self, acceptable_aggregation_criterion):
    """The keys of all reads of the same operation in the chain."""
    keys = c.eng.new_set()

    def one(n):
        if c.branch(c.eq(c.field(n, 'aggregation_criterion'), acceptable_aggregation_criterion)):
            c.foreach(c.field(n, 'queue'), lambda u: lib.m_set_update(c.eng, keys, unit_keys(c, u)))
    c.walk(c.eng.state.extra['chains'][0], one)
    return keys


def the_state(c, it):
    st = c.field(it, '_state')
    if c.is_(st, NONE):
        st = new_state(c)
        c.setfield(it, '_state', st)
    return st


def new_state(c):
    st = c.new(ST)
    c.setfield(st, '_contexts', c.dict())
    c.setfield(st, '_current_context', NONE)
    return st


def s_state_init(c, self):
    c.setfield(self, '_contexts', c.dict())
    c.setfield(self, '_current_context', NONE)
    return NONE


def s_switch(c, self, context_key):
    every = c.field(self, '_contexts')
    if not c.branch(c.has(every, context_key)):
        c.put(every, context_key, c.dict())
    c.setfield(self, '_current_context', c.item(every, context_key))
    return NONE


def s_iterator(c, self, node):
    c.setfield(self, '_node', node)
    c.setfield(self, '_index', c.const(0))
    c.setfield(self, '_state', NONE)
    return NONE


def s_delegate(c, self):
    """The next result of the parent's iterator, which goes on with the state of this one."""
    p = c.field(c.field(self, '_node'), '_parent')
    if c.is_(p, NONE):
        c.raise_('builtins.StopIteration')
    it = s_iter(c, p)
    c.setfield(it, '_state', the_state(c, self))
    return method(c, it_class(c, it), '__next__', it)


def it_class(c, it):
    return c.eng.one_alt(it)[1]


def s_get(c, n):
    it = s_iter(c, n)
    return method(c, it_class(c, it), '__next__', it)


def resolved(node_of):
    """The iterator of a node is one of the two kinds there are."""
    def pre(c, self, **kw):
        n = node_of(c, self)
        c.setfield(n, 'iterator_factory', c.fn((GI, NI)[c.eng.choose(2)]))
    return pre


def resolved_parent(c, self):
    p = c.field(c.field(self, '_node'), '_parent')
    if not c.is_(p, NONE):
        c.setfield(p, 'iterator_factory', c.fn((GI, NI)[c.eng.choose(2)]))


def resolving(eng):
    for k in (GI, NI, AI):
        eng.contracts[k + '.__next__'] = OpaqueMethod('next')


def begin(c, self):
    """(node, queue, number of reads): the reads of one operation share what was fetched."""
    n = c.field(self, '_node')
    st = the_state(c, self)
    s_switch(c, st, c.field(n, 'aggregation_criterion'))
    return n, st


def next_unit(c, self, n):
    """Reads are resolved from the last to the first; then those of the nodes chained to."""
    q = c.eng.getlist(c.field(n, 'queue'))
    i = c.field(self, '_index')
    size = V.num(z3.ToReal(q.length()))
    if c.branch(V.nv(i) >= V.nv(size)):
        return None
    c.setfield(self, '_index', V.num(V.nv(i) + 1))
    return lib.getitem(c.eng, c.field(n, 'queue'), V.num(V.nv(size) - V.nv(i) - 1))


def finish(c, n, unit, items):
    f, args, kw = (lib.getitem(c.eng, unit, c.const(j)) for j in range(3))
    return c.eng.call(f, [n, items, Star(args)], {'**': Star(kw, True)})


def s_next(c, self):
    n, st = begin(c, self)
    unit = next_unit(c, self, n)
    if unit is None:
        return c.eng.call(c.fn(AI + '._delegate'), [self], {})
    crit = c.field(n, 'aggregation_criterion')
    here = c.field(st, '_current_context')
    name = c.const('aggregated_caches_mapping')
    if not c.branch(c.has(here, name)):
        c.put(here, name, c.dict())
    fetched = c.item(here, name)
    if not c.branch(c.has(fetched, crit)):
        keys = s_union(c, self, crit)
        got = c.eng.call(c.field(n, 'execute'), [keys, Star(c.field(n, 'args'))], {'**': Star(c.field(n, 'kwargs'), True)})
        if not c.branch(c.truth(got)):
            got = c.dict()
        c.put(fetched, crit, got)
    every = c.item(fetched, crit)
    items = c.dict()

    def one(k):
        if c.branch(c.has(every, k)):
            c.put(items, k, c.item(every, k))
    c.foreach(lib.getitem(c.eng, lib.getitem(c.eng, unit, c.const(1)), c.const(0)), one)
    return finish(c, n, unit, items)


def s_next_none(c, self):
    n, st = begin(c, self)
    unit = next_unit(c, self, n)
    if unit is None:
        return c.eng.call(c.fn(AI + '._delegate'), [self], {})
    return finish(c, n, unit, NONE)


def delegates(eng):
    eng.contracts[AI + '._delegate'] = OpaqueMethod('delegate')


def s_deferred(c, self, executor, iterator_factory, args, kwargs):
    n = c.new(DN)
    s_node(c, n, executor, iterator_factory, args, kwargs)
    c.setfield(self, 'node', n)
    return NONE


def s_queued(c, self, callback, args, kwargs):
    return s_push(c, c.field(self, 'node'), callback, args, kwargs)


def s_parent(c, self, parent):
    return c.eng.call(c.fn(DN + '.parent.setter'), [c.field(self, 'node'), node_of(c, parent)], {})


def s_hashable(c, obj):
    """The same content without anything that can change."""
    deep = lambda v: query(c.eng, 'hashable', [v], ANY)
    k = c.eng.one_alt(c.eng.pick(obj))[0]
    if k in ('list', 'tuple'):
        r = c.list()
        c.foreach(obj, lambda v: lib.m_list_append(c.eng, r, deep(v)))
        return c.builtin('tuple', r)
    if k in ('set', 'fset'):
        r = c.eng.new_set()
        c.foreach(obj, lambda v: lib.set_add(c.eng, r, deep(v)))
        return c.builtin('frozenset', r)
    if k == 'dict':
        r = c.eng.new_set()
        c.foreach(obj, lambda k, v: lib.set_add(c.eng, r, c.tup([k, deep(v)])), view='items')
        return c.builtin('frozenset', r)
    return obj


def deep(eng):
    HASHABLE(eng)
    eng.inline = eng.inline - {HASH}


def contracts():
    P = {'*': ['C12']}
    kw = dict(call_mode=False, props=P)
    node, me = ('self', ('self', DN)), ('self', ('self', DF))
    it = lambda n: ('self', ('self', n))
    args, kwargs = ('args', ARGS), ('kwargs', KWARGS)
    parent, other = ('parent', [NONE_T, Obj(DN, True)]), ('other', [Obj(DF), Obj(DN, True), NONE_T])
    return [
        Contract(HASH, s_hashable, [('obj', [('list', (ANY,)), ('tuple', (ANY,)), ('set', (ANY,)), ('fset', (ANY,)),
                                             ('dict', (ANY,), (ANY,)), STR, NUM, CALL])], env=deep, **kw),
        Contract(DN + '.__init__', s_node, [node, ('executor', [NONE_T, CALL]), ('iterator_factory', ANY), args, kwargs],
                 setup=factories, env=HASHABLE, **kw),
        Contract(DN + '.add_callback', s_push, [node, ('callback', CALL), args, kwargs], **kw),
        Contract(DN + '.parent', lambda c, self: c.field(self, '_parent'), [node], **kw),
        Contract(DN + '.parent.setter', s_attach, [node, parent], env=attach, **kw),
        Contract(DN + '.parent.deleter', lambda c, self: (c.setfield(self, '_parent', NONE), NONE)[1], [node], **kw),
        Contract(DN + '.__copy__', s_copy, [node], env=copies, **kw),
        Contract(DN + '.__iter__', s_iter, [node], **kw),
        Contract(GI + '._get_node_cache_keys', s_node_keys, [('node', Obj(DN, True))], **kw),
        Contract(GI + '._get_aggregated_cache_keys', s_union, [it(GI), ('acceptable_aggregation_criterion', ANY)], pre=pre_chain,
                 assumes=[FINITE], **kw),
        Contract(ST + '.__init__', s_state_init, [it(ST)], **kw),
        Contract(ST + '.switch_context', s_switch, [it(ST), ('context_key', ANY)], **kw),
        Contract(AI + '.__init__', s_iterator, [it(GI), ('node', Obj(DN, True))], **kw),
        Contract(AI + '.state', lambda c, self: the_state(c, self), [it(GI)], **kw),
        Contract(AI + '.state.setter', lambda c, self, state: (c.setfield(self, '_state', state), NONE)[1],
                 [it(GI), ('state', Obj(ST, True))], **kw),
        *[Contract(GI + '.__next__', s_next, [it(GI)], pre=pre_next(k), assumes=[FINITE], env=delegates, name=k, **kw)
          for k in ('without a state', 'new operation', 'known operation')],
        Contract(NI + '.__next__', s_next_none, [it(NI)], pre=pre_index, env=delegates, **kw),
        Contract(AI + '._delegate', s_delegate, [it(GI)], pre=resolved_parent, env=resolving, **kw),
        Contract(AI + '.next', lambda c, self: method(c, GI, '__next__', self), [it(GI)], env=resolving, **kw),
        Contract(AI + '.__iter__', lambda c, self: self, [it(GI)], **kw),
        Contract(DN + '.get', lambda c, self: s_get(c, self), [node], pre=resolved(lambda c, self: self), env=resolving, **kw),
        Contract(DF + '.get', lambda c, self: s_get(c, c.field(self, 'node')), [me],
                 pre=resolved(lambda c, self: c.field(self, 'node')), env=resolving, **kw),
        Contract(DF + '.__init__', s_deferred, [me, ('executor', [NONE_T, CALL]), ('iterator_factory', ANY), args, kwargs],
                 setup=factories, env=HASHABLE, **kw),
        Contract(DF + '.add_callback', s_queued, [me, ('callback', CALL), args, kwargs], **kw),
        Contract(DF + '.parent', lambda c, self: c.field(c.field(self, 'node'), '_parent'), [me], **kw),
        Contract(DF + '.parent.setter', s_parent, [me, ('parent', [Obj(DF), Obj(DN, True)])], env=attach, **kw),
        Contract(DF + '.parent.deleter', lambda c, self: (c.setfield(c.field(self, 'node'), '_parent', NONE), NONE)[1], [me], **kw),
        Contract(DF + '.__iter__', lambda c, self: s_iter(c, c.field(self, 'node')), [me], **kw),
        Contract(DF + '.__iadd__', s_iadd, [me, other], env=adding, **kw),
    ]
