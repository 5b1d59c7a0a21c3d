"""Builtins, container methods, operators and standard library models."""
import ast
import z3
from .terms import V, NONE, NIL, TRUE, FALSE, And, Or, Not, Implies, If, ctor, is_value, subst, contains, I, B, R
from .state import Dom, ListC, GMap, Unsupported, NotPointwise


def E():
    from . import engine
    return engine


# ---- numbers -----------------------------------------------------------------
def num(eng, v):
    c = ctor(v)
    if c == 'num':
        return v.arg(0)
    if c == 'boo':
        return If(v.arg(0), z3.RealVal(1), z3.RealVal(0))
    alts = [a[0] for a in eng.alts(v)]
    if 'num' in alts or 'any' in alts or 'bool' in alts:
        if alts == ['num'] or eng.branch(V.is_num(v)):
            return V.nv(v)
    if any(a in ('none', 'str', 'set', 'list', 'dict', 'tuple') for a in alts) and 'any' not in alts:
        eng.throw('TypeError', eng.const('number expected'))
    raise Unsupported('number expected: %s %s' % (v, alts))


def is_num(eng, v):
    return all(a[0] in ('num', 'bool') for a in eng.alts(v))


def binop(eng, op, a, b):
    a, b = eng.pick(a), eng.pick(b)
    o = type(op)
    ka, kb = eng.one_alt(a)[0], eng.one_alt(b)[0]
    if ka == 'str' and o is ast.Mod:
        return percent(eng, a, b)
    if o is ast.Add and ka == 'str' and kb == 'str':
        return template(eng, [a, b])
    if ka in ('set', 'fset') or (ka == 'fn' and isinstance(eng.entry(a), E().View)):
        ma, mb = memfn(eng, a), memfn(eng, b)
        el = elem_alts(eng, a)
        kind = ka if ka != 'fn' else 'set'
        if kb not in ('set', 'fset', 'fn'):
            eng.throw('TypeError', eng.const('set operand'))
        if o is ast.BitOr:
            return eng.new_set(mem=lambda y: Or(ma(y), mb(y)), kind=kind, el=el)
        if o is ast.BitAnd:
            return eng.new_set(mem=lambda y: And(ma(y), mb(y)), kind=kind, el=el)
        if o is ast.Sub:
            return eng.new_set(mem=lambda y: And(ma(y), Not(mb(y))), kind=kind, el=el)
        if o is ast.BitXor:
            return eng.new_set(mem=lambda y: z3.Xor(ma(y), mb(y)), kind=kind, el=el)
    if o is ast.Add and ka == 'list' and kb == 'list':
        return eng.new_listc(ListC(eng.getlist(a).segs + eng.getlist(b).segs))
    if o is ast.Add and ka == 'tuple' and kb == 'tuple':
        ia, ib = eng.untup(a), eng.untup(b)
        if ia is not None and ib is not None:
            return eng.tup(ia + ib)
        if ia is not None:
            t = b
            for v in reversed(ia):
                t = V.cons(v, t)
            return t
        return eng.new_listc(ListC(tuple(segs_of(eng, a)) + tuple(segs_of(eng, b))), kind='tuple')
    if ka == 'obj' or kb == 'obj':
        nm = {ast.Add: '__add__', ast.BitOr: '__or__', ast.Sub: '__sub__'}.get(o)
        if ka == 'obj' and nm:
            m = eng.class_attr(eng.obj_alt(a)[1], nm)
            if m is not None and not isinstance(m, str):
                return eng.call(eng.bind(m, a, eng.obj_alt(a)[1]), [b], {})
        raise Unsupported('operator on objects')
    if o is ast.Mult and (ka in ('list', 'tuple', 'str') or kb in ('list', 'tuple', 'str')):
        raise Unsupported('repetition')
    if ka in ('num', 'bool', 'any') and kb in ('num', 'bool', 'any'):
        if ka == 'any' or kb == 'any':
            f = eng.decl('py_' + o.__name__, V, V, V)
            if not (ka == 'num' or kb == 'num') or True:
                # operands of unknown type: an uninterpreted result, numeric when both are numbers
                r = f(a, b)
                eng.decl_ty['py_' + o.__name__] = (E().ANY,)
                if o is ast.Add:
                    eng.assume(Implies(And(V.is_num(a), V.is_num(b)), r == V.num(V.nv(a) + V.nv(b))))
                elif o is ast.Sub:
                    eng.assume(Implies(And(V.is_num(a), V.is_num(b)), r == V.num(V.nv(a) - V.nv(b))))
                return r
        x, y = num(eng, a), num(eng, b)
        if o is ast.Add:
            return V.num(z3.simplify(x + y))
        if o is ast.Sub:
            return V.num(z3.simplify(x - y))
        if o is ast.Mult:
            return V.num(z3.simplify(x * y))
        if o is ast.Div:
            if eng.branch(y == 0):
                eng.throw('ZeroDivisionError')
            return V.num(z3.simplify(x / y))
        if o in (ast.BitOr, ast.BitAnd, ast.BitXor):      # a number that follows from the two
            eng.decl_ty['py_bits_' + o.__name__] = (E().NUM,)
            r = eng.decl('py_bits_' + o.__name__, V, V, V)(V.num(x), V.num(y))
            eng.assume(V.is_num(r))
            return r
        raise Unsupported('arithmetic ' + o.__name__)
    if ka == 'none' or kb == 'none':
        eng.throw('TypeError', eng.const('unsupported operand'))
    raise Unsupported('operator %s on %s and %s' % (o.__name__, ka, kb))


def inplace(eng, op, a, b):
    a = eng.pick(a)
    alt = eng.one_alt(a)
    k = alt[0]
    o = type(op)
    if k == 'set':
        mb = memfn(eng, eng.pick(b))
        if o is ast.BitOr:
            set_region(eng, a, mb, TRUE)
            return a
        ma = memfn(eng, a)
        if o is ast.Sub:
            set_region(eng, a, mb, FALSE)
            return a
        if o is ast.BitAnd:
            set_region(eng, a, lambda y: Not(mb(y)), FALSE)
            return a
    if k == 'list' and o is ast.Add:
        eng.setlist(a, eng.getlist(a).extend(segs_of(eng, b)))
        return a
    if k == 'obj':
        nm = {ast.Add: '__iadd__', ast.BitOr: '__ior__', ast.Sub: '__isub__'}.get(o)
        m = eng.class_attr(alt[1], nm) if nm else None
        if m is not None and not isinstance(m, str):
            return eng.call(eng.bind(m, a, alt[1]), [b], {})
    return binop(eng, op, a, b)


def set_region(eng, c, mem, value):
    """Set membership of all y with mem(y) to the constant value."""
    cond = lambda d, y: And(eng.eq(d, c), mem(y))
    cond.target = c
    cond.sorts = (V, V)
    val = lambda d, y: value
    val.const = value
    eng.gregion('MEM', cond, val)
    eng.unconc(c)


def set_add(eng, c, v):
    eng.gput('MEM', (c, v), TRUE)
    cc = eng.state.conc.get(c.get_id())
    if cc is not None:
        for q in cc[1]:
            e = eng.eq(q, v)
            if z3.is_true(e):
                return
            if not z3.is_false(e):
                eng.state.conc.pop(c.get_id())
                return
        eng.state.conc[c.get_id()] = (c, cc[1] + (v,))
    else:
        eng.unconc(c)


# ---- membership functions -----------------------------------------------------
def memfn(eng, t):
    """Membership in an iterable as a function on terms (snapshot of now)."""
    t = eng.pick(t)
    k = eng.one_alt(t)[0]
    if k in ('set', 'fset'):
        m = eng.gmap('MEM')
        return lambda y: m.get(t, y)
    if k == 'dict':
        m = eng.gmap('DOM')
        return lambda y: m.get(t, y)
    if k == 'fn' and isinstance(eng.entry(t), E().View):
        vw = eng.entry(t)
        dm, vm = eng.gmap('DOM'), eng.gmap('VAL')
        d = vw.d
        if vw.which == 'keys':
            return lambda y: dm.get(d, y)
        if vw.which == 'items':
            return lambda y: And(V.is_cons(y), dm.get(d, V.hd(y)),
                                 V.tl(y) == V.cons(vm.get(d, V.hd(y)), NIL))
        x = z3.Const('vv!%d' % eng.uid('vv'), V)
        inv = None
        from . import loops
        cc = eng.state.conc.get(d.get_id())
        if cc is not None:
            vals = [vm.get(d, q) for q in cc[1]]
            return lambda y: Or(*[eng.eq(v, y) for v in vals])
        val = vm.get(d, x)
        r = loops.invert(eng, z3.simplify(val) if False else val, x)
        if r is None:
            # the stored values may be conditional: resolve the condition that holds on the domain
            val2 = simplify_under(eng, val, dm.get(d, x), x)
            r = loops.invert(eng, val2, x)
        if r is not None:
            iv, rec = r
            return lambda y: And(rec(y), dm.get(d, iv(y)))
        return lambda y: z3.Exists([x], And(dm.get(d, x), val == y))
    items = concrete_items(eng, t, consume=False)
    if items is not None:
        return lambda y: Or(*[eng.eq(v, y) for v in items])
    segs = segs_of(eng, t)
    fns = []
    from . import loops
    for kind, s in segs:
        if kind == 'v':
            fns.append(lambda y, s=s: eng.eq(s, y))
        else:
            r = loops.invert(eng, s.val, s.x)
            if r is not None:
                iv, rec = r

                def f(y, s=s, iv=iv, rec=rec):
                    return And(rec(y), subst(s.guard, [(s.x, iv(y))]))
                fns.append(f)
            else:
                def f2(y, s=s):
                    return z3.Exists([s.x], And(s.guard, eng.eq(s.val, y)))
                fns.append(loops.hygienic(f2, s.x))
    return lambda y: Or(*[f(y) for f in fns])


def simplify_under(eng, val, cond, x):
    """Drop the branches of an if-then-else that the condition rules out."""
    while z3.is_app(val) and val.decl().kind() == z3.Z3_OP_ITE:
        c = val.arg(0)
        s = z3.SimpleSolver()
        s.set('timeout', 500)
        s.set('smt.mbqi', False)
        for a in eng.axioms:
            s.add(a)
        for f in eng.pcs():
            s.add(f)
        s.add(cond)
        s.push()
        s.add(Not(c))
        r = s.check()
        s.pop()
        if r == z3.unsat:
            val = val.arg(1)
            continue
        s.add(c)
        if s.check() == z3.unsat:
            val = val.arg(2)
            continue
        break
    return val


def empty_fset(eng):
    """The one empty frozenset."""
    t = V.ref(z3.IntVal(0))
    eng.kinds[0] = ('fset', (E().ANY,))
    eng.state.conc[t.get_id()] = (t, ())
    return t


def elem_alts(eng, t):
    for a in eng.alts(t):
        if a[0] in ('set', 'fset', 'list', 'tuple', 'iter'):
            return a[1]
        if a[0] == 'dict':
            return a[1]
    return (E().ANY,)


# ---- iteration ------------------------------------------------------------------
def concrete_items(eng, t, consume=True):
    """Items of an iterable whose shape is concrete, or None."""
    t = eng.pick(t)
    items = eng.untup(t)
    if items is not None:
        return items
    k = eng.one_alt(t)[0]
    if k in ('list', 'tuple'):
        return eng.getlist(t).concrete()
    if k == 'iter':
        l = eng.getlist(t).concrete()
        if l is not None and consume:
            eng.setlist(t, ListC())
        return l
    if k in ('set', 'fset', 'dict'):
        cc = eng.state.conc.get(t.get_id())
        return list(cc[1]) if cc is not None else None
    if k == 'fn' and isinstance(eng.entry(t), E().View):
        vw = eng.entry(t)
        cc = eng.state.conc.get(vw.d.get_id())
        if cc is None:
            return None
        if vw.which == 'keys':
            return list(cc[1])
        vals = [eng.dict_get(vw.d, q) for q in cc[1]]
        if vw.which == 'values':
            return vals
        return [eng.tup([q, v]) for q, v in zip(cc[1], vals)]
    if k == 'str':
        s = eng.pystr(t)
        if s is not None:
            return [eng.const(c) for c in s]
    return None


def elemvar(eng, alts, sort=V):
    x = z3.Const('e!%d' % eng.uid('e'), sort)
    if alts is not None:
        eng.decl_ty[x.decl().name()] = tuple(alts)
    return x


def segs_of(eng, t):
    return iterate(eng, t, consume=False)


def iterate(eng, t, consume=True):
    """Iteration plan: list of ('v', term) and ('d', Dom)."""
    t = eng.pick(t)
    items = concrete_items(eng, t, consume)
    if items is not None:
        return [('v', v) for v in items]
    a = eng.one_alt(t)
    k = a[0]
    if k in ('set', 'fset', 'dict'):
        x = elemvar(eng, a[1])
        m = eng.gmap('MEM' if k != 'dict' else 'DOM').get(t, x)
        return [('d', Dom(x, m, x))]
    if k in ('list', 'tuple', 'iter'):
        if k == 'tuple' and ctor(t) == 'cons':
            out = []
            while ctor(t) == 'cons':
                out.append(('v', t.arg(0)))
                t = t.arg(1)
            return out + iterate(eng, t, consume)
        l = eng.getlist(t)
        l.check()
        segs = list(l.segs)
        if k == 'iter' and consume:
            eng.setlist(t, ListC())
        return segs
    if k == 'fn' and isinstance(eng.entry(t), E().View):
        vw = eng.entry(t)
        da = [b for b in eng.alts(vw.d) if b[0] == 'dict']
        x = elemvar(eng, da[0][1] if da else None)
        g = eng.gmap('DOM').get(vw.d, x)
        if vw.which == 'keys':
            return [('d', Dom(x, g, x))]
        v = simplify_under(eng, eng.gmap('VAL').get(vw.d, x), g, x)
        if vw.which == 'values':
            return [('d', Dom(x, g, v))]
        return [('d', Dom(x, g, eng.tup([x, v])))]
    if k == 'obj':
        m = eng.class_attr(a[1], '__iter__')
        if m is not None and not isinstance(m, str):
            r = eng.call(eng.bind(m, t, a[1]), [], {})
            return iterate(eng, r)
        h = eng.lookup_def(a[1], 'iter')
        if h is not None:
            return h(eng, t)
    if k in ('none', 'num', 'bool'):
        eng.throw('TypeError', eng.const('not iterable'))
    if k == 'str':
        s = eng.pystr(t)
        if s is not None:
            return [('v', eng.const(ch)) for ch in s]
        i = z3.Int('i!%d' % eng.uid('li'))
        n = V.nv(eng.pure('len', [t], [E().NUM]))
        eng.assume(And(z3.IsInt(n), n >= 0))
        n = z3.ToInt(n)
        ch = eng.decl('CHAR', V, z3.IntSort(), V)
        eng.decl_ty['CHAR'] = (E().STR,)
        from .engine import OLD_DECLS
        OLD_DECLS.add('CHAR')
        return [('d', Dom(i, And(i >= 0, i < n), ch(t, i), n))]
    raise Unsupported('iteration over %s' % (a,))


def cardinality(eng, content, nonempty, of=None):
    """The size of a symbolic collection: the same for the same content, and positive iff it is not empty."""
    k = ('card', id(content), of.get_id() if of is not None else None)
    known = eng.cards.get(k)
    c = known[0] if known else eng.fresh('card', I)
    eng.assume(c >= 0)
    eng.assume((c > 0) == nonempty())
    if not known and not eng.loopvars:
        eng.cards[k] = (c, content, of)
    return c


def map_segs(eng, segs, f):
    """Apply a pure function (given as python callable on terms) to all elements, as a list run."""
    acc = eng.new_list()

    def body(v):
        r = f(v)
        eng.setlist(acc, eng.getlist(acc).append(r))
    from . import loops
    loops.run(eng, segs, body)
    return acc


def unpack(eng, v, n, star=False):
    items = concrete_items(eng, v)
    if items is None:
        k = eng.one_alt(eng.pick(v))[0]
        if k == 'any' and ctor(v) is None:
            # a value known to be a tuple of that length?
            out = []
            t = v
            for _ in range(n):
                out.append(V.hd(t))
                t = V.tl(t)
            raise Unsupported('unpacking an opaque value')
        if k in ('list', 'tuple'):
            l = eng.getlist(v)
            if eng.branch(l.length() == n):
                out = []
                for i in range(n):
                    out.append(list_at(eng, l, z3.IntVal(i)))
                return out
            eng.throw('ValueError', eng.const('unpack'))
        raise Unsupported('unpacking %s' % k)
    if len(items) != n and not star:
        eng.throw('ValueError', eng.const('unpack'))
    return items


def list_at(eng, l, i):
    """Element at a (non-negative, in range) Int index."""
    l.check()
    off = z3.IntVal(0)
    segs = list(l.segs)
    for j, (kind, s) in enumerate(segs):
        last = j == len(segs) - 1
        if kind == 'v':
            e = z3.simplify(i == off)
            if last or eng.branch(e):
                return s
            off = z3.simplify(off + 1)
        else:
            if s.length is None:
                raise Unsupported('index into an unordered run')
            e = z3.simplify(i < off + s.length)
            if last or eng.branch(e):
                return eng.type_assume(subst(s.val, [(s.x, z3.simplify(i - off))]))
            off = z3.simplify(off + s.length)
    raise Unsupported('index')


def getitem(eng, o, i):
    o = eng.pick(o)
    a = eng.one_alt(o)
    k = a[0]
    if isinstance(i, tuple):
        return getslice(eng, o, k, i)
    if k == 'dict':
        hook = eng.lookup_dictlike(o, 'get')
        if not eng.branch(eng.dict_has(o, i)):
            raise E().Raise(eng.exc('builtins.KeyError', [i]))
        v = eng.gmap('VAL').get(o, i)
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
            v = simplify_under(eng, v, TRUE, None)
        return eng.type_assume(v)
    if k in ('list', 'tuple'):
        items = eng.untup(o)
        n = eng.pynum(i)
        if items is not None:
            if n is None:
                raise Unsupported('symbolic index into a tuple')
            if not -len(items) <= n < len(items):
                eng.throw('IndexError')
            return items[n]
        if k == 'tuple' and ctor(o) == 'cons' and n is not None and n >= 0:
            t = o
            while n and ctor(t) == 'cons':
                t = t.arg(1)
                n -= 1
            if ctor(t) == 'cons':
                return t.arg(0)
            return getitem(eng, t, eng.const(n))
        l = eng.getlist(o)
        ln = l.length()
        ix = z3.simplify(z3.ToInt(num(eng, i)))
        if eng.branch(z3.And(ix >= 0, ix < ln)):
            return list_at(eng, l, ix)
        if eng.branch(z3.And(ix < 0, ix >= -ln)):
            return list_at(eng, l, z3.simplify(ln + ix))
        eng.throw('IndexError')
    if k == 'obj':
        m = eng.class_attr(a[1], '__getitem__')
        if m is not None and not isinstance(m, str):
            return eng.call(eng.bind(m, o, a[1]), [i], {})
        h = eng.lookup_def(a[1], 'getitem')
        if h is not None:
            return h(eng, o, i)
    if k == 'fn' and isinstance(eng.entry(o), E().Ext):
        h = eng.handlers.get(eng.entry(o).name + '[]')
        if h is not None:
            return h(eng, [i], {})
    if k in ('none', 'num', 'bool', 'set', 'fset'):
        eng.throw('TypeError', eng.const('not subscriptable'))
    raise Unsupported('subscript of %s' % (a,))


def getslice(eng, o, k, sl):
    _, lo, hi, st = sl
    if ctor(st) != 'none':
        raise Unsupported('slice step')
    items = concrete_items(eng, o, consume=False)
    if items is not None and k in ('list', 'tuple'):
        def ix(x):
            return None if ctor(x) == 'none' else eng.pynum(x)
        if (ctor(lo) == 'none' or eng.pynum(lo) is not None) and (ctor(hi) == 'none' or eng.pynum(hi) is not None):
            r = items[ix(lo):ix(hi)]
            return eng.tup(r) if k == 'tuple' else eng.new_list(r)
    if ctor(lo) == 'none' and ctor(hi) == 'none' and k == 'list':
        l = eng.getlist(o)
        l.check()
        return eng.new_listc(ListC(l.segs), el=elem_alts(eng, o))
    if k in ('list', 'tuple') and all(ctor(x) == 'none' or eng.pynum(x) is not None for x in (lo, hi)):
        l, r = (0 if ctor(lo) == 'none' else int(eng.pynum(lo))), (None if ctor(hi) == 'none' else int(eng.pynum(hi)))
        return eng.new_listc(ListC(slice_segs(eng, segs_of(eng, o), l, r)), kind=k, el=elem_alts(eng, o))
    if k == 'str':
        return eng.pure('str.slice', [o, lo, hi], [E().STR])
    raise Unsupported('slice')


def slice_segs(eng, segs, lo, hi):
    """The elements from position lo to before position hi (None: to the end)."""
    segs = list(segs)
    if lo < 0 or (hi is not None and hi < 0):
        if lo == 0 and all(g[0] == 'v' for g in segs[hi:]) and len(segs) >= -hi:
            return segs[:hi]
        raise Unsupported('slice from the end')
    out, pos = [], 0
    for j, (kind, s) in enumerate(segs):
        if hi is not None and pos >= hi:
            break
        if kind == 'v':
            if pos >= lo:
                out.append((kind, s))
            pos += 1
            continue
        if j != len(segs) - 1:
            raise Unsupported('slice through a run')
        skip, most = max(lo - pos, 0), None if hi is None else hi - max(lo, pos)
        if s.indexed:
            n = s.length - skip
            if most is not None:
                n = If(n > most, z3.IntVal(most), n)
            n = z3.simplify(If(n < 0, z3.IntVal(0), n))
            g, v = s.at(s.x + skip)
            out.append((kind, Dom(s.x, And(s.x >= 0, s.x < n, g), v, n)))
        elif eng.loopvars:
            raise Unsupported('slice of an unordered run in a loop')
        else:   # any of the elements
            taken = z3.Function('taken!%d' % eng.uid('slice'), s.x.sort(), z3.BoolSort())
            out.append((kind, Dom(s.x, And(s.guard, taken(s.x)), s.val, None)))
    return out


def setitem(eng, o, i, v):
    o = eng.pick(o)
    a = eng.one_alt(o)
    k = a[0]
    if k == 'dict':
        eng.dict_put(o, i, v)
        return
    if k == 'list':
        l = eng.getlist(o)
        items = l.concrete()
        n = eng.pynum(i)
        if items is not None and n is not None:
            if not -len(items) <= n < len(items):
                eng.throw('IndexError')
            items = list(items)
            items[n] = v
            eng.setlist(o, ListC([('v', x) for x in items]))
            return
    if k == 'obj':
        m = eng.class_attr(a[1], '__setitem__')
        if m is not None and not isinstance(m, str):
            eng.call(eng.bind(m, o, a[1]), [i, v], {})
            return
        h = eng.lookup_def(a[1], 'setitem')
        if h is not None:
            h(eng, o, i, v)
            return
    raise Unsupported('item assignment on %s' % (a,))


def delitem(eng, o, i):
    o = eng.pick(o)
    k = eng.one_alt(o)[0]
    if k == 'dict':
        if not eng.branch(eng.dict_has(o, i)):
            raise E().Raise(eng.exc('builtins.KeyError', [i]))
        dict_del(eng, o, i)
        return
    raise Unsupported('del item')


def dict_del(eng, o, i):
    eng.gput('DOM', (o, i), FALSE)
    cc = eng.state.conc.get(o.get_id())
    if cc is not None:
        keys = []
        for q in cc[1]:
            e = eng.eq(q, i)
            if z3.is_true(e):
                continue
            if not z3.is_false(e):
                eng.state.conc.pop(o.get_id())
                return
            keys.append(q)
        eng.state.conc[o.get_id()] = (o, tuple(keys))
    else:
        eng.unconc(o)


def dict_update(eng, d, other):
    """d.update(other)"""
    items = None
    other = eng.pick(other)
    k = eng.one_alt(other)[0]
    if k == 'dict':
        cc = eng.state.conc.get(other.get_id())
        if cc is not None:
            for q in cc[1]:
                eng.dict_put(d, q, eng.dict_get(other, q))
            return
        dm, vm = eng.gmap('DOM'), eng.gmap('VAL')
        c1 = lambda c, y: And(eng.eq(c, d), dm.get(other, y))
        c1.target = d
        c1.sorts = (V, V)
        v1 = lambda c, y: TRUE
        v1.const = TRUE
        c2 = lambda c, y: And(eng.eq(c, d), dm.get(other, y))
        c2.target = d
        c2.sorts = (V, V)
        eng.gregion('DOM', c1, v1)
        eng.gregion('VAL', c2, lambda c, y: vm.get(other, y))
        eng.unconc(d)
        return
    its = concrete_items(eng, other)
    if its is not None:
        for it in its:
            p = concrete_items(eng, it)
            eng.dict_put(d, p[0], p[1])
        return
    from . import loops

    def body(v):
        p = unpack(eng, v, 2)
        eng.dict_put(d, p[0], p[1])
    loops.run(eng, iterate(eng, other), body)


# ---- comparison -------------------------------------------------------------------
def compare(eng, op, a, b):
    o = type(op)
    if o in (ast.Is, ast.Eq):
        return equal(eng, a, b, o is ast.Is)
    if o in (ast.IsNot, ast.NotEq):
        return Not(equal(eng, a, b, o is ast.IsNot))
    if o is ast.In:
        return member(eng, a, b)
    if o is ast.NotIn:
        return Not(member(eng, a, b))
    a, b = eng.pick(a), eng.pick(b)
    ka, kb = eng.one_alt(a)[0], eng.one_alt(b)[0]
    if ka in ('set', 'fset') and kb in ('set', 'fset'):
        ma, mb = memfn(eng, a), memfn(eng, b)
        x = z3.Const('sx!%d' % eng.uid('sx'), V)
        sub = z3.ForAll([x], Implies(ma(x), mb(x)))
        sup = z3.ForAll([x], Implies(mb(x), ma(x)))
        if o is ast.LtE:
            return sub
        if o is ast.GtE:
            return sup
        raise Unsupported('strict set comparison')
    if 'none' in (ka, kb) or ka == 'str' and kb == 'num' or ka == 'num' and kb == 'str':
        eng.throw('TypeError', eng.const('comparison'))
    x, y = num(eng, a), num(eng, b)
    if o is ast.Lt:
        return z3.simplify(x < y)
    if o is ast.LtE:
        return z3.simplify(x <= y)
    if o is ast.Gt:
        return z3.simplify(x > y)
    if o is ast.GtE:
        return z3.simplify(x >= y)
    raise Unsupported('comparison ' + o.__name__)


def equal(eng, a, b, identity):
    r = eng.eq(a, b)
    if z3.is_true(r):
        return r
    if identity:
        if z3.is_false(r):
            return r
        ka = [x[0] for x in eng.alts(a)]
        kb = [x[0] for x in eng.alts(b)]
        return type_disjoint(eng, a, b, r)
    ka = [x[0] for x in eng.alts(a)]
    kb = [x[0] for x in eng.alts(b)]
    if ctor(a) in ('cons', 'nil') and ctor(b) in ('cons', 'nil'):
        xs, ys = eng.untup(a), eng.untup(b)
        if xs is not None and ys is not None:
            if len(xs) != len(ys):
                return FALSE
            return And(*[equal(eng, x, y, False) for x, y in zip(xs, ys)])
    for k, t in ((ka, a), (kb, b)):
        if k == ['obj']:
            m = eng.class_attr(eng.obj_alt(t)[1], '__eq__')
            if m is not None and not isinstance(m, str):
                raise Unsupported('__eq__ of an object')
    if ka == ['num'] and kb == ['num']:
        return z3.simplify(num(eng, a) == num(eng, b))
    if len(ka) == 1 and len(kb) == 1 and ka[0] in ('set', 'fset') and kb[0] in ('set', 'fset'):
        ma, mb = memfn(eng, a), memfn(eng, b)
        x = z3.Const('sx!%d' % eng.uid('sx'), V)
        return z3.ForAll([x], ma(x) == mb(x))
    if (ka[0] in ('list', 'dict', 'set', 'fset') or kb[0] in ('list', 'dict', 'set', 'fset')) and ka[0] == kb[0]:
        ia, ib = concrete_items(eng, a), concrete_items(eng, b)
        if ka[0] == 'list' and ia is not None and ib is not None:
            if len(ia) != len(ib):
                return FALSE
            return And(*[equal(eng, x, y, False) for x, y in zip(ia, ib)])
        if ka[0] == 'list' and (ia == [] or ib == []):
            return eng.eq_len(a if ib == [] else b, 0)
        raise Unsupported('container equality')
    return type_disjoint(eng, a, b, r)


TESTK = {'none': 'none', 'bool': 'boo', 'num': 'num', 'str': 's'}


def type_disjoint(eng, a, b, r):
    """Values of different kinds are different."""
    if z3.is_false(r):
        return r
    ka = {x[0] for x in eng.alts(a)}
    kb = {x[0] for x in eng.alts(b)}
    if 'any' in ka or 'any' in kb:
        return r
    if not (ka & kb):
        return FALSE
    return r


def member(eng, x, c):
    c = eng.pick(c)
    a = eng.one_alt(c)
    k = a[0]
    if k in ('set', 'fset', 'dict', 'list', 'tuple') or (k == 'fn' and isinstance(eng.entry(c), E().View)):
        return memfn(eng, c)(x)
    if k == 'obj':
        m = eng.class_attr(a[1], '__contains__')
        if m is not None and not isinstance(m, str):
            return eng.truth(eng.call(eng.bind(m, c, a[1]), [x], {}))
        h = eng.lookup_def(a[1], 'contains')
        if h is not None:
            return h(eng, c, x)
    if k == 'iter':
        segs = iterate(eng, c)
        l = ListC(segs)
        return l.has(x)
    if k in ('none', 'num', 'bool') or k == 'obj':
        eng.throw('TypeError', eng.const('not a container'))
    if k == 'str':
        xs, cs = eng.pystr(x), eng.pystr(c)
        if xs is not None and cs is not None:
            return TRUE if xs in cs else FALSE
    raise Unsupported('membership in %s' % (a,))


# ---- strings ------------------------------------------------------------------------
def template(eng, parts):
    """A string assembled from constants (python str) and values; normalised."""
    lits, args = [''], []
    for p in parts:
        if not isinstance(p, str):
            s = eng.pystr(p)
            if s is None:
                n = eng.pynum(p)
                s = repr(n) if isinstance(n, int) else None
            if s is None:
                d = p.decl().name() if z3.is_app(p) else ''
                if d.startswith('fmt:') and p.decl().name() in eng.templates:
                    sub = eng.templates[d]
                    for i, l in enumerate(sub):
                        lits[-1] += l
                        if i < len(sub) - 1:
                            args.append(p.arg(i))
                            lits.append('')
                    continue
                args.append(p)
                lits.append('')
                continue
            p = s
        lits[-1] += p
    if not args:
        return eng.const(lits[0])
    if len(args) == 1 and lits == ['', ''] and [a[0] for a in eng.alts(args[0])] == ['str']:
        return args[0]
    return eng.fmt(tuple(lits), args)


def install_strings(Engine):
    def fmt(self, lits, args):
        name = 'fmt:' + '|'.join(lits)
        n = len(args)
        d = self.decl(name, *([V] * (n + 1)))
        self.decl_ty[name] = (E().STR,)
        if name not in self.templates:
            self.templates[name] = lits
        r = d(*args)
        self.assume(V.is_s(r), 'ty')
        if any(lits):
            self.assume(V.si(r) != 0, 'ty')
        h = getattr(self, 'fmt_hook', None)
        if h is not None:
            h(self, lits, args, r)
        return r

    def pure(self, name, args, ty):
        """An uninterpreted pure function."""
        d = self.decl('pure:' + name, *([V] * (len(args) + 1)))
        self.decl_ty['pure:' + name] = tuple(ty)
        r = d(*args)
        self.assume(self.type_formula(r, ty), 'ty')
        return r
    Engine.fmt = fmt
    Engine.pure = pure
    Engine.lookup_dictlike = lambda self, o, w: None
    Engine.eq_len = lambda self, c, n: self.getlist(c).length() == n


def str_of(eng, v):
    """str(v) as a term."""
    v = eng.pick(v)
    k = eng.one_alt(v)[0]
    if k == 'str':
        return v
    n = eng.pynum(v)
    if isinstance(n, int):
        return eng.const(str(n))
    if ctor(v) == 'none':
        return eng.const('None')
    return eng.pure('str', [v], [E().STR])


def fmt_arg(eng, v):
    k = [a[0] for a in eng.alts(v)]
    if k == ['str'] or k == ['num']:
        return v
    if ctor(v) == 'none':
        return eng.const('None')
    return v


def str_format(eng, s, args, kwargs):
    import string
    parts = []
    auto = 0
    try:
        fields = list(string.Formatter().parse(s))
    except ValueError:
        eng.throw('ValueError')
    for lit, name, spec, conv in fields:
        if lit:
            parts.append(lit)
        if name is None:
            continue
        if spec:
            if spec.startswith('!') or conv is None and '!' in spec:
                eng.throw('ValueError', eng.const('Invalid format specifier'))
            raise Unsupported('format spec')
        if name == '':
            name = str(auto)
            auto += 1
        if name.isdigit():
            if int(name) >= len(args):
                eng.throw('IndexError')
            v = args[int(name)]
        elif name in kwargs:
            v = kwargs[name]
        else:
            raise Unsupported('format field ' + name)
        if conv == 'r':
            v = eng.pure('repr', [v], [E().STR])
        parts.append(fmt_arg(eng, v))
    return template(eng, parts)


def percent(eng, a, b):
    s = eng.pystr(a)
    if s is None:
        raise Unsupported('% on a symbolic string')
    items = eng.untup(b)
    if items is None:
        items = [b]
    items = list(items)
    parts = []
    i = 0
    import re
    pos = 0
    for m in re.finditer(r'%(.)', s):
        parts.append(s[pos:m.start()])
        pos = m.end()
        if m.group(1) == '%':
            parts.append('%')
            continue
        if m.group(1) not in 'srdi':
            raise Unsupported('% format')
        if not items:
            eng.throw('TypeError')
        v = items.pop(0)
        parts.append(fmt_arg(eng, v) if m.group(1) != 'r' else eng.pure('repr', [v], [E().STR]))
    parts.append(s[pos:])
    if items:
        eng.throw('TypeError')
    return template(eng, parts)


# ---- methods ---------------------------------------------------------------------------
def call_method(eng, m, args, kwargs):
    t, name, k = m.self_, m.name, m.kind
    if k == 'view':
        raise Unsupported('method of a view')
    f = globals().get('m_%s_%s' % ('set' if k == 'fset' else k, name))
    if f is None:
        if k == 'str':
            return str_method(eng, t, name, args, kwargs)
        raise Unsupported('method %s.%s' % (k, name))
    return f(eng, t, *args, **kwargs)


def str_method(eng, t, name, args, kwargs):
    s = eng.pystr(t)
    if name == 'format':
        if s is None:
            raise Unsupported('format on a symbolic string')
        return str_format(eng, s, args, kwargs)
    pa = [eng.pystr(a) for a in args]
    if name in ('encode', 'decode'):
        return t
    if name == 'join' and s is not None:
        items = concrete_items(eng, args[0])
        if items is not None:
            parts = []
            for i, x in enumerate(items):
                if i:
                    parts.append(s)
                parts.append(x)
            return template(eng, parts)
        return eng.pure('str.join', [t, args[0]], [E().STR])
    if s is not None and all(p is not None for p in pa) and not kwargs:
        r = getattr(s, name)(*pa)
        if isinstance(r, (str, bool, int, tuple)):
            return eng.const(r)
        if isinstance(r, list):
            return eng.new_list([eng.const(x) for x in r])
    if not kwargs and all(a[0] in ('str', 'num', 'any') for x in args for a in eng.alts(x)):
        ty = {'startswith': E().BOOL, 'endswith': E().BOOL, 'isdigit': E().BOOL}.get(name, E().STR)
        if name in ('split', 'rsplit', 'splitlines', 'partition', 'rpartition'):
            ty = ('list', (E().STR,))
        return eng.pure('str.' + name, [t] + list(args), [ty])
    raise Unsupported('str.' + name)


def m_set_add(eng, t, v):
    set_add(eng, t, v)
    return NONE


def m_set_update(eng, t, *others):
    for o in others:
        items = concrete_items(eng, o)
        if items is not None:
            for v in items:
                set_add(eng, t, v)
        else:
            set_region(eng, t, memfn(eng, o), TRUE)
            consume(eng, o)
    return NONE


def consume(eng, o):
    if eng.one_alt(o)[0] == 'iter':
        eng.setlist(o, ListC())


def m_set_discard(eng, t, v):
    eng.gput('MEM', (t, v), FALSE)
    eng.unconc(t)
    return NONE


def m_set_remove(eng, t, v):
    if not eng.branch(memfn(eng, t)(v)):
        raise E().Raise(eng.exc('builtins.KeyError', [v]))
    return m_set_discard(eng, t, v)


def m_set_copy(eng, t):
    k = eng.one_alt(t)
    cc = eng.state.conc.get(t.get_id())
    m = memfn(eng, t)
    c = eng.new_set(mem=m, kind=k[0], el=k[1])
    if cc is not None:
        eng.state.conc[c.get_id()] = (c, cc[1])
    return c


def m_set_union(eng, t, *others):
    ms = [memfn(eng, t)] + [memfn(eng, o) for o in others]
    return eng.new_set(mem=lambda y: Or(*[m(y) for m in ms]), el=elem_alts(eng, t))


def m_set_intersection(eng, t, *others):
    ms = [memfn(eng, t)] + [memfn(eng, o) for o in others]
    return eng.new_set(mem=lambda y: And(*[m(y) for m in ms]), el=elem_alts(eng, t))


def m_set_difference(eng, t, *others):
    m0 = memfn(eng, t)
    ms = [memfn(eng, o) for o in others]
    return eng.new_set(mem=lambda y: And(m0(y), *[Not(m(y)) for m in ms]), el=elem_alts(eng, t))


def m_set_difference_update(eng, t, *others):
    for o in others:
        set_region(eng, t, memfn(eng, o), FALSE)
    return NONE


def m_set_issubset(eng, t, o):
    return V.boo(compare(eng, ast.LtE(), t, eng.new_set(mem=memfn(eng, o))))


def m_set_clear(eng, t):
    set_region(eng, t, lambda y: TRUE, FALSE)
    eng.state.conc[t.get_id()] = (t, ())
    return NONE


def m_dict_get(eng, t, k, default=NONE):
    h = eng.dict_has(t, k)
    v = eng.gmap('VAL').get(t, k)
    h = z3.simplify(h)
    if z3.is_true(h):
        return eng.type_assume(v)
    if z3.is_false(h):
        return default
    if eng.branch(h):
        v = simplify_under(eng, v, TRUE, None)
        return eng.type_assume(v)
    return default


def m_dict_pop(eng, t, k, *default):
    h = eng.dict_has(t, k)
    if eng.branch(h):
        v = eng.gmap('VAL').get(t, k)
        v = simplify_under(eng, v, TRUE, None)
        v = eng.type_assume(v)
        dict_del(eng, t, k)
        return v
    if default:
        # popping an absent key changes nothing, but other iterations of a loop may see it
        return default[0]
    raise E().Raise(eng.exc('builtins.KeyError', [k]))


def m_dict_setdefault(eng, t, k, default=NONE):
    if eng.branch(eng.dict_has(t, k)):
        return getitem(eng, t, k)
    eng.dict_put(t, k, default)
    return default


def m_dict_update(eng, t, *others, **kw):
    for o in others:
        dict_update(eng, t, o)
    for k, v in kw.items():
        eng.dict_put(t, eng.const(k), v)
    return NONE


def m_dict_keys(eng, t):
    return eng.mkfn(E().View('keys', t))


def m_dict_values(eng, t):
    return eng.mkfn(E().View('values', t))


def m_dict_items(eng, t):
    return eng.mkfn(E().View('items', t))


def m_dict_copy(eng, t):
    c = eng.new_dict()
    dict_update(eng, c, t)
    a = [x for x in eng.alts(t) if x[0] == 'dict'][0]
    eng.retype(c, a)
    return c


def m_dict_clear(eng, t):
    cond = lambda c, y: eng.eq(c, t)
    cond.target = t
    cond.sorts = (V, V)
    val = lambda c, y: FALSE
    val.const = FALSE
    eng.gregion('DOM', cond, val)
    eng.unconc(t)
    eng.state.conc[t.get_id()] = (t, ())
    return NONE


def m_list_append(eng, t, v):
    eng.setlist(t, eng.getlist(t).append(v))
    return NONE


def m_list_extend(eng, t, o):
    eng.setlist(t, eng.getlist(t).extend(iterate(eng, o)))
    return NONE


def m_list_insert(eng, t, i, v):
    l = eng.getlist(t)
    if eng.pynum(i) == 0:
        eng.setlist(t, ListC((('v', v),) + l.segs, l.poisoned))
        return NONE
    raise Unsupported('list.insert')


def m_list_copy(eng, t):
    return getslice(eng, t, 'list', ('slice', NONE, NONE, NONE))


def m_list_pop(eng, t, i=None):
    l = eng.getlist(t)
    l.check()
    segs = list(l.segs)
    n = -1 if i is None else eng.pynum(i)
    if not segs:
        eng.throw('IndexError')
    if n == -1 and segs[-1][0] == 'v':
        eng.setlist(t, ListC(segs[:-1]))
        return segs[-1][1]
    if n == 0 and segs[0][0] == 'v':
        eng.setlist(t, ListC(segs[1:]))
        return segs[0][1]
    raise Unsupported('list.pop')


def m_list_clear(eng, t):
    eng.setlist(t, ListC())
    return NONE


def m_list_sort(eng, t, **kw):
    l = eng.getlist(t)
    items = l.concrete()
    if items is not None and len(items) <= 1:
        return NONE
    if len(l.segs) == 1 and not kw:
        # the same elements, in an order that is a function of them
        d = l.segs[0][1]
        eng.setlist(t, ListC((('d', Dom(d.x, d.guard, d.val, None, 'sorted')),)))
        return NONE
    raise Unsupported('sort')


def m_list_reverse(eng, t):
    items = eng.getlist(t).concrete()
    if items is None:
        raise Unsupported('reverse')
    eng.setlist(t, ListC([('v', v) for v in reversed(items)]))
    return NONE


def m_str_format(eng, t, *args, **kw):
    return str_method(eng, t, 'format', list(args), kw)


# ---- builtin functions ---------------------------------------------------------------------
def install(eng):
    H = eng.handlers
    eng.templates = {}
    m = E()

    def h(name):
        def deco(f):
            H[name] = f
            return f
        return deco

    def simple(name):
        def deco(f):
            H[name] = lambda e, a, k: f(e, *a, **k)
            return f
        return deco

    @simple('builtins.len')
    def _len(e, t):
        t = e.pick(t)
        a = e.one_alt(t)
        k = a[0]
        items = concrete_items(e, t, consume=False)
        if items is not None:
            return e.const(len(items))
        if k in ('list', 'tuple'):
            n = 0
            while ctor(t) == 'cons':
                n += 1
                t = t.arg(1)
            l = e.getlist(t)
            l.check()
            if any(kd == 'd' and s.length is None for kd, s in l.segs):
                # the length of a filtered run is known only to be positive or not
                fixed = n + len([1 for kd, s in l.segs if kd == 'v'])
                c = cardinality(e, l, lambda: ListC([sg for sg in l.segs if sg[0] == 'd']).nonempty())
                return V.num(z3.simplify(z3.ToReal(c + fixed)))
            return V.num(z3.simplify(z3.ToReal(l.length() + n)))
        if k in ('set', 'fset', 'dict'):
            c = cardinality(e, e.gmap('DOM' if k == 'dict' else 'MEM'), lambda: e.nonempty(t), t)
            return V.num(z3.ToReal(c))
        if k == 'str':
            r = e.pure('len', [t], [m.NUM])
            e.assume(V.nv(r) >= 0)
            return r
        if k == 'obj':
            mm = e.class_attr(a[1], '__len__')
            if mm is not None and not isinstance(mm, str):
                return e.call(e.bind(mm, t, a[1]), [], {})
        raise Unsupported('len of %s' % (a,))

    @simple('builtins.isinstance')
    def _isinstance(e, t, c):
        for n in e.class_names(c):
            if e.isinstance(t, n):
                return V.boo(TRUE)
        return V.boo(FALSE)

    @simple('builtins.issubclass')
    def _issubclass(e, a, b):
        x = e.entry(a)
        if x is None:
            al = e.one_alt(a)
            if al[0] == 'class':
                return V.boo(TRUE if any(e.subclass(al[1], n) for n in e.class_names(b)) else FALSE)
            raise Unsupported('issubclass')
        return V.boo(TRUE if any(e.subclass(x.qual, n) for n in e.class_names(b)) else FALSE)

    @simple('builtins.callable')
    def _callable(e, t):
        return V.boo(TRUE if e.isinstance(t, 'collections.Callable') else FALSE)

    @simple('builtins.hasattr')
    def _hasattr(e, t, n):
        nm = e.pystr(n)
        if nm is None:
            raise Unsupported('hasattr with symbolic name')
        t = e.pick(t)
        ent = e.entry(t)
        if isinstance(ent, m.Ext):
            key = 'hasattr:%s.%s' % (ent.name, nm)
            if key in e.handlers:
                return e.handlers[key]
            import importlib
            return V.boo(TRUE)
        try:
            e.getattr(t, nm)
            return V.boo(TRUE)
        except m.Raise as r:
            if e.isinstance(r.value, 'builtins.AttributeError'):
                return V.boo(FALSE)
            raise

    @simple('builtins.getattr')
    def _getattr(e, t, n, *default):
        nm = e.pystr(n)
        if nm is None:
            return e.getattr_symbolic(t, n)
        return e.getattr(t, nm, *default)

    @simple('builtins.setattr')
    def _setattr(e, t, n, v):
        nm = e.pystr(n)
        if nm is None:
            return e.setattr_symbolic(t, n, v)
        e.setattr(t, nm, v)
        return NONE

    @simple('builtins.delattr')
    def _delattr(e, t, n):
        nm = e.pystr(n)
        if nm is None:
            raise Unsupported('delattr with symbolic name')
        e.delattr(t, nm)
        return NONE

    @simple('builtins.object.__setattr__')
    def _osa(e, t, n, v):
        e.setfield(t, e.pystr(n), v)
        return NONE

    H['builtins.object.__init__'] = lambda e, a, k: NONE

    @simple('builtins.object')
    def _object(e):
        return e.alloc(('obj', 'builtins.object', True))

    @simple('builtins.list')
    def _list(e, t=None):
        if t is None:
            return e.new_list()
        al = elem_alts(e, t)
        return e.new_listc(ListC(iterate(e, t)), el=al)

    @simple('builtins.tuple')
    def _tuple(e, t=None):
        if t is None:
            return NIL
        items = concrete_items(e, t)
        if items is not None:
            return e.tup(items)
        if e.one_alt(e.pick(t))[0] == 'tuple':
            return t
        al = elem_alts(e, t)
        return e.new_listc(ListC(iterate(e, t)), kind='tuple', el=al)

    def mkset(kind):
        def f(e, t=None):
            if t is None:
                return empty_fset(e) if kind == 'fset' else e.new_set([], kind=kind)
            items = concrete_items(e, t)
            if items == [] and kind == 'fset':
                return empty_fset(e)
            if items is not None:
                s = e.new_set([], kind=kind)
                for v in items:
                    set_add(e, s, v)
                return s
            al = elem_alts(e, t)
            mem = memfn(e, t)
            consume(e, t)
            return e.new_set(mem=mem, kind=kind, el=al)
        return f
    simple('builtins.set')(mkset('set'))
    simple('builtins.frozenset')(mkset('fset'))

    @simple('builtins.dict')
    def _dict(e, *a, **kw):
        d = e.new_dict()
        for o in a:
            dict_update(e, d, o)
            al = [x for x in e.alts(o) if x[0] == 'dict']
            if al:
                e.retype(d, al[0])
        for k, v in kw.items():
            if k == '**':
                dict_update(e, d, v.term)
            else:
                e.dict_put(d, e.const(k), v)
        return d

    @simple('builtins.str')
    def _str(e, v=None):
        if v is None:
            return e.const('')
        return str_of(e, v)

    @simple('builtins.repr')
    def _repr(e, v):
        return e.pure('repr', [v], [m.STR])

    @simple('builtins.bool')
    def _bool(e, v=None):
        if v is None:
            return V.boo(FALSE)
        return V.boo(e.truth(v))

    @simple('builtins.int')
    def _int(e, v):
        h2 = e.handlers.get('int-model')
        if h2 is not None:
            return h2(e, v)
        n = e.pynum(v)
        if n is not None:
            return e.const(int(n))
        ps = e.pystr(v)
        if ps is not None:
            try:
                return e.const(int(ps))
            except ValueError:
                e.throw('ValueError')
        if [a[0] for a in e.alts(v)] == ['num'] and False:
            return v
        raise Unsupported('int()')

    @simple('builtins.float')
    def _float(e, v):
        return V.num(num(e, v))

    def minmax(ismax):
        def f(e, *a, **kw):
            if kw or len(a) < 2:
                if len(a) == 1:
                    items = concrete_items(e, a[0])
                    if items:
                        return f(e, *items) if len(items) > 1 else items[0]
                raise Unsupported('min/max')
            r = num(e, a[0])
            for x in a[1:]:
                y = num(e, x)
                r = If(y > r, y, r) if ismax else If(y < r, y, r)
            return V.num(z3.simplify(r))
        return f
    simple('builtins.max')(minmax(True))
    simple('builtins.min')(minmax(False))

    @simple('builtins.abs')
    def _abs(e, a):
        x = num(e, a)
        return V.num(If(x < 0, -x, x))

    @simple('builtins.range')
    def _range(e, *a):
        ns = [z3.simplify(z3.ToInt(num(e, x))) for x in a]
        lo = ns[0] if len(ns) > 1 else z3.IntVal(0)
        hi = ns[1] if len(ns) > 1 else ns[0]
        if len(ns) > 2:
            raise Unsupported('range step')
        if z3.is_int_value(lo) and z3.is_int_value(hi) and hi.as_long() - lo.as_long() < 64:
            return e.new_list([e.const(i) for i in range(lo.as_long(), hi.as_long())])
        i = z3.Int('r!%d' % e.uid('r'))
        n = If(hi > lo, hi - lo, z3.IntVal(0))
        return e.new_listc(ListC([('d', Dom(i, And(i >= 0, i < n), V.num(z3.ToReal(i + lo)), n))]), el=(m.NUM,))

    @simple('builtins.map')
    def _map(e, f, *its):
        if len(its) != 1:
            raise Unsupported('map with several iterables')
        l = map_segs(e, iterate(e, its[0]), lambda v: e.call(f, [v], {}))
        c = e.new_listc(e.getlist(l), kind='iter')
        return c

    @simple('builtins.filter')
    def _filter(e, f, it):
        acc = e.new_list(kind='iter')
        from . import loops

        def body(v):
            c = e.truth(v) if ctor(f) == 'none' else e.truth(e.call(f, [v], {}))
            if e.branch(c):
                e.setlist(acc, e.getlist(acc).append(v))
        loops.run(e, iterate(e, it), body)
        return acc

    @simple('builtins.zip')
    def _zip(e, *its):
        cs = [concrete_items(e, t) for t in its]
        if all(c is not None for c in cs):
            return e.new_list([e.tup(x) for x in zip(*cs)], kind='iter')
        segs = [iterate(e, t) for t in its]
        if all(len(s) == 1 and s[0][0] == 'd' for s in segs):
            ds = [s[0][1] for s in segs]
            if all(d.indexed and d.length.eq(ds[0].length) for d in ds):
                i = ds[0].x
                return e.new_listc(ListC([('d', Dom(i, ds[0].guard, e.tup([d.at(i)[1] for d in ds]),
                                                    ds[0].length))]), kind='iter')
            # keys(), values() and items() of one dictionary iterate in the same order
            vws = [e.entry(e.pick(t)) for t in its]
            ds2 = []
            for t, v in zip(its, vws):
                if isinstance(v, m.View):
                    ds2.append((v.which, v.d))
                elif e.one_alt(e.pick(t))[0] == 'dict':
                    ds2.append(('keys', e.pick(t)))
                else:
                    raise Unsupported('zip of unrelated runs')
            if all(d.eq(ds2[0][1]) for _, d in ds2):
                d = ds2[0][1]
                x = ds[0].x
                val = e.gmap('VAL').get(d, x)
                out = []
                for w, _ in ds2:
                    out.append(x if w == 'keys' else val if w == 'values' else e.tup([x, val]))
                return e.new_listc(ListC([('d', Dom(x, e.gmap('DOM').get(d, x), e.tup(out)))]), kind='iter')
        raise Unsupported('zip')

    @simple('builtins.enumerate')
    def _enumerate(e, t, start=None):
        items = concrete_items(e, t)
        s = 0 if start is None else e.pynum(start)
        if items is not None:
            return e.new_list([e.tup([e.const(i + s), v]) for i, v in enumerate(items)], kind='iter')
        segs = iterate(e, t)
        if len(segs) == 1 and segs[0][1].indexed:
            d = segs[0][1]
            return e.new_listc(ListC([('d', Dom(d.x, d.guard, e.tup([V.num(z3.ToReal(d.x + s)), d.val]),
                                                d.length))]), kind='iter')
        raise Unsupported('enumerate')

    @simple('builtins.reversed')
    def _reversed(e, t):
        items = concrete_items(e, t)
        if items is not None:
            return e.new_list(list(reversed(items)), kind='iter')
        segs = iterate(e, t)
        out = []
        for kind, s in reversed(segs):
            if kind == 'v':
                out.append((kind, s))
            elif s.indexed:
                out.append(('d', Dom(s.x, s.guard, subst(s.val, [(s.x, s.length - 1 - s.x)]), s.length)))
            else:
                raise Unsupported('reversed')
        return e.new_listc(ListC(out), kind='iter')

    @simple('builtins.sorted')
    def _sorted(e, t, **kw):
        items = concrete_items(e, t)
        if items is not None and len(items) < 2:
            return e.new_list(items)
        segs = iterate(e, t)
        out = []
        for kind, s in segs:
            if kind == 'v':
                out.append((kind, s))
            else:
                out.append(('d', Dom(s.x, s.guard, s.val, None)))
        if items is not None:
            raise Unsupported('sorted')
        return e.new_listc(ListC(out), el=elem_alts(e, t))

    def quant(isall):
        def f(e, t):
            out = []
            for kind, s in iterate(e, t):
                if kind == 'v':
                    out.append(e.truth(s))
                else:
                    c = e.truth_pure(s.val)
                    out.append(z3.ForAll([s.x], Implies(s.guard, c)) if isall
                               else z3.Exists([s.x], And(s.guard, c)))
            return V.boo(And(*out) if isall else Or(*out))
        return f
    simple('builtins.all')(quant(True))
    simple('builtins.any')(quant(False))

    def truth_pure(self, t):
        c = ctor(t)
        if c == 'boo':
            return t.arg(0)
        alts = [a[0] for a in self.alts(t)]
        if all(a in ('none', 'bool', 'num', 'str', 'any') for a in alts):
            return self.truth(t)
        raise Unsupported('truth of elements')
    type(eng).truth_pure = truth_pure

    @simple('builtins.iter')
    def _iter(e, t):
        t = e.pick(t)
        a = e.one_alt(t)
        if a[0] == 'obj':
            mm = e.class_attr(a[1], '__iter__')
            if mm is not None and not isinstance(mm, str):
                return e.call(e.bind(mm, t, a[1]), [], {})
            raise Unsupported('iter of object')
        if a[0] == 'iter':
            return t
        return e.new_listc(ListC(segs_of(e, t)), kind='iter', el=elem_alts(e, t))

    @simple('builtins.next')
    def _next(e, t, *default):
        t = e.pick(t)
        a = e.one_alt(t)
        if a[0] == 'obj':
            mm = e.class_attr(a[1], '__next__')
            return e.call(e.bind(mm, t, a[1]), [], {})
        if a[0] == 'iter':
            l = e.getlist(t)
            l.check()
            if not l.segs:
                if default:
                    return default[0]
                e.throw('StopIteration')
            kind, s = l.segs[0]
            if kind == 'v':
                e.setlist(t, ListC(l.segs[1:]))
                return s
            # some element of the run, if there is one (only when this is the whole iterator)
            if len(l.segs) == 1:
                b = e.fresh('nx', B)
                if e.branch(b):
                    w = e.fresh('nxw', s.x.sort())
                    if s.x.decl().name() in e.decl_ty:
                        e.decl_ty[w.decl().name()] = e.decl_ty[s.x.decl().name()]
                    g, v = s.at(w)
                    e.assume(g)
                    e.setlist(t, ListC((), True))
                    return v
                e.assume(z3.ForAll([s.x], Not(s.guard)))
                if default:
                    return default[0]
                e.throw('StopIteration')
        raise Unsupported('next')

    @simple('builtins.type')
    def _type(e, t):
        t = e.pick(t)
        a = e.one_alt(t)
        if a[0] == 'obj' and len(a) > 2 and a[2]:
            return e.cls_term(a[1])
        if a[0] in e.KINDCLS:
            return e.mkfn(m.Ext(e.KINDCLS[a[0]]))
        raise Unsupported('type()')

    @simple('builtins.id')
    def _id(e, t):
        return e.pure('id', [t], [m.NUM])

    @simple('builtins.ord')
    def _ord(e, t):
        s = e.pystr(t)
        if s is not None and len(s) == 1:
            return e.const(ord(s))
        return e.pure('ord', [t], [m.NUM])

    @simple('builtins.sum')
    def _sum(e, t, start=None):
        items = concrete_items(e, t)
        if items is None:
            raise Unsupported('sum')
        r = num(e, start) if start is not None else z3.RealVal(0)
        for x in items:
            r = r + num(e, x)
        return V.num(z3.simplify(r))

    H['builtins.print'] = lambda e, a, k: NONE

    # ---- modules
    @simple('functools.wraps')
    def _wraps(e, f, *a, **kw):
        return e.mkfn(m.Ext('identity'))

    H['identity'] = lambda e, a, k: a[0]

    @simple('functools.partial')
    def _partial(e, f, *a, **kw):
        return e.mkfn(m.Partial(f, list(a), kw))

    H['django.utils.functional.curry'] = lambda e, a, k: e.mkfn(m.Partial(a[0], list(a[1:]), k))

    @simple('functools.reduce')
    def _reduce(e, f, t, *init):
        items = concrete_items(e, t)
        if items is not None:
            items = list(items)
            if init:
                acc = init[0]
            elif items:
                acc = items.pop(0)
            else:
                e.throw('TypeError', e.const('reduce() of empty sequence'))
            for v in items:
                acc = e.call(f, [acc, v], {})
            return acc
        segs = iterate(e, t)
        if len(segs) != 1 or segs[0][0] != 'd' or not segs[0][1].indexed:
            raise Unsupported('reduce over an unordered iterable')
        d = segs[0][1]
        if init:
            acc = init[0]
        elif e.branch(d.length == 0):
            e.throw('TypeError', e.const('reduce() of empty sequence'))
        else:
            acc = d.at(z3.IntVal(0))[1]
            i = z3.Int('i!%d' % e.uid('li'))
            g, v = d.at(i + 1)
            d = Dom(i, And(i >= 0, g), v, z3.simplify(d.length - 1))

        def step(v):
            r = e.call(f, [acc, v], {})
            if not r.eq(acc):
                raise Unsupported('reduce that does not accumulate in place')
        from . import loops
        loops.run(e, [('d', d)], step)
        return acc

    @simple('operator.iadd')
    def _iadd(e, a, b):
        return inplace(e, ast.Add(), a, b)

    @simple('operator.attrgetter')
    def _ag(e, n):
        nm = e.pystr(n)
        return e.mkfn(lambda e2, a, k: e2.getattr(a[0], nm), ('attrgetter', nm))

    @simple('operator.itemgetter')
    def _ig(e, n):
        return e.mkfn(lambda e2, a, k: getitem(e2, a[0], n), ('itemgetter', str(n)))

    @simple('itertools.islice')
    def _islice(e, t, *a):
        if not 0 < len(a) < 3 or any(ctor(x) != 'none' and e.pynum(x) is None for x in a):
            raise Unsupported('islice')
        lo, hi = ([NONE] + list(a))[-2:]
        return e.new_listc(ListC(slice_segs(e, iterate(e, t), 0 if ctor(lo) == 'none' else int(e.pynum(lo)),
                                            None if ctor(hi) == 'none' else int(e.pynum(hi)))), kind='iter')

    @simple('itertools.chain')
    def _chain(e, *its):
        segs = []
        for t in its:
            if isinstance(t, m.Star):
                raise Unsupported('chain of an opaque star')
            segs += list(iterate(e, t))
        return e.new_listc(ListC(segs), kind='iter')

    @simple('itertools.chain.from_iterable')
    def _chainf(e, it):
        items = concrete_items(e, it)
        if items is None:
            raise Unsupported('chain.from_iterable')
        segs = []
        for t in items:
            segs += list(iterate(e, t))
        return e.new_listc(ListC(segs), kind='iter')

    @simple('hashlib.md5')
    def _md5(e, data=None):
        o = e.alloc(('obj', 'hashlib.md5', True))
        e.setfield(o, 'data', data if data is not None else e.const(''))
        return o

    def _hexdigest(e, a, k):
        t = e.getfield(a[0], 'data')
        if [x[0] for x in e.alts(t)] != ['str']:
            raise Unsupported('digest of something that is not a text')
        return e.pure('md5hex', [t], [m.STR])
    H['hashlib.md5.hexdigest'] = _hexdigest
    eng.classdefs_extra = {'hashlib.md5': {'fields': {}, 'hidden': set(), 'methods': {}, 'bases': [], 'closed': True,
                           'getattr': lambda e, t, n: e.mkfn(m.Partial(e.mkfn(m.Ext('hashlib.md5.' + n)), [t], {}))}}

    @simple('copy.copy')
    def _copy(e, t):
        t = e.pick(t)
        ent = e.entry(t)
        if isinstance(ent, m.Super):
            return shallow(e, ent.self_)
        a = e.one_alt(t)
        k = a[0]
        if k == 'obj':
            mm = e.class_attr(a[1], '__copy__')
            if mm is not None and not isinstance(mm, str):
                return e.call(e.bind(mm, t, a[1]), [], {})
            h2 = e.lookup_def(a[1], 'copy')
            if h2 is not None:
                return h2(e, t)
            return shallow(e, t)
        if k == 'set':
            return m_set_copy(e, t)
        if k == 'dict':
            return m_dict_copy(e, t)
        if k == 'list':
            return m_list_copy(e, t)
        if k in ('none', 'num', 'str', 'bool', 'tuple', 'fset', 'fn', 'call'):
            return t
        raise Unsupported('copy of %s' % (a,))

    H['warnings.warn'] = lambda e, a, k: (e.event('warn', []) if getattr(e, 'trace_warnings', False) else None, NONE)[1]

    def retype(self, c, alt):
        """Give a local container a more precise type."""
        if ctor(c) == 'ref':
            self.kinds[c.arg(0).as_long()] = alt
        elif ctor(c) == 'sk':
            self.sites[c.arg(0).as_long()] = alt
    type(eng).retype = retype

    def gs(self, t, n):
        raise Unsupported('getattr with a symbolic name')
    if not hasattr(type(eng), 'getattr_symbolic'):
        type(eng).getattr_symbolic = gs
    if not hasattr(type(eng), 'setattr_symbolic'):
        type(eng).setattr_symbolic = lambda self, t, n, v: gs(self, t, n)
    H['builtins.NotImplementedError'] = lambda e, a, k: e.exc('builtins.NotImplementedError', a)


def shallow(eng, t):
    """copy.copy of the instance bypassing __copy__: same class, same field values."""
    a = eng.obj_alt(t)
    if a is None:
        raise Unsupported('shallow copy')
    c = eng.alloc(('obj', a[1], True))
    names = set()
    for n in list(eng.state.g):
        if n.startswith('F:'):
            names.add(n[2:])
    for q in eng.mro_names(a[1]):
        d = eng.classdefs.get(q)
        if d:
            names.update(d['fields'])
    for n in sorted(names):
        h = eng.hasfield(t, n)
        if z3.is_false(h):
            continue
        eng.gput('F:' + n, (c,), eng.getfield(t, n))
        eng.gput('H:' + n, (c,), h)
    return c


from .engine import Engine  # noqa: E402
install_strings(Engine)
