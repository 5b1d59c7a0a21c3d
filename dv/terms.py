"""Terms: the z3 universe of Python values, and interpreter values over it."""
import z3

_dt = z3.Datatype('V')
_dt.declare('none')
_dt.declare('boo', ('bv', z3.BoolSort()))
_dt.declare('num', ('nv', z3.RealSort()))
_dt.declare('s', ('si', z3.IntSort()))            # strings (interned id or opaque)
_dt.declare('ref', ('ri', z3.IntSort()))          # objects allocated by the code under verification (unique id)
_dt.declare('opq', ('oi', z3.IntSort()))          # opaque pre-existing objects
_dt.declare('own', ('of', z3.IntSort()), ('oo', _dt))   # container owned by field `of` of object `oo`
_dt.declare('sk', ('st', z3.IntSort()), ('sx', _dt))    # object allocated in a loop iteration / per index
_dt.declare('nil')
_dt.declare('cons', ('hd', _dt), ('tl', _dt))
_dt.declare('fn', ('fi', z3.IntSort()))           # functions, classes, modules
V = _dt.create()
NONE = V.none
NIL = V.nil
I = z3.IntSort()
B = z3.BoolSort()
R = z3.RealSort()

TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)

_strings = {'': 0}


def strconst(py):
    if py not in _strings:
        _strings[py] = len(_strings)
    return V.s(z3.IntVal(-_strings[py]))


def string_of(n):
    for k, v in _strings.items():
        if -v == n:
            return k
    return None


def And(*a):
    a = [x for x in a if not (x is True or z3.is_true(x))] if True else a
    if any(x is False or z3.is_false(x) for x in a):
        return FALSE
    if not a:
        return TRUE
    if len(a) == 1:
        return a[0]
    return z3.And(*a)


def Or(*a):
    a = [x for x in a if not (x is False or z3.is_false(x))]
    if any(x is True or z3.is_true(x) for x in a):
        return TRUE
    if not a:
        return FALSE
    if len(a) == 1:
        return a[0]
    return z3.Or(*a)


def Not(a):
    if a is True:
        return FALSE
    if a is False:
        return TRUE
    if z3.is_true(a):
        return FALSE
    if z3.is_false(a):
        return TRUE
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def Implies(a, b):
    return Or(Not(a), b)


def If(c, a, b):
    if z3.is_expr(a) and z3.is_expr(b):
        if z3.is_true(a) and z3.is_false(b):
            return c
        if z3.is_false(a) and z3.is_true(b):
            return Not(c)
    if c is True or (z3.is_expr(c) and z3.is_true(c)):
        return a
    if c is False or (z3.is_expr(c) and z3.is_false(c)):
        return b
    if z3.is_expr(a) and z3.is_expr(b) and a.eq(b):
        return a
    return z3.If(c, a, b)


def ctor(t):
    """Name of the constructor at the head of t, or None."""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
        return t.decl().name()
    return None


def is_value(t):
    """A literal datatype value (numbers, strings)."""
    c = ctor(t)
    if c in ('none', 'nil'):
        return True
    if c in ('boo',):
        return z3.is_true(t.arg(0)) or z3.is_false(t.arg(0))
    if c in ('num', 's', 'ref', 'fn'):
        return z3.is_rational_value(t.arg(0)) or z3.is_int_value(t.arg(0))
    return False


def eq(a, b):
    """Equality of two V terms, simplified where the constructors decide it."""
    if a.eq(b):
        return TRUE
    ca, cb = ctor(a), ctor(b)
    if ca and cb:
        if ca != cb:
            return FALSE
        if is_value(a) and is_value(b):
            return z3.BoolVal(z3.simplify(a == b).eq(TRUE))
        if ca in ('own', 'sk'):
            if z3.is_int_value(a.arg(0)) and z3.is_int_value(b.arg(0)) and \
                    a.arg(0).as_long() != b.arg(0).as_long():
                return FALSE
            return eq(a.arg(1), b.arg(1))
        if ca == 'cons':
            return And(eq(a.arg(0), b.arg(0)), eq(a.arg(1), b.arg(1)))
        if ca == 'boo':
            return z3.simplify(a.arg(0) == b.arg(0))
        if ca in ('num', 's', 'ref', 'opq', 'fn'):
            return z3.simplify(a.arg(0) == b.arg(0))
    if INJECTIVE and z3.is_app(a) and z3.is_app(b) and a.num_args() == 1 and b.num_args() == 1:
        na, nb = INJECTIVE.get(a.decl().name()), INJECTIVE.get(b.decl().name())
        if na is not None and nb is not None:
            return eq(a.arg(0), b.arg(0)) if na == nb else FALSE
    return a == b


def subst(t, pairs):
    if not pairs:
        return t
    r = z3.substitute(t, *pairs)
    if RULES and not r.eq(t):
        return rewrite(r)
    return r


# ---- rewriting with the equations of injective functions
RULES = {}          # name of a function -> function(argument) giving the value, or None
INJECTIVE = {}      # name of an injective function -> number of its range (ranges of different numbers are disjoint)
_done = {}


def rewrite(t):
    if not RULES:
        return t
    k = t.get_id()
    if k in _done:
        return _done[k][1]
    todo = [t]
    while todo:
        e = todo[-1]
        i = e.get_id()
        if i in _done:
            todo.pop()
            continue
        if not z3.is_app(e) or e.num_args() == 0:
            _done[i] = (e, e)
            todo.pop()
            continue
        ch = e.children()
        more = [c for c in ch if c.get_id() not in _done]
        if more:
            todo.extend(more)
            continue
        todo.pop()
        new = [_done[c.get_id()][1] for c in ch]
        _done[i] = (e, step(e, ch, new))
    return _done[k][1]


def step(e, old, new):
    d = e.decl()
    kind = d.kind()
    if kind == z3.Z3_OP_UNINTERPRETED or kind in (z3.Z3_OP_DT_IS, z3.Z3_OP_DT_RECOGNISER):
        if len(new) == 1:
            name = d.name() if kind == z3.Z3_OP_UNINTERPRETED else 'is:' + d.params()[0].name() if d.params() else d.name()
            f = RULES.get(name)
            if f is not None:
                r = f(new[0])
                if r is not None:
                    return r
        if len(new) == 1 and kind != z3.Z3_OP_UNINTERPRETED and z3.is_app(new[0]) and new[0].decl().name() in INJECTIVE:
            return TRUE if name == 'is:s' else FALSE
    if all(a.eq(b) for a, b in zip(old, new)) and kind not in (z3.Z3_OP_EQ, z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR):
        return e
    if kind == z3.Z3_OP_AND:
        return And(*new)
    if kind == z3.Z3_OP_OR:
        return Or(*new)
    if kind == z3.Z3_OP_NOT:
        return Not(new[0])
    if kind == z3.Z3_OP_ITE:
        return If(*new)
    if kind == z3.Z3_OP_EQ:
        if new[0].sort() == V:
            return eq(new[0], new[1])
        if z3.is_int_value(new[0]) and z3.is_int_value(new[1]):
            return TRUE if new[0].eq(new[1]) else FALSE
    if all(a.eq(b) for a, b in zip(old, new)):
        return e
    return d(*new)


def contains(t, consts):
    """Does term t contain one of the given constants?"""
    ids = {c.get_id() for c in consts}
    seen = set()
    todo = [t]
    while todo:
        e = todo.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in ids:
            return True
        if z3.is_quantifier(e):
            todo.append(e.body())
        else:
            todo.extend(e.children())
    return False
