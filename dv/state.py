"""Symbolic state: functional maps with operation chains, lists, path condition."""
import z3
from .terms import V, ctor, And, Or, Not, If, eq, TRUE, FALSE, NIL, subst, contains, rewrite


class Unsupported(Exception):
    """The code is outside the subset the verifier reasons about."""


class NotPointwise(Unsupported):
    pass


class GMap(object):
    """A total map over tuples of terms, as a chain of updates over a base function."""
    __slots__ = ('kind', 'parent', 'a', 'b', 'base', 'name', 'hyp')

    def __init__(self, kind, parent=None, a=None, b=None, base=None, name=None, hyp=None):
        self.kind, self.parent, self.a, self.b, self.base = kind, parent, a, b, base
        self.name, self.hyp = name, hyp

    @staticmethod
    def make(name, base):
        return GMap('base', base=base, name=name)

    def get(self, *args):
        m = self
        pend = []
        while True:
            if m.kind == 'base':
                r = m.base(*args)
                break
            if m.kind == 'poison':
                # places the loop does not write keep their value
                if m.a is not None and all(m.untouched(args, t) for t in m.a):
                    m = m.parent
                    continue
                raise NotPointwise('read of %s modified by the loop' % m.name)
            if m.kind == 'put':
                c = And(*[eq(x, y) for x, y in zip(args, m.a)])
                if z3.is_true(c):
                    r = m.b
                    break
                if not z3.is_false(c):
                    pend.append((c, m.b))
            else:
                c = rewrite(m.a(*args))
                if z3.is_true(c):
                    r = rewrite(m.b(*args))
                    break
                if not z3.is_false(c):
                    pend.append((c, rewrite(m.b(*args))))
            m = m.parent
        for c, v in reversed(pend):
            r = If(c, v, r)
        return r

    def put(self, args, val):
        return GMap('put', self, tuple(args), val, name=self.name)

    def region(self, cond, val):
        return GMap('region', self, cond, val, name=self.name)

    def poison(self, targets=None, x=None, hyp=None):
        return GMap('poison', self, targets, x, name=self.name, hyp=hyp)

    def untouched(self, args, target):
        """Do the other iterations, which write at the target (for their own x), leave this place alone?"""
        place, own = target
        if len(place) == len(args) and own and all(a.eq(b) for a, b in zip(args, place)):
            return True         # each iteration writes a place of its own
        o, t = args[0], place[0]
        if self.b is not None and o.eq(t) and ctor(t) == 'sk' and contains(t.arg(1), [self.b]):
            return True         # allocated in this iteration
        sub = [(self.b, z3.Const('other!', self.b.sort()))] if self.b is not None else []
        same = [z3.simplify(eq(a, subst(b, sub))) for a, b in zip(args, place)]
        if any(z3.is_false(f) for f in same):
            return True
        if self.hyp is None or all(z3.is_true(f) for f in same):
            return False
        s = z3.SimpleSolver()
        s.set('timeout', 500)
        s.add(self.hyp, *same)
        return s.check() == z3.unsat

    def ops_since(self, base):
        """Updates between base (exclusive) and self, oldest first; None when not an ancestor."""
        out = []
        m = self
        while m is not base:
            if m is None or m.kind == 'base':
                return None
            out.append(m)
            m = m.parent
        out.reverse()
        return out


class Dom(object):
    """A symbolic family of values: {val(x) | guard(x)}, x ranging over a sort."""

    def __init__(self, x, guard, val, length=None, order=None):
        self.x, self.guard, self.val, self.length, self.order = x, guard, val, length, order

    def at(self, t):
        return subst(self.guard, [(self.x, t)]), subst(self.val, [(self.x, t)])

    @property
    def indexed(self):
        return self.length is not None

    def subst(self, pairs):
        return Dom(self.x, subst(self.guard, pairs), subst(self.val, pairs),
                   None if self.length is None else subst(self.length, pairs), self.order)


class ListC(object):
    """Content of a list: a sequence of single values and symbolic runs."""
    __slots__ = ('segs', 'poisoned')

    def __init__(self, segs=(), poisoned=False):
        self.segs = tuple(segs)
        self.poisoned = poisoned

    def check(self):
        if self.poisoned:
            raise NotPointwise('read of a list modified by the loop')

    def append(self, v):
        return ListC(self.segs + (('v', v),), self.poisoned)

    def extend(self, segs):
        return ListC(self.segs + tuple(segs), self.poisoned)

    def length(self):
        self.check()
        n = z3.IntVal(0)
        k = 0
        for kind, s in self.segs:
            if kind == 'v':
                k += 1
            else:
                if s.length is None:
                    raise Unsupported('length of an unordered run')
                n = n + s.length
        return z3.simplify(n + k)

    def nonempty(self):
        self.check()
        out = []
        for kind, s in self.segs:
            if kind == 'v':
                return TRUE
            if s.length is not None:
                out.append(s.length > 0)
            else:
                out.append(z3.Exists([s.x], s.guard))
        return Or(*out)

    def concrete(self):
        self.check()
        if all(k == 'v' for k, _ in self.segs):
            return [v for _, v in self.segs]
        return None

    def has(self, y):
        """Is y an element (as a formula)?"""
        self.check()
        out = []
        for kind, s in self.segs:
            if kind == 'v':
                out.append(eq(s, y))
            else:
                out.append(z3.Exists([s.x], And(s.guard, eq(s.val, y))))
        return Or(*out)


class State(object):
    def __init__(self):
        self.g = {}          # name -> GMap
        self.lists = {}      # key term id -> (term, ListC)
        self.pc = ()         # tuple of (kind, formula): 'br' or 'as'
        self.envs = {}       # env id -> dict of names
        self.envpar = {}     # env id -> (parent env id, module name)
        self.facts = {}      # term id -> (term, pos frozenset, neg frozenset)
        self.conc = {}       # container term id -> (term, tuple of keys) when fully concrete
        self.counter = 0
        self.trace = ListC()
        self.extra = {}      # scalars: now, tid, ...

    def copy(self):
        s = State()
        s.g = dict(self.g)
        s.lists = dict(self.lists)
        s.pc = self.pc
        s.envs = {k: dict(v) for k, v in self.envs.items()}
        s.envpar = dict(self.envpar)
        s.facts = dict(self.facts)
        s.conc = dict(self.conc)
        s.counter = self.counter
        s.trace = self.trace
        s.extra = dict(self.extra)
        return s
