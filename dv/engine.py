"""Symbolic interpreter for the Python subset of the code under verification."""
import ast
import builtins as pyb
import os
import z3
from .terms import (V, NONE, NIL, TRUE, FALSE, And, Or, Not, Implies, If, ctor, is_value, eq as _eq, subst,
                    contains, strconst, string_of, I, B, R)
from . import terms
from .state import State, GMap, Dom, ListC, Unsupported, NotPointwise

ANY = ('any',)
NONE_T = ('none',)
NUM = ('num',)
STR = ('str',)
BOOL = ('bool',)
CALL = ('call',)


def Obj(name, exact=False):
    return ('obj', name, exact)


class Raise(Exception):
    def __init__(self, value):
        self.value = value


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class PathEnd(Exception):
    pass


# ---- function-like entries -------------------------------------------------
class Fn(object):
    def __init__(self, node, eid, module, qual, defaults, kwdefaults, owner=None):
        self.node, self.eid, self.module, self.qual = node, eid, module, qual
        self.defaults, self.kwdefaults, self.owner = defaults, kwdefaults, owner
        self.key = module + '.' + qual

    def __repr__(self):
        return '<Fn %s>' % self.key


class Cls(object):
    def __init__(self, name, module, bases, attrs):
        self.name, self.module, self.bases, self.attrs = name, module, bases, attrs
        self.qual = module + '.' + name
        self.mro = None

    def __repr__(self):
        return '<Cls %s>' % self.qual


class Ext(object):
    def __init__(self, name):
        self.name = name
        self.qual = name

    def __repr__(self):
        return '<Ext %s>' % self.name


class Mod(object):
    def __init__(self, name):
        self.name = name
        self.env = {}


class Bound(object):
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_      # entry, term


class Meth(object):
    """Builtin method of a container or string."""
    def __init__(self, kind, name, self_):
        self.kind, self.name, self.self_ = kind, name, self_


class StaticM(object):
    def __init__(self, func):
        self.func = func                          # term


class ClassM(object):
    def __init__(self, func):
        self.func = func


class Prop(object):
    def __init__(self, get=None, set=None, delete=None):
        self.get, self.set, self.delete = get, set, delete   # terms


class Super(object):
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class Partial(object):
    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class View(object):
    def __init__(self, which, d):
        self.which, self.d = which, d


class Star(object):
    """An opaque starred argument in a call."""
    def __init__(self, term, kw=False):
        self.term, self.kw = term, kw


# ---- exploration -----------------------------------------------------------
class Explorer(object):
    def __init__(self, engine):
        self.engine = engine
        self.dec = []
        self.pos = 0
        self.work = []

    def run(self, thunk, limit=4000):
        """Run thunk once per feasible path."""
        eng = self.engine
        eng.explorers.append(self)
        self.work = [()]
        n = 0
        try:
            while self.work:
                self.dec = list(self.work.pop())
                self.pos = 0
                n += 1
                if n > limit:
                    raise Unsupported('too many paths')
                try:
                    thunk()
                except PathEnd:
                    continue
        finally:
            eng.explorers.pop()
        return n


OLD_DECLS = set()
# builtins that consume their last argument at once
DRAINS = {'builtins.' + x for x in ('list', 'tuple', 'set', 'frozenset', 'dict', 'sorted', 'sum', 'max', 'min')}


def fixed(alt):
    """The types of the elements at the start of a record."""
    return [a for a in alt[2:] if a is not Ellipsis]


class Engine(object):
    def __init__(self, repo='/repo', timeout=6000):
        self.repo = repo
        self.timeout = timeout
        self.state = State()
        self.explorers = []
        self.fields = None        # (renamed, gained, lost) fields of the classes
        self.drained = set()      # ids of expressions consumed as soon as they are evaluated
        self.loopvars = []
        self.fns = []             # fn id -> entry
        self.fnkeys = {}
        self.modules = {}
        self.kinds = {}           # ref id -> alternative
        self.sites = {}           # sk site -> alternative
        self.ids = {}             # deterministic interning of ids
        self.decl_ty = {}         # decl name -> alternatives or callable(term)->alternatives
        self.decls = {}
        self.fids = {}
        self.classdefs = {}       # class name -> dict(fields={}, hidden=set(), methods={}, bases=[])
        self.ext_terms = {}       # dotted name of an external value -> function making its term
        self.handlers = {}        # dotted -> handler(engine, args, kwargs)
        self.axioms = []
        self.contracts = {}
        self.inline = set()
        self.used_contracts = set()
        self.assumptions = set()  # textual list of trusted facts used
        self.cond_inverses = {}   # decl name -> (inverse, condition on the argument, recogniser)
        self.inverses = {}        # decl name -> (inverse decl, recogniser) for injective functions
        self.feas = {}
        self.solver = None
        self.solver_pc = []
        self.solver_axn = 0
        self.loading = 0
        self.nqueries = 0
        self.solver_time = 0.0
        self.depth = 0
        self.obligation = None    # callback(label, goal)
        self.view_hooks = {}
        self.loop_specs = None
        self.loop_counter = 0
        self.cards = {}           # content of a collection -> its size
        self.overrides = {}       # (class, method) -> model of the method, for one contract
        self.curfn = []
        self.load_problems = []
        self.load_calls = []      # external calls made while loading the modules
        from . import lib
        lib.install(self)

    # ---- identifiers -------------------------------------------------------
    def _prefix(self):
        return tuple(tuple(e.dec[:e.pos]) for e in self.explorers)

    def uid(self, what):
        self.state.counter += 1
        key = (what, self._prefix(), self.state.counter, self.loading)
        if key not in self.ids:
            self.ids[key] = len(self.ids) + 1
        return self.ids[key]

    def decl(self, name, *sorts):
        k = name
        if k not in self.decls:
            self.decls[k] = z3.Function(name, *sorts)
        return self.decls[k]

    def fid(self, name):
        if name not in self.fids:
            self.fids[name] = len(self.fids) + 1
        return self.fids[name]

    def fid_name(self, n):
        for k, v in self.fids.items():
            if v == n:
                return k

    def fresh(self, name, sort=V, ty=None, old=False):
        n = '%s!%d' % (name, self.uid('c'))
        if self.loopvars:
            d = self.decl(n, *([x.sort() for x in self.loopvars] + [sort]))
            t = d(*self.loopvars)
        else:
            t = z3.Const(n, sort)
        if ty is not None:
            self.decl_ty[n] = tuple(ty) if isinstance(ty, list) else (ty,)
        if old:
            OLD_DECLS.add(n)
        return t

    def param(self, name, ty, old=True):
        """A fresh value of the given type (alternatives)."""
        alts = list(ty) if isinstance(ty, list) else [ty]
        t = self.fresh(name, V, alts, old=old)
        self.assume(self.type_formula(t, alts))
        return t

    def type_formula(self, t, alts):
        out = []
        for a in alts:
            k = a[0]
            if k == 'none':
                out.append(V.is_none(t))
            elif k == 'bool':
                out.append(V.is_boo(t))
            elif k == 'num':
                out.append(V.is_num(t))
            elif k == 'str':
                out.append(V.is_s(t))
            elif k == 'any':
                return And(Not(V.is_ref(t)), Not(V.is_sk(t)), Not(V.is_own(t)), Not(V.is_fn(t)))
            else:
                out.append(V.is_opq(t))
        return Or(*out)

    def idx(self):
        t = NIL
        for x in reversed(self.loopvars):
            t = V.cons(x if x.sort() == V else V.num(z3.ToReal(x)), t)
        return t

    def alloc(self, alt):
        n = self.uid('ref')
        if self.loopvars:
            self.sites[n] = alt
            return V.sk(z3.IntVal(n), self.idx())
        self.kinds[n] = alt
        self.state.extra['lastref'] = n
        return V.ref(z3.IntVal(n))

    def is_local(self, t):
        return ctor(t) in ('ref', 'sk')

    def mkfn(self, entry, key=None):
        if isinstance(entry, Ext):
            key = ('ext', entry.name)
        if isinstance(entry, Bound) and not self.loopvars:
            key = ('bound', entry.func.get_id(), entry.self_.get_id())
        if key is None:
            if self.loopvars and isinstance(entry, (Fn, Bound, Meth, Partial, View)):
                dep = True
                if isinstance(entry, (Bound, Meth)):
                    dep = contains(entry.self_, self.loopvars)
                elif isinstance(entry, View):
                    dep = contains(entry.d, self.loopvars)
                elif isinstance(entry, Partial):
                    dep = any(contains(a, self.loopvars) for a in entry.args)
                if dep:
                    n = self.uid('fn')
                    self.sites[n] = ('fn',)
                    self.sites[('tmpl', n)] = (tuple(self.loopvars), entry)
                    return V.sk(z3.IntVal(n), self.idx())
            key = ('fn', self.uid('fn'))
        if key in self.fnkeys:
            n = self.fnkeys[key]
            self.fns[n] = entry
        else:
            n = len(self.fns)
            self.fns.append(entry)
            self.fnkeys[key] = n
        return V.fn(z3.IntVal(n))

    def entry(self, t):
        """The function-like entry of a term, or None."""
        c = ctor(t)
        if c == 'fn':
            return self.fns[t.arg(0).as_long()]
        if c == 'sk':
            n = t.arg(0).as_long()
            if ('tmpl', n) in self.sites:
                xs, e = self.sites[('tmpl', n)]
                pairs = []
                rest = t.arg(1)
                for x in xs:
                    if ctor(rest) != 'cons':
                        raise Unsupported('function from another loop iteration')
                    v = rest.arg(0)
                    if x.sort() != V:
                        v = z3.simplify(z3.ToInt(V.nv(v)))
                    pairs.append((x, v))
                    rest = rest.arg(1)
                if all(a.eq(b) for a, b in pairs):
                    return e
                if isinstance(e, Bound):
                    return Bound(e.func, subst(e.self_, pairs))
                if isinstance(e, Meth):
                    return Meth(e.kind, e.name, subst(e.self_, pairs))
                if isinstance(e, View):
                    return View(e.which, subst(e.d, pairs))
                raise Unsupported('closure created in another loop iteration')
        return None

    # ---- path condition ----------------------------------------------------
    def assume(self, f, kind='as'):
        if f is True or z3.is_true(f):
            return
        if f is False or z3.is_false(f):
            raise PathEnd()
        self.state.pc = self.state.pc + ((kind, f),)

    def pcs(self):
        return [f for _, f in self.state.pc]

    def _sync(self):
        if self.solver is None:
            self.solver = z3.SimpleSolver()
            self.solver.set('smt.mbqi', False)
            self.solver.set('smt.auto_config', False)
            self.solver.set('timeout', 1500)
            self.solver_pc = []
            self.solver_axn = 0
        if self.solver_axn != len(self.axioms):
            self.solver.pop(len(self.solver_pc))
            self.solver_pc = []
            for a in self.axioms[self.solver_axn:]:
                self.solver.add(a)
            self.solver_axn = len(self.axioms)
        pc = self.pcs()
        n = 0
        while n < len(pc) and n < len(self.solver_pc) and pc[n].eq(self.solver_pc[n]):
            n += 1
        if len(self.solver_pc) > n:
            self.solver.pop(len(self.solver_pc) - n)
            del self.solver_pc[n:]
        for f in pc[n:]:
            self.solver.push()
            self.solver.add(f)
            self.solver_pc.append(f)

    def feasible(self, f):
        import time
        self._sync()
        self.solver.push()
        self.solver.add(f)
        t0 = time.time()
        r = self.solver.check()
        self.solver_time += time.time() - t0
        self.nqueries += 1
        self.solver.pop()
        return r != z3.unsat

    def branch(self, cond, hint=None):
        """Decide a condition on this path; explores both outcomes when both are possible."""
        if cond is True or cond is False:
            return cond
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if not self.explorers:
            raise Unsupported('symbolic condition at module level')
        ex = self.explorers[-1]
        if ex.pos < len(ex.dec):
            d = ex.dec[ex.pos]
            ex.pos += 1
            self.assume(cond if d else Not(cond), 'br')
            return d
        key = (tuple(x.get_id() for x in self.pcs()), cond.get_id(), len(self.axioms))
        if key in self.feas:
            t, f = self.feas[key][:2]
        else:
            t = self.feasible(cond)
            f = self.feasible(Not(cond)) if t else True
            self.feas[key] = (t, f, self.state.pc, cond)   # the terms are kept so that their ids stay theirs
        if t and f:
            ex.work.append(tuple(ex.dec) + (False,))
            d = True
        elif t:
            d = True
        else:
            d = False
        ex.dec.append(d)
        ex.pos += 1
        self.assume(cond if d else Not(cond), 'br')
        return d

    def choose(self, n):
        """Non-deterministic choice among n alternatives (used by specifications and opaque calls)."""
        for i in range(n - 1):
            b = self.fresh('choice', B)
            if self.branch(b):
                return i
        return n - 1

    # ---- equality ----------------------------------------------------------
    def eq(self, a, b):
        return _eq(a, b)

    # ---- types -------------------------------------------------------------
    def alts(self, t):
        f = self.state.facts.get(t.get_id())
        if f is not None and f[1] is not None:
            return f[1]
        return self.base_alts(t)

    def base_alts(self, t):
        c = ctor(t)
        if c is not None:
            if c == 'none':
                return (NONE_T,)
            if c == 'boo':
                return (BOOL,)
            if c == 'num':
                return (NUM,)
            if c == 's':
                return (STR,)
            if c in ('nil', 'cons'):
                return (('tuple', (ANY,)),)
            if c == 'ref':
                if z3.is_int_value(t.arg(0)):
                    return (self.kinds[t.arg(0).as_long()],)
            if c == 'sk':
                if z3.is_int_value(t.arg(0)):
                    return (self.sites[t.arg(0).as_long()],)
            if c == 'own':
                if z3.is_int_value(t.arg(0)):
                    fname = self.fid_name(t.arg(0).as_long())
                    return self.field_alts(t.arg(1), fname)
            if c == 'fn':
                return (('fn',),)
            return (ANY,)
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_ITE:
                out = []
                for x in self.alts(t.arg(1)) + self.alts(t.arg(2)):
                    if x not in out:
                        out.append(x)
                return tuple(out)
            ty = self.decl_ty.get(t.decl().name())
            if ty is not None:
                return ty(t) if callable(ty) else ty
        return (ANY,)

    def obj_alt(self, t):
        for a in self.alts(t):
            if a[0] == 'obj':
                return a
        return None

    def field_alts(self, o, fname):
        a = self.obj_alt(o)
        if a is None:
            return (ANY,)
        d = self.fielddef(a[1], fname)
        return d[0] if d else (ANY,)

    def fielddef(self, cls, fname):
        for c in self.mro_names(cls):
            d = self.classdefs.get(c)
            if d and fname in d['fields']:
                return d['fields'][fname]
        return None

    def mro_names(self, name):
        e = self.class_entry(name)
        if isinstance(e, Cls):
            return [c.qual for c in e.mro]
        d = self.classdefs.get(name)
        out = [name]
        if d:
            for b in d.get('bases', ()):
                out += self.mro_names(b)
        return out

    def class_entry(self, name):
        if name in getattr(self, '_clsmap', {}):
            return self._clsmap[name]
        return None

    def subclass(self, a, b):
        if a == b or b in ('builtins.object', 'object'):
            return True
        e = self.class_entry(a)
        if isinstance(e, Cls):
            for c in e.mro:
                if c.qual == b:
                    return True
                if isinstance(c, Ext) and self.ext_subclass(c.name, b):
                    return True
            return False
        return self.ext_subclass(a, b)

    def ext_subclass(self, a, b):
        if a == b:
            return True
        d = self.classdefs.get(a)
        if d:
            return any(self.subclass(x, b) for x in d.get('bases', ()))
        pa, pb = self.pyclass(a), self.pyclass(b)
        if pa and pb:
            return issubclass(pa, pb)
        return False

    def pyclass(self, name):
        if name.startswith('builtins.'):
            o = getattr(pyb, name[9:], None)
            return o if isinstance(o, type) else None
        return None

    def narrow(self, t, alts, negs=frozenset()):
        f = self.state.facts.get(t.get_id())
        old = f[2] if f else frozenset()
        self.state.facts[t.get_id()] = (t, tuple(alts), old | frozenset(negs))

    def negs(self, t):
        f = self.state.facts.get(t.get_id())
        return f[2] if f else frozenset()

    KINDCLS = {'none': 'builtins.NoneType', 'bool': 'builtins.bool', 'str': 'builtins.str',
               'set': 'builtins.set', 'fset': 'builtins.frozenset', 'list': 'builtins.list',
               'dict': 'builtins.dict', 'tuple': 'builtins.tuple', 'iter': 'builtins.generator'}

    def verdict(self, t, alt, cname):
        """Does a value with this alternative belong to the class? True / False / None (unknown)."""
        k = alt[0]
        if cname in ('builtins.object', 'object'):
            return True
        if cname in ('collections.Callable', 'collections.abc.Callable') and k == 'obj':
            if self.class_attr(alt[1], '__call__') is not None:
                return True
            return False if len(alt) > 2 and alt[2] else None
        if k == 'obj':
            if self.subclass(alt[1], cname):
                return True
            if len(alt) > 2 and alt[2]:
                return False
            if self.subclass(cname, alt[1]):
                for n in self.negs(t):
                    if self.subclass(cname, n):
                        return False
                return None
            return False
        if k == 'num':
            if cname in ('builtins.int', 'builtins.float', 'builtins.complex'):
                return None if cname != 'builtins.int' else (True if len(alt) < 2 else None)
            return False
        if k == 'any':
            for n in self.negs(t):
                if self.subclass(cname, n):
                    return False
            return None
        if k == 'call':
            return cname in ('collections.Callable', 'collections.abc.Callable')
        if k == 'fn':
            e = self.entry(t)
            if cname in ('collections.Callable', 'collections.abc.Callable'):
                return True
            return False
        if k == 'view':
            return False
        if k == 'bool' and cname == 'builtins.int':
            return True
        if cname in ('collections.Callable', 'collections.abc.Callable'):
            return False
        return self.KINDCLS.get(k) == cname

    def inst(self, cname, t):
        d = self.decl('inst_' + cname, V, B)
        return d(t)

    TESTER = {'builtins.str': lambda t: V.is_s(t), 'builtins.bool': lambda t: V.is_boo(t),
              'builtins.NoneType': lambda t: V.is_none(t),
              'builtins.int': lambda t: Or(V.is_num(t), V.is_boo(t)),
              'builtins.float': lambda t: V.is_num(t)}
    KIND_ALT = {'builtins.dict': ('dict', (ANY,), (ANY,)), 'builtins.set': ('set', (ANY,)),
                'builtins.frozenset': ('fset', (ANY,)), 'builtins.list': ('list', (ANY,)),
                'builtins.tuple': ('tuple', (ANY,)), 'builtins.str': STR, 'builtins.int': NUM,
                'builtins.float': NUM, 'builtins.bool': BOOL, 'builtins.NoneType': NONE_T,
                'collections.Callable': CALL, 'collections.abc.Callable': CALL}

    def isinstance(self, t, cname):
        """Decide membership, branching and narrowing when it is unknown."""
        t = self.pick(t)
        alts = self.alts(t)
        vs = [self.verdict(t, a, cname) for a in alts]
        if all(v is True for v in vs):
            return True
        if all(v is False for v in vs):
            return False
        fs, pos, neg = [], [], []
        out = [self.alt_tester(a, t) for a, v in zip(alts, vs) if v is False]
        if all(v is not None for v in vs) and all(f is not None for f in out):
            if self.branch(Not(Or(*out))):
                self.narrow(t, [a for a, v in zip(alts, vs) if v])
                return True
            self.narrow(t, [a for a, v in zip(alts, vs) if not v], [cname])
            return False
        for a, v in zip(alts, vs):
            if v is False:
                neg.append(a)
                continue
            tf = self.alt_tester(a, t) if v is True else None
            if v is True:
                fs.append(tf if tf is not None else self.inst('alt:%r' % (a,), t))
                pos.append(a)
            else:
                if cname in self.TESTER:
                    fs.append(self.TESTER[cname](t))
                    pos.append(self.KIND_ALT[cname])
                else:
                    fs.append(And(self.inst(cname, t), V.is_opq(t)) if a[0] in ('any',) else self.inst(cname, t))
                    pos.append(self.KIND_ALT.get(cname, ('obj', cname, False)))
                neg.append(a)
        if self.branch(Or(*fs)):
            self.narrow(t, pos)
            return True
        self.narrow(t, neg, [cname])
        return False

    def alt_tester(self, a, t):
        k = a[0]
        if k == 'none':
            return V.is_none(t)
        if k == 'bool':
            return V.is_boo(t)
        if k == 'num':
            return V.is_num(t)
        if k == 'str':
            return V.is_s(t)
        return None

    def pick(self, t):
        """Resolve if-then-else at the head of a term by branching."""
        while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and t.sort() == V:
            if t.get_id() in self.state.facts:
                break
            t = t.arg(1) if self.branch(t.arg(0)) else t.arg(2)
        return t

    def one_alt(self, t):
        """Narrow a term to a single alternative by branching."""
        while True:
            alts = self.alts(t)
            if len(alts) == 1:
                return alts[0]
            # first split off the alternatives with testers
            for a in alts:
                tf = self.alt_tester(a, t)
                if tf is not None:
                    break
            else:
                a = alts[0]
                tf = self.inst('alt:%r' % (a,), t)
            rest = [x for x in alts if x != a]
            if self.branch(tf):
                self.narrow(t, [a])
            else:
                self.narrow(t, rest)

    # ---- maps --------------------------------------------------------------
    def gmap(self, name):
        g = self.state.g
        if name not in g:
            g[name] = self.base_map(name)
        return g[name]

    _basemaps = None

    def base_map(self, name):
        if self._basemaps is None:
            self._basemaps = {}
        if name not in self._basemaps:
            self._basemaps[name] = GMap.make(name, self.make_base(name))
        return self._basemaps[name]

    def make_base(self, name):
        if name.startswith('F:'):
            f = name[2:]
            d = self.decl('F_' + f, V, V)
            OLD_DECLS.add('F_' + f)
            self.decl_ty['F_' + f] = lambda t, f=f: self.field_alts(t.arg(0), f)

            def base(o, f=f, d=d):
                a = self.obj_alt(o)
                fd = self.fielddef(a[1], f) if a is not None else None
                if fd is not None and fd[1]:
                    return V.own(z3.IntVal(self.fid(f)), o)
                t = d(o)
                return t
            return base
        if name.startswith('H:'):
            f = name[2:]

            def hbase(o, f=f):
                if ctor(o) in ('ref', 'sk'):
                    return FALSE
                a = self.obj_alt(o)
                if a is None and z3.is_app(o) and o.decl().name().startswith('sk_'):
                    return self.decl('H_' + f, V, B)(o)       # any object at all
                fd = self.fielddef(a[1], f) if a is not None else None
                if fd is None:
                    return FALSE
                if len(fd) > 2 and fd[2] == 'optional':
                    return self.decl('H_' + f, V, B)(o)
                return TRUE
            return hbase
        if name == 'MEM':
            d = self.decl('MEM0', V, V, B)

            def mem(c, y):
                if ctor(c) == 'ref':
                    return FALSE
                if ctor(c) == 'sk':
                    return FALSE
                h = self.owned_hook('MEM', c)
                if h is not None:
                    return h(y)
                return d(c, y)
            return mem
        if name == 'DOM':
            d = self.decl('DOM0', V, V, B)

            def dom(c, y):
                if ctor(c) in ('ref', 'sk'):
                    return FALSE
                h = self.owned_hook('DOM', c)
                if h is not None:
                    return h(y)
                return d(c, y)
            return dom
        if name == 'VAL':
            d = self.decl('VAL0', V, V, V)
            OLD_DECLS.add('VAL0')

            def vty(t):
                for a in self.alts(t.arg(0)):
                    if a[0] == 'dict':
                        return a[2]
                return (ANY,)
            self.decl_ty['VAL0'] = vty

            def val(c, y):
                h = self.owned_hook('VAL', c)
                if h is not None:
                    return h(y)
                return d(c, y)
            return val
        if name in self.ghost_bases:
            return self.ghost_bases[name]
        raise Unsupported('unknown map ' + name)

    ghost_bases = {}
    ghost_sorts = {}
    ghost_noobj = frozenset()
    ghost_guard = {}

    def owned_hook(self, what, c):
        if ctor(c) == 'own' and z3.is_int_value(c.arg(0)):
            h = self.view_hooks.get((what, self.fid_name(c.arg(0).as_long())))
            if h is not None:
                return lambda *y: h(self, c.arg(1), *y)
        return None

    def gput(self, name, args, val):
        self.state.g[name] = self.gmap(name).put(args, val)

    def gregion(self, name, cond, val):
        self.state.g[name] = self.gmap(name).region(cond, val)

    # ---- object fields -----------------------------------------------------
    def getfield(self, o, f):
        return self.gmap('F:' + f).get(o)

    def hasfield(self, o, f):
        return self.gmap('H:' + f).get(o)

    def settle(self, v):
        """A conditional value met inside a loop: without the alternatives the path rules out."""
        if self.loopvars and z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
            from . import lib
            return lib.simplify_under(self, v, TRUE, None)
        return v

    def setfield(self, o, f, v):
        if ctor(v) == 'own' and v.arg(1).eq(o) and z3.is_int_value(v.arg(0)) and v.arg(0).as_long() == self.fid(f):
            try:
                if self.getfield(o, f).eq(v):
                    return                # the container it holds already
            except NotPointwise:
                pass
        self.gput('F:' + f, (o,), v)
        h = self.hasfield(o, f)
        if not z3.is_true(h):
            self.gput('H:' + f, (o,), TRUE)

    def delfield(self, o, f):
        self.gput('H:' + f, (o,), FALSE)

    def type_assume(self, t):
        """Assume the declared type of a pre-state value (instantiated where it is read)."""
        if z3.is_app(t) and t.decl().name() in OLD_DECLS and ctor(t) is None:
            key = ('ty', t.get_id())
            if key in self.state.extra:
                return t
            self.state.extra[key] = t
            f = self.type_formula(t, self.base_alts(t))
            self.assume(f)
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            self.type_assume(t.arg(1))
            self.type_assume(t.arg(2))
        return t

    # ---- lists -------------------------------------------------------------
    def list_key(self, c):
        for k, (t, l) in list(self.state.lists.items()):
            if t.eq(c):
                return k
        for k, (t, l) in list(self.state.lists.items()):
            e = self.eq_heads(t, c)
            if z3.is_false(e):
                continue
            kt, kc = ({a[0] for a in self.alts(x)} for x in (t, c))
            if not kt & kc and kt | kc <= {'list', 'tuple', 'iter'}:
                continue                  # values of different types
            if kc == {'tuple'} and is_old(t) and is_old(c):
                continue                  # tuples do not change: the content is a function of the value
            if self.branch(e):
                return k
        return None

    def eq_heads(self, a, b):
        return eq_old(a, b)

    def getlist(self, c):
        k = self.list_key(c)
        if k is not None:
            t, l = self.state.lists[k]
            if not t.eq(c) and is_old(c):
                self.base_list(c)         # what its type says of its length
            return l
        l = self.base_list(c)
        self.state.lists[c.get_id()] = (c, l)
        return l

    def base_list(self, c):
        if ctor(c) in ('ref', 'sk'):
            return ListC()
        i = z3.Int('i!%d' % self.uid('li'))
        n = self.decl('LEN0', V, I)(c)
        self.assume(n >= 0)
        e = self.decl('ELEM0', V, I, V)
        OLD_DECLS.add('ELEM0')

        def ety(t):
            for a in self.alts(t.arg(0)):
                if a[0] in ('list', 'tuple', 'iter'):
                    if len(a) > 2 and z3.is_int_value(t.arg(1)) and 0 <= t.arg(1).as_long() < len(fixed(a)):
                        return fixed(a)[t.arg(1).as_long()]
                    return a[1]
            return (ANY,)
        self.decl_ty['ELEM0'] = ety
        rec = [a for a in self.base_alts(c) if a[0] in ('list', 'tuple')]
        if len(rec) == 1 and len(rec[0]) > 2:
            # a record: the first elements have types of their own
            k = len(fixed(rec[0]))
            first = [('v', self.type_assume(e(c, z3.IntVal(j)))) for j in range(k)]
            if rec[0][-1] is not Ellipsis:
                self.assume(n == k)
                return ListC(first)
            self.assume(n >= k)
            return ListC(first + [('d', Dom(i, And(i >= 0, i < n - k), e(c, i + k), n - k))])
        return ListC([('d', Dom(i, And(i >= 0, i < n), e(c, i), n))])

    def setlist(self, c, l):
        k = self.list_key(c)
        if k is None:
            k = c.get_id()
        else:
            c = self.state.lists[k][0]
        self.state.lists[k] = (c, l)

    # ---- container construction --------------------------------------------
    def new_list(self, items=(), kind='list'):
        c = self.alloc((kind, (ANY,)))
        self.state.lists[c.get_id()] = (c, ListC([('v', v) for v in items]))
        return c

    def new_listc(self, lc, kind='list', el=(ANY,)):
        c = self.alloc((kind, el))
        self.state.lists[c.get_id()] = (c, lc)
        return c

    def new_set(self, items=None, mem=None, kind='set', el=(ANY,)):
        c = self.alloc((kind, el))
        if mem is not None:
            cond = lambda d, y, c=c: self.eq(d, c)
            cond.target, cond.sorts = c, (V, V)
            self.gregion('MEM', cond, lambda d, y: mem(y))
        if items is not None:
            for v in items:
                self.gput('MEM', (c, v), TRUE)
            self.state.conc[c.get_id()] = (c, tuple(items))
        return c

    def new_dict(self, items=None):
        c = self.alloc(('dict', (ANY,), (ANY,)))
        self.state.conc[c.get_id()] = (c, ())
        for k, v in (items or []):
            self.dict_put(c, k, v)
        return c

    def dict_put(self, c, k, v):
        self.gput('DOM', (c, k), TRUE)
        self.gput('VAL', (c, k), v)
        cc = self.state.conc.get(c.get_id())
        if cc is not None:
            keys = cc[1]
            for q in keys:
                e = self.eq(q, k)
                if z3.is_true(e):
                    return
                if not z3.is_false(e):
                    self.state.conc.pop(c.get_id())
                    return
            self.state.conc[c.get_id()] = (c, keys + (k,))
        else:
            self.unconc(c)

    def unconc(self, c):
        for k, (t, keys) in list(self.state.conc.items()):
            if t.eq(c) or not z3.is_false(eq_old(t, c)):
                self.state.conc.pop(k)

    def dict_get(self, c, k):
        return self.type_assume(self.gmap('VAL').get(c, k))

    def dict_has(self, c, k):
        return self.gmap('DOM').get(c, k)

    # ---- python constants --------------------------------------------------
    def const(self, v):
        if v is None:
            return NONE
        if v is True or v is False:
            return V.boo(z3.BoolVal(v))
        if isinstance(v, (int, float)):
            return V.num(z3.RealVal(repr(v) if isinstance(v, float) else v))
        if isinstance(v, str):
            return strconst(v)
        if isinstance(v, bytes):
            return strconst('b:' + v.decode('latin1'))
        if isinstance(v, tuple):
            return self.tup([self.const(x) for x in v])
        if v is Ellipsis:
            return self.mkfn(Ext('builtins.Ellipsis'))
        raise Unsupported('constant %r' % (v,))

    def tup(self, items):
        t = NIL
        for v in reversed(list(items)):
            t = V.cons(v, t)
        return t

    def pystr(self, t):
        if ctor(t) == 's' and z3.is_int_value(t.arg(0)):
            return string_of(t.arg(0).as_long())
        return None

    def pynum(self, t):
        if ctor(t) == 'num':
            r = z3.simplify(t.arg(0))
            if z3.is_rational_value(r):
                f = r.as_fraction()
                return int(f) if f.denominator == 1 else float(f)
        return None

    def untup(self, t):
        """Items of a concrete tuple term, or None."""
        out = []
        while ctor(t) == 'cons':
            out.append(t.arg(0))
            t = t.arg(1)
        return out if ctor(t) == 'nil' else None

    # ---- truth -------------------------------------------------------------
    def truth(self, t):
        """Truth of a value as a formula (may branch for objects)."""
        c = ctor(t)
        if c == 'boo':
            return t.arg(0)
        if c == 'none':
            return FALSE
        if c == 'nil':
            return FALSE
        if c in ('cons', 'fn'):
            if c == 'fn' and isinstance(self.entry(t), View):
                return self.nonempty(self.entry(t).d)
            return TRUE
        if c == 'num':
            return t.arg(0) != 0
        if c == 's':
            return t.arg(0) != 0
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and t.get_id() not in self.state.facts:
            if all(a[0] != 'obj' for a in self.alts(t)):
                return If(t.arg(0), self.truth(t.arg(1)), self.truth(t.arg(2)))
            t = self.pick(t)
            return self.truth(t)
        alts = self.alts(t)
        simple = []
        for a in alts:
            k = a[0]
            if k == 'none':
                simple.append(FALSE)
            elif k == 'bool':
                simple.append(And(V.is_boo(t), V.bv(t)))
            elif k == 'num':
                simple.append(And(V.is_num(t), V.nv(t) != 0))
            elif k == 'str':
                simple.append(And(V.is_s(t), V.si(t) != 0))
            elif k in ('fn', 'call'):
                simple.append(TRUE if len(alts) == 1 else V.is_opq(t))
            elif k == 'any':
                return And(Not(V.is_none(t)), Not(V.is_nil(t)),
                           Implies(V.is_boo(t), V.bv(t)), Implies(V.is_num(t), V.nv(t) != 0),
                           Implies(V.is_s(t), V.si(t) != 0),
                           Implies(V.is_opq(t), self.decl('truthy', V, B)(t)))
            else:
                break
        else:
            return Or(*simple)
        a = self.one_alt(t)
        k = a[0]
        if k in ('set', 'fset', 'dict', 'list', 'tuple', 'iter'):
            return self.nonempty(t)
        if k == 'obj':
            for nm in ('__bool__', '__len__'):
                m = self.class_attr(a[1], nm)
                if m is not None:
                    r = self.call(self.bind(m, t, a[1]), [], {})
                    return self.truth(r)
            d = self.lookup_def(a[1], 'truth')
            if d is not None:
                return d(self, t)
            return TRUE
        return self.truth(t)

    def lookup_def(self, cname, what):
        for c in self.mro_names(cname):
            d = self.classdefs.get(c)
            if d and d.get(what) is not None:
                return d[what]
        return None

    def nonempty(self, t):
        a = self.one_alt(t)
        k = a[0]
        if k in ('list', 'iter', 'tuple'):
            if ctor(t) in ('nil', 'cons'):
                return TRUE if ctor(t) == 'cons' else FALSE
            if k == 'iter':
                return TRUE
            return self.getlist(t).nonempty()
        cc = self.state.conc.get(t.get_id())
        if cc is not None:
            return TRUE if cc[1] else FALSE
        x = z3.Const('ne!%d' % self.uid('ne'), V)
        m = self.gmap('MEM' if k in ('set', 'fset') else 'DOM').get(t, x)
        if z3.is_false(m):
            return FALSE
        return z3.Exists([x], m)

    # ---- exceptions --------------------------------------------------------
    def exc(self, cname, args=()):
        o = self.alloc(('obj', cname, True))
        self.setfield(o, 'args', self.tup(args))
        return o

    def throw(self, cname, *args):
        raise Raise(self.exc('builtins.' + cname, args))

    # ---- attributes --------------------------------------------------------
    def class_attr(self, cname, name, after=None):
        """Class attribute (entry term) found in the MRO."""
        e = self.class_entry(cname)
        if isinstance(e, Cls):
            mro = e.mro
            if after is not None:
                qs = [c.qual for c in mro]
                mro = mro[qs.index(after) + 1:]
            for c in mro:
                if isinstance(c, Cls):
                    if (c.qual, name) in self.overrides:
                        return self.mkfn(self.overrides[c.qual, name], ('override', c.qual, name))
                    if name in c.attrs:
                        return c.attrs[name]
                else:
                    d = self.classdefs.get(c.name)
                    if d and name in d.get('methods', {}):
                        return self.mkfn(d['methods'][name], ('extm', c.name, name))
                    if c.name not in ('builtins.object',) and self.pyclass(c.name) is None and not d:
                        if name.startswith('__'):
                            continue
                        return 'unknown'
            return None
        for c in self.mro_names(cname):
            d = self.classdefs.get(c)
            if d and name in d.get('methods', {}):
                return self.mkfn(d['methods'][name], ('extm', c, name))
        return None

    def bind(self, m, self_, cname):
        e = self.entry(m)
        if isinstance(e, StaticM):
            return e.func
        if isinstance(e, ClassM):
            return self.mkfn(Bound(e.func, self.cls_term(cname)))
        if isinstance(e, (Fn,)) or callable(e):
            return self.mkfn(Bound(m, self_))
        return m

    def cls_term(self, cname):
        e = self.class_entry(cname)
        if e is None:
            return self.mkfn(Ext(cname))
        return self.mkfn(e, ('cls', cname))

    def getattr(self, t, name, default=None):
        t = self.pick(t)
        a = self.one_alt(t)
        k = a[0]
        if k == 'obj':
            return self.obj_getattr(t, a[1], name, default)
        if k == 'fn':
            return self.fn_getattr(t, name, default)
        if k == 'none':
            if default is not None:
                return default
            if name == '__class__':
                return self.mkfn(Ext('builtins.NoneType'))
            self.throw('AttributeError', self.const(name))
        if k in ('set', 'fset', 'list', 'dict', 'tuple', 'str', 'iter'):
            if k == 'str' and False:
                pass
            if not hasattr({'set': set, 'fset': frozenset, 'list': list, 'dict': dict, 'tuple': tuple, 'str': str,
                            'iter': type(iter([]))}[k], name):
                if default is not None:
                    return default
                self.throw('AttributeError', self.const(name))
            return self.mkfn(Meth(k, name, t))
        if k in ('num', 'bool'):
            if default is not None and not hasattr(1.0, name):
                return default
            raise Unsupported('attribute %s of a number' % name)
        h = self.opaque_attr(t, name, default)
        if h is not None:
            return h
        raise Unsupported('attribute %s of an opaque value %s' % (name, t))

    def opaque_attr(self, t, name, default):
        return None

    def obj_getattr(self, t, cname, name, default=None):
        m = self.class_attr(cname, name)
        e = self.entry(m) if m is not None and not isinstance(m, str) else None
        if isinstance(e, Prop):
            self.check_virtual(t, cname, name, e.get)
            return self.call(e.get, [t], {})
        h = self.hasfield(t, name)
        self.known_field(name, h)
        if not z3.is_false(h):
            if self.branch(h):
                return self.type_assume(self.settle(self.getfield(t, name)))
        if isinstance(m, str):
            raise Unsupported('attribute %s of %s may come from an external base class' % (name, cname))
        if m is not None:
            try:
                self.check_virtual(t, cname, name, m)
            except Unsupported:
                apply = self.virtuals.get(name)
                if apply is None or not isinstance(e, Fn):
                    raise
                # an operation of the interface that the contract does not expect here: an event (or query) of its own
                return self.bind(self.mkfn(lambda eng, a, k, e=e: apply(eng, e, a, k), ('virtual', e.key)), t, cname)
            return self.bind(m, t, cname)
        if name == '__class__':
            if len(self.obj_alt(t)) > 2 and self.obj_alt(t)[2]:
                return self.cls_term(cname)
            raise Unsupported('__class__ of an object of unknown exact class')
        if name == '__dict__':
            raise Unsupported('__dict__')
        g = self.class_attr(cname, '__getattr__')
        if g is not None and not isinstance(g, str):
            try:
                return self.call(self.bind(g, t, cname), [self.const(name)], {})
            except Raise as r:
                if default is not None and self.isinstance(r.value, 'builtins.AttributeError'):
                    return default
                raise
        dyn = self.lookup_def(cname, 'getattr')
        if dyn is not None:
            r = dyn(self, t, name)
            if r is not None:
                return r
        if default is not None:
            return default
        if not self.closed_class(t, cname):
            raise Unsupported('unknown attribute %s of %s' % (name, cname))
        self.throw('AttributeError', self.const(name))

    def known_field(self, name, h):
        if self.fields and name in self.fields[1] and not z3.is_true(z3.simplify(h)):
            raise Unsupported('field %s is no part of the contracts' % name)

    virtuals = {}       # operations of the interfaces, for calls no contract expects

    def check_virtual(self, t, cname, name, m):
        """A method call on an object of a subclass not known exactly needs a contract when it may be overridden."""
        if self.loading:
            return
        alt = self.obj_alt(t)
        if alt is None or (len(alt) > 2 and alt[2]):
            return
        e = self.entry(m)
        if isinstance(e, Fn) and e.key in self.contracts:
            return
        for mod in self.modules.values():
            for v in list(mod.env.values()):
                k = self.entry(v) if v is not None else None
                if isinstance(k, Cls) and k.qual != cname and any(getattr(b, 'qual', None) == cname for b in k.mro) \
                        and name in k.attrs:
                    raise Unsupported('call of %s.%s, overridden in %s, without a contract' % (cname, name, k.qual))

    def closed_class(self, t, cname):
        """All instance attributes of the object are known."""
        if self.is_local(t):
            return True
        d = self.lookup_def(cname, 'closed')
        return bool(d)

    def fn_getattr(self, t, name, default=None):
        e = self.entry(t)
        if isinstance(e, Mod):
            if name in e.env:
                return e.env[name]
            sub = e.name + '.' + name
            if sub in self.modules:
                return self.mkfn(self.modules[sub], ('mod', sub))
            if default is not None:
                return default
            self.throw('AttributeError', self.const(name))
        if isinstance(e, Ext):
            if name == '__name__':
                return self.const(e.name.split('.')[-1])
            return self.ext(e.name + '.' + name)
        if isinstance(e, Cls):
            m = self.class_attr(e.qual, name)
            if m is None:
                if name == '__name__':
                    return self.const(e.name)
                if default is not None:
                    return default
                self.throw('AttributeError', self.const(name))
            if isinstance(m, str):
                raise Unsupported('class attribute %s from an external base' % name)
            me = self.entry(m)
            if isinstance(me, StaticM):
                return me.func
            if isinstance(me, ClassM):
                return self.mkfn(Bound(me.func, t))
            return m
        if isinstance(e, Super):
            cname = self.obj_alt(e.self_)[1] if self.obj_alt(e.self_) else None
            if cname is None:
                raise Unsupported('super of an unknown object')
            m = self.class_attr(cname, name, after=e.cls)
            if m is None and name == '__init__':
                return self.mkfn(Ext('builtins.object.__init__'))
            if isinstance(m, str) or m is None:
                h = self.handlers.get('super.' + name)
                raise Unsupported('super().%s' % name)
            me = self.entry(m)
            if isinstance(me, Prop):
                return self.call(me.get, [e.self_], {})
            return self.bind(m, e.self_, cname)
        if isinstance(e, Prop):
            return self.mkfn(Meth('prop', name, t))
        if isinstance(e, (Fn, Bound, Partial)):
            if name in ('__name__', '__doc__', '__module__', '__wrapped__', '__dict__', '__qualname__'):
                return self.mkfn(Ext('attr.' + name))
            if isinstance(e, Bound) and name == '__self__':
                return e.self_
            if isinstance(e, Bound) and name == '__func__':
                return e.func
            if default is not None:
                return default
            self.throw('AttributeError', self.const(name))
        if isinstance(e, View):
            return self.mkfn(Meth('view', name, t))
        raise Unsupported('attribute %s of %r' % (name, e))

    def setattr(self, t, name, v):
        t = self.pick(t)
        a = self.one_alt(t)
        if a[0] == 'obj':
            m = self.class_attr(a[1], name)
            e = self.entry(m) if m is not None and not isinstance(m, str) else None
            if isinstance(e, Prop):
                if e.set is None:
                    self.throw('AttributeError', self.const(name))
                self.call(e.set, [t, v], {})
                return
            s = self.class_attr(a[1], '__setattr__')
            if s is not None and not isinstance(s, str) and isinstance(self.entry(s), Fn):
                self.call(self.bind(s, t, a[1]), [self.const(name), v], {})
                return
            self.setfield(t, name, v)
            return
        if a[0] == 'none':
            self.throw('AttributeError', self.const(name))
        if a[0] == 'fn' and isinstance(self.entry(t), (Fn, Bound)):
            return
        raise Unsupported('assignment to attribute %s of %s' % (name, a))

    def delattr(self, t, name):
        t = self.pick(t)
        a = self.one_alt(t)
        if a[0] == 'obj':
            m = self.class_attr(a[1], name)
            e = self.entry(m) if m is not None and not isinstance(m, str) else None
            if isinstance(e, Prop):
                self.call(e.delete, [t], {})
                return
            s = self.class_attr(a[1], '__delattr__')
            if s is not None and isinstance(self.entry(s), Fn):
                self.call(self.bind(s, t, a[1]), [self.const(name)], {})
                return
            if not self.branch(self.hasfield(t, name)):
                self.throw('AttributeError', self.const(name))
            self.delfield(t, name)
            return
        raise Unsupported('del attribute')

    # ---- calls -------------------------------------------------------------
    def call(self, f, args, kwargs):
        f = self.pick(f)
        a = self.one_alt(f)
        e = self.entry(f)
        if e is None:
            if a[0] == 'obj':
                m = self.class_attr(a[1], '__call__')
                if m is not None and not isinstance(m, str):
                    return self.call(self.bind(m, f, a[1]), args, kwargs)
                if m is None and len(a) > 2 and a[2] and self.closed_class(f, a[1]):
                    self.throw('TypeError', self.const('not callable'))
            if a[0] in ('call', 'any'):
                return self.call_opaque(f, args, kwargs)
            if a[0] in ('none', 'str', 'num', 'bool', 'list', 'dict', 'set', 'tuple'):
                self.throw('TypeError', self.const('not callable'))
            raise Unsupported('call of %s' % (a,))
        return self.call_entry(e, f, args, kwargs)

    def call_entry(self, e, f, args, kwargs):
        if isinstance(e, Bound):
            return self.call(e.func, [e.self_] + list(args), kwargs)
        if isinstance(e, Fn):
            return self.call_fn(e, args, kwargs)
        if isinstance(e, Cls):
            return self.instantiate(e, args, kwargs)
        if isinstance(e, Ext):
            h = self.handlers.get(e.name)
            if h is not None:
                return h(self, args, kwargs)
            pc = self.pyclass(e.name)
            if pc is not None and issubclass(pc, BaseException):
                return self.exc(e.name, [a for a in args if not isinstance(a, Star)])
            if e.name.startswith('attr.'):
                raise Unsupported(e.name)
            if self.loading:
                self.load_calls.append((e.name, args, kwargs))
                if len(args) == 1 and e.name == 'builtins.staticmethod':
                    return self.mkfn(StaticM(args[0]))
                if len(args) == 1 and e.name == 'builtins.classmethod':
                    return self.mkfn(ClassM(args[0]))
                if len(args) == 1 and not kwargs and isinstance(self.entry(args[0]), (Fn, Cls)):
                    return args[0]
                return self.mkfn(Ext('%s()#%d' % (e.name, self.uid('x'))))
            raise Unsupported('external call %s' % e.name)
        if isinstance(e, Meth):
            from . import lib
            return lib.call_method(self, e, args, kwargs)
        if isinstance(e, Partial):
            kw = dict(e.kwargs)
            kw.update(kwargs)
            return self.call(e.func, list(e.args) + list(args), kw)
        if isinstance(e, StaticM):
            return self.call(e.func, args, kwargs)
        if callable(e):
            return e(self, args, kwargs)
        raise Unsupported('call of %r' % (e,))

    def call_opaque(self, f, args, kwargs):
        """A callable supplied by the user: recorded in the trace, may return anything or raise anything."""
        ev = self.event('call', [f, self.args_term(args), self.kwargs_term(kwargs)])
        if self.branch(self.seqfresh('raises', B)):
            e = self.seqfresh('exc', V, ('obj', 'builtins.Exception', False))
            self.assume(V.is_opq(e))
            self.state.extra['last_call'] = ('exc', e)
            raise Raise(e)
        res = [x for a in self.alts(f) if a[0] == 'call' and len(a) > 1 for x in a[1]] or [ANY]
        r = self.seqfresh('res', V, res)
        self.assume(self.type_formula(r, res))
        self.state.extra['last_call'] = ('ret', r)
        return r

    def seqfresh(self, name, sort=V, ty=None):
        """The outcome of the k-th external event of a run: the same in the actual and the specified run."""
        segs = self.state.trace.segs
        if self.loopvars or self.state.trace.poisoned or any(k != 'v' for k, _ in segs):
            return self.fresh(name, sort, ty)
        n = len(segs)
        if self.channels and segs:
            k = self.channel_of(segs[-1][1])
            n = '%s%d' % (k + ':' if k else '', len([1 for _, v in segs if self.channel_of(v) == k]))
        n = '%s@%s%s' % (name, self.state.extra.get('seqtag', ''), n)
        t = z3.Const(n, sort)
        if ty is not None:
            self.decl_ty[n] = tuple(ty) if isinstance(ty, list) else (ty,)
        OLD_DECLS.add(n)
        return t

    channels = {}

    def channel_of(self, ev):
        return self.channels.get(self.pystr(ev.arg(0)), '') if self.channels and ctor(ev) == 'cons' else ''

    def setup_env(self, con):
        self.channels = getattr(con, 'channels', None) or {}
        self.overrides = {}
        self.state.extra['ident'] = self.param('thread', NUM)
        f = getattr(con, 'env', None)
        if f is not None:
            f(self)

    def args_term(self, args):
        t = NIL
        for a in reversed(list(args)):
            if isinstance(a, Star):
                if ctor(t) != 'nil':
                    raise Unsupported('arguments after an opaque star')
                t = a.term
            else:
                t = V.cons(a, t)
        return t

    def kwargs_term(self, kwargs):
        if '**' in kwargs:
            if len(kwargs) > 1:
                rest = [(k, v) for k, v in kwargs.items() if k != '**']
                return self.tup([self.const('**')] + [kwargs['**'].term] +
                                [self.tup([self.const(k), v]) for k, v in sorted(rest)])
            return kwargs['**'].term
        return self.tup([self.tup([self.const(k), v]) for k, v in sorted(kwargs.items())])

    def event(self, name, args):
        ev = self.tup([self.const(name)] + list(args))
        st = self.state
        if not self.loopvars and has_ref(ev):
            st.extra['moment'] = dict(st.extra.get('moment', {}))
            st.extra['moment'][len(st.trace.segs)] = (dict(st.g), dict(st.lists), dict(st.conc), st.extra['lastref'])
        st.trace = st.trace.append(ev)
        return ev

    def instantiate(self, cls, args, kwargs):
        for c in cls.mro:
            if isinstance(c, Ext) and c.name != 'builtins.object' and self.pyclass(c.name) is None \
                    and c.name not in self.classdefs and not self.loading \
                    and c.name not in ('collections.Iterator',):
                raise Unsupported('instance of a class with external base %s' % c.name)
        k = self.contracts.get(cls.qual + '.__new__')
        if k is not None:
            return k(self, args, kwargs)
        o = self.alloc(('obj', cls.qual, True))
        m = self.class_attr(cls.qual, '__init__')
        if m is not None and not isinstance(m, str):
            self.call(self.mkfn(Bound(m, o)), args, kwargs)
        elif any(isinstance(c, Ext) and (self.pyclass(c.name) or object) is not object for c in cls.mro):
            self.setfield(o, 'args', self.args_term(args))
        return o

    def call_fn(self, fn, args, kwargs):
        c = self.contracts.get(fn.key)
        if c is not None and not self.loading and fn.key not in self.inline:
            self.used_contracts.add(fn.key)
            return c.apply(self, fn, args, kwargs)
        return self.exec_fn(fn, args, kwargs)

    def bindargs(self, fn, args, kwargs):
        a = fn.node.args
        kwargs = dict(kwargs)
        env = {}
        names = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
        pos = list(args)
        star = None
        if any(isinstance(x, Star) for x in pos):
            if not isinstance(pos[-1], Star) or any(isinstance(x, Star) for x in pos[:-1]):
                raise Unsupported('opaque star not last')
            star = pos.pop()
        for i, n in enumerate(names):
            if pos:
                env[n] = pos.pop(0)
                if n in kwargs:
                    self.throw('TypeError', self.const('multiple values'))
            elif star is not None:
                raise Unsupported('opaque star bound to named parameter')
            elif n in kwargs:
                env[n] = kwargs.pop(n)
            else:
                j = i - (len(names) - len(fn.defaults))
                if j < 0:
                    if '**' in kwargs:
                        raise Unsupported('opaque ** bound to named parameter')
                    self.throw('TypeError', self.const('missing argument ' + n))
                env[n] = fn.defaults[j]
        if a.vararg:
            if star is not None:
                t = star.term
                for x in reversed(pos):
                    t = V.cons(x, t)
                env[a.vararg.arg] = t
            else:
                env[a.vararg.arg] = self.tup(pos)
        elif pos or star is not None:
            self.throw('TypeError', self.const('too many positional arguments'))
        for x, d in zip(a.kwonlyargs, fn.kwdefaults):
            if x.arg in kwargs:
                env[x.arg] = kwargs.pop(x.arg)
            elif d is not None:
                env[x.arg] = d
            else:
                self.throw('TypeError', self.const('missing keyword argument'))
        if a.kwarg:
            if '**' in kwargs:
                if len(kwargs) > 1:
                    raise Unsupported('opaque ** with further keywords')
                env[a.kwarg.arg] = kwargs['**'].term
            else:
                env[a.kwarg.arg] = self.new_dict([(self.const(k), v) for k, v in kwargs.items()])
        elif kwargs:
            if '**' in kwargs:
                raise Unsupported('opaque ** to a function without **')
            self.throw('TypeError', self.const('unexpected keyword argument'))
        return env

    def new_env(self, parent, module, vars):
        n = self.uid('env')
        self.state.envs[n] = dict(vars)
        self.state.envpar[n] = (parent, module)
        return n

    def exec_fn(self, fn, args, kwargs):
        env = self.bindargs(fn, args, kwargs)
        return self.exec_body(fn, env)

    def exec_body(self, fn, env):
        eid = self.new_env(fn.eid, fn.module, env)
        self.depth += 1
        if self.depth > 60:
            self.depth = 0
            raise Unsupported('recursion without a contract: ' + fn.key)
        self.curfn.append(fn)
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.ev(fn.node.body, eid)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(fn.node)):
                raise Unsupported('generator function')
            try:
                self.exec(fn.node.body, eid)
            except ReturnEx as r:
                return r.value
            return NONE
        finally:
            self.depth = max(0, self.depth - 1)
            self.curfn.pop()

    # ---- names -------------------------------------------------------------
    def lookup(self, eid, name):
        while eid is not None:
            vs = self.state.envs[eid]
            if name in vs:
                v = vs[name]
                if v is None:
                    raise NotPointwise('local variable %s carried between loop iterations' % name)
                return v
            eid, module = self.state.envpar[eid]
        m = self.modules[module]
        if name in m.env:
            return m.env[name]
        if hasattr(pyb, name):
            return self.mkfn(Ext('builtins.' + name)) if name not in ('True', 'False', 'None', 'Ellipsis') \
                else self.const(getattr(pyb, name))
        if name in ('__name__',):
            return self.const(module)
        self.throw('NameError', self.const(name))

    def assign_name(self, eid, name, v):
        vs = self.state.envs[eid]
        sc = vs.get('#scope')
        if sc is not None and name in sc:
            tgt = sc[name]
            if tgt == 'global':
                raise Unsupported('assignment to a global')
            self.state.envs[tgt][name] = v
            return
        if self.state.envpar[eid][0] is None and eid in self.modenvs:
            self.modules[self.state.envpar[eid][1]].env[name] = v
            return
        vs[name] = v

    modenvs = frozenset()

    # ---- modules -----------------------------------------------------------
    def modpath(self, dotted):
        p = os.path.join(self.repo, *dotted.split('.'))
        if os.path.isfile(p + '.py'):
            return p + '.py'
        if os.path.isfile(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py')
        return None

    def load(self, dotted):
        if dotted in self.modules:
            return self.modules[dotted]
        path = self.modpath(dotted)
        if path is None:
            return None
        src = open(path).read()
        tree = ast.parse(src, path)
        if self.fields is None:
            from . import fields
            self.fields = fields.differences(self.repo)
        if self.fields[0]:
            from . import fields
            tree = fields.Rename(self.fields[0]).visit(tree)
        m = Mod(dotted)
        m.path = path
        self.modules[dotted] = m
        m.env['__name__'] = self.const(dotted)
        self.loading += 1
        try:
            n = self.new_env(None, dotted, {})
            self.modenvs = self.modenvs | {n}
            for st in tree.body:
                try:
                    self.stmt(st, n)
                except Unsupported as u:
                    # names bound by a statement outside the subset stay opaque; using one is unsupported
                    names = [t.id for t in getattr(st, 'targets', []) if isinstance(t, ast.Name)]
                    if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                        names = [st.name]
                    if not names:
                        raise
                    for nm in names:
                        m.env[nm] = self.mkfn(Ext('unsupported.%s.%s' % (dotted, nm)))
                    self.load_problems.append((dotted, names, str(u)))
        finally:
            self.loading -= 1
        return m

    def import_name(self, dotted):
        """Term for an imported module."""
        if self.modpath(dotted):
            parts = dotted.split('.')
            for i in range(1, len(parts) + 1):
                self.load('.'.join(parts[:i]))
            return self.mkfn(self.modules[dotted], ('mod', dotted))
        return self.mkfn(Ext(dotted))

    # ---- statements --------------------------------------------------------
    def exec(self, body, eid):
        for s in body:
            self.stmt(s, eid)

    def stmt(self, s, eid):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement ' + type(s).__name__)
        return m(s, eid)

    def s_Expr(self, s, eid):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, eid)

    def s_Pass(self, s, eid):
        pass

    def s_Return(self, s, eid):
        raise ReturnEx(self.ev(s.value, eid) if s.value is not None else NONE)

    def s_Assign(self, s, eid):
        v = self.ev(s.value, eid)
        for t in s.targets:
            self.assign(t, v, eid)

    def s_AnnAssign(self, s, eid):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, eid), eid)

    def assign(self, t, v, eid):
        if isinstance(t, ast.Name):
            self.assign_name(eid, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, eid), t.attr, v)
        elif isinstance(t, ast.Subscript):
            from . import lib
            lib.setitem(self, self.ev(t.value, eid), self.ev_index(t.slice, eid), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            from . import lib
            items = lib.unpack(self, v, len(t.elts), any(isinstance(x, ast.Starred) for x in t.elts))
            if any(isinstance(x, ast.Starred) for x in t.elts):
                raise Unsupported('starred assignment')
            for x, y in zip(t.elts, items):
                self.assign(x, y, eid)
        else:
            raise Unsupported('assignment target')

    def s_AugAssign(self, s, eid):
        from . import lib
        tgt = s.target
        if isinstance(tgt, ast.Name):
            old = self.lookup(eid, tgt.id)
            self.assign(tgt, lib.inplace(self, s.op, old, self.ev(s.value, eid)), eid)
        elif isinstance(tgt, ast.Attribute):
            o = self.ev(tgt.value, eid)
            old = self.getattr(o, tgt.attr)
            v = lib.inplace(self, s.op, old, self.ev(s.value, eid))
            self.setattr(o, tgt.attr, v)
        elif isinstance(tgt, ast.Subscript):
            o = self.ev(tgt.value, eid)
            i = self.ev_index(tgt.slice, eid)
            old = lib.getitem(self, o, i)
            lib.setitem(self, o, i, lib.inplace(self, s.op, old, self.ev(s.value, eid)))
        else:
            raise Unsupported('augmented assignment')

    def s_Delete(self, s, eid):
        from . import lib
        for t in s.targets:
            if isinstance(t, ast.Attribute):
                self.delattr(self.ev(t.value, eid), t.attr)
            elif isinstance(t, ast.Subscript):
                lib.delitem(self, self.ev(t.value, eid), self.ev_index(t.slice, eid))
            elif isinstance(t, ast.Name):
                self.state.envs[eid].pop(t.id, None)
            else:
                raise Unsupported('del')

    def cond(self, node, eid):
        return self.branch(self.truth(self.ev(node, eid)))

    def s_If(self, s, eid):
        if self.cond(s.test, eid):
            self.exec(s.body, eid)
        else:
            self.exec(s.orelse, eid)

    def s_Break(self, s, eid):
        raise BreakEx()

    def s_Continue(self, s, eid):
        raise ContinueEx()

    def s_Assert(self, s, eid):
        if not self.cond(s.test, eid):
            self.throw('AssertionError')

    def s_Global(self, s, eid):
        sc = dict(self.state.envs[eid].get('#scope') or {})
        for n in s.names:
            sc[n] = 'global'
        self.state.envs[eid]['#scope'] = sc

    def s_Nonlocal(self, s, eid):
        sc = dict(self.state.envs[eid].get('#scope') or {})
        for n in s.names:
            p = self.state.envpar[eid][0]
            while p is not None and n not in self.state.envs[p]:
                p = self.state.envpar[p][0]
            if p is None:
                raise Unsupported('nonlocal')
            sc[n] = p
        self.state.envs[eid]['#scope'] = sc

    def s_Raise(self, s, eid):
        if s.exc is None:
            cur = self.state.extra.get('current_exc')
            if cur is None:
                self.throw('RuntimeError')
            raise Raise(cur)
        v = self.ev(s.exc, eid)
        e = self.entry(v)
        if isinstance(e, (Cls, Ext)):
            v = self.call(v, [], {})
        if s.cause is not None:
            self.ev(s.cause, eid)
        raise Raise(v)

    def s_Try(self, s, eid):
        pending = None
        try:
            try:
                self.exec(s.body, eid)
            except Raise as r:
                if not self.handle(s, r, eid):
                    raise
            else:
                self.exec(s.orelse, eid)
        except (Raise, ReturnEx, BreakEx, ContinueEx) as p:
            pending = p
        self.exec(s.finalbody, eid)
        if pending is not None:
            raise pending

    def handle(self, s, r, eid):
        for h in s.handlers:
            if h.type is None:
                ok = True
            else:
                ok = self.exc_match(r.value, self.ev(h.type, eid))
            if ok:
                if h.name:
                    self.assign_name(eid, h.name, r.value)
                prev = self.state.extra.get('current_exc')
                self.state.extra['current_exc'] = r.value
                try:
                    self.exec(h.body, eid)
                finally:
                    self.state.extra['current_exc'] = prev
                return True
        return False

    def class_names(self, t):
        """Names of the classes given as second argument of isinstance or in an except clause."""
        items = self.untup(t)
        if items is None:
            items = [t]
        out = []
        for x in items:
            e = self.entry(x)
            if isinstance(e, (Cls, Ext)):
                out.append(e.qual)
            elif ctor(x) in ('nil', 'cons'):
                out += self.class_names(x)
            else:
                raise Unsupported('class expected, got %s' % x)
        return out

    def exc_match(self, v, t):
        for n in self.class_names(t):
            if n == 'builtins.IOError':
                n = 'builtins.OSError'
            if self.isinstance(v, n):
                return True
        return False

    def s_With(self, s, eid):
        self.with_items(s.items, s.body, eid)

    def with_items(self, items, body, eid):
        if not items:
            self.exec(body, eid)
            return
        it = items[0]
        cm = self.ev(it.context_expr, eid)
        v = self.call(self.getattr(cm, '__enter__'), [], {})
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, eid)
        exit_ = self.getattr(cm, '__exit__')
        pending = None
        try:
            self.with_items(items[1:], body, eid)
        except Raise as r:
            res = self.call(exit_, [self.mkfn(Ext('exc.type')), r.value, self.mkfn(Ext('exc.tb'))], {})
            if self.branch(self.truth(res)):
                return
            raise r
        except (ReturnEx, BreakEx, ContinueEx) as p:
            pending = p
        self.call(exit_, [NONE, NONE, NONE], {})
        if pending is not None:
            raise pending

    def s_Import(self, s, eid):
        for a in s.names:
            t = self.import_name(a.name)
            if a.asname:
                self.assign_name(eid, a.asname, t)
            else:
                top = a.name.split('.')[0]
                self.assign_name(eid, top, self.import_name(top))

    def s_ImportFrom(self, s, eid):
        module = s.module or ''
        if s.level:
            cur = self.state.envpar[eid][1]
            m = self.modules[cur]
            parts = cur.split('.')
            if not m.path.endswith('__init__.py'):
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            module = '.'.join(parts + ([module] if module else []))
        if module == '__future__':
            return
        base = self.import_name(module)
        e = self.entry(base)
        for a in s.names:
            if isinstance(e, Mod):
                if a.name in e.env:
                    v = e.env[a.name]
                elif self.modpath(module + '.' + a.name):
                    v = self.import_name(module + '.' + a.name)
                else:
                    self.throw('ImportError', self.const(a.name))
            else:
                if (module, a.name) in self.import_errors or module in self.import_errors:
                    self.throw('ImportError', self.const(a.name))
                v = self.ext(module + '.' + a.name)
            self.assign_name(eid, a.asname or a.name, v)

    import_errors = frozenset(['phased.utils'])

    def ext(self, dotted):
        """A member of an external module: a modelled value, or an opaque external entity."""
        t = self.ext_terms.get(dotted)
        return t(self) if t is not None else self.mkfn(Ext(dotted))

    def s_FunctionDef(self, s, eid):
        fn = self.make_fn(s, eid, s.name)
        t = self.mkfn(fn)
        for d in reversed(s.decorator_list):
            dt = self.ev(d, eid)
            t = self.decorate(dt, t)
        self.assign_name(eid, s.name, t)

    def decorate(self, dt, t):
        e = self.entry(dt)
        if isinstance(e, Ext):
            if e.name == 'builtins.property':
                return self.mkfn(Prop(get=t))
            if e.name == 'builtins.staticmethod':
                return self.mkfn(StaticM(t))
            if e.name == 'builtins.classmethod':
                return self.mkfn(ClassM(t))
        if isinstance(e, Meth) and e.kind == 'prop':
            p = self.entry(e.self_)
            q = Prop(p.get, p.set, p.delete)
            f = self.entry(t)
            if isinstance(f, Fn) and e.name in ('setter', 'deleter') and '<locals>' not in f.key:
                f.key += '.' + e.name
            if e.name == 'setter':
                q.set = t
            elif e.name == 'deleter':
                q.delete = t
            elif e.name == 'getter':
                q.get = t
            return self.mkfn(q)
        return self.call(dt, [t], {})

    def make_fn(self, node, eid, name):
        mod = self.state.envpar[eid][1]
        par = None if eid in self.modenvs else eid
        q = name
        cl = self.state.envs[eid].get('#class')
        if cl:
            q = cl + '.' + name
            par = self.state.envpar[eid][0]
            if par in self.modenvs:
                par = None
        elif self.curfn:
            q = self.curfn[-1].qual + '.<locals>.' + name
        a = node.args
        defaults = [self.ev(d, eid) for d in a.defaults]
        kwd = [None if d is None else self.ev(d, eid) for d in a.kw_defaults]
        fn = Fn(node, par, mod, q, defaults, kwd)
        fn.clsname = (mod + '.' + cl) if cl else None
        fn.defenv = par
        return fn

    def s_ClassDef(self, s, eid):
        mod = self.state.envpar[eid][1]
        bases = [self.entry(self.ev(b, eid)) for b in s.bases]
        if not bases:
            bases = [Ext('builtins.object')]
        par = eid if eid not in self.modenvs else eid
        ceid = self.new_env(eid, mod, {'#class': s.name})
        self.exec(s.body, ceid)
        attrs = {k: v for k, v in self.state.envs[ceid].items() if not k.startswith('#')}
        cls = Cls(s.name, mod, bases, attrs)
        cls.mro = self.c3(cls)
        t = self.mkfn(cls, ('cls', cls.qual))
        if not hasattr(self, '_clsmap'):
            self._clsmap = {}
        self._clsmap[cls.qual] = cls
        for k, v in attrs.items():
            self.own_fn(v, cls, k)
        for d in reversed(s.decorator_list):
            t = self.decorate(self.ev(d, eid), t)
        self.assign_name(eid, s.name, t)

    def defined_in_module(self, v, e, mod):
        m = self.modules.get(mod)
        x = m.env.get(e.qual) if m is not None else None
        return x is not None and x.eq(v)

    def own_fn(self, v, cls, k, suffix=''):
        e = self.entry(v)
        if isinstance(e, (StaticM, ClassM)):
            self.own_fn(e.func, cls, k)
        elif isinstance(e, Prop):
            for nm, f in (('', e.get), ('.setter', e.set), ('.deleter', e.delete)):
                if f is not None:
                    self.own_fn(f, cls, k, nm)
        elif isinstance(e, Fn) and not self.defined_in_module(v, e, cls.module):
            e.key = cls.qual + '.' + k + suffix
            e.owner = cls.qual

    def c3(self, cls):
        def mro(c):
            if isinstance(c, Cls):
                return list(c.mro) if c.mro else None
            if c.name == 'builtins.object':
                return [c]
            pc = self.pyclass(c.name)
            if pc:
                return [Ext('builtins.' + k.__name__) for k in pc.__mro__]
            return [c, Ext('builtins.object')]
        seqs = [mro(b) for b in cls.bases] + [list(cls.bases)]
        out = [cls]
        seqs = [list(x) for x in seqs if x]
        while any(seqs):
            seqs = [x for x in seqs if x]
            for x in seqs:
                h = x[0]
                if not any(any(y.qual == h.qual for y in z[1:]) for z in seqs):
                    break
            else:
                raise Unsupported('inconsistent MRO')
            out.append(h)
            seqs = [[y for y in z if y.qual != h.qual] for z in seqs]
        return out

    def s_For(self, s, eid):
        from . import loops
        loops.for_stmt(self, s, eid)

    def s_While(self, s, eid):
        from . import loops
        loops.while_stmt(self, s, eid)

    # ---- expressions -------------------------------------------------------
    def ev(self, n, eid):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(n).__name__)
        return m(n, eid)

    def e_Constant(self, n, eid):
        return self.const(n.value)

    def e_Name(self, n, eid):
        return self.lookup(eid, n.id)

    def e_Attribute(self, n, eid):
        return self.getattr(self.ev(n.value, eid), n.attr)

    def ev_index(self, s, eid):
        if isinstance(s, ast.Slice):
            lo = self.ev(s.lower, eid) if s.lower else NONE
            hi = self.ev(s.upper, eid) if s.upper else NONE
            st = self.ev(s.step, eid) if s.step else NONE
            return ('slice', lo, hi, st)
        return self.ev(s, eid)

    def e_Subscript(self, n, eid):
        from . import lib
        return lib.getitem(self, self.ev(n.value, eid), self.ev_index(n.slice, eid))

    def e_Tuple(self, n, eid):
        if any(isinstance(x, ast.Starred) for x in n.elts):
            from . import lib
            out = []
            for x in n.elts:
                if isinstance(x, ast.Starred):
                    it = lib.concrete_items(self, self.ev(x.value, eid))
                    if it is None:
                        raise Unsupported('opaque star in a tuple')
                    out += it
                else:
                    out.append(self.ev(x, eid))
            return self.tup(out)
        return self.tup([self.ev(x, eid) for x in n.elts])

    def e_List(self, n, eid):
        from . import lib
        l = ListC()
        for x in n.elts:
            if isinstance(x, ast.Starred):
                l = l.extend(lib.segs_of(self, self.ev(x.value, eid)))
            else:
                l = l.append(self.ev(x, eid))
        return self.new_listc(l)

    def e_Set(self, n, eid):
        return self.new_set([self.ev(x, eid) for x in n.elts])

    def e_Dict(self, n, eid):
        from . import lib
        d = self.new_dict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                lib.dict_update(self, d, self.ev(v, eid))
            else:
                kk = self.ev(k, eid)
                self.dict_put(d, kk, self.ev(v, eid))
        return d

    def e_BoolOp(self, n, eid):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, x in enumerate(n.values):
            v = self.ev(x, eid)
            if i == len(n.values) - 1:
                return v
            t = self.branch(self.truth(v))
            if isand and not t:
                return v
            if not isand and t:
                return v
        return v

    def e_UnaryOp(self, n, eid):
        v = self.ev(n.operand, eid)
        if isinstance(n.op, ast.Not):
            return V.boo(Not(self.truth(v)))
        if isinstance(n.op, ast.USub):
            from . import lib
            return V.num(z3.simplify(-lib.num(self, v)))
        if isinstance(n.op, ast.UAdd):
            return v
        raise Unsupported('unary operator')

    def e_BinOp(self, n, eid):
        from . import lib
        return lib.binop(self, n.op, self.ev(n.left, eid), self.ev(n.right, eid))

    def e_Compare(self, n, eid):
        from . import lib
        left = self.ev(n.left, eid)
        res = None
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, eid)
            f = lib.compare(self, op, left, right)
            if len(n.ops) == 1:
                return V.boo(f)
            if not self.branch(f):
                return V.boo(FALSE)
            left = right
        return V.boo(TRUE)

    def e_IfExp(self, n, eid):
        return self.ev(n.body, eid) if self.cond(n.test, eid) else self.ev(n.orelse, eid)

    def e_Lambda(self, n, eid):
        return self.mkfn(self.make_fn(n, eid, '<lambda>'))

    def e_NamedExpr(self, n, eid):
        v = self.ev(n.value, eid)
        self.assign(n.target, v, eid)
        return v

    def e_Call(self, n, eid):
        if isinstance(n.func, ast.Name) and n.func.id == 'super':
            f = self.lookup(eid, 'super')
            if isinstance(self.entry(f), Ext):
                return self.make_super(n, eid)
        f = self.ev(n.func, eid)
        fe = self.entry(f)
        lazy = isinstance(fe, Ext) and fe.name in ('builtins.map', 'builtins.filter')
        if isinstance(fe, Ext) and fe.name in ('builtins.any', 'builtins.all') and len(n.args) == 1 and not n.keywords \
                and isinstance(n.args[0], ast.GeneratorExp):
            from . import loops
            return loops.quantify(self, n.args[0], eid, fe.name == 'builtins.all')
        if n.args and (isinstance(fe, Meth) or isinstance(fe, Ext) and fe.name in DRAINS):
            self.drained.add(id(n.args[-1]))
        args, kwargs = self.ev_args(n, eid)
        if lazy and id(n) not in self.drained:
            raise Unsupported('an iterator consumed later')
        if isinstance(fe, Ext) and fe.name in ('builtins.locals', 'builtins.globals'):
            return self.scope_dict(fe.name, eid)
        return self.call(f, args, kwargs)

    def scope_dict(self, name, eid):
        if name == 'builtins.globals':
            mod = self.state.envpar[eid][1]
            env = self.modules[mod].env
        else:
            env = self.state.envs[eid]
        return self.new_dict([(self.const(k), v) for k, v in env.items() if not k.startswith('#')])

    def make_super(self, n, eid):
        if n.args:
            c = self.entry(self.ev(n.args[0], eid))
            return self.mkfn(Super(c.qual, self.ev(n.args[1], eid)))
        fn = self.curfn[-1]
        a = fn.node.args.args
        return self.mkfn(Super(fn.owner or fn.clsname, self.lookup(eid, a[0].arg)))

    def ev_args(self, n, eid):
        from . import lib
        args, kwargs = [], {}
        for x in n.args:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, eid)
                items = lib.concrete_items(self, v)
                if items is None:
                    args.append(Star(v))
                else:
                    args += items
            else:
                args.append(self.ev(x, eid))
        for k in n.keywords:
            v = self.ev(k.value, eid)
            if k.arg is None:
                cc = self.state.conc.get(v.get_id())
                if cc is None:
                    kwargs['**'] = Star(v, True)
                else:
                    for q in cc[1]:
                        kwargs[self.pystr(q)] = self.dict_get(v, q)
            else:
                kwargs[k.arg] = v
        return args, kwargs

    def e_JoinedStr(self, n, eid):
        from . import lib
        parts = []
        for x in n.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                parts.append(self.ev(x.value, eid))
        return lib.template(self, parts)

    def e_Starred(self, n, eid):
        raise Unsupported('starred expression')

    def e_ListComp(self, n, eid):
        from . import loops
        return loops.comprehension(self, n, eid, 'list')

    def e_SetComp(self, n, eid):
        from . import loops
        return loops.comprehension(self, n, eid, 'set')

    def e_DictComp(self, n, eid):
        from . import loops
        return loops.comprehension(self, n, eid, 'dict')

    def e_GeneratorExp(self, n, eid):
        from . import loops
        if id(n) in self.drained:
            return loops.comprehension(self, n, eid, 'iter')
        raise Unsupported('a generator consumed later')


def eq_old(a, b):
    """Equality, using that values of the pre-state differ from objects allocated since."""
    r = _eq(a, b)
    if z3.is_true(r) or z3.is_false(r):
        return r
    for x, y in ((a, b), (b, a)):
        if ctor(x) in ('ref', 'sk', 'fn') and is_old(y):
            return FALSE
        if ctor(x) == 'own' and ctor(y) is None and z3.is_app(y) and y.decl().name() == 'ELEM0':
            return FALSE                  # a container owned by a field is no element of another one
        if ctor(x) == 'ref' and ctor(y) is None and z3.is_app(y) and y.decl().kind() == z3.Z3_OP_ITE:
            pass
    return r


def has_ref(t):
    todo, seen = [t], set()
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e):
            if e.decl().name() == 'ref':
                return True
            todo.extend(e.children())
    return False


def is_old(t):
    c = ctor(t)
    if c is None:
        return z3.is_app(t) and t.decl().name() in OLD_DECLS
    if c == 'own':
        return True
    return False


def walk_own(node):
    """Nodes of a function body excluding nested functions."""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def _patched_eq(a, b):
    return eq_old(a, b)


Engine.eq = lambda self, a, b: eq_old(a, b)
import dv.state as _st  # noqa: E402
_st.eq = eq_old
