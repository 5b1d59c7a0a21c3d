"""Contracts: specifications on the real functions, used in call mode and checked in verify mode."""
import ast
import json
import os
import time
import traceback
import z3
from .terms import V, NONE, NIL, TRUE, FALSE, And, Or, Not, Implies, If, ctor, subst, contains
from .state import State, GMap, Dom, ListC, Unsupported, NotPointwise
from .engine import (Engine, Explorer, Raise, PathEnd, Fn, Cls, Ext, Bound, Meth, Partial, View, Star, Prop, StaticM,
                     ClassM, OLD_DECLS, ANY, eq_old, is_old)
from . import lib, loops

B = z3.BoolSort()


class SpecFn(object):
    """A callable described by a specification (compared with the actual closure by running both)."""

    def __init__(self, spec, params):
        self.spec, self.params = spec, params

    def __call__(self, eng, args, kwargs):
        c = Ctx(eng, 'call', None)
        return self.spec(c, *args, **kwargs)


class Witness(object):
    pass


class Ctx(object):
    """What a specification sees."""

    def __init__(self, eng, mode, run):
        self.eng = eng
        self.mode = mode         # 'call' or 'verify'
        self.run = run

    # -- reading and writing the state
    def field(self, o, f):
        return self.eng.type_assume(self.eng.getfield(o, f))

    def setfield(self, o, f, v):
        self.eng.setfield(o, f, v)

    def hasfield(self, o, f):
        return self.eng.hasfield(o, f)

    def has(self, d, k):
        return self.eng.dict_has(d, k)

    def item(self, d, k):
        v = self.eng.gmap('VAL').get(d, k)
        v = lib.simplify_under(self.eng, v, TRUE, None)
        return self.eng.type_assume(v)

    def put(self, d, k, v):
        self.eng.dict_put(d, k, v)

    def remove(self, d, k):
        lib.dict_del(self.eng, d, k)

    def mem(self, s, y):
        return lib.memfn(self.eng, s)(y)

    def g(self, name, *args):
        return self.eng.gmap(name).get(*args)

    def gput(self, name, args, v):
        self.eng.gput(name, args, v)

    def gregion(self, name, cond, val):
        self.eng.gregion(name, cond, val)

    def branch(self, f):
        return self.eng.branch(f)

    def truth(self, t):
        return self.eng.branch(self.eng.truth(t))

    def isinstance(self, t, *cnames):
        return any(self.eng.isinstance(t, n) for n in cnames)

    def eq(self, a, b):
        return self.eng.eq(a, b)

    def is_(self, a, b):
        return self.eng.branch(lib.equal(self.eng, a, b, True))

    def const(self, v):
        return self.eng.const(v)

    def new(self, cname, **fields):
        o = self.eng.alloc(('obj', cname, True))
        for k, v in fields.items():
            self.eng.setfield(o, k, v)
        return o

    def dict(self, items=()):
        return self.eng.new_dict(list(items))

    def raise_(self, cname, *args):
        raise Raise(self.eng.exc(cname, list(args)))

    def throw(self, cname, *args):
        """Raise an exception made by its real constructor."""
        raise Raise(self.eng.call(fn_term(self.eng, cname), list(args), {}))

    def event(self, name, *args):
        return self.eng.event(name, list(args))

    def call(self, f, args=(), kwargs=None):
        return self.eng.call(f, list(args), dict(kwargs or {}))

    def method(self, o, name, *args, **kw):
        return self.eng.call(self.eng.getattr(o, name), list(args), kw)

    def fn(self, dotted):
        return fn_term(self.eng, dotted)

    def now(self):
        return self.eng.handlers['time.time'](self.eng, [], {})

    def foreach(self, t, f, view=None):
        """f(element) for every element, summarised as the loops of the code are."""
        from . import loops
        eng = self.eng
        if view:
            t = eng.call(eng.getattr(t, view), [], {})

        def body(v):
            if view == 'items':
                f(*lib.unpack(eng, v, 2))
            else:
                f(v)
        loops.run(eng, lib.iterate(eng, t), body)

    def chain(self, start, link, alt):
        """The finite chain from an object along a link; loops of the code that follow it are inductions over it."""
        from . import loops
        ch = loops.Chain(self.eng, start, link, alt)
        ex = self.eng.state.extra
        ex['chains'] = ex.get('chains', ()) + (ch,)
        return ch

    def walk(self, ch, f):
        from . import loops
        loops.run(self.eng, [('d', ch.dom(self.eng))], f)

    def tup(self, items):
        return self.eng.tup(list(items))

    def list(self, items=()):
        return self.eng.new_list(list(items))

    def getattr(self, o, name):
        return self.eng.getattr(o, name)

    def builtin(self, name, *args, **kw):
        return self.eng.handlers['builtins.' + name](self.eng, list(args), kw)

    def op(self, name, a, b):
        return lib.binop(self.eng, name, a, b)

    def callable(self, spec, params=()):
        return self.eng.mkfn(SpecFn(spec, params))

    def fresh(self, name, ty=ANY):
        return self.eng.param(name, ty, old=False)

    # -- assumptions / obligations of the specification
    def require(self, f, label='requires'):
        """Precondition: assumed when verifying the body, proved at every call."""
        if self.mode == 'call':
            if self.eng.obligation is not None:
                self.eng.obligation('%s:%s' % (self.run or '', label), f)
        else:
            self.eng.assume(f)

    def choose(self, name, sort, witness):
        """A value the specification leaves open; witness(c, outcome) picks the actual one in verify mode."""
        if self.mode == 'call':
            return self.eng.fresh(name, sort)
        with self.final():
            return witness(self)

    def final(self):
        return _Final(self)

    def determined(self, label, *inputs):
        """The result, left open, but a function of these inputs (and constants of the process) only."""
        out = self.run.outcome
        if out[0] != 'ret':
            raise PathEnd() if False else Unsupported('exception where a value is expected')
        allowed = {z3.simplify(t).get_id() for t in inputs}
        seen, todo, bad = set(), [out[1]], None
        while todo:
            e = todo.pop()
            if e.get_id() in seen or e.get_id() in allowed:
                continue
            seen.add(e.get_id())
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and \
                    not e.decl().name().startswith(('fmt:', 'pure:')):
                bad = e
            todo.extend(e.children())
        self.run.goal(label, bad is None)
        if bad is not None:
            self.run.obls[-1].detail += ' depends on %s' % bad
        return out[1]

    def ensure(self, label, f):
        """A postcondition: f() is a formula over the current state; assumed by callers, proved for the body."""
        if self.mode == 'call':
            self.eng.assume(f())
        else:
            with self.final():
                g = f()
            self.run.goal(label, g)


class _Final(object):
    def __init__(self, c):
        self.c = c

    def __enter__(self):
        self.saved = self.c.eng.state
        s1 = self.c.run.S1
        s = s1.copy()
        s.pc = self.saved.pc
        s.counter = max(s.counter, self.saved.counter)
        self.c.eng.state = s

    def __exit__(self, *a):
        st = self.c.eng.state
        self.saved.pc = st.pc
        self.saved.counter = max(st.counter, self.saved.counter)
        self.saved.facts = {**st.facts, **self.saved.facts}
        self.c.eng.state = self.saved
        return False


def fn_term(eng, dotted):
    """Term of a module member given by dotted name."""
    parts = dotted.split('.')
    for i in range(len(parts) - 1, 0, -1):
        mod = '.'.join(parts[:i])
        if eng.modpath(mod):
            eng.import_name(mod)
            m = eng.modules[mod]
            t = m.env.get(parts[i])
            if t is None:
                raise Unsupported('no %s in %s' % (parts[i], mod))
            if len(parts) == i + 1:
                return t
            cls = eng.entry(t)
            if not isinstance(cls, Cls):
                raise Unsupported('%s is not a class' % dotted)
            nm = parts[i + 1]
            kind = parts[i + 2] if len(parts) > i + 2 else None
            for c in cls.mro:
                if isinstance(c, Cls) and nm in c.attrs:
                    a = c.attrs[nm]
                    e = eng.entry(a)
                    if isinstance(e, Prop):
                        return {'setter': e.set, 'deleter': e.delete}.get(kind, e.get)
                    if isinstance(e, (StaticM, ClassM)):
                        return e.func
                    return a
            raise Unsupported('no %s in %s' % (nm, parts[i]))
    raise Unsupported('unknown ' + dotted)


class Contract(object):
    """spec(c, **params) is the abstract program; params gives types for verify mode."""

    def __init__(self, key, spec, params=(), props=None, pre=None, setup=None, views=None, trace=True,
                 ignore=(), call_mode=True, star=None, verify=True, inline=(), maps=None, rep=None, order=False,
                 doc=None, frame=True, env=None, name=None, assumes=(), loops=None, ret=None, channels=None, run=None):
        self.key, self.spec, self.params = key, spec, list(params)
        self.ident = key + (':' + name if name else '')
        self.assumes, self.loops = tuple(assumes), loops
        self.props = props or {}
        self.pre, self.setup, self.views = pre, setup, views or {}
        self.trace, self.ignore, self.call_mode = trace, set(ignore), call_mode
        self.verify, self.inline, self.rep = verify, set(inline), rep
        self.order = order
        self.doc = doc
        self.frame = frame
        self.env = env
        self.channels = channels or {}   # event name -> channel; events of different channels commute
        self.run = run           # run(c, function, **params): several calls of real functions, instead of one
        self.ret = ret           # 'truth': only the truth value of the result is specified

    def all_props(self):
        out = set()
        for v in self.props.values():
            out.update(v)
        return out

    def apply(self, eng, fn, args, kwargs):
        env = eng.bindargs(fn, args, kwargs)
        c = Ctx(eng, 'call', self.key)
        names = [n for n, _ in self.params] if self.params else None
        if names is not None:
            env = {n: env[n] for n in names}
        if self.pre is not None:
            self.pre(c, **env)
        return self.spec(c, **env)


# ---- verification of one function -------------------------------------------------
class Obl(object):
    __slots__ = ('name', 'label', 'status', 'time', 'backend', 'detail', 'props')

    def __init__(self, name, label, status, t=0.0, backend='', detail='', props=()):
        self.name, self.label, self.status, self.time = name, label, status, t
        self.backend, self.detail, self.props = backend, detail, props


class Enough(Exception):
    pass


class Run(object):
    """One verification of one function against its contract."""

    def __init__(self, eng, contract, timeout=8000, deep=False):
        self.eng, self.contract = eng, contract
        self.obls = []
        self.failures = {}
        self.timeout = timeout
        self.path = 0
        self.paths = 0
        self.unsupported = []
        self.deep = deep
        self.S1 = None
        self.outcome = None
        self.omitted = None

    def goal(self, label, g):
        """Discharge pc => g."""
        eng = self.eng
        g = g if z3.is_expr(g) else z3.BoolVal(bool(g))
        name = '%s#%d:%s' % (self.contract.key, self.path, label)
        t0 = time.time()
        if z3.is_true(z3.simplify(g)):
            self.obls.append(Obl(name, label, 'proved', 0.0, 'simplifier'))
            return
        # a label that has already failed is not worth a long search for another counterexample
        again = 400 if self.failures.get(label) else None
        status, backend, detail = prove(eng.axioms + eng.pcs(), g, self.timeout, again)
        self.obls.append(Obl(name, label, status, time.time() - t0, backend, detail))
        if status == 'failed':
            self.failures[label] = self.failures.get(label, 0) + 1
            if sum(self.failures.values()) >= (12 if set(self.contract.props) <= {'*'} else 100):
                raise Enough()

    def verify(self):
        eng = self.eng
        c = self.contract
        base = eng.state
        ex = Explorer(eng)
        saved_inline, saved_contracts = eng.inline, eng.contracts
        eng.contracts = dict(saved_contracts)
        eng.inline = saved_inline | {c.key} | c.inline
        eng.obligation = lambda label, g: self.goal(label, g)

        def thunk():
            eng.state = base.copy()
            eng.curfn = []
            eng.depth = 0
            self.one_path()
        try:
            ex.run(thunk)
            for n, v in sorted(self.changed_defaults().items()):
                # the meaning of leaving the argument out: as the contract says for the value that stood for it
                self.omitted = (n, v)
                Explorer(eng).run(thunk)
        except Enough:          # failed, and further failures say nothing new
            pass
        except Unsupported as u:
            self.unsupported.append('%s: %s' % (type(u).__name__, u))
            if eng_debug[0]:
                traceback.print_exc()
        finally:
            eng.state = base
            eng.inline, eng.contracts = saved_inline, saved_contracts
            eng.obligation = None
            eng.explorers = []
            eng.loopvars = []
        if not self.obls and not self.unsupported:
            self.unsupported.append('no obligations generated')
        return self

    def one_path(self):
        eng, con = self.eng, self.contract
        ctx = Ctx(eng, 'verify', self)
        eng.setup_env(con)
        args, kwargs = [], {}
        env = {}
        if con.setup is not None:
            env = con.setup(ctx)
        for n, ty in con.params:
            if n in env:
                continue
            if z3.is_expr(ty):
                env[n] = ty
            elif ty[0] == 'self':
                env[n] = eng.param(n, ('obj', ty[1], True))
            else:
                env[n] = eng.param(n, ty)
        if self.omitted is not None:
            env[self.omitted[0]] = eng.const(self.omitted[1])
        if con.pre is not None:
            con.pre(ctx, **env)
        self.env = env
        S0 = eng.state.copy()
        fnt = fn_term(eng, con.key)
        fe = eng.entry(fnt)
        if not isinstance(fe, Fn):
            raise Unsupported('%s is not a plain function' % con.key)
        eng.actual_run = True
        eng.seq = {}
        try:
            if con.run is not None:
                v = con.run(ctx, fnt, **env)
            else:
                v = self.run_body(fe, {n: x for n, x in env.items() if self.omitted is None or n != self.omitted[0]})
            self.outcome = ('ret', v)
        except Raise as r:
            self.outcome = ('exc', r.value)
        S1 = eng.state
        self.S1 = S1
        self.S0 = S0
        if not eng.feasible(TRUE):
            raise PathEnd()
        # expected state
        Es = S0.copy()
        Es.pc = S1.pc
        Es.counter = S1.counter + 1000000
        Es.facts = dict(S1.facts)
        for k, v in S1.extra.items():
            if isinstance(k, tuple) and k[0] == 'ty':
                Es.extra[k] = v
        eng.state = Es
        eng.actual_run = False
        try:
            v = con.spec(ctx, **env)
            expected = ('ret', v)
        except Raise as r:
            expected = ('exc', r.value)
        E = eng.state
        S1.pc = E.pc
        self.paths += 1
        self.path = self.paths
        Compare(self, S0, S1, E, con).run(self.outcome, expected)

    def changed_defaults(self):
        """Parameters whose default is not the one of the reference tree, with the value they had there."""
        con = self.contract
        ref = defaults().get(con.ident, {})
        if con.run is not None or not ref:
            return {}
        fe = self.eng.entry(fn_term(self.eng, con.key))
        now = literal_defaults(fe.node) if isinstance(fe, Fn) else {}
        return {n: v for n, v in ref.items() if n not in now or now[n] != v or type(now[n]) is not type(v)}

    def run_body(self, fe, env):
        eng = self.eng
        a = fe.node.args
        names = [x.arg for x in a.args]
        if set(self.contract_names()) <= set(names + [x.arg for x in a.kwonlyargs] +
                                              ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])):
            e2 = dict(env)
            for i, n in enumerate(names):
                if n not in e2:
                    j = i - (len(names) - len(fe.defaults))
                    if j < 0:
                        if self.omitted is not None and n == self.omitted[0]:
                            eng.throw('TypeError', eng.const('missing argument ' + n))
                        raise Unsupported('parameter %s has no value in the contract' % n)
                    e2[n] = fe.defaults[j]
            return eng.exec_body(fe, e2)
        if self.omitted is not None:
            raise Unsupported('renamed parameters and changed defaults')
        # the parameters were renamed: bind by position
        return eng.exec_fn(fe, [env[n] for n, _ in self.contract.params], {})

    def contract_names(self):
        return [n for n, _ in self.contract.params]


DEFAULTS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'defaults.json')
_defaults = []


def defaults():
    """What an omitted argument of a function under contract means, as on the reference tree."""
    if not _defaults:
        d = {}
        if os.path.exists(DEFAULTS):
            with open(DEFAULTS) as f:
                d = json.load(f)
        _defaults.append(d)
    return _defaults[0]


def literal_defaults(node):
    a = node.args
    names = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
    out = {}
    for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
        if isinstance(d, ast.Constant) and (d.value is None or isinstance(d.value, (bool, int, float, str))):
            out[n] = d.value
    return out


eng_debug = [False]


def skolem(eng, sort, tag='o'):
    n = 'sk_%s!%d' % (tag, eng.uid('skolem'))
    OLD_DECLS.add(n)
    return z3.Const(n, sort)


class Compare(object):
    """Every component of the actual final state equals the expected one."""

    def __init__(self, run, S0, S1, E, con):
        self.run_, self.eng, self.S0, self.S1, self.E, self.con = run, run.eng, S0, S1, E, con
        self.private = self.eng.fields[1] if self.eng.fields else set()
        self.match = {}      # spec local id -> (spec term, actual term)
        self.back = {}
        self.todo = []
        self.smatch = {}     # sk site -> sk site

    def sub(self, t):
        """Rename spec-local objects in a term of the expected state to the actual ones."""
        if not z3.is_expr(t):
            return t
        pairs = [(a, b) for a, b in self.match.values()]
        t = subst(t, pairs)
        if self.smatch:
            t = self.sub_sites(t)
        return t

    def sub_sites(self, t):
        pairs = []
        seen = set()
        todo = [t]
        while todo:
            e = todo.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if ctor(e) == 'sk' and z3.is_int_value(e.arg(0)):
                n = e.arg(0).as_long()
                if n in self.smatch:
                    pairs.append((e, V.sk(z3.IntVal(self.smatch[n]), e.arg(1))))
            if z3.is_quantifier(e):
                todo.append(e.body())
            else:
                todo.extend(e.children())
        return subst(t, pairs)

    def goal(self, label, g):
        if label in self.con.ignore:
            return
        self.run_.goal(label, g)

    def eadapt(self, name):
        return name

    def actual(self, name):
        v = self.con.views.get(name)
        if v is not None:
            return lambda *a: v(self.eng, self.S1, *a)
        m = self.S1.g.get(name) or self.eng.base_map(name)
        return m.get

    def initial(self, name):
        m = self.S0.g.get(name) or self.eng.base_map(name)
        return m.get

    def expected(self, name):
        m = self.E.g.get(name) or self.eng.base_map(name)
        return m.get

    def run(self, out, exp):
        eng = self.eng
        eng.state = self.E
        if out[0] != exp[0]:
            self.goal('outcome', FALSE)
            self.note(out, exp)
            return
        if out[0] == 'ret' and self.con.ret == 'truth':
            eng.state = self.S1
            ta = eng.truth(out[1])
            eng.state = self.E
            self.goal('return', ta == self.sub(eng.truth(exp[1])))
        elif out[0] == 'ret':
            self.eqv('return', out[1], exp[1])
        else:
            self.exc_eq(out[1], exp[1])
        self.visible()
        self.drain()
        self.visible_values()
        self.drain()
        if self.con.trace:
            ch = sorted(set(self.con.channels.values()))
            if not ch:
                self.lists_eq('trace', self.S1.trace, self.E.trace, base=self.S0.trace)
            for k in ([''] + ch if ch else []):
                self.lists_eq('trace' + (':' + k if k else ''), self.channel(self.S1.trace, k),
                              self.channel(self.E.trace, k))
            self.drain()
            self.moments(ch)

    def drain(self):
        while self.todo:
            a, e, label = self.todo.pop(0)
            self.local(a, e, label)

    def moments(self, ch):
        """Objects passed to an event and modified afterwards: what they contained at the event."""
        for k in ([''] + ch if ch else ['']):
            sa, se = [[(i, s) for i, (kind, s) in enumerate(S.trace.segs) if kind == 'v' and
                       (not ch or self.eng.channel_of(s) == k)] for S in (self.S1, self.E)]
            for (i, a), (j, e) in zip(sa, se):
                xa, xe = self.S1.extra.get('moment', {}).get(i), self.E.extra.get('moment', {}).get(j)
                if xa is None or xe is None or not (modified(self.eng, self.S1, xa) or modified(self.eng, self.E, xe)):
                    continue
                s1, e2 = self.S1.copy(), self.E.copy()
                for st, x in ((s1, xa), (e2, xe)):
                    st.g, st.lists, st.conc = dict(x[0]), dict(x[1]), dict(x[2])
                sub = Compare(self.run_, self.S0, s1, e2, self.con)
                saved, self.run_.S1 = self.run_.S1, s1
                self.eng.state = e2
                sub.lists_eq('trace', ListC((('v', a),)), ListC((('v', e),)))
                sub.drain()
                self.run_.S1 = saved
                self.eng.state = self.E
                self.E.pc = self.S1.pc = e2.pc

    def channel(self, l, k):
        l.check()
        return ListC([(kind, s) for kind, s in l.segs if self.eng.channel_of(s if kind == 'v' else s.val) == k])

    def note(self, out, exp):
        def d(o):
            if o[0] == 'exc':
                return 'raises %s' % (self.eng.base_alts(o[1])[:1],)
            return 'returns %s' % str(o[1])[:80]
        self.run_.obls[-1].detail += ' actual %s; specified %s' % (d(out), d(exp)) if self.run_.obls else ''

    def exc_eq(self, a, e):
        eng = self.eng
        if a.eq(e):
            return
        ka, ke = eng.alts(a), eng.alts(e)
        if ctor(a) in ('ref', 'sk') and ctor(e) in ('ref', 'sk'):
            ok = ka[0][0] == 'obj' and ke[0][0] == 'obj' and \
                (ka[0][1] == ke[0][1] or (getattr(self.con, 'exc_sub', False) and eng.subclass(ka[0][1], ke[0][1])))
            self.goal('exception', TRUE if ok else FALSE)
            if not ok:
                self.run_.obls[-1].detail += ' actual %s; specified %s' % (ka[0][1], ke[0][1])
            if ok and not ka[0][1].startswith('builtins.'):
                self.bind(a, e, 'exception')
            return
        if ctor(e) in ('ref', 'sk') or ctor(a) in ('ref', 'sk'):
            self.goal('exception', FALSE)
            return
        self.goal('exception', eng.eq(a, self.sub(e)))

    def bind(self, a, e, label):
        k = e.get_id()
        if k in self.match:
            self.goal(label, eq_old(a, self.match[k][1]))
            return
        if a.get_id() in self.back:
            self.goal(label + ':aliasing', FALSE)
            return
        self.match[k] = (e, a)
        self.back[a.get_id()] = (a, e)
        self.todo.append((a, e, label))

    def eqv(self, label, a, e, cond=TRUE):
        """a (actual) equals e (expected)."""
        eng = self.eng
        if not z3.is_expr(a) or a.sort() != V:
            self.goal(label, Implies(cond, a == self.sub(e)))
            return
        if a.eq(e) and ctor(a) not in ('fn',) and not has_local(e):
            self.run_.obls.append(Obl('%s#%d:%s' % (self.con.key, self.run_.path, label), label, 'proved', 0.0,
                                      'identical terms'))
            return
        e2 = self.sub(e)
        if a.eq(e2) and ctor(a) != 'fn':
            self.run_.obls.append(Obl('%s#%d:%s' % (self.con.key, self.run_.path, label), label, 'proved', 0.0,
                                      'identical terms'))
            return
        ca, ce = ctor(a), ctor(e)
        if ca is None and is_ite(a) or ce is None and is_ite(e):
            # decide which alternative holds on this path
            if cond is TRUE or z3.is_true(cond):
                a2 = eng.pick(a)
                e2 = eng.pick(e)
                if not (a2.eq(a) and e2.eq(e)):
                    return self.eqv(label, a2, e2, cond)
        if ca == 'ref' and ce == 'ref':
            if not z3.is_true(cond):
                self.goal(label, Implies(cond, a == self.sub(e)))
                return
            self.bind(a, e, label)
            return
        if ca == 'sk' and ce == 'sk':
            na, ne = a.arg(0).as_long(), e.arg(0).as_long()
            if ('tmpl', na) not in eng.sites and ('tmpl', ne) not in eng.sites:
                if ne not in self.smatch:
                    self.smatch[ne] = na
                    self.goal(label, Implies(cond, eq_old(a.arg(1), self.sub(e.arg(1)))))
                    self.todo.append((a, e, label))
                    return
                self.goal(label, Implies(cond, eq_old(a, self.sub(e))))
                return
        if ca == 'cons' and ce == 'cons':
            self.eqv(label, a.arg(0), e.arg(0), cond)
            self.eqv(label, a.arg(1), e.arg(1), cond)
            return
        ea, ee = eng.entry(a), eng.entry(e)
        if isinstance(ee, SpecFn):
            if ea is None and not callable(ea):
                self.goal(label, FALSE)
                return
            self.compare_callable(label, a, e, ee)
            return
        if ea is not None and ee is not None and ca == 'fn' and ce == 'fn':
            if type(ea) is type(ee) and isinstance(ea, Bound):
                self.eqv(label, ea.func, ee.func, cond)
                self.eqv(label, ea.self_, ee.self_, cond)
                return
            if isinstance(ea, View) and isinstance(ee, View) and ea.which == ee.which:
                self.eqv(label, ea.d, ee.d, cond)
                return
            if isinstance(ea, (Cls, Ext)) and isinstance(ee, (Cls, Ext)):
                self.goal(label, TRUE if ea.qual == ee.qual else FALSE)
                return
        if has_local(e):
            self.pair_up(label, a, e)
        f = eq_old(a, self.sub(e))
        if ca in ('ref', 'sk') and ce is None or ce in ('ref', 'sk') and ca is None:
            pass
        self.goal(label, Implies(cond, f))

    # -- whole state
    def names(self):
        out = []
        for n in sorted(set(self.S1.g) | set(self.E.g)):
            a, e, i = self.S1.g.get(n), self.E.g.get(n), self.S0.g.get(n)
            if n in self.con.ignore:
                continue
            if a is e:
                continue
            if n in self.con.views:
                out.append(n)
                continue
            if n.startswith(('F:', 'H:')) and n[2:] in self.private:
                continue
            b = self.eng.base_map(n)
            if (a is None or a is (i or b)) and (e is None or e is (i or b)):
                continue
            out.append(n)
        for n in self.con.views:
            if n not in out and n not in self.con.ignore:
                out.append(n)
        return out

    def concrete_writes(self, g, base):
        ops = g.ops_since(base) if g is not None else []
        return ops

    def visible(self):
        """Match new objects stored in pre-existing places written concretely."""
        eng = self.eng
        for n in self.names():
            if n in self.con.views or n.startswith('H:') or n in ('MEM', 'DOM'):
                continue
            e, a = self.E.g.get(n), self.S1.g.get(n)
            if e is None or a is None:
                continue
            base = self.S0.g.get(n) or eng.base_map(n)
            ops = e.ops_since(base) or []
            seen = []
            for op in ops:
                if op.kind != 'put' or any(has_local(x) for x in op.a):
                    continue
                if any(all(x.eq(y) for x, y in zip(op.a, z)) for z in seen):
                    continue
                seen.append(op.a)
                ev = e.get(*op.a)
                if ctor(ev) == 'fn' and ev.get_id() not in self.match:
                    av = self.eng.pick(a.get(*op.a))
                    if ctor(av) == 'fn' and not av.eq(ev):
                        # two functions that do the same
                        self.match[ev.get_id()] = (ev, av)
                        self.eqv(n, av, ev)
                    continue
                if not has_local(ev):
                    continue
                av = a.get(*op.a)
                hn = self.presence(n)
                if hn is not None:
                    eh = self.expected(hn)(*op.a)
                    if not self.holds(eh):
                        continue
                    ah = self.actual(hn)(*op.a)
                    if not self.holds(ah):
                        continue
                self.eqv(n, av, ev)

    def holds(self, f):
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        st, _, _ = prove(self.eng.axioms + self.eng.pcs(), f, 2000)
        return st == 'proved'

    def presence(self, n):
        if n.startswith('F:'):
            return 'H:' + n[2:]
        if n == 'VAL':
            return 'DOM'
        return None

    def arity(self, n):
        if n.startswith(('F:', 'H:')):
            return (V,)
        if n in ('MEM', 'DOM', 'VAL'):
            return (V, V)
        return self.eng.ghost_sorts[n]

    def visible_values(self):
        eng = self.eng
        for n in self.names():
            sorts = self.arity(n)
            args = [skolem(eng, s) for s in sorts]
            guard = []
            if args[0].sort() == V and n not in eng.ghost_noobj:
                guard += [Not(V.is_ref(args[0])), Not(V.is_sk(args[0])), Not(V.is_fn(args[0]))]
            a = self.actual(n)(*args)
            e = self.expected(n)(*args)
            hn = self.presence(n)
            if hn is not None:
                guard += [self.actual(hn)(*args), self.sub(self.expected(hn)(*args))]
            extra = eng.ghost_guard.get(n)
            if extra is not None:
                guard.append(extra(self, args))
            self.pair_up(n, a, e)
            e = self.sub(e)
            if a.sort() == V:
                self.map_goal(n, And(*guard), a, e)
            else:
                self.goal(n, Implies(And(*guard), a == e))
        # lists that existed before
        keys = []
        for st in (self.S1, self.E):
            for k, (t, l) in st.lists.items():
                if not has_local(t) and not any(t.eq(x) for x in keys):
                    keys.append(t)
        for t in keys:
            la, le = find_list(self.S1, t), find_list(self.E, t)
            l0 = find_list(self.S0, t)
            if la is None or le is None:
                # met under another name of the same list?
                la = la or self.aliased(self.S1, t)
                le = le or self.aliased(self.E, t)
            if la is None or le is None:
                # first touched by one of the two: its content is the initial one there
                la = la or l0
                le = le or l0
                if la is None or le is None:
                    base = eng.base_list(t)
                    la = la or base
                    le = le or base
            if la is le:
                continue
            self.lists_eq('list', la, le)

    def aliased(self, st, t):
        for k, (u, l) in st.lists.items():
            if not has_local(u) and not z3.is_false(eq_old(u, t)) and not loops.pristine(self.eng, l, u) and self.holds(u == t):
                return l
        return None

    def pair_up(self, label, a, e):
        """New objects that occur in two values to be compared are matched when there is one choice."""
        if not z3.is_expr(a) or a.sort() != V:
            return
        kinds = self.eng.kinds
        xs = [t for t in local_refs(a) if t.get_id() not in self.back]
        ys = [t for t in local_refs(e) if t.get_id() not in self.match and t.get_id() not in self.back]
        for y in ys:
            k = kinds[y.arg(0).as_long()][:2]
            same = [x for x in xs if kinds[x.arg(0).as_long()][:2] == k]
            if len(same) == 1 and len([z for z in ys if kinds[z.arg(0).as_long()][:2] == k]) == 1:
                self.bind(same[0], y, label)
        # families of new objects, one per iteration
        sites = self.eng.sites
        xs = [t for t in local_families(a) if t.arg(0).as_long() not in self.smatch.values()]
        ys = [t for t in local_families(e) if t.arg(0).as_long() not in self.smatch]
        for y in ys:
            ky = sites[y.arg(0).as_long()][:2]
            same = [x for x in xs if sites[x.arg(0).as_long()][:2] == ky]
            if len(same) == 1 and len([z for z in ys if sites[z.arg(0).as_long()][:2] == ky]) == 1:
                self.smatch[y.arg(0).as_long()] = same[0].arg(0).as_long()
                self.todo.append((same[0], y, label))

    def map_goal(self, n, guard, a, e):
        self.goal(n, Implies(guard, a == e if not a.eq(e) else TRUE))

    # -- new objects
    def local(self, a, e, label):
        """Contents of an object of the actual run matched with one of the specification."""
        eng = self.eng
        if ctor(a) == 'sk':
            return self.local_sk(a, e, label)
        ka, ke = eng.kinds[a.arg(0).as_long()], eng.kinds[e.arg(0).as_long()]
        if ke[0] != ka[0] and not (ke[0] in ('set', 'fset') and ka[0] in ('set', 'fset') and False):
            self.goal(label + ':kind', FALSE)
            return
        if ke[0] == 'obj':
            self.goal(label + ':class', TRUE if ke[1] == ka[1] else FALSE)
            if ke[1] != ka[1]:
                return
            hidden = set()
            for q in eng.mro_names(ke[1]):
                d = eng.classdefs.get(q)
                if d:
                    hidden |= set(d.get('hidden', ()))
            names = sorted({x[2:] for x in list(self.E.g) + list(self.S1.g) if x.startswith('F:')} - hidden - self.private)
            for f in names:
                ea, ee = self.actual('H:' + f)(a), self.expected('H:' + f)(e)
                ea, ee = z3.simplify(ea), z3.simplify(ee)
                if z3.is_false(ea) and z3.is_false(ee):
                    continue
                if not ea.eq(ee):
                    self.goal(label + '.' + f + ':presence', ea == self.sub(ee))
                    if z3.is_false(ea) or z3.is_false(ee):
                        continue
                self.eqv(label + '.' + f, self.S1.g['F:' + f].get(a) if 'F:' + f in self.S1.g else
                         eng.base_map('F:' + f).get(a), self.expected('F:' + f)(e))
            for n, sorts in eng.ghost_sorts.items():
                if n in self.con.ignore or n in eng.ghost_noobj or sorts[0] != V:
                    continue
                rest = [skolem(eng, s) for s in sorts[1:]]
                x, y = self.actual(n)(a, *rest), self.expected(n)(e, *rest)
                y = self.sub(y)
                if not x.eq(y):
                    g = eng.ghost_guard.get(n)
                    cond = g(self, [a] + rest) if g is not None else TRUE
                    self.goal(label + '.' + n, Implies(cond, x == y))
            return
        if ke[0] in ('set', 'fset'):
            y = skolem(eng, V, 'y')
            self.goal(label + ':elements', self.actual('MEM')(a, y) == self.sub(self.expected('MEM')(e, y)))
            return
        if ke[0] == 'dict':
            ce = self.E.conc.get(e.get_id())
            y = skolem(eng, V, 'y')
            da, de = self.actual('DOM')(a, y), self.sub(self.expected('DOM')(e, y))
            self.goal(label + ':keys', da == de)
            if ce is not None:
                for q in ce[1]:
                    self.eqv(label + '[]', self.actual('VAL')(a, self.sub(q)), self.expected('VAL')(e, q))
                return
            va, ve = self.actual('VAL')(a, y), self.expected('VAL')(e, y)
            self.pair_up(label, va, ve)
            self.goal(label + ':values', Implies(And(da, de), va == self.sub(ve)))
            return
        if ke[0] in ('list', 'iter', 'tuple'):
            la, le = find_list(self.S1, a), find_list(self.E, e)
            self.lists_eq(label + ':items', la if la is not None else ListC(), le if le is not None else ListC())
            return
        raise Unsupported('comparison of new %s' % ke[0])

    def local_sk(self, a, e, label):
        eng = self.eng
        na, ne = a.arg(0).as_long(), e.arg(0).as_long()
        ka, ke = eng.sites[na], eng.sites[ne]
        if ka[0] != ke[0] or (ka[0] == 'obj' and ka[1] != ke[1]):
            self.goal(label + ':kind', FALSE)
            return
        i = skolem(eng, V, 'i')
        A, X = V.sk(z3.IntVal(na), i), V.sk(z3.IntVal(ne), i)
        if ke[0] == 'obj':
            names = sorted({x[2:] for x in list(self.E.g) + list(self.S1.g) if x.startswith('F:')} - self.private)
            for f in names:
                ha, he = self.actual('H:' + f)(A), self.sub(self.expected('H:' + f)(X))
                if z3.is_false(z3.simplify(ha)) and z3.is_false(z3.simplify(he)):
                    continue
                self.goal(label + '.' + f, And(Implies(he, ha), Implies(And(ha, he), self.actual('F:' + f)(A) ==
                                               self.sub(self.expected('F:' + f)(X)))))
            return
        y = skolem(eng, V, 'y')
        if ke[0] in ('set', 'fset'):
            self.goal(label, self.actual('MEM')(A, y) == self.sub(self.expected('MEM')(X, y)))
            return
        if ke[0] == 'dict':
            da, de = self.actual('DOM')(A, y), self.sub(self.expected('DOM')(X, y))
            self.goal(label, And(da == de, Implies(da, self.actual('VAL')(A, y) ==
                                                   self.sub(self.expected('VAL')(X, y)))))
            return
        raise Unsupported('comparison of new objects made in a loop')

    # -- lists
    def lists_eq(self, label, la, le, base=None):
        eng = self.eng
        la.check()
        le.check()
        if la is le:
            return
        sa, se = list(la.segs), list(le.segs)
        # drop the common prefix
        while sa and se and sa[0][0] == se[0][0] and (sa[0][1] is se[0][1]):
            sa.pop(0)
            se.pop(0)
        while sa or se:
            if not sa or not se:
                # remaining runs must be empty
                for kind, s in sa or se:
                    if kind == 'v':
                        self.goal(label + ':length', FALSE)
                        self.run_.obls[-1].detail += ' %s %s' % ('surplus' if sa else 'missing', str(s)[:200])
                        return
                    w = skolem(eng, s.x.sort(), 'w')
                    self.goal(label + ':length', Not(self.sub(s.at(w)[0])))
                return
            (ka, va), (ke, ve) = sa.pop(0), se.pop(0)
            if ka == 'v' and ke == 'v':
                self.eqv(label, va, ve)
            elif ka == 'd' and ke == 'd':
                self.runs_eq(label, va, ve)
            else:
                # a run of one element against a single value
                single, dom, first = (va, ve, True) if ka == 'v' else (ve, va, False)
                if dom.indexed and self.holds(dom.length == 1):
                    x = dom.at(z3.IntVal(0))[1]
                    if first:
                        self.eqv(label, single, x)
                    else:
                        self.eqv(label, x, single)
                else:
                    self.goal(label + ':shape', FALSE)
                    return

    def runs_eq(self, label, a, e):
        eng = self.eng
        if a.x.sort() != e.x.sort():
            raise Unsupported('runs over different index sorts')
        w = skolem(eng, a.x.sort(), 'w')
        n = a.x.decl().name()
        if n in eng.decl_ty:
            eng.decl_ty[w.decl().name()] = eng.decl_ty[n]
        if a.order != e.order or a.indexed != e.indexed and a.x.sort() != z3.IntSort():
            raise Unsupported('ordered run against unordered run')
        if a.indexed and e.indexed:
            self.goal(label + ':length', a.length == self.sub(e.length))
        ga, va = a.at(w)
        ge, ve = e.at(w)
        ge = self.sub(ge)
        self.goal(label, ga == ge)
        self.eqv(label, va, ve, And(ga, ge))


    # -- closures
    def compare_callable(self, label, a, e, spec):
        """Run the actual closure and the specified one from the final states; same effects and results."""
        eng = self.eng
        if not spec.params and spec.params != []:
            args, kwargs = None, None
        pc, counter = eng.state.pc, eng.state.counter
        ps = spec.params
        if callable(ps):
            args, kwargs = ps(Ctx(eng, 'verify', self.run_))
        else:
            args, kwargs = [eng.param('cb%d' % i, t) for i, t in enumerate(ps)], {}
        ctx = Ctx(eng, 'verify', self.run_)
        pc = eng.state.pc
        s1 = self.S1.copy()
        s1.pc, s1.counter = pc, max(self.S1.counter, self.E.counter) + 1000000
        tag = 'cb%d' % eng.uid('cb')
        s1.trace, s1.extra = ListC(), dict(s1.extra, seqtag=tag)
        eng.state = s1
        try:
            out = ('ret', eng.call(a, args, kwargs))
        except Raise as r:
            out = ('exc', r.value)
        s1 = eng.state
        if not eng.feasible(TRUE):
            raise PathEnd()
        e2 = self.E.copy()
        e2.pc, e2.counter = s1.pc, s1.counter + 1000000
        e2.trace, e2.extra = ListC(), dict(e2.extra, seqtag=tag)
        eng.state = e2
        try:
            exp = ('ret', spec.spec(ctx, *[self.unsub(x) for x in args], **kwargs))
        except Raise as r:
            exp = ('exc', r.value)
        e2 = eng.state
        s1.pc = e2.pc
        saved = self.run_.S1
        self.run_.S1 = s1
        sub = Compare(self.run_, self.S0, s1, e2, self.con)
        sub.match, sub.back, sub.smatch = self.match, self.back, self.smatch
        sub.prefix = label
        sub.done = set(self.match)
        sub.run(out, exp)
        self.run_.S1 = saved
        self.E.pc = sub.E.pc
        self.S1.pc = sub.E.pc
        self.E.counter = e2.counter
        eng.state = self.E

    def unsub(self, t):
        return t


def is_ite(t):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE


def modified(eng, st, x):
    """Was an object that existed at that moment modified since?"""
    g, lists, _, last = x

    def there(t):
        return ctor(t) == 'ref' and t.arg(0).as_long() <= last
    for k, (t, l) in st.lists.items():
        if there(t) and (k not in lists or lists[k][1] is not l):
            return True
    for n, m in st.g.items():
        was = g.get(n)
        if m is was:
            continue
        ops = m.ops_since(was if was is not None else eng.base_map(n))
        if ops is None:
            return True
        for op in ops:
            if op.kind == 'put':
                if there(op.a[0]):
                    return True
            else:
                tg = getattr(op.a, 'target', None)
                if tg is None or there(tg):
                    return True
    return False


def find_list(st, t):
    for k, (u, l) in st.lists.items():
        if u.eq(t):
            return l
    return None


def in_value(t):
    """The terms a value may be or contain: alternatives and components."""
    seen, todo = set(), [t]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        yield e
        if is_ite(e):
            todo += [e.arg(1), e.arg(2)]
        elif ctor(e) == 'cons':
            todo += e.children()


def local_refs(t):
    out = [e for e in in_value(t) if ctor(e) == 'ref' and z3.is_int_value(e.arg(0))]
    return sorted(out, key=lambda r: r.arg(0).as_long())


def local_families(t):
    """One term for every place of the program that makes an object per iteration."""
    out = {}
    for e in in_value(t):
        if ctor(e) == 'sk' and z3.is_int_value(e.arg(0)):
            out.setdefault(e.arg(0).as_long(), e)
    return [out[n] for n in sorted(out)]


def has_local(t):
    seen = set()
    todo = [t]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if ctor(e) in ('ref', 'sk'):
            return True
        if z3.is_quantifier(e):
            todo.append(e.body())
        else:
            todo.extend(e.children())
    return False


stats = {'z3': 0, 'z3_time': 0.0, 'cvc5': 0}


def prove(hyps, goal, timeout, timeout2=None):
    """('proved'|'failed'|'timeout', backend, detail)."""
    t0 = time.time()
    goal = z3.simplify(goal)
    s = z3.SimpleSolver()
    s.set('timeout', timeout)
    s.set('smt.mbqi', False)
    s.set('smt.auto_config', False)
    for h in hyps:
        s.add(h)
    s.add(Not(goal))
    r = s.check()
    stats['z3'] += 1
    detail = ''
    if r == z3.unsat:
        stats['z3_time'] += time.time() - t0
        return 'proved', 'z3', ''
    reason = s.reason_unknown() if r == z3.unknown else 'sat'
    s2 = z3.Solver()
    s2.set('timeout', timeout2 or timeout)
    for h in hyps:
        s2.add(h)
    s2.add(Not(goal))
    r2 = s2.check()
    stats['z3_time'] += time.time() - t0
    if r2 == z3.unsat:
        return 'proved', 'z3', ''
    if r2 == z3.sat:
        try:
            detail = 'counterexample: ' + model_text(s2.model())
        except z3.Z3Exception:
            detail = 'sat'
        return 'failed', 'z3', detail
    reason2 = s2.reason_unknown()
    if r == z3.sat or 'incomplete' in reason:
        return 'failed', 'z3', 'not provable: %s / %s' % (reason, reason2)
    return 'timeout', 'z3', 'z3: %s / %s' % (reason, reason2)


def model_text(m):
    out = []
    for d in m.decls():
        n = d.name()
        if n.startswith('k!') or '!val' in n:
            continue
        out.append('%s = %s' % (n, str(m[d]).replace('\n', ' ')[:120]))
        if len(out) > 30:
            break
    return '; '.join(out)
