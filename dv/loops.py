"""Loops: concrete unrolling, pointwise summarisation, explicit invariants."""
import z3
from .terms import V, NONE, NIL, TRUE, FALSE, And, Or, Not, Implies, If, ctor, subst, contains, rewrite
from .state import Dom, ListC, GMap, Unsupported, NotPointwise
from .engine import Explorer, BreakEx, ContinueEx, ReturnEx, Raise, PathEnd, ANY, NONE_T, eq_old

MAXUNROLL = 64


def for_stmt(eng, s, eid):
    import ast
    from . import lib
    if isinstance(s.iter, ast.GeneratorExp):
        return for_generated(eng, s, eid)
    through = None
    if isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and len(s.iter.args) == 2 and \
            getattr(eng.entry(eng.ev(s.iter.func, eid)), 'name', None) == 'builtins.map':
        through, it = [eng.ev(a, eid) for a in s.iter.args]     # elements are made in between the iterations
    else:
        it = eng.ev(s.iter, eid)
    segs = lib.iterate(eng, it)

    def body(v):
        eng.assign(s.target, v if through is None else eng.call(through, [v], {}), eid)
        eng.exec(s.body, eid)
    if run(eng, segs, body, node=s, eid=eid) != 'break':
        eng.exec(s.orelse, eid)


def for_generated(eng, s, eid):
    """A loop over a generator expression: its elements are evaluated in between the iterations."""
    def each(v):
        eng.assign(s.target, v, eid)
        eng.exec(s.body, eid)
    if drive(eng, s.iter, eid, each, s) != 'break':
        eng.exec(s.orelse, eid)


def drive(eng, n, eid, each, node=None):
    """Run the body on every element of a generator expression as it is made."""
    from . import lib
    ceid = eng.new_env(eid, eng.state.envpar[eid][1], {})

    def gen(i):
        if i == len(n.generators):
            return each(eng.ev(n.elt, ceid))
        g = n.generators[i]
        segs = lib.iterate(eng, eng.ev(g.iter, eid if i == 0 else ceid))

        def body(v):
            eng.assign(g.target, v, ceid)
            for c in g.ifs:
                if not eng.cond(c, ceid):
                    return
            gen(i + 1)
        if run(eng, segs, body, node=node if len(n.generators) == 1 else None, eid=eid) == 'break':
            if i:
                raise BreakEx()
            return 'break'
    return gen(0)


def while_stmt(eng, s, eid):
    spec = find_spec(eng, s)
    if spec is not None:
        r = spec(eng, s, eid)
        if r != 'break':
            eng.exec(s.orelse, eid)
        return
    for chain in eng.state.extra.get('chains', ()):
        before = eng.state.copy()
        try:
            if walk(eng, s, eid, chain) != 'break':
                eng.exec(s.orelse, eid)
            return
        except NotPointwise:
            eng.state = before
    n = 0
    while eng.cond(s.test, eid):
        n += 1
        if n > 12:
            raise Unsupported('while loop without an invariant')
        try:
            eng.exec(s.body, eid)
        except BreakEx:
            return
        except ContinueEx:
            continue
    eng.exec(s.orelse, eid)


class Chain(object):
    """The objects from a start along a link, which leads to None after finitely many steps: at(0) .. at(n-1)."""

    def __init__(self, eng, start, link, alt):
        k = eng.uid('chain')
        name = 'CHAIN%d' % k
        self.start, self.n = start, z3.Int('chainlen%d' % k)
        self.f = eng.decl(name, z3.IntSort(), V)
        from .engine import OLD_DECLS
        eng.decl_ty[name] = (NONE_T, alt)
        OLD_DECLS.add(name)
        i = z3.Int('ci%d' % k)
        at = self.f(i)
        ok = And(i >= 0, i < self.n)
        eng.assume(And(self.n >= 0, self.f(0) == start, self.f(self.n) == NONE))
        eng.assume(z3.ForAll([i], Implies(ok, V.is_opq(at)), patterns=[at]))
        nx = link(at)
        eng.assume(z3.ForAll([i], Implies(ok, nx == self.f(i + 1)), patterns=[nx]))

    def dom(self, eng):
        i = z3.Int('cx!%d' % eng.uid('cx'))
        return Dom(i, And(i >= 0, i < self.n), self.f(i), self.n)


def walk(eng, s, eid, chain):
    """A loop that visits the objects of a chain: whatever holds its start steps along the link."""
    def body(v):
        if not eng.cond(s.test, eid):
            if s.orelse:
                raise NotPointwise('a walk that ends early')
            raise BreakEx()
        eng.exec(s.body, eid)
    if pointwise(eng, chain.dom(eng), body, chain) == 'break':
        return 'break'
    if eng.cond(s.test, eid):
        try:
            eng.exec(s.body, eid)
        except BreakEx:
            return 'break'
        except ContinueEx:
            pass
        raise NotPointwise('a walk that goes on')


def find_spec(eng, node):
    if eng.loop_specs is None:
        return None
    return eng.loop_specs(eng, node)


def comprehension(eng, n, eid, kind):
    from . import lib
    ceid = eng.new_env(eid if eid not in eng.modenvs else eid, eng.state.envpar[eid][1], {})
    if kind == 'set':
        acc = eng.new_set([])
    elif kind == 'dict':
        acc = eng.new_dict()
    else:
        acc = eng.new_list(kind=kind)

    def gen(i):
        if i == len(n.generators):
            if kind == 'dict':
                k = eng.ev(n.key, ceid)
                eng.dict_put(acc, k, eng.ev(n.value, ceid))
            elif kind == 'set':
                v = eng.ev(n.elt, ceid)
                lib.set_add(eng, acc, v)
            else:
                v = eng.ev(n.elt, ceid)
                eng.setlist(acc, rawlist(eng, acc).append(v))
            return
        g = n.generators[i]
        segs = lib.iterate(eng, eng.ev(g.iter, eid if i == 0 else ceid))

        def body(v):
            eng.assign(g.target, v, ceid)
            for c in g.ifs:
                if not eng.cond(c, ceid):
                    return
            gen(i + 1)
        run(eng, segs, body)
    gen(0)
    return acc


def observable(before, after):
    """Whether an evaluation emitted events or wrote to what existed before."""
    return after.trace is not before.trace or any(after.g[k] is not m for k, m in before.g.items())


def quantify(eng, n, eid, isall):
    """any(...) or all(...) over a generator expression: elements are evaluated until one decides."""
    from . import lib
    before = eng.state.copy()
    try:
        acc = comprehension(eng, n, eid, 'iter')
        after = eng.state
        if not observable(before, after):
            out = []
            for kind, s in lib.iterate(eng, acc):
                if kind == 'v':
                    out.append(eng.truth(s))
                else:
                    c = eng.truth_pure(s.val)
                    out.append(z3.ForAll([s.x], Implies(s.guard, c)) if isall else z3.Exists([s.x], And(s.guard, c)))
            if not observable(before, eng.state):
                return V.boo(And(*out) if isall else Or(*out))
    except (Raise, NotPointwise, Unsupported):
        pass
    eng.state = before

    def each(v):
        if eng.branch(eng.truth(v)) != isall:
            raise BreakEx()
    done = drive(eng, n, eid, each) == 'break'
    return V.boo(TRUE if done != isall else FALSE)


def rawlist(eng, c):
    """List content without the poison check (append only)."""
    return eng.getlist(c)


def run(eng, segs, body, node=None, eid=None):
    """Run body over the segments of an iteration plan. Returns 'break' when broken out of."""
    for kind, s in segs:
        if kind == 'v':
            try:
                body(s)
            except ContinueEx:
                pass
            except BreakEx:
                return 'break'
        else:
            spec = None
            if node is not None:
                spec = find_spec(eng, node)
            if spec is not None:
                r = spec(eng, s, body)
            else:
                before = eng.state.copy()
                try:
                    r = pointwise(eng, s, body)
                except NotPointwise:
                    if not s.indexed:
                        raise
                    eng.state = before
                    r = peeled(eng, s, body)
            if r == 'break':
                return 'break'
    return None


def peeled(eng, dom, body):
    """The first iteration by itself, then the others."""
    if not eng.branch(dom.length >= 1):
        return None
    try:
        body(dom.at(z3.IntVal(0))[1])
    except ContinueEx:
        pass
    except BreakEx:
        return 'break'
    n = dom.length - 1
    v = subst(dom.val, [(dom.x, dom.x + 1)])
    return pointwise(eng, Dom(dom.x, And(dom.x >= 0, dom.x < n), v, n), body)


# ---- pointwise summarisation -------------------------------------------------
class Result(object):
    def __init__(self, kind, state, value=None):
        self.kind, self.state, self.value = kind, state, value


def loopvar(eng, dom):
    x = z3.Const('x!%d' % eng.uid('x'), dom.x.sort())
    n = dom.x.decl().name()
    if n in eng.decl_ty:
        eng.decl_ty[x.decl().name()] = eng.decl_ty[n]
    from .engine import OLD_DECLS
    if n in OLD_DECLS:
        OLD_DECLS.add(x.decl().name())
    return x


def explore(eng, s0, x, g, v, body):
    """All paths of one iteration, for an arbitrary element."""
    ex = Explorer(eng)
    out = []
    eng.loopvars.append(x)
    saved = eng.state

    def thunk():
        eng.state = s0.copy()
        eng.assume(g, 'br')
        kind, val = 'normal', None
        try:
            body(v)
        except ContinueEx:
            pass
        except BreakEx:
            kind = 'break'
        except ReturnEx as r:
            kind, val = 'return', r.value
        except Raise as r:
            kind, val = 'raise', r.value
        out.append(Result(kind, eng.state, val))
    try:
        if eng.feasible_in(s0, g):
            ex.run(thunk)
    finally:
        eng.loopvars.pop()
        eng.state = saved
    return out


def changed(s0, s1):
    """What an iteration modified."""
    g = [k for k in s1.g if k in s0.g and s1.g[k] is not s0.g[k]]
    newg = [k for k in s1.g if k not in s0.g]
    lists = [k for k, (t, l) in s1.lists.items() if k in s0.lists and s0.lists[k][1] is not l]
    envs = []
    for e, vs in s0.envs.items():
        w = s1.envs.get(e, {})
        for n, v in w.items():
            if n.startswith('#'):
                continue
            if n not in vs or (vs[n] is not v and not (vs[n] is not None and v is not None and vs[n].eq(v))):
                envs.append((e, n))
    trace = s1.trace is not s0.trace
    return g, newg, lists, envs, trace


def conds(s0, s1, kind=('br',)):
    return [f for k, f in s1.pc[len(s0.pc):] if k in kind]


def csub(fn, pairs):
    def f(*args):
        ph = [z3.Const('ph!%d' % i, a.sort()) for i, a in enumerate(args)]
        r = fn(*ph)
        return subst(r, list(pairs) + list(zip(ph, args)))
    return f


def invert(eng, e, x, hyp=None):
    """(inverse, recogniser) as functions of y such that e[x]=y iff recogniser(y) and x=inverse(y); or None."""
    if e.eq(x):
        return (lambda y: y), (lambda y: TRUE)
    if not z3.is_app(e):
        return None
    c = ctor(e)
    inner = None
    if c in ('sk', 'own'):
        if contains(e.arg(0), [x]):
            return None
        inner = e.arg(1)
        acc = V.sx if c == 'sk' else V.oo
        rec0 = (lambda y: And(V.is_sk(y), V.st(y) == e.arg(0))) if c == 'sk' else \
            (lambda y: And(V.is_own(y), V.of(y) == e.arg(0)))
    elif c == 'cons':
        # a tuple determines x when one of its components does
        for i, (acc, arg) in enumerate(((V.hd, e.arg(0)), (V.tl, e.arg(1)))):
            r = invert(eng, arg, x, hyp)
            if r is not None:
                inv, rec = r
                other = e.arg(1 - i)
                oacc = (V.tl, V.hd)[i]

                def rec2(y, inv=inv, rec=rec, acc=acc, other=other, oacc=oacc):
                    z = inv(acc_of(acc, y))
                    return And(V.is_cons(y), rec(acc_of(acc, y)),
                               acc_of(oacc, y) == subst(other, [(x, z)]))
                return (lambda y, inv=inv, acc=acc: inv(acc_of(acc, y))), rec2
        return None
    elif c == 'num' and x.sort() == z3.IntSort() and e.arg(0).eq(z3.ToReal(x)):
        return (lambda y: z3.ToInt(V.nv(y))), (lambda y: And(V.is_num(y), z3.IsInt(V.nv(y))))
    elif c == 'num' and x.sort() == z3.IntSort():
        for sign in (1, -1):
            k = z3.simplify(e.arg(0) - sign * z3.ToReal(x), som=True)
            if not contains(k, [x]):
                return (lambda y: z3.ToInt(sign * (V.nv(y) - k))), \
                    (lambda y: And(V.is_num(y), z3.IsInt(sign * (V.nv(y) - k))))
        return None
    elif e.num_args() == 1 and e.decl().name() in eng.inverses:
        gi, rec = eng.inverses[e.decl().name()]
        inner = e.arg(0)
        acc = gi
        rec0 = rec
    elif e.num_args() == 1 and hyp is not None and e.decl().name() in eng.cond_inverses:
        # injective where a condition on the argument holds
        gi, pre, rec = eng.cond_inverses[e.decl().name()]
        if implied(eng, hyp, pre(e.arg(0))):
            inner = e.arg(0)
            acc = gi
            rec0 = rec
    if inner is None:
        return None
    r = invert(eng, inner, x, hyp)
    if r is None:
        return None
    inv, rec = r
    return (lambda y: inv(acc_of(acc, y))), (lambda y: And(rec0(y), rec(acc_of(acc, y))))


def implied(eng, hyp, f):
    s = z3.SimpleSolver()
    s.set('timeout', 1000)
    s.set('smt.mbqi', False)
    for a in eng.axioms:
        s.add(a)
    for h in eng.pcs():
        s.add(h)
    s.add(hyp, Not(f))
    return s.check() == z3.unsat


def acc_of(acc, y):
    """Apply an accessor, simplifying on constructor terms."""
    r = acc(y)
    if ctor(y) is not None:
        return z3.simplify(r) if ctor(y) in ('sk', 'own', 'cons', 'num') else r
    return rewrite(r)


def pointwise(eng, dom, body, chain=None):
    eng.uid('loop')
    s0 = eng.state.copy()
    x = loopvar(eng, dom)
    g, v = dom.at(x)
    res = explore(eng, s0, x, g, v, body)
    if not res:
        return None
    mg, ml, me, mt = set(), set(), set(), False
    for r in res:
        a, newg, l, e, t = changed(s0, r.state)
        follows = r.kind == 'normal'        # an iteration that leaves the loop is not followed by another one
        if follows:
            mg.update(a)
            ml.update(l)
            me.update(e)
            mt = mt or t
        for n in newg:
            # maps first touched inside the loop: give them their base in s0
            base = eng.base_map(n)
            s0.g[n] = base
            eng.state.g.setdefault(n, base)
            if r.state.g[n] is not base and follows:
                mg.add(n)
        for k, (tt, ll) in r.state.lists.items():
            if k not in s0.lists and not contains(tt, [x]) and not local_to_loop(tt, x):
                raise_if = eng.base_list
                s0.lists[k] = (tt, eng.base_list(tt))
                eng.state.lists.setdefault(k, s0.lists[k])
                if len(s0.lists[k][1].segs) != len(ll.segs) and follows:
                    ml.add(k)
    ind = Induction(eng, dom, x, chain)
    if mg or ml or me or mt:
        tg = {n: targets(res, s0, n, x, eng) for n in mg}
        ind.find(s0, res, tg, me)
        for _ in range(4):
            p0 = s0.copy()
            for n in mg:
                p0.g[n] = p0.g[n].poison(ind.rest(n, tg[n]), x, g)
            for k in ml:
                p0.lists[k] = (p0.lists[k][0], ListC((), True))
            for e, n in me:
                p0.envs[e][n] = None
            if mt:
                p0.trace = ListC((), True)
            ind.set(p0, x)
            res = explore(eng, p0, x, g, v, body)
            ind.check(p0, res)
            if not all(ind.isolated(n, p0, res) for n in mg):
                raise NotPointwise('places a loop counts with')
            more = {n: ind.rest(n, targets(res, p0, n, x, eng)) for n in p0.g}
            if all(covered(tg.get(n, ()), m) for n, m in more.items()):
                break
            tg = {n: None if tg.get(n, ()) is None or m is None else list(tg.get(n, ())) + m for n, m in more.items()
                  if n in tg or m != []}
            mg.update(tg)
        else:
            raise NotPointwise('places a loop writes')
    else:
        p0 = s0
    normals = [r for r in res if r.kind == 'normal']
    exits = [r for r in res if r.kind != 'normal']
    if exits:
        for r in normals:
            if effects(eng, p0, r, x, ml, mt, ind):
                raise NotPointwise('loop with an early exit whose other iterations have effects')
        ec = Or(*[And(*conds(p0, r.state)) for r in exits])
        b = eng.fresh('exit', z3.BoolSort())
        if eng.branch(b):
            w = eng.fresh('xs', x.sort(), old=False)
            n = x.decl().name()
            if n in eng.decl_ty:
                eng.decl_ty[w.decl().name()] = eng.decl_ty[n]
            from .engine import OLD_DECLS
            if n in OLD_DECLS:
                OLD_DECLS.add(w.decl().name())
            gw, vw = dom.at(w)
            eng.assume(gw)
            ind.set(eng.state, w)
            if dom.indexed:
                j = z3.Int('j!%d' % eng.uid('j'))
                eng.assume(z3.ForAll([j], Implies(And(j >= 0, j < w), Not(subst(ec, [(x, j)])))))
            try:
                body(vw)
            except ContinueEx:
                pass
            except BreakEx:
                return 'break'
            raise PathEnd()
        eng.assume(z3.ForAll([x], Implies(g, Not(ec))))
        if not normals:
            # every element exits: the domain must be empty
            eng.assume(z3.ForAll([x], Not(g)))
        apply_locals(eng, p0, normals, x, me)
        ind.set(eng.state, dom.length)
        return None
    apply_effects(eng, p0, normals, x, dom, ml, mt, ind)
    apply_locals(eng, p0, normals, x, me)
    ind.set(eng.state, dom.length)
    return None


class Induction(object):
    """What every iteration over a sequence changes in a known way: a number by a step (start + step * index),
    the current object of a walk to the next one of the chain."""

    def __init__(self, eng, dom, x, chain=None):
        self.eng, self.on, self.x = eng, dom.indexed and x.sort() == z3.IntSort(), x
        self.places, self.locals, self.chain = {}, {}, chain

    def __bool__(self):
        return bool(self.places or self.locals)

    def find(self, s0, res, tg, me):
        normals = [r for r in res if r.kind == 'normal']
        if not self.on or not normals:
            return
        for n, ts in tg.items():
            for place, own in ts or ():
                if own or any(contains(a, [self.x]) for a in place) or len(place) != arity(normals, s0, n):
                    continue
                at = self.step(self.settled(value(s0, n, place)), [value(r.state, n, place) for r in normals])
                if at is not None:
                    self.places[n, tuple(a.get_id() for a in place)] = (n, place, at)
        for e, n in me:
            at = self.step(s0.envs[e].get(n), [r.state.envs.get(e, {}).get(n) for r in normals])
            if at is not None:
                self.locals[e, n] = at

    def settled(self, v):
        from . import lib
        return v if v is None else lib.simplify_under(self.eng, v, TRUE, None)

    def step(self, v0, vs):
        """The value as a function of the index, or None."""
        if self.chain is not None and v0 is not None and v0.eq(self.chain.start):
            return self.chain.f
        if v0 is None or ctor(v0) != 'num' or any(v is None or ctor(v) != 'num' for v in vs):
            return None
        ds = [z3.simplify(v.arg(0) - v0.arg(0), som=True) for v in vs]
        d = ds[0]
        if not z3.is_rational_value(d) or d.denominator_as_long() != 1 or not all(e.eq(d) for e in ds):
            return None
        d = d.numerator_as_long()
        if d == 0:
            return None
        return lambda x: V.num(z3.simplify(v0.arg(0) + d * z3.ToReal(x), som=True))

    def set(self, st, x):
        for n, place, at in self.places.values():
            m = st.g[n] if n in st.g else self.eng.base_map(n)
            st.g[n] = m.put(place, at(x))
        for (e, n), at in self.locals.items():
            if e in st.envs:
                st.envs[e][n] = at(x)

    def rest(self, n, ts):
        if not self.places or ts is None:
            return ts
        return [t for t in ts if (n, tuple(a.get_id() for a in t[0])) not in self.places]

    def check(self, p0, res):
        for r in res:
            if r.kind != 'normal':
                continue
            for n, place, at in self.places.values():
                self.follows(p0, r, value(r.state, n, place), at)
            for (e, n), at in self.locals.items():
                self.follows(p0, r, r.state.envs.get(e, {}).get(n), at)
        return True

    def follows(self, p0, r, v, at):
        want = at(self.x + 1)
        if v is not None and z3.simplify(v).eq(z3.simplify(want)):
            return
        if v is None or self.chain is None or not implied(self.eng, And(*[f for k, f in r.state.pc]), v == want):
            raise NotPointwise('a count kept in an unsteady way')

    def isolated(self, n, p0, res):
        """No other update of the map could reach the places counted with."""
        ps = [p for p in self.places.values() if p[0] == n]
        if not ps:
            return True
        for r in res:
            base, m = p0.g.get(n), r.state.g.get(n)
            if m is base or r.kind != 'normal':
                continue
            for op in m.ops_since(base) or ():
                for _, place, _ in ps:
                    if self.ours(n, op):
                        continue
                    c = op.a(*place) if op.kind == 'region' else And(*[self.eng.eq(a, b) for a, b in zip(op.a, place)])
                    if not z3.is_false(z3.simplify(c)):
                        return False
        return True

    def ours(self, n, op):
        return op.kind == 'put' and (n, tuple(a.get_id() for a in op.a)) in self.places


def value(st, n, place):
    try:
        v = st.g[n].get(*place)
    except NotPointwise:
        return None
    return z3.simplify(v) if ctor(v) == 'num' else v


def arity(results, s0, n):
    """Number of arguments of a map, as seen in an update."""
    for r in results:
        m = r.state.g.get(n)
        if m is None or m is s0.g.get(n):
            continue
        for op in m.ops_since(s0.g[n]) or ():
            if op.kind == 'put':
                return len(op.a)
    return None


def targets(res, p0, n, x, eng):
    """The places of a map the iterations write: (arguments or the object alone, is it a place of its own?); None: unknown."""
    out = []
    base = p0.g.get(n)
    for r in res:
        if r.kind != 'normal':
            continue
        m = r.state.g.get(n)
        if base is None or m is None or m is base:
            continue
        ops = m.ops_since(base)
        if ops is None:
            return None
        for op in ops:
            if op.kind == 'put':
                own = any(a.sort() == V and contains(a, [x]) and invert(eng, a, x, pathcond(p0, r)) is not None for a in op.a)
                t = (tuple(op.a), own)
            else:
                o = getattr(op.a, 'target', None)
                if o is None:
                    o = getattr(op.a, 'family', None)
                if o is None:
                    return None
                t = ((o,), False)
            if not any(same_place(t, u) for u in out):
                out.append(t)
    return out


def same_place(t, u):
    return len(t[0]) == len(u[0]) and (u[1] <= t[1]) and all(a.eq(b) for a, b in zip(t[0], u[0]))


def covered(known, new):
    if known is None:
        return True
    if new is None:
        return False
    return all(any(same_place(t, u) for u in known) or ctor(t[0][0]) == 'sk' for t in new)


def local_to_loop(t, x):
    return contains(t, [x])


def effects(eng, p0, r, x, ml, mt, ind):
    """Does a path modify anything but objects allocated in the iteration and locals?"""
    for n in r.state.g:
        base = p0.g.get(n)
        if base is None or r.state.g[n] is base:
            continue
        for op in r.state.g[n].ops_since(base):
            if op.kind == 'put' and ctor(op.a[0]) == 'sk' or ind.ours(n, op):
                continue
            if op.kind == 'region' and getattr(op.a, 'fresh', False):
                continue
            return True
    for k in ml:
        if len(r.state.lists[k][1].segs):
            return True
    if mt and len(r.state.trace.segs):
        return True
    return False


def pathcond(p0, r):
    return And(*conds(p0, r.state))


def apply_facts(eng, p0, r, x):
    c = pathcond(p0, r)
    for k, f in r.state.pc[len(p0.pc):]:
        if k == 'as':
            body = Implies(c, f)
            if contains(body, [x]):
                eng.assume(z3.ForAll([x], body))
            else:
                eng.assume(z3.Implies(c, f))


def apply_effects(eng, p0, normals, x, dom, ml, mt, ind):
    for r in normals:
        apply_facts(eng, p0, r, x)
    names = set()
    for r in normals:
        for n in r.state.g:
            if n in p0.g and r.state.g[n] is not p0.g[n]:
                names.add(n)
    for n in sorted(names):
        summarise_map(eng, n, p0, normals, x, ind)
    for k in sorted(ml):
        t, l = eng.state.lists[k]
        eng.state.lists[k] = (t, l.extend(summarise_list(eng, p0, normals, x, dom,
                                                         lambda r: r.state.lists[k][1])))
        # the list may be in the table under a pre-state key
    if mt:
        eng.state.trace = eng.state.trace.extend(summarise_list(eng, p0, normals, x, dom, lambda r: r.state.trace))
    # contents of lists allocated inside the iteration are dropped (unreachable unless stored)
    for r in normals:
        for k, (t, l) in r.state.lists.items():
            if k not in eng.state.lists and contains(t, [x]):
                if E_is_old(t):
                    if not pristine(eng, l, t):
                        raise NotPointwise('each iteration changes a list of its own')
                    continue
                eng.state.lists[k] = (t, l)
    for k in list(eng.state.conc):
        t, keys = eng.state.conc[k]
        for r in normals:
            if k not in r.state.conc or r.state.conc[k][1] is not keys:
                eng.state.conc.pop(k, None)
                break


def pristine(eng, l, t):
    """Is this the content the list had before?"""
    b = eng.base_list(t)
    if l.poisoned or len(l.segs) != len(b.segs):
        return False
    for (kind, s), (kb, sb) in zip(l.segs, b.segs):
        if kind != kb:
            return False
        if kind == 'v':
            if not s.eq(sb):
                return False
        elif s.length is None or not s.length.eq(sb.length) or s.x.sort() != sb.x.sort() or \
                not all(p.eq(q) for p, q in zip(s.at(sb.x), sb.at(sb.x))):
            return False
    return True


def summarise_list(eng, p0, normals, x, dom, get):
    per = [(pathcond(p0, r), get(r).segs) for r in normals]
    if all(len(s) == 0 for _, s in per):
        return []
    if dom.indexed and all(len(s) == 1 and s[0][0] == 'v' for _, s in per):
        val = per[-1][1][0][1]
        for c, s in reversed(per[:-1]):
            val = If(c, s[0][1], val)
        i = z3.Int('i!%d' % eng.uid('li'))
        g, _ = dom.at(i)
        return [('d', Dom(i, g, subst(val, [(x, i)]), dom.length))]
    if all(len(s) <= 1 and all(k == 'v' for k, _ in s) for _, s in per):
        # at most one element per iteration: one filtered run
        some = [(c, s[0][1]) for c, s in per if s]
        val = some[-1][1]
        for c, v in reversed(some[:-1]):
            val = If(c, v, val)
        per = [(Or(*[c for c, _ in some]), (('v', val),))]
    out = []
    for c, segs in per:
        for kind, s in segs:
            if kind != 'v':
                raise NotPointwise('nested runs in a list')
            y = z3.Const('%s' % ('y!%d' % eng.uid('ly')), x.sort())
            n = x.decl().name()
            if n in eng.decl_ty:
                eng.decl_ty[y.decl().name()] = eng.decl_ty[n]
            from .engine import OLD_DECLS
            if n in OLD_DECLS:
                OLD_DECLS.add(y.decl().name())
            out.append(('d', Dom(y, subst(c, [(x, y)]), subst(s, [(x, y)]), None)))
    return out


def summarise_map(eng, name, p0, normals, x, ind):
    """Merge the updates of all iterations of all paths into region updates."""
    base = p0.g[name]
    todo = []          # (condition, op)
    multi = False
    for r in normals:
        if r.state.g.get(name, base) is base:
            continue
        ops = r.state.g[name].ops_since(base)
        if ops is None:
            raise NotPointwise('map %s reset in the loop' % name)
        c = pathcond(p0, r)
        for op in ops:
            if not ind.ours(name, op):
                todo.extend(split(eng, c, op, x))
    summ = []
    loose = []
    for c, op in todo:
        r = invertible(eng, c, op, x)
        if r is not None:
            summ.append(r)
        else:
            loose.append((c, op))
    for cond, val in summ:
        eng.gregion(name, cond, val)
    if not loose:
        return
    def elsewhere(op):
        t = target_of(op)
        return t is not None and not contains(t, [x])
    if summ and loose and not (all(getattr(c, 'fresh', False) for c, _ in summ) and all(elsewhere(op) for _, op in loose)):
        # a mixture could depend on the order of iterations
        raise NotPointwise('mixed updates of ' + name)
    # all loose updates write the same iteration-independent value?
    consts = []
    for c, op in loose:
        if op.kind == 'put':
            consts.append(op.b if not contains(op.b, [x]) else None)
        else:
            k = const_region(op, x)
            consts.append(k)
    if all(k is not None for k in consts) and all(k.eq(consts[0]) for k in consts):
        k0 = consts[0]

        def cond(*args):
            out = []
            for c, op in loose:
                if op.kind == 'put':
                    m = And(*[eng.eq(a, b) for a, b in zip(args, op.a)])
                else:
                    m = op.a(*args)
                out.append(z3.Exists([x], And(c, m)))
            return Or(*out)
        cond = hygienic(cond, x)
        cond.sorts = sorts_of(loose[0][1])
        ts = [target_of(op) for _, op in loose]
        if ts[0] is not None and not contains(ts[0], [x]) and all(t is not None and t.eq(ts[0]) for t in ts):
            cond.target = ts[0]
        val = lambda *args: k0
        val.const = k0
        eng.gregion(name, cond, val)
        return
    if key_determined(eng, name, loose, x):
        return
    if len(loose) == 1:
        c, op = loose[0]
        witness_region(eng, name, [(c, op)], x)
        return
    witness_region(eng, name, loose, x)


def split(eng, c, op, x, depth=4):
    """An update of a place given by a conditional term: one update per alternative."""
    if op.kind == 'put' and depth:
        for j, a in enumerate(op.a):
            if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE and a.sort() == V and contains(a, [x]):
                out = []
                for g, v in ((a.arg(0), a.arg(1)), (Not(a.arg(0)), a.arg(2))):
                    if implied(eng, c, Not(g)):
                        continue
                    args = op.a[:j] + (v,) + op.a[j + 1:]
                    out.extend(split(eng, And(c, g), GMap('put', op.parent, args, op.b, name=op.name), x, depth - 1))
                return out
    return [(c, op)]


def key_determined(eng, name, loose, x):
    """Every iteration that writes a place writes the same value there: the value is a function of the key."""
    gen, j0 = None, None
    for c, op in loose:
        if op.kind != 'put' or not z3.is_expr(op.b):
            return False
        js = [j for j, a in enumerate(op.a) if contains(a, [x])]
        if len(js) != 1 or op.a[js[0]].eq(x) or (j0 is not None and js[0] != j0):
            return False
        j0 = js[0]
        ph = z3.Const('kd!', op.a[j0].sort())
        b = subst(op.b, [(op.a[j0], ph)])
        if contains(b, [x]) or (gen is not None and not gen.eq(b)):
            return False
        gen = b

    def cond(*args):
        return Or(*[z3.Exists([x], And(c, *[eng.eq(a, b) for a, b in zip(args, op.a)])) for c, op in loose])

    def val(*args):
        return subst(gen, [(z3.Const('kd!', args[j0].sort()), args[j0])])
    eng.gregion(name, hygienic(cond, x), val)
    return True


def hygienic(fn, x):
    """Guard against capture of the loop constant by arguments that mention it."""
    def f(*args):
        ph = [z3.Const('ph!%d' % i, a.sort()) for i, a in enumerate(args)]
        return subst(fn(*ph), list(zip(ph, args)))
    return f


def const_region(op, x):
    arity = getattr(op.b, 'arity', None)
    v = getattr(op.b, 'const', None)
    if v is not None and not contains(v, [x]):
        return v
    return None


def invertible(eng, c, op, x):
    if op.kind == 'put':
        best = None
        from . import lib
        for j, a in enumerate(op.a):
            if a.sort() == V and contains(a, [x]):
                a = lib.simplify_under(eng, a, c, x)
            r = invert(eng, a, x, c)
            if r is not None:
                best = (j, r)
                break
        if best is None:
            return None
        j, (inv, rec) = best

        def cond(*args):
            z = inv(args[j])
            out = [rec(args[j])]
            for i, a in enumerate(op.a):
                if i != j:
                    out.append(eng.eq(args[i], subst(a, [(x, z)])))
            out.append(subst(c, [(x, z)]))
            return And(*out)

        def val(*args):
            return subst(op.b, [(x, inv(args[j]))])
        return nested(eng, op, op.a[0], cond, val)
    # region made by an inner loop or a contract: may declare how it determines x
    inv = getattr(op.a, 'inverse', None)
    if inv is not None:
        r = inv(x, c)
        if r is not None:
            return r
    # a region about a single object: cond is eq(arg0, t) with t invertible
    tgt = getattr(op.a, 'target', None)
    if tgt is not None:
        r = invert(eng, tgt, x)
        if r is not None:
            inv, rec = r

            def cond(*args):
                z = inv(args[0])
                return And(rec(args[0]), subst(c, [(x, z)]), csub(op.a, [(x, z)])(*args))

            def val(*args):
                return csub(op.b, [(x, inv(args[0]))])(*args)
            return nested(eng, op, tgt, cond, val)
    return None


def target_of(op):
    return op.a[0] if op.kind == 'put' else getattr(op.a, 'target', None)


def sorts_of(op):
    return tuple(a.sort() for a in op.a) if op.kind == 'put' else getattr(op.a, 'sorts', None)


def nested(eng, op, tgt, cond, val):
    """Should the loop be inside another one: how a place, an object of one of its iterations, determines the outer iteration."""
    cond.fresh = ctor(tgt) == 'sk'
    cond.family = tgt if tgt.sort() == V else None       # one of these objects, for some iteration of the inner loop
    cond.sorts = sorts_of(op)
    cond.constant = const_of(op)
    if cond.constant is not None:
        val.const = cond.constant

    def inverse(xo, co):
        r = invert(eng, tgt, xo)
        if r is None:
            return None
        inv = r[0]

        def cond2(*args):
            z = inv(args[0])
            return And(subst(co, [(xo, z)]), csub(cond, [(xo, z)])(*args))

        def val2(*args):
            return csub(val, [(xo, inv(args[0]))])(*args)
        return nested(eng, op, tgt, cond2, val2)
    cond.inverse = inverse
    return cond, val


def const_of(op):
    if op.kind == 'put':
        return op.b if z3.is_expr(op.b) and (z3.is_true(op.b) or z3.is_false(op.b)) else None
    return getattr(op.b, 'const', None)


def witness_region(eng, name, loose, x):
    """Several iterations may write the same place: the value is that of some iteration that does."""
    wname = 'W_%s!%d' % (name, eng.uid('w'))

    def matches(c, op, args, t):
        if op.kind == 'put':
            m = And(*[eng.eq(a, subst(b, [(x, t)])) for a, b in zip(args, op.a)])
        else:
            m = csub(op.a, [(x, t)])(*args)
        return And(subst(c, [(x, t)]), m)

    def wit(args):
        d = eng.decl(wname, *([a.sort() for a in args] + [x.sort()]))
        return d(*args)

    def cond(*args):
        w = wit(args)
        return Or(*[matches(c, op, args, w) for c, op in loose])

    def val(*args):
        w = wit(args)
        r = None
        for c, op in loose:
            v = subst(op.b, [(x, w)]) if op.kind == 'put' else csub(op.b, [(x, w)])(*args)
            r = v if r is None else If(matches(c, op, args, w), v, r)
        return r
    for c, op in loose:
        if op.kind == 'put':
            args = op.a
            eng.assume(z3.ForAll([x], Implies(c, cond(*args))))
        else:
            sorts = getattr(op.a, 'sorts', None)
            if sorts is None:
                raise NotPointwise('region update of %s depends on the iteration' % name)
            args = [z3.Const('wa!%d' % i, s) for i, s in enumerate(sorts)]
            eng.assume(z3.ForAll([x] + args, Implies(And(c, op.a(*args)), cond(*args))))
    eng.gregion(name, cond, val)


def apply_locals(eng, p0, normals, x, me):
    for e, n in me:
        if e not in eng.state.envs:
            continue
        old = eng.state.envs[e].get(n)
        vals = []
        ok = True
        for r in normals:
            v = r.state.envs[e].get(n)
            if v is None:
                continue
            if contains(v, [x]) or (ctor(v) == 'sk'):
                ok = False
                break
            vals.append((pathcond(p0, r), v))
        if not vals:
            continue
        if ok and all(v.eq(vals[0][1]) for _, v in vals) and old is not None:
            c = Or(*[z3.Exists([x], c) for c, _ in vals])
            eng.state.envs[e][n] = If(c, vals[0][1], old)
        else:
            eng.state.envs[e][n] = None


def _feasible_in(self, st, g):
    saved = self.state
    self.state = st
    try:
        return self.feasible(g)
    finally:
        self.state = saved


from .engine import Engine, is_old as E_is_old  # noqa: E402
Engine.feasible_in = _feasible_in
