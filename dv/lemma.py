"""Lemmas: facts about several runs of real functions, or about sequences of contract calls."""
import os
import subprocess
import tempfile
import time
import traceback
import z3
from .terms import V, TRUE, And, Not, Implies, ctor
from .state import Unsupported
from .engine import Explorer, PathEnd, Raise, ANY
from .contract import Ctx, Obl, prove, fn_term, stats, eng_debug


class Lemma(object):
    def __init__(self, key, fn, props, inline=(), env=None, assumes=(), doc=None):
        self.key, self.fn, self.props, self.inline, self.env = key, fn, props, set(inline), env
        self.ident = 'lemma:' + key
        self.assumes, self.doc = tuple(assumes), doc
        self.verify = True

    def all_props(self):
        out = set()
        for v in self.props.values():
            out.update(v)
        return out


class LemmaCtx(Ctx):
    def __init__(self, eng, run):
        Ctx.__init__(self, eng, 'call', 'lemma')
        self.lrun = run

    def param(self, name, ty=ANY):
        return self.eng.param(name, ty)

    def assume(self, f):
        self.eng.assume(f)

    def prove(self, label, f, hyps=()):
        self.lrun.goal(label, f, hyps)

    def real(self, dotted, *args, **kw):
        """Run the function as it is in /repo (contracts of others are used as usual)."""
        return self.eng.call(self.fn(dotted), list(args), kw)

    # -- texts
    def text(self, t):
        """The text a string term denotes, as a z3 string (digests and inputs stay opaque)."""
        eng = self.eng
        t = z3.simplify(t)
        s = eng.pystr(t)
        if s is not None:
            return z3.StringVal(s)
        S = z3.StringSort()
        if z3.is_app(t):
            n = t.decl().name()
            if n in eng.templates:
                lits = eng.templates[n]
                parts = []
                for i, l in enumerate(lits):
                    if l:
                        parts.append(z3.StringVal(l))
                    if i < t.num_args():
                        parts.append(self.text(t.arg(i)))
                return z3.Concat(*parts) if len(parts) > 1 else parts[0]
            if n == 'pure:md5hex':
                h = z3.Function('md5hex', S, S)(self.text(t.arg(0)))
                self.lrun.digests[h.get_id()] = h
                return h
        if ctor(t) == 'num' or any(a[0] == 'num' for a in eng.alts(t)):
            d = z3.Function('digits', z3.RealSort(), S)(V.nv(t))
            self.lrun.numbers[d.get_id()] = d
            return d
        return z3.Function('textof', V, S)(t)

    def text_facts(self):
        """Facts on the opaque parts: digests of equal length without collisions, numbers without separators."""
        out = []
        ds = list(self.lrun.digests.values())
        for i, a in enumerate(ds):
            out.append(z3.Length(a) == 32)
            for b in ds[i + 1:]:
                out.append(Implies(a == b, a.arg(0) == b.arg(0)))
        ns = list(self.lrun.numbers.values())
        for i, a in enumerate(ns):
            out.append(Not(z3.Contains(a, z3.StringVal(':'))))
            for b in ns[i + 1:]:
                out.append(Implies(a == b, a.arg(0) == b.arg(0)))
        return out

    def prove_text(self, label, f, params=()):
        """Prove a formula over texts with cvc5; params are string inputs (equal texts are equal inputs)."""
        T = z3.Function('textof', V, z3.StringSort())
        hyps = self.text_facts()
        for i, a in enumerate(params):
            for b in params[i + 1:]:
                hyps.append(Implies(T(a) == T(b), a == b))
        self.lrun.goal(label, f, hyps, strings=True)


class LemmaRun(object):
    def __init__(self, eng, lemma, timeout=8000, deep=False):
        self.eng, self.lemma, self.timeout, self.deep = eng, lemma, timeout, deep
        self.obls, self.unsupported, self.paths = [], [], 0
        self.digests, self.numbers = {}, {}

    def goal(self, label, g, hyps=(), strings=False):
        eng = self.eng
        g = g if z3.is_expr(g) else z3.BoolVal(bool(g))
        name = '%s#%d:%s' % (self.lemma.ident, self.paths, label)
        t0 = time.time()
        if z3.is_true(z3.simplify(g)):
            self.obls.append(Obl(name, label, 'proved', 0.0, 'simplifier'))
            return
        if strings:
            status, backend, detail = prove_strings(list(hyps), g, self.timeout)
        else:
            status, backend, detail = prove(eng.axioms + eng.pcs() + list(hyps), g, self.timeout)
        self.obls.append(Obl(name, label, status, time.time() - t0, backend, detail))

    def verify(self):
        eng, lem = self.eng, self.lemma
        base = eng.state
        ex = Explorer(eng)
        saved = eng.inline, eng.contracts
        eng.contracts = dict(saved[1])
        eng.inline = saved[0] | lem.inline
        eng.obligation = lambda label, g: self.goal(label, g)

        def thunk():
            eng.state = base.copy()
            eng.curfn = []
            eng.depth = 0
            eng.actual_run = True
            eng.seq = {}
            self.paths += 1
            self.digests, self.numbers = {}, {}
            eng.setup_env(lem)
            try:
                lem.fn(LemmaCtx(eng, self))
            except Raise as r:
                if eng.feasible(TRUE):
                    self.obls.append(Obl('%s#%d:no exception' % (lem.ident, self.paths), 'no exception', 'failed', 0.0,
                                         '', 'raises %s' % (eng.base_alts(r.value)[:1],)))
        try:
            ex.run(thunk)
        except Unsupported as u:
            self.unsupported.append('%s: %s' % (type(u).__name__, u))
            if eng_debug[0]:
                traceback.print_exc()
        finally:
            eng.state = base
            eng.inline, eng.contracts = saved
            eng.obligation = None
            eng.explorers = []
            eng.loopvars = []
        if not self.obls and not self.unsupported:
            self.unsupported.append('no obligations generated')
        return self


def flatten(fs):
    """Replace the opaque texts by constants (every fact needed about them is among the hypotheses)."""
    pairs, seen, todo = [], set(), list(fs)
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.sort() == z3.StringSort() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            pairs.append((e, z3.String('text%d' % len(pairs))))
        todo.extend(e.children())
    # outermost first: an opaque text may contain another one
    pairs.sort(key=lambda p: -len(p[0].sexpr()))
    out = []
    for f in fs:
        for a, b in pairs:
            f = z3.substitute(f, (a, b))
        out.append(f)
    return out


def prove_strings(hyps, goal, timeout):
    t0 = time.time()
    fs = flatten(hyps + [goal])
    hyps, goal = fs[:-1], fs[-1]
    s = z3.Solver()
    s.set('timeout', 500)
    for h in hyps:
        s.add(h)
    s.add(Not(goal))
    r = s.check()
    stats['z3'] += 1
    if r == z3.unsat:
        stats['z3_time'] += time.time() - t0
        return 'proved', 'z3', ''
    fd, path = tempfile.mkstemp(suffix='.smt2')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write('(set-logic ALL)\n(set-option :produce-models true)\n' + s.to_smt2() + '\n(get-model)\n')
        p = subprocess.run(['cvc5', '--strings-exp', '--tlimit=%d' % timeout, path], stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, timeout=timeout / 1000.0 + 30)
        out = p.stdout.decode('utf8', 'replace').strip()
    except subprocess.TimeoutExpired:
        out = 'timeout'
    finally:
        os.unlink(path)
    stats['cvc5'] += 1
    stats['z3_time'] += time.time() - t0
    if out.startswith('unsat'):
        return 'proved', 'cvc5', ''
    if out.startswith('sat') or r == z3.sat:
        return 'failed', 'cvc5', out[:600]
    return 'timeout', 'cvc5', out[:200]
