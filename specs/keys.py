"""Contracts of utils.py and of the record names of dependencies.py."""
from .model import *
from dv import terms
from dv.contract import Contract
from dv.lemma import Lemma

U = D + 'utils.'
ACQ, REL = D + 'dependencies.AcquiredTagState', D + 'dependencies.ReleasedTagState'
KINDS = {'version': 1, 'acquired': 2, 'released': 3}
FUNS = {'version': U + 'make_tag_key', 'acquired': ACQ + '.make_key', 'released': REL + '.make_key'}


def install(eng):
    """Names of the records of a tag: injective, with disjoint ranges (proved by the lemmas below)."""
    if 'record_kind' in getattr(eng, 'installed', ()):
        return
    eng.installed = getattr(eng, 'installed', frozenset()) | {'record_kind'}
    define(eng, 'threading.local', {'thread_id': field(STR, optional=True)})
    kind = eng.decl('record_kind', V, z3.IntSort())
    x, y = z3.Const('x!k', V), z3.Const('y!k', V)
    fs = {k: (n, eng.decl('key_' + k, V, V), eng.decl('tag_of_' + k, V, V)) for k, n in KINDS.items()}
    for k, (n, f, g) in fs.items():
        eng.decl_ty['key_' + k] = (STR,)
        eng.decl_ty['tag_of_' + k] = (STR,)
        OLD_DECLS.update(['key_' + k, 'tag_of_' + k])
        eng.axioms.append(z3.ForAll([x], And(g(f(x)) == x, kind(f(x)) == n, V.is_s(f(x))), patterns=[f(x)]))
        eng.axioms.append(z3.ForAll([y], Implies(kind(y) == n, And(V.is_s(y), f(g(y)) == y)), patterns=[g(y)]))
        eng.cond_inverses['tag_of_' + k] = (f, lambda t, n=n: kind(t) == n, lambda t: TRUE)
        eng.inverses['key_' + k] = (g, lambda t, n=n: kind(t) == n)
        terms.INJECTIVE['key_' + k] = n
        terms.RULES['tag_of_' + k] = lambda a, k=k: a.arg(0) if z3.is_app(a) and a.decl().name() == 'key_' + k else None
    terms.RULES['record_kind'] = lambda a: z3.IntVal(terms.INJECTIVE[a.decl().name()]) \
        if z3.is_app(a) and a.decl().name() in terms.INJECTIVE else None


def record(eng, k, tag):
    return eng.decl('key_' + k, V, V)(tag)


def s_key(k):
    def spec(c, **kw):
        tag = list(kw.values())[0]
        if c.mode == 'call':
            t = record(c.eng, k, tag)
            c.eng.assume(V.is_s(t))
            return t
        return c.determined('depends on the tag only', tag)
    return spec


def s_thread_id(c):
    e = c.eng
    tl = e.modules[D + 'utils'].env['_thread_local']
    if c.mode == 'call':
        t = e.decl('session_of', V, V)(e.state.extra['ident'])
        e.decl_ty['session_of'] = (STR,)
        OLD_DECLS.add('session_of')
        e.assume(V.is_s(t))
        return t
    if c.branch(c.hasfield(tl, 'thread_id')):
        return c.field(tl, 'thread_id')
    c.require_determined = True
    ins = [e.handlers['socket.gethostname'](e, [], {}), e.handlers['os.getpid'](e, [], {}), e.state.extra['ident']]
    r = c.determined('depends on host, process and thread only', *ins)
    c.setfield(tl, 'thread_id', r)
    return r


def l_session(L):
    """Different threads have different session identifiers, also in different processes on one host."""
    e = L.eng
    tl = e.modules[D + 'utils'].env['_thread_local']
    out = []
    for i in range(2):
        e.gput('H:thread_id', (tl,), FALSE)      # the first call in a thread
        e.state.extra['ident'] = L.param('thread%d' % i, NUM)
        out.append((e.state.extra['ident'], L.real(U + 'get_thread_id')))
    (a, ra), (b, rb) = out
    L.prove_text('different threads, different sessions', Implies(L.text(ra) == L.text(rb), V.nv(a) == V.nv(b)))
    again = L.real(U + 'get_thread_id')
    L.prove('the same thread keeps its session', again == rb)


def l_injective(L):
    a, b = L.param('tag_a', STR), L.param('tag_b', STR)
    names = {k: (L.real(f, a), L.real(f, b)) for k, f in sorted(FUNS.items())}
    for k, (x, y) in sorted(names.items()):
        L.prove_text('%s records of different tags differ' % k, Implies(L.text(x) == L.text(y), a == b), [a, b])
    ks = sorted(names)
    for i, k in enumerate(ks):
        for m in ks[i + 1:]:
            L.prove_text('%s and %s records differ' % (k, m), L.text(names[k][0]) != L.text(names[m][1]), [a, b])


def l_fresh(L):
    """Two versions generated in one thread at one time differ whenever the drawn numbers do."""
    e = L.eng
    H = dict(e.handlers)
    t = L.param('time', NUM)
    e.handlers['time.time'] = lambda *a: t
    try:
        e.state.extra['draws'] = ()
        x = L.real(U + 'generate_tag_version')
        dx = e.state.extra['draws']
        y = L.real(U + 'generate_tag_version')
        dy = e.state.extra['draws'][len(dx):]
    finally:
        e.handlers = H
    if len(dx) != 1 or len(dy) != 1:
        L.prove('a version uses a random number', len(dx) > 0 and len(dy) > 0)
        raise Unsupported('several random numbers')
    (r, lo, hi), (s, _, _) = dx[0], dy[0]
    L.prove('the number is drawn from at least 2**64 values', V.nv(hi) - V.nv(lo) >= z3.RealVal(2 ** 64))
    L.prove_text('different numbers, different versions', Implies(L.text(x) == L.text(y), V.nv(r) == V.nv(s)))


def contracts():
    P = {'*': ['C18']}
    return [
        Contract(FUNS['version'], s_key('version'), [('name', STR)], props=P),
        Contract(FUNS['acquired'], s_key('acquired'), [('tag', STR)], props=P, inline=[FUNS['version']]),
        Contract(FUNS['released'], s_key('released'), [('tag', STR)], props=P, inline=[FUNS['version']]),
        Contract(U + 'get_thread_id', s_thread_id, [], props={'*': ['C18', 'C06']}),
    ]


def lemmas():
    digest = ['md5 digests of different texts differ']
    return [
        Lemma('session ids', l_session, {'*': ['C06', 'C18']}, inline=[U + 'get_thread_id'],
              assumes=['decimal representations of different numbers differ']),
        Lemma('record names', l_injective, {'*': ['C18']}, inline=list(FUNS.values()), assumes=digest),
        Lemma('fresh versions', l_fresh, {'*': ['C18', 'C01']},
              assumes=digest + ['two random draws from 2**64 values do not coincide']),
    ]
