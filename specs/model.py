"""Types of the pre-existing objects the functions under contract work on, and models of external functions."""
import z3
from dv.terms import V, NONE, NIL, TRUE, FALSE, And, Or, Not, Implies, If, ctor
from dv.engine import Engine, Obj, ANY, NONE_T, NUM, STR, BOOL, CALL, Ext, OLD_DECLS, Raise, Star
from dv.state import Unsupported
from dv import lib

D = 'cache_dependencies.'
DJ = 'django_cache_dependencies.'
DEP = D + 'interfaces.IDependency'
CACHE = D + 'interfaces.ICache'
NODE = D + 'interfaces.ICacheNode'
TX = D + 'interfaces.ITransaction'
LOCK = D + 'interfaces.IDependencyLock'
TM = D + 'interfaces.ITransactionManager'
RM = D + 'interfaces.IRelationManager'
COMP = D + 'dependencies.CompositeDependency'
TAGS = D + 'dependencies.TagsDependency'
SETTINGS = Obj('django.settings', True)
DUMMY = D + 'dependencies.DummyDependency'

MODULES = ['cache_dependencies.interfaces', 'cache_dependencies.utils', 'cache_dependencies.mixins',
           'cache_dependencies.exceptions', 'cache_dependencies.defer', 'cache_dependencies.dependencies',
           'cache_dependencies.locks', 'cache_dependencies.relations', 'cache_dependencies.transaction',
           'cache_dependencies.cache', 'cache_dependencies.tagging', 'cache_dependencies.nocache',
           'django_cache_dependencies', 'django_cache_dependencies.utils', 'django_cache_dependencies.middleware',
           'django_cache_dependencies.decorators', 'django_cache_dependencies.backends',
           'django_cache_dependencies.templatetags.cache_tagging_tags']


def field(alts, owned=False, optional=False):
    alts = tuple(alts) if isinstance(alts, list) else (alts,)
    return (alts, owned, 'optional') if optional else (alts, owned)


def define(eng, name, fields=None, closed=True, **kw):
    d = eng.classdefs.setdefault(name, {'fields': {}, 'hidden': set(), 'methods': {}, 'bases': []})
    d['fields'].update(fields or {})
    d['closed'] = closed
    for k, v in kw.items():
        if k in ('methods',):
            d[k].update(v)
        else:
            d[k] = v
    return d


def build(repo='/repo', modules=None, timeout=8000):
    eng = Engine(repo, timeout)
    eng.classdefs = dict(eng.classdefs_extra)
    eng.ghost_bases = {}
    eng.ghost_sorts = {}
    eng.ghost_guard = {}
    eng.ghost_noobj = frozenset()
    eng.virtuals = virtuals()
    install(eng)
    for m in (modules or MODULES):
        try:
            eng.load(m)
        except (Unsupported, Raise) as u:
            eng.load_problems.append((m, [], repr(u)))
    return eng


def install(eng):
    H = eng.handlers
    H['_thread.get_ident'] = lambda e, a, k: e.state.extra['ident'] if 'ident' in e.state.extra \
        else e.mkfn(Ext('ident'))

    def constant(name, alt, fields):
        define(eng, alt[1], fields)

        def make(e):
            t = z3.Const(name, V)
            e.decl_ty[name] = (alt,)
            OLD_DECLS.add(name)
            return e.type_assume(t)
        return make
    scalar = [NONE_T, NUM, STR, BOOL]
    eng.ext_terms['django.conf.settings'] = constant('settings', SETTINGS, {
        'CACHE_TAGGING': field(('dict', (STR,), (('dict', (STR,), (NONE_T, NUM, STR)),)), optional=True),
        'CACHE_MIDDLEWARE_SECONDS': field(scalar), 'CACHE_MIDDLEWARE_KEY_PREFIX': field(STR),
        'CACHE_MIDDLEWARE_ALIAS': field(STR), 'CACHE_MIDDLEWARE_ANONYMOUS_ONLY': field(BOOL, optional=True),
        'USE_ETAGS': field(BOOL), 'USE_I18N': field(BOOL), 'USE_L10N': field(BOOL), 'SECRET_KEY': field(STR)})
    eng.ext_terms['django.core.cache.caches'] = constant('django caches', Obj('django.caches', True), {})
    eng.classdefs['django.caches']['methods']['__getitem__'] = \
        lambda e, a, k: query(e, 'configured_cache', a, Obj(CACHE))
    eng.ext_terms['django.core.cache.DEFAULT_CACHE_ALIAS'] = lambda e: e.const('default')

    def now(e, a, k):
        n = e.state.extra.get('nows', 0)
        e.state.extra['nows'] = n + 1
        if e.loopvars:
            raise Unsupported('clock read in a loop')
        t = z3.Const('now@%d' % n, V)
        e.decl_ty['now@%d' % n] = (NUM,)
        OLD_DECLS.add('now@%d' % n)
        e.assume(V.is_num(t))
        if n:
            e.assume(V.nv(t) >= V.nv(z3.Const('now@%d' % (n - 1), V)))
        return t
    H['time.time'] = now

    def rand(e, a, k):
        lo, hi = (a[0], a[1]) if len(a) > 1 else (V.num(z3.RealVal(0)), a[0])
        n = e.state.extra.get('rands', 0)
        e.state.extra['rands'] = n + 1
        if e.loopvars or k or len(a) > 2:
            raise Unsupported('random draw')
        t = e.fresh('rand', V, NUM)
        e.assume(And(V.is_num(t), V.nv(t) >= V.nv(lo), V.nv(t) < V.nv(hi)))
        e.state.extra['draws'] = e.state.extra.get('draws', ()) + ((t, lo, hi),)
        return t
    H['re.compile'] = lambda e, a, k: e.mkfn(Ext('re.compile:%s' % e.pystr(a[0])))
    H['random.SystemRandom'] = lambda e, a, k: e.mkfn(Ext('random.system'))
    H['random.system.randrange'] = rand
    H['random.randrange'] = rand

    def proc(name, ty):
        def h(e, a, k):
            # a process may be forked after the modules were loaded: what it is called then is another matter
            n = 'proc:%s%s' % (name, '@load' if e.loading and name == 'pid' else '')
            t = e.decl(n, V)()
            e.decl_ty[n] = (ty,)
            OLD_DECLS.add(n)
            e.assume(e.type_formula(t, [ty]))
            return t
        return h
    H['socket.gethostname'] = proc('host', STR)
    H['os.getpid'] = proc('pid', NUM)

    def tlocal(e, a, k):
        k = e.state.extra.get('thread locals', 0)          # the k-th one made
        e.state.extra['thread locals'] = k + 1
        n = 'threadlocal@%d' % k
        t = z3.Const(n, V)
        e.decl_ty[n] = (Obj('threading.local', True),)
        OLD_DECLS.add(n)
        return t
    H['threading.local'] = tlocal
    define(eng, 'threading.local', {})

    define(eng, D + 'relations.CacheNode', {
        '_key': field(STR), '_parent': field(Obj(NODE)),
        '_dependencies': field(('dict', (ANY,), (Obj(COMP, True),)), owned=True)})
    define(eng, D + 'relations.DummyCacheNode', {})
    define(eng, NODE, {}, closed=False)
    define(eng, D + 'relations.RelationManager', {
        '_current': field(Obj(NODE)),
        '_data': field(('dict', (STR,), (Obj(D + 'relations.CacheNode', True),)), owned=True)})
    define(eng, D + 'relations.ThreadSafeRelationManagerDecorator', {
        '_delegate': field(Obj(RM)), '_thread_id': field(NUM)})
    define(eng, D + 'transaction.ThreadSafeTransactionManagerDecorator', {
        '_delegate': field(Obj(TM)), '_thread_id': field(NUM)})


# ---- methods of collaborators -------------------------------------------------
def opaque_methods(iface, names, raises=True, result=ANY, pure=False):
    """Calls of these methods are recorded; they may return or raise anything."""
    def env(eng):
        for n in names:
            eng.contracts[iface + '.' + n] = PureMethod(n, result) if pure else OpaqueMethod(n, raises, result)
    return env


def envs(*fs):
    def env(eng):
        for f in fs:
            f(eng)
    return env


class OpaqueMethod(object):
    def __init__(self, name, raises=True, result=ANY):
        self.name, self.raises, self.result = name, raises, result

    def args(self, eng, fn, args, kwargs):
        a = eng.bindargs(fn, args, kwargs)
        x = fn.node.args
        names = [y.arg for y in x.args] + ([x.vararg.arg] if x.vararg else []) + [y.arg for y in x.kwonlyargs]
        return [a[n] for n in names]

    def apply(self, eng, fn, args, kwargs):
        eng.event('method ' + self.name, self.args(eng, fn, args, kwargs))
        if self.raises and eng.branch(eng.seqfresh('raises', z3.BoolSort())):
            e = eng.seqfresh('exc', V, Obj('builtins.Exception'))
            eng.assume(V.is_opq(e))
            raise Raise(e)
        if self.result is None:
            return NONE
        r = eng.seqfresh('res', V, self.result)
        eng.assume(eng.type_formula(r, list(self.result) if isinstance(self.result, list) else [self.result]))
        return r


class PureMethod(OpaqueMethod):
    """A query without effects: a function of its arguments."""

    def __init__(self, name, result=ANY):
        self.name, self.result = name, result

    def apply(self, eng, fn, args, kwargs):
        a = self.args(eng, fn, args, kwargs)
        return query(eng, self.name, a, self.result)


QUERIES = ('get_session_id', 'get_start_time', 'get_end_time', 'parent', 'key', 'get_dependency')
COMMANDS = ('evaluate', 'invalidate', 'acquire', 'release', 'extend', 'add_dependency', 'finish', 'begin', 'flush', 'clear',
            'set', 'delete', 'set_many', 'delete_many', 'get', 'get_many', 'add', 'incr', 'decr')


def virtuals():
    d = {n: PureMethod(n).apply for n in QUERIES}
    d.update({n: OpaqueMethod(n).apply for n in COMMANDS})
    return d


def query(eng, name, a, result):
    n = 'Q_' + name
    alts = tuple(result) if isinstance(result, list) else (result,)
    t = eng.decl(n, *([V] * len(a) + [V]))(*a)
    eng.decl_ty[n] = alts
    OLD_DECLS.add(n)
    return eng.type_assume(t)
