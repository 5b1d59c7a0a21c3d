"""Contract of the file backend: how the file of an entry comes into being, whatever operation fails or is the last one."""
import z3
from .model import *
from dv.contract import Contract

FBC = DJ + 'backends.FileBasedCache'
BASE = 'django.core.cache.backends.filebased.FileBasedCache'
FILE = 'an open file'


class Fs(object):
    """State of the files touched so far: path term id -> (path, contents, open, directory)."""

    def __init__(self, files=(), entry='previous', fault=False):
        self.files, self.entry, self.fault = dict(files), entry, fault

    def but(self, **kw):
        f = Fs(self.files, self.entry, self.fault)
        for k, v in kw.items():
            setattr(f, k, v)
        return f

    def file(self, path, **kw):
        f = Fs(self.files, self.entry, self.fault)
        cur = dict(f.files.get(path.get_id(), (path, {'content': (), 'open': False, 'dir': None}))[1])
        cur.update(kw)
        f.files[path.get_id()] = (path, cur)
        return f


def fs(eng):
    return eng.state.extra.setdefault('fs', Fs())


def put(eng, f):
    eng.state.extra['fs'] = f


def fault(eng, what):
    """Every operation of the file system can fail; then it has done nothing."""
    if eng.branch(eng.fresh('fails', z3.BoolSort())):
        put(eng, fs(eng).but(fault=True))
        raise Raise(eng.exc('builtins.OSError', []))


def entry_file(eng):
    return eng.state.extra['entry']


def touches_entry(eng, path, what):
    """No operation but the publishing one works on the file of the entry."""
    eng.obligation('entry only replaced as a whole', Not(eng.eq(path, entry_file(eng))))


def number(eng, t):
    return V.is_num(t)


def complete(eng, path):
    got = fs(eng).files.get(path.get_id())
    if got is None:
        return FALSE
    st = got[1]
    if st['open'] or len(st['content']) != 2:
        return FALSE
    exp, value = eng.state.extra['wanted']
    t = st['content'][0]
    # the time of expiry is the clock plus the timeout
    clock = [z3.Const('now@%d' % i, V) for i in range(eng.state.extra.get('nows', 0))]
    return And(V.is_num(t), Or(*[V.nv(t) == V.nv(n) + V.nv(exp) for n in clock]), eng.eq(st['content'][1], value))


def shared(eng, path):
    """The name follows from the key alone, so that two writers of one key write one file."""
    seen, todo = set(), [path]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and \
                t.get_id() not in eng.state.extra['known']:
            return False
        todo.extend(t.children())
    return True


def publish(eng, args, kwargs):
    src, dst = args
    if eng.branch(eng.eq(dst, entry_file(eng))):
        eng.obligation('what is published is closed and complete', complete(eng, src))
        eng.obligation('no other writer uses the published file', FALSE if shared(eng, src) else TRUE)
        got = fs(eng).files.get(src.get_id())
        d = got[1]['dir'] if got else None
        eng.obligation('published from the same directory',
                       FALSE if d is None else eng.eq(d, query(eng, 'dirname', [dst], STR)))
        fault(eng, 'rename')
        put(eng, fs(eng).but(entry='published'))
    else:
        fault(eng, 'rename')
    return NONE


def handlers(eng):
    H = eng.handlers

    def one(name, f):
        H[name] = f
    H['os.path.dirname'] = lambda e, a, k: query(e, 'dirname', a, STR)
    H['os.path.exists'] = lambda e, a, k: e.seqfresh('exists', V, BOOL) if False else exists(e)
    H['os.path.isdir'] = H['os.path.exists']

    def makedirs(e, a, k):
        fault(e, 'makedirs')
        return NONE
    H['os.makedirs'] = makedirs
    H['os.mkdir'] = makedirs

    def mkstemp(e, a, k):
        fault(e, 'mkstemp')
        p = temp(e, k, a)
        return e.tup([e.param('fd', NUM), p])

    def temp(e, k, a):
        d = k.get('dir', a[2] if len(a) > 2 else NONE)
        p = e.param('temporary', STR)
        e.assume(Not(e.eq(p, entry_file(e))))       # a name nobody uses
        put(e, fs(e).file(p, content=(), open=True, dir=d))
        e.state.extra['last temp'] = p
        return p
    H['tempfile.mkstemp'] = mkstemp

    def named(e, a, k):
        fault(e, 'NamedTemporaryFile')
        if 'delete' not in k or e.branch(e.truth(k['delete'])):
            raise Unsupported('temporary file removed when closed')
        return opened(e, temp(e, k, ()))
    H['tempfile.NamedTemporaryFile'] = named

    def opened(e, path):
        o = e.alloc(('obj', FILE, True))
        e.setfield(o, 'name', path)
        return o

    def fdopen(e, a, k):
        fault(e, 'fdopen')
        return opened(e, e.state.extra['last temp'])
    H['os.fdopen'] = fdopen

    def open_(e, a, k):
        touches_entry(e, a[0], 'open')
        fault(e, 'open')
        put(e, fs(e).file(a[0], content=(), open=True))
        return opened(e, a[0])
    H['builtins.open'] = open_

    def os_open(e, a, k):
        touches_entry(e, a[0], 'open')
        fault(e, 'open')
        put(e, fs(e).file(a[0], content=(), open=True, dir=query(e, 'dirname', [a[0]], STR)))
        e.state.extra['last temp'] = a[0]
        return e.param('fd', NUM)
    H['os.open'] = os_open
    for n in ('O_CREAT', 'O_WRONLY', 'O_RDWR', 'O_TRUNC', 'O_EXCL', 'O_CLOEXEC', 'O_BINARY', 'O_NOFOLLOW'):
        eng.ext_terms['os.' + n] = lambda e, n=n: query(e, 'flag_' + n, [], NUM)
    H['io.open'] = open_

    def write(e, o, v):
        p = e.getfield(o, 'name')
        st = fs(e).files[p.get_id()][1]
        if not st['open']:
            e.throw('ValueError', e.const('closed file'))
        if e.branch(e.fresh('fails', z3.BoolSort())):     # a part may have been written
            put(e, fs(e).file(p, content=st['content'] + (NONE, NONE, NONE)).but(fault=True))
            raise Raise(e.exc('builtins.OSError', []))
        put(e, fs(e).file(p, content=st['content'] + (v,)))
        return NONE

    def dump(e, a, k):
        return write(e, a[1], a[0])
    H[BASE.rsplit('.', 1)[0] + '.pickle.dump'] = dump
    H['pickle.dump'] = dump

    def dumps(e, a, k):
        t = e.decl('pickled', V, V)(a[0])
        return t
    H['pickle.dumps'] = dumps
    H[BASE.rsplit('.', 1)[0] + '.pickle.dumps'] = dumps

    def close(e, a, k):
        p = e.getfield(a[0], 'name')
        st = fs(e).files[p.get_id()][1]
        if st['open']:
            put(e, fs(e).file(p, open=False))
            if e.branch(e.fresh('fails', z3.BoolSort())):     # what was buffered is lost
                put(e, fs(e).file(p, content=st['content'] + (NONE, NONE, NONE)).but(fault=True))
                raise Raise(e.exc('builtins.OSError', []))
        return NONE

    def leave(e, a, k):
        close(e, a[:1], {})
        return V.boo(FALSE)

    def wr(e, a, k):
        v = a[1]
        if not (z3.is_app(v) and v.decl().name() == 'pickled'):
            raise Unsupported('text written to a file')
        return write(e, a[0], v.arg(0))

    def flush(e, a, k):
        fault(e, 'flush')
        return NONE
    define(eng, FILE, {'name': field(STR)}, methods={
        '__enter__': lambda e, a, k: a[0], '__exit__': leave, 'close': close, 'write': wr, 'flush': flush,
        'fileno': lambda e, a, k: e.param('fd', NUM)})
    H['os.fsync'] = flush
    H['os.rename'] = publish
    H['os.replace'] = publish
    H['shutil.move'] = publish

    def remove(e, a, k):
        touches_entry(e, a[0], 'remove')
        fault(e, 'remove')
        return NONE
    for n in ('os.remove', 'os.unlink'):
        H[n] = remove
    H['random.random'] = lambda e, a, k: number_(e)
    H['threading.Thread'] = lambda e, a, k: e.alloc(('obj', 'a thread', True))
    define(eng, 'a thread', {}, methods={'start': lambda e, a, k: NONE})
    define(eng, BASE, {'default_timeout': field(NUM)}, methods={
        'make_key': lambda e, a, k: query(e, 'made_key', [a[0], a[1], k.get('version', a[2] if len(a) > 2 else NONE)], STR),
        '_key_to_file': lambda e, a, k: query(e, 'file_of', [a[0], a[1]], STR),
        'validate_key': lambda e, a, k: NONE, '_cull': lambda e, a, k: NONE})


def exists(e):
    return V.boo(e.fresh('exists', z3.BoolSort()))


def number_(e):
    t = e.fresh('random', V, NUM)
    e.assume(V.is_num(t))
    return t


def pre(c, self, key, value, timeout, version):
    e = c.eng
    k = query(e, 'made_key', [self, key, version], STR)
    e.state.extra['entry'] = query(e, 'file_of', [self, k], STR)
    e.state.extra['known'] = {t.get_id() for t in (self, key, value, timeout, version)}
    e.state.extra['wanted'] = (c.field(self, 'default_timeout') if c.is_(timeout, NONE) else timeout, value)


def s_set(c, self, key, value, timeout, version):
    """The entry is published unless an operation fails; no error of the file system leaves the function."""
    out = c.run.outcome
    end = c.run.S1.extra.get('fs', Fs())
    c.run.goal('published or failed', TRUE if end.entry == 'published' or end.fault else FALSE)
    if out[0] == 'exc':
        c.run.goal('no file system error escapes', FALSE if c.isinstance(out[1], 'builtins.OSError') else TRUE)
        raise Raise(out[1])
    return NONE


def contracts():
    return [Contract(FBC + '.set', s_set, [('self', ('self', FBC)), ('key', STR), ('value', ANY), ('timeout', [NONE_T, NUM]),
                                           ('version', [NONE_T, NUM])],
                     pre=pre, env=handlers, trace=False, props={'*': ['C24']}, call_mode=False,
                     assumes=['os.rename replaces the target atomically', 'mkstemp returns a name nobody uses',
                              'an operation of the file system that fails has done nothing, except for writing and closing',
                              'nobody else writes the file of the entry meanwhile'])]
