"""C24: file backend entries are published atomically."""
import builtins
import io
import os
import pickle
import random
import shutil
import tempfile
import threading

REAL = {}


class Fault(OSError):
    pass


class Crash(BaseException):
    pass


class Watch(object):
    """Intercepts the file operations: looks at the entry before and after each, and makes the one chosen fail."""

    def __init__(self, look, at=None, exc=None, after=False):
        self.look, self.at, self.exc, self.after, self.n, self.on = look, at, exc, after, 0, False
        self.names, self.saved = [], []

    def step(self, name, f, *a, **k):
        if not self.on:
            return f(*a, **k)
        self.n += 1
        n = self.n
        self.names.append(name)
        self.quiet(self.look, 'before ' + name)
        if n == self.at and not self.after:
            self.raise_(name)
        r = f(*a, **k)
        self.quiet(self.look, 'after ' + name)
        if n == self.at and self.after:
            self.raise_(name)
        return r

    def raise_(self, name):
        self.fired = name
        raise self.exc

    def quiet(self, f, *a):
        self.on = False
        try:
            return f(*a)
        finally:
            self.on = True

    def patch(self, mod, name, wrap=None):
        f = getattr(mod, name, None)
        if f is None:
            return
        self.saved.append((mod, name, f))

        def g(*a, **k):
            r = self.step(name, f, *a, **k)
            return wrap(r) if wrap and self.on else r
        setattr(mod, name, g)

    def __enter__(self):
        for mod, name in ((os, 'rename'), (os, 'replace'), (os, 'link'), (os, 'symlink'), (os, 'makedirs'), (os, 'mkdir'),
                          (os, 'write'), (os, 'fsync'), (os, 'open'), (os, 'close'), (os, 'remove'), (os, 'unlink'),
                          (os, 'truncate'), (os, 'ftruncate'), (tempfile, 'mkstemp'), (shutil, 'move'), (shutil, 'copyfile')):
            self.patch(mod, name)
        self.patch(os, 'fdopen', lambda f: File(self, f))
        self.patch(tempfile, 'NamedTemporaryFile', lambda f: File(self, f))
        self.patch(tempfile, 'TemporaryFile', lambda f: File(self, f))
        self.patch(builtins, 'open', lambda f: File(self, f))
        self.patch(io, 'open', lambda f: File(self, f))
        self.on = True
        return self

    def __exit__(self, *a):
        self.on = False
        for mod, name, f in reversed(self.saved):
            setattr(mod, name, f)


class File(object):
    """A file whose writes and closing are steps; what is written reaches the disk as late as it may."""

    def __init__(self, watch, f):
        self.__dict__.update(_w=watch, _f=f)

    def write(self, data):
        return self._w.step('write', self._f.write, data)

    def flush(self):
        return self._w.step('flush', self._f.flush)

    def close(self):
        if self._f.closed:
            return self._f.close()
        try:
            return self._w.step('close', self._f.close)
        except BaseException:
            self._w.quiet(self._f.close)
            raise

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __getattr__(self, name):
        return getattr(self._f, name)


class Slow(object):
    """A value whose pickling is a step of its own and large enough to be flushed in parts."""

    def __init__(self, n):
        self.data = os.urandom(n).hex()

    def __eq__(self, o):
        return isinstance(o, Slow) and self.data == o.data


class Bad(object):
    def __reduce__(self):
        raise ValueError('cannot be pickled')


def listing(d):
    out = {}
    for base, _, files in os.walk(d):
        for f in files:
            p = os.path.join(base, f)
            with REAL.get('open', open)(p, 'rb') as g:
                out[os.path.relpath(p, d)] = g.read()
    return out


def parse(data):
    """(expiry, value) of a completely written entry, else None."""
    try:
        f = io.BytesIO(data)
        e = pickle.load(f)
        v = pickle.load(f)
        return None if f.read(1) else (e, v)
    except Exception:
        return None


def check_atomic(rep):
    rep.rule.add('stores over a missing and a present entry, with every file operation of the store failing, before and '
                 'after its effect, by a file system error or by a crash; the file under the name of the entry is read '
                 'before and after every operation; non-trivial: a fault was injected')
    from django_cache_dependencies.backends import FileBasedCache
    REAL['open'] = open
    root = tempfile.mkdtemp(dir=os.environ['REPLAY_SCRATCH'])
    saved = random.random
    try:
        for draw in (.5, .95):
            random.random = lambda: draw
            for value in ('v', Slow(100), Slow(40000)):
                for present in (False, True):
                    for depth in (0, 1):
                        n = scenario(rep, FileBasedCache, root, value, present, depth, None, None, False)
                        for at in range(1, n + 1):
                            for exc in (Fault(28, 'No space left on device'), IOError('io'), Crash()):
                                for after in (False, True):
                                    scenario(rep, FileBasedCache, root, value, present, depth, at, exc, after)
            for present in (False, True):
                scenario(rep, FileBasedCache, root, [1, Bad()], present, 0, None, None, False)
            for value in ('v', Slow(40000)):
                for present in (False, True):
                    n = scenario(rep, FileBasedCache, root, value, present, 0, None, None, False)
                    for at in range(1, n + 1):
                        for after in (False, True):
                            two_writers(rep, FileBasedCache, root, value, present, at, after)
    finally:
        random.random = saved
        shutil.rmtree(root, ignore_errors=True)


def two_writers(rep, cls, root, value, present, at, after):
    """Another process stores the same key while a store is under way, at a given operation of it."""
    d = tempfile.mkdtemp(dir=root)
    c, other = cls(d, {}), cls(d, {})
    c.set('k', 'previous', 100)
    entry = list(listing(d))[0]
    before = listing(d).get(entry)
    if not present:
        os.remove(os.path.join(d, entry))
    state = dict(at=at, after=after, other_writer=True, present=present, value=repr(value)[:20])
    rep.case(repr(sorted(state.items())))
    seen = []

    def look(when):
        now = listing(d).get(entry)
        if now is None or now == before:
            rep.check(not seen or now is not None, 'the entry vanished', when=when, **state)
            return
        got = parse(now)
        rep.check(got is not None and got[1] in (value, 'second'), 'neither the previous nor a complete new entry', when=when,
                  size=len(now), **state)

    class Meet(Watch):
        def meet(self):
            seen.append(1)
            names, n = self.names, self.n
            for mod, name, f in reversed(self.saved):
                setattr(mod, name, f)
            try:
                other.set('k', 'second', 60)
            finally:
                for mod, name, f in self.saved:
                    setattr(mod, name, getattr(self, 'ours')[mod, name])
            self.names, self.n = names, n

        def step(self, name, f, *a, **k):
            if not self.on:
                return f(*a, **k)
            self.n += 1
            n = self.n
            if n == at and not after:
                self.quiet(self.meet)
            self.quiet(look, 'before ' + name)
            r = f(*a, **k)
            if n == at and after:
                self.quiet(self.meet)
            self.quiet(look, 'after ' + name)
            return r
    w = Meet(look)
    alive = threading.enumerate()
    with w:
        w.ours = {(mod, name): getattr(mod, name) for mod, name, f in w.saved}
        try:
            c.set('k', value, 50)
            res = None
        except BaseException as e:
            res = e
    for t in threading.enumerate():
        if t not in alive:
            t.join(5)
    rep.check(res is None, 'a store failed because of another writer', got=res, **state)
    look('the end')
    shutil.rmtree(d, ignore_errors=True)


def scenario(rep, cls, root, value, present, depth, at, exc, after):
    d = tempfile.mkdtemp(dir=root)
    path = os.path.join(d, 'sub', 'dir') if depth else os.path.join(d, 'c')
    if not depth:
        os.mkdir(path)
    c = cls(path, {})
    c.set('k', 'previous', 100)
    names = list(listing(path))
    if not rep.check(len(names) == 1, 'a store leaves other than one file', files=names):
        return 0
    entry = names[0]
    if not present:
        shutil.rmtree(path)
        if not depth:
            os.mkdir(path)
    before = listing(path).get(entry)
    state = dict(at=at, after=after, exception=repr(exc), present=present, value=repr(value)[:20])
    rep.case(repr(sorted(state.items())))

    def look(when):
        now = listing(path).get(entry)
        if now == before:
            return
        got = parse(now) if now is not None else None
        rep.check(got is not None and got[1] == value, 'neither the previous nor a complete new entry', when=when,
                  size=None if now is None else len(now), **state)
    w = Watch(look, at, exc, after)
    w.fired = None
    alive = threading.enumerate()
    with w:
        try:
            c.set('k', value, 50)
            res = None
        except BaseException as e:
            res = e
    for t in threading.enumerate():
        if t not in alive:
            t.join(5)
    bad = isinstance(value, list)
    if isinstance(exc, Crash) and w.fired:
        rep.check(res is exc, 'a crash was swallowed', got=res, **state)
    elif bad:
        rep.check(isinstance(res, ValueError), 'the error of pickling was swallowed', got=res, **state)
    else:
        rep.check(res is None, 'a file system error was raised to the caller', got=res, step=w.fired, **state)
    look('the end')
    now = listing(path)
    if w.fired is None and not bad:
        got = parse(now[entry]) if entry in now else None
        rep.check(got is not None and got[1] == value, 'not stored', **state)
        rep.check(list(now) == [entry], 'other files are left behind', files=list(now), **state)
    shutil.rmtree(d, ignore_errors=True)
    return w.n
