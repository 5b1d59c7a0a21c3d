"""Environment of the concrete executions: settings, clock, timers, sessions and an independent backend."""
import hashlib
import json
import pickle
import random
import sys
import threading
import time as _time

REAL_TIME = _time.time
REAL_TIMER = threading.Timer


class Stop(Exception):
    """Enough failures in this section."""


class Report(object):
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random('%s-%d' % (prop, seed))
        self.evaluations = 0
        self.seen = set()
        self.failures = []
        self.findings = []
        self.samples = []
        self.section = ''
        self.rule = set()
        self.errors = []
        self.scale = 1 if tier == 'quick' else 12

    def case(self, what):
        """Count a case; what identifies it."""
        self.evaluations += 1
        h = hashlib.md5(repr((self.section, what)).encode('utf8')).hexdigest()
        if h not in self.seen:
            self.seen.add(h)
            if len(self.samples) < 8 and len(self.seen) % 7 == 1:
                self.samples.append({'section': self.section, 'case': repr(what)[:400]})

    def fail(self, what, **detail):
        self.failures.append({'section': self.section, 'what': what,
                              'detail': {k: repr(v)[-1200:] for k, v in detail.items()}})
        if len(self.failures) > 5:
            raise Stop()

    def check(self, cond, what, **detail):
        if not cond:
            self.fail(what, **detail)
        return cond

    def finding(self, ident, what, **detail):
        self.findings.append({'id': ident, 'section': self.section, 'what': what,
                              'detail': {k: repr(v)[-1200:] for k, v in detail.items()}})

    def crash(self, tb):
        lines = tb.splitlines()
        # an exception raised inside the code under test is a failing input; one of the harness is an error
        where = [l for l in lines if l.strip().startswith('File "')]
        if where and 'cache_dependencies' in where[-1] or 'cache_tagging' in (where[-1] if where else ''):
            self.failures.append({'section': self.section, 'what': 'unexpected exception', 'detail': {'tb': tb[-1500:]}})
        else:
            self.errors.append(tb[-1500:])

    def result(self, error):
        err = '; '.join(([error] if error else []) + self.errors) or None
        return {'evaluations': self.evaluations, 'distinct': len(self.seen), 'failures': self.failures[:8],
                'findings': self.findings, 'samples': self.samples, 'rule': '; '.join(sorted(self.rule)), 'error': err}


# ---- clock and timers -------------------------------------------------------
class Clock(object):
    def __init__(self):
        self.now = 1000.0
        self.auto = 0.0

    def time(self):
        self.now += self.auto
        return self.now


clock = Clock()
timers = []


class FakeTimer(object):
    def __init__(self, interval, function, args=None, kwargs=None):
        self.interval, self.function = interval, function
        self.args, self.kwargs = list(args or []), dict(kwargs or {})
        self.daemon = False
        self.started = False

    def start(self):
        assert not self.started
        self.started = True
        self.due = clock.now + self.interval
        timers.append(self)

    def setDaemon(self, v):
        self.daemon = v

    def cancel(self):
        if self in timers:
            timers.remove(self)


def advance(dt):
    """Let time pass and run the timers that become due, in order."""
    end = clock.now + dt
    while True:
        due = sorted([t for t in timers if t.due <= end], key=lambda t: t.due)
        if not due:
            break
        t = due[0]
        timers.remove(t)
        clock.now = max(clock.now, t.due)
        t.function(*t.args, **t.kwargs)
    clock.now = end


def reset():
    clock.now = 1000.0
    clock.auto = 0.0
    del timers[:]




def setup():
    import django
    from django.conf import settings
    settings.configure(
        DATABASES={'default': {'ENGINE': 'django.db.backends.sqlite3', 'NAME': ':memory:'}},
        CACHES={
            'default': {'BACKEND': 'django.core.cache.backends.locmem.LocMemCache', 'LOCATION': 'default'},
            'second': {'BACKEND': 'django.core.cache.backends.locmem.LocMemCache', 'LOCATION': 'second'},
            'third': {'BACKEND': 'django.core.cache.backends.locmem.LocMemCache', 'LOCATION': 'third'},
        },
        CACHE_TAGGING={},
        SECRET_KEY='secret',
        INSTALLED_APPS=['django.contrib.sessions',
                        'django.contrib.messages', 'django_cache_dependencies'],
        MIDDLEWARE_CLASSES=[],
        MIDDLEWARE=[],
        TEMPLATES=[{'BACKEND': 'django.template.backends.django.DjangoTemplates', 'DIRS': [], 'APP_DIRS': True,
                    'OPTIONS': {'context_processors': []}}],
        DEBUG=False,
        ALLOWED_HOSTS=['*'],
        USE_ETAGS=False,
        ROOT_URLCONF='replay.common',
    )
    import warnings
    warnings.simplefilter('ignore')
    _time.time = clock.time
    threading.Timer = FakeTimer
    django.setup()


urlpatterns = []


# ---- independent in-memory backend -----------------------------------------
class Backend(object):
    """A cache backend with the native interface, written independently of the code under test."""

    def __init__(self):
        self.data = {}
        self.log = []
        self.ev = []          # effects per key: ('set', key, version, ttl) and ('del', key, version)
        self.default = 300

    def clone(self):
        b = Backend()
        b.data = dict(self.data)
        return b

    def _k(self, key, version):
        return (key, 1 if version is None else version)

    def _alive(self, k):
        if k not in self.data:
            return False
        v, exp = self.data[k]
        if exp is not None and exp <= clock.now:
            del self.data[k]
            return False
        return True

    def get(self, key, default=None, version=None):
        self.log.append(('get', key, version))
        k = self._k(key, version)
        return pickle.loads(self.data[k][0]) if self._alive(k) else default

    def set(self, key, value, timeout=None, version=None):
        self.log.append(('set', key, timeout, version))
        self._set(key, value, timeout, version)

    def _set(self, key, value, timeout, version):
        t = self.default if timeout is None else timeout
        self.ev.append(('set', key, 1 if version is None else version, t))
        self.data[self._k(key, version)] = (pickle.dumps(value, 2), clock.now + t)

    def add(self, key, value, timeout=None, version=None):
        if self._alive(self._k(key, version)):
            return False
        self.set(key, value, timeout, version)
        return True

    def delete(self, key, version=None):
        self.log.append(('delete', key, version))
        self.ev.append(('del', key, 1 if version is None else version))
        self.data.pop(self._k(key, version), None)

    def get_many(self, keys, version=None):
        keys = list(keys)
        self.log.append(('get_many', tuple(sorted(map(repr, keys))), version))
        out = {}
        for key in keys:
            k = self._k(key, version)
            if self._alive(k):
                out[key] = pickle.loads(self.data[k][0])
        return out

    def set_many(self, data, timeout=None, version=None):
        self.log.append(('set_many', tuple(sorted(map(repr, data))), timeout, version))
        for key, v in data.items():
            self._set(key, v, timeout, version)

    def delete_many(self, keys, version=None):
        keys = list(keys)
        self.log.append(('delete_many', tuple(sorted(map(repr, keys))), version))
        for key in keys:
            self.ev.append(('del', key, 1 if version is None else version))
            self.data.pop(self._k(key, version), None)

    def has_key(self, key, version=None):
        return self._alive(self._k(key, version))

    __contains__ = has_key

    def incr(self, key, delta=1, version=None):
        v = self.get(key, version=version)
        if v is None:
            raise ValueError(key)
        self.set(key, v + delta, version=version)
        return v + delta

    def clear(self):
        self.data.clear()

    def raw(self, key, version=None):
        k = self._k(key, version)
        return pickle.loads(self.data[k][0]) if self._alive(k) else None

    def ttl(self, key, version=None):
        k = self._k(key, version)
        return self.data[k][1] - clock.now if self._alive(k) else None

    def snapshot(self):
        return {k: v for k, v in self.data.items() if v[1] is None or v[1] > clock.now}


def in_thread(f, *args, **kw):
    """Run f in another thread; ('ret', value) or ('exc', exception)."""
    out = []

    def run():
        try:
            out.append(('ret', f(*args, **kw)))
        except BaseException as e:
            out.append(('exc', e))
    t = threading.Thread(target=run)
    t.start()
    t.join()
    return out[0]


class Worker(object):
    """A thread that runs what it is given, one call at a time: one session of the code under test."""

    def __init__(self):
        self.lock = threading.Lock()
        self.ready, self.done = threading.Semaphore(0), threading.Semaphore(0)
        self.job = self.out = None
        t = threading.Thread(target=self._run)
        t.daemon = True
        t.start()

    def _run(self):
        while True:
            self.ready.acquire()
            try:
                self.out = ('ret', self.job())
            except BaseException as e:
                self.out = ('exc', e)
            self.done.release()

    def do(self, f):
        self.job = f
        self.ready.release()
        self.done.acquire()
        return self.out


workers = []


def worker(i):
    while len(workers) <= i:
        workers.append(Worker())
    return workers[i]


class Session(object):
    """One thread with its own cache object over a shared backend."""

    def __init__(self, i, backend, isolation='READ COMMITTED', delay=0):
        self.w = worker(i)
        self.i = i
        self.cache = self.w.do(lambda: make_cache(backend, isolation, delay))[1]

    def do(self, f):
        """('ret', value) or ('exc', exception) of f(cache) run in the thread of the session."""
        return self.w.do(lambda: f(self.cache))

    def run(self, f):
        kind, v = self.do(f)
        if kind == 'exc':
            raise v
        return v


def make_cache(backend, isolation='READ COMMITTED', delay=0, safe=True):
    """A cache object of one session over a backend shared by all sessions."""
    from cache_dependencies.tagging import CacheTagging
    from cache_dependencies.locks import DependencyLock
    from cache_dependencies.relations import RelationManager, ThreadSafeRelationManagerDecorator
    from cache_dependencies.transaction import TransactionManager, ThreadSafeTransactionManagerDecorator
    box = []
    lock = DependencyLock.make(isolation, lambda: box[0].cache, delay)
    tm, rm = TransactionManager(lock), RelationManager()
    if safe:
        tm, rm = ThreadSafeTransactionManagerDecorator(tm), ThreadSafeRelationManagerDecorator(rm)
    c = CacheTagging(backend, rm, tm)
    box.append(c)
    return c
