"""Sessions of the real code next to a reference model of what they promise, compared after every operation."""
from replay.common import Backend, Session, advance, clock, timers, make_cache, Worker, worker

TAGS = ['a', 'b', 'c', 'd', 'tag one', u't\u00e4g']
KEYS = ['k1', 'k2', 'k3', 'k4', 'k5']
VERSIONS = [None, 2, 0]
LOCKING = ('REPEATABLE READ', 'SERIALIZABLE')
LEVELS = ('READ UNCOMMITTED', 'READ COMMITTED') + LOCKING
_names = {}


def tag_keys(tag):
    """Backend keys of the version, acquire and release record of a tag, as the code itself names them."""
    if tag not in _names:
        b = Backend()
        s = Session(9, b, 'REPEATABLE READ', 0)

        def f(c):
            c.transaction.begin()
            c.invalidate_tags(tag)
            n = len(b.ev)
            c.transaction.finish()
            return n
        n = s.run(f)
        dels = [e[1] for e in b.ev[:n] if e[0] == 'del']
        acq = [e[1] for e in b.ev[:n] if e[0] == 'set']
        rel = [e[1] for e in b.ev[n:] if e[0] == 'set']
        _names[tag] = (dels[0] if dels else None, acq[0] if acq else None, rel[0] if rel else None)
    return _names[tag]


class Node(object):
    def __init__(self, key, parent):
        self.key, self.parent, self.deps = key, parent, {}

    def add(self, tags, ver):
        n = self
        while n is not None:
            n.deps.setdefault(ver, set()).update(tags)
            n = n.parent


class Tx(object):
    def __init__(self, start):
        self.start = start
        self.depth = 1
        self.tags = {}        # version -> tags


class MSession(object):
    def __init__(self):
        self.nodes, self.current, self.tx, self.ignore = {}, None, None, False

    def open(self, key):
        if key in self.nodes and self.nodes[key] is self.current:
            return
        self.nodes[key] = Node(key, self.current)
        self.current = self.nodes[key]

    def open_beside(self, key):
        if key in self.nodes and self.nodes[key] is self.current:
            return
        self.nodes[key] = Node(key, self.current)

    def close(self, key):
        n = self.nodes.pop(key, None)
        if n is not None and n is self.current:
            self.current = n.parent
        return n


class Diverged(Exception):
    pass


class World(object):
    def __init__(self, rep, kinds, isolation='READ COMMITTED', delay=0, sessions=3):
        self.rep, self.kinds = rep, kinds
        self.isolation, self.delay = isolation, delay
        self.b = Backend()
        self.s = [Session(i, self.b, isolation, delay) for i in range(sessions)]
        self.m = [MSession() for _ in range(sessions)]
        self.entries, self.rec, self.acq, self.rel = {}, {}, {}, {}
        self.pending = []      # (due, tags, version)
        self.n = 0
        self.hist = []
        self.nontrivial = set()

    # -- reporting
    def diverge(self, kind, what, **detail):
        if kind in self.kinds:
            self.rep.fail(what, kind=kind, isolation=self.isolation, delay=self.delay, history=self.hist, **detail)
        raise Diverged(kind)

    def call(self, i, desc, f):
        self.hist.append((i,) + desc)
        kind, v = self.s[i].do(f)
        if kind == 'exc' and not isinstance(v, Expected):
            self.diverge(kind_of_exc(desc, self.kinds), 'unexpected exception %r' % v)
        return v

    # -- model helpers
    def bv(self, ver):
        return 1 if ver is None else ver

    def live(self, tag, ver):
        r = self.rec.get((tag, self.bv(ver)))
        if r is not None and r[1] <= clock.now:
            r = None
        return r[0] if r else None

    def valid(self, key, ver):
        e = self.entries.get((key, self.bv(ver)))
        if e is None or e['exp'] <= clock.now:
            return None, 'missing'
        for t, g in e['gens'].items():
            if self.live(t, ver) != g:
                return e, 'invalid'
        return e, 'ok'

    def locked(self, i, tags, ver):
        out = set()
        m = self.m[i]
        start = m.tx.start if m.tx else clock.now
        for t in tags:
            a = self.acq.get((t, self.bv(ver)))
            r = self.rel.get((t, self.bv(ver)))
            a = a if a and a['exp'] > clock.now else None
            r = r if r and r['exp'] > clock.now else None
            if r and (a is None or (r['s'] == a['s'] and r['time'] > a['time'])):
                if r['s'] != i and start <= r['time'] + r['delay']:
                    out.add(t)
            elif a and a['s'] != i:
                out.add(t)
        return out

    def minvalidate(self, tags, ver):
        for t in tags:
            self.rec.pop((t, self.bv(ver)), None)

    # -- operations
    def get(self, i, key, ver=None, abort=False, default=None):
        e, why = self.valid(key, ver)
        if not abort and not self.m[i].ignore:
            self.m[i].open(key)
        got = self.call(i, ('get', key, ver, abort), lambda c: c.get(key, default, ver, abort) if abort
                        else c.get(key, default, version=ver))
        self.check_read(key, ver, e, why, got, default)
        if why == 'ok':
            self.mfinish(i, key, set(e['gens']), ver)
        return why == 'ok'

    def check_read(self, key, ver, e, why, got, default):
        if why == 'ok':
            if got != e['value']:
                self.diverge('lost', 'a valid entry was not served unchanged', key=key, version=ver, got=got,
                             stored=e['value'])
        elif got != default:
            self.diverge('stale' if e is not None else 'phantom', 'an invalid entry was served', key=key, version=ver,
                         got=got, why=why)

    def mfinish(self, i, key, tags, ver):
        n = self.m[i].close(key)
        if n is not None:
            n.add(tags, ver)

    def get_many(self, i, keys, ver=None, abort=False, kind='list'):
        keys = list(keys)
        exp = {}
        for k in keys:
            e, why = self.valid(k, ver)
            if why == 'ok':
                exp[k] = e
        if not abort and not self.m[i].ignore:
            for k in keys:
                self.m[i].open_beside(k)
        arg = {'list': list, 'tuple': tuple, 'iter': lambda k: iter(list(k)), 'gen': lambda k: (x for x in k),
               'dict': lambda k: dict.fromkeys(k).keys()}[kind](keys)
        got = self.call(i, ('get_many', keys, ver, abort, kind), lambda c: c.get_many(arg, ver, abort) if abort
                        else c.get_many(arg, version=ver))
        want = {k: e['value'] for k, e in exp.items()}
        if got != want:
            extra = [k for k in got if k not in want]
            missing = [k for k in want if k not in got]
            k = 'stale' if extra and any((x, self.bv(ver)) in self.entries for x in extra) else 'lost'
            self.diverge('bulk' if 'bulk' in self.kinds else k, 'a bulk read differs from the single reads',
                         keys=keys, got=got, want=want, extra=extra, missing=missing)
        for k, e in exp.items():
            self.mfinish(i, k, set(e['gens']), ver)
        return got

    def set(self, i, key, tags, ver=None, timeout=None, how='tags'):
        self.n += 1
        value = ('value', self.n)
        tags = set(tags)
        if key not in self.m[i].nodes:
            self.m[i].nodes[key] = Node(key, self.m[i].current)     # stored inside the innermost open fragment
        n = self.m[i].nodes[key]
        inherited = set(n.deps.get(ver, ()))
        alltags = tags | inherited
        lk = self.locked(i, alltags, ver)
        if inherited:
            self.nontrivial.add('inherited')
        if lk:
            self.nontrivial.add('locked')
        from cache_dependencies.dependencies import TagsDependency, CompositeDependency
        cont = {'tags': tuple, 'list': list, 'set': set, 'fset': frozenset, 'dep': lambda t: TagsDependency(*t),
                'comp': lambda t: CompositeDependency(*[TagsDependency(x) for x in t])}[how]
        before = self.b.data.get((key, self.bv(ver)))
        nev = len(self.b.ev)
        self.call(i, ('set', key, sorted(tags), ver, timeout, how),
                  lambda c: c.set(key, value, cont(sorted(tags)), timeout, ver))
        wrote = [e for e in self.b.ev[nev:] if e[1] == key]
        if lk:
            if wrote or self.b.data.get((key, self.bv(ver))) != before:
                self.diverge('lock', 'an entry was stored although a tag it depends on is locked', locked=sorted(lk),
                             key=key)
        else:
            if not wrote:
                self.diverge('unlock', 'an entry was not stored although none of its tags is locked', key=key,
                             tags=sorted(alltags))
            gens = {}
            for t in alltags:
                g = self.live(t, ver)
                if g is None:
                    self.n += 1
                    g = self.n
                    self.rec[t, self.bv(ver)] = (g, clock.now + 86400)
                gens[t] = g
            self.entries[key, self.bv(ver)] = {'value': value, 'gens': gens, 'own': tags, 'ver': ver,
                                               'exp': clock.now + (300 if timeout is None else timeout)}
        if inherited or self.rep.rng.random() < .3:
            if not lk:
                self.probe(key, ver, alltags, tags)
        self.mfinish(i, key, tags, ver)

    def probe(self, key, ver, alltags, own):
        """Observes which tags the stored entry depends on: invalidates one at a time in a copy of the backend."""
        value = self.entries[key, self.bv(ver)]['value']
        deps = set()
        for t in TAGS:
            b = self.b.clone()
            # outside any session: another cache object of its own thread over the copy
            w = worker(8)

            def f():
                c = make_cache(b)
                if c.get(key, version=ver, abort=True) != value:
                    return 'unreadable'
                c.invalidate_tags(t, version=ver)
                return c.get(key, version=ver, abort=True) != value
            kind, r = w.do(f)
            if kind == 'exc':
                raise r
            if r == 'unreadable':
                self.diverge('lost', 'an entry is not readable after it was stored', key=key, version=ver)
            if r:
                deps.add(t)
        if deps - alltags:
            self.diverge('scope', 'an entry depends on tags of fragments not nested in it', key=key,
                         extra=sorted(deps - alltags))
        if alltags - deps:
            self.diverge('own' if own - deps else 'inherit', 'a stored entry does not depend on all its tags', key=key,
                         missing=sorted(alltags - deps))

    def abort(self, i, key):
        self.call(i, ('abort', key), lambda c: c.abort(key))
        self.m[i].close(key)

    def close(self, i):
        t = self.m[i].tx
        self.call(i, ('close',), lambda c: c.close())
        if t:
            self.mend(i)
        self.m[i].nodes, self.m[i].current = {}, None

    def invalidate(self, i, tags, ver=None, how='names'):
        tags = list(tags)
        from cache_dependencies.dependencies import TagsDependency
        f = {'names': lambda c: c.invalidate_tags(*tags, version=ver), 'list': lambda c: c.invalidate_tags(tags, version=ver),
             'set': lambda c: c.invalidate_tags(set(tags), version=ver),
             'dep': lambda c: c.invalidate_tags(TagsDependency(*tags), version=ver)}[how]
        self.call(i, ('invalidate', tags, ver, how), f)
        m = self.m[i]
        self.minvalidate(tags, ver)
        if m.tx:
            m.tx.tags.setdefault(ver, set()).update(tags)
            if self.isolation in LOCKING:
                for t in tags:
                    self.acq[t, self.bv(ver)] = {'s': i, 'time': m.tx.start, 'exp': clock.now + 5}

    def begin(self, i):
        self.call(i, ('begin',), lambda c: c.transaction.begin() and None)
        m = self.m[i]
        if m.tx is None:
            m.tx = Tx(clock.now)
        else:
            m.tx.depth += 1
            self.nontrivial.add('nested')

    def finish(self, i):
        self.call(i, ('finish',), lambda c: c.transaction.finish())
        m = self.m[i]
        if m.tx:
            m.tx.depth -= 1
            if m.tx.depth == 0:
                self.mend(i)

    def flush(self, i):
        self.call(i, ('flush',), lambda c: c.transaction.flush())
        if self.m[i].tx:
            self.mend(i)

    def mend(self, i):
        m = self.m[i]
        tx, m.tx = m.tx, None
        if tx.tags:
            self.nontrivial.add('ended')
        for ver, tags in tx.tags.items():
            if self.isolation == 'READ COMMITTED':
                self.minvalidate(tags, ver)
            if self.isolation in ('READ COMMITTED', 'READ UNCOMMITTED'):
                if self.delay:
                    self.pending.append((clock.now + self.delay, tags, ver))
            else:
                for t in tags:
                    self.rel[t, self.bv(ver)] = {'s': i, 'time': clock.now, 'delay': self.delay,
                                                 'exp': clock.now + 5 + max(self.delay, 1)}

    def advance(self, dt):
        self.hist.append(('advance', dt))
        end = clock.now + dt
        advance(dt)
        for p in sorted(self.pending, key=lambda p: p[0]):
            if p[0] <= end:
                self.minvalidate(p[1], p[2])
                self.pending.remove(p)

    def observe(self):
        """Compares the version records of all tags with the model."""
        for t in TAGS:
            k = tag_keys(t)[0]
            for v in VERSIONS:
                if v is None:
                    pass
                live = self.b.raw(k, v) is not None
                if live != (self.live(t, v) is not None):
                    self.diverge('end', 'the record of a tag is %s' % ('still there' if live else 'gone'), tag=t,
                                 version=v)

    def read_all(self, i=None):
        for (k, v) in sorted(self.entries, key=repr):
            e, why = self.valid(k, v)
            kind, got = self.s[i or 0].do(lambda c: c.get(k, None, v, True))
            self.hist.append((i or 0, 'get', k, v, True))
            if kind == 'exc':
                self.diverge('lost', 'a read raised %r' % got)
            self.check_read(k, v, e, why, got, None)
            if why == 'ok':
                self.mfinish(i or 0, k, set(e['gens']), v)
            if why == 'invalid':
                self.nontrivial.add('invalid')
            elif why == 'ok':
                self.nontrivial.add('valid')


class Expected(Exception):
    pass


def kind_of_exc(desc, kinds):
    return 'exc' if 'exc' in kinds else sorted(kinds)[0]


def history(rep, kinds, weights, isolations=LEVELS, delays=(0,), sessions=2, steps=25, ends=True):
    """One random history."""
    rng = rep.rng
    w = World(rep, kinds, rng.choice(isolations), rng.choice(delays), sessions)
    names = list(weights)
    pool = [n for n in names for _ in range(weights[n])]
    keys, tags = KEYS[:rng.randrange(2, 6)], TAGS[:rng.randrange(1, len(TAGS) + 1)]
    vers = rng.choice([[None], [None], [2], [None, 2], [0, 2], VERSIONS])

    def sometags():
        return rng.sample(tags, rng.randrange(0, min(4, len(tags) + 1)))

    def store(i, key, ver):
        w.set(i, key, sometags(), ver, rng.choice([None, None, 60, 1000]),
              rng.choice(['tags', 'list', 'set', 'fset', 'dep', 'comp']))

    def fragment(i, depth):
        """A fragment built the way callers do: read, and on a miss build (reading and storing others) and store."""
        key, ver = rng.choice([k for k in keys if k not in building[i]] or [None]), rng.choice(vers)
        if key is None:
            return
        if w.get(i, key, ver):
            return
        building[i].append(key)
        for _ in range(rng.randrange(3) if depth else 0):
            r = rng.random()
            if r < .6:
                fragment(i, depth - 1)
            elif r < .75:
                ks = [k for k in keys if k not in building[i]]
                w.get_many(i, rng.sample(ks, rng.randrange(len(ks) + 1)), ver)
            elif r < .85 and 'inv' in weights:
                w.invalidate(i, sometags(), rng.choice(vers))
            else:
                step(rng.choice([x for x in range(sessions) if x != i] or [i]), rng.choice(pool), depth - 1)
        building[i].remove(key)
        r = rng.random()
        if r < .7:
            store(i, key, rng.choice([ver, ver, ver, rng.choice(vers)]))
        elif r < .85:
            w.abort(i, key)

    building = [[] for _ in range(sessions)]

    def step(i, op, depth=3):
        free = [k for k in keys if k not in building[i]]
        if op == 'frag':
            fragment(i, depth)
        elif op == 'set' and free:
            store(i, rng.choice(free), rng.choice(vers))
        elif op == 'get' and free:
            w.get(i, rng.choice(free), rng.choice(vers), abort=rng.random() < .5, default=rng.choice([None, 'dflt']))
        elif op == 'many' and free:
            w.get_many(i, rng.sample(free, rng.randrange(len(free) + 1)), rng.choice(vers), rng.random() < .3,
                       rng.choice(['list', 'tuple', 'iter', 'gen', 'dict']))
        elif op == 'inv':
            w.invalidate(i, sometags(), rng.choice(vers), rng.choice(['names', 'list', 'set', 'dep']))
        elif op == 'begin':
            w.begin(i)
        elif op == 'finish' and not building[i]:
            w.finish(i)
        elif op == 'flush' and not building[i]:
            w.flush(i)
        elif op == 'close' and not building[i]:
            w.close(i)
        elif op == 'adv':
            w.advance(rng.choice([0.25, 1, 1.5, 2, 3, 4, 7]))
        elif op == 'all':
            w.read_all(rng.randrange(sessions))
    try:
        for _ in range(rng.randrange(3, steps)):
            step(rng.randrange(sessions), rng.choice(pool))
        if ends:
            for i in range(sessions):
                w.flush(i)
            w.read_all()
            w.advance(20)
            w.read_all()
    except Diverged:
        pass
    rep.case(tuple(map(repr, w.hist)))
    del timers[:]
    return w
