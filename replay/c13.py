"""C13: per-thread objects refuse use from other threads."""
from replay.common import in_thread, make_cache, Backend


def check_confinement(rep):
    rep.rule.add('every operation of both decorators, in and outside the creating thread, over random prior states; '
                 'non-trivial: the wrapped manager holds open nodes or scopes')
    from cache_dependencies.locks import DependencyLock
    from cache_dependencies.relations import RelationManager, ThreadSafeRelationManagerDecorator, CacheNode
    from cache_dependencies.transaction import TransactionManager, ThreadSafeTransactionManagerDecorator
    rng = rep.rng
    for _ in range(60 * rep.scale):
        lock = DependencyLock.make('READ COMMITTED', lambda: None, 0)
        tm, rm = TransactionManager(lock), RelationManager()
        stm, srm = ThreadSafeTransactionManagerDecorator(tm), ThreadSafeRelationManagerDecorator(rm)
        trace = []
        for _ in range(rng.randrange(5)):
            k = rng.choice('abc')
            trace.append(('rm', k))
            srm.current(k)
        for _ in range(rng.randrange(4)):
            trace.append(('tm',))
            stm.begin()
        node = rm.current()
        tx = tm.current()

        def state():
            return (dict(vars(rm)), dict(rm.__dict__.get('_data') or {}), dict(vars(tm)), rm.current() is node,
                    bool(tm.current()))
        ops = [
            ('rm.get', lambda: srm.get('a')), ('rm.get new', lambda: srm.get('zz')),
            ('rm.current', lambda: srm.current()), ('rm.current key', lambda: srm.current('b')),
            ('rm.current node', lambda: srm.current(node)),
            ('rm.pop', lambda: srm.pop('a')), ('rm.clear', lambda: srm.clear()),
            ('tm.current', lambda: stm.current()), ('tm.current node', lambda: stm.current(None)),
            ('tm.begin', lambda: stm.begin()), ('tm.finish', lambda: stm.finish()), ('tm.flush', lambda: stm.flush()),
            ('tm.enter', lambda: stm.__enter__()), ('tm.exit', lambda: stm.__exit__(None, None, None)),
            ('tm.decorated', lambda: stm(lambda: 1)()),
        ]
        for name, op in ops:
            before = state()
            kind, v = in_thread(op)
            rep.case((tuple(trace), name))
            rep.check(kind == 'exc' and isinstance(v, RuntimeError), 'operation of another thread was not refused',
                      operation=name, history=trace, outcome=(kind, v))
            rep.check(state() == before, 'operation of another thread had an effect', operation=name, history=trace)
        # in its own thread: as the wrapped manager
        lock2 = DependencyLock.make('READ COMMITTED', lambda: None, 0)
        rm2 = RelationManager()
        srm2 = ThreadSafeRelationManagerDecorator(RelationManager())
        tm2 = TransactionManager(lock2)
        stm2 = ThreadSafeTransactionManagerDecorator(TransactionManager(lock2))

        def show(x):
            if x is None or isinstance(x, (str, bool)):
                return x
            if hasattr(x, 'key'):
                out = []
                while x:
                    out.append(x.key())
                    x = x.parent()
                return tuple(out)
            n = 0
            while x:
                n, x = n + 1, x.parent()
            return (type(x).__name__, n)
        seq = []
        for _ in range(8):
            op = rng.choice(['get', 'current', 'cur', 'pop', 'clear', 'begin', 'finish', 'tcur', 'flush'])
            k = rng.choice('abc')
            seq.append((op, k))
            res = []
            for r, t in ((rm2, tm2), (srm2, stm2)):
                f = {'get': lambda: r.get(k), 'current': lambda: r.current(k), 'cur': lambda: r.current(),
                     'pop': lambda: r.pop(k), 'clear': lambda: r.clear(), 'begin': lambda: t.begin(),
                     'finish': lambda: t.finish(), 'tcur': lambda: t.current(), 'flush': lambda: t.flush()}[op]
                try:
                    res.append(('ret', show(f()), show(r.current()), show(t.current())))
                except Exception as e:
                    res.append(('exc', type(e).__name__))
            rep.case(tuple(seq))
            if not rep.check(res[0] == res[1], 'differs from the wrapped manager', sequence=seq, results=res):
                break


def check_cache_refuses(rep):
    """A cache object used from another thread raises through its managers."""
    c = make_cache(Backend())
    for name, op in [('get', lambda: c.get('k')), ('set', lambda: c.set('k', 1, ('t',))),
                     ('invalidate', lambda: c.invalidate_tags('t')), ('close', lambda: c.close()),
                     ('begin', lambda: c.transaction.begin()), ('flush', lambda: c.transaction.flush())]:
        kind, v = in_thread(op)
        rep.case(name)
        rep.check(kind == 'exc' and isinstance(v, RuntimeError), 'cache operation of another thread was not refused',
                  operation=name, outcome=(kind, v))


def check_same_name(rep):
    """Another thread of the same name is another thread."""
    import threading
    from cache_dependencies.locks import DependencyLock
    from cache_dependencies.relations import RelationManager, ThreadSafeRelationManagerDecorator
    from cache_dependencies.transaction import TransactionManager, ThreadSafeTransactionManagerDecorator
    made, out = {}, []

    def make():
        made['tm'] = ThreadSafeTransactionManagerDecorator(
            TransactionManager(DependencyLock.make('READ COMMITTED', lambda: None, 0)))
        made['rm'] = ThreadSafeRelationManagerDecorator(RelationManager())
        stop.wait(30)

    def use():
        for name, op in (('rm.get', lambda: made['rm'].get('a')), ('rm.current', lambda: made['rm'].current('a')),
                         ('rm.pop', lambda: made['rm'].pop('a')), ('rm.clear', lambda: made['rm'].clear()),
                         ('tm.begin', lambda: made['tm'].begin()), ('tm.current', lambda: made['tm'].current()),
                         ('tm.finish', lambda: made['tm'].finish()), ('tm.flush', lambda: made['tm'].flush())):
            try:
                out.append((name, 'ret', op()))
            except Exception as e:
                out.append((name, 'exc', type(e)))
    stop = threading.Event()
    a = threading.Thread(target=make, name='worker')
    a.daemon = True
    a.start()
    while 'rm' not in made:
        stop.wait(.01)
    b = threading.Thread(target=use, name='worker')
    b.start()
    b.join()
    stop.set()
    a.join()
    rep.case('name')
    for name, kind, v in out:
        rep.check(kind == 'exc' and v is RuntimeError, 'operation of another thread was not refused', operation=name,
                  outcome=(kind, v))
    rep.check(len(out) == 8, 'operation of another thread was not refused', outcome=out)
