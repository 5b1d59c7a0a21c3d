"""C19: model changes invalidate the registered tags."""
from replay.common import worker

ALIASES = ('default', 'second', 'third')
TAGS = ['a', 'b', 'c', 'd', 'model', 'model:1', 'model:2', '']
_models = {}


def model(name):
    if name not in _models:
        from django.db import models, connection

        class Meta:
            app_label = 'django_cache_dependencies'
        m = type(str(name), (models.Model,), {'__module__': 'replay.c19', 'Meta': Meta,
                                              'title': models.CharField(max_length=50, default='x')})
        with connection.schema_editor() as e:
            e.create_model(m)
        _models[name] = m
    return _models[name]


def fill():
    from django_cache_dependencies import caches
    for a in ALIASES:
        for t in TAGS:
            caches[a].set('e:' + t, 1, [t])


def gone():
    from django_cache_dependencies import caches
    return {(a, t) for a in ALIASES for t in TAGS if caches[a].get('e:' + t, abort=True) is None}


def forms(tags):
    out = [('tuple', tuple(tags)), ('list', list(tags)), ('set', set(tags)), ('frozenset', frozenset(tags))]
    if len(tags) == 1:
        out.append(('one', tags[0]))
    return out


def check_registered(rep):
    rep.rule.add('handlers for several models, caches, forms of results and call signatures; each save and delete compared '
                 'by what becomes invalid on every cache; non-trivial: several handlers for one model')
    import django_cache_dependencies as dj
    from django_cache_dependencies import CacheRegistry
    rng = rep.rng
    seen = []

    def signature(i, f):
        if i == 0:
            return lambda obj: f(obj)
        if i == 1:
            return lambda *args, **kwargs: f(kwargs['instance'])
        if i == 2:
            return lambda sender, instance, **kwargs: f(instance)
        return lambda instance, signal=None, **kwargs: f(instance)
    k = 0
    for n in range(8 * rep.scale):
        M, N = model('M%d' % n), model('N%d' % n)
        handlers, expected = [], {M: [], N: []}
        for _ in range(rng.randrange(1, 4)):
            who = rng.choice([M, N])
            tags = rng.sample(TAGS, rng.choice([0, 1, 1, 2, 3]))
            kind, val = rng.choice(forms(tags))
            how = rng.choice(['none', 'alias', 'object', 'falsy'])
            alias = 'default' if how in ('none', 'falsy') else rng.choice(ALIASES)
            target = {'none': (), 'alias': (alias,), 'falsy': (None,), 'object': (dj.caches[alias],)}[how]
            calls = []

            def f(obj, val=val, calls=calls):
                calls.append((obj, obj.pk))
                return val
            s = rng.randrange(4)
            handlers.append((who, signature(s, f)) + target)
            expected[who].append((alias, set(tags), calls))
            seen.append((kind, how, alias, s, len(tags)))
        reg = CacheRegistry()
        reg.register(handlers if n % 2 else tuple(handlers))
        for who in (M, N):
            for action in ('create', 'update', 'delete'):
                fill()
                for _, _, calls in expected[who] + expected[N if who is M else M]:
                    del calls[:]
                if action == 'create':
                    obj = who()
                if action == 'delete':
                    pk = obj.pk
                    obj.delete()
                else:
                    obj.save()
                    pk = obj.pk
                k += 1
                rep.case((n, who.__name__, action))
                want = {(a, t) for a, ts, _ in expected[who] for t in ts}
                rep.check(gone() == want, 'not exactly the registered tags were invalidated', action=action,
                          handlers=[(a, sorted(t)) for a, t, _ in expected[who]], expected=want, got=gone())
                rep.check(all(c == [(obj, pk)] for _, _, c in expected[who]), 'the function did not get the instance once',
                          action=action, calls=[c for _, _, c in expected[who]])
                rep.check(not any(c for _, _, c in expected[N if who is M else M]),
                          'a handler of another model was called', action=action)


def check_transaction(rep):
    """Within a transaction the invalidation counts as one of the transaction."""
    import django_cache_dependencies as dj
    M = model('T')
    dj.CacheRegistry().register([(M, lambda obj: 'model')])
    c = dj.caches['default']
    c.transaction.begin()
    M().save()
    fill()
    c.transaction.finish()
    rep.case('transaction')
    rep.check(('default', 'model') in gone(), 'not invalidated at the end of the transaction')


def check_errors(rep):
    """What the function raises is not swallowed."""
    import django_cache_dependencies as dj

    class Boom(Exception):
        pass

    def f(obj, **kwargs):
        raise Boom()
    M = model('E')
    dj.CacheRegistry().register([(M, f)])
    fill()
    rep.case('error')
    try:
        M().save()
    except Boom:
        pass
    else:
        rep.fail('the exception of the function was swallowed')
    rep.check(gone() == set(), 'something was invalidated although the function raised')


def check_per_thread(rep):
    """The cache is that of the thread in which the model is changed."""
    import django_cache_dependencies as dj
    M = model('P')
    dj.CacheRegistry().register([(M, lambda obj: 'model', 'second')])
    from django.db.models import signals
    M._meta
    k, r = worker(3).do(lambda: (dj.caches['second'].transaction.begin(),
                                 signals.post_save.send(sender=M, instance=M(), created=True))[0] and None)
    rep.case('thread')
    rep.check(k == 'ret', 'raised in another thread', error=r)
    fill()
    worker(3).do(lambda: dj.caches['second'].transaction.finish())
    rep.check(gone() == {('second', 'model')}, 'not invalidated by the transaction of the changing thread', got=gone())


def check_registered_again(rep):
    """One model registered in several calls, on one registry or several."""
    import django_cache_dependencies as dj
    for n, regs in enumerate(([0, 0], [0, 1], [0, 0, 0], [0, 1, 0, 1])):
        M, N = model('Again%d' % n), model('AgainN%d' % n)
        made = [dj.CacheRegistry() for _ in range(2)]
        want = set()
        for i, r in enumerate(regs):
            tag, alias = 'abcd'[i], ALIASES[i % 3]
            made[r].register([(N, lambda obj: 'model:2', 'third')] if i == 1 else [])
            made[r].register([(M, lambda obj, tag=tag: tag, alias)])
            want.add((alias, tag))
        fill()
        rep.case(n)
        M().save()
        rep.check(gone() == want, 'not exactly the registered tags were invalidated', registries=regs, expected=want, got=gone())
        fill()
        N().save()
        rep.check(gone() == {('third', 'model:2')}, 'not exactly the registered tags were invalidated', registries=regs,
                  got=gone())
