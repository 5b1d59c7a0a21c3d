"""C21: request transactions are always closed."""
from replay.common import worker, advance


class Boom(Exception):
    pass


def levels(alias):
    """Open scopes of an alias, observed by closing them."""
    from django_cache_dependencies import caches
    n = 0
    tx = caches[alias].transaction
    while bool(tx.current()) and n < 20:
        tx.finish()
        n += 1
    return n


def check_requests(rep):
    rep.rule.add('requests whose views open and close transactions on several caches and invalidate, return or raise, '
                 'through old and new style middleware; non-trivial: scopes left open by the view')
    from django_cache_dependencies import caches
    from django_cache_dependencies.middleware import TransactionMiddleware
    from django.test import RequestFactory
    from django.http import HttpResponse
    rng = rep.rng
    for alias in ('default', 'second', None, 'absent'):
        for style in ('old', 'new', 'exception'):
            for left in (0, 1, 2, 5):
                for extra in (0, 1):
                    for outer in (0, 1):
                        kw = {} if alias == 'absent' else {'cache_alias': alias}
                        name = alias if alias == 'second' else 'default'
                        other = 'second' if name == 'default' else 'default'
                        w = rng.randrange(3)

                        def run():
                            for a in ('default', 'second'):
                                caches[a].close()
                            if outer:
                                caches[other].transaction.begin()
                            mids = []
                            resp = HttpResponse('x')

                            def view(request):
                                mids.append(levels_peek(name))
                                for _ in range(left):
                                    caches[name].transaction.begin()
                                for _ in range(extra):
                                    caches[name].transaction.begin()
                                    caches[name].invalidate_tags('t')
                                    caches[name].transaction.finish()
                                caches[name].invalidate_tags('u')
                                for t in 'tu':
                                    caches[name].set('e' + t, 1, [t])
                                mids.append([caches[name].get('e' + t, abort=True) for t in 'tu'])
                                return resp
                            m = TransactionMiddleware(view, **kw)
                            req = RequestFactory().get('/')
                            if style == 'new':
                                out = m(req)
                            else:
                                if m.process_request(req) is not None:
                                    return 'process_request answered'
                                out = view(req)
                                if style == 'old':
                                    out = m.process_response(req, out)
                                else:
                                    if m.process_exception(req, Boom()) is not None:
                                        return 'process_exception answered'
                            after = [caches[name].get('e' + t, abort=True) for t in 'tu']
                            return (mids[0], mids[1], levels(name), levels(other), out is resp, after)
                        k, r = worker(w).do(run)
                        rep.case((alias, style, left, extra, outer))
                        want = (1, [1, 1], 0, outer, True, [None if extra else 1, None])
                        rep.check(k == 'ret' and r == want, 'a request transaction was not opened or closed as it must',
                                  alias=alias, style=style, scopes_left_open=left, nested=extra, expected=want, got=r)


def levels_peek(alias):
    """Number of open scopes, without closing them: how many finishes it takes, replayed on a walk up the parents."""
    from django_cache_dependencies import caches
    cur, n = caches[alias].transaction.current(), 0
    while bool(cur) and n < 20:
        n += 1
        cur = cur.parent()
    return n


def check_response_only(rep):
    """The end without a beginning has no effect; an old transaction left by an earlier request is closed too."""
    from django_cache_dependencies import caches
    from django_cache_dependencies.middleware import TransactionMiddleware
    for n in (0, 3):
        for how in ('response', 'exception'):
            for a in ('default', 'second'):
                caches[a].close()
            for _ in range(n):
                caches['second'].transaction.begin()
            m = TransactionMiddleware(cache_alias='second')
            o = object()
            rep.case((n, how))
            if how == 'response':
                rep.check(m.process_response(None, o) is o, 'another response')
            else:
                rep.check(m.process_exception(None, Boom()) is None, 'the exception was answered')
            rep.check(levels('second') == 0, 'scopes left open')


def check_threads(rep):
    """Only the transactions of the thread of the request."""
    from django_cache_dependencies import caches
    from django_cache_dependencies.middleware import TransactionMiddleware
    m = TransactionMiddleware()
    for i in range(3):
        worker(i).do(lambda: (caches['default'].close(), m.process_request(None)) and None)
    worker(1).do(lambda: m.process_response(None, 1))
    got = [worker(i).do(lambda: levels('default'))[1] for i in range(3)]
    rep.case('threads')
    rep.check(got == [1, 0, 1], 'transactions of other threads were touched', got=got)
