"""C20: the page cache."""
import itertools
from replay.common import advance

TAGS = ['v1', 'v2', 'r1', 'r2', 'other']


def state():
    import django.core.cache
    return {a: (dict(django.core.cache.caches[a]._cache), dict(django.core.cache.caches[a]._expire_info))
            for a in ('default', 'second')}


def restore(st):
    import django.core.cache
    for a, (d, e) in st.items():
        c = django.core.cache.caches[a]
        c._cache.clear()
        c._cache.update(d)
        c._expire_info.clear()
        c._expire_info.update(e)


def close():
    from django_cache_dependencies import caches
    for a in ('default', 'second'):
        caches[a].close()


class User(object):
    def __init__(self, auth):
        self.auth = auth

    def is_authenticated(self):
        return self.auth


class Sess(dict):
    accessed = False


def request(method='GET', path='/p/', **kw):
    from django.test import RequestFactory
    r = getattr(RequestFactory(), method.lower())(path, **kw)
    r.session = Sess()
    r.user = User(False)
    return r


def configure(seconds=600, prefix='', anon=False, alias='default'):
    from django.conf import settings
    settings.CACHE_MIDDLEWARE_SECONDS = seconds
    settings.CACHE_MIDDLEWARE_KEY_PREFIX = prefix
    settings.CACHE_MIDDLEWARE_ANONYMOUS_ONLY = anon
    settings.CACHE_MIDDLEWARE_ALIAS = alias
    settings.USE_ETAGS = False


def pair(kind, tags=None, **kw):
    from django_cache_dependencies import middleware as m
    if kind == 'one':
        x = m.CacheMiddleware(tags=tags, **kw) if tags is not None else m.CacheMiddleware(**kw)
        return x, x
    u, f = m.UpdateCacheMiddleware(), m.FetchFromCacheMiddleware()
    if tags is not None:
        u.tags = tags
    return u, f


def through(mw, req, view):
    """One request, as the handler runs it; (response, answered from the cache)."""
    u, f = mw
    r = f.process_request(req)
    hit = r is not None
    if not hit:
        r = view(req)
        r = u.process_response(req, r)
    if hasattr(r, 'render') and callable(r.render):
        r = r.render()
    close()
    return r, hit


def make_response(body, status=200, max_age=None, vary=None, streaming=False, template=False, headers=()):
    from django.http import HttpResponse, StreamingHttpResponse
    from django.template.response import SimpleTemplateResponse
    from django.template import engines
    if streaming:
        r = StreamingHttpResponse([body.encode()], status=status)
    elif template:
        r = SimpleTemplateResponse(engines['django'].from_string(body), status=status)
    else:
        r = HttpResponse(body, status=status)
    if max_age is not None:
        r['Cache-Control'] = 'max-age=%d' % max_age
    if vary:
        r['Vary'] = vary
    for k, v in headers:
        r[k] = v
    return r


def check_policy(rep):
    rep.rule.add('requests by method, prior miss, prevention, status, streaming, timeouts, session use, tags and kind of '
                 'response; stored or not, time, tags and headers compared with an independent statement; non-trivial: '
                 'exactly one condition forbids storing')
    base = dict(method='GET', prevent=False, status=200, streaming=False, max_age=None, seconds=600, anon=False,
                session='no', tags=None, reqtags=None, template=False, vary=None, kind='two', prefix='', alias='default')
    axes = dict(method=['HEAD', 'POST', 'PUT', 'DELETE', 'OPTIONS'], prevent=[True], status=[201, 204, 301, 304, 404, 500],
                streaming=[True], max_age=[0, 5, 50, 5000], seconds=[1, 50, 0, None], anon=[True],
                session=['anon', 'user'], tags=[['v1'], ['v1', 'v2'], ('v1',), set(), 'falsy'],
                reqtags=[{'r1'}, {'r1', 'r2'}, {'v1', 'r1'}, set()], template=[True],
                vary=['Accept-Encoding', 'Cookie, X-A', 'Accept-Language'],
                kind=['one'], prefix=['pp'], alias=['second'])
    cases = [dict(base)]
    for a in axes:
        cases += [dict(base, **{a: v}) for v in axes[a]]
    for a, b in itertools.combinations(sorted(axes), 2):
        cases += [dict(base, **{a: v, b: w}) for v in axes[a] for w in axes[b]]
    rng = rep.rng
    if rep.scale < 3:
        cases = cases[:60] + rng.sample(cases[60:], 330)
    for _ in range(60 * rep.scale):
        cases.append({a: rng.choice([base[a]] * 2 + axes[a]) for a in base})
    for case in cases:
        policy(rep, case)


def policy(rep, c):
    from django_cache_dependencies import caches
    from django_cache_dependencies.utils import prevent_cache_page
    configure(c['seconds'] if c['seconds'] is not None else 600, c['prefix'], c['anon'], c['alias'])
    restore({'default': ({}, {}), 'second': ({}, {})})
    tagf = None
    if c['tags'] == 'falsy':
        tagf = () if c['kind'] == 'one' else None
        if c['kind'] == 'two':
            tagf = ()
    elif c['tags'] is not None:
        tagf = lambda request: c['tags']
    kw = {}
    if c['kind'] == 'one':
        kw = dict(key_prefix=c['prefix'], cache_alias=c['alias'], cache_timeout=c['seconds'], cache_anonymous_only=c['anon'])
    mw = pair(c['kind'], tagf, **kw)
    bodies = []

    def view(req):
        if c['session'] != 'no':
            req.session.accessed = True
            req.user = User(c['session'] == 'user')
        if c['reqtags'] is not None:
            req.cache_tagging = set(c['reqtags'])
        if c['prevent']:
            prevent_cache_page(req)
        bodies.append('body %d' % len(bodies))
        r = make_response(bodies[-1], c['status'], c['max_age'], c['vary'], c['streaming'], c['template'],
                          [('X-Own', 'yes'), ('Last-Modified', 'x')])
        made.append((r, list(r.items()), None if c['streaming'] or c['template'] else r.content))
        return r
    made = []
    r, hit = through(mw, request(c['method']), view)
    info = dict(case={k: v for k, v in c.items()})
    rep.case(repr(sorted(c.items(), key=repr)))
    rep.check(not hit, 'answered from an empty cache', **info)
    r0, h0, content0 = made[0]
    rep.check(r is r0, 'the response was replaced', **info)
    rep.check([x for x in r.items() if x[0] != 'ETag'] == h0 and (content0 is None or r.content == content0) and
              r.status_code == c['status'], 'the response was changed', headers=list(r.items()), **info)
    timeout = c['max_age']
    if timeout is None:
        timeout = c['seconds'] if c['seconds'] is not None else 600
    stored = (c['method'] in ('GET', 'HEAD') and not c['prevent'] and c['status'] == 200 and not c['streaming'] and timeout
              and not (c['anon'] and c['session'] == 'user'))
    empty = all(not d for d, _ in state().values())
    if not stored:
        rep.check(not any(k for k in state()[c['alias']][0] if 'cache_page' in k), 'stored although it must not be',
                  keys=list(state()[c['alias']][0]), **info)
    other = 'second' if c['alias'] == 'default' else 'default'
    rep.check(not state()[other][0], 'something was stored in another cache', **info)
    snap = state()

    def again(method=c['method'], **rkw):
        n = len(made)
        x, hit = through(mw, request(method, **rkw), view)
        if hit:
            return x
        rep.check(len(made) == n + 1, 'neither answered from the cache nor by the view', **info)
        return None
    x = again()
    restore(snap)
    if not stored:
        rep.check(x is None, 'served although it must not have been stored', **info)
        return
    if not rep.check(x is not None, 'not served although it was allowed to be stored', **info):
        return
    rep.check(x.content.decode() == bodies[0] and x.status_code == 200 and x['X-Own'] == 'yes',
              'another response was served', got=x.content, **info)
    for m in ('POST', 'PUT', 'DELETE', 'OPTIONS', 'PATCH'):
        restore(snap)
        rep.check(again(m) is None, 'a request with another method was answered from the cache', method=m, **info)
    restore(snap)
    rep.check(again(path='/q/') is None, 'another page was answered with it', **info)
    if c['method'] == 'GET':
        restore(snap)
        rep.check(again('HEAD') is not None, 'HEAD was not answered from the stored GET', **info)
    if c['method'] == 'HEAD':
        restore(snap)
        rep.check(again('GET') is None, 'GET was answered from the stored HEAD', **info)
    restore(snap)
    # time
    want = set()
    if c['tags'] not in (None, 'falsy'):
        want |= set(c['tags'])
    if c['reqtags']:
        want |= c['reqtags']
    for t in TAGS:
        restore(snap)
        caches[c['alias']].invalidate_tags(t)
        rep.check((again() is None) == (t in want), 'a wrong set of tags', tag=t, expected=sorted(want), **info)
    restore(snap)
    # time
    import replay.common as common
    start = common.clock.now
    advance(timeout - .5)
    alive = again() is not None
    restore(snap)
    advance(1)
    dead = again() is None
    restore(snap)
    common.clock.now = start
    rep.check(alive and dead, 'not kept for its timeout', timeout=timeout, alive=alive, dead=dead, **info)


def check_vary(rep):
    """Requests that differ in a header the response varies on do not share an entry; prefixes separate pages."""
    configure()
    for kind in ('one', 'two'):
        restore({'default': ({}, {}), 'second': ({}, {})})
        mw = pair(kind)
        n = []

        def view(req):
            n.append(1)
            return make_response('%s %s' % (req.META.get('HTTP_X_A'), req.META.get('HTTP_X_B')), vary='X-A')
        out = []
        for a, b in ((1, 1), (2, 1), (1, 2), (2, 2), (None, 1)):
            kw = {'HTTP_X_B': str(b)}
            if a:
                kw['HTTP_X_A'] = str(a)
            r, hit = through(mw, request(**kw), view)
            out.append((hit, r.content.decode()))
        rep.case(kind)
        rep.check(out == [(False, '1 1'), (False, '2 1'), (True, '1 1'), (True, '2 1'), (False, 'None 1')],
                  'wrong entries for a varying page', got=out)
    restore({'default': ({}, {}), 'second': ({}, {})})
    a, b = pair('one', key_prefix='a'), pair('one', key_prefix='b')
    through(a, request(), lambda r: make_response('a'))
    r, hit = through(b, request(), lambda r: make_response('b'))
    rep.case('prefix')
    rep.check(not hit, 'two prefixes share an entry')


def check_no_user(rep):
    """Requests without session or user."""
    from django.test import RequestFactory
    for anon in (False, True):
        configure(anon=anon)
        for kind in ('one', 'two'):
            restore({'default': ({}, {}), 'second': ({}, {})})
            mw = pair(kind)
            got = []
            for i in range(2):
                got.append(through(mw, RequestFactory().get('/x/'), lambda r: make_response('x'))[1])
            rep.case((anon, kind))
            rep.check(got == [False, True], 'a request without a session was not cached', got=got)
    # updating without having fetched: nothing is known about a miss
    configure()
    restore({'default': ({}, {}), 'second': ({}, {})})
    u, f = pair('two')
    req = request()
    u.process_response(req, make_response('x'))
    close()
    rep.case('no fetch')
    rep.check(through((u, f), request(), lambda r: make_response('y'))[1] is False, 'stored though the cache was not asked')


def check_prevent_after(rep):
    """A response that came from the cache is not stored again."""
    configure(seconds=10)
    for kind in ('one', 'two'):
        restore({'default': ({}, {}), 'second': ({}, {})})
        mw = pair(kind)
        through(mw, request(), lambda r: make_response('x'))
        u, f = mw
        advance(6)
        req = request()
        r = f.process_request(req)
        u.process_response(req, r)
        close()
        advance(6)
        rep.case(kind)
        rep.check(through(mw, request(), lambda r: make_response('y'))[1] is False, 'a served page prolonged its own life')


def check_etag(rep):
    """The entity tag: only where demanded, unless there is one."""
    import hashlib
    from django.conf import settings
    for use in (False, True):
        for own in (None, '"mine"'):
            for template in (False, True):
                configure()
                settings.USE_ETAGS = use
                restore({'default': ({}, {}), 'second': ({}, {})})
                mw = pair('two')
                made = []

                def view(r):
                    made.append(make_response('x', template=template, headers=[('ETag', own)] if own else []))
                    return made[0]
                r, _ = through(mw, request(), view)
                want = own or (use and '"%s"' % hashlib.md5(b'x').hexdigest()) or None
                rep.case((use, own, template))
                rep.check(r is made[0] and r.get('ETag') == want and r.content == b'x', 'wrong entity tag',
                          expected=want, got=r.get('ETag'))
    settings.USE_ETAGS = False


def check_shared_tags(rep):
    """A collection of tags that the caller's function returns again and again stays the caller's."""
    from django_cache_dependencies import caches
    configure()
    for kind in ('one', 'two'):
        for make in (set, list):
            restore({'default': ({}, {}), 'second': ({}, {})})
            shared = make(['v1'])
            mw = pair(kind, lambda request: shared)

            def ask(path, tag):
                def view(req):
                    req.cache_tagging = own = {tag}
                    owns.append(own)
                    return make_response(path)
                owns = []
                r = through(mw, request(path=path), view)[1]
                rep.check(all(o == {tag} for o in owns), 'the tags of the request were changed', got=owns)
                return r
            ask('/a/', 'r1')
            ask('/b/', 'r2')
            rep.case((kind, make.__name__))
            rep.check(shared == make(['v1']), 'the collection of the caller was changed', got=shared)
            snap = state()
            for tag, want in (('r1', (False, True)), ('r2', (True, False)), ('v1', (False, False)), ('v2', (True, True))):
                restore(snap)
                caches['default'].invalidate_tags(tag)
                got = ask('/a/', 'r1'), ask('/b/', 'r2')
                rep.check(got == want, 'a page depends on wrong tags', tag=tag, served=got, expected=want)


def check_header_list(rep):
    """The list of headers a page varies on depends on the tags of the page."""
    from django.utils.cache import get_cache_key
    from django_cache_dependencies import caches
    configure()
    for vary in (None, 'X-A'):
        for tag, want in (('v1', False), ('r1', False), ('other', True)):
            restore({'default': ({}, {}), 'second': ({}, {})})
            mw = pair('one', lambda request: ['v1'])

            def view(req):
                req.cache_tagging = {'r1'}
                return make_response('p', vary=vary)
            through(mw, request(HTTP_X_A='1'), view)
            caches['default'].invalidate_tags(tag)
            key = get_cache_key(request(HTTP_X_A='1'), '', 'GET', cache=caches['default'])
            close()
            rep.case(repr((vary, tag)))
            rep.check((key is not None) == want, 'the list of headers depends on other tags than the page', vary=vary, tag=tag)


def check_decorator(rep):
    """cache_page in its calling conventions."""
    from django_cache_dependencies import caches
    from django_cache_dependencies.decorators import cache_page
    configure(seconds=100)

    def run(decorate, timeout, alias='default', tags=()):
        restore({'default': ({}, {}), 'second': ({}, {})})
        n = []

        def view(request, x, y=2):
            n.append((x, y))
            return make_response('%s %s %d' % (x, y, len(n)))
        v = decorate(view)

        def ask():
            r = v(request(), 1, y=3)
            close()
            return r.content.decode()
        first, second = ask(), ask()
        rep.check(first == second == '1 3 1' and n == [(1, 3)], 'the page was not cached', got=(first, second))
        snap = state()
        rep.check(not snap['second' if alias == 'default' else 'default'][0], 'stored in another cache')
        for t in TAGS:
            restore(snap)
            caches[alias].invalidate_tags(t)
            rep.check((ask() != first) == (t in tags), 'wrong tags', tag=t, expected=tags)
        restore(snap)
        advance(timeout - 1)
        rep.check(ask() == first, 'not kept for its timeout', timeout=timeout)
        restore(snap)
        advance(2)
        rep.check(ask() != first, 'kept longer than its timeout', timeout=timeout)
    rep.case('decorator')
    run(cache_page(50), 50)
    run(cache_page(50, cache='second'), 50, 'second')
    run(cache_page(50, key_prefix='x', tags=lambda r: ['v1', 'v2']), 50, tags=('v1', 'v2'))
    run(cache_page(), 100)
    run(lambda v: cache_page(v), 100)
    run(lambda v: cache_page(v, 50), 50)
    run(lambda v: cache_page(50, v), 50)
    run(lambda v: cache_page(v, 50, tags=lambda r: ('r1',), cache='second'), 50, 'second', ('r1',))


def check_tags_each_time(rep):
    """The tags are those the function gives for this request, each time a page is stored."""
    from django_cache_dependencies import caches
    configure()
    for kind in ('one', 'two'):
        restore({'default': ({}, {}), 'second': ({}, {})})
        now = ['v0']
        mw = pair(kind, lambda request: list(now))

        def ask(path='/t/'):
            return through(mw, request(path=path), lambda req: make_response(path))[1]
        ask()
        for i in range(1, 4):
            caches['default'].invalidate_tags('v%d' % (i - 1))
            now[:] = ['v%d' % i]
            rep.case((kind, i))
            rep.check(not ask(), 'a page of an invalidated tag was served', kind=kind, tag='v%d' % (i - 1))
            rep.check(ask(), 'a page was not stored', kind=kind)
            caches['default'].invalidate_tags('v%d' % (i - 1))
            rep.check(ask(), 'a page depends on wrong tags', kind=kind, tag='v%d' % (i - 1))
