"""C22: template fragments are stored with all their tags or not at all."""
from replay.common import advance, clock
from replay.c20 import restore, state, request

TAGS = ['a', 'b', 'c', 'd', 'e', 'x', 'unused']


class Fragment(object):
    """A fragment: its arguments and its body, as a tree."""

    def __init__(self, rng, depth, names):
        self.name = 'f%d' % len(names)
        names.append(self.name)
        self.args = rng.sample(TAGS[:5], rng.choice([0, 1, 2]))
        self.option = rng.choice([None, None, 'opt1', 'opt2'])
        self.timeout = rng.choice([None, 5, 50])
        self.added = [(rng.sample(TAGS[:6], rng.choice([1, 2])), rng.choice(['args', 'list']))
                      for _ in range(rng.choice([0, 1, 2]))]
        self.prevent = rng.random() < .15
        self.block = rng.choice([None, None, '{% if 1 %}|{% endif %}', '{% for i in one %}|{% endfor %}',
                                 '{% with q=1 %}|{% endwith %}', '{% with q=1 %}{% for i in one %}|{% endfor %}{% endwith %}'])
        self.prevent_last = rng.random() < .5
        self.children = [Fragment(rng, depth - 1, names) for _ in range(rng.choice([0, 1, 2]) if depth else 0)]

    OPT = {'opt1': ['c'], 'opt2': ['a', 'd'], None: []}

    def source(self):
        s = '{%% cache_tagging "%s"' % self.name
        s += ''.join(' "%s"' % a for a in self.args)
        if self.option:
            s += ' tags=%s' % self.option
        if self.timeout is not None:
            s += ' timeout=%d' % self.timeout
        s += ' %%}[%s {%% count "%s" %%}' % (self.name, self.name)
        pre, post = self.block.split('|') if self.block else ('', '')
        s += pre
        if self.prevent and not self.prevent_last:
            s += '{% cache_tagging_prevent %}'
        for i, (tags, how) in enumerate(self.added):
            if how == 'args':
                s += '{%% cache_add_tags %s %%}' % ' '.join('"%s"' % t for t in tags)
            else:
                s += '{%% cache_add_tags %s_%d %%}' % (self.name, i)
        s += ''.join(c.source() for c in self.children)
        if self.prevent and self.prevent_last:
            s += '{% cache_tagging_prevent %}'
        s += post
        return s + ']{% end_cache_tagging %}'

    def context(self):
        out = {'%s_%d' % (self.name, i): tags for i, (tags, how) in enumerate(self.added)}
        for c in self.children:
            out.update(c.context())
        return out

    def all(self):
        return [self] + [x for c in self.children for x in c.all()]

    def own_tags(self):
        """Tags given to this fragment itself."""
        return set(self.args) | set(self.OPT[self.option]) | {t for ts, _ in self.added for t in ts}

    def tree_tags(self):
        """... and those of the fragments within it (inherited through the cache)."""
        return self.own_tags().union(*[c.tree_tags() for c in self.children]) if self.children else self.own_tags()

    def prevented(self):
        return self.prevent or any(c.prevented() for c in self.children)


def render(source, ctx):
    from django.template import Engine, Context
    lib = library()
    e = Engine(libraries={}, builtins=['django.template.defaulttags', 'django.template.defaultfilters',
                                       'django_cache_dependencies.templatetags.cache_tagging_tags'])
    t = e.from_string('') if False else None
    from django.template.base import Template
    e.template_builtins.append(lib)
    return Template(source, engine=e).render(Context(ctx))


rendered = []


def library():
    from django.template import Library
    lib = Library()

    def count(name):
        rendered.append(name)
        return len(rendered)
    lib.simple_tag(count)
    return lib


def close():
    from django_cache_dependencies import cache
    cache.close()


def clean():
    restore({'default': ({}, {}), 'second': ({}, {})})
    close()
    del rendered[:]


def check_trees(rep):
    rep.rule.add('random trees of nested fragments with arguments, tags option, tags added while rendering, timeouts and '
                 'prevention; what is rendered, stored, served, inherited and put on the request is compared with the tree; '
                 'non-trivial: several fragments')
    from django_cache_dependencies import cache
    rng = rep.rng
    for n in range(90 * rep.scale):
        clean()
        names = []
        tree = Fragment(rng, rng.choice([0, 1, 1, 2]), names)
        src = rng.choice(['', 'pre ']) + tree.source()
        base = dict(tree.context(), one=[1], opt1=['c'], opt2=['a', 'd'])
        with_request = rng.random() < .7
        req = request()
        ctx = dict(base, request=req) if with_request else dict(base)
        out = render(src, ctx)
        close()
        info = dict(source=src)
        rep.case(src)
        rep.check(rendered == [f.name for f in tree.all()], 'not each rendered once', got=list(rendered), **info)
        for f in tree.all():
            v = cache.get(f.name, abort=True)
            if f.prevented():
                rep.check(v is None, 'stored although caching was prevented', fragment=f.name, **info)
            else:
                rep.check(v is not None and v in out and v.startswith('[' + f.name), 'the stored text is not the rendered',
                          fragment=f.name, stored=v, out=out, **info)
        if with_request:
            got = set(getattr(req, 'cache_tagging', ()))
            rep.check(got == tree.tree_tags(), 'not all tags are on the request', expected=tree.tree_tags(), got=got, **info)
            rep.check((getattr(req, '_cache_update_cache', None) is False) == tree.prevented(),
                      'the page is cached though prevented, or prevented though not', **info)
        snap = state()
        del rendered[:]
        again = render(src, dict(base))
        close()
        if not tree.prevented():
            rep.check(again == out and rendered == [], 'not served from the cache', got=again, first=out, **info)
        else:
            rep.check(rendered and rendered[0] == tree.name, 'served though prevented', **info)
        for f in tree.all():
            if f.prevented():
                continue
            for t in TAGS:
                restore(snap)
                cache.invalidate_tags(t)
                rep.check((cache.get(f.name, abort=True) is None) == (t in f.tree_tags()), 'a wrong set of tags',
                          fragment=f.name, tag=t, expected=sorted(f.tree_tags()), **info)
            restore(snap)
            start = clock.now
            if f.timeout is None:
                continue
            limit = f.timeout
            advance(limit - .5)
            alive = cache.get(f.name, abort=True) is not None
            restore(snap)
            advance(1)
            rep.check(alive and cache.get(f.name, abort=True) is None, 'wrong timeout', fragment=f.name, timeout=f.timeout,
                      **info)
            clock.now = start
            restore(snap)


def check_partial(rep):
    """An inner fragment found in the cache still passes its tags to the enclosing one being created."""
    from django_cache_dependencies import cache
    rng = rep.rng
    for n in range(30 * rep.scale):
        clean()
        tree = Fragment(rng, 2, [])
        if tree.prevented() or not tree.children:
            continue
        base = dict(tree.context(), one=[1], opt1=['c'], opt2=['a', 'd'])
        inner = rng.choice([f for f in tree.all() if f is not tree])
        out = render(tree.source(), dict(base))
        close()
        cache.invalidate_tags('nothing')
        # drop the root only
        cache.delete(tree.name)
        close()
        del rendered[:]
        render(tree.source(), dict(base))
        close()
        rep.case(tree.source())
        rep.check(rendered == [tree.name], 'an inner fragment was not served', got=list(rendered), source=tree.source())
        snap = state()
        for t in TAGS:
            restore(snap)
            cache.invalidate_tags(t)
            rep.check((cache.get(tree.name, abort=True) is None) == (t in tree.tree_tags()),
                      'the tags of a served inner fragment are not inherited', tag=t, source=tree.source(),
                      expected=sorted(tree.tree_tags()))
        restore(snap)


def check_timeouts(rep):
    """Timeouts from variables, and bad ones."""
    from django_cache_dependencies import cache
    from django.template import TemplateSyntaxError
    for v, want in (('7', 7), (7, 7), (' 8 ', 8)):
        clean()
        render('{% cache_tagging "t" "a" timeout=v %}x{% end_cache_tagging %}', {'v': v})
        close()
        start = clock.now
        advance(want - .5)
        a = cache.get('t', abort=True)
        advance(1)
        rep.case(v)
        rep.check(a == 'x' and cache.get('t', abort=True) is None, 'wrong timeout', given=v)
        clock.now = start
    for v in ('abc', [], None):
        clean()
        rep.case(repr(v))
        try:
            render('{% cache_tagging "t" "a" timeout=v %}x{% end_cache_tagging %}', {'v': v})
        except TemplateSyntaxError:
            pass
        else:
            rep.fail('a bad timeout was accepted', given=v)
        close()
    clean()
    try:
        render('{% cache_tagging "t" "a" timeout=missing %}x{% end_cache_tagging %}', {})
    except TemplateSyntaxError:
        pass
    else:
        rep.fail('a missing timeout was accepted')
    close()


def check_text(rep):
    """What is returned is the text, also empty, and as safe as it was."""
    from django_cache_dependencies import cache
    for body, want in (('', ''), ('{{ h }}', '&lt;b&gt;'), ('{{ h|safe }}', '<b>'), ('\u00e9', '\u00e9')):
        clean()
        src = '{% cache_tagging name "a" %}' + body + '{% end_cache_tagging %}|{% cache_tagging name "a" %}other{% end_cache_tagging %}'
        got = [render(src, {'h': '<b>', 'name': 'n'}) for _ in range(2)]
        close()
        rep.case(body)
        rep.check(got == [want + '|' + want] * 2, 'another text', expected=want, got=got)


def check_raise(rep):
    """A body that raises stores nothing."""
    from django_cache_dependencies import cache

    class Bad(object):
        @property
        def boom(self):
            raise ValueError('boom')
    clean()
    rep.case('raise')
    try:
        render('{% cache_tagging "o" "a" %}1{% cache_tagging "i" "b" %}{{ bad.boom }}{% end_cache_tagging %}{% end_cache_tagging %}',
               {'bad': Bad()})
    except ValueError:
        pass
    else:
        rep.fail('the exception was swallowed')
    close()
    rep.check(cache.get('o', abort=True) is None and cache.get('i', abort=True) is None, 'stored although the body raised')


def check_page(rep):
    """Fragments within a cached page: their tags are the page's, prevention is the page's."""
    from django_cache_dependencies import cache
    from django_cache_dependencies.middleware import CacheMiddleware
    from django.http import HttpResponse
    rng = rep.rng
    for n in range(25 * rep.scale):
        clean()
        trees = [Fragment(rng, 1, []) for _ in range(rng.choice([1, 2]))]
        for i, t in enumerate(trees):
            for f in t.all():
                f.name = '%s_%d' % (f.name, i)
        base = dict(one=[1], opt1=['c'], opt2=['a', 'd'])
        src = ''
        for t in trees:
            base.update(t.context())
            src += t.source()
        m = CacheMiddleware(tags=lambda r: ['e'])

        def ask():
            req = request()
            r = m.process_request(req)
            if r is not None:
                close()
                return r, True
            r = HttpResponse(render(src, dict(base, request=req)))
            r = m.process_response(req, r)
            close()
            return r, False
        r, hit = ask()
        prevented = any(t.prevented() for t in trees)
        snap = state()
        rep.case(src)
        r2, hit = ask()
        rep.check(hit != prevented, 'the page was cached though prevented, or not cached though allowed', source=src)
        if prevented:
            continue
        want = {'e'}.union(*[t.tree_tags() for t in trees])
        for t in TAGS:
            restore(snap)
            cache.invalidate_tags(t)
            rep.check(ask()[1] != (t in want), 'the page has a wrong set of tags', tag=t, expected=sorted(want), source=src)
        restore(snap)


def check_reuse(rep):
    """One compiled template rendered in several contexts: names, tags and timeouts are those of each context."""
    from django.template import Engine, Context
    from django.template.base import Template
    from django_cache_dependencies import cache
    rng = rep.rng
    e = Engine(libraries={}, builtins=['django.template.defaulttags', 'django.template.defaultfilters',
                                       'django_cache_dependencies.templatetags.cache_tagging_tags'])
    t = Template('{% cache_tagging name first second tags=more timeout=limit %}[{{ name }}{% cache_add_tags added %}'
                 '{% cache_tagging inner third %}({{ inner }}){% end_cache_tagging %}]{% end_cache_tagging %}', engine=e)
    clean()
    want = []
    for i in range(8):
        names = rng.sample(TAGS, 6)
        c = dict(name='n%d' % i, inner='i%d' % i, first=names[0], second=names[1], more=[names[2]], added=[names[3]],
                 third=names[4], limit=20 + 10 * i)
        out = t.render(Context(c))
        close()
        rep.case((i, tuple(names)))
        rep.check(out == '[n%d(i%d)]' % (i, i), 'another text', got=out)
        want.append(('n%d' % i, set(names[:5]), c['limit']))
        want.append(('i%d' % i, {names[4]}, None))
    snap = state()
    for tag in TAGS:
        restore(snap)
        cache.invalidate_tags(tag)
        for name, tags, limit in want:
            rep.check((cache.get(name, abort=True) is None) == (tag in tags), 'a wrong set of tags', fragment=name, tag=tag,
                      expected=sorted(tags))
    start = clock.now
    for name, tags, limit in want:
        if limit is not None:
            restore(snap)
            clock.now = start
            advance(limit - 1)
            alive = cache.get(name, abort=True) is not None
            restore(snap)
            clock.now = start
            advance(limit + 1)
            rep.check(alive and cache.get(name, abort=True) is None, 'wrong timeout', fragment=name, timeout=limit)
    clock.now = start
    restore(snap)
    clean()
