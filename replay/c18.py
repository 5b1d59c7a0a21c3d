"""C18: tag records live in disjoint, collision-free namespaces."""
import subprocess
import sys
import os
from replay.common import Backend, Session, worker, advance, clock
from replay.world import tag_keys

NAMES = ['a', 'b', 'A', ' a', 'a ', '', 'tag', 'tag_a', 'acquired_a', 'released_a', 'acquired_tag', '1', '01', 'a.b', 'ab',
         'a:b', u'\u00e9', u'e\u0301', 'x' * 300, 'x' * 301, 'a\nb', 'a\x00b', 'None', '0', 'tag_1_a', '(1,)', 'md5']


def check_distinct(rep):
    rep.rule.add('the three record names of many tag names, observed in a backend, in several threads and a separate '
                 'process; generated tag versions over many tags, threads and times')
    names = NAMES + ['t%d' % i for i in range(120)]
    seen = {}
    for n in names:
        ks = tag_keys(n)
        rep.case(n)
        rep.check(all(isinstance(k, str) for k in ks), 'a record is missing', tag=n, names=ks)
        for i, k in enumerate(ks):
            ident = (n, ('version', 'acquire', 'release')[i])
            rep.check(seen.setdefault(k, ident) == ident, 'two records share one name', name=k, first=seen[k], second=ident)


def check_stable(rep):
    """The name depends on the tag name only: the same in every thread, at every time and in every process."""
    from cache_dependencies import utils
    f = lambda: [utils.make_tag_key(n) for n in NAMES]
    here = f()
    rep.case('threads')
    for i in range(3):
        advance(1000)
        rep.check(worker(i).do(f) == ('ret', here), 'another name in another thread or at another time')
    code = ('import sys; sys.path.insert(0, %r)\nfrom cache_dependencies import utils\n'
            'sys.stdout.write(ascii([utils.make_tag_key(n) for n in %s]))' % (repo(), ascii(NAMES)))
    env = dict(os.environ, PYTHONHASHSEED='77')
    out = subprocess.run([sys.executable, '-W', 'ignore', '-c', code], stdout=subprocess.PIPE, env=env,
                         timeout=60).stdout.decode()
    rep.check(out == ascii(here), 'another name in another process', here=here[:3], there=out[:200])


def repo():
    import cache_dependencies
    return os.path.dirname(os.path.dirname(os.path.abspath(cache_dependencies.__file__)))


def check_versions_unique(rep):
    """Every generated version differs from all earlier ones, also at one instant, in every thread, and with a repeated
    random number at another time or in another thread."""
    from cache_dependencies import utils
    seen = set()
    n = 0
    for i in range(600 * rep.scale):
        if i % 50 == 49:
            advance(.5)
        v = worker(i % 3).do(utils.generate_tag_version)[1]
        n += 1
        seen.add(v)
    rep.case('random')
    rep.check(len(seen) == n, 'a tag version was generated twice', generated=n, distinct=len(seen))
    b = Backend()
    s = Session(0, b)
    vals = []
    for i in range(40):
        s.run(lambda c: c.set('k', 1, ['a', 'b', 'c']))
        vals += [b.raw(tag_keys(t)[0]) for t in 'abc']
        s.run(lambda c: c.invalidate_tags('a', 'b', 'c'))
    rep.case('stored')
    rep.check(len(set(vals)) == len(vals), 'a tag got a version that was used before', distinct=len(set(vals)))
    # even if the random numbers repeat
    saved = getattr(utils, 'randrange', None)
    if saved is None:
        return
    try:
        utils.randrange = lambda *a: 4
        import random
        vals = []
        for w in range(3):
            for _ in range(3):
                vals.append(worker(w).do(utils.generate_tag_version)[1])
                advance(.001)
        rep.case('repeated random numbers')
        rep.check(len(set(vals)) == len(vals), 'versions rest on the random number alone', versions=vals)
    finally:
        utils.randrange = saved
