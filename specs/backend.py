"""Contracts of AbstractCache (the adapter base class) in cache.py."""
import ast
from .model import *
from dv.contract import Contract
from dv.lemma import Lemma
from .transaction import method

AC = D + 'cache.AbstractCache'
GET = opaque_methods(CACHE, ['get'], pure=True)
RW = envs(GET, opaque_methods(CACHE, ['set', 'delete']))
RWQ = envs(GET, opaque_methods(CACHE, ['set', 'delete'], raises=False))


def install(eng):
    define(eng, AC, {'key_prefix': field(STR, optional=True), 'version': field(NUM, optional=True)})


def get(c, self, key, version):
    return method(c, CACHE, 'get', self, key, NONE, version)


def default_version(c, self, version):
    return c.getattr(self, 'version') if c.is_(version, NONE) else version


def s_get_many(c, self, keys, version):
    d = c.dict()

    def one(k):
        v = get(c, self, k, version)
        if not c.is_(v, NONE):
            c.put(d, k, v)
    c.foreach(keys, one)
    return d


def s_has_key(c, self, key, version=NONE):
    return c.const(False) if c.is_(get(c, self, key, version), NONE) else c.const(True)


def s_incr(c, self, key, delta, version, sign=1):
    v = get(c, self, key, version)
    if c.is_(v, NONE):
        c.raise_('builtins.ValueError')
    new = c.op(ast.Add() if sign > 0 else ast.Sub(), v, delta)
    method(c, CACHE, 'set', self, key, new, NONE, version)
    return new


def s_set_many(c, self, data, timeout, version):
    c.foreach(data, lambda k, v: method(c, CACHE, 'set', self, k, v, timeout, version), view='items')
    return NONE


def s_delete_many(c, self, keys, version):
    c.foreach(keys, lambda k: method(c, CACHE, 'delete', self, k, version))
    return NONE


def s_incr_version(c, self, key, delta, version, sign=1):
    version = default_version(c, self, version)
    v = get(c, self, key, version)
    if c.is_(v, NONE):
        c.raise_('builtins.ValueError')
    new = c.op(ast.Add() if sign > 0 else ast.Sub(), version, delta)
    method(c, CACHE, 'set', self, key, v, NONE, new)
    method(c, CACHE, 'delete', self, key, version)
    return new


def numbers(env):
    """Values held under the counter keys are numbers."""
    def f(eng):
        env(eng)
        eng.contracts[CACHE + '.get'] = PureMethod('get', [NONE_T, NUM])
    return f


def s_make_key(c, self, key, version):
    f = c.getattr(self, 'key_func')
    return c.call(f, [key, c.getattr(self, 'key_prefix'), default_version(c, self, version)])


def l_keys(L):
    """Different keys or versions under one prefix map to different backend keys."""
    p = L.param('prefix', STR)
    ks = [L.param('key%d' % i, STR) for i in range(2)]
    vs = [L.param('version%d' % i, NUM) for i in range(2)]
    rs = [L.real(D + 'cache.default_key_func', ks[i], p, vs[i]) for i in range(2)]
    L.prove_text('different keys, different backend keys',
                 Implies(L.text(rs[0]) == L.text(rs[1]), And(L.text(vs[0]) == L.text(vs[1]), L.text(ks[0]) == L.text(ks[1]))),
                 ks)


def contracts():
    me = ('self', Obj(AC))
    key, ver, delta = ('key', STR), ('version', [NONE_T, NUM]), ('delta', NUM)
    keys = ('keys', [('list', (STR,)), ('tuple', (STR,)), ('set', (STR,)), ('fset', (STR,)), ('iter', (STR,))])
    P = {'*': ['C17']}
    pure = ['the primitive get of a backend has no effects and does not raise']
    kw = dict(props=P, call_mode=False)
    return [
        Contract(AC + '.get_many', s_get_many, [me, keys, ver], env=GET, assumes=pure, **kw),
        Contract(AC + '.has_key', s_has_key, [me, key, ver], env=GET, assumes=pure, **kw),
        Contract(AC + '.__contains__', s_has_key, [me, key], env=GET, assumes=pure, **kw),
        Contract(AC + '.incr', s_incr, [me, key, delta, ver], env=numbers(RW), assumes=pure, **kw),
        Contract(AC + '.decr', lambda c, **a: s_incr(c, sign=-1, **a), [me, key, delta, ver], env=numbers(RW),
                 assumes=pure, **kw),
        Contract(AC + '.set_many', s_set_many, [me, ('data', ('dict', (STR,), (ANY,))), ('timeout', [NONE_T, NUM]), ver],
                 env=RWQ, assumes=pure, **kw),
        Contract(AC + '.delete_many', s_delete_many, [me, keys, ver], env=RWQ, assumes=pure, **kw),
        Contract(AC + '.validate_key', lambda c, self, key: NONE, [me, key], **kw),
        Contract(AC + '.incr_version', s_incr_version, [me, key, delta, ver], env=RW, assumes=pure, **kw),
        Contract(AC + '.decr_version', lambda c, **a: s_incr_version(c, sign=-1, **a), [me, key, delta, ver], env=RW,
                 assumes=pure, **kw),
        Contract(AC + '.make_key', s_make_key, [('self', ('self', AC)), key, ver], **kw),
        Contract(AC + '.close', lambda c, self, kwargs: NONE, [me, ('kwargs', ('dict', (STR,), (ANY,)))], **kw),
    ]


def lemmas():
    return [Lemma('backend keys', l_keys, {'*': ['C17']},
                  assumes=['versions are integers, written without a colon; different integers are written differently'])]
