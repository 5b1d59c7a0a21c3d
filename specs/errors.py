"""Contracts of exceptions.py: what the error of a composite dependency says."""
from .model import *
from dv.contract import Contract

X = D + 'exceptions.'
LOCKED, INVALID = X + 'DependencyLocked', X + 'DependencyInvalid'
CLOCKED, CINVALID = X + 'CompositeDependencyLocked', X + 'CompositeDependencyInvalid'
ONE = {LOCKED: 'items', INVALID: 'errors'}
ALL = {CLOCKED: (LOCKED, 'items'), CINVALID: (INVALID, 'errors')}


def install(eng):
    for k, f in ONE.items():
        define(eng, k, {f: field(('tuple', (STR,))), 'dependency': field(Obj(DEP))})
    for k, (child, f) in ALL.items():
        define(eng, k, {'children': field(('tuple', (Obj(child),))), 'dependency': field(Obj(DEP))})


def s_init(f):
    def spec(c, self, dependency, **kw):
        c.setfield(self, 'dependency', dependency)
        c.setfield(self, f, c.builtin('tuple', list(kw.values())[0]))
        return NONE
    return spec


def contracts():
    kw = dict(props={'*': ['C10']}, call_mode=False)
    dep = ('dependency', Obj(DEP))
    out = []
    for k, f in ONE.items():
        out.append(Contract(k + '.__init__', s_init(f), [('self', ('self', k)), dep,
                                                         (f, [('set', (STR,)), ('list', (STR,)), ('tuple', (STR,)), ('iter', (STR,))])], **kw))
    for k, (child, f) in ALL.items():
        out.append(Contract(k + '.__init__', s_init('children'), [
            ('self', ('self', k)), dep, ('children', [('list', (Obj(child),)), ('tuple', (Obj(child),)), ('iter', (Obj(child),))])], **kw))
        out.append(Contract(k + '.__iter__', lambda c, self: c.builtin('iter', c.field(self, 'children')), [('self', ('self', k))], **kw))
    return out
