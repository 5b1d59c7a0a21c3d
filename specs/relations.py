"""Contracts of relations.py and mixins.py."""
from .model import *
from dv.contract import Contract, Ctx
from .model import opaque_methods

R = D + 'relations.'
N = R + 'CacheNode'
DN = R + 'DummyCacheNode'
M = R + 'RelationManager'


def s_get(c, self, key):
    data = c.field(self, '_data')
    if not c.branch(c.has(data, key)):
        node = c.new(N, _key=key, _parent=c.field(self, '_current'), _dependencies=c.dict())
        c.put(data, key, node)
        return node
    return c.item(data, key)


def undef(c):
    return c.eng.modules['cache_dependencies.utils'].env['Undef']


def s_current(c, self, key_or_node):
    if c.is_(key_or_node, undef(c)):
        return c.field(self, '_current')
    if c.isinstance(key_or_node, 'builtins.str'):
        key_or_node = s_get(c, self, key_or_node)
    c.setfield(self, '_current', key_or_node)
    return NONE


def set_current(c):
    k = c.eng.choose(3)
    return {'key_or_node': [undef(c), None, None][k] if k == 0 else
            c.eng.param('key', STR) if k == 1 else c.eng.param('node', Obj(NODE))}


def s_pop(c, self, key):
    data = c.field(self, '_data')
    if c.branch(c.has(data, key)):
        node = c.item(data, key)
        c.remove(data, key)
        if c.is_(c.field(self, '_current'), node):
            c.setfield(self, '_current', c.field(node, '_parent'))
        return node
    return c.new(DN)


def s_clear(c, self):
    c.setfield(self, '_current', c.new(DN))
    c.setfield(self, '_data', c.dict())
    return NONE


def s_init(c, self):
    return s_clear(c, self)


def thread_safe(cls, name, delegate_iface, params):
    def spec(c, self, **kw):
        if not c.branch(c.eq(c.field(self, '_thread_id'), c.eng.state.extra['ident'])):
            c.raise_('builtins.RuntimeError')
        d = c.field(self, '_delegate')
        return c.method(d, name, *[kw[n] for n, _ in params])
    return Contract(cls + '.' + name, spec, [('self', ('self', cls))] + params, props={'*': ['C13']},
                    env=opaque_methods(delegate_iface, [name]))


def s_node(c, self, key, parent):
    c.setfield(self, '_key', key)
    c.setfield(self, '_parent', parent)
    c.setfield(self, '_dependencies', c.dict())
    return NONE


def contracts():
    node, dummy, P = ('self', ('self', N)), ('self', ('self', DN)), {'*': ['C05', 'C04']}
    truth = {'ret': 'truth'}
    out = [
        Contract(N + '.__init__', s_node, [node, ('key', STR), ('parent', Obj(NODE))], props=P, call_mode=False),
        Contract(N + '.parent', lambda c, self: c.field(self, '_parent'), [node], props=P, call_mode=False),
        Contract(N + '.key', lambda c, self: c.field(self, '_key'), [node], props=P, call_mode=False),
        Contract(N + '.__bool__', lambda c, self: c.const(True), [node], props=P, call_mode=False, **truth),
        Contract(DN + '.parent', lambda c, self: self, [dummy], props=P, call_mode=False),
        Contract(DN + '.__bool__', lambda c, self: c.const(False), [dummy], props=P, call_mode=False, **truth),
        Contract(M + '.__init__', lambda c, self: s_init(c, self), [('self', ('self', M))], props=P, call_mode=False),
        Contract(M + '.get', s_get, [('self', ('self', M)), ('key', STR)], props={'*': ['C05', 'C04']}),
        Contract(M + '.current', s_current, [('self', ('self', M)), ('key_or_node', ANY)], setup=set_current, props={'*': ['C05', 'C04']}),
        Contract(M + '.pop', s_pop, [('self', ('self', M)), ('key', STR)], props={'*': ['C05', 'C04']}),
        Contract(M + '.clear', s_clear, [('self', ('self', M))], props={'*': ['C05']}),
    ]
    T = R + 'ThreadSafeRelationManagerDecorator'
    out += [
        thread_safe(T, 'get', RM, [('key', STR)]),
        thread_safe(T, 'current', RM, [('key_or_node', ANY)]),
        thread_safe(T, 'pop', RM, [('key', STR)]),
        thread_safe(T, 'clear', RM, []),
    ]
    T = D + 'transaction.ThreadSafeTransactionManagerDecorator'
    out += [
        thread_safe(T, 'current', TM, [('node', ANY)]),
        thread_safe(T, 'begin', TM, []),
        thread_safe(T, 'finish', TM, []),
        thread_safe(T, 'flush', TM, []),
    ]
    return out
