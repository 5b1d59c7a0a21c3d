"""All contracts and lemmas, and the property each of their clauses belongs to."""
import importlib

MODULES = ['relations', 'transaction', 'locks', 'tagging', 'keys', 'deps', 'composite', 'backend', 'cache', 'collection', 'pages', 'files', 'fragments', 'defer', 'history', 'errors']


D = 'cache_dependencies.'
CW, CT, TD, CD = D + 'cache.CacheWrapper.', D + 'tagging.CacheTagging.', D + 'dependencies.TagsDependency.', \
    D + 'dependencies.CompositeDependency.'
DD, TR = D + 'dependencies.DummyDependency.', D + 'transaction.'
# Contracts on which the argument for a property rests besides those that name it themselves.
RESTS_ON = {
    'C01': [CD + 'extend', CD + '__init__', CD + 'evaluate', TD + 'extend', TD + '__copy__', CT + 'set', CT + 'invalidate_tags',
            TR + 'AbstractTransaction.evaluate', D + 'locks.DependencyLock.evaluate:lock', D + 'utils.make_tag_key',
            'lemma:record names'],
    'C02': [TD + 'evaluate', TD + 'invalidate', CD + 'validate', CD + 'invalidate', CW + 'invalidate_dependency',
            D + 'utils.make_tag_key', 'lemma:record names'],
    'C03': [TD + 'validate', DD + 'validate', CW + '_unpack_data'],
    'C04': [CD + 'extend', CD + '__copy__', TD + 'extend', TD + '__copy__', DD + 'extend', DD + '__copy__',
            D + 'relations.DummyCacheNode.add_dependency', D + 'relations.DummyCacheNode.get_dependency'],
    'C05': [CD + 'extend', CD + '__copy__', TD + 'extend', TD + '__copy__'],
    'C06': [TR + 'SavePoint.get_start_time', TR + 'Transaction.get_start_time', TR + 'Transaction.__init__',
            TR + 'SavePoint.__init__', TR + 'TransactionManager.current', TR + 'Transaction.add_dependency',
            TR + 'SavePoint.add_dependency', CD + 'release', D + 'dependencies.AcquiredTagState.make_key',
            D + 'dependencies.ReleasedTagState.make_key', 'lemma:record names'],
    'C07': [CD + 'acquire', TR + 'TransactionManager.finish'],
    'C08': [TR + 'Transaction.finish', TR + 'AbstractTransaction.get_session_id:tx'],
    'C12': [TD + 'evaluate', CD + 'validate'],
    'C22': ['django_cache_dependencies.utils.prevent_cache_page'],
}


def load():
    """[(module name, module)] of the specification modules."""
    return [(m, importlib.import_module('specs.' + m)) for m in MODULES]


def named(x):
    """The contract or lemma with all the properties that rest on it."""
    more = [p for p, ids in RESTS_ON.items() if x.ident in ids]
    if more and not getattr(x, 'named', False):
        x.props = {k: list(v) + [p for p in more if p not in v] for k, v in x.props.items()}
        x.named = True
    return x


def contracts(m):
    return [named(c) for c in m.contracts()]


def lemmas(m):
    return [named(l) for l in (m.lemmas() if hasattr(m, 'lemmas') else [])]


def build_engine(repo, timeout):
    from . import model
    eng = model.build(repo, timeout=timeout)
    for _, m in load():
        if hasattr(m, 'install'):
            m.install(eng)
    cons = []
    for name, m in load():
        for c in contracts(m):
            c.spec_module = name
            cons.append(c)
    for c in cons:
        if c.call_mode:
            eng.contracts[c.key] = c
    return eng, cons


def units():
    """Everything that can be verified: (id, properties)."""
    out = []
    for name, m in load():
        for c in contracts(m):
            if c.verify:
                out.append((c.ident, c.all_props()))
        for l in lemmas(m):
            out.append((l.ident, l.all_props()))
    return out
