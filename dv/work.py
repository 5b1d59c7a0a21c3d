"""Verification of one contract or lemma in a fresh engine (run in a worker process)."""
import sys
import time
import traceback


def verify(task):
    ident, repo, timeout, deep = task
    t0 = time.time()
    out = {'id': ident, 'obligations': [], 'unsupported': [], 'paths': 0, 'used': [], 'assumptions': [], 'key': '',
           'props': {}}
    try:
        sys.setrecursionlimit(20000)
        from specs import registry
        from . import contract, lemma
        eng, cons = registry.build_engine(repo, timeout)
        con = [c for c in cons if c.ident == ident]
        if con:
            con = con[0]
            r = contract.Run(eng, con, timeout, deep).verify()
        else:
            con = [l for _, m in registry.load() for l in registry.lemmas(m) if l.ident == ident][0]
            r = lemma.LemmaRun(eng, con, timeout, deep).verify()
        out['key'] = con.key
        out['doc'] = con.doc or ''
        out['props'] = con.props
        out['paths'] = r.paths
        out['unsupported'] = r.unsupported
        out['obligations'] = [{'name': o.name, 'label': o.label, 'status': o.status, 'time': round(o.time, 4),
                               'backend': o.backend, 'detail': o.detail} for o in r.obls]
        if eng.fields and (eng.fields[0] or eng.fields[2]) and any(o['status'] == 'failed' for o in out['obligations']):
            # the reading of renamed fields may be mistaken: no verdict
            out['unsupported'] = list(out['unsupported']) + ['fields of the classes were changed: %s %s' % (
                sorted(eng.fields[0].items()), sorted(eng.fields[2]))]
            out['obligations'] = [o for o in out['obligations'] if o['status'] != 'failed']
        out['used'] = sorted(eng.used_contracts)
        out['assumptions'] = sorted(eng.assumptions | set(getattr(con, 'assumes', ())))
        out['z3_queries'] = eng.nqueries + contract.stats['z3']
        out['solver_s'] = round(eng.solver_time + contract.stats['z3_time'], 3)
        out['cvc5'] = contract.stats['cvc5']
    except BaseException as e:      # a defect of the verifier is never a verdict on the code
        out['unsupported'] = ['verifier error: %s: %s' % (type(e).__name__, e)]
        out['traceback'] = traceback.format_exc()[-2000:]
    out['wall_s'] = round(time.time() - t0, 3)
    return out


def main(argv):
    import json
    ident, repo, timeout, deep, path = argv
    res = verify((ident, repo, int(timeout), deep == '1'))
    with open(path, 'w') as f:
        json.dump(res, f)


if __name__ == '__main__':
    main(sys.argv[1:])
