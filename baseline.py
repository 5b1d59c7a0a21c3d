#!/usr/bin/env python3
"""Record which contracts are proved on the reference tree (run by hand on the unchanged tree; committed)."""
import json
import os
import sys
import check
from dv import fields

pat = sys.argv[1:]
fields.record('/repo')


def record_defaults():
    from specs import registry
    from dv import contract
    eng, cons = registry.build_engine('/repo', 1000)
    out = {}
    for c in cons:
        if not c.verify or c.run is not None:
            continue
        fe = eng.entry(contract.fn_term(eng, c.key))
        if isinstance(fe, contract.Fn):
            names = {n for n, _ in c.params}
            d = {n: v for n, v in contract.literal_defaults(fe.node).items() if n in names}
            if d:
                out[c.ident] = d
    with open(contract.DEFAULTS, 'w') as f:
        json.dump(out, f, indent=1, sort_keys=True)


if not pat:
    record_defaults()
ids = [i for i in check.units(None) if not pat or any(p in i for p in pat)]
res = check.prove(ids, '/repo', 'quick')
base = check.baseline() if pat else {}
for r in res:
    bad = [o for o in r['obligations'] if o['status'] != 'proved']
    ok = not r['unsupported'] and not bad and r['obligations']
    base[r['id']] = {'status': 'proved' if ok else 'bounded', 'obligations': len(r['obligations']), 'paths': r['paths']}
    if not ok:
        base[r['id']]['why'] = ('; '.join(r['unsupported']) or '; '.join(o['name'] for o in bad))[:300]
    print('%-90s %s %d %.1fs %s' % (r['id'], base[r['id']]['status'], len(r['obligations']), r['wall_s'],
                                    base[r['id']].get('why', '')))
with open(os.path.join(check.HERE, 'baseline.json'), 'w') as f:
    json.dump(base, f, indent=1, sort_keys=True)
