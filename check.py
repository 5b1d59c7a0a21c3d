#!/usr/bin/env python3
"""Decide one property: discharge every proof obligation of its contracts against the code in /repo, and replay.

usage: check.py PROPERTY [--tier quick|thorough] [--repo DIR] [--no-replay] [--no-proof]
"""
import argparse
import concurrent.futures
import json
import os
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYV = 'python3-vt'
REAL = '/opt/venv/bin/python'

TRUSTED = [
    'the verifier /verif/dv (symbolic interpreter for the Python subset, summarisation of loops, comparison of states)',
    'z3 (python bindings of python3-vt)',
    'Python semantics of the subset as modelled in dv/engine.py and dv/lib.py (numbers are mathematical reals, '
    'dict and set iteration order is irrelevant, no re-entrancy between the statements of one thread)',
    'models of external functions in specs/model.py (clock, thread identity, digests without collisions)',
]


def run_unit(task):
    ident, repo, timeout, deep, limit = task
    fd, path = tempfile.mkstemp(prefix='dv-')
    os.close(fd)
    env = dict(os.environ, PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    t0 = time.time()
    try:
        p = subprocess.Popen([PYV, '-m', 'dv.work', ident, repo, str(timeout), '1' if deep else '0', path],
                             cwd=HERE, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                             start_new_session=True)
        try:
            _, err = p.communicate(timeout=limit)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return blank(ident, 'time limit of %d s' % limit, time.time() - t0)
        try:
            with open(path) as f:
                return json.load(f)
        except ValueError:
            return blank(ident, 'verifier ended: ' + err.decode('utf8', 'replace')[-300:], time.time() - t0)
    finally:
        os.unlink(path)


def blank(ident, why, wall):
    return {'id': ident, 'key': ident.split(':')[0], 'obligations': [], 'unsupported': [why], 'paths': 0, 'used': [],
            'assumptions': [], 'props': {}, 'wall_s': wall, 'z3_queries': 0, 'solver_s': 0, 'cvc5': 0}


def units(prop):
    env = dict(os.environ, PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE='1')
    out = subprocess.check_output([PYV, '-c', 'import json; from specs import registry; '
                                   'print(json.dumps([(i, sorted(p)) for i, p in registry.units()]))'],
                                  cwd=HERE, env=env)
    return [i for i, p in json.loads(out.decode()) if prop is None or prop in p]


def prove(idents, repo, tier, jobs=None):
    timeout, limit = (8000, 240) if tier == 'quick' else (60000, 1500)
    tasks = [(i, repo, timeout, tier != 'quick', limit) for i in idents]
    with concurrent.futures.ThreadPoolExecutor(jobs or os.cpu_count() or 4) as ex:
        return list(ex.map(run_unit, tasks))


def relevant(res, ob, prop):
    props = res['props'].get(ob['label'])
    if props is None:
        lab = ob['label'].split(':')[0]
        props = res['props'].get(lab, res['props'].get('*', []))
    return prop in props


def replay(prop, repo, tier, seed):
    fd, path = tempfile.mkstemp(prefix='replay-')
    os.close(fd)
    scratch = tempfile.mkdtemp(prefix='replay-')
    env = dict(os.environ, PYTHONPATH=repo + ':' + HERE, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               REPLAY_SCRATCH=scratch)
    limit = 300 if tier == 'quick' else 2400
    try:
        p = subprocess.Popen([REAL, '-W', 'ignore', os.path.join(HERE, 'replay', 'run.py'), prop, tier, str(seed), path],
                             cwd=scratch, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                             start_new_session=True)
        try:
            _, err = p.communicate(timeout=limit)
            why = err.decode('utf8', 'replace')[-1500:]
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            why = 'time limit'
        try:
            with open(path) as f:
                return json.load(f)
        except ValueError:
            return {'error': why, 'evaluations': 0, 'failures': [], 'findings': [], 'samples': [], 'distinct': 0,
                    'rule': ''}
    finally:
        os.unlink(path)
        subprocess.call(['rm', '-rf', scratch])


def known():
    """Lines "finding: property=<id> id=<name> <what fails>" of known-findings.txt (fixed entries suppress nothing)."""
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        with open(p) as f:
            for l in f:
                if l.startswith('finding: '):
                    _, pr, ident, what = l.strip().split(' ', 3)
                    out.append({'property': pr.split('=')[1], 'id': ident.split('=')[1], 'what': what})
    return out


def baseline():
    p = os.path.join(HERE, 'baseline.json')
    if os.path.exists(p):
        with open(p) as f:
            return json.load(f)
    return {}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--no-replay', action='store_true')
    ap.add_argument('--no-proof', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED') or 1)
    prop = a.prop
    t0 = time.time()
    base = baseline()
    idents = units(prop)
    with concurrent.futures.ThreadPoolExecutor(1) as ex:
        fut = ex.submit(replay, prop, a.repo, a.tier, seed) if not a.no_replay else None
        results = prove(idents, a.repo, a.tier) if not a.no_proof else []
        rep = fut.result() if fut else {'evaluations': 0, 'failures': [], 'findings': [], 'samples': [], 'distinct': 0,
                                        'rule': '', 'error': None}
    functions, failed, bounded, obligations, discharged = [], [], [], 0, 0
    solver, backends, assumptions, queries = 0.0, {}, set(), 0
    for r in results:
        obs = [o for o in r['obligations'] if relevant(r, o, prop)]
        bad = [o for o in obs if o['status'] == 'failed']
        late = [o for o in obs if o['status'] not in ('failed', 'proved')]
        assumptions.update(r['assumptions'])
        solver += r.get('solver_s', 0)
        queries += r.get('z3_queries', 0)
        was = base.get(r['id'], {}).get('status')
        if r['unsupported'] or late or not obs:
            why = '; '.join(r['unsupported'])[:500] or ('%d obligations undecided in time' % len(late) if late
                                                       else 'no obligations')
            bounded.append({'function': r['id'], 'reason': why})
        if bad and was == 'proved':
            failed += [(r, o) for o in bad]
        elif bad:
            bounded.append({'function': r['id'], 'reason': 'not proved on the reference tree'})
        if not r['unsupported'] and not late and not bad and obs:
            obligations += len(obs)
            discharged += len(obs)
            for o in obs:
                backends[o['backend']] = backends.get(o['backend'], 0) + 1
            functions.append({'function': r['id'], 'paths': r['paths'], 'obligations': len(obs),
                              'uses': r['used'], 'seconds': r['wall_s']})
        elif bad and was == 'proved':
            obligations += len(obs)
            discharged += len(obs) - len(bad)
        if a.v:
            print(r['id'], r['paths'], len(obs), len(bad), r['unsupported'], r['wall_s'])
            if r.get('traceback'):
                print(r['traceback'])
    violations = []
    out = os.path.join(HERE, 'out')
    os.makedirs(out, exist_ok=True)
    kf = {k['id']: k for k in known() if k['property'] == prop}
    for f in rep['findings']:
        if f['id'] in kf:
            print('KNOWN-FINDING: property=%s %s' % (prop, kf[f['id']]['what']))
        else:
            rep['failures'].append(f)
    obs_text = [{'function': r['id'], 'obligation': o['name'], 'detail': o['detail']} for r, o in failed]
    path = os.path.join(out, 'replay-%s.json' % prop)
    if os.path.exists(path):
        os.unlink(path)
    if rep['failures']:
        with open(path, 'w') as f:
            json.dump({'property': prop, 'failing_inputs': rep['failures'][:5], 'failed_obligations': obs_text,
                       'replay': 'PYTHONPATH=/repo:/verif %s /verif/replay/run.py %s %s %d OUT.json' % (
                           REAL, prop, a.tier, seed)}, f, indent=1)
        violations.append('VIOLATION property=%s replay=%s' % (prop, path))
    elif failed:
        with open(path, 'w') as f:
            json.dump({'property': prop, 'failing_inputs': [], 'failed_obligations': obs_text}, f, indent=1)
        violations.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
    error = None
    if rep.get('error'):
        error = 'replay: ' + rep['error']
    if obligations == 0 and rep['evaluations'] == 0:
        error = (error or '') + ' nothing was checked'
    ev = {'property': prop, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': seed,
          'level': 'proof',
          'coverage': {
              'obligations': obligations, 'discharged': discharged,
              'checker_cmd': 'python3 /verif/check.py %s --tier %s' % (prop, a.tier),
              'trusted_base': TRUSTED,
              'functions_under_contract': functions,
              'failed_obligations': obs_text[:20],
              'bounded_stand_in': {'functions_not_proved': bounded, 'evaluations': rep['evaluations'],
                                   'distinct_nontrivial': rep['distinct'], 'rule': rep['rule'],
                                   'note': 'concrete executions of the real code; not counted as proved'},
              'back_ends': backends, 'solver_s': round(solver, 3), 'solver_queries': queries,
              'samples': rep['samples'][:5]},
          'assumptions': sorted(assumptions), 'violations': len(violations), 'wall_s': round(time.time() - t0, 2)}
    if error:
        ev['coverage']['replay_error'] = error
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d/%d obligations discharged in %d functions, %d functions bounded, %d executions replayed, %.1f s'
          % (prop, discharged, obligations, len(functions), len(bounded), rep['evaluations'], time.time() - t0))
    for b in bounded:
        print('  bounded: %s (%s)' % (b['function'], b['reason'][:200]))
    if error:
        print('  note: ' + error[:1500])
    for x in obs_text[:10]:
        print('  failed obligation: %s %s' % (x['obligation'], x['detail'][:200]))
    for x in rep['failures'][:3]:
        print('  failing input: %s' % json.dumps(x)[:600])
    for v in violations:
        print(v)
    return 1 if violations else 0


if __name__ == '__main__':
    sys.exit(main())
