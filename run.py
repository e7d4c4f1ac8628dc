#!/usr/bin/env python3
"""run.py PID [quick|thorough]: decides one property on the current tree of /repo.

1. deductive part (pyvc/check.py, in the verification venv): every contract the
   property depends on is verified against the source in /repo;
2. run-time contract checks (rac/, in the project venv): the same contracts are
   evaluated on the real, freshly built package; they stand in for what is outside the
   verifier's reach, and search for a failing input when an obligation fails.

exit 0: held; exit 1: VIOLATION line; exit 2: the check itself failed.
"""
import json
import os
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
VT = 'python3-vt'
sys.dont_write_bytecode = True


def call(cmd, timeout):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=HERE, start_new_session=True,
                         env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
    try:
        o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        o, e = p.communicate()
        return None, 'time limit of %d s' % timeout
    try:
        return json.loads(o.decode().strip().splitlines()[-1]), e.decode()[-2000:]
    except Exception:
        return None, 'exit %s: %s' % (p.returncode, (o + e).decode()[-2000:])


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    quick = tier == 'quick'
    ALL = json.load(open(os.path.join(HERE, 'proofs.json')))
    meta = ALL['properties'].get(pid, {})
    proof = {}
    if meta.get('units'):
        def go():
            proof['r'], proof['err'] = call([VT, os.path.join(HERE, 'pyvc', 'check.py'), pid] + ['quick'] * quick, 420 if quick else 1500)
        th = threading.Thread(target=go)
        th.start()
    scale, budget = (5.0, 100.0) if quick else (40.0, 900.0)
    rac, err = call([PY, os.path.join(HERE, 'rac', 'rac.py'), pid, str(scale), str(budget), str(seed)], budget + 400)
    if meta.get('units'):
        th.join()
    pr = proof.get('r')
    if rac is None or (rac.get('error') and not rac.get('fail')):
        print('check error: run-time contracts: %s' % (err if rac is None else rac['error']))
        return 2
    bad, out = [], []
    if meta.get('units'):
        if pr is None:
            out = [dict(obligation='(all)', status='verifier gave no answer', detail=proof['err'])]
        else:
            # a refuted or unproved obligation is reported; a function the verifier cannot read (or not in time)
            # falls back to the bounded run-time contracts, and the evidence says so
            bad = [u for u in pr['undischarged'] if u['status'] != 'out of reach']
            out = [u for u in pr['undischarged'] if u['status'] == 'out of reach']
            missing = [u for u in meta['units'] if not (quick and u in meta['thorough_units']) and u not in pr['units']]
            out += [dict(obligation=u, status='out of reach', detail='unit missing') for u in missing]
    fail = rac['fail']
    if not fail and (bad or out):  # an obligation fails: look harder for an input that shows it
        more, err = call([PY, os.path.join(HERE, 'rac', 'rac.py'), pid, '30', '150', str(seed + 1000)], 420)
        if more is not None:
            fail = more['fail']
            if fail:
                fail['seed'] = seed + 1000
            rac['ok'] += more['ok']
    # known_findings.txt: 'finding: property=ID <what>' (open) and 'fixed: property=ID <commit> <what>' (repaired, suppresses nothing)
    known = []
    for l in open(os.path.join(HERE, 'known_findings.txt')):
        if l.startswith('finding: property=%s ' % pid):
            known.append(dict(what=l.split(' ', 2)[2].strip()))
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    n = rac['ok'] + rac['skip']
    cov = dict(evaluations=n, distinct_nontrivial=rac['ok'],
               rule='run-time evaluation of the contracts on the real package: each case draws data, configuration and evaluation points from '
                    'VERIF_SEED; a case is counted as non-trivial when its precondition (e.g. a well-conditioned system, no distance ties) '
                    'held and every clause was evaluated',
               cases_per_contract=rac.get('cases', {}), samples=rac['samples'][:3])
    level = 'exploration'
    ass = list(meta.get('assumptions', []))
    if meta.get('units'):
        level = meta.get('level', 'exploration')
        p = pr or dict(units=[], obligations=0, discharged=0, functions=[], contracts_used=[], solver_s=0, queries=0, backends={}, assumed=[], wall_s=0)
        cov.update(obligations=p['obligations'], discharged=p['discharged'], checker_cmd='python3-vt pyvc/check.py ' + pid,
                   trusted_base=ALL['trusted'], units=p['units'], functions_under_contract=p['functions'], contracts_used_at_calls=p['contracts_used'],
                   discharged_by=p['backends'], solver_s=p['solver_s'], solver_queries=p['queries'], verifier_wall_s=p['wall_s'],
                   undischarged=bad, out_of_reach=out, bounded_parts=meta.get('bounded', []))
        ass += p['assumed']
        if out:
            level = 'exploration'
            cov['explanation'] = 'some function under contract is outside the verifier\'s reach on this tree; the run-time contracts (bounded) stand in for it'
    else:
        cov['explanation'] = 'no proof obligation is counted for this property: bounded run-time contracts only'
    code = 0
    if fail or bad:
        code = 1
        os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
        rp = os.path.join(HERE, 'replay', pid + '.json')
        d = dict(property=pid, seed=seed, undischarged=bad + out)
        if fail:
            d.update(seed=fail.get('seed', seed), case=fail['name'], index=fail['index'], message=fail['msg'], input=fail['desc'],
                     replay='%s rac/rac.py --replay %s' % (PY, rp))
        json.dump(d, open(rp, 'w'), indent=1)
        for b in bad[:8]:
            print('undischarged obligation: %s [%s] %s' % (b['obligation'], b['status'], str(b.get('detail', ''))[:400]))
        if fail:
            print('failing case %s/%s: %s' % (fail['name'], fail['index'], fail['msg'][:1500]))
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if fail else ' no-failing-input-found'))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(dict(property=pid, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level=level, coverage=cov, assumptions=ass,
                   wall_s=round(time.time() - t0, 2), violations=1 if code else 0),
              open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    for u in out:
        print('out of the verifier\'s reach: %s %s' % (u['obligation'], str(u.get('detail', ''))[:300]))
    if code == 0:
        print('%s held: %d cases%s' % (pid, n, '' if not pr else ', %d/%d obligations' % (pr['discharged'], pr['obligations'])))
    return code


if __name__ == '__main__':
    sys.exit(main())
