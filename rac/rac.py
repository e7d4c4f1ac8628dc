"""rac.py PID [SCALE [BUDGET [SEED]]]: runs the oracles of one property against the
current tree; prints one JSON object.  rac.py --replay FILE re-runs a saved case."""
import json
import os
import shutil
import subprocess
import sys
import threading

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import env  # noqa


def run(pid, scale=1.0, budget=100.0, seed=1, only=None, nproc=8):
    try:
        src = env.build(bounds=pid == 'P23')
    except RuntimeError as e:
        return dict(fail=dict(name='build', index=0, desc={}, msg='the kernels do not build: ' + str(e)), ok=0, skip=0, jobs=0, samples=[], cases={})
    try:
        W = os.path.join(HERE, 'worker.py')
        e = dict(os.environ, OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1')
        args = [[sys.executable, W, pid, src, str(i), str(nproc), str(scale), str(budget), str(seed)] for i in range(nproc)]
        if only:
            args = [args[0] + [only[0], str(only[1])]]
        ps = [subprocess.Popen(a, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=src) for a in args]
        res = dict(fail=None, ok=0, skip=0, jobs=0, samples=[], cases={})
        outs = [None] * len(ps)

        def reap(i, p):
            try:
                outs[i] = p.communicate(timeout=budget + 200)
            except subprocess.TimeoutExpired:
                p.kill()
                outs[i] = p.communicate()
                hung.add(i)
        hung = set()
        th = [threading.Thread(target=reap, args=q) for q in enumerate(ps)]
        [t.start() for t in th], [t.join() for t in th]
        for i, p in enumerate(ps):
            o, er = outs[i]
            lines = [json.loads(l) for l in o.decode().splitlines() if l.startswith('{')]
            at = [r for r in lines if r['kind'] == 'at'][-1:]
            lines = [r for r in lines if r['kind'] != 'at']
            if not lines:
                rc = p.returncode
                if at and i in hung:
                    res['fail'] = res['fail'] or dict(at[0], desc={}, msg='the call does not return within 200 s')
                elif at and rc in (-4, -6, -7, -8, -11):
                    res['fail'] = res['fail'] or dict(at[0], desc={}, msg='the interpreter crashes with signal %d: %s' % (-rc, er.decode()[-600:]))
                else:
                    res['error'] = 'worker ended with code %s: %s' % (rc, er.decode()[-600:])
                continue
            for r in lines:
                if r['kind'] == 'fail':
                    if res['fail'] is None:
                        res['fail'] = r
                elif r['kind'] == 'done':
                    res['ok'] += r['ok']
                    res['skip'] += r['skip']
                    res['jobs'] += r['jobs']
                    for q, w in r['cases'].items():
                        res['cases'][q] = res['cases'].get(q, 0) + w
                    if r['sample']:
                        res['samples'].append(r['sample'])
                else:
                    res['ok'] += r['kind'] == 'ok'
        return res
    finally:
        shutil.rmtree(src, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        d = json.load(open(sys.argv[2]))
        r = run(d['property'], seed=d['seed'], only=(d['case'], d['index']))
        print(json.dumps(r['fail'], indent=1))
        sys.exit(1 if r['fail'] else 0)
    a = sys.argv[1:]
    print(json.dumps(run(a[0], *[float(q) for q in a[1:3]], *[int(q) for q in a[3:4]])))
