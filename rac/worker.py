"""worker.py PID SRC START STEP SCALE BUDGET SEED [ONLY_CASE INDEX]  -> JSON lines on stdout"""
import json
import os
import sys
import time
import traceback

os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
pid, src = sys.argv[1], sys.argv[2]
sys.path.insert(0, src)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np  # noqa
import zlib

out = os.fdopen(os.dup(1), 'w')


def default(o):
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (np.floating, np.integer, np.bool_)):
        return o.item()
    return repr(o)


def emit(**k):
    out.write(json.dumps(k, default=default) + '\n')
    out.flush()


def one(name, f, i, seed):
    from common import Fail, Skip
    rng = np.random.default_rng([seed, i, zlib.crc32(name.encode())])
    desc = {}

    def log(c):
        desc['case'] = json.loads(json.dumps(c.describe() if hasattr(c, 'describe') else c, default=default))
    try:
        f(rng, log)
        return 'ok', desc, None
    except Skip as e:
        return 'skip', desc, str(e)
    except Fail as e:
        return 'fail', desc, str(e)
    except Exception:
        return 'fail', desc, 'unexpected exception: ' + traceback.format_exc()[-1500:]


def main():
    start, step, scale, budget, seed = int(sys.argv[3]), int(sys.argv[4]), float(sys.argv[5]), float(sys.argv[6]), int(sys.argv[7])
    try:
        import pykrige
        import pykrige.lib.cok  # the compiled kernels must load
        assert os.path.realpath(pykrige.__file__).startswith(os.path.realpath(src)), pykrige.__file__
        from props import CASES
    except Exception:
        emit(kind='fail', name='import', index=0, desc={}, msg='the package does not import: ' + traceback.format_exc()[-1500:])
        return
    if len(sys.argv) > 8:
        for name, f, n in CASES[pid]:
            if name == sys.argv[8]:
                emit(kind='at', name=name, index=int(sys.argv[9]))
                k, d, m = one(name, f, int(sys.argv[9]), seed)
                emit(kind=k, name=name, index=int(sys.argv[9]), desc=d, msg=m)
        return
    t0 = time.time()
    jobs = []
    for name, f, n in CASES[pid]:
        jobs += [(i / float(n), i, name, f) for i in range(int(n * scale))]
    jobs.sort(key=lambda t: (t[0], t[2]))
    nok = nskip = 0
    cases = {}
    sample = None
    for q, (fr, i, name, f) in enumerate(jobs):
        if q % step != start:
            continue
        if time.time() - t0 > budget:
            break
        emit(kind='at', name=name, index=i)
        k, d, m = one(name, f, i, seed)
        if k == 'fail':
            emit(kind='fail', name=name, index=i, desc=d, msg=m)
            return
        if k == 'ok':
            nok += 1
            cases[name] = cases.get(name, 0) + 1
            if sample is None:
                sample = dict(name=name, index=i, **d)
        else:
            nskip += 1
    emit(kind='done', ok=nok, skip=nskip, jobs=len(jobs[start::step]), cases=cases, sample=sample, wall=time.time() - t0)


main()
