"""python3-vt pyvc/check.py PID [quick] | --unit NAME ...: verify the units of a property (or named units)."""
import json
import os
import sys
import time
import multiprocessing as mp
import resource

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)


def load():
    from pyvc import units_all
    from pyvc.unit import UNITS
    return UNITS


def work(name):
    import threading
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    threading.stack_size(512 << 20)
    load()
    from pyvc.unit import run_unit
    out = {}

    def go():
        out.update(run_unit(name))
    t = threading.Thread(target=go)
    t.start()
    t.join()
    if not out:
        out = dict(unit=name, obligations=[dict(obligation=name + ': verifier finished', ok=False, detail='verifier died', pos='', by='', goal='')],
                   functions=[], used=[], notes=[], solver_s=0, queries=0, wall=0, assumed=[])
    return out


def run(names, procs, limit):
    """each unit in a process of its own, with a time limit"""
    ctx = mp.get_context('fork')
    todo, running, res = list(names), {}, {}
    while todo or running:
        while todo and len(running) < procs:
            n = todo.pop(0)
            a, b = ctx.Pipe(False)

            def child(n=n, b=b):
                os.nice(0)
                b.send(work(n))
                b.close()
            p = ctx.Process(target=child)
            p.start()
            b.close()
            running[n] = (p, a, time.time())
        for n, (p, a, t0) in list(running.items()):
            r = None
            if a.poll(0.02):
                try:
                    r = a.recv()
                except EOFError:
                    r = {}
                p.join()
            elif not p.is_alive():
                r = {}
            elif time.time() - t0 > limit:
                p.kill()
                p.join()
                r = {'timeout': 1}
            if r is not None:
                if 'unit' not in r:
                    why = 'time limit of %d s' % limit if 'timeout' in r else 'verifier process died'
                    r = dict(unit=n, obligations=[dict(obligation=n + ': verifier finished', ok=False, detail=why, pos='', by='', goal='')],
                             functions=[], used=[], notes=[], solver_s=0, queries=0, wall=round(time.time() - t0, 1), assumed=[])
                res[n] = r
                del running[n]
    return [res[n] for n in names]


OUT = (': function within reach of the verifier', ': verifier finished')


def main():
    UNITS = load()
    a = sys.argv[1:]
    verbose = '-v' in a
    a = [x for x in a if x != '-v']
    if a and a[0] == '--unit':
        names = [n for n in UNITS if any(x == n or (x.endswith('*') and n.startswith(x[:-1])) for x in a[1:])]
    elif a and a[0] == '--all':
        names = list(UNITS)
    else:
        from pyvc.unit import of_property
        names = of_property(a[0], 'quick' in a)
    procs = int(os.environ.get('PYVC_PROCS', '8'))
    t0 = time.time()
    rs = run(names, procs, float(os.environ.get('PYVC_LIMIT', '400')))
    und, n, by = [], 0, {}
    for r in rs:
        for o in r['obligations']:
            n += 1
            if o['ok']:
                by[o['by'] or '?'] = by.get(o['by'] or '?', 0) + 1
            else:
                und.append(dict(obligation=o['obligation'], status='out of reach' if o['obligation'].endswith(OUT) else 'undischarged', detail=(o['detail'] + '\n' + o['goal'])[:3000], pos=o['pos']))
        if verbose or a[0] in ('--unit', '--all'):
            print('%-60s %4d obligations, %d open, %.1f s (solver %.1f s, %d queries) %s' % (r['unit'], len(r['obligations']), sum(not o['ok'] for o in r['obligations']), r['wall'], r['solver_s'], r['queries'], r['notes'] or ''))
    if verbose or a[0] in ('--unit', '--all'):
        for u in und:
            print('  OPEN', u['obligation'], u['pos'], '\n      ', u['detail'][:700].replace('\n', '\n       '))
    out = dict(units=names, obligations=n, discharged=n - len(und), undischarged=und, functions=sorted({f for r in rs for f in r['functions']}),
               contracts_used=sorted({f for r in rs for f in r['used']}), solver_s=round(sum(r['solver_s'] for r in rs), 2),
               queries=sum(r['queries'] for r in rs), backends=by, wall_s=round(time.time() - t0, 1),
               assumed=sorted({x for r in rs for x in r['assumed']}))
    print(json.dumps(out))


if __name__ == '__main__':
    main()
