"""python3-vt tools/gen_proofs.py: writes proofs.json (units per property from pyvc, plus the metadata below)."""
import json
import os
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.setrecursionlimit(20000)
from pyvc import units_all      # noqa
from pyvc.unit import of_property

TRUSTED = [
    'pyvc: the verification-condition generator for the Python subset (interp.py, loops.py, npmodel.py, terms.py, prover.py), including its contracts for the numpy/scipy calls it models',
    'z3 (python z3-solver of /opt/veriftools/pyvenv), cvc5 when z3 answers unknown',
    'floating-point numbers are treated as mathematical reals (literals by their decimal spelling), 64-bit integers as mathematical integers',
    'scipy.linalg.inv/pinv/pinvh/lstsq/solve and LAPACK dgesv return the mathematical inverse / pseudo-inverse / (least-squares) solution',
    'the semantics of CPython for the subset; object identity and aliasing are modelled on an explicit heap',
]
TECH = 'contracts on the real functions: deductive verification of /repo\'s sources (pyvc, z3/cvc5)'
TECHB = TECH + '; run-time contracts on the built package (bounded) for what is outside it'
META = json.load(open(os.path.join(H, 'tools', 'proof_meta.json')))

out = {}
for i in range(1, 26):
    pid = 'P%02d' % i
    us = of_property(pid, False)
    q = set(of_property(pid, True))
    m = dict(META.get(pid, {}))
    if not us:
        continue
    m['units'] = us
    m['thorough_units'] = [u for u in us if u not in q]
    m.setdefault('level', 'exploration')
    m.setdefault('technique', TECH if m['level'] == 'proof' and not m.get('bounded') else TECHB)
    note = m.get('level_note', '')
    fam = {}
    for u in us:
        fam.setdefault(u.split('[')[0], []).append(u)
    names = ', '.join(k if len(v) == 1 else '%s (%d configurations)' % (k, len(v)) for k, v in fam.items())
    if m['thorough_units']:
        names += '; the quick tier leaves %d of the configurations to the thorough one' % len(m['thorough_units'])
    if m['level'] == 'proof':
        note = 'Every obligation of the functions under contract (%s) is discharged for all inputs. ' % names + note
    else:
        note = 'Discharged for all inputs: %s. ' % names + note
    if m.get('bounded'):
        note += ' Bounded stand-ins (run-time contracts on generated inputs, not counted as proved): ' + '; '.join(m['bounded']) + '.'
    note += ' Trusted: pyvc and its numpy/scipy contracts, z3/cvc5, reals for floats.'
    m['level_note'] = note
    out[pid] = m
json.dump(dict(trusted=TRUSTED, properties=out), open(os.path.join(H, 'proofs.json'), 'w'), indent=1)
print({k: (v['level'], len(v['units'])) for k, v in out.items()})
