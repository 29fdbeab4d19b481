"""Writes MANIFEST.json from the property modules that exist."""
import json, os, sys, importlib
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
NA = {'N01': 'p-values are pure functions of the word sequence: no schedule, clock, I/O, fault or history enters, so a simulator has nothing to decide (a statistical study of real output would)',
      'N02': 'generator algorithms are pure functions of the seed; deciding them means comparing with published reference vectors, not simulating an environment',
      'N03': 'pure table look-up of command line names; no nondeterminism or fault is involved'}
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA: na.append({'property': i, 'reason': NA[i]}); continue
    if not os.path.exists(H + '/vp/props/%s.py' % i.lower()):
        na.append({'property': i, 'reason': 'check not built yet'}); continue
    m = importlib.import_module('vp.props.' + i.lower())
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                   'technique': 'deterministic simulation with fault injection: ' + m.TECHNIQUE, 'level': m.LEVEL,
                   'level_note': 'seeded search over simulated runs of the real code; ' + m.NOTE})
json.dump({'version': 1, 'setup_cmd': 'python3 sim/build.py', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: the seams are libc entry points replaced when the /repo sources are compiled for the simulator (sim/build.py).'}, open(H + '/MANIFEST.json', 'w'), indent=1)
