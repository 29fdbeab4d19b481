#!/usr/bin/env python3
"""Determinism and conformance of the simulator.
  selftest.py det [n]       n scenarios per property, each judged in several fresh processes (other order, other hash seed, other worker); histories must be identical
  selftest.py conf BINARY   simulated command lines against the real program: same rows, dumps, exit status
"""
import sys, os, json, random, subprocess, importlib, hashlib, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, HERE)
from vp import core
from vp.lib import *
PROPS = ['C%02d' % i for i in range(1, 100) if os.path.exists(os.path.join(HERE, 'vp/props/c%02d.py' % i))]

def one(arg):
    prop, idx, seed = arg
    mod = importlib.import_module('vp.props.' + prop.lower())
    ctx = core.Ctx({v: core.exe_for(v)[0] for v in mod.VARIANTS}); out = []
    for i in idx:
        sc = mod.gen(core.rng_for(seed, prop, i), i, 'quick')
        v = core.judge(mod, sc, ctx)
        out.append((i, hashlib.sha1(json.dumps([sc, ctx.history, v], sort_keys=True).encode()).hexdigest()))
    ctx.close(); return out

if __name__ == '__main__':
    if sys.argv[1] == 'part':
        print(json.dumps(one((sys.argv[2], json.loads(sys.argv[3]), int(sys.argv[4]))))); sys.exit(0)
    if sys.argv[1] == 'det':
        n = int(sys.argv[2]) if len(sys.argv) > 2 else 40; bad = 0
        for p in PROPS:
            jobs = []
            for rep in range(4):
                idx = list(range(n)); random.Random(rep).shuffle(idx)
                for part in range(2):
                    jobs.append(subprocess.Popen([sys.executable, __file__, 'part', p, json.dumps(idx[part::2]), '77'], stdout=subprocess.PIPE, env=dict(os.environ, PYTHONHASHSEED=str(rep * 10 + part))))
            seen = {}
            for j in jobs:
                for i, h in json.loads(j.communicate()[0]): seen.setdefault(i, set()).add(h)
            d = [i for i in seen if len(seen[i]) > 1]; bad += len(d)
            print('%s: %d scenarios x 4 fresh processes: %s' % (p, len(seen), 'identical' if not d else 'DIFFERENT %s' % d), flush=True)
        sys.exit(bad != 0)
    exe = sys.argv[2]; rng = random.Random(5); ctx = core.Ctx({'plain': core.exe_for('plain')[0]}); bad = 0; n = int(sys.argv[3]) if len(sys.argv) > 3 else 300
    with tempfile.TemporaryDirectory() as td:
        for i in range(n):
            k = rng.randrange(5); S = str(rng.randrange(1, 2 ** 32)); ws = 's:%d' % rng.randrange(1, 10 ** 6); inp = b''; nodes = []; files = {}
            if k < 2: a = ['-g', str(rng.choice(SEEDABLE)), '-S', S, '-D', D508] + targv(rand_test(rng, FAST, 2))
            elif k == 2: a = ['-g', str(rng.choice(SEEDABLE)), '-S', S, '-o', '-O', str(rng.randrange(3)), '-t', str(rng.randrange(1, 300))]
            else:
                w = rng.randrange(20, 20000); raw = b''.join(sword(ws + ':', j).to_bytes(4, 'little') for j in range(w))
                a = ['-D', D508, '-S', S] + targv(rand_test(rng, FAST, 2))
                if k == 3: a = ['-g', '200'] + a; inp = raw
                else: a = ['-g', '201', '-f', '/w/in'] + a; nodes = [['/w/in', 'r', ws + ':%d' % w]]; files['/w/in'] = raw
            r = ctx.run({'argv': a, 'nodes': nodes, 'stdin': 'h:' + inp.hex(), 'cpu': 30}) if inp or not nodes else ctx.run({'argv': a, 'nodes': nodes, 'cpu': 30})
            b = core.expand({'argv': list(a)})['argv']
            for f in files: open(os.path.join(td, 'in'), 'wb').write(files[f]); b[b.index(f)] = os.path.join(td, 'in')
            q = subprocess.run([exe] + b, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if q.stdout != r.out or 'exit:%d' % q.returncode != r.end(): bad += 1; print('DIFFERENT', a, r.end(), q.returncode, r.out[:200], q.stdout[:200])
    print('conformance: %d command lines, %d different' % (n, bad)); sys.exit(bad != 0)
