"""Seeded search over simulated runs: generate -> run -> judge -> minimise -> replay file."""
import os, sys, json, time, random, hashlib, importlib, multiprocessing as mp, queue, traceback, copy
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sim import build as simbuild
from sim.client import Sim

class NoVerdict(Exception):
    """The run left the modelled world (or hit a real resource limit): says nothing either way."""

class Violation(Exception):
    def __init__(self, tag, msg):
        Exception.__init__(self, tag); self.tag = tag; self.msg = msg

def exe_for(variant):
    return simbuild.build(variant)

class Ctx:
    """What a property's judge sees: run(plan) on the simulator, with bookkeeping."""
    def __init__(self, exes):
        self.sims = {v: Sim(e) for v, e in exes.items()}
        self.reset_stats(); self.history = []; self.logruns = None
    def reset_stats(self):
        self.st = {'runs': 0, 'simtime_us': 0, 'draws': 0, 'events': 0, 'faults': {}, 'ends': {}, 'novars': {}, 'probes': {}}
        self.traces = set()
    def close(self):
        for s in self.sims.values(): s.stop()
    def probe(self, k, n=1):
        self.st['probes'][k] = self.st['probes'].get(k, 0) + n
    def run(self, plan, variant='plain', allow=()):
        plan = dict(plan)
        if self.logruns is not None: plan['log'] = 1
        plan.setdefault('cpu', 4)
        plan.setdefault('draws', 12000000)
        r = self.sims[variant].run(expand(plan))
        st = self.st; st['runs'] += 1; st['simtime_us'] += r.simtime; st['draws'] += r.draws; st['events'] += r.events
        for f, n in zip(plan.get('faults', []), r.fired):
            if n:
                k = '%s.%s.%s' % (f[0] if f[0] in ('stdin', 'stdout', 'stderr', 'heap', 'clock') or f[0].startswith('/dev/') else 'file', f[1], f[3]); st['faults'][k] = st['faults'].get(k, 0) + n
        for c in plan.get('chunk', []): st['faults']['chunked-io'] = st['faults'].get('chunked-io', 0) + 1
        for c in plan.get('latency', []): st['faults']['io-delay'] = st['faults'].get('io-delay', 0) + 1
        e = r.end(); st['ends'][e] = st['ends'].get(e, 0) + 1
        nh = '' if r.why == 'asan' else hashlib.sha1('\n'.join(r.note).encode()).hexdigest()[:12]
        t = int(hashlib.sha1(('%s %s %s %d %s' % (r.trace, r.outhash, e, r.draws, nh)).encode()).hexdigest()[:15], 16)
        self.traces.add(t)
        self.history.append([r.trace, r.outhash, e, nh])
        if self.logruns is not None: self.logruns.append((plan, r))
        if r.kind == 'unmodelled': raise NoVerdict('unmodelled ' + r.why)
        if r.kind == 'budget' and r.why in ('cpu', 'killed', 'file size') and r.why not in allow: raise NoVerdict('limit ' + r.why)
        return r

def expand(plan):
    """made-up generator numbers (vp.lib.XORS) become the supergenerator and its parts"""
    from vp.lib import XORS
    a = plan.get('argv', [])
    for i in range(len(a) - 1):
        if a[i] == '-g' and a[i + 1].isdigit() and int(a[i + 1]) in XORS:
            x = XORS[int(a[i + 1])]; plan = dict(plan, argv=a[:i] + sum([['-g', str(g)] for g in x], []) + a[i + 2:]); break
    if any(o[:2] == ['set', 'generator'] and o[2] in XORS for o in plan.get('ops', [])):
        ops = []
        for o in plan['ops']:
            if o[:2] == ['set', 'generator'] and o[2] in XORS: x = XORS[o[2]]; ops += [['set', 'generator', x[0]]] + [['set', 'addgen', g] for g in x[1:]]
            else: ops.append(o)
        plan = dict(plan, ops=ops)
    return plan

def rng_for(seed, prop, idx):
    return random.Random(int(hashlib.sha256(('%s/%s/%d' % (seed, prop, idx)).encode()).hexdigest()[:16], 16))

def judge(mod, sc, ctx):
    """None | (tag, msg)"""
    ctx.history = []
    try:
        mod.check(sc, ctx)
    except Violation as v:
        return (v.tag, v.msg)
    except NoVerdict as n:
        k = str(n); ctx.st['novars'][k] = ctx.st['novars'].get(k, 0) + 1
    return None

def worker(w, nw, propname, exes, seed, total, counter, best, deadline, q, tier):
    try:
        known = set(f['tag'] for f in load_findings() if f.get('property') == propname)
        mod = importlib.import_module('vp.props.' + propname.lower())
        ctx = Ctx(exes); done = 0; samples = []; t_in = {}
        while True:
            with counter.get_lock():
                i = counter.value; counter.value += 1
            if i >= total or time.time() > deadline: break
            if i > best.value: break
            sc = mod.gen(rng_for(seed, propname, i), i, tier)
            r0 = ctx.st['runs']
            v = judge(mod, sc, ctx)
            done += 1
            if len(samples) < 2 and ctx.st['runs'] > r0: samples.append(summary(sc))
            if v and v[0] in known: ctx.probe('known-finding ' + v[0]); continue
            if v:
                with best.get_lock():
                    if i < best.value: best.value = i
                q.put(('v', i, v, sc))
        q.put(('s', done, ctx.st, ctx.traces, samples)); ctx.close()
    except Exception:
        q.put(('e', traceback.format_exc()))

def summary(sc):
    s = json.dumps(sc, sort_keys=True)
    return s if len(s) < 600 else s[:600] + '...'

def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict): merge(a.setdefault(k, {}), v)
        else: a[k] = a.get(k, 0) + v

def minimise(mod, sc, tag, ctx, budget_s=60, max_evals=400):
    t0 = time.time(); n = 0; changed = True
    while changed and n < max_evals and time.time() - t0 < budget_s:
        changed = False
        for cand in mod.shrink(copy.deepcopy(sc)):
            if n >= max_evals or time.time() - t0 > budget_s: break
            if cand == sc: continue
            n += 1
            try: v = judge(mod, cand, ctx)
            except Exception: continue
            if v and v[0] == tag:
                sc = cand; changed = True; break
    return sc, n

def load_findings():
    out = []
    try:
        for l in open(os.path.join(HERE, 'known-findings.txt')):
            if l.startswith('finding:'):
                d = dict(x.split('=', 1) for x in l.split()[1:3]); d['text'] = ' '.join(l.split()[3:]); out.append(d)
    except FileNotFoundError:
        pass
    return out

def fresh(mod, sc, exes):
    ctx = Ctx(exes)
    try:
        v = judge(mod, sc, ctx); return v, list(ctx.history)
    finally:
        ctx.close()

def replay_file(path):
    d = json.load(open(path)); prop = d['property']
    mod = importlib.import_module('vp.props.' + prop.lower())
    exes = {v: exe_for(v)[0] for v in mod.VARIANTS}
    v, hist = fresh(mod, d['scenario'], exes)
    if v:
        exact = hist == d.get('history')
        print('reproduced: %s: %s' % v); print('event-for-event identical to the recorded run: %s' % ('yes' if exact else 'no (the code differs from the recorded tree)'))
        print('VIOLATION property=%s replay=%s' % (prop, path)); return 1
    print('not reproduced: property %s holds on this replay' % prop); return 0

def main(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    print('property=%s tier=%s VERIF_SEED=%d' % (prop, tier, seed), flush=True)
    mod = importlib.import_module('vp.props.' + prop.lower())
    exes = {}; metas = {}
    for v in mod.VARIANTS:
        exes[v], metas[v] = exe_for(v)
    tb = time.time() - t0
    total, cap = mod.BUDGET[tier]
    scale = float(os.environ.get('VERIF_SCALE', '1')); total = int(total * scale); cap = cap * max(scale, 1)
    nw = int(os.environ.get('VERIF_WORKERS', '8'))
    counter = mp.Value('l', 0); best = mp.Value('l', 1 << 60); q = mp.Queue()
    deadline = time.time() + cap
    ws = [mp.Process(target=worker, args=(w, nw, prop, exes, seed, total, counter, best, deadline, q, tier)) for w in range(nw)]
    for p in ws: p.start()
    st = {}; traces = set(); viol = []; done = 0; samples = []; fin = 0; errs = []
    last = time.time()
    while fin < nw:
        try:
            m = q.get(timeout=5); last = time.time()
        except queue.Empty:
            if not any(p.is_alive() for p in ws) and q.empty(): errs.append('worker died'); break
            if time.time() > deadline + 240: errs.append('workers hang'); break
            continue
        if m[0] == 'v': viol.append(m[1:])
        elif m[0] == 'e': errs.append(m[1]); fin += 1
        else:
            done += m[1]; merge(st, m[2]); traces |= m[3]; samples += m[4]; fin += 1
    for p in ws:
        p.join(1)
        if p.is_alive(): p.kill()
    wall = time.time() - t0
    if errs and not viol:
        print('ERROR in check:\n' + errs[0]); return 2
    viol.sort(key=lambda x: x[0])
    known = [f for f in load_findings() if f.get('property') == prop]
    for f in known: print('KNOWN-FINDING: property=%s %s' % (prop, f['text']))
    viol = [v for v in viol if not any(f.get('tag') == v[1][0] for f in known)]
    rc = 0; nviol = 0; gate_err = None
    for idx, (tag, msg), sc in viol[:3]:
        ctx = Ctx(exes)
        a = judge(mod, sc, ctx); b = judge(mod, sc, ctx)
        if not a or not b or a[0] != tag or b[0] != tag:
            gate_err = 'violation at scenario %d (%s: %s) did not repeat' % (idx, tag, msg); ctx.close(); continue
        msc, n = minimise(mod, sc, tag, ctx)
        ctx.close()
        v1, h1 = fresh(mod, msc, exes); v2, h2 = fresh(mod, msc, exes)
        if not v1 or v1[0] != tag or v1 != v2 or h1 != h2:
            msc = sc; v1, h1 = fresh(mod, msc, exes); v2, h2 = fresh(mod, msc, exes)
            if not v1 or v1[0] != tag or v1 != v2 or h1 != h2:
                gate_err = 'violation at scenario %d (%s) is not reproducible in a fresh process' % (idx, tag); continue
        ctx = Ctx(exes); ctx.logruns = []; judge(mod, msc, ctx)
        runs = [{'plan': p, 'end': r.end(), 'events': r.log[:60] + (['... %d more events' % (len(r.log) - 60)] if len(r.log) > 60 else []), 'out': r.outs[:3000], 'err': r.errs[:1000], 'faults_fired': r.fired} for p, r in ctx.logruns[:12]]
        ctx.close()
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        path = os.path.join(HERE, 'replays', '%s-seed%d-%d.json' % (prop, seed, idx))
        json.dump({'property': prop, 'tag': tag, 'message': v1[1], 'seed': seed, 'index': idx, 'scenario': msc, 'original_scenario': sc if len(json.dumps(sc)) < 100000 else None, 'minimise_evals': n,
                   'history': h1, 'runs': runs, 'replay_cmd': 'python3 /verif/check.py replay ' + path}, open(path, 'w'), indent=1)
        print('violation: %s: %s' % (tag, v1[1])); print('  seed=%d scenario=%d minimised in %d evaluations: %s' % (seed, idx, n, summary(msc)))
        print('VIOLATION property=%s replay=%s' % (prop, path)); rc = 1; nviol += 1
        break
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': mod.LEVEL,
          'coverage': {'evaluations': done, 'distinct_nontrivial': len(traces),
                       'rule': 'one evaluation = one generated scenario judged by comparing/modelling its simulated runs; distinct = distinct (system-call trace, output, values handed out, ending, draw count) hashes of simulated runs',
                       'samples': samples[:8] or ['none'],
                       'simulated_runs': st.get('runs', 0), 'runs_per_hour': int(st.get('runs', 0) / max(wall - tb, 1e-3) * 3600), 'seeds_per_hour': int(done / max(wall - tb, 1e-3) * 3600),
                       'simulated_seconds': st.get('simtime_us', 0) / 1e6, 'numbers_drawn': st.get('draws', 0), 'simulated_system_calls': st.get('events', 0),
                       'faults_fired': st.get('faults', {}), 'run_endings': st.get('ends', {}), 'probes': st.get('probes', {}), 'no_verdict': st.get('novars', {}),
                       'planned_scenarios': total, 'build_s': round(tb, 1),
                       'real_components': 'all %d C sources of dieharder and libdieharder, GSL, stdio, libm' % metas[mod.VARIANTS[0]]['sources'],
                       'stub_components': 'files, pipes, devices, clock, entropy, heap failures, process exit (simulated kernel, seams: %s); generator 600 (scripted stream) where a scenario names it' % ' '.join(metas[mod.VARIANTS[0]]['seams']),
                       'unsimulated_libc': metas[mod.VARIANTS[0]]['escapes'], 'degraded_interface': metas[mod.VARIANTS[0]].get('degraded', '')},
          'wall_s': round(time.time() - t0, 1), 'violations': nviol, 'assumptions': mod.ASSUMPTIONS}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d scenarios, %d simulated runs, %d distinct, %.0f s; endings %s; faults %s; probes %s; no verdict %s' % (prop, done, st.get('runs', 0), len(traces), time.time() - t0, st.get('ends'), st.get('faults'), st.get('probes'), st.get('novars')))
    if rc == 0 and gate_err:
        print('ERROR: ' + gate_err); return 2
    return rc
