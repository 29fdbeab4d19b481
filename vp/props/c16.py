"""C16: finished results survive a kill at any instant."""
from vp.lib import *
from vp.props.c07 import ALL, src_nodes, src_argv
TECHNIQUE = 'the simulated process killed at seeded numbers drawn and system calls; what reached its output judged against the undisturbed run and the tests finished by then'
NOTE = 'kill points aimed at and around test, stage and row boundaries and anywhere else; run-all, adaptive, sequences and dumps; short writes to the output'
VARIANTS = ['plain']; LEVEL = 'exploration'
BUDGET = {'quick': (2500, 45), 'thorough': (500000, 780)}
ASSUMPTIONS = ['a test or stage has finished when the process asks for a number beyond the last one it needs (numbers needed are measured on stand-alone runs)',
               'a kill leaves what write() accepted; nothing is lost below the system call']

def rand_src(rng):
    if rng.random() < 0.75: return {'g': rng.choice(SEEDABLE)}
    return {'g': 201, 'ws': 's:%d' % rng.randrange(1, 2 ** 31), 'n': rng.choice([5000, 20000, 100000, 2000000])}

def gen(rng, i, tier):
    sc = {'S': rand_seed(rng), 'kind': rng.choice(['seq', 'seq', 'seq', 'adapt', 'adapt', 'dump', 'dump', 'all' if rng.random() < 0.1 else 'seq'])}
    sc['at'] = [[rng.random(), rng.choice([None, 0, 1, 1, 1, 2, 5, -1, -2])] for _ in range(rng.randrange(2, 6))]
    if rng.random() < 0.4: sc['chunk'] = ['stdout', rng.choice([1, 2, 3, 7, 20, 64, 500]), rng.randrange(1, 10 ** 6)]
    if rng.random() < 0.3: sc['D'] = rng.choice([F_HEADER, F_SHOW_RNG, F_HIST, F_SEED, F_PREFIX, F_HEADER | F_SEED, F_DESC, F_PVALS])
    if rng.random() < 0.4: sc['op'] = [rng.choice(['stdout', 'stdout', 'in']), rng.choice([rng.random(), rng.randrange(1, 8)])]
    if rng.random() < 0.2: sc['opt'] = ['-k', str(rng.randrange(3))]
    if sc['kind'] == 'dump':
        sc['g'] = rng.choice(SEEDABLE); sc['fmt'] = rng.randrange(3); sc['n'] = rng.choice([1, 10, 100, 1023, 1024, 1025, 3000, rng.randrange(1, 6000)]); sc['file'] = rng.randrange(2)
        if 'chunk' in sc and sc['file']: sc['chunk'][0] = '/w/out'
        return sc
    sc['src'] = rand_src(rng)
    if sc['kind'] == 'all': sc['std'] = rng.choice([STDF, STDF, STDF, STD]); return sc
    if sc['kind'] == 'adapt':
        sc['test'] = rand_test(rng, TINY + [15, 102, 202], 1); sc['test']['p'] = rng.choice([1, 3, 50, 100, rng.randrange(1, 120)]); sc['Y'] = rng.choice([1, 2, 2]); sc['P'] = sc['test']['p'] + rng.choice([100, 150, 200, 300]); return sc
    sc['s'] = rng.randrange(2)
    sc['steps'] = [rand_test(rng, FAST + [102, 206, 208] if rng.random() < 0.9 else None, 3) for _ in range(rng.randrange(1, 6))]
    return sc

def nrows(x): return len([l for l in complete_lines(x.decode('latin-1')).split('\n') if l.endswith(('PASSED', 'WEAK', 'FAILED')) or l.endswith(('PASSED  ', 'WEAK  ', 'FAILED  ')) or any(k in l for k in ('PASSED', 'WEAK', 'FAILED'))])

def check(sc, ctx):
    D = int(D508) | sc.get('D', 0)
    if sc['kind'] == 'dump':
        argv = ['-g', str(sc['g']), '-S', str(sc['S']), '-o', '-O', str(sc['fmt']), '-t', str(sc['n'])] + (['-f', '/w/out'] if sc['file'] else [])
        plan = {'argv': argv, 'nodes': [['/w', 'd', '-']]}
        full = ctx.run(plan)
        if full.end() != 'exit:0': raise NoVerdict('dump ' + full.end())
        ends = []; total = sc['n']; ref = full.blobs.get('/w/out', b'') if sc['file'] else full.out; res = '/w/out' if sc['file'] else 'stdout'
        get = lambda r: r.blobs.get('/w/out', b'') if sc['file'] else r.out
    else:
        base = ['-S', str(sc['S']), '-D', str(D)] + sc.get('opt', []); nodes = src_nodes([sc['src']]); g = src_argv(sc['src'], 0); res = 'stdout'; get = lambda r: r.out
        if sc['kind'] == 'all':
            plan = {'argv': g + base + ['-s', '1', '-a', '-m', '1'], 'std': sc['std'], 'nodes': nodes}; skip = set(sc['std'][4:]); units = []
            full = ctx.run(plan)
            if full.end() != 'exit:0': raise NoVerdict('all ' + full.end())
            for d, n in ALL:
                if d in skip: continue
                b = ctx.run({'argv': g + base + ['-s', '1', '-d', str(d), '-m', '1'] + (['-n', str(n)] if n else []), 'std': sc['std'], 'nodes': nodes})
                if b.end() != 'exit:0': raise NoVerdict('alone ' + b.end())
                units.append((b.draws, nrows(b.out)))
            ends = []; c = k = 0
            for dr, n in units: c += dr; k += n; ends.append((c, k))
        elif sc['kind'] == 'adapt':
            t = sc['test']; plan = {'argv': g + base + ['-s', '1', '-Y', str(sc['Y']), '-P', str(sc['P']), '-W', '0.49'] + targv(t), 'nodes': nodes}
            full = ctx.run(plan)
            if full.end() != 'exit:0': raise NoVerdict('adapt ' + full.end())
            ps = [int(x[3]) for x in rows508(full) if x[3].isdigit()]; ends = []
            if len(ps) > 100: raise NoVerdict('many stages')
            for i, p in enumerate(ps):
                if i + 1 < len(ps) and ps[i + 1] == p: continue
                b = ctx.run({'argv': g + base + ['-s', '1'] + targv(dict(t, p=p)), 'nodes': nodes})
                if b.end() != 'exit:0': raise NoVerdict('alone ' + b.end())
                ends.append((b.draws, i + 1))
            if ends[-1][0] != full.draws: raise NoVerdict('stages draw differently')
        else:
            ops = [['parse'], ['choose']]; mops = list(ops)
            for t in sc['steps']:
                o = [['set', 'tsamples', t['t']], ['set', 'psamples', t['p']], ['set', 'ntuple', t['n']], ['test', t['d']]]; ops += o; mops += o + [['mark', 'x']]
            plan = {'argv': g + base + ['-s', str(sc['s'])], 'mode': 'ui', 'ops': ops, 'nodes': nodes}
            full = ctx.run(dict(plan, ops=mops))
            if full.end() != 'exit:0': raise NoVerdict('seq ' + full.end())
            ends = []
            for x in full.note:
                if x.startswith('mark'):
                    f = dict(y.split('=') for y in x.split()[2:]); ends.append((int(f['draws']), nrows(full.out[:int(f['out'])])))
        total = ends[-1][0] if ends else 0; ref = full.out
        need(not ends or ends[-1][1] == nrows(ref) or sc['kind'] == 'seq', 'rows', 'undisturbed run prints %d rows, its tests alone %d' % (nrows(ref), ends[-1][1]))
    if 'chunk' in sc: plan = dict(plan, chunk=[sc['chunk']])
    kills = []
    for f, near in sc['at']:
        if near is not None and ends: n = ends[int(f * len(ends))][0] + near
        else: n = int(f * (total + 1))
        kills.append(('draws', max(0, n)))
    if 'op' in sc:
        what, k = sc['op']
        if what == 'stdout':
            nw = ctx.run(plan).nodes.get(res, {}).get('write', 0)
            if nw: kills.append(('write', max(1, int(k * nw) + 1 if isinstance(k, float) else k)))
        elif sc.get('src', {}).get('g') == 201: kills.append(('read', max(1, int(k * 300) + 1 if isinstance(k, float) else k)))
    for how, n in kills:
        if how == 'draws': r = ctx.run(dict(plan, draws=n))
        else: r = ctx.run(dict(plan, faults=[[res if how == 'write' else '/w/f0', how, n, 'kill', 0, 1]]))
        if r.kind == 'exit':
            need(get(r) == ref, 'output', 'same run, different output: ' + short(diff(get(r).split(b'\n'), ref.split(b'\n')))); continue
        if r.kind != 'budget' or r.why not in ('draws', 'kill'): raise NoVerdict('killed run ' + r.end())
        o = get(r); wh = 'killed at number %d' % r.draws if how == 'draws' else 'killed at %s %d (number %d)' % (how, n, r.draws)
        need(ref.startswith(o), 'prefix', '%s: output is not a prefix of the undisturbed output: ...%s' % (wh, short(o[-120:])))
        done = [k for d, k in ends if d <= r.draws - 1]
        want = max(done) if done else 0
        need(nrows(o) >= want, 'lost', '%s: %d rows of finished tests should be there, %d are (%s)' % (wh, want, nrows(o), sc['kind']))
        ctx.probe('%s %s' % (sc['kind'], 'with finished rows' if want else 'early' if sc['kind'] != 'dump' else 'prefix')); ctx.st['faults']['kill at ' + how] = ctx.st['faults'].get('kill at ' + how, 0) + 1

def shrink(sc):
    for k in range(len(sc['at'])):
        if len(sc['at']) > 1 or 'op' in sc: yield dict(sc, at=sc['at'][:k] + sc['at'][k + 1:])
    for k in ('chunk', 'op', 'D', 'opt'):
        if k in sc: c = dict(sc); del c[k]; yield c
    if 'steps' in sc:
        for k in range(len(sc['steps'])):
            if len(sc['steps']) > 1: yield dict(sc, steps=sc['steps'][:k] + sc['steps'][k + 1:])
        for c in gshrink({'steps': sc['steps']}, keep=('d', 'n'), mins={'p': 1}):
            if c['steps'] and all(valid_test(t) for t in c['steps']): yield dict(sc, **c)
