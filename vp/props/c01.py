"""C01: with a fixed seed, results depend on generator, seed and options alone."""
from vp.lib import *
TECHNIQUE = 'two simulated environments per seed, rows and dumps compared'
NOTE = 'each scenario compares runs of one command under different clocks, entropy, heap contents, addresses, pids, environments and display options'
VARIANTS = ['plain']; LEVEL = 'exploration'
BUDGET = {'quick': (9000, 45), 'thorough': (400000, 780)}
ASSUMPTIONS = ['the simulated seams (files, clock, entropy, heap, addresses, pid, environment) are all the environment the program can see; `unsimulated_libc` lists libc entry points outside them (rand/srand occur only in unreachable code)']
SEPS = ['|', ',', ';', ':', '!', '@']

def gen(rng, i, tier):
    k = rng.random()
    sc = {'S': rand_seed(rng), 'g': rng.choice(SEEDABLE), 's': rng.randrange(2), 'env': rand_env(rng), 'opt': []}
    if rng.random() < 0.2: sc['opt'] += ['-k', str(rng.randrange(4))]
    if rng.random() < 0.2: sc['opt'] += ['-L', str(rng.randrange(2))]
    if i < (1 if tier == 'quick' else 4) * len(FULL):
        # every test at the size of a real run
        sc['kind'] = 'env'; sc['test'] = full_test(i); sc['test']['p'] = 1 + i // len(FULL) % 2; sc['opt'] = []; sc['full'] = 1; sc['g'] = rng.choice([13, 39, 206, 22]); return sc
    if k < 0.45:
        sc['kind'] = 'env'; sc['test'] = rand_test(rng)
        if rng.random() < 0.02: sc['test'] = big_test(rng); sc['opt'] = []; return sc         # as many samples as a real run uses
        if rng.random() < 0.06 and sc['test']['d'] not in SLOW: sc['std'] = STD; sc['opt'] += rng.choice([[], ['-m', '2'], ['-m', '0.5']])
        if rng.random() < 0.25: sc['opt'] += ['-Y', str(rng.randrange(1, 3)), '-P', str(rng.choice([1, 5, 100, 150, 200])), '-W', rng.choice(['0.005', '0.2', '0.49']), '-X', rng.choice(['0.000001', '0.01'])]; sc['test'] = rand_test(rng, TINY, 3)
    elif k < 0.65:
        sc['kind'] = 'disp'; sc['test'] = rand_test(rng)
        sc['disp'] = F_TEST_NAME + sum(f for f in (F_HEADER, F_SHOW_RNG, F_LINE_HEADER, F_NTUPLE, F_TS, F_PS, F_PV, F_PV, F_ASSESS, F_PREFIX, F_DESC, F_HIST, F_SEED, F_RATE, F_NUM, F_NOWHITE, F_PVALS, F_FILESTAT) if rng.random() < 0.5)
        sc['disp'] |= F_PV
        if rng.random() < 0.03: sc['std'] = STD; sc['g'] = rng.choice(COMMONG); sc['test'] = rand_test(rng, FAST)
        sc['sep'] = rng.choice(SEPS)
        if rng.random() < 0.3: sc['opt'] += ['-Y', str(rng.randrange(1, 3)), '-P', str(rng.choice([100, 150, 200])), '-W', rng.choice(['0.2', '0.49'])]; sc['test'] = rand_test(rng, TINY, 3)
        if rng.random() < 0.12:
            # debugging output
            sc['kind'] = 'verb'; sc['v'] = rng.choice([1, 1, 1, rng.randrange(2, 66)]); sc['test'] = rand_test(rng, [t for t in T if t not in (0, 2, 12, 101, 102, 208)], 2, grow=False); sc['opt'] = []; sc.pop('std', 0); del sc['disp'], sc['sep']
    elif k < 0.8:
        sc['kind'] = 'dump'; sc['n'] = rng.choice([1, 2, 10, 63, 64, 65, 1000, 1024, 1025, rng.randrange(1, 4000)]); sc['fmt'] = rng.randrange(3); sc['file'] = rng.randrange(2)
    elif k < 0.95:
        sc['kind'] = 'seq'; sc['tests'] = [rand_test(rng, rng.choice([FAST, None]), 3, grow=False) for _ in range(rng.randrange(2, 5))]
    else:
        sc['kind'] = 'all'; sc['std'] = rng.choice([STDF, STDF, STD])
    return sc

def plan(sc):
    base = {'cpu': 60 if 'full' in sc else 12 if 'std' in sc or sc.get('test', {}).get('t', 0) > 5000 else 4, 'draws': 60000000 if 'full' in sc or sc['kind'] in ('disp', 'verb') else 12000000, 'argv': ['-g', str(sc['g']), '-S', str(sc['S']), '-s', str(sc['s'])] + sc['opt']}
    if sc['kind'] == 'dump':
        base['nodes'] = [['/w', 'd', '-']]
        base['argv'] += ['-o', '-O', str(sc['fmt']), '-t', str(sc['n'])] + (['-f', '/w/out'] if sc['file'] else [])
        return base
    base['argv'] += ['-D', '4604']
    if sc['kind'] == 'all':
        base['argv'] += ['-a', '-m', '1']; base['std'] = sc['std']; return base
    if sc['kind'] == 'seq':
        base['mode'] = 'ui'; base['ops'] = [['parse'], ['choose']]
        for t in sc['tests']: base['ops'] += [['set', 'tsamples', t['t']], ['set', 'psamples', t['p']], ['set', 'ntuple', t['n']], ['test', t['d']]]
        return base
    if 'std' in sc:
        # the standard sample counts, scaled down
        base['std'] = sc['std']; base['argv'] += ['-d', str(sc['test']['d'])] + (['-n', str(sc['test']['n'])] if sc['test']['n'] else []); return base
    base['argv'] += targv(sc['test'])
    return base

def fl_rate(sc): return sc['disp'] & F_RATE

def check(sc, ctx):
    b = plan(sc)
    if sc['kind'] == 'disp':
        a = ctx.run(b)
        q = dict(b); q['argv'] = [x for x in b['argv']]; i = q['argv'].index('-D'); q['argv'][i + 1] = str(sc['disp']); q['argv'] += ['-c', sc['sep']]
        c = ctx.run(apply_env(q, sc['env']))
        if c.why == 'draws' and fl_rate(sc): raise NoVerdict('long rate measurement')
        ra = rows508(a)
        if a.kind != 'exit' or not ra: raise NoVerdict('no baseline rows ' + a.end())
        fl = sc['disp']; cols = []                                   # indices into the baseline row
        lay = []
        if fl & F_PREFIX: lay.append(None)
        for f, ix in ((F_TEST_NAME, 0), (F_NUM, None), (F_NTUPLE, 1), (F_TS, 2), (F_PS, 3), (F_PV, 4), (F_ASSESS, 5)):
            if fl & f: lay.append(ix)
        if fl & F_SEED and sc['s']: lay.append(6)
        got = []
        for l in c.outs.split('\n'):
            fs = [x.strip() for x in l.split(sc['sep'])]
            if len(fs) != len(lay) or l.startswith('#'): continue
            n = lay.index(0)
            if fs[n][:20] not in set(r[0] for r in ra) or (fl & F_PREFIX and fs[0] != '2'): continue
            got.append(tuple((x[:20] if ix == 0 else x) for x, ix in zip(fs, lay) if ix is not None))
        want = [tuple(r[ix] for ix in lay if ix is not None) for r in ra]
        need(c.end() == a.end() and got == want, 'display', 'display options changed the results: %s (end %s vs %s)' % (diff(want, got), a.end(), c.end()))
        ctx.probe('display'); return
    if sc['kind'] == 'verb':
        a = ctx.run(b); c = ctx.run(apply_env(dict(b, argv=b['argv'] + ['-v', str(sc['v'])], cpu=12), sc['env']))
        ra = rows508(a); rc = set(rows508(c))
        if a.kind != 'exit' or not ra: raise NoVerdict('no baseline rows ' + a.end())
        if len(c.out) >= 20000000: raise NoVerdict('too much debugging output')
        need(c.end() == a.end(), 'display', 'with debugging output (-v %d) test %d ends %s, without %s' % (sc['v'], sc['test']['d'], c.end(), a.end()))
        miss = [x for x in ra if x not in rc]
        need(not miss, 'display', 'debugging output (-v %d) changed the results: row %s is missing' % (sc['v'], short(miss[:1])))
        ctx.probe('debug'); return
    a = ctx.run(apply_env(b, {'junk': 0}))
    c = ctx.run(apply_env(b, sc['env']))
    if sc['kind'] == 'dump':
        x = a.blobs.get('/w/out', b'') if sc['file'] else a.out; y = c.blobs.get('/w/out', b'') if sc['file'] else c.out
        if not x: raise NoVerdict('empty dump')
        need(a.end() == c.end() and x == y, 'dump', 'dumped numbers differ between environments (end %s vs %s)' % (a.end(), c.end()))
        ctx.probe('dump'); return
    if a.kind == 'exit' and not rows508(a): raise NoVerdict('no rows')
    if a.kind == 'budget': raise NoVerdict('baseline ' + a.end())
    need(a.end() == c.end(), 'ending', 'run ends %s in one environment and %s in another' % (a.end(), c.end()))
    need(a.outs == c.outs, 'rows', 'results differ between environments: ' + diff(rows508(a), rows508(c)))
    ctx.probe(sc['kind'])

def shrink(sc):
    for c in gshrink(sc, keep=('kind', 'fmt', 'd', 'clock', 'std', 'opt', 'disp', 'S', 'sep', 's', 'file'), mins={'p': 1, 'n': 0}):
        if 'test' in c and not valid_test(c['test']): continue
        if 'tests' in c and (not c['tests'] or not all(valid_test(t) for t in c['tests'])): continue
        if c.get('n') == 0: continue
        yield c
    for o in range(0, len(sc['opt']), 2):
        c = dict(sc); c['opt'] = sc['opt'][:o] + sc['opt'][o + 2:]; yield c
