"""C07: with per-test seeding a test's result does not depend on what ran before it."""
from vp.lib import *
from vp.props import c04
TECHNIQUE = 'seeded histories of tests, generator switches and whole -a runs against each test run alone in a fresh simulated process'
NOTE = 'random orders, repetitions, n-tuples, sample counts, generator and file switches; every row compared with the stand-alone run'
VARIANTS = ['plain']; LEVEL = 'exploration'
BUDGET = {'quick': (4500, 45), 'thorough': (300000, 780)}
ASSUMPTIONS = ['the run-everything mode is run with scaled-down standard sample counts (same code, smaller tables)',
               'sequences outside -a are driven through the entry points the documented user-interface loop uses (parsecl, choose_rng, execute_test), dropping buffered bits before a reseeded test as -a does']
ALL = [(d, 0) for d in range(0, 18)] + [(100, 0), (101, 0), (102, 0)] + [(200, n) for n in range(1, 13)] + [(201, n) for n in range(2, 6)] + [(202, n) for n in range(2, 6)] + [(203, n) for n in range(0, 33)] + [(d, 0) for d in range(204, 211)]

WIDTHS = [13, 39, 20, 43, 51, 57]       # 32, 31, 30, 24, 22 and 15 significant bits

def rand_src(rng):
    r = rng.random()
    if r < 0.55: return {'g': rng.choice(SEEDABLE if rng.random() < 0.6 else WIDTHS)}
    if r < 0.85: return {'g': 201, 'ws': 's:%d' % rng.randrange(1, 2 ** 31), 'n': rng.choice([16, 17, 100, 1000, 5000, 20000, rng.randrange(16, 30000)])}
    return {'g': 202, 'ws': 's:%d' % rng.randrange(1, 2 ** 31), 'n': rng.choice([1, 16, 17, 100, 500, rng.randrange(1, 1500)]), 'ty': rng.choice('duoxXbfg'), 'style': rng.randrange(16), 'ts': rng.randrange(10 ** 6)}

def gen(rng, i, tier):
    sc = {'S': rand_seed(rng), 'opt': []}
    if i < (1 if tier == 'quick' else 4) * len(FULL):
        # every test at the size of a real run, twice, with others between
        sc['kind'] = 'seq'; sc['srcs'] = [{'g': rng.choice([13, 206, 22])}]; sc['full'] = 1
        ts = [full_test(i), rand_test(rng, None, 2, grow=False), rand_test(rng, FAST, 2), full_test(i)]
        sc['steps'] = [{'src': 0, 'test': t, 're': 0} for t in ts]; return sc
    if rng.random() < 0.15: sc['opt'] += ['-k', str(rng.randrange(3))]
    if rng.random() < 0.15: sc['opt'] += ['-L', str(rng.randrange(2))]
    r = rng.random()
    if r < 0.12:
        sc['kind'] = 'all'; sc['src'] = rand_src(rng) if rng.random() < 0.7 else {'g': rng.choice(BITS32)}; sc['std'] = rng.choice([STDF, STDF, STDF, STD])
        while sc['src']['g'] == 202: sc['src'] = rand_src(rng)
        if sc['src']['g'] == 201: sc['src']['n'] = rng.choice([5000, 20000, 100000, 2000000])
        if rng.random() < 0.25: sc['nt'] = rng.choice([1, 2, 3, 4, 5, 6, 7, 8]); sc['std'] = STDF; sc['src'] = {'g': rng.choice(SEEDABLE)}
        if rng.random() < 0.25: sc['opt'] += ['-Y', str(rng.randrange(1, 3)), '-P', str(rng.choice([1, 3])), '-W', '0.4']
        return sc
    sc['kind'] = 'seq'
    n = rng.randrange(2, 7)
    if rng.random() < 0.3:
        # one test over and over, with different sizes
        d = rng.choice(FAST + [102, 206, 208, 210, 6, 5]) if rng.random() < 0.75 else rng.choice(sorted(T)); ts = [rand_test(rng, [d], 4) for _ in range(n)]
    elif rng.random() < 0.5: ts = [rand_test(rng, FAST, 4) for _ in range(n)]
    else: ts = [rand_test(rng, None, 2, grow=False) for _ in range(n)]
    if rng.random() < 0.15: ts = [rand_test(rng, TINY, 3) for _ in range(n)]; sc['opt'] += ['-Y', str(rng.randrange(1, 3)), '-P', '105', '-W', '0.3']
    if rng.random() < 0.12:
        # one test on generators of different width in turn
        d = rng.choice(sorted(T)); srcs = [{'g': g} for g in rng.sample(WIDTHS, rng.choice([2, 2, 3]))]; sc['srcs'] = srcs; sc['opt'] = []
        sc['steps'] = [{'src': k, 'test': rand_test(rng, [d], 2, grow=False), 're': 0} for k in range(len(srcs))]
        return sc
    if rng.random() < 0.03: ts[rng.randrange(n)] = big_test(rng); sc['opt'] = []        # one with as many samples as a real run uses
    srcs = [rand_src(rng) for _ in range(rng.choice([1, 1, 2, 3]))]; cur = None
    if rng.random() < 0.15: srcs = [{'g': g} for g in rng.sample(WIDTHS, 2)]
    sc['srcs'] = srcs; sc['steps'] = []
    for t in ts:
        k = rng.randrange(len(srcs)) if cur is None or rng.random() < 0.5 else cur
        sc['steps'].append({'src': k, 'test': t, 're': int(rng.random() < 0.15)}); cur = k
    return sc

def src_nodes(srcs):
    out = []
    for k, s in enumerate(srcs):
        if s['g'] == 201: out.append(['/w/f%d' % k, 'r', s['ws'] + ':%d' % s['n'], 'ro'])
        elif s['g'] == 202: out.append(['/w/f%d' % k, 'r', c04.text_file(s['ts'], s['ty'], 32, [sword(s['ws'] + ':', j) for j in range(s['n'])], s['style']), 'ro'])
    return out

def src_argv(s, k): return ['-g', str(s['g'])] + (['-f', '/w/f%d' % k] if 'ws' in s else [])

def check(sc, ctx):
    base = ['-S', str(sc['S']), '-s', '1', '-D', '4604'] + sc['opt']
    if sc['kind'] == 'all':
        nodes = src_nodes([sc['src']]); g = src_argv(sc['src'], 0)
        nt = sc.get('nt', 0); todo = ALL
        if nt: todo = [(d, 5 if (d == 201 and not 2 <= nt <= 5) or (d == 202 and nt < 2) else nt) for d in sorted(T)]
        a = ctx.run({'argv': g + base + ['-a', '-m', '1'] + (['-n', str(nt)] if nt else []), 'std': sc['std'], 'nodes': nodes})
        if a.kind == 'budget': raise NoVerdict('all ' + a.end())
        skip = set(sc['std'][4:]); want = []
        for d, n in todo:
            if d in skip: continue
            b = ctx.run({'argv': g + base + ['-d', str(d), '-m', '1'] + (['-n', str(n)] if n else []), 'std': sc['std'], 'nodes': nodes})
            if b.end() != 'exit:0': raise NoVerdict('alone ' + b.end())
            rb = rows508(b)
            if not rb: raise Violation('no-rows', 'test %d (n-tuple %d) alone prints no row' % (d, n))
            want += rb
        got = rows508(a)
        need(a.end() == 'exit:0', 'all-end', 'run of all tests ended %s though each test alone ends normally' % a.end())
        wn = [(x[0], x[1]) for x in want]; gn = [(x[0], x[1]) for x in got]
        need(wn == gn, 'all-list', 'run of all tests does not report each test and n-tuple once and in order: ' + diff(wn, gn))
        need(want == got, 'all-rows', 'row of the run of all tests differs from the same test alone: ' + diff(want, got))
        ctx.probe('all'); return
    nodes = src_nodes(sc['srcs']); st = sc['steps']
    ops = [['parse'], ['choose']]; cur = st[0]['src']
    for x in st:
        s = sc['srcs'][x['src']]; t = x['test']
        if x['src'] != cur or x['re']:
            ops.append(['set', 'generator', s['g']])
            if 'ws' in s: ops.append(['set', 'filename', '/w/f%d' % x['src']])
            ops.append(['choose']); cur = x['src']
        ops += [['set', 'tsamples', t['t']], ['set', 'psamples', t['p']], ['set', 'ntuple', t['n']], ['test', t['d']]]
    a = ctx.run({'argv': src_argv(sc['srcs'][st[0]['src']], st[0]['src']) + base, 'mode': 'ui', 'ops': ops, 'nodes': nodes, 'cpu': 60 if 'full' in sc else 20, 'draws': 100000000 if 'full' in sc else 12000000})
    if a.kind == 'budget': raise NoVerdict('seq ' + a.end())
    want = []
    for x in st:
        b = ctx.run({'argv': src_argv(sc['srcs'][x['src']], x['src']) + base + targv(x['test']), 'nodes': nodes, 'cpu': 60 if 'full' in sc else 20, 'draws': 100000000 if 'full' in sc else 12000000})
        if b.end() != 'exit:0': raise NoVerdict('alone ' + b.end())
        want.append(rows508(b))
    got = rows508(a)
    need(a.end() == 'exit:0', 'seq-end', 'sequence ended %s though each test alone ends normally: %s' % (a.end(), short(a.errs)))
    flat = [r for w in want for r in w]
    need(got == flat, 'rows', 'row of a test depends on what ran before it: alone vs in sequence: ' + diff(flat, got))
    ctx.probe('switch' if len(set(x['src'] for x in st)) > 1 else 'seq')

def shrink(sc):
    if sc['kind'] == 'seq':
        for k in range(len(sc['steps'])):
            if len(sc['steps']) > 1: c = copy.deepcopy(sc); del c['steps'][k]; yield c
    for c in gshrink(sc, keep=('kind', 'd', 'ws', 'S', 'ty', 'opt', 'ts', 'std', 'g', 'src', 'srcs'), mins={'p': 1, 'n': 0}):
        if 'steps' in c and (not c['steps'] or not all(valid_test(x['test']) for x in c['steps'])): continue
        yield c
    if sc.get('opt'):
        c = copy.deepcopy(sc); c['opt'] = []; yield c
