"""C14: every finite input gives memory-safe, terminating, well-formed results."""
import re
from vp.lib import *
TECHNIQUE = 'hostile finite streams through every test on the simulated process, half of the runs with address checking; rows judged against the rules'
NOTE = 'constant, alternating, periodic, sparse, dense, counting, special and mixed streams, ended at seeded points; thresholds and sample counts varied'
VARIANTS = ['plain', 'asan']; LEVEL = 'exploration'
BUDGET = {'quick': (6000, 45), 'thorough': (300000, 780)}
ASSUMPTIONS = ['a file that is reused cyclically is an endless input: tests that draw until some pattern appears may need forever on one that never shows it, so endings are judged on pipes',
               'sample counts are at least those the tests need to form their statistics (2 for diehard_runs, 20 for rgb_minimum_distance, whose formula is asymptotic, 5 for dab_dct, 20 for dab_filltree, 200 for dab_filltree2, 1 for all others)', 'assessments with a p-value within 1e-8 of a threshold give no verdict']
TMIN = {14: 2, 201: 20, 206: 5, 207: 20, 208: 200, 210: 1}

FIB = [267914296, 433494437]
while FIB[-1] + FIB[-2] < 2 ** 32: FIB.append(FIB[-1] + FIB[-2])
while FIB[0] > 1000: FIB.insert(0, FIB[1] - FIB[0])

def rand_stream(rng, t=0):
    w = lambda: rng.choice([0, 1, 0xffffffff, 0x80000000, 0x7fffffff, 0x55555555, 0xaaaaaaaa, 0xffff0000, 0xffff, 0x01010101, rng.randrange(2 ** 32)])
    R = lambda: rng.randrange(1, 2 ** 31)
    k = rng.randrange(28)
    if k < 3: return 'c:%d' % w()
    if k < 5: return 'a:%d:%d' % (w(), w())
    if k < 8: return 'p:%d:%d' % (R(), rng.choice([1, 2, 3, 5, 8, 31, 32, 64, 100, 1000, 5000, rng.randrange(1, 2000)]))
    if k < 10: return 'n:%d:%d' % (w(), rng.choice([1, 2, 3, 0x10000, 0x1000000, 0x80000000, rng.randrange(1, 2 ** 32)]))
    if k < 12: return '%s:%d' % (rng.choice('lH'), R())
    if k < 13: return 'e:%d' % R()
    if k < 15: return 'x:%d:%d:%d' % (R(), rng.choice([1, 10, 100, 1000, 5000, 50000]), w())
    if k < 17: return 'q:%d:%d:%d' % (w(), w(), w())
    if k < 18: return 'b:%d:%d:%d' % (R(), rng.choice([1, 0xff, 0xffff, 0xffff0000, 0x80000000, 0x10001, w(), w() & w()]), w())
    if k < 19: return 'r:%d:%d' % (R(), rng.choice([2, 2, 3, 4, 5, 8, 32, 1000]))
    if k < 22: return 'v:%d:%d' % (rng.choice([0, 1, 1, 2, rng.randrange(5000)]), rng.choice([1, 1, 1, 2, 3, 5, rng.randrange(1, 99)]))
    if k < 23: return fib(rng)    # the longest chains of divisions
    if k < 24: return 'n:%d:%d' % (w(), max(1, 2 ** 32 // (t or 100) * rng.choice([1, 1, 1, 3, 7])))        # evenly spread over a sample
    if k < 25: return 'm:%d:%d' % (R(), rng.choice([1, 2, 3, 7, 32, 100, 1000, 10000]))
    if k < 27: return 'z:%d:%d:%d' % (R(), rng.choice([1, 4, 8, 12, 14, 15]), rng.choice([0, 0, w()]))
    return 's:%d' % R()

def fib(rng):
    k = len(FIB) - 1 - rng.randrange(min(12, len(FIB) - 1)); x, y = FIB[k], FIB[k - 1]
    return 'a:%d:%d' % rng.choice([(x, y), (x, y), (y, x)])

SYS = ['c:0', 'c:4294967295', 'z:5:12:0', 'v:0:1', 'a:0:4294967295', 'n:0:1', 'z:7:9:4294967295']        # every test on each of these first
CORPUS = [{'g': 45, 'gs': 1733356138, 'ws': '', 'test': {'d': 102, 't': 1000, 'p': 2, 'n': 0}, 'opt': [], 'asan': 0}] + \
         [{'gs': 1, 'ws': w, 'test': {'d': 204, 't': 100000, 'p': 1, 'n': 0}, 'opt': ['-k', '2'], 'asan': 0} for w in ('c:1', 'l:9')] + \
         [{'gs': 1, 'ws': w, 'test': {'d': 207, 't': 20, 'p': 1, 'n': 0}, 'opt': [], 'asan': 1} for w in ('z:1:12:0', 'z:2:14:0', 'm:5:7', 'm:9:15')] + \
         [{'gs': 1, 'ws': w, 'test': {'d': 204, 't': 16384, 'p': 1, 'n': 0}, 'opt': [], 'asan': 0} for w in ('v:1:1', 'n:0:262144', 'n:0:262160')] + \
         [{'gs': 1, 'ws': fibw, 'test': {'d': 17, 't': 1000, 'p': 1, 'n': 0}, 'opt': [], 'asan': 1} for fibw in ['a:%d:%d' % (FIB[-k], FIB[-k - 1]) for k in range(1, 13)]]

def junk_text(rng):
    """something like a text input file, with anything wrong"""
    ty = rng.choice('diuoxXbfFeEgz#'); nb = rng.choice([32, 32, 31, 1, 0, -1, 33, 100, 4096, 2 ** 31])
    hd = ['type: %s' % ty, 'count: %d' % rng.choice([1, 2, 5, 20, 20, 50, 0, -1, 2 ** 31, 2 ** 32, 2 ** 63]), 'numbit: %d' % nb]; rng.shuffle(hd)
    L = [h.encode() for h in hd]
    for _ in range(rng.choice([0, 1, 5, 20, 20, 50])):
        w = rng.randrange(2 ** 32); k = rng.random()
        L.append((format(w, '0%db' % min(max(nb, 1), 4000)) if ty == 'b' else '%.17g' % (w / 2.0 ** 32) if ty in 'fFeEg' else '%o' % w if ty == 'o' else '%x' % w if ty in 'xX' else '%d' % w).encode())
        if k < 0.06: L[-1] = rng.choice([b'nan', b'inf', b'-inf', b'1e400', b'-5', b'-0.5', b'1e308', b'99999999999999999999999', b'0x', b'+', b'1.5e', b'', b'\x00', b'%s%n', b'\xff\xfe'])
    for _ in range(rng.choice([0, 0, 1, 1, 2, 4])):
        j = rng.randrange(len(L)); k = rng.randrange(9)
        if k == 0: L[j] = b''
        elif k == 1: L[j] = bytes(rng.randrange(256) for _ in range(rng.choice([1, 3, 40])))
        elif k == 2: L[j] = b'\0' * rng.choice([1, 2, 50]) + L[j]
        elif k == 3: L[j] = L[j] + rng.choice([b'7', b'0', b' ', b'x', b'1']) * rng.choice([1, 120, 128, 1000, 1022, 1023, 1024, 1025, 3000])
        elif k == 4: L[j] = rng.choice([b' ', b':', b',', b'a b ', b'type ', b't:']) * rng.choice([1, 2, 127, 128, 511, 512, 600])
        elif k == 5: L.insert(j, b'#' * rng.choice([1, 1022, 1023, 1024, 2000]))
        elif k == 6: L[j] = L[j].replace(b': ', rng.choice([b':', b' ', b'', b':' * 130, b': 1 ']))
        elif k == 7: L.insert(j, L[j])
        else: del L[j]
        if not L: L = [b'x']
    t = rng.choice([b'\n', b'\n', b'\n', b'\n', b'\r\n', b'\r']).join(L) + rng.choice([b'\n', b'\n', b''])
    return 'T:' + t[:rng.choice([10 ** 9, 10 ** 9, 10 ** 9, rng.randrange(len(t) + 1)])].hex()

def gen(rng, i, tier):
    ts = sorted(T); std = {'W': 0.005, 'X': 1e-6, 'n': None}
    if i < len(SYS) * len(ts):
        d = ts[i % len(ts)]; return dict(std, gs=1 + i, ws=SYS[i // len(ts)], test={'d': d, 't': T[d], 'p': 1, 'n': (NT[d][0] if d in (200, 201, 202) else 0)}, opt=[], asan=int(d not in SLOW or i % 2))
    if i < len(SYS) * len(ts) + len(CORPUS): return dict(std, **copy.deepcopy(CORPUS[i - len(SYS) * len(ts)]))
    if rng.random() < 0.12: return {'gs': 1, 'text': junk_text(rng), 'ws': '', 'test': rand_test(rng, TINY, 2, grow=False), 'opt': [], 'asan': int(rng.random() < 0.7), 'W': 0.005, 'X': 1e-6, 'n': None}
    sc = {'gs': rng.randrange(1, 2 ** 31), 'ws': '', 'test': rand_test(rng, None if rng.random() < 0.45 else [t for t in T if t not in SLOW], 3, grow=rng.random() < 0.5), 'opt': []}
    sc['asan'] = int(i % 3 == 0)
    if rng.random() < 0.2: sc['g'] = rng.choice(SEEDABLE)
    if rng.random() < 0.25: sc['test']['t'] = max(TMIN.get(sc['test']['d'], 1), rng.choice([1, 2, 3, 5, 10, 20, 50, 99]))
    if rng.random() < 0.5: sc['opt'] += ['-k', str(rng.randrange(4) if sc['test']['d'] not in (206, 9, 12) else rng.choice([0, 1, 3]))]
    if rng.random() < 0.2: sc['opt'] += ['-L', str(rng.randrange(2))]
    sc['ws'] = rand_stream(rng, sc['test']['t'])
    if sc['test']['d'] == 17 and rng.random() < 0.3: sc['ws'] = fib(rng); sc['asan'] = 1
    if sc['test']['d'] in (207, 208) and rng.random() < 0.3: sc['asan'] = 1
    sc['W'] = rng.choice([0.005, 0.005, 0.05, 0.3, 0.49, 0.0001]); sc['X'] = rng.choice([1e-6, 1e-6, 1e-3, 0.01, 1e-9])
    if sc['X'] > sc['W']: sc['X'] = 1e-6
    if rng.random() < 0.3: sc['test']['p'] = rng.choice([1, 2, 5, 10, 20, 21, 100, 150]) if sc['test']['d'] in TINY else sc['test']['p']
    if rng.random() < 0.04:                              # as many samples as a real run uses, or more
        sc['test'] = big_test(rng); sc['asan'] = int(rng.random() < 0.7); sc['ws'] = rand_stream(rng, sc['test']['t'])
        if '-k' in sc['opt']: del sc['opt'][:2]
    sc['n'] = rng.choice([None, None, None, 0, 1, 2, 100, rng.randrange(1, 3000), rng.randrange(1, 100000)])
    if rng.random() < 0.1: sc['D'] = F_HIST
    if rng.random() < 0.1: sc['D'] = F_PVALS
    return sc

def asan_text(r):
    return short(re.sub(r'0x[0-9a-f]+', '0x..', re.sub(r'==\d+==', '', ' '.join(r.note[:3]))), 300)

def shape(rs): return [(x[0], x[1], x[2], x[3]) for x in rs]

def check(sc, ctx):
    t = sc['test']; v = 'asan' if sc['asan'] else 'plain'
    D = int(D508) | sc.get('D', 0)
    argv = ['-g', '200', '-S', '1', '-D', str(D), '-W', repr(sc['W']), '-X', '%.15f' % sc['X']] + sc['opt'] + targv(t)
    if 'text' in sc:
        r = ctx.run({'argv': ['-g', '202', '-f', '/w/in'] + argv[2:], 'nodes': [['/w/in', 'r', sc['text'], 'ro']], 'cpu': 20, 'steps': 10 ** 8}, v)
        if r.kind == 'budget': raise NoVerdict('text ' + r.end())          # reused cyclically: an endless input
        judge_rows(sc, ctx, r, None, 'test %d (t=%d p=%d n-tuple %d) on the text file %s' % (t['d'], t['t'], t['p'], t['n'], short(bytes.fromhex(sc['text'][2:]), 200)), text=True)
        return ctx.probe('text')
    if 'g' in sc:
        # the same test on a built-in generator, good or bad
        r = ctx.run({'argv': ['-g', str(sc['g']), '-S', str(sc['gs'])] + argv[4:], 'draws': 20000000, 'cpu': 60 if sc['asan'] else 20}, v)
        judge_rows(sc, ctx, r, None, 'test %d (t=%d p=%d n-tuple %d%s) on generator %d with seed %d' % (t['d'], t['t'], t['p'], t['n'], ' ' + ' '.join(sc['opt']) if sc['opt'] else '', sc['g'], sc['gs']))
        return
    g = ctx.run({'argv': argv, 'stdin': 's:%d:inf' % sc['gs'], 'draws': 8000000, 'cpu': 60 if sc['asan'] else 20}, v)
    need(g.why != 'asan', 'memory', 'test %d (t=%d p=%d n-tuple %d) on good random numbers: memory error: %s' % (t['d'], t['t'], t['p'], t['n'], asan_text(g)))
    need(g.kind != 'signal', 'crash', 'test %d (t=%d p=%d n-tuple %d) on good random numbers: ended %s: %s' % (t['d'], t['t'], t['p'], t['n'], g.end(), short(g.errs)))
    if g.end() != 'exit:0': raise NoVerdict('good stream ' + g.end())
    n = sc['n'] if sc['n'] is not None else min(2 * g.draws + 1000, 6000000)
    r = ctx.run({'argv': argv, 'stdin': '%s:%d' % (sc['ws'], n), 'draws': 20000000, 'cpu': 60 if sc['asan'] else 20}, v)
    what = 'test %d (t=%d p=%d n-tuple %d%s) on %d words of %s' % (t['d'], t['t'], t['p'], t['n'], ' ' + ' '.join(sc['opt']) if sc['opt'] else '', n, sc['ws'])
    judge_rows(sc, ctx, r, g, what, n)

def judge_rows(sc, ctx, r, g, what, n=0, text=False):
    t = sc['test']
    need(r.why != 'asan', 'memory', '%s: memory error: %s' % (what, asan_text(r)))
    need(r.kind != 'budget', 'hang', '%s: does not end (%s)' % (what, r.end()))
    need(r.kind == 'exit', 'crash', '%s: ended %s: %s' % (what, r.end(), short(r.errs)))
    # what was read: at most what is there
    rs = [x for x in rows508(r) if len(x) >= 6]
    good = shape([x for x in rows508(g) if len(x) >= 6]) if g else None
    need(all(x[3] == str(t['p']) for x in rs), 'psamples', '%s: rows show %s p-samples' % (what, sorted(set(x[3] for x in rs))))
    if t['d'] not in FIXEDT: need(all(x[2] == str(t['t']) for x in rs), 'tsamples', '%s: rows show %s samples' % (what, sorted(set(x[2] for x in rs))))
    if text: need(not rs or len(rs) == ROWS.get(t['d'], 1), 'shape', '%s: %d rows' % (what, len(rs))); need(rs or r.errs or len(r.outs) > 0, 'no-rows', '%s: no rows and no message' % what)
    elif g is None: need(len(rs) == ROWS.get(t['d'], 1), 'shape', '%s: %d rows' % (what, len(rs)))
    elif rs: need(shape(rs) == good, 'shape', '%s: rows %s, on good numbers %s' % (what, short(shape(rs)), short(good)))
    if g and (r.errs == '' or n >= 2 * g.draws + 1000 and not rs): need(rs or r.errs != '', 'no-rows', '%s: no rows and no message' % what)
    for x in rs:
        try: p = float(x[4])
        except ValueError: p = float('nan')
        need(p == p and 0 <= p <= 1, 'narrow-birthdays' if p != p and sc.get('g') == 57 and t['d'] in (0, 210) and t['p'] == 1 else 'p-value', '%s: p-value %s of %s' % (what, x[4], x[0]))
        if any(abs(p - y) < 2e-8 for y in (sc['X'], sc['W'], 1 - sc['X'], 1 - sc['W'])): continue
        a = 'FAILED' if p < sc['X'] or p > 1 - sc['X'] else 'WEAK' if p < sc['W'] or p > 1 - sc['W'] else 'PASSED'
        need(x[5] == a, 'assessment', '%s: p-value %s with thresholds %g and %g is called %s' % (what, x[4], sc['X'], sc['W'], x[5]))
        ctx.probe(a)
    ctx.probe('rows' if rs else 'message')

FIXEDT = (10,)

def shrink(sc):
    if 'text' in sc:
        b = bytes.fromhex(sc['text'][2:]); L = b.split(b'\n')
        for n in (len(L) // 2, 1):
            for j in range(0, len(L), max(1, n)): yield dict(sc, text='T:' + b'\n'.join(L[:j] + L[j + max(1, n):]).hex())
        return
    for c in gshrink(sc, keep=('d', 'ws', 'gs', 'opt', 'asan', 'X', 'W', 'D'), mins={'p': 1, 'n': 0, 't': 1}):
        t = c['test']
        if t['t'] >= TMIN.get(t['d'], 1) and t['p'] >= 1 and (t['d'] not in (200, 201, 202) or t.get('n', 0) in NT[t['d']]): yield c
    if sc['opt']: yield dict(sc, opt=[])
    if 'D' in sc: c = dict(sc); del c['D']; yield c
    if sc['ws'] not in ('c:0', 'c:1'):
        for w in ('c:0', 'c:1', 'c:4294967295'): yield dict(sc, ws=w)
    if sc['n'] is None: yield dict(sc, n=20000)
