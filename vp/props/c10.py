"""C10: the adaptive modes stop exactly when their rule says so."""
from vp.lib import *
from vp.props.c07 import ALL
TECHNIQUE = 'adaptive runs against a reference model that steps through stages with fresh non-adaptive simulated runs'
NOTE = 'streams from good to pathological; every stage row and the stopping stage compared with the model'
VARIANTS = ['plain']; LEVEL = 'exploration'
BUDGET = {'quick': (7000, 45), 'thorough': (400000, 780)}
ASSUMPTIONS = ['the rule is applied to the printed p-value (8 digits); runs with a p-value within 1e-8 of a threshold give no verdict', 'p-values that are not numbers are C14\'s business']

def gen(rng, i, tier):
    sc = {'S': rand_seed(rng), 'opt': []}
    r = rng.random()
    if r < 0.45: sc['src'] = {'g': rng.choice(SEEDABLE)}
    elif r < 0.75: sc['src'] = {'g': 600, 'ws': rng.choice(['l:%d', 'H:%d', 's:%d', 'e:%d', 'p:%d:' + str(rng.choice([64, 300, 1000, 5000, 20000]))]) % rng.randrange(1, 2 ** 31)}
    else: sc['src'] = {'g': rng.choice([24, 25, 39, 40, 41, 43, 44, 50, 51, 20])}
    if rng.random() < 0.2: sc['opt'] += ['-k', str(rng.randrange(4))]
    sc['W'] = rng.choice([0.005, 0.05, 0.2, 0.45, 0.49, 0.3, 0.0001]); sc['X'] = rng.choice([1e-6, 1e-6, 1e-3, 0.01, 0.1, 1e-12, 0.0])
    if sc['X'] > sc['W'] and rng.random() < 0.9: sc['X'] = 1e-6
    sc['Y'] = rng.choice([0, 1, 1, 1, 2, 2])
    if rng.random() < 0.08:
        sc['kind'] = 'all'; sc['P'] = rng.choice([1, 2, 3, 12]); sc['s'] = 1
        if sc['src']['g'] == 600 or rng.random() < 0.6: sc['src'] = {'g': rng.choice([13, 206, 24, 31])}
        return sc
    sc['kind'] = 'one'; sc['s'] = rng.randrange(2)
    if rng.random() < 0.25: sc['D'] = rng.choice([F_HIST, F_PVALS, F_HIST | F_PVALS])
    if rng.random() < 0.04:
        # many stages, good stream
        sc['test'] = rand_test(rng, TINY, 1); p = sc['test']['p'] = rng.choice([1, 50, 99, 100, 150, 350]); sc['P'] = rng.choice([400, 500, 501, 750, 1000, 1200]); sc['Y'] = 2; sc['X'] = 1e-12
        if rng.random() < 0.8: sc['src'] = {'g': rng.choice([13, 206, 31, 20, 39, 41])}; sc.pop('opt'); sc['opt'] = rng.choice([[], [], ['-k', '1'], ['-k', '2']])
        return sc
    if rng.random() < 0.3:
        # any test, with few samples: the cut-off ends the second or third stage early
        sc['test'] = rand_test(rng, None, 1, grow=False); sc['test']['p'] = rng.choice([1, 1, 2, 3]); sc['P'] = sc['test']['p'] + rng.choice([0, 1, 1, 2, 3])
        if rng.random() < 0.6: sc['Y'] = 2
        return sc
    sc['test'] = rand_test(rng, TINY + [15, 102, 202, 17, 16, 3, 205], 1); sc['test']['p'] = rng.choice([1, 2, 3, 7, 50, 99, 100, 101, rng.randrange(1, 120)])
    if sc['test']['d'] in (102, 15, 16, 17, 3, 205, 203): sc['test']['t'] = T[sc['test']['d']]
    p = sc['test']['p']; sc['P'] = rng.choice([p, p + 1, p + 99, p + 100, p + 101, p + 200, p + 250, max(1, p - 1), 1, 100, 101, 200, 300, p + 300])
    return sc

def small(rs):
    return min(0.5 - abs(float(r[4]) - 0.5) for r in rs)

def stop(sc, rs, p):
    m = small(rs)
    if sc['X'] == 0 and m < 2e-8 and not all(float(x[4]) < 5e-9 for x in rs): raise NoVerdict('p-value at a threshold')
    for thr in (sc['W'], sc['X']):
        if abs(m - thr) < 2e-8 and thr > 0: raise NoVerdict('p-value at a threshold')
    if m < sc['X']: return True
    if p >= sc['P']: return True
    if sc['Y'] == 1 and m >= sc['W']: return True
    return sc['Y'] == 0

def num(rs):
    for r in rs:
        try: x = float(r[4])
        except ValueError: raise NoVerdict('no number')
        if x != x: raise NoVerdict('nan')

def base(sc):
    p = {'argv': ['-g', str(sc['src']['g']), '-S', str(sc['S']), '-s', str(sc['s']), '-D', str(int(D508) | sc.get('D', 0))] + sc['opt']}
    if 'ws' in sc['src']: p['script'] = sc['src']['ws'] + ':inf'; p['script_rewind'] = 1
    return p

def adapt(sc): return ['-Y', str(sc['Y']), '-P', str(sc['P']), '-W', repr(sc['W']), '-X', '%.15f' % sc['X']]

def thr(sc): return ['-W', repr(sc['W']), '-X', '%.15f' % sc['X']]

def check(sc, ctx):
    b = base(sc)
    if sc['kind'] == 'one':
        t = sc['test']; want = []; p = min(t['p'], sc['P']); stages = []; zero = False; draws = 0
        for _ in range(16):
            q = dict(b); q['argv'] = b['argv'] + thr(sc) + targv(dict(t, p=p)); q['draws'] = 3000000
            r = ctx.run(q)
            if r.end() != 'exit:0': raise NoVerdict('fresh ' + r.end())
            rs = rows508(r)
            if not rs: raise NoVerdict('no rows')
            num(rs); want += rs; stages.append(p); draws = r.draws
            if stop(sc, rs, p): break
            if all(float(x[4]) < 5e-9 for x in rs): zero = True
            p = min(p + 100, sc['P'])
        q = dict(b); q['argv'] = b['argv'] + adapt(sc) + targv(t); q['draws'] = draws * 2 + 100000
        a = ctx.run(q); got = rows508(a); tag = 'zero-restart' if zero else None
        need(a.kind != 'budget', tag or 'hang', 'run in mode %d does not end; stages %r expected, rows printed so far %d' % (sc['Y'], stages, len(got)))
        need(a.end() == 'exit:0', tag or 'ending', 'run in mode %d ended %s' % (sc['Y'], a.end()))
        gp = [int(x[3]) for x in got]; wp = [int(x[3]) for x in want]
        need(gp == wp, tag or 'stages', 'mode %d, start %d, cut-off %d, thresholds %g/%g: stages %r expected, got %r' % (sc['Y'], t['p'], sc['P'], sc['X'], sc['W'], sorted(set(wp)), sorted(set(gp))))
        need(got == want, tag or 'rows', 'rows of a stage differ from a single run with that many p-samples: ' + diff(want, got))
        ctx.probe('stages%d' % len(stages)); ctx.probe('mode%d' % sc['Y']); return
    b['std'] = STDF
    a = ctx.run(dict(b, argv=b['argv'] + adapt(sc) + ['-a', '-m', '1'])); got = rows508(a)
    if a.kind == 'budget': raise NoVerdict('all ' + a.end())
    skip = set(STDF[4:]); want = []
    for d, n in ALL:
        if d in skip: continue
        nt = ['-n', str(n)] if n else []
        r = ctx.run(dict(b, argv=b['argv'] + thr(sc) + ['-d', str(d), '-m', '1'] + nt)); rs = rows508(r)
        if r.end() != 'exit:0' or not rs: raise NoVerdict('fresh ' + r.end())
        p = int(rs[0][3])
        if p > sc['P']:
            p = sc['P']; r = ctx.run(dict(b, argv=b['argv'] + thr(sc) + ['-d', str(d), '-p', str(p)] + nt)); rs = rows508(r)
            if r.end() != 'exit:0' or not rs: raise NoVerdict('fresh ' + r.end())
        for _ in range(16):
            num(rs); want += rs
            if stop(sc, rs, p): break
            p = min(p + 100, sc['P'])
            r = ctx.run(dict(b, argv=b['argv'] + thr(sc) + ['-d', str(d), '-p', str(p)] + nt)); rs = rows508(r)
            if r.end() != 'exit:0' or not rs: raise NoVerdict('fresh ' + r.end())
    if sc['X'] == 0 and any(float(x[4]) < 5e-9 for x in want): raise NoVerdict('zero p-value, zero threshold')
    need(a.end() == 'exit:0', 'ending', 'run of all tests in mode %d ended %s' % (sc['Y'], a.end()))
    need(got == want, 'all-rows', 'run of all tests in mode %d, cut-off %d: %s' % (sc['Y'], sc['P'], diff(want, got)))
    ctx.probe('all')

def shrink(sc):
    for c in gshrink(sc, keep=('kind', 'd', 'S', 'g', 'ws', 'opt', 'Y'), mins={'p': 1, 'n': 0, 'P': 1}):
        if 'test' in c and not valid_test(c['test']): continue
        if c['kind'] == 'all': c['s'] = 1
        yield c
    if sc.get('opt'): c = dict(sc); c['opt'] = []; yield c
    if 'D' in sc: c = dict(sc); del c['D']; yield c
