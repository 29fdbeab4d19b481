"""C11: the reported speed is numbers drawn per second of elapsed clock time."""
from vp.lib import *
TECHNIQUE = 'simulated clock: seeded draw costs, clock starts, jumps, freezes and I/O delays against the exact speed the simulation implies'
NOTE = 'generator costs from 1 ns to 1 ms per number, clock starts at and around second boundaries, forward and backward jumps inside and between intervals'
VARIANTS = ['plain']; LEVEL = 'exploration'
BUDGET = {'quick': (45000, 45), 'thorough': (400000, 780)}
ASSUMPTIONS = ['the printed rate has three digits; intervals are at least 1 ms so that microsecond clock resolution adds less than 0.2%']
TOL = 0.012

def rand_step(rng):
    t, p = rng.choice([(1000, 1), (1000, 3), (2000, 2), (5000, 1), (3000, 7), (1000, 20), (20000, 1), (1234, 5), (1, 4), (7, 3), (1000, 100), (50, 50), (100000, 2)])
    lo = max(1, -(-10 ** 6 // t))
    cost = rng.choice([lo, lo + 1, 2 * lo, lo + rng.randrange(1, 5000), lo * rng.randrange(1, 300)])
    return {'t': t, 'p': p, 'cost': min(cost, 10 ** 9 // t * 40 + lo), 'g': rng.choice(SEEDABLE if rng.random() < 0.8 else [500, 501])}

def gen(rng, i, tier):
    if i == 0: return {'S': 1, 'kind': 'big', 'clock': 0, 'flags': [], 'sep': None, 'steps': [{'t': 1048576, 'p': 4097, 'g': 39, 'cost': 100}]}
    sc = {'S': rand_seed(rng)}
    base = rng.choice([0, 1, 10 ** 9, 1700000000, 2 ** 31 - 1, 2 ** 31, 4102444800, rng.randrange(2 ** 32)]) * 10 ** 6
    sc['clock'] = base + rng.choice([0, 1, 999999, 999000, 999990, 500000, rng.randrange(10 ** 6)])
    sc['ccost'] = rng.choice([0, 0, 0, 1])
    sc['flags'] = [f for f in (F_HEADER, F_LINE_HEADER, F_SEED, F_NUM, F_NOWHITE, F_TEST_NAME) if rng.random() < 0.4]
    sc['sep'] = rng.choice([None, None, ',', ';'])
    r = rng.random()
    if r < 0.25: sc['kind'] = 'seq'; sc['steps'] = [rand_step(rng) for _ in range(rng.randrange(2, 5))]; sc['jumps'] = [rng.choice([0, 10 ** 9, -10 ** 9, 1, 86400 * 10 ** 6]) for _ in sc['steps']]
    elif r < 0.255 and i % 4 == 0: sc['kind'] = 'cli'; sc['steps'] = [dict(rand_step(rng), t=0, p=0, cost=rng.choice([1, 7, 100, 12345]), g=rng.choice(COMMONG))]; sc['m'] = rng.choice([0, 1, 2])
    elif r < 0.29: sc['kind'] = 'cli'; sc['steps'] = [rand_step(rng)]; sc['steps'][0].update(t=rng.choice([1000, 5000, 20000]), p=rng.randrange(1, 9), cost=rng.randrange(1000, 100000)); sc['m'] = 0
    elif r < 0.36: sc['kind'] = 'file'; sc['steps'] = [rand_step(rng)]; sc['src'] = rng.choice(['raw', 'text', 'stdin']); sc['n'] = rng.choice([64, 1000, 10000]); sc['lat'] = rng.choice([0, 10, 1000, 50000])
    else:
        sc['kind'] = 'one'; sc['steps'] = [rand_step(rng)]
        sc['fault'] = rng.choice(['none', 'none', 'between', 'between', 'inside', 'inside', 'back', 'freeze'])
        sc['k'] = rng.randrange(10 ** 6); sc['arg'] = rng.choice([10 ** 6, 3600 * 10 ** 6, 10 ** 12, 1500, rng.randrange(1, 10 ** 7)])
        sc['neg'] = rng.randrange(2)
    for s in sc['steps']:
        if s['g'] in (500, 501): s['t'] = min(s['t'], 2000); s['cost'] = max(s['cost'], 1000)
    return sc

def rates(sc, r):
    """speeds shown, in order"""
    sep = sc['sep'] or '|'; out = []; col = None
    for l in r.outs.split('\n'):
        if 'rands/second' in l: col = [x.strip() for x in l.split(sep)].index('rands/second'); continue
        if col is not None:
            f = [x.strip() for x in l.split(sep)]
            if len(f) > col:
                try: out.append(float(f[col]))
                except ValueError: pass
            col = None
    return out

def argv(sc, s, extra=()):
    D = F_SHOW_RNG | F_RATE | F_LINE_HEADER | F_TEST_NAME | F_PV
    for f in sc['flags']: D |= f
    return ['-g', str(s['g']), '-S', str(sc['S']), '-D', str(D), '-t', str(s['t']), '-p', str(s['p'])] + (['-c', sc['sep']] if sc['sep'] else []) + list(extra)

def close(got, want): return abs(got - want) <= TOL * want

def clocks(r): return [int(l.split('-> ')[1].split()[0]) for l in r.log if ' clock clock #' in l]

def check(sc, ctx):
    s0 = sc['steps'][0]
    if sc['kind'] == 'seq':
        ops = []
        for s, j in zip(sc['steps'], sc['jumps']):
            ops += [['cost', s['cost']], ['parsel'] + argv(sc, s), ['choose'], ['jump', j], ['set', 'tsamples', 100], ['set', 'psamples', 1], ['test', 100]]
        r = ctx.run({'mode': 'ui', 'ops': ops, 'clock': [sc['clock'], s0['cost'], sc['ccost']]})
        if r.end() != 'exit:0': raise NoVerdict(r.end())
        got = rates(sc, r)
        # the header is shown once per process; a program that shows it for every selection must show the right one each time
        if not got: raise NoVerdict('no header')
        for k, g in enumerate(got):
            w = 1e9 / (sc['steps'][k]['cost'] + 1000.0 * sc['ccost'] / sc['steps'][k]['t'])
            need(close(g, w), 'rate', 'speed %d shown as %.3e but numbers were drawn at %.3e per second (cost %d ns)' % (k, g, w, sc['steps'][k]['cost']))
        ctx.probe('seq%d' % len(got)); return
    if sc['kind'] == 'big':
        r = ctx.run({'mode': 'ui', 'argv': argv(sc, s0), 'ops': [['parse'], ['choose'], ['set', 'tsamples', 100], ['set', 'psamples', 1], ['test', 100]], 'clock': [0, 100, 0], 'draws': 10 ** 11, 'cpu': 600})
        if r.end() != 'exit:0': raise NoVerdict(r.end())
        need(close(rates(sc, r)[0], 1e7), 'rate', 'speed shown as %s after timing more than 2^32 numbers, should be 1e7' % rates(sc, r))
        return ctx.probe('big')
    if sc['kind'] == 'cli':
        a = argv(sc, s0, ['-d', '100']) + (['-m', str(sc['m'])] if sc['m'] else [])
        r = ctx.run({'argv': a, 'clock': [sc['clock'], s0['cost'], 0], 'std': [0.01, 0.01, 1000], 'draws': 60000000})
        if r.end() != 'exit:0': raise NoVerdict(r.end())
        got = rates(sc, r); w = 1e9 / s0['cost']
        need(len(got) == 1 and close(got[0], w), 'rate', 'speed shown as %s, numbers were drawn at %.3e per second (options %s)' % (got, w, ' '.join(a)))
        ctx.probe('cli'); return
    if sc['kind'] == 'file':
        q = {'argv': argv(sc, s0), 'clock': [sc['clock'], s0['cost'], 0], 'log': 1}
        d = ['-d', '203', '-t', '100', '-p', '1']; f = '/w/in'
        # speed measurement uses -t/-p as well, so run the operation loop with its own sizes
        g = {'raw': 201, 'text': 202, 'stdin': 200}[sc['src']]
        spec = 's:77:%d' % sc['n'] if sc['src'] != 'text' else 'A:d:-1:32:s:77:%d' % sc['n']
        a = argv(sc, dict(s0, g=g))
        if sc['src'] == 'stdin': q['stdin'] = 's:77:inf'; res = 'stdin'
        else: q['nodes'] = [['/w/in', 'r', spec, 'ro']]; a += ['-f', '/w/in']; res = f
        q['argv'] = a; q['mode'] = 'ui'; q['ops'] = [['parse'], ['choose'], ['set', 'tsamples', 100], ['set', 'psamples', 1], ['test', 100]]
        if sc['lat']: q['latency'] = [[res, sc['lat'], 5]]
        r = ctx.run(q)
        if r.end() != 'exit:0': raise NoVerdict(r.end())
        got = rates(sc, r); cl = clocks(r)
        if not got: raise NoVerdict('no header')
        if sc['lat'] == 0: need(close(got[0], 1e9 / s0['cost']), 'rate', 'speed of input shown as %.3e, numbers were delivered at %.3e per second' % (got[0], 1e9 / s0['cost']))
        elif len(cl) == 2 * s0['p']:
            el = sum(b - a for a, b in zip(cl[0::2], cl[1::2]))
            need(close(got[0], 1e6 * s0['p'] * s0['t'] / el), 'rate', 'speed of a slow input shown as %.3e, clock says %.3e' % (got[0], 1e6 * s0['p'] * s0['t'] / el))
            need(el * 1000 >= s0['p'] * s0['t'] * s0['cost'] * 0.99, 'interval', 'the timed interval (%d us) does not cover the drawing of the numbers' % el)
        ctx.probe('file'); return
    base = {'mode': 'ui', 'argv': argv(sc, s0), 'ops': [['parse'], ['choose'], ['set', 'tsamples', 100], ['set', 'psamples', 1], ['test', 100]], 'log': 1}
    a = ctx.run(dict(base, clock=[sc['clock'], s0['cost'], sc['ccost']]))
    if a.end() != 'exit:0': raise NoVerdict(a.end())
    ga = rates(sc, a)
    need(len(ga) == 1, 'no-rate', 'speed was asked for but not shown: %s' % short(a.outs))
    w = 1e9 / (s0['cost'] + 1000.0 * sc['ccost'] / s0['t'])
    need(close(ga[0], w), 'rate', 'speed shown as %.3e but numbers were drawn at %.3e per second (t=%d p=%d cost=%d ns, clock start %d us)' % (ga[0], w, s0['t'], s0['p'], s0['cost'], sc['clock']))
    cl = clocks(a); paired = len(cl) == 2 * s0['p']
    if sc['fault'] == 'none': return ctx.probe('plain')
    if sc['fault'] == 'freeze': b = ctx.run(dict(base, clock=[sc['clock'], 0, 0]))
    else:
        k = sc['k'] % s0['p']; arg = sc['arg'] * (-1 if sc['fault'] == 'back' or sc['neg'] else 1)
        if sc['fault'] in ('inside', 'back') and sc['k'] % 3 == 0: cnt = 3
        else: cnt = 1
        nth = 2 * k + (1 if sc['fault'] == 'between' else 2)
        b = ctx.run(dict(base, clock=[sc['clock'], s0['cost'], sc['ccost']], faults=[['clock', 'clock', nth, 'jump', arg, cnt]]))
    need(b.kind != 'budget', 'hang', 'clock behaviour %s makes the run hang' % sc['fault'])
    need(b.end() == 'exit:0', 'ending', 'clock behaviour %s ends the run: %s' % (sc['fault'], b.end()))
    strip = lambda r: [x for x in rows(r.outs, sc['sep'] or '|')][1:]
    need(strip(a)[-1:] == strip(b)[-1:], 'rows', 'clock behaviour %s changes the result: %s' % (sc['fault'], diff(strip(a), strip(b))))
    if sc['fault'] == 'freeze' or not paired: return ctx.probe(sc['fault'])
    gb = rates(sc, b)
    if sc['fault'] == 'between': need(gb and close(gb[0], w), 'jump-between', 'a clock jump of %d us between timed intervals changed the speed: %s, should be %.3e' % (arg, gb, w))
    else:
        cb = clocks(b); el = sum(y - x for x, y in zip(cb[0::2], cb[1::2]))
        if el >= 1000: need(gb and close(gb[0], 1e6 * s0['p'] * s0['t'] / el), 'elapsed', 'speed %s shown, clock time passed while drawing %d numbers was %d us' % (gb, s0['p'] * s0['t'], el))
    ctx.probe(sc['fault'])

def shrink(sc):
    if sc['kind'] == 'big': return
    for c in gshrink(sc, keep=('kind', 'S', 'g', 'fault', 'src', 'sep', 'cost', 't', 'steps[]'), mins={'p': 1, 'n': 16}):
        if not c.get('steps') or ('jumps' in c and len(c['jumps']) != len(c['steps'])): continue
        yield c
    if len(sc['steps']) > 1:
        for k in range(len(sc['steps'])):
            c = copy.deepcopy(sc); del c['steps'][k]
            if 'jumps' in c: del c['jumps'][k]
            yield c
    s = sc['steps'][0]
    for t, p, cost in ((1000, 1, 1000), (s['t'], 1, s['cost'])):
        if (t, p, cost) != (s['t'], s['p'], s['cost']): c = copy.deepcopy(sc); c['steps'][0].update(t=t, p=p, cost=cost); yield c
