"""C03: seeds of unseeded runs come from the entropy device, fresh each time, else from the clock."""
import re, struct
from vp.lib import *
TECHNIQUE = 'entropy device faults, dependence of the seed on device bytes and clock'
NOTE = 'device open/read faults at each seeding event; seeds matched against the simulated device bytes'
VARIANTS = ['plain']; LEVEL = 'fault_enumeration'
BUDGET = {'quick': (12000, 45), 'thorough': (400000, 780)}
ASSUMPTIONS = ['the entropy device is /dev/urandom (or getrandom/getentropy, simulated from the same stream); which bytes of what it delivers become the seed is left open as long as they are 4 consecutive bytes not used before',
               'a fallback seed is recognised by depending on the clock reading and on nothing else']
M64 = (1 << 64) - 1
def mix(z):
    z = ((z ^ (z >> 30)) * 0xbf58476d1ce4e5b9) & M64; z = ((z ^ (z >> 27)) * 0x94d049bb133111eb) & M64; return z ^ (z >> 31)
def word(seed, i): return mix((seed + (i + 1) * 0x9e3779b97f4a7c15) & M64) >> 32

def gen(rng, i, tier):
    sc = {'g': rng.choice(COMMONG), 'es': rng.randrange(1, 2 ** 40), 'junk': rng.randrange(256), 'clock': [rng.choice([rng.randrange(10 ** 15, 2 * 10 ** 15), 17 * 10 ** 14 + 999999, rng.randrange(10 ** 12)]), rng.choice([0, 100]), rng.choice([0, 1, 7])],
          'rate': rng.random() < 0.2}
    k = rng.random()
    sc['kind'] = 'run' if k < 0.3 else 'seq' if k < 0.75 else 'dump'
    sc['tests'] = [rand_test(rng, TINY, 2, grow=False) for _ in range(rng.randrange(2, 5))]
    sc['chunk'] = rng.choice([0, 0, 0, 4, 8, 64, 4096]) if rng.random() < 0.4 else 0
    if rng.random() < 0.004 or i in (3, 4):
        # many seeding events in one process
        sc['kind'] = 'seq'; sc['tests'] = [{'d': 100, 'n': 0, 't': 2, 'p': 1}] * rng.choice([70, 140, 300, rng.randrange(20, 310)]); sc['mode'] = 'fresh'; sc['long'] = 1; return sc
    m = rng.random()
    if m < 0.3: sc['mode'] = 'fresh'
    elif m < 0.45: sc['mode'] = 'const'; sc['byte'] = rng.choice([0xff, 0x01, 0x80, 0x7f, rng.randrange(1, 256)])
    else:
        sc['mode'] = 'fault'
        sc['fault'] = rng.choice([['/dev/urandom', 'open', 'ENOENT'], ['/dev/urandom', 'open', 'EACCES'], ['/dev/urandom', 'open', 'EMFILE'], ['/dev/urandom', 'read', 'EIO'], ['/dev/urandom', 'read', 'EINTR'], ['/dev/urandom', 'read', 'EAGAIN'],
                                  ['/dev/urandom', 'read', 'eof'], ['dev', 'short', rng.randrange(4)], ['dev', 'missing', 0], ['dev', 'dir', 0]])
        sc['nth'] = rng.choice([1, 1, 2, 3])
        sc['count'] = rng.choice([-1, -1, 1])
    return sc

def plan(sc, es=None, junk=None, clock=None, fault=True):
    es = sc['es'] if es is None else es
    p = {'junk': sc['junk'] if junk is None else junk, 'clock': sc['clock'] if clock is None else clock, 'nodes': [['/w', 'd', '-']], 'log': 1}
    spec = 's:%d:inf' % es
    if sc['mode'] == 'const': spec = 'c:%d:inf' % (sc['byte'] * 0x01010101)
    dev = ['/dev/urandom', 'c', spec]
    if fault and sc['mode'] == 'fault':
        f = sc['fault']
        if f[0] == 'dev':
            dev = {'short': ['/dev/urandom', 'c', 's:%d:1~%d' % (es, 4 - f[2])], 'missing': ['/dev/urandom', 'x', '-'], 'dir': ['/dev/urandom', 'd', '-']}[f[1]]
        else: p['faults'] = [[f[0], f[1], sc['nth'], f[2], 0, sc['count']]]
    p['nodes'].append(dev)
    if sc['chunk']: p['chunk'] = [['/dev/urandom', sc['chunk'], 7]] if sc['chunk'] >= 4 else []
    g = ['-g', str(sc['g'])]; rate = F_RATE if sc['rate'] else 0
    if sc['kind'] == 'dump': p['argv'] = g + ['-o', '-O', '1', '-t', '4']
    elif sc['kind'] == 'run': p['argv'] = g + ['-s', '0', '-D', str(ROWFLAGS + F_LINE_HEADER + F_SHOW_RNG + F_SEED + rate)] + targv(sc['tests'][0])
    else:
        p['mode'] = 'ui'; p['argv'] = g + ['-s', '1', '-D', str(ROWFLAGS + F_LINE_HEADER + F_SEED + rate)]
        p['ops'] = [['parse'], ['choose'], ['mark', 'c']]
        for t in sc['tests']: p['ops'] += [['set', 'tsamples', t['t']], ['set', 'psamples', t['p']], ['set', 'ntuple', t['n']], ['test', t['d']], ['mark', 't']]
    return p

def seeds_of(sc, r):
    if r.kind != 'exit' or r.code != 0: raise Violation('ending', 'unseeded run ended %s instead of proceeding: %s' % (r.end(), short(r.errs)))
    if sc['kind'] == 'dump':
        m = re.search(r'seed\s*=\s*(\d+)', r.outs)
        if not m: raise NoVerdict('no seed in dump')
        return [int(m.group(1))]
    if sc['kind'] == 'run':
        ls = r.outs.split('\n'); j = [k for k, l in enumerate(ls) if 'rng_name' in l]
        if not j: raise NoVerdict('no header')
        h = [x.strip() for x in ls[j[0]].split('|')]; v = [x.strip() for x in ls[j[0] + 1].split('|')]
        if 'Seed' not in h: raise NoVerdict('no seed')
        return [int(v[h.index('Seed')])]
    out = []; rs = rows508(r); pos = 0
    for t in sc['tests']:
        if pos >= len(rs): raise NoVerdict('missing rows')
        out.append(int(rs[pos][6])); pos += ROWS.get(t['d'], 1)
    return out

def body(sc, r):
    return r.outs

def check(sc, ctx):
    a = ctx.run(plan(sc), allow=()); sa = seeds_of(sc, a)
    # leftover memory never matters
    b = ctx.run(plan(sc, junk=(sc['junk'] ^ 0xff))); need(seeds_of(sc, b) == sa, 'memory', 'seeds depend on previous memory contents: %r vs %r' % (sa, seeds_of(sc, b)))
    for s in sa: need(0 <= s < 2 ** 32, 'range', 'seed %d is not a 32-bit number' % s)
    if sc['mode'] == 'const':
        w = sc['byte'] * 0x01010101
        for s in sa: need(s == w, 'const', 'device delivers bytes %02x only, seed is %d instead of %d' % (sc['byte'], s, w))
        ctx.probe('const'); return
    if sc['mode'] == 'fresh':
        n = (a.nodes['/dev/urandom']['rbytes'] + 3) // 4
        data = b''.join(struct.pack('<I', word(sc['es'], k)) for k in range(min(n, 800000)))[:a.nodes['/dev/urandom']['rbytes']]
        pos = -4
        for k, s in enumerate(sa):
            p = data.find(struct.pack('<I', s), pos + 4)
            need(p >= 0, 'not-device' if data.find(struct.pack('<I', s)) < 0 else 'reused', 'seed %d (number %d of the run) is not made of fresh bytes of the entropy device' % (s, k + 1))
            pos = p
        need(len(set(sa)) == len(sa), 'reused', 'two tests got the same seed: %r' % sa)
        c = ctx.run(plan(sc, clock=[sc['clock'][0] + 1234567, sc['clock'][1], sc['clock'][2]])); need(seeds_of(sc, c) == sa, 'clock', 'with a working device the seed depends on the clock')
        ctx.probe('fresh'); return
    # faults: nothing but device bytes or the clock decides
    other = plan(sc, es=sc['es'] ^ 0x5555555)
    d = ctx.run(other); sd = seeds_of(sc, d)
    ck = ctx.run(plan(sc, clock=[sc['clock'][0] + 1, sc['clock'][1], sc['clock'][2]])); sk = seeds_of(sc, ck)
    ck2 = ctx.run(plan(sc, clock=[sc['clock'][0] + 5000003, sc['clock'][1], sc['clock'][2]])); sk2 = seeds_of(sc, ck2)
    anyfb = False
    for k, s in enumerate(sa):
        dev = sd[k] != s; clk = sk[k] != s; clk2 = sk2[k] != s
        need(dev or clk, 'constant', 'seed %d depends neither on the entropy device nor on the clock (microsecond step)' % s)
        need(clk == clk2, 'clock-res', 'fallback seed does not follow the clock: +1 us changes it: %s, +5.000003 s changes it: %s' % (clk, clk2))
        need(not (dev and clk), 'mixed', 'seed depends on device bytes and on the clock at once')
        anyfb |= clk
    if sc['fault'][0] == 'dev' or (sc['count'] == -1 and sc['nth'] == 1):
        for k, s in enumerate(sa): need(sk[k] != s, 'no-fallback', 'device unusable, yet the seed %d does not come from the clock' % s)
    ctx.probe('fallback' if anyfb else 'fault-not-reached')

def shrink(sc):
    for c in gshrink(sc, keep=('kind', 'mode', 'd', 'clock', 'fault', 'nth', 'count', 'byte', 'es', 'junk'), mins={'p': 1, 'n': 0, 'g': 0}):
        if not c['tests'] or not all(valid_test(t) for t in c['tests']): continue
        yield c
