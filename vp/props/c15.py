"""C15: splitting generator words into bit fields loses, repeats and reorders no bits."""
from vp.lib import *
TECHNIQUE = 'seeded histories of word and bit-field requests, resets and reseeds on scripted generators of every width, against a bit-queue model; whole tests on the same bits delivered in words of another width'
NOTE = 'widths 1 to 32 of the generator and 1 to 128 of the request; built-in generators of 15 to 32 bits too; eight tests compared between word widths'
VARIANTS = ['plain']; LEVEL = 'exploration'
BUDGET = {'quick': (40000, 45), 'thorough': (2000000, 780)}
ASSUMPTIONS = ['words requested whole are taken from the same generator in pieces of 32 bits, independently of bits already set aside for field requests',
               'birthdays is compared for generators of 24 bits and more, below that it asks for smaller fields on purpose', 'the tests that take their bits through the field functions are those that do so today (0, 2, 3, 4, 8, 9, 17, 102)']
MSB = [2, 3, 8, 9, 4, 17, 102]
NARROW = [g for g in SEEDABLE if g not in BITS32]

def gen(rng, i, tier):
    if rng.random() < 0.3:
        t = rand_test(rng, [x for x in MSB + [0] if x not in (4, 0, 102) or rng.random() < 0.3], 3)
        w = rng.choice([24, 31, 30, rng.randrange(24, 32)]) if t['d'] == 0 else None
        return {'kind': 'test', 'w': w or rng.choice([31, 31, 24, 16, 30, 15, rng.randrange(3, 32)]), 'ws': 's:%d' % rng.randrange(1, 2 ** 31), 'test': t, 's': rng.randrange(2)}
    sc = {'kind': 'req', 'S': rand_seed(rng), 'steps': []}
    if rng.random() < 0.25: sc['g'] = rng.choice(SEEDABLE)
    else: sc['w'] = rng.choice([32, 31, 31, 24, 16, 8, 1, 2, 15, 30, rng.randrange(1, 33), rng.randrange(1, 33)]); sc['ws'] = '%s:%d' % (rng.choice('sse'), rng.randrange(1, 2 ** 31))
    mix = rng.random()
    if mix > 0.9 or rng.random() < 0.25: mix = 2; sw = rng.randrange(1, 33)
    for _ in range(rng.randrange(1, 14)):
        r = rng.random()
        if r < 0.12:
            sc['steps'].append(['reset'])
            if mix == 2: sw = rng.choice([sw, rng.randrange(1, 33), 32, 31, 24])
        elif r < 0.24: sc['steps'].append(['reseed', rand_seed(rng)])
        else:
            if mix == 2: sc['steps'].append(['sbits', sw, rng.choice([1, 2, 5, 20, 70]), rng.randrange(2)]); continue
            k = ('bits' if mix < 0.5 else 'uint' if mix < 0.75 else rng.choice(['bits', 'uint', 'bits']))
            n = rng.choice([1, 2, 3, 5, 8, 13, 20, 40, 70])
            if k == 'bits' and rng.random() < 0.08: sc['steps'].append(['bits', rng.choice([33, 48, 63, 64, 65, 95, 96, 97, 127, 128, rng.randrange(33, 129)]), rng.choice([1, 2, 5, 20])]); continue
            sc['steps'].append(['bits', rng.choice([1, 2, 3, 7, 8, 15, 16, 17, 24, 31, 32, rng.randrange(1, 33), rng.randrange(1, 33)]), n] if k == 'bits' else ['uint', n])
    return sc

class Src:
    """The generator's output bits, least significant first, from the last reset on."""
    def __init__(self, words, w): self.words = words; self.w = w
    def blocks(self, n):
        """first n 32 bit blocks of the bit string"""
        acc = 0; k = 0; out = []
        for x in self.words:
            acc |= (x & ((1 << self.w) - 1)) << k; k += self.w
            while k >= 32: out.append(acc & 0xffffffff); acc >>= 32; k -= 32
            if len(out) >= n: break
        return out[:n]

def seg_ok(src, hist, what):
    """hist: list of ('bits', w, [values]) / ('uint', [values]) since the last reset"""
    if hist[0][0] == 'sbits':
        if len(set(h[1] for h in hist)) > 1: return 'skip'
        match_msb(src, hist, what); return 'static fields'
    nb = sum(h[1] * len(h[2]) for h in hist if h[0] == 'bits'); us = [x for h in hist if h[0] == 'uint' for x in h[1]]
    bl = src.blocks(nb // 32 + 2 + len(us) + 16)
    if us and nb:
        if len(set(bl)) < len(bl): return 'mixed, repeated words (no verdict)'
        # blocks handed out as words must appear in order; what is left feeds the bit fields
        rest = []; k = 0; f = 0
        got = join(hist)
        # the words are found first-match in order
        pos = []; p = 0
        for u in us:
            while p < len(bl) and bl[p] != u: p += 1
            need(p < len(bl), 'word', '%s: word %x is not a 32 bit piece of the generator output after the previous one' % (what, u))
            pos.append(p); p += 1
        ps = set(pos); rest = [b for i, b in enumerate(bl) if i not in ps]
        match(rest, hist, what)
        return 'mixed'
    if us:
        for i, u in enumerate(us): need(u == bl[i], 'word', '%s: word %d is %08x, the next 32 bits of the generator are %08x' % (what, i, u, bl[i]))
        return 'words'
    match(bl, hist, what); return 'fields'

def match_msb(src, hist, what):
    acc = 0; k = 0; it = iter(src.words); w = src.w
    for h in hist:
        for j, v in enumerate(h[2]):
            while k < h[1]: acc = (acc << w) | (next(it) & ((1 << w) - 1)); k += w
            k -= h[1]; e = (acc >> k) & ((1 << h[1]) - 1); acc &= (1 << k) - 1
            need(v == e, 'field', '%s: bit field %d (%d bits) of a test is %x, the next bits of the generator are %x' % (what, j, h[1], v, e))

def join(hist): return [(h[1], v) for h in hist if h[0] == 'bits' for v in h[2]]

def match(blocks, hist, what):
    acc = 0
    for i, b in enumerate(blocks): acc |= b << (32 * i)
    k = 0
    for j, (w, v) in enumerate(join(hist)):
        e = (acc >> k) & ((1 << w) - 1); k += w
        need(v == e, 'field', '%s: bit field %d (%d bits) is %x, the next bits of the generator are %x' % (what, j, w, v, e))

def check(sc, ctx):
    if sc['kind'] == 'test':
        t = sc['test']; base = ['-g', '600', '-S', '1', '-s', str(sc['s']), '-D', D508] + targv(t)
        a = ctx.run({'argv': base, 'script': sc['ws'] + ':inf', 'script_rewind': 1, 'script_w': sc['w']})
        b = ctx.run({'argv': base, 'script': sc['ws'] + ':inf', 'script_rewind': 1, 'script_w': sc['w'], 'script_pack': 'lsb' if t['d'] == 0 else 'msb'})
        if a.end() != 'exit:0' or b.end() != 'exit:0' or not rows508(b): raise NoVerdict('test ' + a.end() + b.end())
        ra, rb = rows508(a), rows508(b)
        need(ra == rb, 'test-bits', 'test %d on a %d bit generator does not use its bits as they come: rows %s, the same bits in 32 bit words give %s' % (t['d'], sc['w'], short(ra), short(rb)))
        ctx.probe('test width %d' % sc['w']); return
    ops = [['choose']]; 
    narrow = 'g' in sc
    argv = ['-S', str(sc['S']), '-d', '1', '-D', D508] + (['-g', str(sc['g'])] if narrow else ['-g', '600'])
    ops = [['parse'], ['choose'], ['rmax']]
    marks = []
    # every segment begins with a reset and a reseed or a plain reset on a known position
    for s in [['reseed', sc['S']]] + sc['steps']:
        if s[0] == 'reset': ops += [['resetbits'], ['mark', 'z']]
        elif s[0] == 'reseed': ops += [['resetbits'], ['rngset', s[1]], ['mark', 'z']]
        elif s[0] == 'bits': ops += [['bits', s[1], s[2]]]
        elif s[0] == 'sbits': ops += [s]
        else: ops += [['uint', s[1]]]
    plan = {'argv': argv, 'mode': 'ui', 'ops': ops}
    if not narrow: plan['script'] = sc['ws'] + ':inf'; plan['script_w'] = sc['w']; plan['script_rewind'] = 1
    r = ctx.run(plan)
    need(r.end() == 'exit:0', 'end', 'requests ended %s' % r.end())
    mx = [int(x.split()[1]) for x in r.note if x.startswith('rmax')][0]; w = mx.bit_length() if narrow else sc['w']
    if w > 32: raise NoVerdict('wide generator')
    segs = []; draws0 = 0; seed = None
    it = iter([['reseed', sc['S']]] + sc['steps'])
    for x in r.note:
        if x.startswith('mark'):
            for s in it:
                if s[0] in ('reset', 'reseed'): break
            dr = int(re_field(x, 'draws'))
            if s[0] == 'reseed': seed = s[1]; base = dr
            segs.append([seed, dr - base, []])
        elif x.startswith('bits'):
            f = x.split(); segs[-1][2].append(('bits', int(f[1]), [int(y, 16) for y in f[3:]]))
        elif x.startswith('sbits'):
            f = x.split(); segs[-1][2].append(('sbits', int(f[1]), [int(y, 16) for y in f[3:]]))
        elif x.startswith('uint'):
            f = x.split(); segs[-1][2].append(('uint', [int(y, 16) for y in f[2:]]))
    for seed, off, hist in segs:
        if not hist: continue
        tot = sum(h[1] * len(h[2]) for h in hist if h[0] != 'uint') + 32 * sum(len(h[1]) for h in hist if h[0] == 'uint')
        n = off + tot // w + 40 * (32 // w + 1)
        if narrow:
            q = ctx.run({'argv': argv, 'mode': 'ui', 'ops': [['parse'], ['choose'], ['rngset', seed]] + [['draw', 64]] * (n // 64 + 1)})
            words = [int(y, 16) for x in q.note if x.startswith('draw') for y in x.split()[3:]]
        else: words = [sword(sc['ws'] + ':', i) >> (32 - w) for i in range(n)]
        k = seg_ok(Src(words[off:], w), hist, '%s, %d bits per number' % ('generator %d seed %d' % (sc['g'], seed) if narrow else 'scripted generator', w))
        ctx.probe(k + (' after reset' if off else ''))

def re_field(x, k):
    for f in x.split():
        if f.startswith(k + '='): return f.split('=')[1]
    return '0'

def shrink(sc):
    if sc['kind'] == 'req':
        st = sc['steps']
        for k in range(len(st)): yield dict(sc, steps=st[:k] + st[k + 1:])
        for k, s in enumerate(st):
            j = {'bits': 2, 'uint': 1, 'sbits': 2}.get(s[0])
            if j and s[j] > 1:
                for m in (1, s[j] // 2, s[j] - 1): yield dict(sc, steps=st[:k] + [s[:j] + [m] + s[j + 1:]] + st[k + 1:])
    else:
        for c in gshrink(sc, keep=('kind', 'w', 'ws', 'd'), mins={'p': 1, 'n': 0}):
            if valid_test(c['test']): yield c
