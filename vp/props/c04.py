"""C04: tests judge exactly the numbers the input stream delivers."""
import binascii
from vp.lib import *
TECHNIQUE = 'one word sequence fed by script, pipe, file, FIFO and text under random chunking and delays, rows and words compared'
NOTE = 'each scenario compares every way of supplying the same words with a scripted reference source, under seeded read sizes, delays and file layouts'
VARIANTS = ['plain']; LEVEL = 'exploration'
BUDGET = {'quick': (12000, 45), 'thorough': (400000, 780)}
ASSUMPTIONS = ['the reference is a scripted generator handing out the words from memory, judged by the same test code',
               'floating point text stands for the integer floor(x*(2^32-1)); text numbers are written with enough digits to determine the word',
               'interrupted reads (EINTR) count as failing input (C05)']
TYPES = 'diuoxXbfFeEg'

def text_num(rng, ty, w, nb):
    if ty in 'diu':
        s = rng.choice(['%d', '%d', '%10d', '%012d', '  %d', '%d  ', '\t%d']) % w
        return s.replace('%012d', '%d')
    if ty == 'o': return rng.choice(['%o', '%o', '0%o', '%012o', ' %o']) % w
    if ty == 'x': return rng.choice(['%x', '%08x', '0x%x', '%X', '  %x']) % w
    if ty == 'X': return rng.choice(['%X', '%08X', '0X%X', '%x', '  %X']) % w
    if ty == 'b': return format(w, '0%db' % nb)
    x = (w + 0.25) / 4294967295.0
    if ty in 'fF': return rng.choice(['%.16f', '%.20f', '  %.17f']) % x
    if ty == 'e': return '%.17e' % x
    if ty == 'E': return '%.17E' % x
    return '%.17g' % x

def text_file(rng_seed, ty, nb, words, style):
    rng = __import__('random').Random(rng_seed)
    def com(): return rng.choice(['#', '# a comment', '#==================================', '# type: f', '# count: 3', '#type: x', '# ' + 'z' * 200, '#\t1 2 3', '##', '### x', '#:', '#' + ''.join(rng.choice('#:abcdtype 0123.,=%!') for _ in range(rng.randrange(1, 40)))])
    out = []
    hdr = ['type: ' + ty, 'count: %d' % len(words), 'numbit: %d' % nb]
    if style & 1: rng.shuffle(hdr)
    for h in hdr:
        if style & 2:
            for _ in range(rng.randrange(3)): out.append(com())
        out.append(h)
    one = __import__('random').Random(rng_seed + 1) if style & 4 else None
    for w in words: out.append(text_num(rng, ty, w, nb) if one else plain(ty, w, nb))
    t = '\n'.join(out) + ('' if style & 8 else '\n')
    return 'T:' + binascii.hexlify(t.encode()).decode()

def plain(ty, w, nb):
    if ty in 'diu': return '%10u' % w
    if ty == 'o': return '%o' % w
    if ty == 'x': return '%x' % w
    if ty == 'X': return '%X' % w
    if ty == 'b': return format(w, '0%db' % nb)
    return '%.16f' % ((w + 0.25) / 4294967295.0)

def rand_io(rng, res):
    io = {}
    if rng.random() < 0.75: io['chunk'] = [res, rng.choice([1, 2, 3, 5, 7, 64, 511, 4095, 4097, rng.randrange(1, 9000)]), rng.randrange(1, 10 ** 6)]
    if rng.random() < 0.5: io['lat'] = [res, rng.choice([1, 1000, 10 ** 6, 3600 * 10 ** 6]), rng.randrange(1, 10 ** 6)]
    return io

def rand_form(rng, text=True):
    k = rng.choice(['stdin', 'stdin', 'stdinfile', 'raw', 'raw', 'fifo'] + (['text'] * 6 if text else []))
    f = {'k': k, 'io': rand_io(rng, 'stdin' if k.startswith('stdin') else '/w/in'), 'extra': rng.choice([0, 0, 1, 2, 17, 1000]), 'part': rng.choice([0, 0, 0, 1, 2, 3])}
    if k == 'text': f['ty'] = rng.choice(TYPES); f['style'] = rng.randrange(16); f['ts'] = rng.randrange(10 ** 6); f['nb'] = 32 if f['ty'] == 'b' else rng.choice([32, 32, 32, 31, 24])
    return f

def gen(rng, i, tier):
    r = rng.random(); sc = {'ws': '%s:%d' % (rng.choice('sse'), rng.randrange(1, 2 ** 31)), 's': rng.randrange(2), 'S': rng.choice([0, 1, rand_seed(rng)])}
    if r < 0.35:
        sc['kind'] = 'draw'; sc['n'] = rng.choice([1, 2, 3, 16, 63, 64, 65, 200, rng.randrange(1, 500)]); sc['forms'] = [rand_form(rng) for _ in range(2)]
        for f in sc['forms']:
            if f.get('ty') == 'b': f['nb'] = rng.choice([32, 32, 31, 24, 16, 8, 7, 1, rng.randrange(1, 33)])
    elif r < 0.75:
        sc['kind'] = 'one'; sc['test'] = rand_test(rng, rng.choice([FAST, FAST, TINY]), 3); sc['forms'] = [rand_form(rng) for _ in range(2)]; sc['opt'] = []
        if rng.random() < 0.2: sc['test'] = rand_test(rng, TINY, 3); sc['opt'] = ['-Y', str(rng.randrange(1, 3)), '-P', '101', '-W', '0.3']
        if rng.random() < 0.2: sc['opt'] += ['-D', str(sum(f for f in (F_HEADER, F_SHOW_RNG, F_PREFIX, F_HIST, F_SEED, F_RATE) if rng.random() < 0.3))]
    elif r < 0.97:
        sc['kind'] = 'seq'; sc['tests'] = [rand_test(rng, FAST, 2, grow=False) for _ in range(rng.randrange(2, 4))]; sc['forms'] = [rand_form(rng, rng.random() < 0.5)]
    else:
        sc['kind'] = 'all'; sc['forms'] = [rand_form(rng, False)]
    return sc

def words_of(sc, n): return [sword(sc['ws'] + ':inf', i) for i in range(n)]

def setup(sc, f, n):
    """argv head and plan parts delivering the first n words of sc by form f."""
    p = {'nodes': []}; io = f['io']
    if 'chunk' in io: p['chunk'] = [io['chunk']]
    if 'lat' in io: p['latency'] = [io['lat']]
    if f['k'] == 'text':
        w = words_of(sc, n)
        if f['ty'] == 'b': w = [x & ((1 << f['nb']) - 1) for x in w]
        spec = text_file(f['ts'], f['ty'], f['nb'], w, f['style']); g = '202'
    else:
        spec = sc['ws'] + ':%d' % n
        if f['part']: spec = sc['ws'] + ':%d~%d' % (n + 1, 4 - f['part'])
        g = '201'
    if f['k'].startswith('stdin'):
        p['stdin'] = spec; p['stdin_kind'] = 'r' if f['k'] == 'stdinfile' else 'p'; return ['-g', '200'], p
    p['nodes'] = [['/w/in', 'p' if f['k'] == 'fifo' else 'r', spec, 'ro']]
    return ['-g', g, '-f', '/w/in'], p

def ops(tests):
    o = [['parse'], ['choose']]
    for t in tests: o += [['set', 'tsamples', t['t']], ['set', 'psamples', t['p']], ['set', 'ntuple', t['n']], ['test', t['d']]]
    return o

def fix(words, f):
    """What the words are once written in form f."""
    if f['k'] != 'text': return words
    if f['ty'] == 'b': return [x & ((1 << f['nb']) - 1) for x in words]
    return words

def check(sc, ctx):
    if sc['kind'] == 'draw':
        for f in sc['forms']:
            n = sc['n']; total = max(n + f['extra'], 20)
            argv, p = setup(sc, f, total); p['argv'] = argv + ['-S', str(sc['S']), '-D', D508]; p['mode'] = 'ui'
            p['ops'] = [['parse'], ['choose']] + [['draw', 64]] * (n // 64) + ([['draw', n % 64]] if n % 64 else [])
            r = ctx.run(p)
            want = fix(words_of(sc, n), f)
            need(r.end() == 'exit:0', 'ending', 'reading %d of %d numbers from %s ended %s: %s' % (n, total, f['k'], r.end(), short(r.errs)))
            got = []
            for l in r.note:
                if l.startswith('draw '): got += [int(x, 16) for x in l.split()[3:]]
            need(got == want, 'words-' + f['k'], 'numbers read by %s%s differ from the numbers supplied: %s' % (f['k'], ' type ' + f['ty'] if 'ty' in f else '', diff(want, got)))
            ctx.probe('draw-' + f['k'])
        return
    D = int(D508)
    opt = list(sc.get('opt', []))
    if '-D' in opt: j = opt.index('-D'); D |= int(opt[j + 1]); del opt[j:j + 2]
    tail = ['-D', str(D), '-s', str(sc['s']), '-S', str(sc['S'])] + opt
    def mk(head, p):
        p = dict(p)
        if sc['kind'] == 'one': p['argv'] = head + tail + targv(sc['test'])
        elif sc['kind'] == 'seq': p['argv'] = head + tail; p['mode'] = 'ui'; p['ops'] = ops(sc['tests'])
        else: p['argv'] = head + tail + ['-a', '-m', '1']; p['std'] = STDF
        return p
    for f in sc['forms']:
        if f['k'] == 'fifo' and sc['s'] and sc['kind'] != 'one': continue
        if f['k'] == 'fifo' and D & F_RATE: continue
        rew = 0 if f['k'].startswith('stdin') else 1
        a = ctx.run(mk(['-g', '600'], {'script': sc['ws'] + ':inf', 'script_rewind': rew}))
        ra = body(sc, a)
        if a.end() != 'exit:0' or not ra: raise NoVerdict('reference run %s' % a.end())
        need_n = a.scrmax if rew else a.scrpos
        if f['k'] == 'text' and need_n > 6000: f = dict(f, k='raw')
        if f['k'] != 'text' and need_n > 6000000: raise NoVerdict('long')
        n = max(need_n, 16) + f['extra']
        head, p = setup(sc, f, n)
        b = ctx.run(mk(head, p))
        need(b.end() == 'exit:0', 'ending', 'input %s with enough numbers (%d needed, %d supplied): run ended %s: %s' % (f['k'], need_n, n, b.end(), short(b.errs)))
        rb = body(sc, b)
        need(ra == rb, 'rows-' + f['k'], 'rows computed from %s%s differ from those of the same numbers: %s' % (f['k'], ' type ' + f['ty'] if 'ty' in f else '', diff(ra, rb)))
        need('rewound' not in b.errs, 'rewound', 'file with enough numbers reported as rewound: ' + short(b.errs))
        ctx.probe(sc['kind'] + '-' + f['k'])

def body(sc, r):
    names = None
    out = []
    for x in rows(r.outs):
        y = [c for c in x]
        if 'test_name' in x: continue
        out.append(tuple(y))
    keep = []
    for x in out:
        # fields after an optional prefix: name, ntup, ts, ps, p, assessment (, seed)
        if x and x[0] == '2' and len(x) > 6: x = x[1:]
        if len(x) >= 6 and x[5] in ('PASSED', 'WEAK', 'FAILED'): keep.append(x[:6])
    return keep

def shrink(sc):
    for c in gshrink(sc, keep=('kind', 'd', 'ws', 'S', 'k', 'ty', 'chunk', 'lat', 'opt', 'nb', 'ts'), mins={'p': 1, 'n': 0}):
        if not c['forms']: continue
        if c['kind'] == 'draw' and c['n'] < 1: continue
        if 'test' in c and not valid_test(c['test']): continue
        if 'tests' in c and (not c['tests'] or not all(valid_test(t) for t in c['tests'])): continue
        yield c
    for j, f in enumerate(sc['forms']):
        for k in list(f['io']):
            c = __import__('copy').deepcopy(sc); del c['forms'][j]['io'][k]; yield c
    if sc.get('opt'):
        c = dict(sc); c['opt'] = []; yield c
