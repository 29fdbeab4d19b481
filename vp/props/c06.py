"""C06: a short file is reused cyclically and the accounting says so."""
import re
from vp.lib import *
from vp.props import c04
TECHNIQUE = 'files shorter than the test needs against an endless periodic reference source, with exact use and rewind accounting'
NOTE = 'file lengths are placed around exact multiples of the numbers needed; counts are modelled from the reference run after every test'
VARIANTS = ['plain']; LEVEL = 'exploration'
BUDGET = {'quick': (9000, 45), 'thorough': (400000, 780)}
ASSUMPTIONS = ['the reference is a scripted generator with the period of the file', 'raw files below 16 numbers are refused by design']

def gen(rng, i, tier):
    sc = {'ps': rng.randrange(1, 2 ** 31), 's': rng.randrange(2), 'S': rng.choice([0, 1, rand_seed(rng)]), 'rate': rng.random() < 0.1, 'stat': rng.random() < 0.85, 'opt': []}
    if rng.random() < 0.08 and i not in (3, 4):
        # several input files one after the other in a process
        sc['kind'] = 'two'; sc['files'] = [{'k': rng.choice(['raw', 'raw', 'text']), 'n': rng.choice([16, 17, 100, 500, 1000, 3000, rng.randrange(16, 3000)]), 'ts': rng.randrange(10 ** 6)} for _ in range(rng.randrange(2, 4))]
        sc['tests'] = [rand_test(rng, TINY if rng.random() < 0.7 else FAST, 2, grow=False) for _ in sc['files']]; return sc
    r = rng.random()
    sc['kind'] = 'one' if r < 0.3 else 'seq' if r < 0.94 else 'all' if r < 0.97 else 'huge'
    sc['tests'] = [rand_test(rng, TINY if rng.random() < 0.5 else FAST, 2, grow=False) for _ in range(1 if sc['kind'] in ('one', 'huge') else rng.randrange(2, 5))]
    if sc['kind'] == 'one' and rng.random() < 0.25: sc['tests'] = [rand_test(rng, TINY, 3)]; sc['opt'] = ['-Y', str(rng.randrange(1, 3)), '-P', '105', '-W', '0.49']
    f = {'k': 'text' if rng.random() < 0.4 and sc['kind'] in ('one', 'seq') else 'raw', 'io': c04.rand_io(rng, '/w/in') if rng.random() < 0.6 else {}, 'part': rng.choice([0, 0, 1, 2, 3]), 'extra': 0}
    if f['k'] == 'text': f['ty'] = rng.choice('duoxXbfg'); f['style'] = rng.randrange(16); f['ts'] = rng.randrange(10 ** 6); f['nb'] = 32
    sc['f'] = f
    sc['len'] = rng.choice([['abs', rng.choice([1, 2, 3, 5, 16, 17, 31, 32, 33, 64, 100, 1000, 1024, 1025, 4096, rng.randrange(16, 3000)])], ['div', rng.randrange(1, 8)], ['div', rng.randrange(1, 8)], ['first', rng.randrange(1, 4)], ['u-1', 0], ['u', 0], ['u+1', 0], ['u+1', 5]])
    if rng.random() < 0.004 or i in (3, 4):
        # text files that are not small
        sc['kind'] = 'one'; sc['opt'] = []; f['k'] = 'text'; f['ty'] = rng.choice('dux'); f['style'] = rng.randrange(16); f['ts'] = rng.randrange(10 ** 6); f['nb'] = 32; f['io'] = {}
        sc['tests'] = [{'d': 100, 'n': 0, 't': rng.randrange(40000, 90000), 'p': 2}]; sc['len'] = ['abs', 70000 if i == 3 else 110000 if i == 4 else rng.choice([32767, 32768, 32769, 65535, 65536, 65537, 70000, 100000, rng.randrange(20000, 120000)])]; sc['long'] = 1
        return sc
    if sc['kind'] == 'huge': sc['len'] = ['abs', rng.choice([2 ** 32, 2 ** 31, 2 ** 33, 2 ** 30]) + rng.choice([1, 16, 100, 777])]
    return sc

def mk(sc, head, base, mark):
    D = int(D508) | (F_RATE | F_SHOW_RNG if sc['rate'] else 0) | (F_FILESTAT if sc['stat'] else 0)
    p = dict(base); tail = ['-D', str(D), '-s', str(sc['s']), '-S', str(sc['S'])] + sc['opt']
    if sc['kind'] == 'all': p['argv'] = head + tail + ['-a', '-m', '1']; p['std'] = STDF; return p
    if sc['kind'] == 'seq':
        p['argv'] = head + tail + ['-t', '100', '-p', '2']; p['mode'] = 'ui'; p['ops'] = [['parse'], ['choose'], ['mark', 'c']]
        for t in sc['tests']: p['ops'] += [['set', 'tsamples', t['t']], ['set', 'psamples', t['p']], ['set', 'ntuple', t['n']], ['test', t['d']], ['mark', 't']]
        return p
    p['argv'] = head + tail + targv(sc['tests'][0]); return p

def uses(r): return [int(re.search(r'scr=(\d+)', l).group(1)) for l in r.note if ' scr=' in l]

def rw(u, f): return (u - 1) // f if u > 0 else 0

def two(sc, ctx):
    fs = sc['files']; nodes = []; tail = ['-D', str(int(D508) | F_FILESTAT), '-s', str(sc['s']), '-S', str(sc['S'] or 1)]
    for k, f in enumerate(fs):
        w = 's:%d:%d' % (sc['ps'] + k, f['n'])
        nodes.append(['/w/f%d' % k, 'r', w if f['k'] == 'raw' else c04.text_file(f['ts'], 'd', 32, [sword(w, j) for j in range(f['n'])], 0), 'ro'])
    g = lambda f: 201 if f['k'] == 'raw' else 202
    def ops(ks):
        o = [['parse']]
        for n, k in enumerate(ks):
            if n: o += [['set', 'generator', g(fs[k])], ['set', 'filename', '/w/f%d' % k]]
            t = sc['tests'][k]; o += [['choose'], ['set', 'tsamples', t['t']], ['set', 'psamples', t['p']], ['set', 'ntuple', t['n']], ['test', t['d']]]
        return {'argv': ['-g', str(g(fs[ks[0]])), '-f', '/w/f%d' % ks[0]] + tail, 'mode': 'ui', 'ops': o, 'nodes': nodes, 'steps': 10 ** 8}
    show = lambda r: (rows508(r), re.findall(r'were used|(\d+) rands', r.outs), re.findall(r'was rewound (\d+) times', r.outs), re.findall(r'was rewound (\d+) times', r.errs))
    parts = []
    for k in range(len(fs)):
        r = ctx.run(ops([k]))
        if r.end() != 'exit:0': raise NoVerdict('alone ' + r.end())
        parts.append(show(r))
    b = ctx.run(ops(list(range(len(fs)))))
    if b.kind == 'budget': raise NoVerdict('sequence ' + b.end())
    need(b.end() == 'exit:0', 'ending', 'files of %s numbers one after the other: run ended %s: %s' % ([f['n'] for f in fs], b.end(), short(b.errs)))
    got = show(b); want = tuple(sum((list(x[j]) for x in parts), []) for j in range(4))
    for j, n in enumerate(('rows', 'used', 'rewinds', 'rewinds')):
        need(list(got[j]) == want[j], n, 'files of %s numbers one after the other, %s differ from each file alone: %s' % ([f['n'] for f in fs], n, diff(want[j], got[j])))
    ctx.probe('several files')

def check(sc, ctx):
    if sc['kind'] == 'two': return two(sc, ctx)
    f = sc['f']; raw = f['k'] == 'raw'
    a0 = ctx.run(mk(dict(sc, rate=False), ['-g', '600'], {'script': 's:%d:inf' % sc['ps'], 'script_rewind': 1}, 0))
    if a0.end() != 'exit:0': raise NoVerdict('reference')
    U0 = a0.scrpos; first = U0
    if sc['kind'] == 'seq': us = uses(a0); first = us[1] - us[0]
    kind, x = sc['len']
    F = x if kind == 'abs' else U0 // x if kind == 'div' else max(1, first // x) if kind == 'first' else U0 - 1 if kind == 'u-1' else U0 if kind == 'u' else U0 + 1 + x
    F = max(F, 16 if raw else 1)
    if not raw and F > (130000 if 'long' in sc else 5000): raise NoVerdict('long text')
    ws = 'p:%d:%d' % (sc['ps'], F)
    a = ctx.run(mk(dict(sc, rate=False), ['-g', '600'], {'draws': 12000000 if sc['kind'] == 'all' else 3 * U0 + 20000, 'script': ws + ':inf', 'script_rewind': 1}, 0))
    ra = rows508(a)
    if a.end() != 'exit:0' or not ra: raise NoVerdict('reference ' + a.end())
    if not raw and a.scrpos // F > 60000: raise NoVerdict('many rewinds')
    head, base = c04.setup(dict(sc, ws=ws), f, F)
    p = mk(sc, head, base, 0); p['steps'] = 10 ** 8
    b = ctx.run(p); rb = rows508(b)
    need(b.end() == 'exit:0', 'ending', 'file of %d numbers: run ended %s: %s' % (F, b.end(), short(b.errs)))
    rb = [r for r in rb if r[0] in set(x[0] for x in ra)]
    need(ra == rb, 'rows', 'file of %d numbers, test needs %d: rows differ from those of the periodic stream: %s' % (F, a.scrpos, diff(ra, rb)))
    # accounting
    if sc['kind'] == 'seq':
        us = uses(a); per = [us[k + 1] - us[k] for k in range(len(us) - 1)]
        want = per if sc['s'] else [sum(per[:k + 1]) for k in range(len(per))]
    elif sc['kind'] in ('one', 'huge') and not sc['opt']: want = [a.scrpos]
    else: want = None
    used = [(int(m.group(1)), int(m.group(2)) if m.group(2) else None) for m in re.finditer(r'^# The .*?(\d+) rands (?:\((\d+) bytes\) )?were used', b.outs, re.M)]
    rew0 = [int(x) for x in re.findall(r'was rewound (\d+) times', b.outs)]; rew = [int(x) for x in re.findall(r'was rewound (\d+) times', b.errs)]
    if want is None:
        if not sc['s'] or sc['kind'] == 'one':
            if sc['stat']: need(used and used[-1][0] == a.scrpos, 'used', 'the run used %d numbers, the last report says %s' % (a.scrpos, used[-1:] or 'nothing'))
            need((rew[-1] if rew else 0) == rw(a.scrpos, F), 'rewinds', '%d numbers of a file of %d used: %d rewinds expected, last report says %s' % (a.scrpos, F, rw(a.scrpos, F), rew[-1:] or 0))
        ctx.probe('total'); return
    if sc['stat']:
        need([u for u, _ in used] == want, 'used', 'numbers used after each test are %r, reported %r' % (want, [u for u, _ in used]))
        if raw: need(all(by == 4 * u for u, by in used), 'bytes', 'byte counts wrong: %r' % used)
        need(rew0 == [0 for u in want if rw(u, F) == 0], 'rewinds', 'zero-rewind reports on stdout: %r; numbers used %r of a file of %d' % (rew0, want, F))
    need(rew == [rw(u, F) for u in want if rw(u, F)], 'rewinds', 'numbers used %r of a file of %d: rewinds %r expected, reported %r' % (want, F, [rw(u, F) for u in want], rew))
    ctx.probe('%s-%s%s' % (sc['kind'], f['k'], '-rewound' if rew else ''))
    if any(u % F == 0 for u in want): ctx.probe('exact-multiple')

def shrink(sc):
    if sc['kind'] == 'two':
        for k in range(len(sc['files'])):
            if len(sc['files']) > 1: c = copy.deepcopy(sc); del c['files'][k], c['tests'][k]; yield c
        return
    for c in gshrink(sc, keep=('kind', 'd', 'ps', 'S', 'k', 'ty', 'chunk', 'lat', 'opt', 'nb', 'ts', 'len'), mins={'p': 1, 'n': 0}):
        if not c['tests'] or not all(valid_test(t) for t in c['tests']): continue
        yield c
    for k in list(sc['f'].get('io', {})):
        c = copy.deepcopy(sc); del c['f']['io'][k]; yield c
