"""C13: long runs do not accumulate descriptors or memory."""
import re
from vp.lib import *
from vp.props import c04
from vp.props.c14 import rand_stream
from vp.props.c07 import rand_src, src_nodes, src_argv
TECHNIQUE = 'seeded rounds of tests, reseedings, rewinds and generator switches repeated in one simulated process, open files and heap compared round by round; descriptor limits at the stated minimum'
NOTE = 'every test, generator, input kind and display option; growth between identical rounds is a violation; runs under the minimal descriptor limit compared with unlimited runs'
VARIANTS = ['plain']; LEVEL = 'exploration'
BUDGET = {'quick': (9000, 45), 'thorough': (400000, 780)}
ASSUMPTIONS = ['memory that reaches a fixed size after two identical rounds (tables kept for reuse) is not growth']
GENS = SEEDABLE + [500, 501]

def rsrc(rng):
    r = rng.random()
    if r < 0.4: return {'g': rng.choice(GENS)}
    if r < 0.5: return {'g': rng.choice([500, 501])}
    return rand_src(rng)

def gen(rng, i, tier):
    sc = {'S': rng.choice([0, 1, rand_seed(rng)]), 's': rng.randrange(2), 'opt': []}
    D = 0
    for f in (F_HEADER, F_SHOW_RNG, F_PREFIX, F_DESC, F_HIST, F_SEED, F_RATE, F_NUM, F_NOWHITE, F_PVALS, F_FILESTAT):
        if rng.random() < 0.25: D |= f
    sc['D'] = int(D508) | D
    if rng.random() < 0.1: sc['S'] = 0; sc['faults'] = [['/dev/urandom', *rng.choice([('read', rng.choice([1, 2, 5]), rng.choice(['EIO', 'EINTR', 'eof'])), ('open', rng.choice([1, 2, 5]), rng.choice(['ENOENT', 'EMFILE', 'EACCES']))]), 0, -1]]
    if rng.random() < 0.15: sc['opt'] += ['-k', str(rng.randrange(4))]
    if rng.random() < 0.15: sc['opt'] += ['-L', str(rng.randrange(2))]
    if rng.random() < 0.1: sc['opt'] += ['-Y', str(rng.randrange(1, 3)), '-P', '103', '-W', '0.4']
    r = rng.random()
    if r < 0.65:
        sc['kind'] = 'rounds'; sc['srcs'] = [rsrc(rng) for _ in range(rng.choice([1, 1, 2]))]; sc['ops'] = []
        if rng.random() < 0.25: sc['scr'] = rand_stream(rng, 100); sc['srcs'][0] = {'g': 600}
        pool = None if rng.random() < 0.5 and '-Y' not in sc['opt'] else TINY
        for _ in range(rng.randrange(1, 5)):
            x = rng.random()
            if x < 0.5: sc['ops'].append(['test', rand_test(rng, pool, 2, grow=False)])
            elif x < 0.7: sc['ops'].append(['choose', rng.randrange(len(sc['srcs']))])
            elif x < 0.85: sc['ops'].append(['rngset', rng.randrange(1, 2 ** 32), rng.randrange(1, 40)])
            else: sc['ops'].append(['draw', rng.choice([1, 20, 500, 3000])])
        sc['rounds'] = rng.choice([4, 5, 8])
        if leaky(sc) and rng.random() < 0.85: sc['ops'] = [o for o in sc['ops'] if o[0] != 'choose'] or [['draw', 100]]
    elif r < 0.95:
        sc['kind'] = 'limit'; sc['srcs'] = [rsrc(rng)]; sc['test'] = rand_test(rng, TINY + [15, 17, 205], 3)
        sc['fdlimit'] = rng.choice([5, 5, 5, 6, 8])
        if rng.random() < 0.2: sc['dump'] = rng.choice([0, 1, 2]); sc['srcs'] = [{'g': rng.choice(GENS)}]
    else: sc['kind'] = 'limit'; sc['srcs'] = [rsrc(rng)]; sc['all'] = 1; sc['fdlimit'] = 5; sc['D'] &= ~(F_RATE | F_SHOW_RNG)
    for s in sc['srcs']:
        if sc.get('all') and s['g'] == 202: s.update({'g': 201}); s['n'] = max(s['n'], 5000)
    return sc

def leaky(sc):
    """does a round select a generator while an input file or device is held?"""
    cur = sc['srcs'][0]; lk = None
    for o in sc['ops'] * 2:
        if o[0] == 'choose':
            if cur['g'] in (201, 202, 500, 501): return 'reselect-input'
            if cur['g'] in XORS: lk = 'reselect-xor'
            cur = sc['srcs'][o[1]]
    return lk

def marks(r): return [dict((k, int(v)) for k, v in re.findall(r'(heap|live|bytes|fds)=(\d+)', l)) for l in r.note if l.startswith('mark ')]

def check(sc, ctx):
    nodes = src_nodes(sc['srcs']); base = ['-S', str(sc['S']), '-s', str(sc['s']), '-D', str(sc['D'])] + sc['opt']
    s0 = sc['srcs'][0]; head = src_argv(s0, 0)
    if sc['kind'] == 'rounds':
        ops = [['parse'], ['set', 'tsamples', 1000], ['set', 'psamples', 2], ['choose'], ['mark', 'c']]
        for k in range(sc['rounds']):
            for o in sc['ops']:
                if o[0] == 'test': t = o[1]; ops += [['set', 'tsamples', t['t']], ['set', 'psamples', t['p']], ['set', 'ntuple', t['n']], ['test', t['d']]]
                elif o[0] == 'choose':
                    s = sc['srcs'][o[1]]; ops += [['set', 'tsamples', 1000], ['set', 'psamples', 2], ['set', 'generator', s['g']]] + ([['set', 'filename', '/w/f%d' % o[1]]] if 'ws' in s else []) + [['choose']]
                elif o[0] == 'rngset': ops += [['rngset', o[1]]] * o[2]
                else: ops.append(['draw', o[1]])
            ops.append(['mark', 'r'])
        r = ctx.run({'argv': head + base + ['-t', '1000', '-p', '2'], 'mode': 'ui', 'ops': ops, 'nodes': nodes, **({'faults': sc['faults']} if 'faults' in sc else {}), **({'script': sc['scr'] + ':inf', 'script_rewind': 0} if 'scr' in sc else {})})
        if r.end() != 'exit:0': raise NoVerdict('rounds ' + r.end())
        m = marks(r)[1:]
        if len(m) != sc['rounds']: raise NoVerdict('marks')
        lk = leaky(sc)
        f = [x['fds'] for x in m]; need(max(f[2:]) <= f[1], lk or 'fds', 'open files grow with every round: %s' % f)
        if '500' not in head and '501' not in head: need(max(f) <= 4, lk or 'fds-many', 'more files open than the input: %s' % f)
        need(r.maxfds <= 5, lk or 'fds-max', '%d files were open at once (standard streams, input and random device are 5)' % r.maxfds)
        l = [x['live'] for x in m]; need(not creeps(l), lk or 'live', 'number of live allocations grows with every round: %s' % l)
        b = [x['bytes'] for x in m]; need(not grows(b), lk or 'bytes', 'allocated memory grows with every round: %s' % b)
        h = [x['heap'] for x in m]; need(not grows(h), lk or 'heap', 'heap in use grows with every round: %s' % h)
        ctx.probe('rounds'); return
    p = {'nodes': nodes + [['/w', 'd', '-']]}
    if sc.get('all'): p['argv'] = head + base + ['-a', '-m', '1']; p['std'] = STDF
    elif 'dump' in sc: p['argv'] = head + base + ['-o', '-O', str(sc['dump']), '-t', '500', '-f', '/w/out']
    else: p['argv'] = head + base + targv(sc['test'])
    if 'faults' in sc: p['faults'] = sc['faults']
    p['clock'] = [1700000000 * 10 ** 6, 1000, 0]
    a = ctx.run(p)
    if a.end() != 'exit:0': raise NoVerdict('unlimited ' + a.end())
    b = ctx.run(dict(p, fdlimit=sc['fdlimit']))
    need(b.end() == 'exit:0', 'limit-end', 'with at most %d open files the run ends %s: %s' % (sc['fdlimit'], b.end(), short(b.errs)))
    need(a.out == b.out and a.blobs.get('/w/out') == b.blobs.get('/w/out'), 'limit-out', 'output differs with at most %d open files: %s' % (sc['fdlimit'], diff(a.outs.split('\n'), b.outs.split('\n'))))
    ctx.probe('limit')

def grows(v):
    """every later round needs more than the one before it, after two rounds to settle"""
    w = v[1:]
    return all(y > x for x, y in zip(w, w[1:]))

def creeps(v):
    """never shrinks and goes up more than once after two rounds to settle"""
    w = v[1:]
    return all(y >= x for x, y in zip(w, w[1:])) and sum(y > x for x, y in zip(w, w[1:])) >= 2

def shrink(sc):
    for c in gshrink(sc, keep=('kind', 'd', 'S', 'g', 'ws', 'ty', 'ts', 'opt', 'fdlimit', 'dump', 'all', 'srcs', 'bad', 'D', 'scr', 'faults'), mins={'p': 1, 'n': 0, 'rounds': 4}):
        if 'test' in c and not valid_test(c['test']): continue
        if 'ops' in c and (not c['ops'] or not all(valid_test(o[1]) for o in c['ops'] if o and o[0] == 'test')): continue
        yield c
    if sc.get('opt'): yield dict(sc, opt=[])
    for f in [1 << i for i in range(18)]:
        if sc['D'] & f and not int(D508) & f: yield dict(sc, D=sc['D'] & ~f)
