"""C02: the seed a run reports is the seed that replays it."""
import re
from vp.lib import *
TECHNIQUE = 'replay of reported seeds under entropy faults'
NOTE = 'every run is replayed with the seed it reported, under device faults and clock changes'
VARIANTS = ['plain']; LEVEL = 'exploration'
BUDGET = {'quick': (9000, 45), 'thorough': (400000, 780)}
ASSUMPTIONS = ['seed 0 (which asks for a chosen seed) is excluded by the property']

def gen(rng, i, tier):
    sc = {'g': rng.choice(SEEDABLE), 'env': rand_env(rng), 'env2': rand_env(rng), 'rate': rng.random() < 0.3, 'rs': rng.randrange(2), 'opt': []}
    if rng.random() < 0.15: sc['opt'] += ['-k', str(rng.randrange(4))]
    sc['D'] = sum(f for f in (F_NOWHITE, F_HEADER, F_NUM, F_PREFIX) if rng.random() < 0.3)
    ent = rng.random()
    if ent < 0.25: sc['env']['nodes'][0][2] = rng.choice(['c:4294967295:inf', 'c:2147483648:inf', 'c:1:inf', 'c:2147483647:inf', 'c:65536:inf', 'c:4278190081:inf'])
    k = rng.random()
    if k < 0.35: sc['kind'] = 'run'; sc['test'] = rand_test(rng)
    elif k < 0.75:
        sc['kind'] = 'seq'; sc['tests'] = [rand_test(rng, rng.choice([FAST, FAST, None]), 3, grow=False) for _ in range(rng.randrange(1, 4))]; sc['s'] = rng.choice([1, 1, 2])
    elif k < 0.95:
        sc['kind'] = 'dump'; sc['n'] = rng.choice([1, 5, 64, 300]); sc['fmt'] = rng.choice([1, 2]); sc['file'] = rng.randrange(2)
        if rng.random() < 0.3: sc['opt'] += ['-s', '1']
    else: sc['kind'] = 'all'
    if sc['kind'] in ('run', 'seq') and rng.random() < 0.2:
        sc['opt'] += ['-Y', str(rng.randrange(1, 3)), '-P', '150', '-W', '0.4']
        if 'test' in sc: sc['test'] = rand_test(rng, TINY, 3)
        else: sc['tests'] = [rand_test(rng, TINY, 3) for _ in sc['tests']]
    return sc

def seqops(tests):
    ops = [['parse'], ['choose']]
    for t in tests: ops += [['set', 'tsamples', t['t']], ['set', 'psamples', t['p']], ['set', 'ntuple', t['n']], ['test', t['d']]]
    return ops

def zero(ctx, base, get):
    """seed 0 may come out of the device once, not always"""
    v = [get(ctx.run(apply_env(base, {'nodes': [['/dev/urandom', 'c', 's:%d:inf' % k]]}))) for k in (11, 12, 13)]
    need(not all(x is not None and int(x) == 0 for x in v), 'always-zero', 'the seed shown is 0 whatever the entropy device delivers')

def check(sc, ctx):
    g = ['-g', str(sc['g'])] + sc['opt']
    rate = F_RATE if sc['rate'] else 0
    if sc['kind'] == 'dump':
        base = {'argv': g + ['-o', '-O', str(sc['fmt']), '-t', str(sc['n'])] + (['-f', '/w/out'] if sc['file'] else []), 'nodes': [['/w', 'd', '-']]}
        a = ctx.run(apply_env(base, sc['env'])); out = a.blobs.get('/w/out', b'') if sc['file'] else a.out
        m = re.search(rb'seed\s*=\s*(\d+)', out)
        need(m, 'no-seed', 'dump header of an unseeded dump names no seed (end %s)' % a.end())
        seed = int(m.group(1))
        if seed == 0: zero(ctx, base, lambda r: (re.findall(rb'seed\s*=\s*(\d+)', r.blobs.get('/w/out', b'') if sc['file'] else r.out) or [None])[0]); raise NoVerdict('seed 0')
        q = dict(base); q['argv'] = base['argv'] + ['-S', str(seed)]
        b = ctx.run(apply_env(q, sc['env2'])); out2 = b.blobs.get('/w/out', b'') if sc['file'] else b.out
        need(out == out2, 'dump', 'dump with the reported seed %d differs from the dump that reported it' % seed)
        ctx.probe('dump'); return
    if sc['kind'] == 'run':
        base = {'argv': g + ['-s', '0', '-D', str(ROWFLAGS + F_LINE_HEADER + F_SHOW_RNG + F_SEED + rate + sc['D'])] + targv(sc['test'])}
        a = ctx.run(apply_env(base, sc['env']))
        if a.kind != 'exit': raise NoVerdict(a.end())
        info, ra = table(a.outs); ra = [cells(r) for r in ra]
        if not info: raise NoVerdict('no rng line')
        need(info.get('Seed', '').isdigit(), 'no-seed', 'unseeded run with the seed column on shows no seed: %r' % info)
        seed = int(info['Seed'])
        if seed == 0: zero(ctx, base, lambda r: (table(r.outs)[0] or {}).get('Seed')); raise NoVerdict('seed 0')
        if not ra: raise NoVerdict('no rows')
        q = {'argv': g + ['-S', str(seed), '-s', str(sc['rs']), '-D', D508] + targv(sc['test'])}
        b = ctx.run(apply_env(q, sc['env2']))
        need(rows508(b) == ra, 'rows', 'run with the reported seed %d differs: %s' % (seed, diff(ra, rows508(b))))
        ctx.probe('run'); return
    fl = str(ROWFLAGS + F_LINE_HEADER + F_SEED + rate + (0 if sc['kind'] == 'all' else sc['D']))
    if sc['kind'] == 'all':
        base = {'argv': g + ['-s', '1', '-a', '-D', fl], 'std': STDF}
        a = ctx.run(apply_env(base, sc['env'])); ra = rows508(a)
        if a.kind != 'exit' or len(ra) < 10: raise NoVerdict('no rows ' + a.end())
        # replay a few of the tests alone with the seed in their rows
        seeds = []
        for r in ra:
            need(len(r) == 7 and r[6].isdigit(), 'no-seed', 'row without seed: %r' % (r,))
            if int(r[6]) not in seeds: seeds.append(int(r[6]))
        for s in [x for x in seeds if x][::max(1, len(seeds) // 3)][:3]:
            b = ctx.run(apply_env({'argv': g + ['-s', '1', '-a', '-D', fl, '-S', str(s)], 'std': STDF}, sc['env2']))
            rb = rows508(b)
            want = [(j, r) for j, r in enumerate(ra) if int(r[6]) == s]
            for j, r in want: need(j < len(rb) and rb[j] == r, 'rows', 'row %r is not reproduced by its seed: %r' % (r, rb[j] if j < len(rb) else None))
        ctx.probe('all'); return
    base = {'mode': 'ui', 'argv': g + ['-s', str(sc['s']), '-D', fl], 'ops': seqops(sc['tests'])}
    a = ctx.run(apply_env(base, sc['env'])); ra = [cells(r) + (r.get('Seed', ''),) for r in table(a.outs)[1]]
    if a.kind != 'exit' or not ra: raise NoVerdict('no rows ' + a.end())
    pos = 0
    for t in sc['tests']:
        if pos >= len(ra): break
        need(len(ra[pos]) == 7 and ra[pos][6].isdigit(), 'no-seed', 'row without seed: %r' % (ra[pos],))
        seed = int(ra[pos][6])
        b = ctx.run(apply_env({'argv': g + ['-S', str(seed), '-s', str(sc['rs']), '-D', D508] + targv(t)}, sc['env2'])) if seed else None
        if b is None: zero(ctx, base, lambda r, pos=pos: ([x.get('Seed') for x in table(r.outs)[1]][pos:] or [None])[0]); raise NoVerdict('seed 0')
        rb = rows508(b); n = len(rb)
        got = [r[:6] for r in ra[pos:pos + n]]
        need(n and [r[:6] for r in rb] == got, 'rows', 'test %s replayed with its reported seed %d differs: %s' % (t, seed, diff(got, rb)))
        need(all(r[6] == ra[pos][6] for r in ra[pos:pos + n]), 'seed-col', 'rows of one test show different seeds: %r' % (ra[pos:pos + n],))
        pos += n
    need(pos == len(ra), 'rows', 'sequence printed %d rows, the tests alone %d' % (len(ra), pos))
    ctx.probe('seq')

def shrink(sc):
    for c in gshrink(sc, keep=('kind', 'fmt', 'd', 'clock', 'opt', 's', 'rs', 'file', 'nodes', 'S', 'D'), mins={'p': 1, 'n': 0}):
        if 'test' in c and not valid_test(c['test']): continue
        if 'tests' in c and (not c['tests'] or not all(valid_test(t) for t in c['tests'])): continue
        if c.get('n') == 0: continue
        yield c
    for o in range(0, len(sc['opt']), 2):
        c = dict(sc); c['opt'] = sc['opt'][:o] + sc['opt'][o + 2:]; yield c
