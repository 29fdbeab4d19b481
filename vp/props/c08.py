"""C08: dumps are the generator's output and read back as such."""
import re, struct, binascii
from vp.lib import *
TECHNIQUE = 'dumps under short writes and random environments compared word by word with the generator, and read back through the file generators'
NOTE = 'every seedable generator, all formats, file and stdout, write sizes seeded; round trips re-run tests on the dump'
VARIANTS = ['plain']; LEVEL = 'exploration'
BUDGET = {'quick': (9000, 45), 'thorough': (400000, 780)}
ASSUMPTIONS = ['reference words are drawn directly from the generator object after seeding it', 'round trips are compared exactly for tests that use integers only']
INT = [1, 2, 3, 8, 9, 15, 17, 100, 101, 200, 202, 205, 207, 208, 209, 206]

def gen(rng, i, tier):
    sc = {'g': rng.choice(SEEDABLE), 'S': rand_seed(rng), 'file': rng.randrange(2), 'fmt': rng.randrange(3), 'opt': []}
    sc['n'] = rng.choice([1, 2, 3, 63, 64, 65, 127, 128, 255, 256, 409, 410, 1000, 1023, 1024, 1025, 2048, rng.randrange(1, 3000)])
    if rng.random() < 0.08: sc['n'] = rng.choice([4096, 8192, 16384, 32768, 65536, 4096, 8192, 16384]) + rng.choice([-1, 0, 0, 0, 1])
    if rng.random() < 0.02 and sc['fmt'] == 0: sc['n'] = rng.choice([1 << 17, 1 << 18, 100001, rng.randrange(65536, 400000)])
    sc['env'] = rand_env(rng)
    res = '/w/out' if sc['file'] else 'stdout'
    if rng.random() < 0.7: sc['chunk'] = [res, rng.choice([1, 2, 3, 5, 7, 64, 511, 4095, rng.randrange(1, 5000)]), rng.randrange(1, 10 ** 6)]
    if rng.random() < 0.3: sc['lat'] = [res, rng.choice([1, 10 ** 6, 3600 * 10 ** 6]), rng.randrange(1, 10 ** 6)]
    if rng.random() < 0.2: sc['opt'] += ['-s', str(rng.randrange(3))]
    if rng.random() < 0.15: sc['opt'] += ['-D', str(rng.choice([508, 8192 + 508, 511]))]
    if rng.random() < 0.1: sc['opt'] += ['-d', str(rng.choice(FAST)), '-p', '3']
    sc['kind'] = 'dump'; sc['pre'] = rng.choice(['none', 'none', 'longer', 'shorter'])
    if rng.random() < 0.3: sc['kind'] = 'trip'; sc['g'] = rng.choice(BITS32); sc['test'] = rand_test(rng, INT, 2, grow=False); sc['more'] = rng.choice([0, 1, 7, 500])
    if sc['kind'] == 'dump' and sc['fmt'] == 0 and rng.random() < 0.3: sc['g'] = 200; sc['ws'] = 's:%d' % rng.randrange(1, 2 ** 31); sc['file'] = 1; sc['opt'] = ['-D', '508']
    return sc

def dump(sc, n):
    p = {'argv': ['-g', str(sc['g']), '-S', str(sc['S']), '-o', '-O', str(sc['fmt']), '-t', str(n)] + (['-f', '/w/out'] if sc['file'] else []) + sc['opt'], 'nodes': [['/w', 'd', '-']]}
    if sc['pre'] != 'none' and sc['file']: p['nodes'].append(['/w/out', 'r', 's:99:%d' % (n * 4 + 500 if sc['pre'] == 'longer' else 2)])
    if 'chunk' in sc: p['chunk'] = [sc['chunk']]
    if 'lat' in sc: p['latency'] = [sc['lat']]
    if sc['g'] == 200: p['stdin'] = sc['ws'] + ':inf'
    return apply_env(p, sc['env'])

def parse_dump(sc, out, n, name):
    if sc['fmt'] == 0:
        need(len(out) == 4 * n, 'length', 'raw dump of %d numbers has %d bytes' % (n, len(out)))
        return list(struct.unpack('<%dI' % n, out))
    ls = out.decode('latin-1').split('\n')
    need(ls and ls[-1] == '', 'length', 'text dump does not end with a newline')
    com = [l for l in ls[:-1] if l.startswith('#')]; body = [l for l in ls[:-1] if not l.startswith('#')]
    hd = {}
    while body and ':' in body[0]: k, v = body.pop(0).split(':', 1); hd[k.strip()] = v.strip()
    m = re.search(r'generator\s+(\S.*?)\s+seed\s*=\s*(\d+)', '\n'.join(com))
    need(m is not None, 'header', 'no generator and seed in the header: ' + short('\n'.join(com)))
    need(int(m.group(2)) == sc['S'], 'header', 'header names seed %s, the seed was %d' % (m.group(2), sc['S']))
    need(m.group(1) == name, 'header', 'header names generator %s instead of %s' % (m.group(1), name))
    need(hd.get('count') == str(n) and hd.get('type') == ('d' if sc['fmt'] == 1 else 'f') and 'numbit' in hd, 'header', 'header fields %r do not describe %d numbers of format %d' % (hd, n, sc['fmt']))
    need(len(body) == n, 'length', 'dump of %d numbers has %d lines' % (n, len(body)))
    try: return [int(x) for x in body] if sc['fmt'] == 1 else [float(x) for x in body]
    except ValueError: raise Violation('format', 'dump holds a line that is not a number')

def check(sc, ctx):
    if sc['kind'] == 'trip':
        d = ctx.run({'argv': ['-g', str(sc['g']), '-S', str(sc['S']), '-s', '0', '-D', D508] + targv(sc['test'])})
        rd = rows508(d)
        if d.end() != 'exit:0' or not rd: raise NoVerdict('direct ' + d.end())
        n = max(d.draws + sc['more'], 16)
        if sc['fmt'] and n > 8000: sc = dict(sc, fmt=0)
        if n > 100000: raise NoVerdict('long')
    else: n = sc['n']
    a = ctx.run(dump(sc, n))
    need(a.end() == 'exit:0', 'ending', 'dump of %d numbers ended %s: %s' % (n, a.end(), short(a.errs)))
    out = a.blobs.get('/w/out', b'') if sc['file'] else a.out
    if sc['g'] == 200:
        got = parse_dump(sc, out, n, 'stdin_input_raw'); want = [sword(sc['ws'] + ':', j) for j in range(n)]
        need(got == want, 'words', 'dump of standard input is not what it delivered: ' + diff(want, got)); ctx.probe('stdin'); return
    op = 'draw' if sc['fmt'] < 2 else 'ulist'
    ops = [['parse'], ['choose'], ['rngset', sc['S']]] + [[op, 64]] * (n // 64) + ([[op, n % 64]] if n % 64 else [])
    r = ctx.run({'argv': ['-g', str(sc['g']), '-S', str(sc['S']), '-D', str(ROWFLAGS | F_SHOW_RNG | F_LINE_HEADER), '-s', '0'], 'mode': 'ui', 'ops': ops + [['set', 'tsamples', 100], ['set', 'psamples', 1], ['test', 100]]})
    nm = [x for x in rows(r.outs) if len(x) >= 2]
    ls = r.outs.split('\n'); j = [k for k, l in enumerate(ls) if 'rng_name' in l]
    if not j: raise NoVerdict('no name')
    name = ls[j[0] + 1].split('|')[0].strip()
    vals = []
    for l in r.note:
        f = l.split()
        if f[0] == 'draw': vals.append((int(f[1]), [int(x, 16) for x in f[3:]]))
        elif f[0] == 'ulist': vals.append((int(f[1]), [float(x) for x in f[2:]]))
    got = parse_dump(sc, out, n, name)
    pos = 0
    for cnt, v in vals:
        if v is not None:
            g = got[pos:pos + len(v)]
            ok = g == v if sc['fmt'] < 2 else len(g) == len(v) and all(abs(x - y) <= 1.01e-10 for x, y in zip(g, v))
            need(ok, 'words', 'dumped numbers from number %d on are not the output of generator %s seeded with %d: %s' % (pos + 1, name, sc['S'], diff(v, g)))
        pos += cnt
    need(pos == n, 'internal', 'covered %d of %d' % (pos, n)) if pos != n else None
    if sc['kind'] == 'dump': ctx.probe('dump%d' % sc['fmt']); return
    # read the dump back
    node = [['/w/out', 'r', 'h:' + binascii.hexlify(out).decode(), 'ro']]
    if sc['fmt'] == 2:
        k = min(n, 320)
        b = ctx.run({'argv': ['-g', '202', '-f', '/w/out', '-D', D508], 'mode': 'ui', 'nodes': node, 'ops': [['parse'], ['choose']] + [['draw', 64]] * (k // 64)})
        w = [int(x, 16) for l in b.note if l.startswith('draw') for x in l.split()[3:]]
        q = ctx.run({'argv': ['-g', str(sc['g']), '-S', str(sc['S']), '-D', D508], 'mode': 'ui', 'ops': [['parse'], ['choose'], ['rngset', sc['S']]] + [['draw', 64]] * (k // 64)})
        x = [int(x, 16) for l in q.note if l.startswith('draw') for x in l.split()[3:]]
        need(len(w) == len(x) and all(abs(s - t) <= 2 for s, t in zip(w, x)), 'float-trip', 'numbers read back from a floating point dump are not the dumped ones: ' + diff(x, w))
        ctx.probe('trip2'); return
    b = ctx.run({'argv': ['-g', '201' if sc['fmt'] == 0 else '202', '-f', '/w/out', '-s', '0', '-D', D508] + targv(sc['test']), 'nodes': node})
    need(b.end() == 'exit:0', 'trip-end', 'testing the dump ended %s: %s' % (b.end(), short(b.errs)))
    need(rows508(b) == rd, 'trip-rows', 'testing the dump differs from testing generator %s directly: %s' % (name, diff(rd, rows508(b))))
    ctx.probe('trip%d' % sc['fmt'])

def shrink(sc):
    for c in gshrink(sc, keep=('kind', 'd', 'ws', 'S', 'g', 'chunk', 'lat', 'opt', 'fmt', 'pre', 'clock'), mins={'p': 1, 'n': 0}):
        if c['n'] < 1 or ('test' in c and not valid_test(c['test'])): continue
        yield c
    for k in ('chunk', 'lat'):
        if k in sc: c = dict(sc); del c[k]; yield c
    if sc.get('opt'): c = dict(sc); c['opt'] = []; yield c
