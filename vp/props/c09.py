"""C09: output that could not be written is never reported as success."""
from vp.lib import *
TECHNIQUE = 'write, flush, close and open faults, full disks and broken pipes at every seeded byte of dumps and result tables'
NOTE = 'faults at seeded system calls and byte positions; exit status and the written prefix judged against the complete output'
VARIANTS = ['plain']; LEVEL = 'fault_enumeration'
BUDGET = {'quick': (20000, 45), 'thorough': (600000, 780)}
ASSUMPTIONS = ['faults hit writes of the dump or of the result table; the error stream itself works', 'an interrupted or temporarily refused write may be retried or reported']
ERR = ['ENOSPC', 'EIO', 'EDQUOT', 'EFBIG', 'EPIPE', 'EAGAIN', 'EINTR', 'EROFS']

def gen(rng, i, tier):
    sc = {'S': rand_seed(rng), 'g': rng.choice(COMMONG), 'at': rng.randrange(10 ** 9), 'opt': []}
    k = rng.random()
    if k < 0.5:
        sc['kind'] = 'dump'; sc['fmt'] = rng.randrange(3); sc['file'] = rng.randrange(2); sc['n'] = rng.choice([1, 2, 10, 100, 1024, 1025, 2000, rng.randrange(1, 5000)])
    elif k < 0.62:
        sc['kind'] = 'endless'; sc['file'] = rng.randrange(2); sc['fmt'] = 0; sc['n'] = 0
        if rng.random() < 0.03: sc['ref'] = 300000
    elif k < 0.97:
        sc['kind'] = 'rows'; sc['file'] = 0; sc['test'] = rand_test(rng, FAST, 2, grow=False)
        sc['D'] = rng.choice([508, 511, 4604, 508 + F_RATE + F_SHOW_RNG, 508 + F_HIST, 508 + F_PVALS, F_TEST_NAME + F_PV])
        if rng.random() < 0.25: sc['test'] = rand_test(rng, TINY, 2); sc['opt'] = ['-Y', str(rng.randrange(1, 3)), '-P', '210', '-W', '0.45']
    else: sc['kind'] = 'all'; sc['file'] = 0; sc['D'] = 508
    res = '/w/out' if sc['file'] else 'stdout'; sc['res'] = res
    f = ['write'] * 4 + ['space'] * 4
    if sc['kind'] in ('dump', 'endless'): f += ['close'] * 2
    if sc['file']: f += ['open', 'dir', 'ro']
    else: f += ['pipe'] * 3
    sc['fault'] = rng.choice(f)
    sc['err'] = rng.choice(ERR if not sc['fault'] == 'close' else ['EIO', 'ENOSPC', 'EDQUOT'])
    if sc['fault'] == 'open': sc['err'] = rng.choice(['EACCES', 'ENOSPC', 'EMFILE', 'EROFS', 'ENOENT'])
    sc['count'] = rng.choice([1, -1, -1])
    sc['ign'] = rng.randrange(2)
    if rng.random() < 0.4: sc['chunk'] = [res, rng.choice([1, 3, 7, 64, 1000, 4095]), rng.randrange(1, 10 ** 6)]
    return sc

def plan(sc):
    p = {'argv': ['-g', str(sc['g']), '-S', str(sc['S'])] + sc['opt'], 'nodes': [['/w', 'd', '-']]}
    if sc['kind'] in ('dump', 'endless'): p['argv'] += ['-D', '508', '-o', '-O', str(sc['fmt']), '-t', str(sc['n'])] + (['-f', '/w/out'] if sc['file'] else [])
    elif sc['kind'] == 'rows': p['argv'] += ['-D', str(sc['D'])] + targv(sc['test'])
    else: p['argv'] += ['-D', '508', '-a', '-m', '1']; p['std'] = STDF
    if 'chunk' in sc: p['chunk'] = [sc['chunk']]
    return p

def outof(sc, r): return r.blobs.get('/w/out', b'') if sc['file'] else r.out

def check(sc, ctx):
    b = plan(sc); end = sc['kind'] == 'endless'
    if end:
        ref = sc.get('ref', 9000); q = dict(b); q['argv'] = [(str(ref) if x == '0' and b['argv'][j - 1] == '-t' else x) for j, x in enumerate(b['argv'])]; full = None
        a = ctx.run(q); size = 4 * ref; na = a.nodes['/w/out' if sc['file'] else 'stdout']['write']
        full = outof(sc, a)
        if a.end() != 'exit:0': raise NoVerdict('baseline')
    else:
        a = ctx.run(b)
        need(a.end() == 'exit:0', 'baseline', 'undisturbed run ended %s: %s' % (a.end(), short(a.errs)))
        full = outof(sc, a); size = len(full); na = a.nodes[sc['res']]['write']
        if not full: raise NoVerdict('empty')
        if sc['kind'] == 'rows' and sc['D'] & F_RATE: full = None
    p = dict(b); fa = sc['fault']; at = sc['at']
    if fa == 'write': p['faults'] = [[sc['res'], 'write', 1 + at % max(1, na), sc['err'], 0, sc['count']]]
    elif fa == 'space':
        p['disk'] = at % size
        if not sc['file']: p['stdoutdisk'] = 1
    elif fa == 'close': p['faults'] = [[sc['res'], 'close', 1, sc['err'], 0, 1]]
    elif fa == 'open': p['faults'] = [[sc['res'], 'open', 1, sc['err'], 0, -1]]
    elif fa == 'dir': p['nodes'] = p['nodes'] + [['/w/out', 'd', '-']]
    elif fa == 'ro': p['nodes'] = p['nodes'] + [['/w/out', 'r', 's:1:5', 'ro']]
    elif fa == 'pipe': p['faults'] = [['stdout', 'write', 1 + at % max(1, na), 'EPIPE', 0, -1]]
    if sc['ign']: p['sigpipe'] = 'ignore'
    if end and fa == 'close': p['faults'].append([sc['res'], 'write', 3, 'EIO', 0, -1])
    if end: p['draws'] = 1500000
    else: p['draws'] = 3 * a.draws + 200000
    r = ctx.run(p)
    out = outof(sc, r) if fa not in ('dir', 'ro') else b''
    fired = sum(r.fired) > 0 or fa in ('dir', 'ro') or (fa == 'space')
    desc = '%s %s of %s (%s)' % (sc['kind'], fa, sc['res'], sc['err'])
    if end and sc['count'] == 1 and r.kind == 'budget': return ctx.probe('endless-went-on')   # a single transient fault may be survived
    need(r.kind != 'budget', 'hang', '%s: the program goes on although nothing can be written (%d numbers drawn)' % (desc, r.draws))
    need(r.kind == 'exit' or (r.kind == 'signal' and r.code == 13), 'crash', '%s: ended %s' % (desc, r.end()))
    gap = sc['kind'] in ('rows', 'all') and fa == 'write' and sc['count'] == 1     # a table may go on after a single failed write
    if end: full = full + out[len(full):]     # the reference is as long as one needs; what an endless dump wrote after it is not judged
    if full is not None and not gap: need(out == full[:len(out)], 'garbled', '%s: what was written (%d bytes) is not a prefix of the complete output' % (desc, len(out)))
    if fa == 'ro': need(r.nodes['/w/out']['mod'] == 0, 'ro', 'read-only file was changed')
    if r.end() == 'exit:0':
        if fa in ('write', 'pipe') and sc['err'] in ('EAGAIN', 'EINTR') and fired: need(full is not None and out == full, 'silent', '%s: exit status 0 although the output is incomplete (%d of %d bytes)' % (desc, len(out), size))
        else: need(not fired, 'silent', '%s: exit status 0 although output was lost (%d of %s bytes written)' % (desc, len(out), size))
    if fired: ctx.probe('%s-%s-%s' % (sc['kind'], fa, r.end()))
    else: ctx.probe('not-reached')

def shrink(sc):
    for c in gshrink(sc, keep=('kind', 'd', 'S', 'g', 'chunk', 'opt', 'fmt', 'fault', 'err', 'count', 'res', 'file', 'D'), mins={'p': 1, 'n': 0}):
        if c.get('n', 1) < 1 and c['kind'] == 'dump' or ('test' in c and not valid_test(c['test'])): continue
        yield c
    if 'chunk' in sc: c = dict(sc); del c['chunk']; yield c
    if sc.get('opt'): c = dict(sc); c['opt'] = []; yield c
