"""C05: failing, ending or malformed input never yields fabricated results."""
import binascii
from vp.lib import *
from vp.props import c04
TECHNIQUE = 'input faults (end, errors, shrinking, malformed text, no memory) at seeded points, rows compared with the undisturbed run'
NOTE = 'one fault per run at a seeded word, line, system call or allocation; printed rows must be a prefix of the fault-free rows and a message must appear'
VARIANTS = ['plain']; LEVEL = 'fault_enumeration'
BUDGET = {'quick': (14000, 45), 'thorough': (500000, 780)}
ASSUMPTIONS = ['exit status after an input error is left open (the program documents a message, not a status)',
               'text lines that start with a valid number are taken as that number; only lines without a number count as malformed',
               'after a failed allocation any ending is accepted, rows printed before must be right']
BAD = {'d': ['', 'abc', '#12', '-', 'x12', ' ', '.5', '# comment', 'nan'], 'o': ['', '89', 'z', '#7'], 'x': ['', 'xyz', 'g1', '#1'], 'b': ['', '0101', '2' * 32, '0' * 31, '0' * 31 + '2', 'abc', '1 0'], 'f': ['', 'abc', '#0.5', '..', 'e5', '-']}
for a in 'iu': BAD[a] = BAD['d']
BAD['X'] = BAD['x']
for a in 'FeEg': BAD[a] = BAD['f']
HDR = ['drop-type', 'drop-count', 'drop-numbit', 'type: z', 'type:', 'count:', 'numbit:', 'one-field', 'three-fields', 'empty', 'no-header', 'eof-header', 'blank-line', 'count: 0']

def gen(rng, i, tier):
    sc = {'ws': '%s:%d' % (rng.choice('sse'), rng.randrange(1, 2 ** 31)), 's': rng.randrange(2), 'S': rng.choice([1, rand_seed(rng)]), 'at': rng.randrange(10 ** 9), 'opt': []}
    sc['kind'] = rng.choice(['one', 'one', 'seq', 'seq', 'seq'])
    sc['tests'] = [rand_test(rng, FAST, 3, grow=False) for _ in range(1 if sc['kind'] == 'one' else rng.randrange(2, 4))]
    if rng.random() < 0.03: sc['kind'] = 'all'
    if sc['kind'] == 'one' and rng.random() < 0.2: sc['tests'] = [rand_test(rng, TINY, 3)]; sc['opt'] = ['-Y', str(rng.randrange(1, 3)), '-P', '205', '-W', '0.49']
    r = rng.random()
    if r < 0.12: sc['in'] = {'k': 'gen', 'g': rng.choice(COMMONG)}
    elif r < 0.22: sc['in'] = {'k': 'dev', 'g': rng.choice([500, 501])}
    else: sc['in'] = c04.rand_form(rng, sc['kind'] != 'all'); sc['in']['extra'] = rng.choice([0, 1, 40])
    k = sc['in']['k']; res = 'stdin' if k.startswith('stdin') else '/w/in' if k not in ('gen', 'dev') else ('/dev/random', '/dev/urandom')[sc['in'].get('g', 500) - 500] if k == 'dev' else 'heap'
    sc['res'] = res
    f = []
    if k == 'gen': f = ['malloc']
    else:
        f = ['read', 'read', 'read', 'eof', 'malloc']
        if k in ('stdin', 'stdinfile', 'fifo', 'dev'): f += ['end', 'end', 'end', 'end']
        if k in ('raw', 'text'): f += ['truncate', 'truncate', 'open', 'missing', 'dir', 'noname']
        if k == 'raw': f += ['stat', 'stat', 'small', 'size', 'size', 'seek']
        if k == 'text': f += ['line'] * 6 + ['header'] * 4 + ['lines', 'lines', 'cut', 'cut', 'seek']
        if k in ('fifo', 'dev'): f += ['open']
    sc['fault'] = rng.choice(f)
    sc['err'] = rng.choice(['EIO', 'EIO', 'EINTR', 'EAGAIN', 'ESTALE']) if sc['fault'] == 'read' else rng.choice(['EACCES', 'EMFILE', 'ENOENT', 'ENOMEM', 'ELOOP', 'EIO'])
    if sc['fault'] == 'stat': sc['err'] = rng.choice(['EACCES', 'ENOENT', 'EIO', 'EOVERFLOW', 'ENOMEM', 'ELOOP', 'ENAMETOOLONG', 'EBADF'])
    if sc['fault'] == 'size': sc['more'] = rng.choice([1, 17, 1000, 10 ** 6])
    sc['count'] = rng.choice([1, -1]); sc['last'] = rng.choice([0, 0, 0, 1])              # fault at the last number needed
    sc['bad'] = rng.randrange(100); sc['hdr'] = rng.choice(HDR)
    return sc

def argvs(sc, head):
    p = {}
    tail = ['-D', D508, '-s', str(sc['s']), '-S', str(sc['S'])] + sc['opt']
    if sc['kind'] == 'one': p['argv'] = head + tail + targv(sc['tests'][0])
    elif sc['kind'] == 'seq': p['argv'] = head + tail; p['mode'] = 'ui'; p['ops'] = c04.ops(sc['tests'])
    else: p['argv'] = head + tail + ['-a', '-m', '1']; p['std'] = STDF
    return p

def mangle_text(hexspec, sc, f, nwords, at):
    lines = binascii.unhexlify(hexspec[2:]).decode().split('\n')
    if lines[-1] == '': lines.pop()
    h = len(lines) - nwords
    if sc['fault'] == 'line':
        bad = BAD[f['ty']]; b = bad[sc['bad'] % len(bad)]
        if f['ty'] == 'b' and f['nb'] < 32 and len(b) >= f['nb'] and set(b[:f['nb']]) <= {'0', '1'}: b = ''
        lines[h + at] = b
    elif sc['fault'] == 'lines': lines = lines[:h + at]
    elif sc['fault'] == 'cut':                             # the file ends inside a number
        l = lines[h + at]; t = '\n'.join(lines[:h + at] + [l[:sc['bad'] % max(1, len(l))]])
        return 'T:' + binascii.hexlify(t.encode()).decode()
    else:
        x = sc['hdr']; hd = [j for j in range(h) if not lines[j].startswith('#')]
        j = hd[sc['bad'] % 3]
        if x.startswith('drop-'): lines = [l for n, l in enumerate(lines) if not (n < h and l.startswith(x[5:] + ':'))]
        elif x in ('type: z', 'count: 0', 'type:', 'count:', 'numbit:'):
            key = x.split(':')[0]; lines = [(x if n < h and l.startswith(key + ':') else l) for n, l in enumerate(lines)]
        elif x == 'one-field': lines[j] = 'garbage'
        elif x == 'three-fields': lines[j] += ' more'
        elif x == 'empty': lines = []
        elif x == 'no-header': lines = lines[h:]
        elif x == 'eof-header': lines = lines[:j]
        elif x == 'blank-line': lines.insert(j, '')
    t = '\n'.join(lines) + ('\n' if lines else '')
    return 'T:' + binascii.hexlify(t.encode()).decode()

def rows_of(r): return [x[:6] for x in rows(r.outs) if len(x) >= 6]

def check(sc, ctx):
    f = sc['in']; k = f['k']; fa = sc['fault']
    if k == 'fifo' and sc['s'] and sc['kind'] != 'one': return
    if k == 'gen': head = ['-g', str(f['g'])]; base = {}; U = None
    elif k == 'dev':
        head = ['-g', str(f['g'])]; base = {'nodes': [[sc['res'], 'c', sc['ws'] + ':inf']]}
    else:
        a = ctx.run(dict(argvs(sc, ['-g', '600']), script=sc['ws'] + ':inf', script_rewind=0 if k.startswith('stdin') else 1))
        if a.end() != 'exit:0': raise NoVerdict('reference')
        U = a.scrpos if k.startswith('stdin') else a.scrmax
        if k == 'text' and U > 6000:
            if fa in ('line', 'header', 'lines', 'cut'): raise NoVerdict('long')
            f = dict(f, k='raw'); k = 'raw'
        if U > 6000000: raise NoVerdict('long')
        N = max(U, 16) + max(f['extra'], 1 if k == 'text' else 0)      # a cut in the very last line of a text file cannot be seen
        head, base = c04.setup(sc, f, N)
    good = ctx.run(dict(argvs(sc, head), **base))
    full = rows_of(good)
    if good.end() != 'exit:0' or not full: raise NoVerdict('baseline %s' % good.end())
    if k not in ('gen', 'dev') and full != rows_of(a): raise Violation('baseline', 'undisturbed rows are not those of the numbers supplied')
    at = sc['at']
    if sc.get('last') and k not in ('gen', 'dev') and fa in ('line', 'lines', 'cut', 'end', 'size'): at = at // U * U + U - 1
    p = dict(argvs(sc, head), **copy.deepcopy(base)); res = sc['res']; sure = False; why = fa
    nd = good.nodes.get(res, {})
    def nth(op): return 1 + at % max(1, nd.get(op, 0))
    if fa == 'malloc': p['faults'] = [['heap', 'malloc', 1 + at % max(1, good.h.get('nmalloc', 1)), 'ENOMEM', 0, sc['count']]]
    elif fa == 'read': p['faults'] = [[res, 'read', nth('read'), sc['err'], 0, sc['count']]]
    elif fa == 'eof': p['faults'] = [[res, 'read', nth('read'), 'eof', 0, sc['count']]]
    elif fa == 'open': p['faults'] = [[res, 'open', max(nth('open'), 2 if k == 'dev' else 1), sc['err'], 0, sc['count']]]; sure = k in ('raw', 'text', 'fifo')
    elif fa == 'stat': p['faults'] = [[res, 'stat', nth('stat'), sc['err'], 0, sc['count']]]; sure = nd.get('stat', 0) == 1
    elif fa == 'seek':
        # a file too short for the test, whose rewind fails
        n2 = max(16, U // 2)
        if n2 >= U: raise NoVerdict('too few words')
        head, b2 = c04.setup(sc, f, n2); good = ctx.run(dict(argvs(sc, head), **b2)); full = rows_of(good)
        if good.end() != 'exit:0': raise NoVerdict('baseline')
        p = dict(argvs(sc, head), **b2); p['faults'] = [[res, 'seek', 1 + at % max(1, good.nodes[res]['seek']), 'EIO', 0, sc['count']]]
    elif fa == 'size':                                     # the file is shorter than the system says
        kk = at % max(U, 1); p['nodes'] = [['/w/in', 'r', sc['ws'] + ':%d' % kk]]; sure = True
        p['faults'] = [[res, 'stat', 1, 'size', (N + sc['more']) * 4, -1]]
    elif fa == 'truncate':
        size = N * 4 if k == 'raw' else len(base['nodes'][0][2]) // 2
        p['faults'] = [[res, 'read', nth('read'), 'truncate', at // 7 % size, 1]]
    elif fa == 'missing': p['nodes'] = [['/w/in', 'x', '-']]; sure = True
    elif fa == 'dir': p['nodes'] = [['/w/in', 'd', '-']]; sure = True
    elif fa == 'noname': p['argv'] = [x for x in p['argv'] if x not in ('-f', '/w/in')]; sure = True
    elif fa == 'small': n = at % 16; p['nodes'] = [['/w/in', 'r', sc['ws'] + ':%d~%d' % (n + 1, 1 + at // 16 % 4)]]; sure = True
    elif fa == 'end':
        if k == 'dev': kk = at % max(1, nd['rbytes'] // 4 + 2); p['nodes'] = [[res, 'c', sc['ws'] + ':%d~%d' % (kk + 1, 4 - (at >> 8) % 4)]]
        else:
            kk = at % U; spec = sc['ws'] + ':%d~%d' % (kk + 1, 4 - (at >> 8) % 4); sure = True
            if k == 'fifo': p['nodes'] = [['/w/in', 'p', spec]]
            else: p['stdin'] = spec
    elif fa in ('line', 'lines', 'header', 'cut'):
        p['nodes'] = [['/w/in', 'r', mangle_text(base['nodes'][0][2], sc, f, N, at % U)]]
        sure = fa != 'header' or sc['hdr'] not in ('count: 0', 'blank-line')
        if fa == 'header' and sc['hdr'] == 'numbit:' and f['ty'] != 'b': sure = True
    p['draws'] = 4 * good.draws + 1000
    p['steps'] = 4 * good.steps + 100000
    b = ctx.run(p); got = rows_of(b)
    desc = '%s of %s (%s)' % (fa if fa != 'header' else 'header ' + sc['hdr'], k, sc['err'] if fa in ('read', 'open', 'stat') else 'at %d' % at)
    need(got == full[:len(got)], 'fabricated-' + fa, 'after %s the run printed rows that differ from the undisturbed run: %s' % (desc, diff(full, got)))
    if fa == 'malloc': ctx.probe('malloc'); return
    need(b.kind != 'budget', 'hang', 'after %s the run does not end: %s' % (desc, b.end()))
    need(b.kind == 'exit', 'crash', 'after %s the run crashed: %s' % (desc, b.end()))
    if sure: need(len(got) < len(full), 'ignored-' + fa, '%s was ignored: all rows were printed' % desc)
    if len(got) < len(full):
        need(b.errs.strip() != '' or (k == 'dev' and fa == 'open' and b.outs.strip() != ''), 'silent', 'after %s the run stopped without a message' % desc)
        ctx.probe('stopped-' + fa)
    else: ctx.probe('complete-' + fa)

def shrink(sc):
    for c in gshrink(sc, keep=('kind', 'd', 'ws', 'S', 'k', 'ty', 'chunk', 'lat', 'opt', 'nb', 'ts', 'fault', 'res', 'err', 'count', 'hdr', 'bad', 'more', 'g'), mins={'p': 1, 'n': 0}):
        if not c['tests'] or not all(valid_test(t) for t in c['tests']): continue
        yield c
    for k in list(sc['in'].get('io', {})):
        c = copy.deepcopy(sc); del c['in']['io'][k]; yield c
    if sc.get('opt'):
        c = dict(sc); c['opt'] = []; yield c
