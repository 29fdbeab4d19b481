"""C12: only the files named on the command line are touched, and inputs only read."""
from vp.lib import *
from vp.props import c04
TECHNIQUE = 'runs over a simulated file system with decoy files, every open, write, truncate, rename and remove recorded, under input and output faults'
NOTE = 'random names (length, characters, leading dashes, relative and absolute), decoys with neighbouring and shortened names, all modes; recorded accesses judged'
VARIANTS = ['plain']; LEVEL = 'exploration'
BUDGET = {'quick': (25000, 45), 'thorough': (600000, 780)}
ASSUMPTIONS = ['"-" and no name mean standard output for a dump', 'names are byte strings without NUL; links and case folding are the file system\'s business']
CH = 'abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_.-'
ODD = ' %$&;|*?\'"\\\t#=+:,~!()[]{}<>@^`\n'
DEV = ('/dev/random', '/dev/urandom', '/dev/arandom')

def rand_name(rng):
    k = rng.random()
    if k < 0.15: n = rng.choice(['-x', '--', '-', '-o', '--help', '-f', '%s%s%n', '%d', 'a b', ' ', '.', 'stdin_input_raw', '0', '-1', '*', "it's", 'x\ny', 'stdin', 'stdout', 'out.txt~', '/w/-'])
    else:
        L = rng.choice([1, 2, 8, 20, 60, 79, 80, 81, 126, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1021, 1022, 1023, 1024, 1025, 1060, rng.randrange(1, 1080)])
        cs = CH if rng.random() < 0.6 else CH + ODD * 2
        n = ''.join(rng.choice(cs) for _ in range(L))
        if rng.random() < 0.3: n = ('/w/' + n)[:L]
        if rng.random() < 0.08: n = rng.choice(['//w/', '/w//', '/w/./', './', '/w/../w/', '/w/.', '..', '~/', '$HOME/']) + n[:max(1, L - 8)]
        if rng.random() < 0.1: n = ('\xe9\xff' + n)[:max(L, 1)]
    return n

def gen(rng, i, tier):
    sc = {'S': rand_seed(rng), 'name': rand_name(rng), 'ps': rng.randrange(1, 2 ** 31), 'opt': []}
    sc['kind'] = rng.choice(['raw', 'raw', 'text', 'text', 'dump', 'dump', 'dump', 'dumpin', 'info', 'unused', 'fault', 'fault', 'stdin'])
    sc['test'] = rand_test(rng, TINY if rng.random() < 0.93 else None, 2); sc['n'] = rng.choice([16, 17, 100, 1000, 3000]); sc['fmt'] = rng.randrange(3); sc['pre'] = rng.choice([None, 0, 5, 5000])
    sc['g'] = rng.choice(COMMONG + [500, 501]) if sc['kind'] in ('dump', 'unused') else rng.choice([201, 202])
    if sc['kind'] == 'dump' and rng.random() < 0.15: sc['g'] = 200
    if sc['kind'] == 'info': sc['opt'] = rng.choice([['-h'], ['-l'], ['-V'], ['-g', '-1'], ['-d', '-1'], ['-F'], ['-h', '-d', '0'], ['-h', '-d', '101'], ['-g', '9999'], ['-Z'], ['-d', '300'], ['-d', 'nosuch'], ['-D', 'nosuch'], ['-g', 'nosuch'], ['extra']])
    elif rng.random() < 0.3: sc['opt'] = rng.choice([['-v', '1'], ['-D', str(F_SHOW_RNG | F_HEADER | F_SEED)], ['-D', str(F_HIST)], ['-D', str(F_FILESTAT)], ['-Y', '1', '-P', '101', '-W', '0.4'], ['-s', '1'], ['-k', '1'], ['-L', '1']])
    if sc['kind'] == 'fault' or rng.random() < 0.15: sc['fault'] = rng.choice([['open', rng.choice(['EACCES', 'EMFILE', 'ENOENT', 'EINTR'])], ['read', 'EIO'], ['read', 'EIO'], ['read', 'eof'], ['stat', 'EIO'], ['close', 'EIO'], ['write', 'ENOSPC'], ['write', 'EIO']]) + [rng.randrange(1, 6), rng.choice([1, -1])]
    sc['dec'] = rng.randrange(10 ** 6); sc['late'] = rng.randrange(2)
    return sc

def decoys(name, k):
    out = {'/w/other', 'dieharder.out', 'core', 'file_input', name + '.bak', name + '~', name + '.tmp', name.strip(), name.lower(), name[1:], name[:127], name[:128], name[:255], name[:80], name[:1023], name[:k % max(1, len(name)) + 1], name.split(' ')[0], name.split('%')[0], name.replace('%%', '%'), './' + name}
    out -= {name, '', '-', '/w', '/dev', 'stdin', 'stdout', 'stderr', '/', '.', '/dev/random', '/dev/urandom'}
    return sorted(x for x in out if len(x) < 1090)

def contents(sc, kind):
    if kind == 202: return c04.text_file(sc['ps'], 'd', 32, [sword('s:%d:' % sc['ps'], j) for j in range(min(sc['n'], 300))], 0)
    return 's:%d:%d' % (sc['ps'], sc['n'])

def res(r): return [x for x in rows508(r) if x[5] in ('PASSED', 'WEAK', 'FAILED')]

def check(sc, ctx):
    nm = sc['name']; k = sc['kind']; dump = k in ('dump', 'dumpin')
    if nm in ('stdin', 'stdout'): nm = nm + '_'
    dirs = {'/w'}; p = nm
    while '/' in p[1:]:
        p = p.rsplit('/', 1)[0]
        if p: dirs.add(p)
    if len(dirs) > 30 or nm.endswith('/') or nm in dirs: raise NoVerdict('directories')
    nodes = [[(d), 'd', '-'] for d in sorted(dirs)]; dec = [d for d in decoys(nm, sc['dec']) if d not in dirs]
    nodes += [[(d), 'r', 's:99:64'] for d in dec]
    argv = ['-S', str(sc['S']), '-D', D508] + (targv(sc['test']) if not dump and k != 'info' else []) + sc['opt']
    plan = {'draws': 3000000}
    if k in ('raw', 'text', 'fault', 'dumpin'):
        g = 201 if k == 'raw' else 202 if k == 'text' else sc['g']; nodes.append([(nm), 'r', contents(sc, g)]); argv = ['-g', str(g)] + argv
    elif k == 'stdin': argv = ['-g', '200'] + argv; plan['stdin'] = 's:%d:inf' % sc['ps']
    elif k == 'dump':
        argv = ['-g', str(sc['g'])] + argv; plan['stdin'] = 's:%d:inf' % sc['ps']
        if sc['pre'] is not None: nodes.append([(nm), 'r', 's:5:%d' % sc['pre']])
    elif k == 'unused': argv = ['-g', str(sc['g'])] + argv; nodes.append([(nm), 'r', contents(sc, 201)])
    else: nodes.append([(nm), 'r', contents(sc, 201)])
    if dump: argv += ['-o', '-O', str(sc['fmt']), '-t', str(sc['n'])]
    withname = k != 'stdin'
    fa = ['-f', (nm)] if withname else []
    if sc.get('fault'): op, eff, nth, cnt = sc['fault']; plan['faults'] = [[(nm), op, nth, eff, 0, cnt]]
    plan['nodes'] = nodes; plan['argv'] = fa + argv if sc['late'] else argv + fa
    r = ctx.run(plan)
    if r.kind == 'budget': raise NoVerdict(r.end())
    named = {nm} if withname and (nm != '-' or k != 'dump') else set()
    out_ok = {nm} if k == 'dump' and nm != '-' else set()
    for path, n in r.nodes.items():
        if path in ('stdin', 'stdout', 'stderr', 'heap', 'clock'): continue
        if path in DEV: need(n['ow'] == 0 and n['mod'] == 0, 'device', 'opens %s for writing' % path); continue
        if path not in named: need(n['open'] == 0, 'foreign', '%s run, name %s: opens %s' % (k, short(repr(nm), 80), short(repr(path), 120)))
        if path not in out_ok: need(n['mod'] == 0 and n['ow'] == 0 and n['wbytes'] == 0, 'modified', '%s run, name %s: %s was opened for writing, changed, renamed or removed' % (k, short(repr(nm), 80), short(repr(path), 120)))
    long_ = len(nm) >= 1024
    if long_ and withname and k != 'info' and r.nodes.get(nm, {}).get('open', 0) == 0:
        need(r.errs != '' and not res(r), 'long', 'name of %d characters cannot be used but is not refused with a message' % len(nm)); ctx.probe('refused'); return
    if sc.get('fault') and sum(r.fired): ctx.probe('fault-' + k); return
    if k in ('raw', 'text', 'fault'):
        g = 201 if k == 'raw' else 202 if k == 'text' else sc['g']
        b = ctx.run(dict(plan, nodes=[['/w/in', 'r', contents(sc, g)]], argv=argv + ['-f', '/w/in'], faults=[]))
        need(r.nodes[nm]['open'] > 0, 'not-used', 'file %s is not opened: %s' % (short(repr(nm), 100), short(r.errs)))
        need(res(r) == res(b) and r.end() == b.end(), 'rows', 'rows depend on the file name %s: %s' % (short(repr(nm), 100), diff(res(b), res(r))))
    if k == 'dumpin':
        need(not res(r) or r.code != 0, 'dumpin', 'dump of a file generator runs tests'); ctx.probe('dumpin-' + r.end())
    if k == 'dump':
        q = dict(plan, nodes=[], argv=[x for j, x in enumerate(argv) if not ('-v' in (x, argv[j - 1]))], faults=[]); b = ctx.run(q)
        if b.end() != 'exit:0': raise NoVerdict('dump ' + b.end())
        want = b.out
        if nm == '-': got = r.out
        else:
            need(nm in r.blobs, 'no-dump', 'dump to %s: file not written (%s %s)' % (short(repr(nm), 100), r.end(), short(r.errs)))
            got = r.blobs[nm]; need(len(r.out) == 0 or '-v' in sc['opt'], 'stray', 'dump to a file also writes %d bytes to standard output' % len(r.out))
        if '-v' in sc['opt'] and nm == '-': return ctx.probe('dump')
        need(got == want, 'dump', 'dump to %s (%d bytes) is not the same as to standard output (%d bytes)' % (short(repr(nm), 100), len(got), len(want)))
    if k == 'stdin' and r.end() == 'exit:0': need(all(n['open'] == 0 for x, n in r.nodes.items() if x not in DEV and x not in ('stdin', 'stdout', 'stderr')), 'foreign', 'reading standard input opens a file')
    ctx.probe(k)

def shrink(sc):
    n = sc['name']
    for c in (n[:len(n) // 2], n[len(n) // 2:], n[:-1], n[1:], 'a' * len(n), 'a' + n[1:], 'a'):
        if c and c != n: yield dict(sc, name=c)
    if sc.get('opt') and sc['kind'] != 'info': yield dict(sc, opt=[])
    if sc.get('fault'): c = dict(sc); del c['fault']; yield c
    for c in gshrink(sc, keep=('kind', 'd', 'S', 'g', 'opt', 'name', 'ps', 'fault', 'dec'), mins={'p': 1, 'n': 16}):
        if valid_test(c['test']): yield c
