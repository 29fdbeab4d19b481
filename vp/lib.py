"""Shared vocabulary of the property modules: tests, generators, plans, rows."""
import copy
from vp.core import Violation, NoVerdict

# test -> workable number of samples (small, but large enough for every statistic of the test)
T = {0: 100, 1: 300, 2: 100, 3: 1000, 4: 100, 5: 100, 6: 100, 7: 100, 8: 100, 9: 100, 10: 100, 11: 100, 12: 100, 13: 100, 14: 100, 15: 1000, 16: 100,
     17: 1000, 100: 1000, 101: 1000, 102: 1000, 200: 100, 201: 100, 202: 100, 203: 100, 204: 100, 205: 1000, 206: 100, 207: 200, 208: 1000, 209: 1000, 210: 2}
ROWS = {15: 2, 16: 2, 17: 2, 102: 30, 207: 2, 208: 2}          # statistics per test (others: 1)
SLOW = (7, 12, 10, 4, 0)                                         # 50 ms and more
# relative frequency of tests: slow ones rarely
WEIGHT = {t: (1 if t == 7 else 2 if t in (10, 12) else 3 if t in (0, 4) else 8) for t in T}
NT = {200: [1, 2, 3, 4, 5, 6, 8, 12], 201: [2, 3, 4, 5], 202: [2, 3, 4, 5, 0], 203: [0, 1, 2, 3, 5, 8, 17, 32, 100], 209: [0, 0, 6, 8, 12, 15], 206: [0, 0, 16, 64, 128, 512], 207: [0, 0, 0, 16, 31, 33], 208: [0, 0, 0, 31, 64, 100], 210: [0, 0, 0, 500, 1000, 3000]}
FAST = [1, 2, 3, 8, 9, 11, 13, 14, 15, 16, 17, 100, 101, 200, 201, 202, 203, 204, 205, 207, 209]
TINY = [1, 8, 11, 14, 100, 200, 201, 203, 204]                  # well under 2000 words per p-sample
# the XOR supergenerator (207) with its parts; the keys are made-up numbers that Ctx.run expands
XORS = {2070: [207, 13], 2071: [207, 2, 5], 2072: [207, 205, 206, 209], 2073: [207, 57, 31, 400, 13, 13], 2074: [207, 203, 204, 208]}
SEEDABLE = [g for g in list(range(0, 62)) + [203, 204, 205, 206, 208, 209] + list(range(400, 406)) + sorted(XORS)]
BITS32 = [0, 6, 13, 14, 15, 16, 22, 42, 45, 46, 52, 53, 54, 55, 56, 59, 60, 203, 204, 205, 206, 208, 209, 400, 401, 402, 403] + sorted(XORS)
COMMONG = [13, 13, 206, 205, 31, 1, 24, 39, 54, 400, 402, 403]

F_HEADER, F_SHOW_RNG, F_LINE_HEADER, F_TEST_NAME, F_NTUPLE, F_TS, F_PS, F_PV, F_ASSESS, F_PREFIX, F_DESC, F_HIST, F_SEED, F_RATE, F_NUM, F_NOWHITE, F_PVALS, F_FILESTAT = [1 << i for i in range(18)]
ROWFLAGS = F_TEST_NAME | F_NTUPLE | F_TS | F_PS | F_PV | F_ASSESS           # 504
D508 = str(ROWFLAGS | F_LINE_HEADER)

def wchoice(rng, weights):
    ks = sorted(weights); tot = sum(weights[k] for k in ks); x = rng.randrange(tot)
    for k in ks:
        x -= weights[k]
        if x < 0: return k

def rand_test(rng, pool=None, pmax=6, grow=True):
    d = rng.choice(pool) if pool else wchoice(rng, WEIGHT)
    t = T[d]
    if grow and d not in SLOW and rng.random() < 0.4: t = t + rng.randrange(0, t * 2)
    if d == 210 and rng.random() < 0.4: t = rng.choice([5, 20, 40])
    p = 1 + rng.randrange(pmax if d not in SLOW else 2)
    n = rng.choice(NT[d]) if d in NT else 0
    return {'d': d, 't': t, 'p': p, 'n': n}

# tests that are cheap even with as many samples as a real run uses
BIG = [1, 3, 4, 4, 4, 4, 5, 6, 7, 8, 9, 13, 14, 15, 16, 17, 100, 101, 102, 200, 202, 203, 204, 205, 207, 208, 209]
def big_test(rng):
    d = rng.choice(BIG); t = int(10 ** (3.5 + 2.5 * rng.random())) if d not in (5, 6, 7) or rng.random() < 0.3 else 2 ** 21
    if d == 4: t = rng.choice([2 ** 21, 2 ** 23 - 1, 2 ** 23, rng.randrange(2 ** 23, 2 ** 24), rng.randrange(2 ** 23, 2 ** 23 + 1000)])
    if d in (101, 102, 200, 208, 17): t = min(t, 200000)
    n = rng.choice(NT[d]) if d in NT else 0
    if d == 203: t = max(1000, t // (n + 1))
    return {'d': d, 't': t, 'p': rng.choice([1, 1, 2]), 'n': n}

# every test once with (about) the sample count a real run uses
FULL = [(0, 100, 0), (1, 1000000, 0), (2, 40000, 0), (3, 100000, 0), (4, 2097152, 0), (5, 2097152, 0), (6, 2097152, 0), (7, 2097152, 0), (8, 256000, 0), (9, 256000, 0), (10, 12000, 0), (11, 8000, 0), (12, 4000, 0),
        (13, 100000, 0), (14, 100, 0), (15, 100000, 0), (16, 200000, 0), (17, 1000000, 0), (100, 100000, 0), (101, 100000, 0), (102, 100000, 0), (200, 100000, 1), (200, 100000, 12), (201, 10000, 2), (201, 10000, 5),
        (202, 100000, 2), (202, 100000, 5), (203, 1000000, 0), (203, 30000, 32), (204, 10000, 0), (205, 1000000, 0), (206, 50000, 0), (207, 3000000, 0), (208, 1000000, 0), (209, 6500000, 0), (210, 400, 0)]
def full_test(i):
    d, t, n = FULL[i % len(FULL)]; return {'d': d, 't': t, 'p': 1, 'n': n}

def targv(t):
    a = ['-d', str(t['d']), '-t', str(t['t']), '-p', str(t['p'])]
    if t.get('n'): a += ['-n', str(t['n'])]
    return a

def valid_test(t):
    return t['t'] >= T[t['d']] and t['p'] >= 1 and (t['d'] not in (200, 201, 202) or t.get('n', 0) in NT[t['d']])

def rows(text, sep='|'):
    """Result rows of an output: list of tuples of stripped fields (headers, comments, rng info skipped)."""
    out = []
    for l in text.split('\n'):
        if not l or l[0] == '#' or sep not in l or 'test_name' in l or 'rng_name' in l: continue
        out.append(tuple(x.strip() for x in l.split(sep)))
    return out

def rows508(r, need=True):
    """Rows of a run made with -D 508 (+4096): 6 (7) fields, first a test name."""
    rs = [x for x in rows(r.outs) if len(x) >= 6]
    return rs

def table(text, sep='|'):
    """(generator line, rows) of an output with line headers, each as {column: value}; test names cut to 20 characters"""
    info, hdr, out, nxt = None, None, [], None
    for l in text.split('\n'):
        if not l or l[0] == '#' or sep not in l: continue
        f = [x.strip() for x in l.split(sep)]
        if 'rng_name' in f: nxt = f; continue
        if 'test_name' in f: hdr = f; continue
        if nxt is not None: info = dict(zip(nxt, f)); nxt = None; continue
        if hdr and len(f) == len(hdr):
            d = dict(zip(hdr, f)); d['test_name'] = d['test_name'][:20]; out.append(d)
    return info, out

COLS = ('test_name', 'ntup', 'tsamples', 'psamples', 'p-value', 'Assessment')
def cells(d): return tuple(d.get(c) for c in COLS)

def complete_lines(text):
    i = text.rfind('\n'); return text[:i + 1]

def need(cond, tag, msg):
    if not cond: raise Violation(tag, msg)

def short(x, n=260):
    s = x if isinstance(x, str) else repr(x); return s if len(s) <= n else s[:n] + '...'

def diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y: return 'item %d: %s vs %s' % (i, short(x, 160), short(y, 160))
    return 'lengths %d vs %d' % (len(a), len(b))

def rand_seed(rng):
    return rng.choice([1, 2, 3, 7, 12345, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, rng.randrange(1, 2 ** 32), rng.randrange(1, 2 ** 32), rng.randrange(1, 2 ** 16)])

def rand_env(rng):
    """Everything of the environment a seeded result must not depend on."""
    e = {'junk': rng.choice([0, 1, 0x55, 0xaa, 0xff, rng.randrange(256)]), 'pid': rng.randrange(2, 60000), 'shift': rng.choice([0, 1, 3, 17, rng.randrange(4000)]),
         'clock': [rng.choice([0, 1, 999999, 1700000000 * 10 ** 6, 4102444800 * 10 ** 6 + 17, rng.randrange(2 ** 51)]), rng.choice([0, 1, 100, 12345]), rng.choice([0, 0, 1, 1000])],
         'nodes': [['/dev/urandom', 'c', 's:%d:inf' % rng.randrange(2 ** 31)], ['/dev/random', 'c', 's:%d:inf' % rng.randrange(2 ** 31)]]}
    if rng.random() < 0.5: e['anyenv'] = rng.choice(['1', '0', '', '7', '100000', 'yes', 'no', '/w/x', rng.choice('abc')])
    if rng.random() < 0.4: e['env'] = rng.sample(['LANG=de_DE.UTF-8', 'LC_ALL=C', 'TZ=Asia/Tokyo', 'HOME=/nowhere', 'GSL_RNG_SEED=%d' % rng.randrange(9999), 'GSL_RNG_TYPE=mt19937', 'COLUMNS=20', 'MALLOC_PERTURB_=7', 'POSIXLY_CORRECT=1', 'DIEHARDER_SEED=5'], rng.randrange(1, 5))
    if rng.random() < 0.3: e['faults'] = [['clock', 'clock', rng.randrange(1, 9), 'jump', rng.choice([-10 ** 12, 10 ** 12, -1, 1, 3600 * 10 ** 6, -999999]), rng.choice([1, 1, 3])]]
    if rng.random() < 0.25: e.setdefault('faults', []).append(['/dev/urandom', rng.choice(['open', 'read']), rng.randrange(1, 3), rng.choice(['EIO', 'EACCES', 'EMFILE']), 0, rng.choice([1, -1])])
    return e

def apply_env(plan, env):
    p = copy.deepcopy(plan)
    for k, v in env.items():
        if k in ('nodes', 'faults', 'env'): p[k] = list(p.get(k, [])) + copy.deepcopy(v)
        else: p[k] = v
    return p

def gshrink(sc, keep=(), mins=None, path=''):
    """Generic structural shrinker over a JSON scenario."""
    mins = mins or {}
    def rec(x, name):
        if name in keep: return
        if isinstance(x, dict):
            for k in sorted(x):
                for y in rec(x[k], k):
                    z = dict(x); z[k] = y; yield z
        elif isinstance(x, list) and x and not isinstance(x[0], (int,)) and name not in keep:
            n = len(x)
            if n > 3:
                yield x[:n // 2]; yield x[n // 2:]
            for i in range(n):
                yield x[:i] + x[i + 1:]
            for i in range(n):
                if isinstance(x[i], (dict,)):
                    for y in rec(x[i], name + '[]'): yield x[:i] + [y] + x[i + 1:]
        elif isinstance(x, bool):
            if x: yield False
        elif isinstance(x, int):
            lo = mins.get(name, 0)
            for c in sorted(set([lo, (x + lo) // 2, x - 1])):
                if lo <= c < x: yield c
    yield from rec(sc, '')

STD = [0.001, 0.01, 1000, 211]                                   # -a with scaled-down standard sample counts
STDF = [0.001, 0.01, 1000, 211, 7, 4, 206, 0, 10, 12]            # the same without the slow tests

M64 = (1 << 64) - 1
def smx(seed, i):
    z = (seed + (i + 1) * 0x9e3779b97f4a7c15) & M64
    z = ((z ^ (z >> 30)) * 0xbf58476d1ce4e5b9) & M64; z = ((z ^ (z >> 27)) * 0x94d049bb133111eb) & M64; return z ^ (z >> 31)
SPECIAL = [0, 1, 0xffffffff, 0x80000000, 0x7fffffff, 10, 0x0a0d0a23, 0x000000ff]
def sword(spec, i):
    """Word i of an s:/e:/n:/p: stream, as the simulator computes it."""
    f = spec.split(':'); k = f[0]
    if k == 's': return smx(int(f[1]), i) >> 32
    if k == 'e': z = smx(int(f[1]), i); return SPECIAL[(z >> 3) & 7] if z & 7 == 0 else z >> 32
    if k == 'n': return (int(f[1]) + int(f[2]) * i) & 0xffffffff
    if k == 'p': return smx(int(f[1]), i % int(f[2])) >> 32
    if k == 'c': return int(f[1])
    raise ValueError(spec)
