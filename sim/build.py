#!/usr/bin/env python3
"""Build dhsim from /repo's current working tree.

Every .c file named in the two SOURCES lists of /repo's Makefile.am files is
compiled unmodified; references (never definitions) to the libc/GSL entry
points of SEAMS are then redirected to the simulator with objcopy, `main`
becomes dh_main, and the result is linked with sim/dhsim.c + sim/simrepo.c.
"""
import os, re, subprocess, sys, hashlib, json, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('DH_REPO', '/repo')
OUT = os.environ.get('DH_BUILD', os.path.join(os.path.dirname(HERE), '.build'))

def _m(names, to=None):
    return {n: (to or 'sim_' + n) for n in names.split()}
SEAMS = {}
SEAMS.update(_m('fopen fopen64', 'sim_fopen'))
SEAMS.update(_m('freopen freopen64', 'sim_freopen'))
SEAMS.update(_m('open open64', 'sim_open'))
SEAMS.update(_m('openat openat64', 'sim_openat'))
SEAMS.update(_m('__open_2 __open64_2', 'sim_open_2'))
SEAMS.update(_m('creat creat64', 'sim_creat'))
SEAMS.update(_m('lseek lseek64', 'sim_lseek'))
SEAMS.update(_m('stat stat64 lstat lstat64', 'sim_stat'))
SEAMS.update(_m('fstat fstat64', 'sim_fstat'))
SEAMS.update(_m('fstatat fstatat64', 'sim_fstatat'))
SEAMS.update(_m('pread pread64', 'sim_pread'))
SEAMS.update(_m('truncate truncate64', 'sim_truncate'))
SEAMS.update(_m('ftruncate ftruncate64', 'sim_ftruncate'))
SEAMS.update(_m('mmap mmap64', 'sim_mmap'))
SEAMS.update(_m('tmpfile tmpfile64', 'sim_tmpfile'))
SEAMS['secure_getenv'] = 'sim_getenv'; SEAMS['__gethostname_chk'] = 'sim_gethostname'
SEAMS['__read_chk'] = 'sim_read_chk'
SEAMS['__assert_fail'] = 'sim_assert_fail'
SEAMS['__strdup'] = 'sim_strdup'
SEAMS['_exit'] = 'sim__exit'; SEAMS['_Exit'] = 'sim__exit'
SEAMS['fileno_unlocked'] = 'sim_fileno'
SEAMS.update(_m('fdopen fileno read write close access isatty fsync unlink remove rename mkdir system popen '
                'gettimeofday clock_gettime time clock sleep usleep nanosleep getrandom getentropy getpid getppid getuid geteuid gethostid gethostname uname getenv times getrusage '
                'malloc calloc realloc reallocarray free strdup strndup exit atexit '
                'gsl_rng_get gsl_rng_uniform gsl_rng_uniform_pos gsl_rng_uniform_int '
                'dieharder_rng_types dieharder_test_types'))
# I/O or environment entry points that would escape the simulation; recorded, not fatal.
ESCAPES = set('fork vfork execl execv execve execvp posix_spawn socket connect select poll epoll_wait dup dup2 pipe '
              'signal sigaction raise kill pthread_create pthread_mutex_lock opendir readdir scandir ioctl fcntl '
              'srand rand random srandom drand48 lrand48 arc4random writev readv dprintf fopencookie open_memstream '
              'setlocale sysconf mkstemp'.split())
CFLAGS = {
    'plain': ['-O2', '-g'],
    'asan': ['-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer', '-U_FORTIFY_SOURCE'],
}
LINK = {'plain': [], 'asan': ['-fsanitize=address']}

def sources(sub, var):
    txt = open(os.path.join(REPO, sub, 'Makefile.am')).read()
    txt = '\n'.join(l for l in txt.split('\n') if not l.lstrip().startswith('#'))
    m = re.search(r'^%s\s*=((?:.*\\\n)*.*)$' % var, txt, re.M)
    return [t for t in m.group(1).replace('\\\n', ' ').split() if t.endswith('.c')]

def version():
    t = open(os.path.join(REPO, 'configure.ac')).read()
    m = re.search(r'AC_INIT\(\[?[^,\]]*\]?\s*,\s*\[?([0-9][^,\])]*)', t)
    return m.group(1).strip() if m else '3.31.1'

def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError('%s\n%s' % (' '.join(cmd), r.stdout))
    return r.stdout

def tree_hash():
    h = hashlib.sha256()
    for root in ('libdieharder', 'dieharder', 'include'):
        for d, dn, fn in sorted(os.walk(os.path.join(REPO, root))):
            dn.sort()
            for f in sorted(fn):
                if f.endswith(('.c', '.h', '.am', '.in')):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, REPO).encode()); h.update(b'\0'); h.update(open(p, 'rb').read()); h.update(b'\0')
    h.update(open(os.path.join(REPO, 'configure.ac'), 'rb').read())
    for f in ('dhsim.c', 'simrepo.c', 'build.py'):
        h.update(open(os.path.join(HERE, f), 'rb').read())
    return h.hexdigest()[:20]

def build(variant='plain'):
    os.makedirs(OUT, exist_ok=True)
    lock = open(os.path.join(OUT, 'lock.' + variant), 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    th = tree_hash()
    top = os.path.join(OUT, variant)
    exe = os.path.join(top, 'dhsim'); meta = os.path.join(top, 'meta.json')
    try:
        if json.load(open(meta))['tree'] == th and os.path.exists(exe):
            return exe, json.load(open(meta))
    except Exception:
        pass
    shutil.rmtree(top, ignore_errors=True); os.makedirs(top)
    ver = version()
    open(os.path.join(top, 'config.h'), 'w').write('/* simulated config.h */\n#define VERSION_CONFIG 1\n')
    jobs = []
    for sub, var in (('dieharder', 'dieharder_SOURCES'), ('libdieharder', 'libdieharder_la_SOURCES')):
        for c in sources(sub, var):
            jobs.append((sub, c, os.path.join(top, sub + '-' + c.replace('/', '_')[:-2] + '.o')))
    def comp(j):
        sub, c, o = j
        inc = ['-I', os.path.join(REPO, sub), '-I', top, '-I', REPO, '-I', os.path.join(REPO, 'include')]
        run(['gcc', '-std=c99', '-w', '-fPIC'] + CFLAGS[variant] + ['-DHAVE_CONFIG_H', '-DVERSION=' + ver, '-DLITTLE_ENDIAN=1'] + inc +
            ['-c', os.path.join(REPO, sub, c), '-o', o])
        und, dfd = set(), set()
        for l in run(['nm', o]).splitlines():
            t = l.split()
            if len(t) == 2 and t[0] == 'U': und.add(t[1])
            elif len(t) == 3 and t[1] in 'TDBRVW': dfd.add(t[2])
        args = []
        for s in sorted(und):
            if s in SEAMS: args += ['--redefine-sym', '%s=%s' % (s, SEAMS[s])]
        if 'main' in dfd:  # rngav.c in the library has a (preempted) main of its own
            args += ['--redefine-sym', 'main=' + ('dh_main' if sub == 'dieharder' else 'unused_main_' + re.sub(r'\W', '_', c))]
        if args: run(['objcopy'] + args + [o])
        return und, dfd
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(comp, jobs))
    und = set().union(*[r[0] for r in res]); dfd = set().union(*[r[1] for r in res])
    def link(extra):
        hs = []
        for c in ('dhsim.c', 'simrepo.c'):
            o = os.path.join(top, 'H-' + c[:-2] + '.o')
            inc = ['-I', os.path.join(REPO, 'dieharder'), '-I', top, '-I', REPO, '-I', os.path.join(REPO, 'include'), '-I', os.path.join(REPO, 'libdieharder')] if c == 'simrepo.c' else []
            std = ['-std=gnu99' if c == 'simrepo.c' else '-std=gnu11']
            run(['gcc', '-w'] + std + CFLAGS[variant] + extra + ['-U_FORTIFY_SOURCE', '-D_FILE_OFFSET_BITS=64', '-DHAVE_CONFIG_H', '-DVERSION=' + ver, '-DLITTLE_ENDIAN=1'] + inc +
                ['-c', os.path.join(HERE, c), '-o', o]); hs.append(o)
        run(['gcc'] + LINK[variant] + ['-o', exe + '.tmp'] + hs + [j[2] for j in jobs] + ['-Wl,--allow-multiple-definition', '-lgsl', '-lgslcblas', '-lm'])
    degraded = ''
    for i, extra in enumerate((['-DSIMREPO_STATIC'], [], ['-DSIMREPO_MIN'])):
        try:
            link(extra); break
        except RuntimeError as e:
            degraded = str(e)[-2000:]
            if i == 2: raise
    os.rename(exe + '.tmp', exe)
    for j in jobs: os.unlink(j[2])
    m = {'tree': th, 'degraded': degraded, 'variant': variant, 'sources': len(jobs), 'seams': sorted(s for s in und - dfd if s in SEAMS),
         'escapes': sorted(s for s in und - dfd if s in ESCAPES)}
    json.dump(m, open(meta, 'w'))
    return exe, m

if __name__ == '__main__':
    for v in sys.argv[1:] or ['plain', 'asan']:
        e, m = build(v); print(e, m['sources'], 'sources; seams', m['seams'], 'escapes', m['escapes'])
