"""Client side of dhsim: plan -> result."""
import subprocess, os, re, threading

UNE = re.compile('%([0-9a-f]{2})')
SAFE = re.compile(rb'[^A-Za-z0-9_./:,=+~|-]')
def esc(s):
    if isinstance(s, str): s = s.encode('latin-1')
    return SAFE.sub(lambda m: b'%%%02x' % m.group(0)[0], s).decode()

def plan_text(p):
    """A plan is a dict; this is its one and only serialisation."""
    L = []
    L.append('mode ' + p.get('mode', 'cli'))
    for n in p.get('nodes', []):            # [path, kind, spec, flags?]
        L.append('node ' + ' '.join(esc(x) for x in n))
    if 'stdin' in p:
        L.append('node stdin %s %s' % (p.get('stdin_kind', 'p'), esc(p['stdin'])))
    for a in p.get('argv', []):
        L.append('arg ' + esc(a))
    for o in p.get('ops', []):
        L.append('op ' + ' '.join(esc(str(x)) for x in o))
    for c in p.get('chunk', []):            # [res, max, seed]
        L.append('chunk %s %d %d' % (esc(c[0]), c[1], c[2]))
    for c in p.get('latency', []):          # [res, max_us, seed]
        L.append('latency %s %d %d' % (esc(c[0]), c[1], c[2]))
    for f in p.get('faults', []):           # [res, op, nth, effect, arg, count]
        f = list(f) + [0, 1][len(f) - 4:] if len(f) < 6 else f
        L.append('fault %s %s %d %s %d %d' % (esc(f[0]), f[1], f[2], f[3], f[4], f[5]))
    if 'clock' in p: L.append('clock ' + ' '.join(str(x) for x in p['clock']))
    for k in ('junk', 'pid', 'shift', 'fdlimit', 'disk', 'steps', 'draws', 'cpu', 'log'):
        if k in p: L.append('%s %d' % (k, p[k]))
    if p.get('stdoutdisk'): L.append('stdoutdisk')
    if 'sigpipe' in p: L.append('sigpipe ' + p['sigpipe'])
    if 'std' in p: L.append('std ' + ' '.join(str(x) for x in p['std']))
    if 'script' in p: L.append('script ' + esc(p['script']) + (' rewind' if p.get('script_rewind') else '') + (' w=%d' % p['script_w'] if 'script_w' in p else '') + (' ' + p['script_pack'] if p.get('script_pack') else ''))
    if 'anyenv' in p: L.append('anyenv ' + esc(p['anyenv']))
    for e in p.get('env', []): L.append('env ' + esc(e))
    return ('\n'.join(L) + '\n').encode()

class Result:
    __slots__ = ('kind', 'code', 'why', 'out', 'err', 'note', 'log', 'nodes', 'fired', 'h', 'blobs', 'plan')
    def __getattr__(self, k):
        try: return self.h[k]
        except KeyError: raise AttributeError(k)
    @property
    def outs(self): return self.out.decode('latin-1')
    @property
    def errs(self): return self.err.decode('latin-1')
    def end(self):
        return '%s:%s%s' % (self.kind, self.code, (':' + self.why) if self.why and self.kind != 'exit' else '')

class Sim:
    """One simulator server process (one run at a time)."""
    def __init__(self, exe):
        self.exe = exe; self.p = None; self.runs = 0; self.stats = None
    def start(self):
        env = {'PATH': '/usr/bin:/bin', 'LANG': 'C', 'LC_ALL': 'C'}
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd='/')
    def stop(self):
        if self.p:
            try: self.p.stdin.close()
            except Exception: pass
            try: self.p.wait(2)
            except Exception: self.p.kill(); self.p.wait()
            self.p = None
    def run(self, plan):
        if self.p is None: self.start()
        t = plan_text(plan)
        self.p.stdin.write(b'%d\n' % len(t) + t); self.p.stdin.flush()
        ln = self.p.stdout.readline()
        if not ln: raise RuntimeError('dhsim server died')
        n = int(ln); data = self.p.stdout.read(n)
        if len(data) != n: raise RuntimeError('short reply')
        r = parse(data); r.plan = plan; self.runs += 1
        if self.stats is not None: self.stats(plan, r)
        return r

def parse(data):
    i = data.index(b'\n\n'); head = data[:i].decode('latin-1'); off = i + 2
    r = Result(); h = {}; r.nodes = {}; r.fired = []; order = []
    for l in head.split('\n'):
        k, _, v = l.partition('=')
        if k == 'node':
            f = v.split(' '); d = {'kind': f[1]}
            for x in f[2:]:
                a, _, b = x.partition('='); d[a] = b if a == 'hash' else int(b)
            f[0] = UNE.sub(lambda m: chr(int(m.group(1), 16)), f[0]); r.nodes[f[0]] = d; order.append(f[0])
        elif k == 'fault': r.fired.append(int(v.split()[1]))
        elif k in ('kind', 'why', 'trace', 'outhash'): h[k] = v
        else: h[k] = int(v)
    r.h = h; r.kind = h['kind']; r.code = h['code']; r.why = h['why']
    r.out = data[off:off + h['outlen']]; off += h['outlen']
    r.err = data[off:off + h['errlen']]; off += h['errlen']
    r.note = data[off:off + h['notelen']].decode('latin-1').split('\n')[:-1]; off += h['notelen']
    r.log = data[off:off + h['loglen']].decode('latin-1').split('\n')[:-1]; off += h['loglen']
    r.blobs = {}
    for p in order:
        d = r.nodes[p]
        if d['mod'] and d['kind'] == 'r':
            r.blobs[p] = data[off:off + d['blob']]; off += d['blob']
    return r
