"""Building and driving the implementation, running TLC, reporting."""
import json, os, re, select, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
SPEC = os.path.join(VERIF, 'spec')
RES = REPO + '/packages/optivorbis/resources/test'
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CORES = os.cpu_count() or 4


class ToolError(Exception):
    pass


class Unreadable(ToolError):
    """TLC could not evaluate the specification on what was recorded"""


def cargo_env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
    for k in ('RUSTFLAGS', 'CARGO_BUILD_RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'SOURCE_DATE_EPOCH'):
        e.pop(k, None)
    return e


def sh(cmd, cwd=None, env=None, timeout=800):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode:
        raise ToolError('%s failed:\n%s' % (' '.join(cmd), r.stdout.decode(errors='replace')[-4000:]))
    return r.stdout.decode(errors='replace')


_built = {}


def harness(profile):
    """profile: dbg (developer build: strict), rel (release build: lenient), or bare (release build without default features)"""
    if profile not in _built:
        t = BUILD + ('/harness_bare' if profile == 'bare' else '/harness')
        cmd = ['cargo', 'build', '--offline', '--quiet'] + (['--release'] if profile != 'dbg' else []) + (['--no-default-features'] if profile == 'bare' else [])
        e = cargo_env()
        e['CARGO_TARGET_DIR'] = t
        sh(cmd, cwd=VERIF + '/harness', env=e)
        _built[profile] = t + ('/debug' if profile == 'dbg' else '/release') + '/ovharness'
    return _built[profile]


def harness_ns():
    """the harness of vorbis_bitpack without std"""
    if 'ns' not in _built:
        e = cargo_env()
        e['CARGO_TARGET_DIR'] = BUILD + '/harness_ns'
        sh(['cargo', 'build', '--offline', '--quiet'], cwd=VERIF + '/harness_ns', env=e)
        _built['ns'] = BUILD + '/harness_ns/debug/ovharness_ns'
    return _built['ns']


def harness_js():
    """the harness of the JavaScript binding, compiled for this machine"""
    if 'js' not in _built:
        e = cargo_env()
        e['CARGO_TARGET_DIR'] = BUILD + '/harness_js'
        sh(['cargo', 'build', '--offline', '--quiet'], cwd=VERIF + '/harness_js', env=e)
        _built['js'] = BUILD + '/harness_js/debug/ovharness_js'
    return _built['js']


class Proc:
    def __init__(self, exe, env=None):
        self.exe, self.env = exe, env
        self.start()

    def start(self):
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                  env=self.env, bufsize=0)
        self.buf = b''

    def ask(self, line, timeout):
        """one request; a crash or a hang is an answer too"""
        def dead(why):
            self.p.kill()
            rc = self.p.wait()
            self.err.seek(0)
            msg = self.err.read()[-300:].decode(errors='replace')
            self.start()
            return {'crash': why, 'rc': rc, 'msg': msg}
        try:
            threading.Thread(target=self._send, args=(self.p, line.encode() + b'\n'), daemon=True).start() \
                if len(line) > 60000 else self._send(self.p, line.encode() + b'\n')
            end = time.time() + timeout
            while b'\n' not in self.buf:
                left = end - time.time()
                if left <= 0:
                    return dead('hang')
                if select.select([self.p.stdout], [], [], left)[0]:
                    d = os.read(self.p.stdout.fileno(), 1 << 20)
                    if not d:
                        return dead('crash')
                    self.buf += d
            ans, self.buf = self.buf.split(b'\n', 1)
            return json.loads(ans)
        except (BrokenPipeError, OSError):
            return dead('crash')

    @staticmethod
    def _send(p, b):
        try:
            i = 0
            while i < len(b):
                i += p.stdin.write(b[i:i + (1 << 16)])
        except (BrokenPipeError, OSError, ValueError):
            pass

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()
            self.p.wait()
        self.p.stdout.close()
        self.err.close()


def ask_all(exe, requests, env=None, timeout=30, jobs=CORES):
    """requests: command strings (without id); answers in order"""
    out = [None] * len(requests)
    nxt = iter(range(len(requests)))
    lock = threading.Lock()
    fails = []

    def work():
        try:
            p = Proc(exe, env)
            while True:
                with lock:
                    i = next(nxt, None)
                if i is None:
                    break
                out[i] = p.ask('%d %s' % (i, requests[i]), timeout)
            p.close()
        except Exception as e:  # a defect of the machinery
            fails.append(repr(e))
    ts = [threading.Thread(target=work) for _ in range(min(jobs, max(1, len(requests))))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if fails:
        raise ToolError('harness driver: ' + fails[0])
    return out


def ask_groups(exe, how, groups, timeout=60):
    """groups of commands that one process runs together: their calls take turns ("mix"), or in threads ("par")"""
    out = []
    for g, a in zip(groups, ask_all(exe, [how + ''.join('\x1e' + r for r in g) for g in groups], timeout=timeout)):
        out.append(a['all'] if 'all' in a else [a] * len(g))
    return out


def ask_fresh(exe, requests, timeout=30):
    """requests: (command, environment to add); every one in a process of its own"""
    from concurrent.futures import ThreadPoolExecutor

    def one(r):
        e = dict(os.environ)
        e.pop('SOURCE_DATE_EPOCH', None)
        e.update(r[1])
        p = Proc(exe, e)
        a = p.ask('0 ' + r[0], timeout)
        p.close()
        return a
    with ThreadPoolExecutor(CORES) as ex:
        return list(ex.map(one, requests))


# ---------------------------------------------------------------- TLC
def tlc(module, cfg, env=None, workers=CORES, timeout=800, heap='8g', extra=(), name=None):
    """Runs TLC. Returns dict(ok, violated, deadlock, states, distinct, out, prints)"""
    d = tempfile.mkdtemp(prefix='tlc', dir=_scratch())
    c = os.path.join(d, 'M.cfg')
    open(c, 'w').write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-cp', JAR, 'tlc2.TLC', '-workers', str(workers),
           '-metadir', d + '/states', '-noGenerateSpecTE', '-config', c, *extra, module]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError('TLC on %s ran out of time' % module)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    out = r.stdout.decode(errors='replace')
    res = dict(out=out, violated=None, deadlock=False, states=0, distinct=0, rc=r.returncode)
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    if m:
        for m in re.finditer(r'(\d+) states generated, (\d+) distinct states found', out):
            pass
        res['states'], res['distinct'] = int(m.group(1)), int(m.group(2))
    m = re.search(r'(?:Invariant|Action property|Temporal properties|property) (\w+) (?:is|was) violated', out)
    if m:
        res['violated'] = m.group(1)
    elif 'Deadlock reached' in out:
        res['deadlock'] = True
    elif r.returncode != 0 or 'Model checking completed. No error' not in out:
        kind = Unreadable if 'The behavior up to this point' in out and not re.search('OutOfMemory|StackOverflow|heap space', out) else ToolError
        raise kind('TLC on %s failed (rc %d):\n%s' % (module, r.returncode, _tail(out)))
    return res


def tlc_cases(module, cfg, n, props, f, lo=1, **kw):
    """TLC over the cases of a file -> its result. Where a recorded answer has a shape that the specification cannot
    even be evaluated on (it has no such answers), the case is found by halving, and counts as a violation."""
    kw = dict(dict(timeout=3000, heap='12g'), **kw)
    try:
        r = tlc(module, cfg % (lo, n, props), env={'CASES': f}, **kw)
        r['unreadable'] = None
        return r
    except Unreadable as e:
        if lo == n:
            return dict(out='', violated='Readable', deadlock=False, states=0, distinct=0, unreadable=lo - 1,
                        why='an answer that is none of the specification: ' + ' '.join(str(e).split())[:400])
        mid = (lo + n) // 2
        r = tlc_cases(module, cfg, mid, props, f, lo, **kw)
        if r['violated'] or r['deadlock']:
            return r
        return tlc_cases(module, cfg, n, props, f, mid + 1, **kw)


def enumerated(module, cfg):
    """the behaviours of a machine that emits its states, all of them, as values"""
    r = tlc(module, cfg, heap='8g')
    out = sorted({m.group(1) for m in re.finditer(r'<<"SRC", "(.*)">>', r['out'])})
    if r['violated'] or r['deadlock'] or len(out) != r['distinct']:
        raise ToolError('%s: %d of %d states, %s' % (module, len(out), r['distinct'], r['violated']))
    return [json.loads(json.loads('"%s"' % x)) for x in out]


def _tail(out):
    i = out.find('Error:')
    return out[i:i + 3000] if i >= 0 else out[-3000:]


_sc = []


def _scratch():
    if not _sc:
        os.makedirs(BUILD, exist_ok=True)
        _sc.append(tempfile.mkdtemp(prefix='run', dir=BUILD))
    return _sc[0]


scratch = _scratch


def cleanup():
    for d in _sc:
        shutil.rmtree(d, ignore_errors=True)
    _sc.clear()


def cut(s, n):
    return s if len(s) <= n else s[:n] + '... (%d characters)' % len(s)
