"""Shared machinery: build mairix from /repo's working tree, run it through a
fork server, enumerate in parallel, report evidence and violations."""
import hashlib, json, os, shutil, signal, struct, subprocess, sys, tempfile, time, traceback
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MX_REPO', '/repo')
LIB = os.path.join(VERIF, 'lib')
CACHE = os.path.join(VERIF, '.build')
NCPU = max(1, min(8, os.cpu_count() or 1))

GENERATED = {'datescan.c', 'datescan.h', 'fromcheck.c', 'fromcheck.h', 'nvpscan.c', 'nvpscan.h',
             'version.h', 'Makefile', 'config.log', 'mairix', 'docheck.c'}
GENERATED_DFA = {'parse.c', 'parse.h', 'scan.c', 'dfasyn', 'parse.output'}


class CheckError(Exception):
    pass


# ------------------------------------------------------------------ build

def _sources():
    out = []
    for sub in ('', 'dfasyn'):
        d = os.path.join(REPO, sub)
        for n in sorted(os.listdir(d)):
            p = os.path.join(d, n)
            if not os.path.isfile(p) or n.endswith('.o') or n.endswith('.report'):
                continue
            if sub == '' and n in GENERATED:
                continue
            if sub == 'dfasyn' and n in GENERATED_DFA:
                continue
            if sub == 'dfasyn' or n.endswith(('.c', '.h', '.nfa', '.in', '.l', '.y')) or \
                    n in ('configure', 'mkversion', 'version.txt'):
                out.append(os.path.join(sub, n))
    return out


VARIANTS = {
    'plain': ['-O1', '-g0'],
    'asan': ['-O1', '-g0', '-fsanitize=address', '-fno-omit-frame-pointer', '-DASAN_VARIANT',
             '-Dmmap=mx_mmap', '-Dmunmap=mx_munmap'],
}


def build(variants=('plain',), want_binary=True):
    """Build /repo's working tree outside /repo.  Returns dict name -> path."""
    srcs = _sources()
    h = hashlib.sha256()
    for s in srcs:
        h.update(s.encode() + b'\0')
        with open(os.path.join(REPO, s), 'rb') as f:
            h.update(f.read())
    for s in ('driver.c', 'mx.py', 'mxtrace.c', 'fakeimap.c', 'mallocfail.c', 'mailop.c'):
        p = os.path.join(LIB, s)
        if os.path.exists(p):
            with open(p, 'rb') as f:
                h.update(f.read())
    key = h.hexdigest()[:20]
    os.makedirs(CACHE, exist_ok=True)
    d = os.path.join(CACHE, key)
    lock = os.path.join(CACHE, key + '.lock')
    import fcntl
    with open(lock, 'w') as lf:
        fcntl.flock(lf, fcntl.LOCK_EX)
        env = {k: v for k, v in os.environ.items()
               if k not in ('CFLAGS', 'CPPFLAGS', 'LDFLAGS', 'MAKEFLAGS', 'MAKEFILES', 'MFLAGS')}
        env.update(LC_ALL='C', TZ='UTC', CC='gcc')

        def sh(cmd, cwd):
            p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                raise CheckError('build step failed: %s\n%s' % (cmd, p.stdout.decode('latin1')[-3000:]))
            return p.stdout.decode('latin1')

        if not os.path.exists(os.path.join(d, 'ok')):
            shutil.rmtree(d, ignore_errors=True)
            # prune old builds
            olds = sorted((os.path.getmtime(os.path.join(CACHE, x)), x) for x in os.listdir(CACHE)
                          if os.path.isdir(os.path.join(CACHE, x)))
            for _, x in olds[:-3]:
                shutil.rmtree(os.path.join(CACHE, x), ignore_errors=True)
            src = os.path.join(d, 'src')
            os.makedirs(os.path.join(src, 'dfasyn'))
            for s in srcs:
                shutil.copy2(os.path.join(REPO, s), os.path.join(src, s))
            sh(['sh', './configure'], src)
            sh(['make', 'datescan.c', 'datescan.h', 'fromcheck.c', 'fromcheck.h', 'nvpscan.c', 'nvpscan.h',
                'version.h'], src)
            sh(['make', '-j8', 'mairix'], src)
            open(os.path.join(d, 'ok'), 'w').close()
        src = os.path.join(d, 'src')
        out = {'binary': os.path.join(src, 'mairix'), 'src': src}
        mk = {}
        for line in open(os.path.join(src, 'Makefile')):
            if '=' in line and line.split('=')[0].strip() in ('CFLAGS', 'CPPFLAGS', 'LDFLAGS', 'LIBS', 'CC'):
                k, v = line.split('=', 1)
                mk[k.strip()] = v.split()
        objs = sorted(n[:-2] for n in os.listdir(src) if n.endswith('.o'))
        for v in variants:
            exe = os.path.join(d, 'driver-' + v)
            if not os.path.exists(exe):
                od = os.path.join(d, 'obj-' + v)
                shutil.rmtree(od, ignore_errors=True)
                os.makedirs(od)
                base = [f for f in mk.get('CFLAGS', []) if not f.startswith('-O')] + mk.get('CPPFLAGS', [])
                flags = base + ['-w'] + VARIANTS[v]
                jobs = []
                for o in objs:
                    jobs.append(['gcc', '-c'] + flags + ['-Dmain=mairix_main', '-o',
                                                          os.path.join(od, o + '.o'), o + '.c'])
                jobs.append(['gcc', '-c'] + flags + ['-o', os.path.join(od, '_driver.o'),
                                                      os.path.join(LIB, 'driver.c')])
                run_parallel_cmds(jobs, src, env)
                sh(['gcc'] + VARIANTS[v] + ['-o', exe + '.tmp'] +
                   [os.path.join(od, x) for x in sorted(os.listdir(od))] + mk.get('LDFLAGS', []) + mk.get('LIBS', []),
                   src)
                os.rename(exe + '.tmp', exe)
            out[v] = exe
        tr = os.path.join(LIB, 'mxtrace.c')
        if os.path.exists(tr):
            exe = os.path.join(d, 'mxtrace')
            if not os.path.exists(exe):
                sh(['gcc', '-O2', '-w', '-o', exe, tr], d)
            out['mxtrace'] = exe
        so = os.path.join(d, 'mallocfail.so')
        if not os.path.exists(so):
            sh(['gcc', '-O2', '-w', '-shared', '-fPIC', '-o', so + '.tmp', os.path.join(LIB, 'mallocfail.c')], d)
            os.rename(so + '.tmp', so)
        out['mallocfail'] = so
        fi = os.path.join(LIB, 'fakeimap.c')
        exe = os.path.join(d, 'fakeimap')
        if not os.path.exists(exe):
            sh(['gcc', '-O2', '-w', '-o', exe + '.tmp', fi], d)
            os.rename(exe + '.tmp', exe)
        out['fakeimap'] = exe
        exe = os.path.join(d, 'mailop')
        if not os.path.exists(exe):
            sh(['gcc', '-O2', '-w', '-o', exe + '.tmp', os.path.join(LIB, 'mailop.c')], d)
            os.rename(exe + '.tmp', exe)
        out['mailop'] = exe
        return out


def run_parallel_cmds(jobs, cwd, env):
    running = []
    jobs = list(jobs)

    def reap(p, c):
        o, _ = p.communicate()
        if p.returncode:
            raise CheckError('compile failed: %s\n%s' % (c, o.decode('latin1')[-3000:]))
    while jobs or running:
        while jobs and len(running) < NCPU:
            c = jobs.pop(0)
            running.append((subprocess.Popen(c, cwd=cwd, env=env, stdout=subprocess.PIPE,
                                             stderr=subprocess.STDOUT), c))
        p, c = running.pop(0)
        reap(p, c)


# ------------------------------------------------------------------ runs

class Result:
    __slots__ = ('status', 'timed_out', 'out', 'err')

    def __init__(self, status, timed_out, out, err):
        self.status, self.timed_out, self.out, self.err = status, timed_out, out, err

    @property
    def code(self):
        """exit code, or -signal, or None for a timeout"""
        if self.timed_out:
            return None
        if os.WIFSIGNALED(self.status):
            return -os.WTERMSIG(self.status)
        return os.WEXITSTATUS(self.status)

    @property
    def lines(self):
        return self.out.decode('latin1').splitlines()

    def __repr__(self):
        return 'Result(code=%r, out=%r, err=%r)' % (self.code, self.out[-400:], self.err[-800:])


class Driver:
    def __init__(self, exe):
        self.exe = exe
        self.p = None
        self.runs = 0

    def _start(self):
        env = {'PATH': '/usr/bin:/bin', 'HOME': '/nonexistent', 'TZ': 'UTC', 'LC_ALL': 'C'}
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=env, bufsize=0)

    def _read(self, n):
        b = b''
        while len(b) < n:
            c = self.p.stdout.read(n - len(b))
            if not c:
                raise CheckError('driver died')
            b += c
        return b

    def run(self, args, cwd='', timeout=20.0, now=None, env=(), mem=0):
        if self.p is None:
            self._start()
        f = [cwd, str(int(timeout * 1000)), '-' if now is None else str(now), str(mem), str(len(env))]
        f += list(env) + ['mairix'] + list(args)
        b = b''.join((x if isinstance(x, bytes) else os.fsencode(x)) + b'\0' for x in f)
        b = struct.pack('<I', len(b)) + b
        mv = memoryview(b)
        while mv:
            n = self.p.stdin.write(mv)
            mv = mv[n:]
        st, to, ol, el = struct.unpack('<IIII', self._read(16))
        out = self._read(ol)
        err = self._read(el)
        self.runs += 1
        return Result(st, bool(to), out, err)

    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()
            self.p = None


# ------------------------------------------------------------------ scratch

_scratch = []
_root = None


def scratch(prefix='mxv-'):
    global _root
    if _root is not None:
        d = tempfile.mkdtemp(prefix='d', dir=_root[1])
        _scratch.append((os.getpid(), d))
        return d
    base = '/dev/shm'
    try:
        st = os.statvfs(base)
        if st.f_bavail * st.f_frsize < (2 << 30) or not os.access(base, os.W_OK):
            raise OSError
    except OSError:
        base = tempfile.gettempdir()
    d = tempfile.mkdtemp(prefix=prefix, dir=base)
    _root = (os.getpid(), d)
    return scratch()


def cleanup():
    for pid, d in _scratch:
        if pid == os.getpid():
            shutil.rmtree(d, ignore_errors=True)
    _scratch[:] = [x for x in _scratch if x[0] != os.getpid()]


def cleanup_all():
    cleanup()
    if _root is not None and _root[0] == os.getpid():
        shutil.rmtree(_root[1], ignore_errors=True)


def write(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as f:
        f.write(data if isinstance(data, bytes) else data.encode('latin1'))


# ------------------------------------------------------------------ parallel enumeration

def _worker(func, items, ctr, q, idx, init):
    try:
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        ctx = init() if init else None
        while True:
            with ctr.get_lock():
                i = ctr.value
                ctr.value += 1
            if i >= len(items):
                break
            try:
                v = func(ctx, items[i])
            except (ValueError, KeyError, IndexError, AttributeError, TypeError, AssertionError, FileNotFoundError,
                    NotADirectoryError, IsADirectoryError, FileExistsError):
                q.put(('odd', i, traceback.format_exc()))
                break
            q.put(('r', i, v))
        if hasattr(ctx, 'close'):
            ctx.close()
        q.put(('done', idx, None))
    except BaseException:
        q.put(('err', idx, traceback.format_exc()))
    finally:
        cleanup()


def pmap(func, items, init=None, n=None, order='round'):
    """func(ctx, item) for every item, in NCPU forked workers; yields results (unordered)."""
    items = list(items)
    n = min(n or NCPU, max(1, len(items)))
    if n == 1:
        ctx = init() if init else None
        try:
            for it in items:
                yield func(ctx, it)
        finally:
            if hasattr(ctx, 'close'):
                ctx.close()
        return
    q = mp.Queue()
    ctr = mp.Value('i', 0)
    scratch()
    ps = []
    for w in range(n):
        p = mp.Process(target=_worker, args=(func, items, ctr, q, w, init), daemon=True)
        p.start()
        ps.append(p)
    alive = n
    import queue as _queue
    try:
        while alive:
            try:
                k, i, v = q.get(timeout=5)
            except _queue.Empty:
                dead = [p for p in ps if not p.is_alive() and p.exitcode not in (0, None)]
                if dead:
                    raise CheckError('worker died: %r' % [p.exitcode for p in dead])
                continue
            if k == 'r':
                yield v
            elif k == 'done':
                alive -= 1
            elif k == 'odd':
                raise Odd(v)
            else:
                raise CheckError('worker failed:\n' + v)
    finally:
        for p in ps:
            if p.is_alive():
                p.terminate()
        for p in ps:
            p.join(5)


# ------------------------------------------------------------------ check framework

class Enough(Exception):
    pass


class Odd(Exception):
    """The program answered something the harness cannot even parse (never on a tree that behaves)."""


class Check:
    """Collects coverage and violations of one property."""

    def __init__(self, pid, level, technique=''):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if len(sys.argv) > 1 and sys.argv[1] in ('quick', 'thorough'):
            self.tier = sys.argv[1]
        self.thorough = self.tier == 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.violations = []
        self.known_hit = {}
        self.known = self._load_known()

    def _load_known(self):
        p = os.path.join(VERIF, 'known_findings.json')
        if not os.path.exists(p):
            return []
        with open(p) as f:
            return [k for k in json.load(f).get('known', []) if k['property'] == self.pid]

    def add(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s, cap=6):
        if len(self.samples) < cap:
            self.samples.append(s)

    def violation(self, what, case, key=None):
        """what: one line; case: JSON-able replay; key: identity used for known findings"""
        for k in self.known:
            if key is not None and k['key'] == key:
                self.known_hit[k['key']] = k['what']
                return
        self.violations.append((what, case))
        if len(self.violations) >= 60:
            raise Enough()

    def elapsed(self):
        return time.time() - self.t0

    def finish(self):
        cov = dict(self.cov)
        cov['samples'] = self.samples
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 3), 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=repr)
            f.write('\n')
        for k, w in sorted(self.known_hit.items()):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, w))
        print('%s [%s] %s in %.1fs' % (self.pid, self.tier,
              ' '.join('%s=%s' % (k, v) for k, v in cov.items() if isinstance(v, (int, bool))), ev['wall_s']))
        cleanup_all()
        if self.violations:
            rd = os.path.join(VERIF, 'replays')
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, '%s.json' % self.pid)
            with open(path, 'w') as f:
                json.dump([{'property': self.pid, 'what': w, 'case': c} for w, c in self.violations[:20]], f,
                          indent=1, default=repr)
            for w, c in self.violations[:8]:
                print('  ' + w.replace('\n', '\\n')[:600])
            if len(self.violations) > 8:
                print('  ... %d violations in all' % len(self.violations))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            sys.stdout.flush()
            sys.exit(1)
        sys.stdout.flush()
        sys.exit(0)


def main(fn, pid, level):
    ck = Check(pid, level)
    try:
        fn(ck)
    except SystemExit:
        raise
    except Enough:
        ck.cov['stopped_early'] = True
    except Odd as e:
        ck.violations.append(('the program gave an answer that cannot be interpreted: ' + str(e)[-500:], {}))
    except BaseException:
        traceback.print_exc()
        cleanup_all()
        print('CHECK-ERROR property=%s' % pid)
        sys.stdout.flush()
        sys.exit(2)
    ck.finish()
