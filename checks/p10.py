"""P10: the lock excludes concurrent runs and is always released.
The real program, several processes at a time, under lib/mxtrace.c: all schedules of their system calls on the database
directory and the match folder up to a preemption bound; signals and failing calls at every event of a run; foreign
locks; error exits; memory limits."""
import hashlib, os, shutil, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import mx, corpus
from corpus import msg

FL = corpus.FROMLINE
SIGS = {'HUP': 1, 'INT': 2, 'QUIT': 3, 'TERM': 15}


def m(i):
    return msg(subject='m%d common' % i, frm='a%d@x.yy' % i, mid='<m%d@q>' % i, body='body%d words\n' % i,
               date='Mon, %d Jan 2001 10:00:00 +0000' % (i + 1))


KINDS = {
    'index': ['--force-hash-key-new-database', '17'],
    'purge': ['--force-hash-key-new-database', '17', '-p'],
    'search': ['s:common'],
    'augment': ['-a', 's:m0'],
    'raw': ['-r', 's:common'],
    'excerpt': ['-x', 's:m0'],
    'dump': ['-d'],
    'mbox': ['-o', 'mf/box', 's:common'],
    'mh': ['-o', 'mf/mh', 's:common'],
    'first': ['--force-hash-key-new-database', '17'],       # no database yet
    'find': ['s:common'],                                   # to run next to 'first'
}


class W:
    def __init__(self, tools):
        self.t = tools
        self.d = mx.scratch()
        self.drv = mx.Driver(tools['plain'])
        self.runs = 0
        d = self.d
        corpus.mkmaildir(d + '/mail/md')
        for i in (0, 1):
            mx.write(d + '/mail/md/new/f%d' % i, m(i))
            os.utime(d + '/mail/md/new/f%d' % i, (10 ** 9, 10 ** 9))
        mx.write(d + '/mail/box', FL + m(3) + b'\n')
        os.utime(d + '/mail/box', (10 ** 9, 10 ** 9))
        self.rc = corpus.write_rc(d, maildir='mail/md', mbox='mail/box', mfolder='mf/vf', db=d + '/dbd/db')
        for n, fm in (('mbox', 'mbox'), ('mh', 'mh')):
            corpus.write_rc(d, maildir='mail/md', mbox='mail/box', mfolder='mf/' + n, db=d + '/dbd/db', mformat=fm,
                            name='rc' + n)
        os.mkdir(d + '/dbd')
        r = self.drv.run(['-f', self.rc, '--force-hash-key-new-database', '17'])
        if r.code != 0:
            raise AssertionError('reference run failed %r' % r)
        self.old = open(d + '/dbd/db', 'rb').read()
        # one new message and one that is gone
        mx.write(d + '/mail/md/new/f4', m(4))
        os.unlink(d + '/mail/md/new/f1')
        self.new = {}
        for k in ('index', 'purge'):
            mx.write(d + '/dbd/db', self.old)
            self.drv.run(['-f', self.rc] + KINDS[k])
            self.new[k] = open(d + '/dbd/db', 'rb').read()
        os.unlink(d + '/dbd/db')
        self.drv.run(['-f', self.rc] + KINDS['first'])
        self.new['first'] = open(d + '/dbd/db', 'rb').read()

    def start(self, kinds):
        """the database a set of runs starts from"""
        return None if 'first' in kinds else self.old

    def close(self):
        self.drv.close()
        shutil.rmtree(self.d, ignore_errors=True)

    def reset(self, db=True, lock=None, kinds=()):
        for x in ('dbd', 'mf'):
            shutil.rmtree(self.d + '/' + x, ignore_errors=True)
            os.mkdir(self.d + '/' + x)
        if db and self.start(kinds) is not None:
            mx.write(self.d + '/dbd/db', self.old)
        if lock is not None:
            mx.write(self.d + '/dbd/db.lock', lock)

    def argv(self, kind):
        rc = self.rc
        k = KINDS[kind]
        if kind in ('mbox', 'mh'):
            rc = self.d + '/rc' + kind
            k = k[2:]
        return [self.t['binary'], '-f', rc] + k

    def trace(self, kinds, *a, light=True, mail=False):
        self.runs += 1
        w = ['-w', self.d + '/dbd', '-w', self.d + '/mf'] + (['-w', self.d + '/mail'] if mail else [])
        cmd = [self.t['mxtrace']] + w + (['-L'] if light else []) + ['-o', self.d + '/o'] + list(a)
        for k in kinds:
            cmd += ['--'] + self.argv(k) if isinstance(k, str) else ['--'] + list(k)
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=self.d,
                           env={'PATH': '/usr/bin:/bin', 'HOME': '/nonexistent', 'TZ': 'UTC', 'LC_ALL': 'C'})
        ev, pts, status, z = [], [], {}, False
        for l in p.stdout.decode('latin1').splitlines():
            f = l.split(' ')
            if f[0] == 'E':
                ev.append((int(f[1]), f[3], int(f[4]), ' '.join(f[5:]).replace(self.d, '')))
            elif f[0] == 'C':
                pts.append((int(f[2]), int(f[3]), [int(x) for x in f[4:]]))
            elif f[0] == 'X':
                s = int(f[2])
                status[int(f[1])] = -os.WTERMSIG(s) if os.WIFSIGNALED(s) else os.WEXITSTATUS(s)
            elif f[0] == 'Z':
                z = True
            elif f[0] == 'D':
                raise mx.CheckError('schedule diverged: %s' % ' '.join(cmd))
        if p.returncode not in (0, 4) or (not z and len(status) != len(kinds)):
            raise mx.CheckError('mxtrace: %r %r' % (p.returncode, p.stderr[-300:]))
        return dict(ev=ev, pts=pts, status=status, hang=z)

    def left(self):
        return sorted(x for x in os.listdir(self.d + '/dbd') if x != 'db')

    def db(self):
        try:
            return open(self.d + '/dbd/db', 'rb').read()
        except FileNotFoundError:
            return None

    def err(self, i):
        return open(self.d + '/o.%d.err' % i, 'rb').read()[-200:]


def is_lock(p):
    return '/dbd/db.lock' in p


def guarded(name, p):
    """access to something the lock protects"""
    return any((x.startswith('/dbd/') and not is_lock(x)) or x.startswith('/mf/') for x in p.split(' '))


def owner_walk(ev):
    """ownership of db.lock as the events give it; returns a complaint or None"""
    own = None
    for p, name, ret, path in ev:
        ps = path.split(' ')
        tgt = ps[-1] == '/dbd/db.lock'
        if tgt and ret >= 0 and name in ('link', 'rename', 'symlink', 'openw', 'creat', 'mkdir'):
            if own is not None and own != p:
                return 'process %d takes the lock while process %d holds it' % (p, own)
            own = p
        elif tgt and ret >= 0 and name in ('unlink', 'rmdir') or (name == 'rename' and ps[0] == '/dbd/db.lock' and ret >= 0):
            if own is not None and own != p:
                return 'process %d removes the lock of process %d' % (p, own)
            own = None
    return None


def judge(w, kinds, t, killed=()):
    if t['hang']:
        return 'hangs'
    bad = owner_walk(t['ev'])
    if bad:
        return bad
    span, life = {}, {}
    for i, (p, name, ret, path) in enumerate(t['ev']):
        life.setdefault(p, [i, i])[1] = i
        if guarded(name, path):
            span.setdefault(p, [i, i])[1] = i
    ps = sorted(span)
    for a in ps:
        for b in ps:
            if a < b and not (span[a][1] < span[b][0] or span[b][1] < span[a][0]):
                return 'processes %d and %d are in the database or match folder at the same time' % (a, b)
    owned, made = {}, None
    for i, (p, name, ret, path) in enumerate(t['ev']):
        ps = path.split(' ')
        if ret >= 0 and name in ('link', 'rename', 'symlink', 'openw', 'creat') and ps[-1] == '/dbd/db.lock':
            owned[p] = i
        if ret >= 0 and ps[-1] == '/dbd/db' and name in ('rename', 'openw', 'creat', 'link') and made is None:
            made = i
    for p, code in t['status'].items():
        if p in killed:
            continue
        if code == 3 and kinds[p] == 'find' and p in owned and (made is None or owned[p] < made):
            continue        # there is no database before the first indexing run
        if p in span:
            if code != 0:
                return 'process %d got the lock but fails with %s (%r)' % (p, code, w.err(p))
        else:
            if code == 0:
                return 'process %d reports success without having touched the database' % p
            if code < 0:
                return 'process %d dies of signal %d' % (p, -code)
            if not any((q in span or kinds[q] == 'find' and q in owned) and q != p and p in life and q in life and life[q][0] <= life[p][1] and life[p][0] <= life[q][1]
                       for q in t['status']):
                return 'process %d gives up although no other one was running' % p
    if not span and not owned and not killed:
        return 'no process got the lock'
    left = [x for x in w.left()]
    if left:
        return 'left in the database directory: %s' % left
    # serialised outcome
    order = sorted((span[p][0], p) for p in span if p not in killed)
    want = [w.start(kinds)]
    for _, p in order:
        if kinds[p] in w.new:
            want = None
    data = w.db()
    if want and data not in want and not killed:
        return 'the database changed without an indexing run'
    if want is None and not killed:
        idx = [kinds[p] for _, p in order if kinds[p] in w.new]
        if len(idx) == 1 and data != w.new[idx[0]]:
            return 'the database is not what the indexing run alone writes'
        if len(idx) > 1 and data not in [w.new[x] for x in idx]:
            return 'the database is not what one of the indexing runs writes'
    return None


def sched_job(w, job):
    """run one schedule; children are computed by the caller"""
    kinds, sched, light = job
    w.reset(kinds=kinds)
    r0 = w.runs
    t = w.trace(kinds, *(['-s', ','.join(map(str, sched))] if sched else []), light=light)
    bad = judge(w, kinds, t)
    return dict(job=job, pts=t['pts'], bad=[] if not bad else [(
        '%s scheduled %s: %s' % (' + '.join(kinds), compress([c for c, _, _ in t['pts']]), bad),
        dict(kinds=kinds, schedule=[c for c, _, _ in t['pts']],
             events=[(e[0], e[1], e[2], e[3]) for e in t['ev']]))],
        outcome=(kinds, tuple(sorted(t['status'].items()))), runs=w.runs - r0, points=len(t['pts']))


def compress(c):
    out = []
    for x in c:
        if out and out[-1][0] == x:
            out[-1][1] += 1
        else:
            out.append([x, 1])
    return ' '.join('%dx%d' % (x, n) for x, n in out)


def npre(pts, upto):
    return sum(1 for c, cur, en in pts[:upto] if cur >= 0 and c != cur and cur in en)


def explore(ck, tools, groups):
    """level-synchronous stateless exploration of all schedules within the preemption bound"""
    frontier = [(tuple(k), (), light) for k, pb, light in groups]
    bound = {tuple(k): pb for k, pb, light in groups}
    outcomes = set()
    while frontier:
        nxt = []
        for o in mx.pmap(sched_job, frontier, init=lambda: W(tools)):
            kinds, sched, light = o['job']
            ck.add('states', o['points'])
            ck.add('transitions', 1)
            ck.add('traces_validated_against_impl', o['runs'])
            outcomes.add(o['outcome'])
            for w_, c in o['bad']:
                ck.violation(w_, c)
            pts = o['pts']
            for i in range(len(sched), len(pts)):
                c, cur, en = pts[i]
                base = npre(pts, i)
                for alt in en:
                    if alt == c:
                        continue
                    cost = 1 if cur >= 0 and cur in en and alt != cur else 0
                    if base + cost <= bound[kinds]:
                        nxt.append((kinds, tuple(x for x, _, _ in pts[:i]) + (alt,), light))
        frontier = nxt
    return outcomes


# ---------------------------------------------------------------- single runs with signals, faults, foreign locks

def single(w, job):
    mode, kind, k, n = job[:4]
    out = dict(bad=[], points=0, runs=0)
    r0 = w.runs

    def bad(what, why, **c):
        out['bad'].append(('%s: %s' % (what, why), dict(case=what, **c)))
    if mode == 'signal':
        w.reset(kinds=(kind,))
        ref = w.trace([kind], light=False, mail=True)
        for e in range(len(ref['ev'])):
            if e % n != k:
                continue
            for sn, sig in SIGS.items():
                for wh in 'BA':
                    w.reset(kinds=(kind,))
                    t = w.trace([kind], '-g', '0,%d,%d,%s' % (e, sig, wh), light=False, mail=True)
                    what = '%s interrupted by %s %s event %d (%s %s)' % (
                        kind, sn, 'before' if wh == 'B' else 'after', e, ref['ev'][e][1], ref['ev'][e][3])
                    out['points'] += 1
                    if t['hang']:
                        bad(what, 'hangs')
                    left = [x for x in w.left() if 'lock' in x]
                    if left:
                        bad(what, 'leaves %s (exit %s)' % (left, t['status'].get(0)))
                    if t['status'].get(0, 0) < 0 and t['status'][0] != -sig:
                        bad(what, 'dies of signal %d' % -t['status'][0])
                    if w.db() not in (w.start((kind,)), w.new.get(kind)):
                        bad(what, 'the database is damaged')
                    if len(out['bad']) > 3:
                        break
    elif mode == 'foreign':
        for content in (b'12345,host,user\n', b'', b'x', b'y' * 3000):
            w.reset(lock=content, kinds=(kind,))
            ino = os.stat(w.d + '/dbd/db.lock').st_ino
            ref = w.trace([kind], light=False, mail=True)
            for e, sn, wh in [(None, None, None)] + [(e, s, x) for e in range(len(ref['ev'])) for s in SIGS for x in 'BA']:
                w.reset(lock=content, kinds=(kind,))
                ino = os.stat(w.d + '/dbd/db.lock').st_ino
                t = w.trace([kind], *([] if e is None else ['-g', '0,%d,%d,%s' % (e, SIGS[sn], wh)]), light=False, mail=True)
                out['points'] += 1
                what = '%s, database locked by another run%s' % (
                    kind, '' if e is None else ', %s %s event %d (%s %s)' % (sn, 'before' if wh == 'B' else 'after', e,
                                                                           ref['ev'][e][1], ref['ev'][e][3]))
                if t['hang']:
                    bad(what, 'hangs')
                    continue
                try:
                    same = os.stat(w.d + '/dbd/db.lock').st_ino == ino and \
                        open(w.d + '/dbd/db.lock', 'rb').read() == content
                except OSError:
                    same = False
                if not same:
                    bad(what, "the other run's lock was removed or changed")
                if w.left() != ['db.lock']:
                    bad(what, 'left in the database directory: %s' % w.left())
                if t['status'].get(0) == 0:
                    bad(what, 'exits with success')
                if w.db() != w.start((kind,)) or os.listdir(w.d + '/mf'):
                    bad(what, 'database or match folder touched')
                acc = [x for x in t['ev'] if guarded(x[1], x[3]) and x[1] not in ('stat', 'lstat', 'access', 'readlink')]
                if acc:
                    bad(what, 'touches %s %s' % acc[0][1::2])
                if len(out['bad']) > 3:
                    break
        # and --unlock gets rid of it
        w.reset(lock=b'12345,host,user\n', kinds=(kind,))
        t = w.trace([w.argv(kind)[:3] + ['--unlock'] + w.argv(kind)[3:]])
        if t['status'].get(0) != 0 or w.left():
            bad('%s --unlock on a stale lock' % kind, 'exit %s, left %s' % (t['status'].get(0), w.left()))
    elif mode == 'fault':
        w.reset(kinds=(kind,))
        ref = w.trace([kind], light=False, mail=True)
        for e in range(len(ref['ev'])):
            if e % n != k:
                continue
            _, name, ret, path = ref['ev'][e]
            for err in (5, 12, 13, 28):
                w.reset(kinds=(kind,))
                t = w.trace([kind], '-e', '0,%d,%d' % (e, err), light=False, mail=True)
                out['points'] += 1
                what = '%s with error %d at event %d (%s %s)' % (kind, err, e, name, path)
                code = t['status'].get(0)
                if t['hang']:
                    bad(what, 'hangs')
                    continue
                if code < 0:
                    bad(what, 'dies of signal %d' % -code)
                left = [x for x in w.left() if 'lock' in x]
                if name in ('unlink', 'rename') and is_lock(path):
                    left = []
                if left:
                    bad(what, 'leaves %s (exit %s)' % (left, code))
                if len(out['bad']) > 3:
                    break
    elif mode == 'exits':
        rc = job[4]
        name, args, prep = rc
        w.reset(db=prep != 'nodb')
        if prep == 'dbdir':
            os.unlink(w.d + '/dbd/db')
            os.mkdir(w.d + '/dbd/db')
        if prep in ('magic', 'version', 'zero', 'short'):
            data = bytearray(w.old)
            if prep == 'magic':
                data[0] ^= 255
            elif prep == 'version':
                data[3] ^= 255
            elif prep == 'zero':
                data = b''
            elif prep == 'short':
                data = data[:3]
            mx.write(w.d + '/dbd/db', bytes(data))
        if prep == 'mffile':
            mx.write(w.d + '/mf/vf', b'x')
        if prep == 'mfdir':
            os.makedirs(w.d + '/mf/mbox')
        r = w.drv.run(['-f', w.rc] + args, timeout=20)
        w.runs += 1
        out['points'] += 1
        what = 'run %s (%s)' % (' '.join(args), name)
        if r.code is None or r.code < 0:
            bad(what, 'crashes or hangs: %r' % r)
        left = [x for x in w.left() if 'lock' in x]
        if left:
            bad(what, 'exit %s leaves %s' % (r.code, left))
        out['code'] = (name, r.code)
    elif mode == 'memory':
        for mb in range(k, 64, n):
            for kd in ('index', 'search', 'dump'):
                w.reset()
                big = w.d + '/mail/md/new/big'
                if not os.path.exists(big):
                    mx.write(big, msg(subject='big', body=' '.join('w%dq' % i for i in range(60000))))
                r = w.drv.run(['-f', w.rc] + KINDS[kd], mem=mb, timeout=20)
                w.runs += 1
                out['points'] += 1
                what = '%s with %d MB of memory' % (kd, mb)
                if r.code is None or r.code < 0 and r.code != -9:
                    # running out of stack or address space may kill; then nothing can be released
                    continue
                left = [x for x in w.left() if 'lock' in x]
                if left:
                    bad(what, 'exit %s leaves %s' % (r.code, left))
        if os.path.exists(w.d + '/mail/md/new/big'):
            os.unlink(w.d + '/mail/md/new/big')
    out['runs'] = w.runs - r0
    return out


EXITS = [
    ('no database', ['s:x'], 'nodb'), ('no database dump', ['-d'], 'nodb'), ('no match', ['s:nosuchword'], ''),
    ('match folder is mail', ['-o', 'mail/md', 's:common'], ''), ('match folder is mail', ['-o', 'mail/box', 's:common'], ''),
    ('too long approx', ['s:' + 'a' * 40 + '='], ''), ('bad errors', ['s:abc=9999999'], ''),
    ('bad date', ['d:rubbish'], ''), ('bad size', ['z:rubbish'], ''), ('bad flag', ['F:q'], ''), ('bad part', ['q:x'], ''),
    ('empty', [''], ''), ('path', ['p:/x'], ''), ('only tilde', ['~'], ''), ('only colon', [':'], ''),
    ('message id combined', ['ms:x'], ''), ('date combined', ['ds:x'], ''), ('size combined', ['zs:x'], ''),
    ('database is a directory', ['s:x'], 'dbdir'), ('database is a directory', ['-d'], 'dbdir'),
    ('database is a directory', [], 'dbdir'),
    ('wrong magic', ['s:x'], 'magic'), ('wrong magic', [], 'magic'), ('wrong magic', ['-d'], 'magic'),
    ('wrong version', ['s:x'], 'version'), ('wrong version', [], 'version'), ('wrong version', ['-d'], 'version'),
    ('empty database', ['s:x'], 'zero'), ('empty database', [], 'zero'), ('empty database', ['-d'], 'zero'),
    ('short database', ['s:x'], 'short'), ('short database', [], 'short'), ('short database', ['-d'], 'short'),
    ('match folder is a file', ['s:common'], 'mffile'), ('match folder elsewhere', ['-o', '/nonexistent/x/y', 's:common'], ''),
    ('version option', ['--version'], ''), ('help option', ['-h'], ''), ('unknown option', ['--nosuch'], ''),
]


def check(ck):
    tools = mx.build(('plain',))
    for k in ('states', 'transitions', 'traces_validated_against_impl'):
        ck.cov[k] = 0
    th = ck.thorough
    g = []
    pairs = [('index', 'index'), ('index', 'search'), ('search', 'search'), ('index', 'raw'), ('purge', 'dump'),
             ('raw', 'augment'), ('mbox', 'index'), ('mh', 'excerpt'), ('first', 'first'), ('first', 'find')]
    for a in pairs:
        g.append((a, 4 if th and a in pairs[:3] else 3, True))
    for tr in [('index', 'search', 'raw'), ('raw', 'raw', 'raw'), ('index', 'index', 'dump')]:
        g.append((tr, 3 if th else 2, True))
    if th:
        g += [(a, 2, False) for a in [('index', 'index'), ('index', 'search'), ('raw', 'dump'), ('search', 'augment')]]
    oc = explore(ck, tools, g)
    ck.cov['schedules'] = ck.cov['transitions']
    ck.cov['distinct_outcomes'] = len(oc)
    js = []
    for kd in [x for x in KINDS if x != 'find']:
        js += [('signal', kd, k, 4) for k in range(4)]
        js += [('fault', kd, k, 4) for k in range(4)]
        js += [('foreign', kd, 0, 1)]
    js += [('exits', '', 0, 1, e) for e in EXITS]
    js += [('memory', '', k, 8) for k in range(2, 10)]
    codes = set()
    for o in mx.pmap(single, js, init=lambda: W(tools)):
        ck.add('fault_points', o['points'])
        ck.add('traces_validated_against_impl', o['runs'])
        if 'code' in o:
            codes.add(o['code'])
        for w_, c in o['bad']:
            ck.violation(w_, c)
    ck.sample(str(sorted(codes)[:8]))
    for x in list(oc)[:4]:
        ck.sample(str(x))
    ck.cov['exhaustive'] = True
    ck.cov['rule'] = ('state = one scheduling point reached; transition = one complete schedule (all within the preemption '
                      'bound); fault_points = signals before/after every event, an error injected at every event, foreign '
                      'locks, error exits, memory limits; trace = one run of the real program(s)')
    ck.assumptions.append('processes interact only through the database directory and the match folder; between two system '
                          'calls on these a process is atomic')


mx.main(check, 'P10', 'model_checking')
