"""P09: the database survives a kill or an I/O failure at any point.
The real program runs under lib/mxtrace.c.  Every system call that touches the database directory or the mail is a
crash/fault point; all of them are enumerated, and crash states are explored further (crash, run again, crash, ...)
until no new state of the database directory appears."""
import hashlib, os, shutil, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import mx, corpus
from corpus import msg

FL = corpus.FROMLINE
ENOENT, EIO, ENOMEM, EACCES, ENOSPC, EINTR = 2, 5, 12, 13, 28, 4


def m(i, extra='', body=''):
    return msg(subject='m%d common' % i, frm='a%d@x.yy' % i, to='b@x.yy', mid='<m%d@q>' % i,
               irt='<m%d@q>' % (i - 1) if i % 2 else None, date='Mon, %d Jan 2001 10:00:00 +0000' % (i + 1),
               body='body%d words %s\n' % (i, body), extra=extra)


def md(ids, sub='new', fl=''):
    return {'mail/md/%s/f%d%s' % (sub, i, fl): m(i) for i in ids}


def mh(ids):
    return {'mail/mh/%d' % (i + 1): m(i) for i in ids}


def mb(ids, name='box'):
    return {'mail/' + name: b''.join(FL + m(i) + b'\n' for i in ids)}


BASE = {'mail/md/cur': None, 'mail/md/new': None, 'mail/md/tmp': None, 'mail/mh': None, 'mail/mh/.mh_sequences': b''}


def st(*ds):
    out = dict(BASE)
    for x in ds:
        out.update(x)
    return out


BIG = {'mail/md/new/big': msg(subject='big', body=' '.join('w%dq' % i for i in range(1500)))}

# name, state old db is built from (None: no db), state at the run, options of the run, kind of database path
SCEN = [
    ('first', None, st(md([0, 1]), mh([2]), mb([3])), [], ''),
    ('grow', st(md([0, 1])), st(md([0, 1, 4]), mh([2]), mb([3])), [], ''),
    ('purge', st(md([0, 1, 4]), mh([2]), mb([3, 5])), st(md([0]), mb([3])), ['-p'], ''),
    ('replace', st(md([0, 1]), mb([3])), st(md([2]), mb([5])), [], ''),
    ('mboxappend', st(mb([3])), st(mb([3, 4])), ['-F'], ''),
    ('toempty', st(md([0]), mb([3])), st(), ['-p'], ''),
    ('idle', st(md([0]), mb([3])), st(md([0]), mb([3])), ['-Q'], ''),
    ('grow_big', st(md([0])), st(md([0]), BIG), [], ''),
    ('shrink_big', st(md([0]), BIG), st(md([0])), ['-p'], ''),
    ('symlink', st(md([0])), st(md([0, 1])), [], 'symlink'),
    ('relative', st(md([0])), st(md([0, 1])), [], 'relative'),
]
SEARCH = [
    ('search', st(md([0, 1]), mb([3])), ['s:common'], ''),
    ('thread', st(md([0, 1]), mb([3])), ['-t', 's:m1'], ''),
    ('dump', st(md([0, 1]), mb([3])), ['--dump'], ''),
]
PROBES = [['-r', '-t', 's:m%d' % i] for i in (0, 1, 3)] + [['-r', 's:m%d/big' % i] for i in range(6)] + \
    [['-r', 's:common'], ['-r', 'b:words'], ['-r', 'b:w7q/w1499q'], ['-r', 'd:20010102-20010105'], ['-r', 'z:1-1m'],
     ['-r', 'm:m3@q'], ['-r', 'F:-s'], ['-r', 'b:body='], ['-r', 'p:mail']]


def h(data):
    return None if data is None else hashlib.md5(data).hexdigest()


def fnv(data):
    if data is None:
        return 0
    x = 1469598103934665603
    for c in data:
        x = ((x ^ c) * 1099511628211) & 0xffffffffffffffff
    return x


class W:
    def __init__(self, tools):
        self.t = tools
        self.d = mx.scratch()
        self.drv = mx.Driver(tools['plain'])
        self.scen = {}
        self.runs = 0

    def close(self):
        self.drv.close()
        shutil.rmtree(self.d, ignore_errors=True)

    # ---- set up
    def folder(self, state, t=1000000000):
        shutil.rmtree(self.d + '/mail', ignore_errors=True)
        for p, v in sorted(state.items()):
            fp = self.d + '/' + p
            if v is None:
                os.makedirs(fp, exist_ok=True)
            else:
                os.makedirs(os.path.dirname(fp), exist_ok=True)
                mx.write(fp, v)
                os.utime(fp, (t, t))

    def rcfile(self, name, kind):
        db = self.d + '/dbd/db'
        if kind == 'relative':
            db = '%s/mail/../dbd/db' % self.d
        return corpus.write_rc(self.d, maildir='mail/md', mh='mail/mh', mbox='mail/box*', db=db, name=name)

    def dbput(self, kind, data, extra=None):
        for x in ('dbd', 'real'):
            shutil.rmtree(self.d + '/' + x, ignore_errors=True)
            os.mkdir(self.d + '/' + x)
        if kind == 'symlink':
            os.symlink(self.d + '/real/db', self.d + '/dbd/db')
        if data is not None:
            mx.write(self.d + '/dbd/db', data)
        for n, v in (extra or {}).items():
            if n.endswith('/db'):
                continue
            mx.write(self.d + '/' + n, v)

    def dbget(self):
        try:
            with open(self.d + '/dbd/db', 'rb') as f:
                return f.read()
        except FileNotFoundError:
            return None

    def snapshot(self):
        """everything in the database directories but pid-named lock files"""
        out = {}
        for x in ('dbd', 'real'):
            for n in os.listdir(self.d + '/' + x):
                p = '%s/%s/%s' % (self.d, x, n)
                if '.lock' in n or os.path.islink(p):
                    continue
                with open(p, 'rb') as f:
                    out[x + '/' + n] = f.read()
        return out

    # ---- runs
    def index(self, opts=(), unlock=False, rc='rc'):
        self.runs += 1
        return self.drv.run(['-f', self.d + '/' + rc, '--force-hash-key-new-database', '17'] +
                            (['--unlock'] if unlock else []) + list(opts))

    def answers(self):
        out = []
        for q in PROBES:
            self.runs += 1
            r = self.drv.run(['-f', self.d + '/rc', '--unlock'] + q)
            out.append((r.code, tuple(sorted(r.out.split(b'\n')))))
        r = self.drv.run(['-f', self.d + '/rc', '--unlock', '--dump'])
        self.runs += 1
        out.append(r.code)
        return tuple(out)

    def trace(self, cmd, *a, mail=False):
        self.runs += 1
        w = ['-w', self.d + '/dbd', '-w', self.d + '/real'] + (['-w', self.d + '/mail'] if mail else [])
        p = subprocess.run([self.t['mxtrace']] + w + ['-f', self.d + '/dbd/db', '-o', self.d + '/o'] + list(a) + ['--'] +
                           [self.t['binary'], '-f', self.d + '/rc'] + cmd,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env={'PATH': '/usr/bin:/bin', 'HOME': '/nonexistent', 'TZ': 'UTC', 'LC_ALL': 'C'}, cwd=self.d)
        ev, torn, status, hit, z = [], None, None, None, False
        for l in p.stdout.decode('latin1').splitlines():
            f = l.split(' ', 5)
            if f[0] == 'E':
                ev.append((f[3], int(f[4]), l.split(' ', 5)[5]))
            elif f[0] == 'T':
                torn = l
            elif f[0] == 'X':
                status = int(f[2])
            elif f[0] == 'K':
                hit = l
            elif f[0] == 'Z':
                z = True
        if p.returncode not in (0, 4) or (status is None and not z):
            raise mx.CheckError('mxtrace: %r %r' % (p.returncode, p.stderr[-300:]))
        code = None if z else (-os.WTERMSIG(status) if os.WIFSIGNALED(status) else os.WEXITSTATUS(status))
        return dict(ev=ev, torn=torn, code=code, hit=hit)

    def prepare(self, name):
        """old and new content and answers of a scenario; leaves the folder in the state of the run"""
        if getattr(self, 'current', None) == name:
            return self.scen[name]
        self.current = name
        sc = [s for s in SCEN if s[0] == name]
        if sc:
            _, a, b, opts, kind = sc[0]
            cmd = ['--force-hash-key-new-database', '17'] + opts
        else:
            _, a, cmd, kind = [s for s in SEARCH if s[0] == name][0]
            b, opts = a, None
        self.rcfile('rc', kind)
        old = None
        self.dbput(kind, None)
        if a is not None:
            self.folder(a)
            r = self.index()
            if r.code != 0:
                raise AssertionError('reference run failed: %r' % r)
            old = self.dbget()
        self.folder(b, 1000000100 if b != a else 1000000000)
        # what a database from scratch answers
        self.dbput(kind, None)
        r = self.index()
        if r.code != 0:
            raise AssertionError('reference run failed: %r' % r)
        ans = {}
        fresh = self.dbget()
        fresh_ans = self.answers() if fresh is not None else 'none'
        self.dbput(kind, old)
        ans[h(old)] = self.answers() if old is not None else 'none'
        new = old
        det = True
        if opts is not None:
            r = self.index(opts)
            if r.code != 0:
                raise AssertionError('reference run failed: %r' % r)
            new = self.dbget()
            ans[h(new)] = self.answers() if new is not None else 'none'
            self.dbput(kind, old)
            self.index(opts)
            det = self.dbget() == new
        s = dict(old=old, new=new, cmd=cmd, kind=kind, opts=opts, ans=ans, fresh=fresh_ans, det=det, next=None, nx={})
        self.scen[name] = s
        return s

    def ans_of(self, s, data):
        k = h(data)
        if k not in s['ans']:
            s['ans'][k] = self.answers() if data is not None else 'none'
        return s['ans'][k]

    def after(self, s, what, out, fault):
        """database in place after a run that was killed or had a failure; what: description"""
        data = self.dbget()
        k = h(data)
        old, new = h(s['old']), h(s['new'])
        if k not in (old, new):
            a = self.ans_of(s, data)
            if s['det'] and not fault:
                out['bad'].append((what + ': the database is neither the old nor the new one (%s bytes; old %s, new %s)' % (
                    None if data is None else len(data), s['old'] and len(s['old']), s['new'] and len(s['new'])), dict(case=what)))
                return None
            if a not in (s['ans'][old], s['ans'][new], s['fresh']):
                out['bad'].append((what + ': the database gives neither the old nor the new answers', dict(case=what)))
                return None
        if self.ans_of(s, data) == 'none' or all(x == 0 or isinstance(x, tuple) and x[0] in (0, 1) for x in self.ans_of(s, data)):
            pass
        else:
            out['bad'].append((what + ': searching the database that is left fails', dict(case=what)))
            return None
        return data

    def recover(self, s, what, out):
        """the next indexing run works on what is left"""
        snap = self.snapshot()
        key = hashlib.md5(repr(sorted((k, h(v)) for k, v in snap.items())).encode()).hexdigest()
        if key in s['nx']:
            return
        s['nx'][key] = 1
        r = self.index(['-p'], unlock=True)
        if r.code != 0:
            out['bad'].append((what + ': the next indexing run fails: %r' % r, dict(case=what)))
            return
        data = self.dbget()
        a = self.answers() if data is not None else 'none'
        if a != s['fresh'] and not (s['fresh'] == 'none' or a == 'none'):
            out['bad'].append((what + ': after the next indexing run the answers differ from a database from scratch', dict(case=what)))


def dbop(e):
    return '/dbd' in e[2] or '/real' in e[2]


def islock(p):
    return '.lock' in p


WRITEOPS = ('write', 'pwrite', 'writev', 'fsync', 'fdatasync', 'rename', 'close', 'msync', 'munmap', 'ftruncate', 'truncate', 'mmapw', 'openw')


def run(w, job):
    kind, name, k, n = job
    out = dict(bad=[], points=0, runs=0, states=0, sample=None)
    r0 = w.runs
    s = w.prepare(name)
    reset = lambda: w.dbput(s['kind'], s['old'])
    reset()
    if kind == 'watch':
        # the content of the database file never is anything but the old and the new one, at any instruction
        t = w.trace(s['cmd'], *(['-n', '%016x' % fnv(s['new'])] if s['det'] else []), mail=True)
        out['points'] += len(t['ev'])
        if t['torn']:
            i = int(t['torn'].split()[2])
            out['bad'].append(('%s: the database is neither old nor new after event %s of %s' % (
                name, t['torn'], [x[:2] for x in t['ev'][-4:]]), dict(case=name)))
        elif t['code'] != 0 or h(w.dbget()) != h(s['new']) and s['det']:
            out['bad'].append(('%s: run under observation: exit %s' % (name, t['code']), dict(case=name)))
        out['sample'] = '%s: %d events' % (name, len(t['ev']))
    elif kind == 'kill':
        ref = w.trace(s['cmd'], mail=True)
        for e in range(len(ref['ev'])):
            if e % n != k:
                continue
            for opt in ('-k', '-K'):
                reset()
                t = w.trace(s['cmd'], opt, '0,%d' % e, mail=True)
                what = '%s: killed %s event %d (%s %s)' % (name, 'before' if opt == '-k' else 'after', e,
                                                        ref['ev'][e][0], ref['ev'][e][2].replace(w.d, ''))
                out['points'] += 1
                if w.after(s, what, out, False) is not None:
                    w.recover(s, what, out)
            if out['bad']:
                break
    elif kind == 'fault':
        ref = w.trace(s['cmd'], mail=True)
        for e in range(len(ref['ev'])):
            if e % n != k:
                continue
            name_, ret, path = ref['ev'][e]
            db = dbop(ref['ev'][e])
            for err in [EIO, ENOSPC, EACCES, ENOMEM, EINTR] if db else [EIO, EACCES]:
                if err == EINTR and name_ not in ('open', 'openw', 'read', 'write', 'close', 'fsync'):
                    continue
                reset()
                t = w.trace(s['cmd'], '-e', '0,%d,%s' % (e, err), mail=True)
                what = '%s: error %d injected at event %d (%s %s), exit %s' % (
                    name, err, e, name_, path.replace(w.d, ''), t['code'])
                out['points'] += 1
                if t['code'] is None:
                    out['bad'].append((what + ': hangs', dict(case=what)))
                    break
                if s['opts'] is None:
                    if h(w.dbget()) != h(s['old']):
                        out['bad'].append((what + ': a search changed the database', dict(case=what)))
                    continue
                if db:
                    data = w.after(s, what, out, True)
                    if t['code'] == 0:
                        if data is not None and h(data) != h(s['new']) and w.ans_of(s, data) not in (
                                s['ans'][h(s['new'])], s['fresh']):
                            out['bad'].append((what + ': reports success but the new database is not in place', dict(case=what)))
                        if (data is None) != (s['new'] is None):
                            out['bad'].append((what + ': reports success without a database', dict(case=what)))
                        if name_ in WRITEOPS and not islock(path) and not (name_ in ('close', 'munmap') and
                                                                          readonly(ref['ev'], e)):
                            out['bad'].append((what + ': reports success although storing the database failed', dict(case=what)))
                else:
                    data = w.dbget()
                    a = w.ans_of(s, data)
                    if a != 'none' and not all(x == 0 or isinstance(x, tuple) and x[0] in (0, 1) for x in a):
                        out['bad'].append((what + ': the database that is left cannot be searched', dict(case=what)))
                if data is not None:
                    r = w.index(['-p'], unlock=True)
                    if r.code != 0:
                        out['bad'].append((what + ': the next run fails: %r' % r, dict(case=what)))
            if out['bad']:
                break
    elif kind == 'pair':
        # an error, then a kill somewhere after it
        ref = w.trace(s['cmd'])
        for e in range(len(ref['ev'])):
            if e % n != k:
                continue
            for err in ((EIO, ENOSPC, EACCES, ENOMEM) if n > 8 else (EIO, ENOSPC)):
                reset()
                r2 = w.trace(s['cmd'], '-e', '0,%d,%s' % (e, err))
                for e2 in range(e + 1, len(r2['ev'])):
                    reset()
                    w.trace(s['cmd'], '-e', '0,%d,%s' % (e, err), '-K', '0,%d' % e2)
                    what = '%s: error %d at event %d (%s), killed after event %d (%s)' % (
                        name, err, e, ref['ev'][e][0], e2, r2['ev'][e2][0])
                    out['points'] += 1
                    if w.after(s, what, out, True) is not None:
                        w.recover(s, what, out)
            if out['bad']:
                break
    elif kind == 'explore':
        # crash states: what is left in the database directory after any series of killed runs
        seen = set()
        todo = [({'real/db' if s['kind'] == 'symlink' else 'dbd/db': s['old']} if s['old'] is not None else {}, 0, [])]
        while todo:
            snap, depth, hist = todo.pop(0)
            key = tuple(sorted((a, h(b)) for a, b in snap.items()))
            if key in seen:
                continue
            seen.add(key)
            out['states'] += 1

            def put():
                data = snap.get('real/db' if s['kind'] == 'symlink' else 'dbd/db')
                w.dbput(s['kind'], data, {a: b for a, b in snap.items() if not a.endswith('/db')})
            put()
            cmd = ['--unlock'] + s['cmd']
            ref = w.trace(cmd)
            for e in range(len(ref['ev'])):
                put()
                w.trace(cmd, '-K', '0,%d' % e)
                what = '%s: runs killed after events %s' % (name, hist + [e])
                out['points'] += 1
                # a run on the new database may produce yet another one; then old/new are relative to the snapshot
                cur = h(snap.get('real/db' if s['kind'] == 'symlink' else 'dbd/db'))
                data = w.dbget()
                if h(data) != cur and depth == 0:
                    if w.after(s, what, out, False) is None and data is not None:
                        break
                elif h(data) != cur:
                    if w.ans_of(s, data) not in (s['ans'][h(s['old'])], s['ans'][h(s['new'])], s['fresh']):
                        out['bad'].append((what + ': answers are neither the old nor the new ones', dict(case=what)))
                if data is not None:
                    w.recover(s, what, out)
                    put()
                    w.trace(cmd, '-K', '0,%d' % e)
                if len(hist) < 4 and len(seen) < 60:
                    todo.append((w.snapshot(), depth + 1, hist + [e]))
            if out['bad']:
                break
    out['runs'] = w.runs - r0
    return out


def readonly(ev, e):
    """close/munmap of something that was opened for reading only (the last open of that path)"""
    p = ev[e][2]
    for x in reversed(ev[:e]):
        if x[2] == p and x[0] in ('open', 'openw'):
            return x[0] == 'open'
    return False


def check(ck):
    tools = mx.build(('plain',))
    names = [s[0] for s in SCEN]
    js = [('watch', x, 0, 1) for x in names + [s[0] for s in SEARCH]]
    n = 4
    for x in names:
        js += [('kill', x, k, n) for k in range(n)]
        js += [('fault', x, k, n) for k in range(n)]
    for x in [s[0] for s in SEARCH]:
        js += [('kill', x, k, 2) for k in range(2)] + [('fault', x, k, 2) for k in range(2)]
    js += [('explore', x, 0, 1) for x in names]
    for x in names:
        n = 16 if ck.thorough else 8
        js += [('pair', x, k, n) for k in range(n)]
    js.sort(key=lambda j: j[0] != 'explore')
    for k in ('states', 'transitions', 'traces_validated_against_impl'):
        ck.cov[k] = 0
    for o in mx.pmap(run, js, init=lambda: W(tools)):
        ck.add('states', o['points'])
        ck.add('transitions', o['states'])
        ck.add('traces_validated_against_impl', o['runs'])
        for w_, c in o['bad']:
            ck.violation(w_, c)
        if o['sample']:
            ck.sample(o['sample'])
    ck.cov['exhaustive'] = True
    ck.cov['rule'] = ('state = one crash or fault point (before/after one system call of one scenario, or one injected error); '
                      'transition = distinct contents of the database directory reached by series of crashes; trace = '
                      'one run of the real program')
    ck.assumptions.append('process death, not power failure: what a killed process wrote stays as the kernel has it')


mx.main(check, 'P09', 'model_checking')
