"""P28: the index and new match folders are private to their owner.
All umasks, all permissions of an existing database or match folder, all crash points of an indexing run; see DESIGN.md."""
import os, shutil, stat, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import mx, corpus
from corpus import msg

FL = corpus.FROMLINE
ENV = {'PATH': '/usr/bin:/bin', 'HOME': '/nonexistent', 'TZ': 'UTC', 'LC_ALL': 'C'}


def m(i):
    return msg(subject='m%d common' % i, body='body%d words\n' % i)


class W:
    def __init__(self, tools):
        self.t = tools
        self.d = d = mx.scratch()
        self.runs = 0
        self.db = {}
        for k, fm in (('maildir', 'maildir'), ('mh', 'mh'), ('mbox', 'mbox')):
            corpus.write_rc(d, maildir='md', mbox='box', base=d + '/mail', db=d + '/dbd/db', mfolder=d + '/mf/out', mformat=fm, name='rc-' + k)
        self.mail(1)

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)

    def mail(self, n):
        d = self.d + '/mail'
        shutil.rmtree(d, ignore_errors=True)
        corpus.mkmaildir(d + '/md')
        for i in range(n):
            mx.write('%s/md/new/f%d' % (d, i), m(i))
        mx.write(d + '/box', b''.join(FL + m(10 + i) + b'\n' for i in range(n)))
        for p in (d + '/box', d + '/md/new/f0'):
            os.utime(p, (10 ** 9 + n, 10 ** 9))

    def run(self, args, umask=0o022, rc='maildir'):
        self.runs += 1
        p = subprocess.run([self.t['binary'], '-f', self.d + '/rc-' + rc] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env=ENV, cwd=self.d, umask=umask, timeout=60)
        return p.returncode, p.stderr

    def fresh(self, *names):
        for x in names:
            shutil.rmtree(self.d + '/' + x, ignore_errors=True)
            os.mkdir(self.d + '/' + x)

    def database(self, n):
        """a database of n messages"""
        if n not in self.db:
            self.mail(n)
            self.fresh('dbd')
            c, e = self.run([])
            if c != 0:
                raise AssertionError('indexing fails: %r' % e)
            self.db[n] = open(self.d + '/dbd/db', 'rb').read()
        return self.db[n]

    def modes(self, x):
        out = {}
        top = self.d + '/' + x
        for dp, dn, fn in os.walk(top):
            for f in dn + fn + ['.']:
                p = os.path.join(dp, f)
                if not os.path.islink(p):
                    out[os.path.relpath(p, top)] = stat.S_IMODE(os.lstat(p).st_mode)
        return out

    def put(self, mode, link, data):
        self.fresh('dbd', 'real')
        p = self.d + '/dbd/db'
        if link:
            os.symlink(self.d + '/real/x', p)
        mx.write(p, data)
        os.chmod(p, mode)


def job(w, a):
    kind, arg, k, n = a
    out = dict(bad=[], states=0, trans=0, sample=None)
    r0 = w.runs

    def bad(what, **case):
        out['bad'].append((what, dict(case, kind=kind)))

    if kind == 'create':
        w.mail(1)
        for um in range(k, 512, n):
            for opts in ([], ['-p']):
                w.fresh('dbd')
                before = w.modes('mail')
                c, e = w.run(opts, um)
                out['trans'] += 1
                ms = w.modes('dbd')
                if c != 0 or 'db' not in ms:
                    bad('first indexing run with umask %03o: exit %d %r' % (um, c, e[-200:]))
                elif ms['db'] & ~0o600 or [x for x in ms if x not in ('.', 'db')]:
                    bad('database created with umask %03o: permissions %s' % (um, {x: '%o' % v for x, v in ms.items()}), umask=um)
                if w.modes('mail') != before:
                    bad('indexing with umask %03o changes permissions of mail' % um)
    elif kind == 'update':
        opts, link, um = arg
        data = w.database(1)
        w.mail(3)
        for mode in range(k, 512, n):
            if not mode & 0o400:        # its owner could not use it
                continue
            w.put(mode, link, data)
            c, e = w.run(opts, um)
            out['trans'] += 1
            ms = dict(w.modes('dbd'), **w.modes('real')) if link else w.modes('dbd')
            got = stat.S_IMODE(os.stat(w.d + '/dbd/db').st_mode)
            if c != 0:
                bad('updating a database with permissions %03o: exit %d %r' % (mode, c, e[-200:]))
            elif got != mode or os.path.islink(w.d + '/dbd/db') != link:
                bad('updating a database with permissions %03o (umask %03o%s) changes them to %03o' % (mode, um, ', behind a link' if link else '', got), mode=mode)
            elif open(w.d + '/dbd/db', 'rb').read() == data:
                bad('the database is not updated')
    elif kind == 'crash':
        mode, um, opts = arg
        data = w.database(1) if mode is not None else None
        w.mail(3)
        lim = 0o600 if mode is None else mode

        def prep():
            w.fresh('dbd')
            if mode is not None:
                w.put(mode, False, data)

        def trace(*o):
            w.runs += 1
            p = subprocess.run([w.t['mxtrace'], '-w', w.d + '/dbd', '-o', w.d + '/o'] + list(o) + ['--', w.t['binary'], '-f', w.d + '/rc-maildir'] + opts,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, cwd=w.d, umask=um)
            if p.returncode not in (0, 4):
                raise mx.CheckError('mxtrace: %r %r' % (p.returncode, p.stderr[-300:]))
            return [l.split(' ') for l in p.stdout.decode('latin1').splitlines() if l.startswith('E ')]
        prep()
        ev = trace()
        for e in range(len(ev)):
            prep()
            trace('-K', '0,%d' % e)
            out['trans'] += 1
            for x in os.listdir(w.d + '/dbd'):
                if '.lock' in x:
                    continue
                p = w.d + '/dbd/' + x
                got = stat.S_IMODE(os.lstat(p).st_mode)
                out['states'] += 1
                if got & ~(lim | 0o600) or x == 'db' and mode is not None and got != mode:
                    bad('%s, killed after %s %s: %s has permissions %03o' % (
                        'first run' if mode is None else 'update of a database with permissions %03o' % mode, ev[e][3], ev[e][5].replace(w.d, ''), x, got), event=e)
        out['sample'] = '%s: %d crash points' % (arg, len(ev))
    elif kind == 'search':
        rc, opts, exists = arg
        data = w.database(3)
        w.mail(3)
        w.put(0o600, False, data)
        for v in range(k, 512, n):
            um, mode = (v, None) if not exists else (0o027, v)
            w.fresh('mf')
            o = w.d + '/mf/out'
            if exists and rc == 'maildir':
                for x in ('', '/cur', '/new', '/tmp')[:exists]:
                    os.mkdir(o + x)
                    os.chmod(o + x, mode)
            elif exists:
                os.mkdir(o)
                os.chmod(o, mode)
            before = w.modes('mf')
            mail = w.modes('mail')
            c, e = w.run(opts + ['s:common'], um, rc)
            out['trans'] += 1
            after = w.modes('mf')
            what = 'search into %s (umask %03o%s)' % (rc, um, ', folder with permissions %03o' % mode if exists else '')
            if c != 0:
                bad(what + ': exit %d %r' % (c, e[-200:]))
                continue
            for x, got in after.items():
                isdir = os.path.isdir(w.d + '/mf/' + x)
                if x in before and got != before[x]:
                    bad('%s: permissions of %s change from %03o to %03o' % (what, x, before[x], got))
                if x not in before and isdir and got & ~0o700:
                    bad('%s: directory %s is created with permissions %03o' % (what, x, got), umask=um)
            if len(after) < 2:
                bad(what + ': nothing there')
            if w.modes('mail') != mail or stat.S_IMODE(os.stat(w.d + '/dbd/db').st_mode) != 0o600:
                bad(what + ': changes permissions of mail or database')
    out['states'] += out['trans']
    out['runs'] = w.runs - r0
    return out


def check(ck):
    tools = mx.build(('plain',))
    th = ck.thorough
    jobs = []
    for k in range(8):
        jobs.append(('create', None, k, 8))
    for opts in ([], ['-p'], ['-F']) if th else ([], ['-p']):
        for link in (False, True):
            for um in (0o022, 0o077, 0, 0o777) if th else (0o022, 0o077):
                jobs += [('update', (opts, link, um), k, 4) for k in range(4)]
    for mode in [None, 0o600, 0o644, 0o640, 0o400, 0o666] + ([0o777, 0o604, 0o500] if th else []):
        for um in (0, 0o022, 0o077):
            for opts in ([], ['-p']) if th else ([],):
                jobs.append(('crash', (mode, um, opts), 0, 1))
    for rc in ('maildir', 'mh'):
        for opts in ([], ['-a'], ['-H']):
            for ex in ((0, 1, 2, 4) if rc == 'maildir' else (0, 1)):
                jobs += [('search', (rc, opts, ex), k, 2) for k in range(2)]
    for k in ('states', 'transitions', 'traces_validated_against_impl'):
        ck.cov[k] = 0
    for o in mx.pmap(job, jobs, init=lambda: W(tools)):
        ck.add('states', o['states'])
        ck.add('transitions', o['trans'])
        ck.add('traces_validated_against_impl', o['runs'])
        for x, c in o['bad']:
            ck.violation(x, c)
        if o['sample']:
            ck.sample(o['sample'])
    ck.cov['exhaustive'] = True
    ck.cov['rule'] = 'transition = one run (a umask, a set of permissions, a crash point); state = permissions of one database file or match folder afterwards'
    ck.assumptions += ['the file system honours permission bits (no ACLs)']


mx.main(check, 'P28', 'model_checking')
