"""P24: running out of memory is an orderly error.
The real program runs with lib/mallocfail.c preloaded.  Every memory allocation of every scenario is a fault point: it fails
alone, or it and all later ones.  So are those that the C library and the compression libraries make while the lock is held (where not finding a
folder or a message is a possible consequence, so that only orderliness is judged)."""
import gzip, bz2, lzma, hashlib, os, shutil, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import mx, corpus
from corpus import msg

FL = corpus.FROMLINE


def m(i, extra='', body='', **k):
    return msg(subject='m%d common' % i, frm='a%d@x.yy' % i, to='b@x.yy', mid='<m%d@q>' % i,
               irt='<m%d@q>' % (i - 1) if i % 2 else None, date='Mon, %d Jan 2001 10:00:00 +0000' % (i + 1),
               body=body or 'body%d w\n' % i, extra=extra)


MIME = m(7, extra='Content-Type: multipart/mixed; boundary="b b"\n', body=(
    '--b b\nContent-Type: text/html\nContent-Transfer-Encoding: base64\n\nPGI+aHRtbDwvYj4=\n--b b\nContent-Type: message/rfc822\n\n'
    'Subject: =?utf-8?q?in=6Eer?=\n\nib\n--b b\nContent-Type: a/b\nContent-Disposition: attachment; filename*0="x y"; filename*1="z"\n'
    'Content-Transfer-Encoding: quoted-printable\n\n=41\n--b b--\n'))


def mbox(ids):
    return b''.join(FL + m(i) + b'\n' for i in ids)


def md(ids):
    return {'mail/md/new/f%d' % i: m(i) for i in ids}


BASE = {'mail/md/cur/c9:2,S': m(9), 'mail/md/new': None, 'mail/md/tmp': None, 'mail/mh/.mh_sequences': b'', 'mail/mh/3': m(3)}


def st(*ds):
    out = dict(BASE)
    for x in ds:
        out.update(x)
    return out


# name, state the old database is built from (None: there is none), state at the run, options, lines added to the rc file
SCEN = [
    ('first', None, st(md([1]), {'mail/box': mbox([4, 5])}), [], ''),
    ('mime', None, st({'mail/md/new/f7': MIME}), [], ''),
    ('gz', None, st({'mail/box.gz': gzip.compress(mbox([4]), mtime=0)}), [], ''),
    ('bz2', None, st({'mail/box.bz2': bz2.compress(mbox([4]))}), [], ''),
    ('xz', None, st({'mail/box.xz': lzma.compress(mbox([4]))}), [], ''),
    ('gzmsg', None, st({'mail/md/new/f1.gz': gzip.compress(m(1), mtime=0)}), [], ''),
    ('update', st(md([1, 2]), {'mail/box': mbox([4, 5])}), st(md([1, 6]), {'mail/box': mbox([4, 5, 8])}), [], ''),
    ('purge', st(md([1, 2]), {'mail/box': mbox([4, 5]), 'mail/box2': mbox([6])}), st(md([1]), {'mail/box2': mbox([6])}), ['-p'], ''),
    ('idle', st(md([1]), {'mail/box': mbox([4])}), st(md([1]), {'mail/box': mbox([4])}), ['-F'], ''),
    ('omit', None, st(md([1])), [], 'omit=nosuch*:x/**\nmh=mh2...\n'),
    ('imap', None, st(md([1])), [], 'IMAP'),
    ('imap2', st(), st(md([1])), [], 'IMAP'),
    ('s_imap', 1, st(md([1])), ['common'], 'IMAPmformat=mbox\n'),
    ('s_imapx', 1, st(), ['-x', 'common'], 'IMAP'),
    ('to_imap', 1, st(md([1])), ['common'], 'IMAPmformat=imap\nmfolder=out\n'),
    ('raw', 1, st(md([1]), {'mail/box': mbox([4, 5])}), ['-r', 's:common', 'd:1jan2000-', 'z:-100k', 'F:-f'], ''),
    ('excerpt', 1, st(md([1]), {'mail/box': mbox([4, 5])}), ['-x', '-t', 's:m1/m5', 'b:body=1'], ''),
    ('s_maildir', 1, st(md([1]), {'mail/box': mbox([4, 5])}), ['common', 'p:mail'], 'mformat=maildir\n'),
    ('s_mh', 1, st(md([1]), {'mail/box': mbox([4])}), ['-a', 'common'], 'mformat=mh\nsort=date+\n'),
    ('s_mbox', 1, st(md([1]), {'mail/box.gz': gzip.compress(mbox([4]), mtime=0)}), ['common'], 'mformat=mbox\n'),
    ('dump', 1, st(md([1])), ['--dump'], ''),
]


class W:
    def __init__(self, tools):
        self.t = tools
        self.d = mx.scratch()

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)

    def mail(self, state):
        shutil.rmtree(self.d + '/mail', ignore_errors=True)
        for p, v in sorted(state.items()):
            fp = self.d + '/' + p
            if v is None:
                os.makedirs(fp, exist_ok=True)
            else:
                mx.write(fp, v)
                os.utime(fp, (1000000000,) * 2)

    def run(self, args, n=None, sticky=False, lib=False):
        """one run of the program -> exit status, output, number of allocations"""
        r, w = os.pipe()
        env = {'PATH': '/bin:/usr/bin', 'HOME': self.d, 'LC_ALL': 'C', 'TZ': 'UTC', 'LD_PRELOAD': self.t['mallocfail'], 'MF_FD': str(w)}
        if n:
            env['MF_N'] = str(n)
        if lib:
            env['MF_LIB'] = '1'
        if sticky:
            env['MF_STICKY'] = '1'
        with open(self.d + '/out', 'w+b') as o, open(self.d + '/err', 'w+b') as e:
            p = subprocess.Popen([self.t['binary'], '-f', self.d + '/rc', '--force-hash-key-new-database', '1'] + args, cwd=self.d, env=env,
                                 stdin=subprocess.DEVNULL, stdout=o, stderr=e, pass_fds=(w,))
            try:
                code = p.wait(60)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                code = 'hang'
        os.close(w)
        b = os.read(r, 100)
        os.close(r)
        with open(self.d + '/out', 'rb') as f:
            out = f.read()
        with open(self.d + '/err', 'rb') as f:
            err = f.read()
        return code, out, err, int(b) if b else None

    def tree(self, sub):
        out = {}
        for dp, dn, fn in os.walk(self.d + '/' + sub):
            for x in dn:
                out[os.path.relpath(dp + '/' + x, self.d)] = 'dir'
            for x in fn:
                p = dp + '/' + x
                if os.path.islink(p):
                    out[os.path.relpath(p, self.d)] = os.readlink(p)
                else:
                    with open(p, 'rb') as f:
                        out[os.path.relpath(p, self.d)] = hashlib.md5(f.read()).hexdigest()
        if os.path.isfile(self.d + '/' + sub):
            with open(self.d + '/' + sub, 'rb') as f:
                out[sub] = f.read()
        return out

    def server(self):
        shutil.rmtree(self.d + '/imap', ignore_errors=True)
        for i, b in enumerate(('in', 'in2', 'out')):
            for n, v in (('.name', b), ('.uidv', '7'), ('.next', '30')):
                mx.write('%s/imap/%d/%s' % (self.d, i, n), v.encode())
            for j in range(2 * (i < 2)):
                mx.write('%s/imap/%d/%d,S' % (self.d, i, j + 1), m(20 + 2 * i + j).replace(b'\n', b'\r\n'))

    def prepare(self, name, old, now, args, extra):
        self.search = old == 1 or None if old is None else old == 1
        lines = 'database=%s/dbd/db\n' % self.d
        self.imap = extra.startswith('IMAP')
        if self.imap:
            extra = 'imap=in:in2\nimap_pipe=exec %s %s/imap %s/log preauth=1\n' % (self.t['fakeimap'], self.d, self.d) + extra[4:]
            self.server()
        with open(self.d + '/rc', 'w') as f:
            f.write('base=%s/mail\nmaildir=md\nmh=mh\nmbox=box*\nmfolder=%s/mf\n%s%s' % (self.d, self.d, lines, extra))
        for x in ('dbd', 'mf'):
            shutil.rmtree(self.d + '/' + x, ignore_errors=True)
        os.mkdir(self.d + '/dbd')
        self.old = None
        if old is not None:
            self.mail(now if old == 1 else old)
            code, _, err, _ = self.run([])
            if code != 0:
                raise AssertionError('cannot build the database of %s: %r' % (name, err))
            with open(self.d + '/dbd/db', 'rb') as f:
                self.old = f.read()
        self.mail(now)
        self.mailtree = self.tree('mail')

    def reset(self):
        if self.imap:
            self.server()
        shutil.rmtree(self.d + '/dbd')
        os.mkdir(self.d + '/dbd')
        if self.old is not None:
            mx.write(self.d + '/dbd/db', self.old)
        if os.path.isdir(self.d + '/mf'):
            shutil.rmtree(self.d + '/mf')
        elif os.path.lexists(self.d + '/mf'):
            os.unlink(self.d + '/mf')

    def db(self):
        try:
            with open(self.d + '/dbd/db', 'rb') as f:
                return f.read()
        except FileNotFoundError:
            return None


def scenario(w, i, lib):
    name, old, now, args, extra = SCEN[i]
    w.prepare(name, old, now, args, extra)
    w.reset()
    code, out, err, n = w.run(args, lib=lib)
    good = (w.db(), out, w.tree('mf'))
    if code != 0 or n is None:
        raise AssertionError('scenario %s fails without any fault: %r %r' % (name, code, err))
    return name, args, n, good


def count(w, job):
    i, lib = job
    return i, lib, scenario(w, i, lib)[2]


def run(w, job):
    i, ks, sticky, lib = job
    name, args, n, good = scenario(w, i, lib)
    out = dict(n=0, kinds=set(), bad=[])
    for k in ks:
        w.reset()
        code, o, err, _ = w.run(args, k, sticky, lib)
        out['n'] += 1
        what = None
        db = w.db()
        same = (db, o, w.tree('mf')) == good
        locks = [x for x in os.listdir(w.d + '/dbd') if '.lock' in x]
        if code == 'hang' or code < 0:
            what = 'the run hangs' if code == 'hang' else 'the run is killed by signal %d' % -code
        elif locks:
            what = 'the run leaves %s behind' % locks
        elif w.tree('mail') != w.mailtree:
            what = 'the mail is changed'
        elif not lib and db not in (w.old, good[0]):
            what = 'the database is neither the old nor the new one'
        elif not lib and code == 0:
            what = 'the run reports success'
        elif not lib and not err:
            what = 'the run ends without a message'
        elif lib and db not in (w.old, good[0], None):
            c, o, e, _ = w.run(['-r', 'p:x'])
            if c not in (0, 1):
                what = 'the database cannot be used afterwards (%s, %r)' % (c, e)
        out['kinds'].add((name, lib, code, same, db == w.old))
        if what:
            out['bad'].append(('%s when allocation %d of %d by %s%s fails: %s (exit %s, %r)' % (
                name, k, n, 'libraries' if lib else 'mairix', ' and all later ones' if sticky else '', what, code, err[-200:]),
                dict(scenario=name, allocation=k, sticky=sticky, lib=lib)))
            if len(out['bad']) > 5:
                break
    return out


def check(ck):
    tools = mx.build(('plain',))
    total = 0
    jobs = []
    for i, lib, n in mx.pmap(count, [(i, lib) for i in range(len(SCEN)) for lib in (False, True) if not (lib and 'IMAP' in SCEN[i][4])], init=lambda: W(tools)):
        ck.add('allocations_by_libraries' if lib else 'allocations', n)
        for sticky in (False, True):
            step = 1 if ck.thorough or not sticky else 5
            ks = list(range(1, n + 1, step))
            jobs += [(i, ks[j::8], sticky, lib) for j in range(8)]
    ck.cov['states'] = ck.cov['allocations'] + ck.cov['allocations_by_libraries']
    kinds = set()
    for o in mx.pmap(run, jobs, init=lambda: W(tools)):
        ck.add('transitions', o['n'])
        ck.add('traces_validated_against_impl', o['n'])
        kinds |= o['kinds']
        for t, c in o['bad']:
            ck.violation(t, c)
    ck.cov['distinct_outcomes'] = len(kinds)
    ck.cov['exhaustive'] = True
    ck.sample(str(sorted(kinds, key=str)[:10]))
    ck.cov['rule'] = ('state = one memory allocation of one scenario; transition = one run of the real program in which that allocation, '
                      'alone or with all later ones, fails')


if __name__ == '__main__':
    mx.main(check, 'P24', 'model_checking')
