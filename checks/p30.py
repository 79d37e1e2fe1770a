"""P30: a foreign, outdated or incomplete database is refused.
Every prefix of databases of different shape, every value of every identifying byte, and other files in place of a database are
given to every kind of run of the address-sanitized program; see DESIGN.md."""
import gzip, itertools, os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import mx, corpus

FL = corpus.FROMLINE
RUNS = [[], ['-p'], ['-F', '-Q'], ['-r', 's:word'], ['-r', 'b:wor='], ['-r', 'm:1@x'], ['-r', 'p:m='], ['-r', 'n:file.dat'], ['-r', 'd:2001-'], ['-r', 'z:1-'], ['-t', '-r', 's:word'],
        ['-x', 's:word'], ['s:word'], ['-a', 's:word'], ['-t', '-o', 'mf', 'b:~nosuch'], ['-d']]

FEW = [[], ['-r', 's:word'], ['-r', 'm:1@x'], ['-a', 's:word'], ['-d']]


def msg(i, mid=False, att=False, date=True, subj=True):
    h = b'From: a%d@b.c\nTo: t%d@b.c\nCc: c%d@b.c\n' % (i, i, i)
    if subj:
        h += b'Subject: word u%d\n' % i
    if mid:
        h += b'Message-ID: <%d@x>\nIn-Reply-To: <%d@x>\n' % (i, i + 1)
    if date:
        h += b'Date: Mon, 1 Jan 2001 10:00:00 +0000\n'
    if att:
        return h + (b'Content-Type: multipart/mixed; boundary=b\n\n--b\nContent-Type: text/plain\n\nword v%d\n--b\nContent-Type: application/x\n'
                    b'Content-Disposition: attachment; filename=file.dat\n\nx\n--b--\n' % i)
    return h + b'\nword v%d\n' % i


# name -> (messages of the maildir, messages of the mbox, maildir messages that vanish again)
SHAPES = {
    'ids': ([msg(1, mid=True), msg(2, mid=True)], [msg(3, mid=True)], 0),
    'attachments': ([msg(1, att=True), msg(2)], [], 0),
    'plain': ([msg(1)], [msg(2), msg(3)], 0),
    'mbox': ([], [msg(1), msg(2)], 0),
    'subjects': ([b'Subject: word\n\n', b'Subject: word two\n\n'], [], 0),
    'dead': ([msg(1, mid=True), msg(2)], [msg(3)], 1),
    'from': ([b'From: a@b.c\n\n'], [], 0),
    'cc': ([b'Cc: a@b.c\n\n'], [], 0),
    'to': ([b'To: a@b.c\n\n'], [], 0),
}


def snap(d):
    o = {}
    for r, ds, fs in os.walk(d):
        for n in ds + fs:
            p = os.path.join(r, n)
            st = os.lstat(p)
            o[os.path.relpath(p, d)] = (st.st_mode, st.st_ino if n not in ('db',) else 0, os.readlink(p) if os.path.islink(p) else open(p, 'rb').read() if os.path.isfile(p) else None)
    return o


class W:
    def __init__(self, tools):
        self.drv = mx.Driver(tools['asan'])
        self.d = mx.scratch()
        self.made = {}

    def close(self):
        self.drv.close()
        shutil.rmtree(self.d, ignore_errors=True)

    def shape(self, name):
        if name not in self.made:
            d = self.d + '/' + name
            os.mkdir(d)
            md, box, gone = SHAPES[name]
            corpus.mkmaildir(d + '/mail')
            for i, m in enumerate(md):
                mx.write('%s/mail/new/%d' % (d, i), m)
            if box:
                mx.write(d + '/box', b''.join(FL + m + b'\n' for m in box))
            rc = corpus.write_rc(d, maildir='mail', mbox='box' if box else None, db=d + '/db')
            r = self.drv.run(['-f', rc], timeout=60)
            for i in range(gone):
                os.unlink('%s/mail/new/%d' % (d, i))
            if gone:
                r = self.drv.run(['-f', rc], timeout=60)
            if r.code != 0:
                raise mx.CheckError('indexing fails: %r' % r)
            corpus.mkmaildir(d + '/mf')
            mx.write(d + '/mf/new/earlier', b'Subject: earlier\n\nx\n')
            # something for an indexing run to do
            if md:
                mx.write(d + '/mail/new/9', b'Subject: ninth\n\nx\n')
            else:
                mx.write(d + '/box', open(d + '/box', 'rb').read() + FL + b'Subject: ninth\n\nx\n')
            self.made[name] = (d, rc, open(d + '/db', 'rb').read(), snap(d))
        return self.made[name]


def job(w, a):
    name, items, runs = a
    d, rc, db, before = w.shape(name)
    out = dict(n=0, runs=0, bad=[], codes={})
    for what, content in items(db) if callable(items) else items:
        if isinstance(content, int):
            content = db[:content]
        out['n'] += 1
        b = dict(before)
        b['db'] = (b['db'][0], 0, content)
        for args in runs:
            mx.write(d + '/db', content)
            r = w.drv.run(['-f', rc] + args, timeout=60)
            out['runs'] += 1
            why = None
            if b'ERROR: AddressSanitizer' in r.err:
                e = r.err.decode('latin1')
                why = 'memory error: ' + ' '.join(e[e.find('ERROR: Addr'):][:150].split())
            elif r.code is None or r.code < 0:
                why = 'dies of signal or hangs (%s): %r' % (r.code, r.err[-150:])
            elif r.code == 0 or r.code == 1:
                why = 'is not refused (exit status %d)' % r.code
            elif not r.err.strip():
                why = 'no message'
            elif r.out.strip() and args != ['-d'] and args:
                why = 'prints results: %r' % r.out[:100]
            now = snap(d)
            if not why and now != b:
                why = 'changes ' + ', '.join(sorted(k for k in set(now) | set(b) if now.get(k) != b.get(k)))
            if why:
                out['bad'].append(('%s: %s, run %s: %s' % (name, what, ' '.join(args) or '(index)', why), dict(shape=name, what=what, args=args, why=why)))
                # start over from a clean place
                shutil.rmtree(d)
                del w.made[name]
                d, rc, db2, before = w.shape(name)
                b = dict(before)
                b['db'] = (b['db'][0], 0, content)
                if len(out['bad']) > 3:
                    return out
    return out


def lengths(lo, hi):
    def f(db):
        return [('cut off after %d of %d bytes' % (n, len(db)), n) for n in range(lo, min(hi, len(db)))]
    return f


def ident(k):
    def f(db):
        o = []
        for b in range(256):
            if b != db[k]:
                o.append(('identifying byte %d is %02x instead of %02x' % (k, b, db[k]), db[:k] + bytes([b]) + db[k + 1:]))
        return o
    return f


def several(th):
    def f(db):
        o = []
        for ks in itertools.chain(*[itertools.combinations(range(8), n) for n in (2, 3, 4, 5, 6, 7, 8)]):
            for v in (0, 0xff, 0x20):
                x = bytearray(db)
                for k in ks:
                    x[k] = v if db[k] != v else 1
                o.append(('identifying bytes %s are %02x' % (ks, v), bytes(x)))
        x = db[:4] + db[7:3:-1] + db[8:]
        o.append(('the byte order mark is reversed', x))
        o.append(('all words are in the other byte order', b''.join(db[i:i + 4][::-1] for i in range(0, len(db), 4))))
        o.append(('all words but the magic number are in the other byte order', db[:4] + b''.join(db[i:i + 4][::-1] for i in range(4, len(db), 4))))
        for n, x in (('an mbox', FL + b'Subject: word\n\nword\n\n' * 100), ('zeros', b'\0' * 5000), ('text', b'word\n' * 2000), ('0xff bytes', b'\xff' * 5000), ('a compressed database', gzip.compress(db, mtime=0)),
                     ('a database with something before it', b'x' + db), ('a database with a word before it', b'xxxx' + db), ('a program', open('/bin/true', 'rb').read()), ('an empty file', b'')):
            o.append(('%s instead of a database' % n, x))
        return o
    return f


def part(f, k, n):
    return lambda db: f(db)[k::n]


def check(ck):
    tools = mx.build(('asan',))
    th = ck.thorough
    jobs = []
    for name in SHAPES:
        for lo in range(0, 6000, 100):
            jobs.append((name, lengths(lo, lo + 100), RUNS if th or name == 'ids' else FEW))
    for name in (SHAPES if th else ('ids', 'plain')):
        for k in range(8):
            jobs.append((name, ident(k), RUNS if th else FEW))
        for k in range(8):
            jobs.append((name, part(several(th), k, 8), RUNS if th else FEW))
    for k in ('states', 'transitions', 'traces_validated_against_impl'):
        ck.cov[k] = 0
    for o in mx.pmap(lambda w, i: job(w, jobs[i]), range(len(jobs)), init=lambda: W(tools)):
        ck.add('states', o['n'])
        ck.add('transitions', o['runs'])
        ck.add('traces_validated_against_impl', o['runs'])
        for x, c in o['bad']:
            ck.violation(x, c)
    ck.sample('database shapes: ' + ', '.join(SHAPES))
    ck.cov['exhaustive'] = True
    ck.cov['rule'] = 'state = one file in place of the database; transition = one run of the address-sanitized program on it'
    ck.assumptions += ['databases have at least one indexed word']


mx.main(check, 'P30', 'model_checking')
