"""World for searches with match folders: mail of every kind, match folders of every format, a model of what is in them."""
import gzip, os, shutil
import mx, corpus
from corpus import msg

FL = corpus.FROMLINE
OUTFL = b'From mairix@mairix Mon Jan  1 12:34:56 1970\n'


def content(i):
    s = 'm%d all' % i
    if i == 0:
        return msg(subject=s, frm='ann@x.yy', to='bob@x.yy', mid='<m0@q>', date='Mon, 1 Jan 2001 10:00:00 +0000',
                   body='plain text\n')
    if i == 1:
        return msg(subject=s, frm='ann@x.yy', to='bob@x.yy, carl@x.yy', cc='dan@x.yy', mid='<m1@q>', irt='<m0@q>',
                   date='Tue, 2 Jan 2001 10:00:00 +0000', body=b'line\r\n\xe9\xff\n\nFrom here on\nno newline at end')
    if i == 2:
        return msg(subject=s, frm='eve@x.yy', mid='<m2@q>', date='Wed, 3 Jan 2001 10:00:00 +0000', body='')
    if i == 3:
        return msg(subject=s, frm='eve@x.yy', to='bob@x.yy', mid='<m3@q>', irt='<m1@q>', date='Thu, 4 Jan 2001 10:00:00 +0000',
                   body='body\n>From quoted\n\n\n')
    if i == 4:
        return msg(subject=s, cc='dan@x.yy', mid='<m4@q>', body=b'\xe9\xfe text\n' + b'x' * 9000 + b'\n')
    if i == 5:
        return msg(subject=s, frm='fay@x.yy', mid='<m5@q>', date='Sat, 6 Jan 2001 10:00:00 +0000', body='last without newline')
    return msg(subject=s, frm='gus@x.yy', mid='<m6@q>', date='Sun, 7 Jan 2001 10:00:00 +0000', body='compressed\r\n')


N = 7
FILES = {0: 'md/new/a', 1: 'md/cur/b:2,FS', 2: 'mh/1'}
BOX = {3: 'boxA', 4: 'boxA', 5: 'boxB', 6: 'boxC.gz'}


class World:
    def __init__(self, exe, extra_rc=''):
        self.drv = mx.Driver(exe)
        self.root = mx.scratch()
        self.d = self.root + '/new/cur'        # names that mean something only directly above a message
        os.makedirs(self.d)
        self.extra_rc = extra_rc
        self.runs = 0
        self.rcs = {}
        for f in ('maildir', 'mh', 'mbox'):
            self.rcs[f] = corpus.write_rc(self.d, maildir='mail/md', mh='mail/mh', mbox='mail/box*', mformat=f,
                                          mfolder='outbox' if f == 'mbox' else 'out', db=self.d + '/db', name='rc' + f,
                                          extra=extra_rc)
        self.fresh()

    def close(self):
        self.drv.close()
        shutil.rmtree(self.root, ignore_errors=True)

    # mail
    def fresh(self):
        """all messages, no database, no match folder"""
        self.paths = dict(FILES)
        self.have = list(range(N))
        self.t = 10 ** 9
        for x in ('mail', 'out'):
            shutil.rmtree(self.d + '/' + x, ignore_errors=True)
        for x in ('outbox', 'db', 'db.new', 'db.lock'):
            if os.path.lexists(self.d + '/' + x):
                os.unlink(self.d + '/' + x)
        corpus.mkmaildir(self.d + '/mail/md')
        os.makedirs(self.d + '/mail/mh')
        mx.write(self.d + '/mail/mh/.mh_sequences', b'')
        for i, p in FILES.items():
            self._w(p, content(i))
        for b in sorted(set(BOX.values())):
            self._box(b)

    def _w(self, p, data):
        fp = self.d + '/mail/' + p
        mx.write(fp, data)
        os.utime(fp, (self.t, self.t))

    def _box(self, b):
        ids = [i for i in BOX if BOX[i] == b and i in self.have]
        data = b''
        for i in ids:
            data += FL + content(i) + (b'\n' if i < 5 else b'')
        if b.endswith('.gz'):
            data = gzip.compress(data, mtime=0)
        self._w(b, data)

    def delete(self, i):
        self.t += 10
        self.have.remove(i)
        if i in FILES:
            os.unlink(self.d + '/mail/' + self.paths[i])
        else:
            self._box(BOX[i])

    def rename(self, i, new):
        os.rename(self.d + '/mail/' + self.paths[i], self.d + '/mail/' + new)
        self.paths[i] = new

    def src(self, i):
        """path as mairix knows it"""
        return '%s/mail/%s' % (self.d, self.paths[i] if i in FILES else BOX[i])

    def index(self, *opts):
        self.runs += 1
        return self.drv.run(['-f', self.rcs['maildir'], '--force-hash-key-new-database', '17'] + list(opts))

    def search(self, fmt, ids, *opts):
        q = 's:' + '/'.join('m%d' % i for i in ids) if ids else 's:nothing'
        self.runs += 1
        return self.drv.run(['-f', self.rcs[fmt]] + list(opts) + [q])

    # match folders
    def view(self, fmt):
        """sorted list of (entry, bytes) in the match folder of a format; entry is ('L', target), ('R', ino)"""
        out = []
        d = self.d
        if fmt == 'mbox':
            p = d + '/outbox'
            if not os.path.lexists(p):
                return []
            data = open(p, 'rb').read()
            if data and not data.startswith(OUTFL):
                return [('?', data[:60])]
            pieces = data.split(OUTFL)[1:]
            for k, x in enumerate(pieces):
                if not x.endswith((b'\n\n', b'\n\r\n')):
                    return [('?', x[-60:])]         # a blank line is what ends a message for mail readers
                out.append(('M', x))
            return sorted(out)
        dirs = [d + '/out/new', d + '/out/cur'] if fmt == 'maildir' else [d + '/out']
        for x in dirs:
            if not os.path.isdir(x):
                continue
            for n in os.listdir(x):
                p = x + '/' + n
                if fmt == 'mh' and not n.isdigit():
                    continue
                if fmt == 'mh' and n.startswith('0'):
                    out.append(('?', n))        # not the name of an MH message
                    continue
                if os.path.islink(p):
                    out.append(('L', os.readlink(p)))
                elif os.path.isfile(p):
                    st = os.stat(p)
                    if st.st_nlink > 1:
                        out.append(('H', open(p, 'rb').read()))
                    else:
                        out.append(('C', open(p, 'rb').read()))
                else:
                    out.append(('?', n))
        return sorted(out, key=repr)

    def matches(self, fmt, entry, i, hard=False):
        """does this entry hold message i?"""
        k, v = entry
        c = content(i)
        if fmt == 'mbox':
            return k == 'M' and v in [b'X-source-folder: ' + self.src(i).encode() + b'\n' + c + b'\n' * n for n in range(3)]
        if i in FILES:
            if k == 'L':
                return v == self.src(i) and open(v, 'rb').read() == c
            return k == 'H' and v == c
        head = b'X-source-folder: ' + self.src(i).encode() + b'\n'
        return k == 'C' and v in (head + c, head + c[:-1] if c.endswith(b'\n\n') else head + c)

    def placed(self, ids):
        """a complaint about folder and flags of a maildir match folder's entries (one per message of ids)"""
        for x in ('new', 'cur'):
            for n in os.listdir(self.d + '/out/' + x):
                p = self.d + '/out/' + x + '/' + n
                if not os.path.isfile(p):
                    continue
                c = open(p, 'rb').read()
                link = os.path.islink(p) or os.stat(p).st_nlink > 1
                i = [i for i in ids if (c == content(i) if link else content(i).startswith(c.split(b'\n', 1)[1].rstrip(b'\n')))]
                if len(i) != 1:
                    continue
                src = self.paths[i[0]] if i[0] in FILES else ''
                flags = src.split(':2,')[1] if ':2,' in src else ''
                want = ('cur' if '/cur/' in src or src.startswith('mh') else 'new', ':2,' + flags if flags else '')
                got = (x, n[n.index(':'):] if ':' in n else '')
                if got != want:
                    return 'message m%d of %s is in %s with flags %r' % (i[0], src or 'an mbox', got[0], got[1])

    def foreign(self, fmt):
        """a mail reader at work in the match folder: a message of its own, and (maildir) new messages read"""
        d = self.d + '/out'
        if fmt == 'maildir' and os.path.isdir(d + '/cur'):
            for n in os.listdir(d + '/new'):
                os.rename(d + '/new/' + n, d + '/cur/' + n.split(':')[0] + ':2,S')
            mx.write(d + '/cur/999.1_2.host:2,', FOREIGN)
            mx.write(d + '/new/998.host', FOREIGN)
        elif fmt == 'mh' and os.path.isdir(d):
            mx.write(d + '/77', FOREIGN)
        elif fmt == 'mbox':
            with open(self.d + '/outbox', 'ab') as f:
                f.write(OUTFL + FOREIGN)

    # whole mail tree
    def mail(self):
        out = {}
        for r, ds, fs in os.walk(self.d + '/mail'):
            out[r] = ('d', os.lstat(r).st_mode, tuple(sorted(ds + fs)))
            for n in fs:
                p = r + '/' + n
                s = os.lstat(p)
                out[p] = (s.st_ino, s.st_mode, s.st_mtime_ns, s.st_size, os.readlink(p) if os.path.islink(p) else open(p, 'rb').read())
        return out


FOREIGN = b'From: reader\nSubject: foreign\n\nput here by a mail reader\n\n'


def assign(w, fmt, view, ids):
    """match entries with messages; returns (counts per id, leftover entries)"""
    cnt = {i: 0 for i in ids}
    left = []
    for e in view:
        for i in ids:
            if w.matches(fmt, e, i):
                cnt[i] += 1
                break
        else:
            left.append(e)
    return cnt, left


def judge(w, fmt, before, ids, aug):
    """match folder after a search for ids"""
    view = w.view(fmt)
    if not aug:
        cnt, left = assign(w, fmt, view, ids)
        if left:
            return 'holds what was not asked for or has wrong content: %r' % (short(left[0]),)
        wrong = [i for i in ids if cnt[i] != 1]
        if wrong:
            return 'message m%d is there %d times' % (wrong[0], cnt[wrong[0]])
        return w.placed(ids) if fmt == 'maildir' and os.path.isdir(w.d + '/out/new') else None
    rest = list(view)
    for e in before:
        if e in rest:
            rest.remove(e)
        else:
            return 'with -a lost %r' % (short(e),)
    cnt, left = assign(w, fmt, rest, ids)
    if left:
        return 'with -a got something strange: %r' % (short(left[0]),)
    c0, _ = assign(w, fmt, before, ids)
    for i in ids:
        if cnt[i] > 1:
            return 'with -a message m%d was added %d times' % (i, cnt[i])
        if cnt[i] + c0[i] < 1:
            return 'with -a message m%d is missing' % i
    return None


def short(e):
    return (e[0], e[1][-120:] if len(e[1]) > 120 else e[1])
