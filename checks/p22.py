"""P22: a search of mail that changed since the last indexing run gives the right message or none.
Every one-byte change, insertion and deletion, every truncation, every removal, exchange and insertion of messages of an
mbox that is indexed already, and every replacement of the file by something else, followed by searches into every kind of
match folder.  The oracle compares the bytes that are where the message was."""
import bz2, gzip, itertools, lzma, os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import mx, corpus
from corpus import msg

FL = corpus.FROMLINE
OUTFL = b'From mairix@mairix Mon Jan  1 12:34:56 1970\n'
OUT = ('mbox', 'maildir', 'mh', 'excerpt', 'raw')
COMP = {'': lambda x: x, '.gz': lambda x: gzip.compress(x, mtime=0), '.bz2': bz2.compress, '.xz': lzma.compress}
PARTS = [msg(subject='m%d all' % i, frm='p%d@x' % i, body=t) for i, t in enumerate(('one\n', '', 'three\nof\n'))]
OTHER = msg(subject='m9 all', frm='evil@x', body='other\n')


def box(parts):
    """bytes, [(start, length)]"""
    d, at = b'', []
    for p in parts:
        d += FL
        at.append((len(d), len(p) + 1))
        d += p + b'\n'
    return d, at


BASE, AT = box(PARTS)


class W:
    def __init__(self, exe):
        self.drv = mx.Driver(exe)
        self.d = mx.scratch()
        self.runs = 0
        self.suf = None

    def close(self):
        self.drv.close()
        shutil.rmtree(self.d, ignore_errors=True)

    def setup(self, suf):
        """index the box (and a file message and a second box) as they were"""
        if self.suf != suf:
            self.suf = suf
            shutil.rmtree(self.d, ignore_errors=True)
            os.makedirs(self.d + '/mail')
            self.path = self.d + '/mail/box' + suf
            self.rc = {f: corpus.write_rc(self.d, mbox='mail/*', maildir='md', mformat=f, mfolder='out/' + f, name='rc' + f)
                       for f in ('mbox', 'maildir', 'mh')}
            os.makedirs(self.d + '/out')
            mx.write(self.path, COMP[suf](BASE))
            mx.write(self.d + '/mail/zbox', FL + OTHER + b'\n')
            corpus.mkmaildir(self.d + '/md')
            mx.write(self.d + '/md/new/f', msg(subject='f all', frm='pf@x', body='file\n'))
            os.unlink(self.d + '/db') if os.path.exists(self.d + '/db') else None
            r = self.drv.run(['-f', self.rc['mbox'], '--force-hash-key-new-database', '17'])
            assert r.code == 0, r
            r = self.drv.run(['-f', self.rc['mbox'], '-r', 's:all'])
            assert len(r.lines) == len(PARTS) + 2, r
            self.db = open(self.d + '/db', 'rb').read()

    def put(self, kind, data):
        if os.path.isdir(self.path) and not os.path.islink(self.path):
            os.rmdir(self.path)
        elif os.path.lexists(self.path):
            os.unlink(self.path)
        if kind == 'data':
            mx.write(self.path, data)
        elif kind == 'dir':
            os.mkdir(self.path)
        elif kind == 'dangling':
            os.symlink('nowhere', self.path)
        elif kind == 'link':
            os.symlink('zbox', self.path)

    def outputs(self, fmt, opts):
        """[(messages found)], result"""
        o = self.d + '/out/' + fmt
        if '-a' not in opts:
            if os.path.isdir(o):
                shutil.rmtree(o)
            elif os.path.exists(o):
                os.unlink(o)
        self.runs += 1
        r = self.drv.run(['-f', self.rc[fmt]] + list(opts) + ['s:all'])
        got = []
        if fmt == 'mbox':
            if os.path.exists(o):
                got = open(o, 'rb').read().split(OUTFL)
                if got[0] != b'':
                    got = [b'??' + got[0]]
                else:
                    got = got[1:]
        else:
            for x in ('new', 'cur') if fmt == 'maildir' else ('',):
                p = o + '/' + x
                for n in sorted(os.listdir(p)):
                    q = p + '/' + n
                    if os.path.islink(q) and not os.path.exists(q):
                        got.append(b'dangling ' + os.fsencode(os.readlink(q)))
                    elif os.path.isfile(q):
                        got.append(open(q, 'rb').read())
        return got, r


def expected(w, now):
    """indices of the messages still where they were; now = plain bytes or None"""
    out = []
    for i, (s, n) in enumerate(AT):
        if now is not None and now[s:s + n] == BASE[s:s + n]:
            out.append(i)
    return out


def one(w, suf, kind, stored, now, what, fmts, opts=()):
    """stored = bytes of the file, now = what they mean"""
    bad = []
    w.put(kind, stored)
    keep = expected(w, now)
    head = {i: b'X-source-folder: ' + os.fsencode(w.path) + b'\n' + PARTS[i] for i in range(len(PARTS))}
    zhead = b'X-source-folder: ' + os.fsencode(w.d) + b'/mail/zbox\n' + OTHER
    filemsg = open(w.d + '/md/new/f', 'rb').read()
    for fmt in fmts:
        if fmt == 'raw' or fmt == 'excerpt':
            w.runs += 1
            r = w.drv.run(['-f', w.rc['mbox'], '-r' if fmt == 'raw' else '-x', 's:all'])
            if r.code != 0:
                bad.append('%s, %s: exit %r' % (what, fmt, r))
                continue
            if fmt == 'raw':
                exp = ['mbox:%s [%d,%d)' % (w.path, s, s + n) for s, n in AT]
                if [l for l in r.lines if w.path + ' ' in l] != exp:
                    bad.append('%s: raw lists %r' % (what, r.lines))
                continue
            seen = {}
            for x in r.out.decode('latin1').split('---------------------------------\n')[1:]:
                ls = x.split('\n')
                seen[ls[0]] = dict(m.groups() for m in (re.match(r'\s+([A-Za-z-]+):\s*(.*)$', l) for l in ls[1:]) if m)
            for i, (s, n) in enumerate(AT):
                h = seen.get('mbox:%s [%d,%d)' % (w.path, s, s + n))
                if h is None:
                    bad.append('%s: excerpt leaves message %d out' % (what, i))
                elif i in keep and (h.get('Subject'), h.get('From')) != ('m%d all' % i, 'p%d@x' % i):
                    bad.append('%s: excerpt of message %d, which is still there, is %r' % (what, i, h))
                elif i not in keep and h:
                    bad.append('%s: excerpt of message %d, which is not there any more, is %r' % (what, i, h))
            o = [h for k, h in seen.items() if '/zbox ' in k]
            if len(o) != 1 or o[0].get('Subject') != 'm9 all':
                bad.append('%s: excerpt of another mbox is %r' % (what, o))
        else:
            got, r = w.outputs(fmt, opts)
            if r.code != 0:
                bad.append('%s, %s: exit %r' % (what, fmt, r))
                continue
            exp = [head[i] for i in keep] + [zhead]
            exp.append((b'X-source-folder: ' + os.fsencode(w.d) + b'/md/new/f\n' if fmt == 'mbox' else b'') + filemsg)
            g2 = sorted(x.rstrip(b'\n') for x in got)
            e2 = sorted(x.rstrip(b'\n') for x in exp)
            if g2 != e2:
                extra = [x for x in g2 if x not in e2] or ['?']
                miss = [x for x in e2 if x not in g2]
                bad.append('%s, %s match folder: %s' % (what, fmt, ('message wrongly missing: %r' % miss[0]) if miss else
                                                        ('holds %r, which is not what was indexed' % extra[0][:200])))
        if r.err.find(b'checksums failed') < 0 and now and len(keep) < len(PARTS):
            bad.append('%s, %s: nothing said about messages that changed' % (what, fmt))
    return bad


def edits(group):
    """(what, new plain bytes) of one group of edits"""
    n = len(BASE)
    if group == 'flip':
        for i in range(n):
            for v in (BASE[i] ^ 1, 0):
                yield 'byte %d changed to %d' % (i, v), BASE[:i] + bytes([v]) + BASE[i + 1:]
    elif group == 'cut':
        for i in range(n):
            yield 'truncated to %d bytes' % i, BASE[:i]
    elif group == 'grow':
        for i in range(n + 1):
            yield 'byte inserted at %d' % i, BASE[:i] + b'z' + BASE[i:]
            if i < n:
                yield 'byte %d removed' % i, BASE[:i] + BASE[i + 1:]
    elif group == 'swap':
        for i in range(n - 1):
            if BASE[i] != BASE[i + 1]:
                yield 'bytes %d and %d exchanged' % (i, i + 1), BASE[:i] + BASE[i + 1:i + 2] + BASE[i:i + 1] + BASE[i + 2:]
    else:
        new = [PARTS[0], PARTS[1], PARTS[2], OTHER, PARTS[0][:-1] + b'!\n']
        for k in range(0, 5):
            for sel in itertools.product(range(len(new)), repeat=k):
                if k == 4 and sel[0] > 1:
                    continue
                yield 'messages now %s' % (sel,), box([new[i] for i in sel])[0]


def run(w, job):
    suf, group, lo, step, fmts = job
    out = dict(bad=[], states=0, trans=0, runs=0, sample=None)
    w.setup(suf)
    r0 = w.runs
    if group == 'files':
        files(w, out)
        out['runs'] = w.runs - r0
        return out
    if group == 'kinds':
        cases = [('data', BASE, BASE, 'unchanged')] if not suf else []
        cases += [(k, b'', None, 'mbox replaced by ' + k) for k in ('gone', 'dir', 'dangling')]
        cases.append(('data', b'', None, 'mbox emptied'))
        if not suf:
            cases.append(('link', b'', FL + OTHER + b'\n', 'mbox replaced by a link to another mbox'))
    elif group == 'stored':     # damage to the compressed file: whatever it decompresses to, only unchanged messages come out
        c = COMP[suf](BASE)
        cases = [('data', c[:i], None, 'compressed file truncated to %d' % i) for i in range(len(c))]
    else:
        cases = [('data', COMP[suf](x), x, what) for what, x in edits(group)]
    for kind, stored, now, what in cases[lo::step]:
        what = 'box%s: %s' % (suf, what)
        if group == 'stored':
            bad = damaged(w, kind, stored, what, fmts)
        else:
            bad = one(w, suf, kind, stored, now, what, fmts)
            if not bad and group == 'parts' and 'maildir' in fmts:
                bad = augment(w, kind, stored, now, what)
        out['states'] += 1
        out['trans'] += len(fmts)
        out['sample'] = what
        for b in bad:
            out['bad'].append((b, dict(case=what)))
        if open(w.d + '/db', 'rb').read() != w.db:
            out['bad'].append((what + ': the search changed the database', {}))
        if kind == 'data' and open(w.path, 'rb').read() != stored:
            out['bad'].append((what + ': the search changed the mbox', {}))
        if len(out['bad']) > 3:
            break
    out['runs'] = w.runs - r0
    return out


def damaged(w, kind, stored, what, fmts):
    """what is copied out of a damaged compressed mbox is a message as it was indexed"""
    w.put(kind, stored)
    ok = [p.rstrip(b'\n') for p in PARTS]
    for fmt in fmts:
        if fmt in ('raw', 'excerpt'):
            continue
        got, r = w.outputs(fmt, ())
        if r.code != 0:
            return ['%s, %s: exit %r' % (what, fmt, r)]
        mine = [x for x in got if x.startswith(b'X-source-folder: ' + os.fsencode(w.path) + b'\n')]
        for x in mine:
            if x.split(b'\n', 1)[1].rstrip(b'\n') not in ok:
                return ['%s, %s match folder: holds %r' % (what, fmt, x[:200])]
        if len(got) - len(mine) != 2:
            return ['%s, %s match folder: %d messages of the other folders' % (what, fmt, len(got) - len(mine))]
    return []


def augment(w, kind, stored, now, what):
    """with -a, a stale search leaves what the search before the change put there"""
    bad = []
    for fmt in ('maildir', 'mh', 'mbox'):
        w.put('data', COMP[w.suf](BASE))
        g0, r = w.outputs(fmt, ())
        w.put(kind, stored)
        g1, r = w.outputs(fmt, ('-a',))
        left = list(g1)
        for x in g0:
            if x not in left:
                bad.append('%s, %s match folder with -a: %r is gone' % (what, fmt, x[:80]))
                break
            left.remove(x)
        for x in left:
            if x not in g0:
                bad.append('%s, %s match folder with -a: %r was added' % (what, fmt, x[:80]))
                break
    return bad


def files(w, out):
    """messages in their own files that vanished or changed"""
    p = w.d + '/md/new/f'
    orig = open(p, 'rb').read()
    new = msg(subject='g other', frm='pg@x', body='other\n')
    w.put('data', COMP[w.suf](BASE))
    for kind in ('gone', 'cur', 'empty', 'other', 'longer', 'dir', 'dangling'):
        os.unlink(p)
        now = None
        if kind == 'cur':
            mx.write(w.d + '/md/cur/f:2,S', orig)
        elif kind == 'empty':
            mx.write(p, b'')
            now = b''
        elif kind == 'other':
            now = new
            mx.write(p, new)
        elif kind == 'longer':
            now = orig + b'x' * 5000
            mx.write(p, now)
        elif kind == 'dir':
            os.mkdir(p)
        elif kind == 'dangling':
            os.symlink('nowhere', p)
        what = 'file message: ' + kind
        for fmt in ('mbox', 'maildir', 'mh'):
            for opts in ((), ('-H',)):
                got, r = w.outputs(fmt, opts)
                out['trans'] += 1
                exp = [b'X-source-folder: ' + os.fsencode(w.path) + b'\n' + x for x in PARTS]
                exp.append(b'X-source-folder: ' + os.fsencode(w.d) + b'/mail/zbox\n' + OTHER)
                src = b'X-source-folder: ' + os.fsencode(p) + b'\n' if fmt == 'mbox' else b''
                g = sorted(x.rstrip(b'\n') for x in got if not x.startswith(b'dangling '))
                allowed = [sorted(x.rstrip(b'\n') for x in exp)]
                if now is not None:
                    mine = sorted(x.rstrip(b'\n') for x in exp + [src + now])
                    allowed = [mine] if now else allowed + [mine]
                if r.code != 0 or g not in allowed:
                    out['bad'].append(('%s, %s match folder %s: exit %d, %r' % (what, fmt, opts, r.code, g), dict(case=what)))
        r = w.drv.run(['-f', w.rc['mbox'], '-x', 's:all'])
        w.runs += 1
        blocks = [x for x in r.out.split(b'---------------------------------\n')[1:]]
        mine = [x for x in blocks if x.startswith(os.fsencode(p) + b'\n')]
        sub = None if now is None or kind == 'empty' else 'g other' if now is new else 'f all'
        m = mine and re.search(rb'Subject:\s*(.*)\n', mine[0])
        if r.code != 0 or len(blocks) != len(PARTS) + 2 or len(mine) != 1 or (m and m.group(1).decode()) != sub:
            out['bad'].append(('%s: excerpt %r' % (what, r), dict(case=what)))
        out['states'] += 1
        out['sample'] = what
        os.path.isdir(p) and os.rmdir(p)
        for x in (p, w.d + '/md/cur/f:2,S'):
            if os.path.lexists(x):
                os.unlink(x)
        mx.write(p, orig)


def check(ck):
    exe = mx.build(('plain', 'asan'))
    js = []
    full = ('flip', 'cut', 'grow', 'swap', 'parts', 'kinds')
    for suf in COMP:
        for g in full + (('stored',) if suf else ()):
            if suf and not ck.thorough and g in ('flip', 'grow', 'swap'):
                continue
            js += [(suf, g, k, 8, OUT if not suf or ck.thorough else ('mbox', 'maildir', 'excerpt')) for k in range(8)]
    js.append(('', 'files', 0, 1, OUT))
    for k in ('states', 'transitions', 'traces_validated_against_impl'):
        ck.cov[k] = 0
    for o in mx.pmap(run, js, init=lambda: W(exe['asan'] if ck.thorough else exe['plain'])):
        ck.add('states', o['states'])
        ck.add('transitions', o['trans'])
        ck.add('traces_validated_against_impl', o['runs'])
        for w_, c in o['bad']:
            ck.violation(w_, c)
        if o['sample']:
            ck.sample(o['sample'])
    # memory errors: the cuts and replacements again under AddressSanitizer
    if not ck.thorough:
        js = [(suf, g, k, 4, ('mbox', 'maildir', 'excerpt')) for suf in ('', '.gz') for g in ('cut', 'kinds') for k in range(4)]
        js.append(('', 'files', 0, 1, OUT))
        for o in mx.pmap(run, js, init=lambda: W(exe['asan'])):
            ck.add('states', o['states'])
            ck.add('transitions', o['trans'])
            ck.add('traces_validated_against_impl', o['runs'])
            for w_, c in o['bad']:
                ck.violation(w_, c)
    ck.cov['exhaustive'] = True
    ck.cov['rule'] = ('state = one change of an indexed mbox; transition = one search after it, compared with the bytes that are '
                      'now where each message was; trace = one run of the real program')
    ck.assumptions.append('of a copied mbox message trailing newlines are not compared')
    ck.assumptions.append('a message is still there if the bytes at its indexed position, including the newline that ends it, are '
                          'the same')


mx.main(check, 'P22', 'model_checking')
