"""P27: mail that cannot be read for once is not lost.
The real program under lib/mxtrace.c: every system call by which it looks at folders, reads mail or unpacks it is made
to fail, alone or together with all later ones on the same path; see DESIGN.md."""
import bz2, gzip, hashlib, lzma, os, shutil, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import mx, corpus
from corpus import msg

FL = corpus.FROMLINE
OUTFROM = b'From mairix@mairix Mon Jan  1 12:34:56 1970\n'
T0 = 10 ** 9
ENOENT, EIO, ENOMEM, EACCES, EMFILE = 2, 5, 12, 13, 24
IDX = ['--force-hash-key-new-database', '17']


def m(i, big=0):
    return msg(subject='only%s common' % i, frm='a%s@x.yy' % i, mid='<m%s@q>' % i, irt='<r@q>' if i in ('n1', 'b1') else None,
               body='body%s words\n' % i + 'filler text\n' * big, date='Mon, 5 Jan 2001 10:00:00 +0000')


def box(*ids):
    return b''.join(FL + m(i) + b'\n' for i in ids)


def gz(data):
    return gzip.compress(data, 6, mtime=0)


FILES = {'box.gz': gz(box('z0')), 'md/new/n1': m('n1'), 'md/cur/c1:2,S': m('c1'), 'top/a/md2/cur/e1:2,F': m('e1'),
         'mh/.mh_sequences': b'', 'mh/1': m('h1'), 'mh/2': m('h2', 3), 'box': box('b0', 'b1', 'b2'), 'mbx/box2': box('k0'),
         'md/new/g1.gz': gz(m('g1')), 'box.xz': lzma.compress(box('y0', 'y1')), 'wild1/cur/w1': m('w1')}
PEND = {'box.gz': gz(box('z0', 'z1')), 'box': box('b0', 'b1', 'b2', 'b3'), 'md/new/p1': m('p1'), 'md/cur/c2:2,R': m('c2', 2), 'mh/5': m('h5'),
        'box.bz2': bz2.compress(box('j0', 'j1')), 'md/new/g2.gz': m('g2'), 'wild2/new/w2': m('w2'), 'mbx/k3': box('k3')}
REWR = {'md/new/n1': m('n1', 5), 'mh/2': m('h2', 6), 'box': box('b0', 'b1'), 'box.gz': gz(box('z1', 'z0')), 'md/cur/c1:2,FS': m('c1')}
GONE = ('md/cur/c1:2,S', 'mh/1', 'mbx/box2')

def big(*ids):
    """an mbox of more than one unit of decompression (8 MB), with something incompressible near the end"""
    noise = b''.join(hashlib.sha256(b'%d' % k).hexdigest().encode() + b'\n' for k in range(700))
    a, b = [FL + m(i) for i in ids]
    return a + (b' ' * 69 + b'\n') * 125000 + b'\n' + b + noise + b'\n'


BIG = {}


def bigs():
    if not BIG:
        x, y = big('q0', 'q1'), big('v0', 'v1')
        half = y.index(FL, 10)
        BIG.update({'box.gz': gz(x), 'box.bz2': bz2.compress(y[:half]) + bz2.compress(y[half:]), 'box.xz': lzma.compress(big('u0', 'u1'), preset=0), 'md/new/n1': m('n1')})
    return BIG


KINDS = {'big': IDX, 'first': IDX, 'index': IDX, 'purge': IDX + ['-p'], 'fast': IDX + ['-F'], 'idle': IDX, 'idle purge': IDX + ['-p'], 'changed': IDX + ['-p'],
         'maildir': ['s:common'], 'mh-out': ['s:common'], 'mbox-out': ['s:common'], 'excerpt': ['-x', 's:common'],
         'hardlink': ['-H', 's:common'], 'raw': ['-r', 's:common']}
INDEXING = ('big', 'first', 'index', 'purge', 'fast', 'idle', 'idle purge', 'changed')


def unpack(p, data):
    for suf, f in (('.gz', gzip.decompress), ('.bz2', bz2.decompress), ('.xz', lzma.decompress)):
        if (p.endswith(suf) or suf + ':' in p) and data[:5] != b'From:' and data[:2] in (b'\x1f\x8b', b'BZ', b'\xfd7'):
            return f(data)
    return data


def ids_of(files):
    out = {}
    for p, data in files.items():
        for part in unpack(p, data).split(FL):
            if b'only' in part:
                out[part.split(b'only', 1)[1].split(b' ', 1)[0].decode()] = p
    return out


def affected(path, ids):
    """messages that a failure at path may cost"""
    if path.startswith('/tmp'):
        return {i for i, p in ids.items() if any(x in p for x in ('.gz', '.bz2', '.xz'))}
    path = path.split(' ')[0].strip('/')
    last = path.split('/')[-1]
    if last in ('cur', 'new', 'tmp') or last.startswith('.') or last in ('mh_profile', 'context'):
        path = path[:-len(last)].strip('/')
    if path == '':
        return set(ids)
    return {i for i, p in ids.items() if p == path or p.startswith(path + '/')}


def strip(x):
    if x.startswith(b'X-source-folder: '):
        x = x.split(b'\n', 1)[1]
    return x.rstrip(b'\n')


class W:
    def __init__(self, tools):
        self.t = tools
        self.d = d = mx.scratch()
        self.drv = mx.Driver(tools['plain'])
        self.runs = 0
        self.scen = {}
        kw = dict(maildir='md:top...:wild*', mh='mh', mbox='box:box.gz:box.bz2:box.xz:mbx...', base=d + '/mail')
        self.rc = {}
        for k, fm in (('maildir', 'maildir'), ('mh-out', 'mh'), ('mbox-out', 'mbox')):
            self.rc[k] = corpus.write_rc(d, mfolder=d + '/mf/out', mformat=fm, name='rc-' + k, db=d + '/dbd/db', **kw)

    def close(self):
        self.drv.close()
        shutil.rmtree(self.d, ignore_errors=True)

    def mail(self, files):
        d = self.d + '/mail'
        shutil.rmtree(d, ignore_errors=True)
        for p, data in sorted(files.items()):
            q = d + '/' + p
            if '/cur/' in p or '/new/' in p:
                corpus.mkmaildir(os.path.dirname(os.path.dirname(q)))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            mx.write(q, data)
            t = T0 + sum(p.encode()) + 3 * len(data) + (50 if p in REWR and data == REWR[p] else 0)
            os.utime(q, (t, t))

    def index(self):
        self.runs += 1
        r = self.drv.run(['-f', self.rc['maildir']] + IDX)
        return r

    def answers(self, ids):
        out = {}
        for q in [['-x', 's:~nosuch']] + [['-r', 's:only' + i] for i in ids] + [['-r', x] for x in (
                'b:words', 'b:filler', 'F:s', 'F:-s', 'F:f', 'z:-200', 'z:200-', 'm:mb1@q', 'd:20010101-20010110', 'p:cur')] + [['-t', '-r', 'm:mb1@q']]:
            self.runs += 1
            r = self.drv.run(['-f', self.rc['maildir']] + q)
            out[' '.join(q)] = (r.code, tuple(sorted(r.out.split(b'---------------------------------' if q[0] == '-x' else b'\n'))))
        return out

    def prepare(self, kind):
        """folders, database and right answers of a kind of run"""
        if kind not in self.scen:
            before = dict(FILES)
            now = dict(FILES, **PEND)
            if kind == 'changed':
                before = dict(FILES, **PEND)
                now = {p: v for p, v in dict(before, **REWR).items() if p not in GONE}
            elif kind == 'big':
                before = {}
                now = bigs()
            elif kind.startswith('idle') or kind not in INDEXING:
                before = now
            old = None
            shutil.rmtree(self.d + '/dbd', ignore_errors=True)
            os.mkdir(self.d + '/dbd')
            if kind not in ('first', 'big'):
                self.mail(before)
                r = self.index()
                if r.code != 0:
                    raise AssertionError('reference run failed: %r' % r)
                old = open(self.d + '/dbd/db', 'rb').read()
            self.mail(now)
            shutil.rmtree(self.d + '/dbd', ignore_errors=True)
            os.mkdir(self.d + '/dbd')
            r = self.index()
            if r.code != 0:
                raise AssertionError('reference run failed: %r' % r)
            ids = ids_of(now)
            ref = self.answers(ids)
            for i in ids:
                if ref['-r s:only' + i][0] != 0 or not ref['-r s:only' + i][1]:
                    raise AssertionError('%s: message %s is not found' % (kind, i))
            self.scen[kind] = dict(old=old, now=now, ids=ids, ref=ref, oldids=ids_of(before))
        self.current = kind
        self.mail(self.scen[kind]['now'])
        return self.scen[kind]

    def reset(self, s):
        for x in ('dbd', 'mf'):
            shutil.rmtree(self.d + '/' + x, ignore_errors=True)
            os.mkdir(self.d + '/' + x)
        if s['old'] is not None:
            mx.write(self.d + '/dbd/db', s['old'])

    def trace(self, kind, *opts):
        self.runs += 1
        cmd = [self.t['mxtrace'], '-w', self.d + '/mail'] + (['-w', '/tmp'] if not self.d.startswith('/tmp') else ['-w', '/tmp/#', '-w', '/tmp/tmpf']) + ['-o', self.d + '/o'] + list(opts) + \
            ['--', self.t['binary'], '-f', self.rc.get(kind, self.rc['maildir'])] + KINDS[kind]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=self.d,
                           env={'PATH': '/usr/bin:/bin', 'HOME': '/nonexistent', 'TZ': 'UTC', 'LC_ALL': 'C'})
        ev, code, z = [], None, False
        for l in p.stdout.decode('latin1').splitlines():
            f = l.split(' ')
            if f[0] == 'E':
                ev.append((f[3], int(f[4]), ' '.join(f[5:]).replace(self.d + '/mail', '').replace(' (deleted)', '')))
            elif f[0] == 'X':
                st = int(f[2])
                code = -os.WTERMSIG(st) if os.WIFSIGNALED(st) else os.WEXITSTATUS(st)
            elif f[0] == 'Z':
                z = True
        if p.returncode not in (0, 4) or (not z and code is None):
            raise mx.CheckError('mxtrace: %r %r' % (p.returncode, p.stderr[-300:]))
        return dict(ev=ev, code=code, hang=z)

    def err(self):
        return open(self.d + '/o.0.err', 'rb').read()

    def left(self):
        return sorted(os.listdir(self.d + '/dbd'))


def judge_index(w, s, t, hit):
    ids = s['ids']
    if t['hang']:
        return 'hangs'
    if t['code'] < 0:
        return 'dies of signal %d' % -t['code']
    if [x for x in w.left() if x != 'db']:
        return 'leaves %s in the database directory' % w.left()
    if t['code'] != 0:
        if (open(w.d + '/dbd/db', 'rb').read() if w.left() else None) != s['old']:
            return 'fails (%d) but changes the database' % t['code']
        if not w.err():
            return 'fails (%d) without a message' % t['code']
    elif w.left():
        for i in ids:
            if i not in hit:
                w.runs += 1
                r = w.drv.run(['-f', w.rc['maildir'], '-r', 's:only' + i])
                if r.code != 0 or len(r.out.splitlines()) != 1:
                    return 'message %s in %s, which was not involved, is not found afterwards (exit %s: %r)' % (i, ids[i], r.code, r.out + r.err[-200:])
    elif len(hit) < len(ids):
        return 'leaves no database'
    r = w.index()
    if r.code != 0:
        return 'the next indexing run fails: %r' % r
    a = w.answers(ids)
    for q in a:
        if a[q] != s['ref'][q]:
            x, y = set(a[q][1]), set(s['ref'][q][1])
            return 'after the next run %s: exit %s instead of %s, missing: %s, wrong: %s' % (q, a[q][0], s['ref'][q][0], sorted(y - x)[:3], sorted(x - y)[:3])
    return None


def results(w, kind):
    o = w.d + '/mf/out'
    if kind == 'mbox-out':
        data = open(o, 'rb').read() if os.path.exists(o) else b''
        parts = data.split(OUTFROM)
        return ([b'?' + parts[0]] if parts[0] else []) + parts[1:]
    out = []
    for dp, dn, fn in os.walk(o):
        for f in fn:
            out.append(open(os.path.join(dp, f), 'rb').read())
    return out


def judge_search(w, s, t, hit, kind, whole):
    if t['hang']:
        return 'hangs'
    if t['code'] < 0:
        return 'dies of signal %d' % -t['code']
    if w.left() != ['db'] or open(w.d + '/dbd/db', 'rb').read() != s['old']:
        return 'changes the database or leaves something beside it: %s' % w.left()
    ids = s['ids']
    if whole and t['code'] != 0:
        return 'ends with %d: %r' % (t['code'], w.err()[-300:])
    if kind == 'raw':
        n = len(open(w.d + '/o.0.out', 'rb').read().splitlines())
        return None if n == len(ids) else 'lists %d of %d messages' % (n, len(ids))
    if kind == 'excerpt':
        got = [x.split(b'\n')[0].split(b' ')[0].decode() for x in open(w.d + '/o.0.out', 'rb').read().split(b'Subject:     only')[1:]]
    else:
        body = {}
        for i, p in ids.items():
            for part in unpack(p, s['now'][p]).split(FL):
                if part and part.split(b'only', 1)[1].split(b' ', 1)[0].decode() == i:
                    body[strip(part)] = i
                    if kind != 'mbox-out' and p.startswith('md/') and '.gz' in p:
                        body[strip(s['now'][p])] = i
        got = []
        for x in results(w, kind):
            if strip(x) not in body:
                return 'delivers something that was not searched for: %r' % x[:200]
            got.append(body[strip(x)])
    for i in ids:
        n = got.count(i)
        if n > 1 or (n == 0 and (whole or i not in hit)):
            return 'message %s in %s is delivered %d times' % (i, ids[i], n)
        if n == 0 and t['code'] == 0 and not w.err():
            return 'message %s in %s is left out without a warning' % (i, ids[i])
    return None


def job(w, a):
    kind, k, n, errs = a
    out = dict(bad=[], points=0, states=0, outcomes=set(), sample=None)
    r0 = w.runs
    s = w.prepare(kind)
    w.reset(s)
    ref = w.trace(kind)
    bad = judge_index(w, s, ref, set()) if kind in INDEXING else judge_search(w, s, ref, set(), kind, True)
    if bad or ref['code'] != 0:
        out['bad'].append(('%s run without any failure: exit %s, %s' % (kind, ref['code'], bad), dict(kind=kind)))
    for e, (name, ret, path) in enumerate(ref['ev']):
        if e % n != k or name in ('lseek', 'munmap'):
            continue
        for opt, err in errs + ([('-e', 'short')] if name == 'read' and ret > 1 or name == 'write' else []):
            if opt == '-E' and (name in ('close', 'fstat') or kind == 'idle purge'):
                continue
            w.reset(s)
            t = w.trace(kind, opt, '0,%d,%s' % (e, err))
            out['points'] += 1
            out['states'] += len(t['ev'])
            hit = set() if err == 'short' else affected(path, dict(s['oldids'], **s['ids']))
            bad = judge_index(w, s, t, hit) if kind in INDEXING else judge_search(w, s, t, hit, kind, err == 'short')
            out['outcomes'].add((kind, name, path, t['code'], err))
            if bad:
                out['bad'].append(('%s run, %s of %s (event %d) fails with %s%s: exit %s; %s' % (
                    kind, name, path, e, err, ' and so on' if opt == '-E' else '', t['code'], bad),
                    dict(kind=kind, event=e, call=name, path=path, error=err, sticky=opt == '-E')))
        if len(out['bad']) > (3 if not os.environ.get('MX_ALL') else 999):
            break
    out['runs'] = w.runs - r0
    if k == 0:
        out['sample'] = '%s: %d system calls on mail' % (kind, len(ref['ev']))
    return out


def check(ck):
    tools = mx.build(('plain',))
    th = ck.thorough
    jobs = []
    only = os.environ.get('MX_ONLY')
    for kind in KINDS:
        if only and kind not in only.split(','):
            continue
        n = 24 if kind in INDEXING else 2
        for k in range(n):
            errs = [('-e', EIO), ('-E', EACCES)]
            if th:
                errs += [('-e', EMFILE), ('-e', ENOMEM), ('-e', ENOENT), ('-e', EACCES), ('-E', EIO), ('-E', ENOENT)]
            jobs.append((kind, k, n, errs[:1] if kind == 'big' and not th else errs))
    for k in ('states', 'transitions', 'traces_validated_against_impl'):
        ck.cov[k] = 0
    oc = set()
    for o in mx.pmap(job, jobs, init=lambda: W(tools)):
        ck.add('states', o['states'])
        ck.add('transitions', o['points'])
        ck.add('traces_validated_against_impl', o['runs'])
        oc |= o['outcomes']
        for x, c in o['bad']:
            ck.violation(x, c)
        if o['sample']:
            ck.sample(o['sample'])
    ck.cov['distinct_outcomes'] = len(oc)
    ck.cov['exhaustive'] = True
    ck.cov['rule'] = ('transition = one run with one failing system call on mail, folders or the temporary files for unpacking (alone, or together '
                      'with all later calls on the same path); state = one system call reached in such a run')
    ck.assumptions += ['failures of close and of mappings being taken back are without consequence for what was read']


mx.main(check, 'P27', 'model_checking')
