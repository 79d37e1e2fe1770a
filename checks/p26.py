"""P26: mail that arrives, moves or goes away while mairix runs.
The real program next to a mail program (lib/mailop.c) under lib/mxtrace.c: all placements of the steps of the mail
program between the system calls of an indexing run or a search, up to a preemption bound; see DESIGN.md."""
import gzip, os, shutil, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import mx, corpus, outw
from corpus import msg

FL = corpus.FROMLINE
T0 = 10 ** 9


def m(i, big=0):
    return msg(subject='only%s common' % i, frm='a%s@x.yy' % i, mid='<m%s@q>' % i, irt='<r@q>' if i in ('n1', 'b1') else None,
               body='body%s words\n' % i + 'filler text\n' * big, date='Mon, 5 Jan 2001 10:00:00 +0000')


def box(*ids):
    return b''.join(FL + m(i) + b'\n' for i in ids)


def gz(*ids):
    return gzip.compress(box(*ids), 6, mtime=0)


FILES = {'box.gz': gz('z0'), 'md/new/n1': m('n1'), 'md/cur/c1:2,S': m('c1'), 'md2/cur/e1:2,F': m('e1'), 'mh/.mh_sequences': b'', 'mh/1': m('h1'), 'mh/2': m('h2', 3),
         'box': box('b0', 'b1', 'b2'), 'box2': box('k0')}
PEND = {'box.gz': gz('z0', 'z1'), 'box': box('b0', 'b1', 'b2', 'b3'), 'md/new/p1': m('p1'), 'md/cur/c2:2,R': m('c2', 2), 'mh/5': m('h5')}
SRC = {'gz2': gz('z0', 'z1', 'x1'), 'gz3': gz('x345', 'z1'), 'gz4': gzip.compress(m('x2', 5), 6, mtime=0), 'x1': m('x1'), 'x2': m('x2', 5), 'bx': box('x1'), 'bx2': box('x1', 'x2'), 'box-1': box('b1', 'b2'),
       'box-01': box('b2'), 'box-mid': box('b0', 'b2'), 'box-new': box('x2', 'b0', 'b1', 'b2'), 'box-other': box('x1', 'x2', 'b1'),
       'empty': b'', 'h2b': m('h2x', 7)}

# name -> operations; messages of files that are named here count as touched, unless listed in KEEP
OPS = {
    'deliver': 'create md/tmp/x SRC/x1 rename md/tmp/x md/new/x',
    'deliver by link': 'create md/tmp/x SRC/x1 link md/tmp/x md/new/x unlink md/tmp/x',
    'see': 'rename md/new/n1 md/cur/n1:2,S',
    'see in two steps': 'rename md/new/n1 md/cur/n1:2, rename md/cur/n1:2, md/cur/n1:2,FS',
    'see the new one': 'rename md/new/p1 md/cur/p1:2,S',
    'flag': 'rename md/cur/c1:2,S md/cur/c1:2,FS',
    'flag and back': 'rename md/cur/c1:2,S md/cur/c1:2,FS rename md/cur/c1:2,FS md/cur/c1:2,S',
    'delete': 'unlink md/new/n1',
    'delete the new one': 'unlink md/cur/c2:2,R',
    'delete and deliver': 'unlink md/cur/c1:2,S create md/cur/c1:2,S SRC/x2',
    'move': 'rename md/new/n1 md2/new/n1',
    'move by link': 'link md/cur/c1:2,S md2/cur/c1:2,S unlink md/cur/c1:2,S',
    'move the new one': 'rename md/new/p1 md2/cur/p1:2,',
    'mh add': 'create mh/6 SRC/x1',
    'mh add in halves': 'half mh/6 SRC/x2',
    'mh delete': 'unlink mh/1',
    'mh delete the new one': 'unlink mh/5',
    'mh pack': 'unlink mh/1 rename mh/2 mh/1 rename mh/5 mh/2',
    'mh over': 'rename mh/5 mh/1',
    'mh replace': 'create mh/,2 SRC/h2b rename mh/,2 mh/2',
    'mbox append': 'append box SRC/bx',
    'mbox append in halves': 'appendhalf box SRC/bx',
    'mbox append two': 'append box SRC/bx append box SRC/bx2',
    'mbox expunge first': 'create new SRC/box-1 rename new box',
    'mbox expunge middle': 'create new SRC/box-mid rename new box',
    'mbox insert': 'create new SRC/box-new rename new box',
    'mbox other': 'create new SRC/box-other rename new box',
    'mbox empty': 'create new SRC/empty rename new box',
    'mbox gone': 'unlink box',
    'mbox moved': 'rename box box3',
    'mbox new': 'create box3 SRC/bx2',
    'mbox new in halves': 'half box3 SRC/bx2',
    'mbox for folder': 'unlink box mkdir box',
    'folder new': 'mkdir top/f mkdir top/f/tmp mkdir top/f/new mkdir top/f/cur create top/f/new/x SRC/x1',
    'folder gone': 'unlink md2/cur/e1:2,F rmdir md2/cur rmdir md2/new rmdir md2/tmp rmdir md2',
    'folder renamed': 'rename md2 top/g',
    'mh folder renamed': 'rename mh mhold',
    'mbox rewritten': 'rewrite box SRC/box-01',
    'mbox emptied': 'rewrite box SRC/empty',
    'message rewritten': 'rewrite mh/2 SRC/x1',
    'mbox gone and back': 'rename box aside rename aside box',
    'message gone and back': 'rename md/new/p1 aside rename aside md/new/p1',
    'folder gone and back': 'rename md2 aside rename aside md2',
    'gz appended': 'create new SRC/gz2 rename new box.gz',
    'gz replaced': 'create new SRC/gz3 rename new box.gz',
    'gz gone': 'unlink box.gz',
    'gz rewritten': 'rewrite box.gz SRC/gz3',
    'gz message': 'create md/tmp/x SRC/gz4 rename md/tmp/x md/new/x.gz',
    'result read': 'rename MF/new/old1 MF/cur/old1:2,S',
    'result flagged': 'rename MF/cur/old2:2,S MF/cur/old2:2,FS',
    'result deleted': 'unlink MF/new/old1 unlink MF/cur/old2:2,S',
    'result dropped': 'unlink MF/1',
    'results gone': 'unlink MF',
}
RESULT = {'maildir': ('result read', 'result flagged', 'result deleted'), 'augment': ('result read', 'result flagged', 'result deleted'),
          'hardlink': ('result deleted',), 'mh-out': ('result dropped',), 'mbox-out': ('results gone',)}
RESULTS = {x for v in RESULT.values() for x in v}
KEEP = {'gz appended': ['z0', 'z1'], 'mbox append': ['b0', 'b1', 'b2', 'b3'], 'mbox append in halves': ['b0', 'b1', 'b2', 'b3'], 'mbox append two': ['b0', 'b1', 'b2', 'b3'],
        'mbox new': [], 'mbox new in halves': []}
RENUMBER = ('mh pack', 'mh over', 'mh replace', 'delete and deliver')
INPLACE = ('mbox rewritten', 'mbox emptied', 'message rewritten')
IDX = ['--force-hash-key-new-database', '17']
RUNS = {'index': IDX, 'purge': IDX + ['-p'], 'first': IDX, 'fast': IDX + ['-F'],
        'maildir': ['s:common'], 'mh-out': ['s:common'], 'mbox-out': ['s:common'], 'excerpt': ['-x', 's:common'],
        'threads': ['-t', 'm:mb1@q'], 'augment': ['-a', 's:common'], 'hardlink': ['-H', 's:common']}
PROBES = [['-x', 's:~nosuch']] + [['-r', q] for q in
          ['s:only%s' % i for i in ('n1', 'c1', 'c2', 'p1', 'e1', 'h1', 'h2', 'h5', 'b0', 'b1', 'b2', 'k0', 'z0', 'z1', 'x1', 'x2')] +
          ['b:words', 'b:filler', 'F:s', 'F:f', 'F:r', 'F:-s', 'z:150-', 'z:-150', 'p:cur', 'p:mh/1', 'd:20010101-20010110', 'm:mh1@q']] + \
    [['-t', '-r', 'm:mb1@q']]


def touched(name):
    return {w for w in OPS[name].split() if not w.startswith('SRC/')}


def ids_of(files, but=()):
    out = {}
    for p, data in files.items():
        if p in but or any(p.startswith(t + '/') for t in but):
            continue
        for part in (gzip.decompress(data) if p.endswith('.gz') else data).split(FL):
            if part:
                i = part.split(b'only', 1)[1].split(b' ', 1)[0].decode()
                out[i] = p
    return out


def schedule(pos):
    s, at = [], 0
    for p in pos:
        s += [0] * (p - at) + [1]
        at = p
    return s


class W:
    def __init__(self, tools):
        self.t = tools
        self.d = d = mx.scratch()
        self.drv = mx.Driver(tools['plain'])
        self.runs = 0
        os.mkdir(d + '/src')
        for k, v in SRC.items():
            mx.write(d + '/src/' + k, v)
        kw = dict(maildir='md:md2:top...', mh='mh', mbox='box:box2:box3:box.gz', base=d + '/mail', db=d + '/dbd/db')
        self.rc = {}
        for k, fm in (('maildir', 'maildir'), ('mh-out', 'mh'), ('mbox-out', 'mbox')):
            self.rc[k] = corpus.write_rc(d, mfolder=d + '/mf/out', mformat=fm, name='rc-' + k, **kw)
        kw['db'] = d + '/dbf'
        self.rcf = corpus.write_rc(d, mfolder=d + '/mff', name='rcf', **kw)
        self.nev, self.fresh = {}, {}
        self.old = None
        os.mkdir(d + '/dbd')
        self.mail(False)
        r = self.drv.run(['-f', self.rc['maildir']] + IDX)
        if r.code != 0:
            raise AssertionError('reference run failed %r' % r)
        self.old = open(d + '/dbd/db', 'rb').read()
        self.mail(True)
        r = self.drv.run(['-f', self.rc['maildir']] + IDX)
        self.full = open(d + '/dbd/db', 'rb').read()

    def close(self):
        self.drv.close()
        shutil.rmtree(self.d, ignore_errors=True)

    def mail(self, pend):
        d = self.d + '/mail'
        shutil.rmtree(d, ignore_errors=True)
        for f in ('md', 'md2'):
            corpus.mkmaildir(d + '/' + f)
        os.makedirs(d + '/top')
        os.makedirs(d + '/mh')
        for p, data in dict(FILES, **(PEND if pend else {})).items():
            mx.write(d + '/' + p, data)
            t = T0 + sum(p.encode()) + (7 if pend and p == 'box' else 0)     # no two files of the same size and time
            os.utime(d + '/' + p, (t, t))

    def reset(self, kind, name):
        self.mail(True)
        for x in ('dbd', 'mf'):
            shutil.rmtree(self.d + '/' + x, ignore_errors=True)
            os.mkdir(self.d + '/' + x)
        if name in RESULTS:
            o = self.d + '/mf/out'
            if 'MF/new' in OPS[name] or 'MF/cur' in OPS[name]:
                corpus.mkmaildir(o)
                for p in ('new/old1', 'cur/old2:2,S'):
                    os.symlink(self.d + '/mail/md/new/n1', o + '/' + p)
            elif 'MF/1' in OPS[name]:
                os.mkdir(o)
                for p in '123':
                    os.symlink(self.d + '/mail/md/new/n1', o + '/' + p)
            else:
                mx.write(o, OUTFROM + b'Subject: old\n\nold\n\n')
        if kind != 'first':
            mx.write(self.d + '/dbd/db', self.old if kind in ('index', 'purge', 'fast') else self.full)

    def argv(self, kind):
        return [self.t['binary'], '-f', self.rc.get(kind, self.rc['maildir'])] + RUNS[kind]

    def ops(self, name):
        a = []
        for w in OPS[name].split():
            a.append(self.d + '/src/' + w[4:] if w.startswith('SRC/') else w if w in
                     ('create', 'half', 'append', 'appendhalf', 'rewrite', 'rename', 'link', 'unlink', 'mkdir', 'rmdir')
                     else self.d + '/mf/out' + w[2:] if w == 'MF' or w.startswith('MF/') else self.d + '/mail/' + w)
        return [self.t['mailop']] + a

    def trace(self, cmds, sched=()):
        self.runs += 1
        cmd = [self.t['mxtrace'], '-m', '-w', self.d + '/mail', '-w', self.d + '/mf', '-o', self.d + '/o']
        if sched:
            cmd += ['-s', ','.join(map(str, sched))]
        for c in cmds:
            cmd += ['--'] + c
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=self.d,
                           env={'PATH': '/usr/bin:/bin', 'HOME': '/nonexistent', 'TZ': 'UTC', 'LC_ALL': 'C'})
        ev, status, z = [], {}, False
        for l in p.stdout.decode('latin1').splitlines():
            f = l.split(' ')
            if f[0] == 'E':
                ev.append((int(f[1]), f[3], int(f[4]), ' '.join(f[5:]).replace(self.d + '/mail', '').replace(self.d + '/', '/').replace(' (deleted)', '')))
            elif f[0] == 'X':
                s = int(f[2])
                status[int(f[1])] = -os.WTERMSIG(s) if os.WIFSIGNALED(s) else os.WEXITSTATUS(s)
            elif f[0] == 'Z':
                z = True
            elif f[0] == 'D':
                raise mx.CheckError('schedule diverged: %s' % ' '.join(cmd))
        if p.returncode not in (0, 4) or (not z and len(status) != len(cmds)):
            raise mx.CheckError('mxtrace: %r %r' % (p.returncode, p.stderr[-300:]))
        return dict(ev=ev, status=status, hang=z)

    def nops(self, name):
        if name not in self.nev:
            self.reset('index', name)
            t = self.trace([self.ops(name)])
            if t['status'][0] != 0:
                raise mx.CheckError('mail program fails: %s %r' % (name, open(self.d + '/o.0.err').read()))
            self.nev[name] = len(t['ev'])
        return self.nev[name]

    def run(self, kind, name, pos):
        """pos: for every step of the mail program the number of mairix events before it"""
        self.reset(kind, name)
        return self.trace([self.argv(kind), self.ops(name)], schedule(pos))

    def answers(self, rc):
        out = []
        for q in PROBES:
            self.runs += 1
            r = self.drv.run(['-f', rc] + q)
            ls = sorted(r.out.split(b'---------------------------------' if q[0] == '-x' else b'\n'))
            out.append((r.code, tuple(ls), b'' if r.code in (0, 1) else r.err[-200:]))
        return out

    def err(self, i):
        return open(self.d + '/o.%d.err' % i, 'rb').read()[-250:]


def judge_index(w, kind, name, t):
    code = t['status'][0]
    left = sorted(os.listdir(w.d + '/dbd'))
    if name in INPLACE and code == 7:
        if left not in (['db'], [], ['db', 'db.new'], ['db.new']):
            return 'leaves %s' % left
    elif code != 0:
        return 'the indexing run ends with %s (%r)' % (code, w.err(0))
    elif left != ['db']:
        return 'leaves %s in the database directory' % left
    else:
        ids = ids_of(dict(FILES, **PEND), touched(name))
        ids.update(dict.fromkeys(KEEP.get(name, ())))
        for i in sorted(ids):
            w.runs += 1
            r = w.drv.run(['-f', w.rc['maildir'], '-r', 's:only' + i])
            if r.code != 0 or len([l for l in r.out.split(b'\n') if l]) != 1:
                return 'message %s, which nothing happened to, is not found afterwards (exit %s: %r)' % (i, r.code, r.out + r.err[-200:])
    w.runs += 2
    r = w.drv.run(['-f', w.rc['maildir']] + IDX)
    if r.code != 0:
        return 'the next indexing run fails: %r' % r
    if name not in w.fresh:
        try:
            os.unlink(w.d + '/dbf')
        except FileNotFoundError:
            pass
        r = w.drv.run(['-f', w.rcf] + IDX)
        if r.code != 0:
            return 'indexing from scratch fails: %r' % r
        w.fresh[name] = w.answers(w.rcf)
    for q, a, b in zip(PROBES, w.answers(w.rc['maildir']), w.fresh[name]):
        if a != b:
            return 'after the next run %s: exit %s/%s, only here: %s, only from scratch: %s %r' % (
                ' '.join(q), a[0], b[0], sorted(set(a[1]) - set(b[1]))[:3], sorted(set(b[1]) - set(a[1]))[:3], a[2])
    return None


ALL = ids_of(dict(FILES, **PEND))


def out_messages(w, kind):
    """(path, bytes or None for a link that leads nowhere) of the match folder"""
    o = w.d + '/mf/out'
    if kind == 'mbox-out':
        data = open(o, 'rb').read() if os.path.exists(o) else b''
        return [('mbox', x) for x in outw_split(data)]
    res = []
    for dp, dn, fn in os.walk(o):
        for f in fn:
            p = os.path.join(dp, f)
            if f.startswith('.'):
                continue
            try:
                res.append((p, open(p, 'rb').read()))
            except FileNotFoundError:
                res.append((p, None))
    return res


OUTFROM = b'From mairix@mairix Mon Jan  1 12:34:56 1970\n'


def outw_split(data):
    parts = data.split(OUTFROM)
    return ([b'?' + parts[0]] if parts[0] else []) + parts[1:]


def strip(x):
    if x.startswith(b'X-source-folder: '):
        x = x.split(b'\n', 1)[1]
    return x.rstrip(b'\n')


def judge_search(w, kind, name, t):
    code = t['status'][0]
    left = sorted(os.listdir(w.d + '/dbd'))
    if left != ['db']:
        return 'leaves %s in the database directory' % left
    if open(w.d + '/dbd/db', 'rb').read() != w.full:
        return 'the search changes the database'
    if name in INPLACE and code == 7:
        return None
    if code != 0:
        return 'the search ends with %s (%r)' % (code, w.err(0))
    if kind == 'threads':
        want = {'n1', 'b1'}
    else:
        want = set(ALL)
    sure = {i for i in want if ALL[i] not in touched(name) and not any(ALL[i].startswith(x + '/') for x in touched(name))}
    if name in KEEP and KEEP[name]:
        sure |= set(KEEP[name]) & want
    if kind in ('excerpt', 'raw'):
        out = open(w.d + '/o.0.out', 'rb').read()
        if kind == 'raw':
            n = len([l for l in out.split(b'\n') if l])
            if n != len(want):
                return 'lists %d of %d messages' % (n, len(want))
            return None
        got = [x.split(b'\n')[0].split(b' ')[0].decode() for x in out.split(b'Subject:     only')[1:]]
        for i in sure:
            if got.count(i) != 1:
                return 'message %s, which nothing happened to, is shown %d times' % (i, got.count(i))
        if name not in INPLACE + RENUMBER and [i for i in got if i not in want]:
            return 'shows %s' % got
        return None
    got = []
    if name in ('results gone', 'result dropped'):
        return None
    body = {strip(m(i, {'h2': 3, 'c2': 2}.get(i, 0))): i for i in want}
    for p, x in out_messages(w, kind):
        if x is None:
            continue
        i = body.get(strip(x))
        if name in RESULTS and 'old' in os.path.basename(p) or name == 'result dropped' and os.path.islink(p) and \
                os.readlink(p).endswith('md/new/n1') and 'n1' in got:
            continue            # left over, or there before (-a)
        if i is None:
            if name in INPLACE + RENUMBER:
                continue        # it has the file name of one that was searched for
            return 'delivers something that was not searched for: %r' % x[:200]
        got.append(i)
    for i in sure:
        if got.count(i) != 1:
            return 'message %s, which nothing happened to, is delivered %d times' % (i, got.count(i))
    if name not in RENUMBER + INPLACE and len(set(got)) != len(got):
        return 'delivers messages twice: %s' % got
    return None


def paths(e):
    return [x for x in e[3].split(' ') if x]


def depends(e, opp):
    for a in paths(e):
        for b in opp:
            if a == b or b.startswith(a + '/') and b.count('/') == a.count('/') + 1 or a.startswith(b + '/'):
                return True
    return False


def explore(w, job):
    kind, name, bound, part, nparts = job
    out = dict(bad=[], runs=0, states=0, trans=0, outcomes=set(), sample=None)
    r0 = w.runs
    k = w.nops(name)
    seen = set()

    def one(pos):
        t = w.run(kind, name, pos)
        out['trans'] += 1
        out['states'] += len(t['ev'])
        if t['hang']:
            bad = 'hangs'
        elif t['status'][1] != 0 and name not in RESULTS:      # (the search may have removed it)
            raise mx.CheckError('mail program fails in %s/%s %s: %r' % (kind, name, pos, w.err(1)))
        else:
            bad = (judge_index if kind in ('index', 'purge', 'first', 'fast') else judge_search)(w, kind, name, t)
        out['outcomes'].add((kind, name, t['status'].get(0)))
        if bad:
            desc = [(i, e[1], e[3]) for i, e in enumerate(t['ev']) if e[0] == 1 or (i and t['ev'][i - 1][0] == 1)]
            out['bad'].append(('%s run while "%s" (%s) happens at %s: %s' % (kind, name, OPS[name], list(pos), bad),
                               dict(kind=kind, ops=OPS[name], positions=list(pos), around=desc)))
        return t

    def late(pos):
        """the trace of mairix with only the given steps done before it ends"""
        w.reset(kind, name)
        out['trans'] += 1
        return w.trace([w.argv(kind), w.ops(name)], schedule(pos) + [0])

    def rec(pos, frm, t, switches):
        """pos: what is fixed for the first steps; t: how mairix goes on when nothing else happens"""
        mair = [e for e in t['ev'] if e[0] == 0]
        mop = [e for e in t['ev'] if e[0] == 1]
        done = len(pos)
        for g in range(1, k - done + 1):
            last = done + g == k
            if not last and switches + 1 >= bound:
                continue
            grp = [p for e in mop[done:done + g] for p in paths(e)]
            for i in [i for i in range(frm, len(mair)) if depends(mair[i], grp)] + [len(mair)] * last:
                if (not pos and i % nparts != part) or len(out['bad']) > 3:
                    continue
                p2 = pos + (i,) * g
                if last:
                    if p2 not in seen:
                        seen.add(p2)
                        one(p2)
                else:
                    rec(p2, i + 1, late(p2), switches + 1)

    t = late(())
    rec((), 0, t, 0)
    out['runs'] = w.runs - r0
    if part == 0:
        out['sample'] = '%s / %s: %d schedules, %d events of mairix, %d steps of the mail program' % (
            kind, name, len(seen), len([e for e in t['ev'] if e[0] == 0]), k)
    return out


def check(ck):
    tools = mx.build(('plain',))
    jobs = []
    th = ck.thorough
    for kind in RUNS:
        for name in OPS:
            if name in RESULTS and name not in RESULT.get(kind, ()):
                continue
            idx = kind in ('index', 'purge', 'first', 'fast')
            if not th and name not in RESULTS and kind in ('fast', 'threads', 'augment', 'hardlink') and name not in ('see', 'move', 'mbox append', 'mbox expunge first', 'mh pack', 'mbox rewritten'):
                continue
            b = (3 if th else 2) if idx else (2 if th else 1)
            n = 8 if th else 2 if b > 1 else 1
            for p in range(n):
                jobs.append((kind, name, b, p, n))
    jobs.sort(key=lambda j: -len(OPS[j[1]]) * j[2])
    for k in ('states', 'transitions', 'traces_validated_against_impl'):
        ck.cov[k] = 0
    outcomes = set()
    for o in mx.pmap(explore, jobs, init=lambda: W(tools)):
        ck.add('states', o['states'])
        ck.add('transitions', o['trans'])
        ck.add('traces_validated_against_impl', o['runs'])
        outcomes |= o['outcomes']
        for x, c in o['bad']:
            ck.violation(x, c)
        if o['sample']:
            ck.sample(o['sample'])
    ck.cov['distinct_outcomes'] = len(outcomes)
    ck.cov['exhaustive'] = True
    ck.cov['rule'] = ('transition = one schedule of a run of mairix and a mail program; state = one event (system call or use of a '
                      'mapping) reached in one; up to %s groups of mail-program calls stay together, each placed before '
                      'every call of mairix that depends on it' % ('3 (2 for searches)' if th else '2 (1 for searches)'))
    ck.assumptions += ['a system call is atomic with respect to the mail program',
                       'one mail program at a time',
                       'a mapping is read in one step (the event "mapped"), except where the program truncates in place']


mx.main(check, 'P26', 'model_checking')
