"""P20: IMAP folders.  The real program talks through imap_pipe to lib/fakeimap.c, which serves mailboxes kept in a
directory.  Every form and order of its replies, every place its byte stream can be cut, every place it can fail."""
import collections, itertools, os, re, shutil, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import mx, corpus

ALL = 'b:~nosuchwordatall'


def crlf(s):
    return s.replace('\n', '\r\n').encode('latin1')


def m(subj, body='', mid=None, date='Mon, 1 Jan 2001 12:00:00 +0000', nl='\r\n'):
    s = 'From: joe@%s.org\nTo: bob@home.net\nSubject: %s\nMessage-ID: <%s@x>\nDate: %s\n\n%s' % (
        subj.split()[0], subj, mid or subj.split()[0], date, body)
    return s.replace('\n', nl).encode('latin1')


# mailbox -> (uidvalidity, {uid: (flags, content)})
BIG = {
    'INBOX': (17, {
        1: ('', m('alpha wone', 'first\nt1 OK done\n* 9 FETCH (UID 9 FLAGS (\\Deleted))\n) "tail\n')),
        3: ('S', b'Subject: beta "quoted" \\ back'),
        4: ('D', m('gamma wfour', 'deleted\n')),
        7: ('RF', m('delta wseven', ''.join('line%d with some padding text here\n' % i for i in range(80)), nl='\n')),
        12: ('', b''),
        130: ('$', m('eta wlabel', 'x' * 1024 + '\n')),
    }),
    'Other': (4000000001, {2: ('', m('zeta wtwo', '{5}\n')), 4294967295: ('SRF', m('theta wmax', 'y\n', nl='\n'))}),
    'Empty': (5, {}),
}
SMALL = {
    'INBOX': (7, {1: ('', b'Subject: aa wone\r\n\r\nx\r\n'), 2: ('S', b'Subject: bb wtwo\n\n)y"\n'), 3: ('D', b'Subject: cc\n\n')}),
    'Other': (8, {5: ('F', b'Subject: dd wfive\r\n\r\n')}),
}


def words(c):
    return set(re.findall(rb'[a-z0-9_]+', c.lower()))


class World:
    """One scratch directory: server state, rc files, database, match folder"""

    def __init__(self, exe, fake, boxes, folders=None, extra='', local=False):
        self.fake = fake
        self.drv = mx.Driver(exe)
        self.d = mx.scratch()
        self.boxes = boxes
        self.folders = folders if folders is not None else list(boxes)
        self.extra = extra
        self.log = os.path.join(self.d, 'log')
        self.db = os.path.join(self.d, 'db')
        self.state = os.path.join(self.d, 'state')
        self.local = local
        self.files = {}
        if local:
            corpus.mkmaildir(self.d + '/md')
            for n, c in (('cur/a:2,S', m('lima wmdir', 'l\n', nl='\n')), ('cur/b:2,RF', m('mike wmdirb', '\x80\n', nl='\n')),
                         ('new/c', m('november wnew', '"\n', nl='\n'))):
                mx.write(self.d + '/md/' + n, c)
                self.files[self.d + '/md/' + n] = c
            b = corpus.Mbox()
            self.mboxmsgs = [m('oscar wbox', 'o\n', nl='\n'), m('papa wboxb', 'p\n\n', nl='\n')]
            for x in self.mboxmsgs:
                b.add(x)
            mx.write(self.d + '/box', b.data())
            self.mboxoffs = b.offs
        self.serve(boxes)

    def close(self):
        self.drv.close()

    def serve(self, boxes):
        self.boxes = boxes
        shutil.rmtree(self.state, ignore_errors=True)
        os.makedirs(self.state)
        for k, (name, (uidv, msgs)) in enumerate(boxes.items()):
            p = os.path.join(self.state, 'b%d' % k)
            os.mkdir(p)
            mx.write(p + '/.name', name)
            mx.write(p + '/.uidv', str(uidv))
            mx.write(p + '/.next', str(max(msgs, default=0) + 1))
            for u, (f, c) in msgs.items():
                mx.write('%s/%d,%s' % (p, u, f), c)

    def snapshot(self):
        """name -> (uidv, [(uid, flags, content)])"""
        out = {}
        for x in sorted(os.listdir(self.state)):
            p = os.path.join(self.state, x)
            l = []
            for n in os.listdir(p):
                if n[0] != '.':
                    u, f = n.split(',')
                    with open(p + '/' + n, 'rb') as fh:
                        l.append((int(u), f, fh.read()))
            with open(p + '/.name', 'rb') as fh:
                name = fh.read().decode('latin1')
            with open(p + '/.uidv') as fh:
                out[name] = (int(fh.read()), sorted(l))
        return out

    def rc(self, opts='', mformat='maildir', mfolder='mf', cred=True):
        l = ''
        for f in self.folders:
            l += 'imap=%s\n' % f
        l += 'imap_pipe=exec %s %s %s %s\n' % (self.fake, self.state, self.log, opts)
        if cred:
            l += 'imap_username=user\nimap_password=pass\n'
        return corpus.write_rc(self.d, maildir='md' if self.local else None, mbox='box' if self.local else None,
                               mformat=mformat, mfolder=mfolder, extra=l + self.extra)

    def run(self, args, opts='', mformat='maildir', mfolder='mf', timeout=90, **kw):
        try:
            os.unlink(self.log)
        except FileNotFoundError:
            pass
        rc = self.rc(opts, mformat, mfolder, **kw)
        return self.drv.run(['-f', rc] + args, timeout=timeout)

    def breaches(self):
        return [l for l in self.commands() if l.startswith('!')]

    def commands(self):
        try:
            with open(self.log, encoding='latin1') as f:
                return f.read().splitlines()
        except FileNotFoundError:
            return []

    def forget(self):
        for x in ('db', 'db.new', 'db.lock'):
            try:
                os.unlink(os.path.join(self.d, x))
            except FileNotFoundError:
                pass

    def live(self):
        return {'%d:%d:%s' % (v, u, n): (f, c) for n, (v, ms) in self.boxes.items() if n in self.folders
                for u, (f, c) in ms.items() if 'D' not in f}

    def listing(self, q=ALL):
        r = self.run(['-r', q], opts='close=0')
        if r.code == 3 and not os.path.exists(self.db):
            return []
        if r.code not in (0, 1):
            raise Bad('search %r: %r' % (q, r))
        return sorted(r.lines)

    def localpaths(self):
        if not self.local:
            return []
        return list(self.files) + ['mbox:%s [%d,%d)' % (self.d + '/box', o, o + len(c) + 1)
                                   for o, c in zip(self.mboxoffs, self.mboxmsgs)]


class Bad(Exception):
    pass


def crashed(r):
    return r.code is None or r.code < 0 or r.code in (99, 134)


def exact_index(w, ok=lambda c: c == 0):
    """None or what is wrong with the index compared with the mailboxes"""
    live = w.live()
    want = sorted(list(live) + w.localpaths())
    got = w.listing()
    if got != want:
        return 'all messages: got %r, want %r' % (got, want)
    vocab = collections.defaultdict(set)
    for p, (f, c) in live.items():
        sl = re.search(rb'(?m)^Subject: (.*)$', c)
        if c.count(b'\n') > 1 and sl:
            for x in words(sl.group(1)):
                if x[:1] == b'w':
                    vocab[x.decode()].add(p)
    for wd, ps in sorted(vocab.items()):
        got = [x for x in w.listing('s:' + wd)]
        if got != sorted(ps):
            return 's:%s: got %r, want %r' % (wd, got, sorted(ps))
    for n in w.folders:
        if re.match(r'[A-Za-z]+$', n) and len(n) < 20:
            got = w.listing('p:' + n)
            if got != sorted(x for x in live if n in x):
                return 'p:%s: got %r' % (n, got)
    return None


# ------------------------------------------------------------------ output sessions

def readdir(p):
    out = []
    for root, ds, fs in os.walk(p):
        for n in fs:
            if n.startswith('.'):
                continue
            q = os.path.join(root, n)
            with open(q, 'rb') as f:
                out.append((os.path.relpath(q, p), f.read()))
    return sorted(out)


MBOXPRE = b'From mairix@mairix Mon Jan  1 12:34:56 1970\n'


def session(w, kind, opts='', query=ALL, args=(), boxes=None):
    """run one search session; returns (result, what came out: Counter of contents or list)"""
    mf = os.path.join(w.d, 'mf')
    shutil.rmtree(mf, ignore_errors=True)
    if os.path.exists(mf):
        os.unlink(mf)
    if kind == 'excerpt':
        r = w.run(list(args) + ['-x', query], opts)
        out = []
        for l in r.lines:
            out.append(l.rstrip('\r'))
        return r, out
    if kind == 'imap':
        w.serve(boxes or w.boxes)
        r = w.run(list(args) + [query], opts, mformat='imap', mfolder='results')
        snap = w.snapshot()
        res = snap.pop('results', (0, []))
        return r, (collections.Counter(c for u, f, c in res[1]), snap)
    r = w.run(list(args) + [query], opts, mformat=kind)
    if kind == 'mbox':
        try:
            with open(mf, 'rb') as f:
                return r, f.read()
        except FileNotFoundError:
            return r, b''
    return r, collections.Counter(c for n, c in readdir(mf))


def expect(w, kind, paths):
    """what session() should give when the IMAP messages `paths` match"""
    live = w.live()
    cs = [live[p][1] for p in paths]
    if kind in ('maildir', 'mh'):
        return collections.Counter(cs)
    if kind == 'mbox':
        return collections.Counter(MBOXPRE + c + b'\n' for c in cs)
    if kind == 'imap':
        return collections.Counter(cs)
    return sorted(paths)


def split_mbox(w, out, paths):
    """the mbox output is the concatenation, in some order, of the expected pieces"""
    live = w.live()
    pieces = sorted((MBOXPRE + live[p][1] + b'\n' for p in paths), key=len, reverse=True)
    got = collections.Counter()
    i = 0
    while i < len(out):
        for x in pieces:
            if out.startswith(x, i) and (i + len(x) == len(out) or out.startswith(MBOXPRE, i + len(x))):
                got[x] += 1
                i += len(x)
                break
        else:
            got[out[i:]] += 1
            break
    return got


def judge(w, kind, r, out, paths, whole=True):
    """None or what is wrong.  whole: everything must be there; otherwise any subset of whole messages will do"""
    if crashed(r):
        return 'the program crashed: %r' % r
    if os.path.exists(w.db + '.lock'):
        return 'the lock is left behind: %r' % r
    if whole and r.code != (0 if paths else 1):
        return 'exit status: %r' % r
    if kind == 'excerpt':
        got = sorted(l for l in out if l in w.live())
        if got != sorted(paths):
            return 'excerpts of %r instead of %r' % (got, paths)
        if whole:
            live = w.live()
            cur, subj = None, {}
            for l in out:
                if l in live:
                    cur = l
                elif l.startswith('  Subject:'):
                    subj[cur] = l[10:].strip()
            for p in paths:
                mm = re.match(rb'(?s).*?^Subject: ([^\r\n]*)\r?\n', live[p][1], re.M)
                if mm and live[p][1].count(b'\n') > 1 and subj.get(p) != mm.group(1).decode('latin1'):
                    return 'excerpt of %s has subject %r' % (p, subj.get(p))
        return None
    want = expect(w, kind, paths)
    if kind == 'imap':
        out, rest = out
        before = {n: (v, sorted((u, f, c) for u, (f, c) in ms.items())) for n, (v, ms) in w.boxes.items() if n != 'results'}
        if rest != before:
            return 'other mailboxes changed: %r' % ({n: rest.get(n) for n in set(rest) | set(before) if rest.get(n) != before.get(n)},)
    if kind == 'mbox':
        out = split_mbox(w, out, paths)
    if whole and out != want:
        return '%s match folder: missing %r, surplus %r' % (kind, list(want - out)[:3], list(out - want)[:3])
    if not whole and out - want:
        return '%s match folder has %r' % (kind, list(out - want)[:3])
    return None


KINDS = ('maildir', 'mh', 'mbox', 'excerpt', 'imap')


# ------------------------------------------------------------------ families

class Ctx:
    def __init__(self, exes):
        self.exes = exes
        self.w = {}

    def world(self, key, variant='plain', **kw):
        k = (key, variant)
        if k not in self.w:
            boxes = kw.pop('boxes')
            self.w[k] = World(self.exes[variant], self.exes['fakeimap'], boxes, **kw)
        return self.w[k]

    def close(self):
        for w in self.w.values():
            w.close()


def fam_forms(ctx, opts):
    """healthy server, any form of replies: index, all listings, all outputs"""
    w = ctx.world('big', boxes=BIG)
    w.serve(BIG)
    w.forget()
    r = w.run([], opts)
    if r.code != 0 or os.path.exists(w.db + '.lock'):
        return 1, 'index: %r' % r, opts
    if w.breaches():
        return 1, 'index: the client sent %r' % w.breaches(), opts
    e = exact_index(w)
    if e:
        return 1, 'index: ' + e, opts
    n = 1
    paths = sorted(w.live())
    for kind in KINDS:
        r, out = session(w, kind, opts)
        e = judge(w, kind, r, out, paths)
        if not e and w.breaches():
            e = 'the client sent %r' % w.breaches()
        if e:
            return n, '%s: %s' % (kind, e), opts
        n += 1
    return n, None, opts


def prepared(ctx, variant='plain'):
    w = ctx.world('small', variant, boxes=SMALL)
    if not getattr(w, 'ready', False):
        w.serve(SMALL)
        w.forget()
        r = w.run([])
        e = exact_index(w) if r.code == 0 else repr(r)
        if e:
            raise Bad('healthy index: ' + e)
        shutil.copy(w.db, w.db + '.good')
        w.ready = True
    return w


def do_session(w, kind, opts):
    """(error or None) for a healthy server with these options"""
    if kind == 'index':
        w.forget()
        r = w.run([], opts)
        if r.code != 0 or os.path.exists(w.db + '.lock'):
            return 'index: %r' % r
        e = exact_index(w)
        return e
    if not os.path.exists(w.db):
        shutil.copy(w.db + '.good', w.db)
    r, out = session(w, kind, opts)
    return judge(w, kind, r, out, sorted(w.live()))


def fam_segment(ctx, item):
    kind, opts = item
    w = prepared(ctx)
    if kind == 'index' or not getattr(w, 'isgood', False):
        shutil.copy(w.db + '.good', w.db)
    e = do_session(w, kind, opts)
    if not e and w.breaches():
        e = 'the client sent %r' % w.breaches()
    return 1, e, item


def fam_fail(ctx, item):
    """the server fails somewhere; then a healthy run"""
    kind, opts, garbage = item
    w = prepared(ctx, 'asan')
    paths = sorted(w.live())
    if kind == 'index':
        for start in ((0, 1) if garbage != 1 else (sum(map(ord, opts)) % 2,)):
            w.forget()
            if start:
                shutil.copy(w.db + '.good', w.db)
            r = w.run([], opts)
            if crashed(r):
                return 1, 'index crashed: %r' % r, item
            if os.path.exists(w.db + '.lock') or os.path.exists(w.db + '.new'):
                return 1, 'index left the lock or the new database behind: %r' % r, item
            try:
                got = w.listing()
            except Bad as e:
                return 1, 'the database is damaged: %s' % e, item
            if not garbage and (set(got) - set(paths) or len(set(got)) != len(got)):
                return 1, 'messages from nowhere: %r' % got, item
            if not garbage and not r.err and got != paths:
                return 1, 'messages are missing and no error was reported: %r' % r, item
            r = w.run([])
            if r.code != 0:
                return 1, 'healthy index after the failure: %r' % r, item
            if not garbage:
                try:
                    e = exact_index(w)
                except Bad as e2:
                    e = str(e2)
                if e:
                    return 1, 'after the failure and a healthy run: ' + e, item
        return 4, None, item
    if not os.path.exists(w.db):
        shutil.copy(w.db + '.good', w.db)
    shutil.copy(w.db + '.good', w.db)
    r, out = session(w, kind, opts)
    if garbage:
        e = None
        if crashed(r):
            e = 'crashed: %r' % r
        elif os.path.exists(w.db + '.lock'):
            e = 'lock left: %r' % r
    else:
        e = judge(w, kind, r, out, paths, whole=False)
        if not e and not r.err:
            e = judge(w, kind, r, out, paths)
            if e:
                e = 'no error was reported, but ' + e
    if not e:
        r, out = session(w, kind)
        e = judge(w, kind, r, out, paths)
        if e:
            e = 'after the failure, with a healthy server: ' + e
    return 2, e, item


def total(w, kind, opts=''):
    opts += ' count=1'
    """length of the server's output in this session, and number of commands"""
    if kind == 'index':
        w.forget()
        w.run([], opts)
    else:
        shutil.copy(w.db + '.good', w.db)
        session(w, kind, opts)
    e = [x for x in w.commands() if x.startswith('# ')]
    return int(e[-1][2:]), len(e)


# ---- the server or a local mbox changed between indexing and searching

def fam_stale(ctx, item):
    s1, s2, kind = item
    w = ctx.world('stale', 'asan', boxes={'INBOX': (1, {}), 'Second': (3, {})}, folders=['INBOX', 'Second'])
    w.serve(hist_boxes(s1))
    if getattr(w, 'at', None) != s1:
        w.forget()
        r = w.run([])
        if r.code:
            return 1, repr(r), item
        w.at = s1
    then = w.live()
    b2 = hist_boxes(s2)
    there = {'%d:%d:%s' % (v, u, n) for n, (v, ms) in b2.items() for u in ms}
    w.serve(b2)
    r, out = session(w, kind)
    if crashed(r) or r.code != 0:
        return 1, repr(r), item
    if os.path.exists(w.db + '.lock'):
        return 1, 'lock left', item
    cs = collections.Counter(c for p, (f, c) in then.items() if p in there)
    if kind == 'mbox':
        want = collections.Counter(out.split(MBOXPRE)[1:])
        got, want = want, collections.Counter(c + b'\n' for c in cs.elements())
    elif kind == 'imap':
        got, want = out[0], cs
    else:
        got, want = out, cs
    if got != want:
        return 1, '%s: got %r, want %r' % (kind, got, want), item
    return 1, None, item


def fam_cutbox(ctx, item):
    how, n = item
    w = ctx.world('cutbox', 'asan', boxes=EBOX, folders=['INBOX', 'Other'], local=True)
    w.serve(EBOX)
    p = w.d + '/box'
    if not getattr(w, 'ready', False):
        w.forget()
        r = w.run([])
        if r.code:
            return 1, repr(r), item
        w.ready = True
        with open(p, 'rb') as f:
            w.orig = f.read()
    d = w.orig[:n] if how == 'cut' else w.orig[:n] + bytes([w.orig[n] ^ 1]) + w.orig[n + 1:] if n < len(w.orig) else w.orig
    mx.write(p, d)
    r = w.run([ALL], mformat='imap', mfolder='results')
    mx.write(p, w.orig)
    if crashed(r) or os.path.exists(w.db + '.lock'):
        return 1, repr(r), item
    got = collections.Counter(c for u, f, c in w.snapshot()['results'][1])
    must = collections.Counter(list(w.files.values()) + [c for v, ms in EBOX.values() for f, c in ms.values()])
    may = collections.Counter(c + b'\n' for c in w.mboxmsgs)
    if d == w.orig:
        must += may
    if must - got or got - must - may:
        return 1, 'match folder: missing %r, surplus %r' % (list(must - got), list(got - must - may)), item
    return 1, None, item


# ---- histories

def hist_states(nmsg):
    out = []
    for uidv in (1, 2):
        for st in itertools.product('-LD', repeat=nmsg):
            out.append((uidv, st))
    return out


def hist_boxes(s):
    uidv, st = s
    msgs = {}
    for k, x in enumerate(st):
        if x != '-':
            msgs[k + 1] = ('D' if x == 'D' else '', ('Subject: n wu%dm%d\r\n\r\nbody\r\n' % (uidv, k)).encode())
    return {'INBOX': (uidv, msgs), 'Second': (3, {1: ('S', b'Subject: n wsecond\r\n\r\nx\r\n')})}


def fam_hist(ctx, item):
    states, purge = item
    w = ctx.world('hist', boxes={'INBOX': (1, {}), 'Second': (3, {})}, folders=['INBOX', 'Second'], local=True)
    w.forget()
    for s in states:
        w.serve(hist_boxes(s))
        r = w.run(['-p'] if purge else [])
        if r.code != 0:
            return 1, 'index: %r' % r, item
        e = exact_index(w)
        if e:
            return 1, e, item
        if w.breaches():
            return 1, 'the client sent %r' % w.breaches(), item
    return len(states), None, item


# ---- match folder on the server

EBOX = {'INBOX': (7, {1: ('', m('aa wia', 'x\n')), 2: ('S', m('bb wib', 'y"\\\n'))}), 'Other': (8, {5: ('F', m('dd wic', '\x00\xff\n'))})}
EWORDS = ['wmdir', 'wmdirb', 'wnew', 'wbox', 'wboxb', 'wia', 'wib', 'wic']
INIT = {'absent': None, 'empty': (50, {}), 'old': (50, {3: ('S', m('old wold', 'o\n')), 4: ('', b'')}), 'deleted': (50, {3: ('D', m('old wold', 'o\n'))})}


def fam_match(ctx, item):
    subset, init, aug, opts, name = item
    w = ctx.world('match', boxes=EBOX, folders=['INBOX', 'Other'], local=True)
    boxes = dict(EBOX)
    if INIT[init] is not None:
        boxes[name] = INIT[init]
    w.serve(boxes)
    if not getattr(w, 'ready', False):
        w.forget()
        r = w.run([])
        if r.code:
            raise Bad('index: %r' % r)
        w.ready = True
    ws = [EWORDS[i] for i in range(8) if subset >> i & 1]
    r = w.run((['-a'] if aug else []) + ['s:' + '/'.join(ws)], opts, mformat='imap', mfolder=name)
    want = collections.Counter()
    fl = {'wmdir': 'S', 'wmdirb': 'RF', 'wnew': '', 'wbox': '', 'wboxb': '', 'wia': '', 'wib': 'S', 'wic': 'F'}
    cont = {}
    for p, c in w.files.items():
        cont[next(x for x in EWORDS if x.encode() in words(c))] = c
    for c in w.mboxmsgs:
        cont[next(x for x in EWORDS if x.encode() in words(c))] = c + b'\n'
    for n, (v, ms) in EBOX.items():
        for u, (f, c) in ms.items():
            cont[next(x for x in EWORDS if x.encode() in words(c))] = c
    for x in ws:
        want[(''.join(sorted(fl[x])), cont[x])] += 1
    if INIT[init] is not None and aug:
        for u, (f, c) in INIT[init][1].items():
            want[(f, c)] += 1
    snap = w.snapshot()
    res = snap.pop(name, (0, []))
    got = collections.Counter((''.join(sorted(f)), c) for u, f, c in res[1])
    e = None
    before = {n: (v, sorted((u, f, c) for u, (f, c) in ms.items())) for n, (v, ms) in EBOX.items()}
    if r.code != 0:
        e = repr(r)
    elif w.breaches():
        e = 'the client sent %r' % w.breaches()
    elif snap != before:
        e = 'indexed mailboxes changed'
    elif got != want:
        e = 'match folder: missing %r, surplus %r' % (list(want - got)[:3], list(got - want)[:3])
    elif os.path.exists(w.db + '.lock'):
        e = 'lock left'
    return 1, e, item


# ---- names and credentials

NAMES = ['a b', 'q"q', 'b\\s', 'x\\"y', 'p(r', 'p)r', 'c{r', '{3}', 'star*', 'per%'.replace('%', '&'), 'h\xe9', 'tilde~', 'br]k', 'INBOX.Sub/x',
         'back\\', '"', '\\', 'x' * 300, 'tab\tin', 'o+', 'a,b', "q'q", '[x]', '(x)', 'NIL', '1:*'.replace(':', ';') and '1,*']


def fam_names(ctx, item):
    what, s, opts = item
    w = ctx.world('names', boxes={})
    boxes = {'INBOX': (7, {1: ('', m('aa wia', 'x\n'))})}
    hx = s.encode('latin1').hex()
    cred = 'imap_username=user\nimap_password=pass\n'
    if what == 'folder':
        boxes[s] = (9, {4: ('', m('bb wib', 'y\n'))})
        w.folders = ['INBOX', s]
        o = ''
    elif what == 'user':
        cred = 'imap_username=%s\nimap_password=pass\n' % s
        o = 'user=%s pass=%s' % (hx, b'pass'.hex())
        w.folders = ['INBOX']
    elif what == 'pass':
        cred = 'imap_username=user\nimap_password=%s\n' % s
        o = 'user=%s pass=%s' % (b'user'.hex(), hx)
        w.folders = ['INBOX']
    else:
        w.folders = ['INBOX']
        o = ''
    w.extra = cred
    w.serve(boxes)
    w.forget()
    r = w.run([], o + ' ' + opts, cred=False)
    e = None
    if r.code != 0:
        e = repr(r)
    elif w.breaches():
        e = 'the client sent %r' % w.breaches()
    else:
        e = exact_index(w)
    if not e and what == 'match':
        r = w.run(['s:wia'], o, mformat='imap', mfolder=s, cred=False)
        got = w.snapshot().get(s, (0, []))[1]
        if r.code != 0 or w.breaches() or [c for u, f, c in got] != [boxes['INBOX'][1][1][1]]:
            e = 'match folder holds %r; %r %r' % (got, r, w.breaches())
    return 2, e, item


def fam_lengths(ctx, item):
    """tokens of every length: one-line messages as quoted strings or literals, keywords as atoms, numbers, folder names"""
    start, n, opts = item
    w = ctx.world('lengths', 'asan', boxes={})
    name = 'f' * max(1, start)
    w.folders = [name] if start < 240 else ['INBOX']
    ms = {}
    for i in range(n):
        body = ''.join(chr(33 + (j * 7 + i) % 94) for j in range(start + i))
        ms[(10 ** (i % 9)) + i] = ('' if i % 2 else 'S', body.encode() if i % 3 < 2 else m('x w%d' % i, 'y' * (start + i) + '\n'))
    w.extra = ''
    w.serve({w.folders[0]: (10 ** (n % 9) + 1, ms)})
    w.forget()
    r = w.run([], opts)
    if r.code != 0 or w.breaches():
        return 1, '%r %r' % (r, w.breaches()), item
    e = exact_index(w)
    k = 1
    for kind in ('maildir', 'mbox', 'imap') if not e else ():
        r, out = session(w, kind, opts, boxes=w.boxes)
        k += 1
        e = e or judge(w, kind, r, out, list(w.live()))
    return k, e, item


def fam_refuse(ctx, item):
    """results must not go into an indexed folder; a wrong password changes nothing"""
    what, arg = item
    w = ctx.world('refuse', boxes={}, local=True)
    w.folders = ['INBOX', 'Other']
    w.extra = ''
    w.serve(EBOX)
    w.forget()
    r = w.run([])
    if r.code:
        return 1, repr(r), item
    before = w.snapshot()
    with open(w.db, 'rb') as f:
        db = f.read()
    e = None
    if what == 'mfolder':
        name, aug, q = arg
        r = w.run((['-a'] if aug else []) + [q], mformat='imap', mfolder=name)
        if r.code != 3 or not r.err:
            e = 'not refused: %r' % r
    else:
        r = w.run(arg[0], 'user=75 pass=75', mformat=arg[1], mfolder='results')
        if crashed(r) or (not r.err and any(' LOGIN ' in c for c in w.commands())):
            e = repr(r)
    if not e and w.snapshot() != before:
        e = 'mailboxes changed'
    if not e:
        with open(w.db, 'rb') as f:
            if f.read() != db:
                e = 'the database changed'
    if not e and os.path.exists(w.db + '.lock'):
        e = 'lock left'
    return 1, e, item


def fam_omit(ctx, item):
    """omit= applies to IMAP folders"""
    omit, left = item
    w = ctx.world('omit', boxes={})
    w.extra = 'omit=%s\n' % omit
    w.folders = ['INBOX', 'Other', 'lists/a', 'lists/b']
    w.serve({n: (i + 1, {1: ('', m('x w%d' % i))}) for i, n in enumerate(w.folders)})
    w.forget()
    r = w.run([])
    w.folders = left
    e = repr(r) if r.code else exact_index(w)
    return 1, e, item


# ------------------------------------------------------------------

def check(ck):
    exes = mx.build(['plain', 'asan'])
    th = ck.thorough

    def fam(name, fn, items):
        items = list(items)
        n = 0
        t0 = time.time()
        for k, e, item in mx.pmap(fn, items, init=lambda: Ctx(exes), n=mx.NCPU * (2 if name in ('garbage', 'fail') else 1)):
            n += k
            if e:
                ck.violation('%s %r: %s' % (name, item, e), {'family': name, 'item': item})
        ck.add('states', len(items))
        ck.add('transitions', n)
        ck.add('traces_validated_against_impl', n)
        ck.cov[name + '_cases'] = len(items)
        if os.environ.get('MX_TIME'):
            print(name, len(items), round(time.time() - t0, 1))
        if items:
            ck.sample({'family': name, 'case': repr(items[len(items) // 2])})

    only = os.environ.get('MX_ONLY', '').split()

    def want(n):
        return not only or n in only

    # forms
    forms = ['perm=%d' % p for p in range(720)]
    base = [[''], ['forder=%d' % i for i in range(6)], ['', 'rev=1'], ['', 'lit=q'], ['', 'nl=1'], ['', 'caps=g', 'caps=l', 'caps=gl'],
            ['', 'preauth=1']]
    prod = [' '.join(x for x in c if x) for c in itertools.product(*base)]
    uns = ['uns=%d unspos=%d forder=%d' % (u, p, f) for u in range(14) for p in range(1, 8) for f in ((0, 1, 2, 3, 4, 5) if th else (0, 5))]
    tts = ['tt=%d lit=%s' % (t, l) for t in range(7) for l in 'ql']
    if want('forms'):
        fam('forms', fam_forms, forms + prod + uns + tts)

    # segmentation
    w = World(exes['plain'], exes['fakeimap'], SMALL)
    w.run([])
    shutil.copy(w.db, w.db + '.good')
    size, ncmd = {}, {}
    for k in ('index',) + KINDS:
        size[k], ncmd[k] = total(w, k)
    sizeq = {k: total(w, k, 'lit=q forder=5')[0] for k in ('index', 'imap')}
    w.close()
    seg = []
    for k in size:
        seg += [(k, 'cut=%d' % i) for i in range(1, size[k] + 1)]
        seg += [(k, 'chunk=%d' % i) for i in list(range(1, 65)) + [100, 128, 255, 256, 511, 512, 1023, 1024]]
    for k in sizeq:
        seg += [(k, 'forder=5 lit=q cut=%d' % i) for i in range(1, sizeq[k] + 1)]
    if th:
        for k in ('index', 'imap'):
            seg += [(k, 'cut=%d cut=%d' % (i, j)) for i in range(1, size[k]) for j in range(i + 1, min(i + 8, size[k] + 1))]
    if want('segment'):
        fam('segment', fam_segment, seg)

    # failures
    fl = []
    for k in size:
        fl += [(k, 'close=%d' % i, 0) for i in range(0, size[k] + 1)]
        for kind in ('no', 'bad', 'bye', 'drop'):
            fl += [(k, '%s=%d' % (kind, i), 0) for i in range(ncmd[k] + 1)]
            fl += [(k, '%s=%d caps=gl' % (kind, i), 0) for i in range(ncmd[k] + 1)]
    if want('fail'):
        fam('fail', fam_fail, fl)

    # garbage
    bytes_ = [0x0a, 0x22, 0x28, 0x7b]
    if th:
        bytes_ += [0x29, 0x39, 0x00, 0x20, 0x2a, 0x2b, 0x5b, 0x5c, 0x5d, 0x74, 0x7d, 0xff]
    gb = []
    for k in size if th else ('index', 'imap'):
        for i in range(size[k] + 1):
            gb += [(k, 'idle=25 %s=%d:%02x' % (o, i, c), 1) for o in ('sub', 'ins') for c in (bytes_ if th or o == 'sub' else bytes_[:2])]
            gb += [(k, 'idle=25 del=%d' % i, 1)]
    if want('garbage'):
        fam('garbage', fam_fail, gb)

    hostile = [(k, 'idle=100 hostile=%d hat=%d%s' % (h, a, c), 1) for k in size for h in range(28)
               for a in range(-1, ncmd[k]) for c in (('', ' caps=gl preauth=1') if th else ('',))]
    if want('hostile'):
        fam('hostile', fam_fail, hostile if th else [x for x in hostile if x[0] in ('index', 'imap', 'excerpt')])

    if want('stale'):
        fam('stale', fam_stale, [(a, b, k) for a in hist_states(2) for b in hist_states(2) if 'L' in a[1] for k in KINDS if k != 'excerpt'])
        fam('cutbox', fam_cutbox, [(h, n) for h in ('cut', 'flip') for n in range(0, 420)])

    # histories
    st = hist_states(2)
    s1 = hist_states(1)
    hs = [(h, p) for n in ((1, 2, 3) if th else (1, 2)) for h in itertools.product(st, repeat=n) for p in (0, 1)]
    hs += [(h, p) for n in ((3, 4) if th else (3,)) for h in itertools.product(s1, repeat=n) for p in (0, 1)]
    if want('hist'):
        fam('hist', fam_hist, hs)

    # match folder on the server
    ms = [(s, i, a, '', 'results') for s in range(1, 256) for i in INIT for a in (0, 1)]
    ms += [(s, i, a, o, 'results') for s in (255, 0x24, 0x11) for i in INIT for a in (0, 1)
           for o in ('emptystore=1', 'uns=10 unspos=7', 'nl=1 caps=gl', 'preauth=1', 'uns=7 unspos=7 tt=4')]
    if want('match'):
        fam('match', fam_match, ms)

    if want('names'):
        fam('names', fam_names, [(k, s, o) for k in ('folder', 'user', 'pass', 'match') for s in NAMES
                                 for o in (('', 'chunk=1') if k in ('folder', 'match') else ('', 'caps=gl'))
                                 if not (k in ('user', 'pass') and s == '"' and 0)])
    if want('lengths'):
        ls = [(a, 20, o) for a in range(0, 420 if th else 220, 20) for o in ('lit=q', 'lit=q kw=%d' % max(1, a), 'kw=%d' % max(1, a))]
        ls += [(a, 6, 'lit=q kw=%d' % a) for a in (397, 797, 1021, 1597, 3197, 4093, 6397)]
        fam('lengths', fam_lengths, ls)
    if want('refuse'):
        fam('refuse', fam_refuse, [('mfolder', (n, a, q)) for n in ('INBOX', 'Other', 'inbox', 'InBox') for a in (0, 1) for q in (ALL, 's:wmdir', 's:none')] +
            [('password', (a, f)) for a in (['s:wia'], ['s:wmdir'], ['s:none'], [], ['-p'], ['-a', 's:wia']) for f in ('maildir', 'mbox', 'mh', 'imap', 'excerpt')])
    if want('omit'):
        al = ['INBOX', 'Other', 'lists/a', 'lists/b']
        fam('omit', fam_omit, [('Other', ['INBOX', 'lists/a', 'lists/b']), ('lists/*', ['INBOX', 'Other']), ('lists/a', ['INBOX', 'Other', 'lists/b']),
                               ('INBOX:lists/b', ['Other', 'lists/a']), ('nosuch', al), ('l*', ['INBOX', 'Other', 'lists/a', 'lists/b'])])
    ck.cov['exhaustive'] = True
    ck.cov['server_bytes_per_session'] = size
    ck.cov['rule'] = ('every session (index run; search into maildir, MH, mbox, IMAP folder; excerpts) with the scripted server: every order of '
                      'the EXAMINE data, attribute order, quoted/literal form, capability announcement and unsolicited response; every single cut '
                      'and every chunk size of the byte stream; closing at every byte and NO/BAD/BYE/silence at every command, each followed by a '
                      'healthy run; single-byte changes at every position and %d kinds of nonsense at every command under AddressSanitizer; all '
                      'mailbox histories and match-folder states; names and passwords with every kind of special character') % 28
    ck.assumptions += ['The server is lib/fakeimap.c over pipes (imap_pipe); TCP and TLS transport are not exercised.',
                       'Sizes (z:) and flags (F:) of IMAP messages are not recorded by mairix and not judged.',
                       'After a server that sends wrong content, only safety is judged.']


if __name__ == '__main__':
    mx.main(check, 'P20', 'model_checking')
