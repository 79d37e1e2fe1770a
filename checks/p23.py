"""P23: command-line options do what the manual says, in any order and spelling.
All sequences of options up to a length, in short and long spelling, on indexing runs and on searches, against a model of
what each option contributes; all unknown options and options without their argument."""
import itertools, os, re, shutil, string, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import mx, corpus, outw

LONG = {'-a': '--augment', '-t': '--threads', '-r': '--raw-output', '-x': '--excerpt-output', '-H': '--force-hardlinks',
        '-o': '--mfolder', '-v': '--verbose', '-Q': '--no-integrity-checks', '-p': '--purge', '-F': '--fast-index',
        '-f': '--rcfile', '-d': '--dump', '-h': '--help', '-V': '--version'}
SHORT = {v: k for k, v in LONG.items()}
ALL = set(LONG) | set(SHORT) | {'--unlock', '--force-hash-key-new-database', '--'}
S_OPTS = ['-a', '-t', '-r', '-x', '-H', '-o', '-v', '-Q', '--unlock', '-p', '-F']
I_OPTS = ['-p', '-F', '-v', '-Q', '--unlock', '--force-hash-key-new-database']


def spellings(os_):
    return os_ + [LONG[o] for o in os_ if o in LONG]


class W(outw.World):
    def __init__(self, exe):
        outw.World.__init__(self, exe)
        os.makedirs(self.d + '/snap')
        # an index of older mail: m2 is gone since, m0 was rewritten keeping its name, m6's box is new
        self.mkold()
        self.rcs['other'] = corpus.write_rc(self.d, mh='mail/mh', mformat='mh', mfolder='otherout', db=self.d + '/otherdb',
                                            name='rcother')

    def mkold(self):
        gz = self.d + '/mail/boxC.gz'
        keep = open(gz, 'rb').read()
        os.unlink(gz)
        p = self.d + '/mail/md/new/a'
        new = open(p, 'rb').read()
        mx.write(p, corpus.msg(subject='former all', mid='<former@q>', body='former text\n'))
        os.utime(p, (self.t - 500, self.t - 500))
        mx.write(self.d + '/mail/mh/7', corpus.msg(subject='vanished all', body='x\n'))
        r = self.index()
        assert r.code == 0, r
        shutil.copy(self.d + '/db', self.d + '/snap/old')
        os.unlink(self.d + '/mail/mh/7')
        mx.write(p, new)
        os.utime(p, (self.t, self.t))
        mx.write(gz, keep)
        os.utime(gz, (self.t, self.t))
        os.unlink(self.d + '/db')
        r = self.index()
        assert r.code == 0, r
        shutil.copy(self.d + '/db', self.d + '/snap/full')
        self.mail0 = self.mail()

    def restore(self, which):
        for x in ('db', 'db.new', 'db.lock', 'otherdb', 'outbox', 'alt'):
            p = self.d + '/' + x
            if os.path.isdir(p):
                shutil.rmtree(p)
            elif os.path.lexists(p):
                os.unlink(p)
        for x in ('out', 'otherout'):
            shutil.rmtree(self.d + '/' + x, ignore_errors=True)
        shutil.copy(self.d + '/snap/' + which, self.d + '/db')

    def state(self):
        """everything a run could have touched, apart from the mail"""
        out = {}
        for x in ('db', 'db.new', 'db.lock', 'otherdb', 'outbox', 'out', 'alt', 'otherout'):
            p = self.d + '/' + x
            if os.path.isdir(p):
                for r, ds, fs in os.walk(p):
                    for n in ds + fs:
                        q = r + '/' + n
                        out[q] = os.readlink(q) if os.path.islink(q) else open(q, 'rb').read() if os.path.isfile(q) else 'd'
            elif os.path.lexists(p):
                out[p] = open(p, 'rb').read()
        return out

    def runx(self, args):
        self.runs += 1
        return self.drv.run(args, cwd=self.d)


def norm(o):
    return SHORT.get(o, o)


def argv(w, seq, rcpos, rc, long_f, alt='alt'):
    """argument list for a sequence of options with -f inserted at a position"""
    a = []
    for k, o in enumerate(seq):
        if k == rcpos:
            a += ['--rcfile' if long_f else '-f', rc]
        a.append(o)
        if norm(o) == '-o':
            a.append(alt)
        elif o == '--force-hash-key-new-database':
            a.append('99')
    if rcpos >= len(seq):
        a += ['--rcfile' if long_f else '-f', rc]
    return a


# ---------------------------------------------------------------- searches

def search_one(w, fmt, seq, rcpos, dd):
    opts = {norm(o) for o in seq}
    if '-r' in opts and '-x' in opts:
        return None
    w.restore('full')
    r = w.runx(['-f', w.rcs[fmt], 's:m5'])           # what an earlier search found
    if r.code != 0:
        return 'search failed: %r' % r
    st = w.state()
    before = w.view(fmt)
    alt = 'alt'
    a = argv(w, seq, rcpos, w.rcs[fmt], len(seq) % 2 == 1, alt) + (['--'] if dd else []) + ['s:m1']
    r = w.runx(a)
    ids = [0, 1, 3] if '-t' in opts else [1]
    if r.code != 0:
        return 'exit %d: %r' % (r.code, r.err[-200:])
    if '-r' in opts or '-x' in opts:
        if w.state() != st:
            return 'something was written'
        exp = sorted(w.src(i) if i in outw.FILES else 'mbox:' + w.src(i) for i in ids)
        ls = [l for l in r.lines if l.startswith(w.d + '/mail') or l.startswith('mbox:')]
        if sorted(re.sub(r' \[\d+,\d+\)$', '', l) for l in ls) != exp:
            return 'listed %r' % (r.lines,)
        if ('-x' in opts) != any(re.match(r'\s+Subject:', l) for l in r.lines):
            return 'wrong kind of listing: %r' % (r.lines,)
        return None
    if '-o' in opts:
        now = w.state()
        for p in st:
            if p not in now or now[p] != st[p]:
                return '%s changed although -o names another match folder' % p
        own, other = (w.d + '/outbox', w.d + '/alt') if fmt == 'mbox' else (w.d + '/out', w.d + '/alt')
        if not os.path.lexists(other):
            return 'no match folder where -o says'
        os.rename(own, w.d + '/own')
        os.rename(other, own)
        before = []
    try:
        why = outw.judge(w, fmt, before, ids, '-a' in opts)
        if not why and fmt != 'mbox':
            kinds = {k for k, v in w.view(fmt) if k in 'LH' and v is not None}
            mine = [e for e in w.view(fmt) if w.matches(fmt, e, 1)]
            want = 'H' if '-H' in opts else 'L'
            if not mine or mine[-1][0] != want and want not in [e[0] for e in mine]:
                why = 'message is there as %r' % (mine,)
    finally:
        if '-o' in opts:
            p = w.d + '/own'
            shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
    return why


# ---------------------------------------------------------------- indexing runs

PROBES = ('s:m0', 's:former', 's:vanished', 's:m6', 's:all', 's:m1')


def index_model(opts):
    """answers after an indexing run on the old database"""
    fast = '-F' in opts
    full = {0: 'md/new/a', 1: 'md/cur/b:2,FS', 2: 'mh/1', 3: 'boxA', 4: 'boxA', 5: 'boxB', 6: 'boxC.gz'}
    return {'s:m0': [] if fast else ['md/new/a'], 's:former': ['md/new/a'] if fast else [], 's:vanished': [], 's:m6': ['boxC.gz'],
            's:all': sorted(full.values()), 's:m1': ['md/cur/b:2,FS']}


def index_one(w, seq, rcpos, dd):
    opts = {norm(o) for o in seq}
    w.restore('old')
    before = w.state()
    a = argv(w, seq, rcpos, w.rcs['maildir'], len(seq) % 2 == 0) + (['--'] if dd else [])
    r = w.runx(a)
    if r.code != 0:
        return 'exit %d: %r' % (r.code, r.err[-200:])
    for p, v in w.state().items():
        if p != w.d + '/db' and before.get(p) != v:
            return '%s was touched' % p
    want = index_model(opts)
    for q in PROBES:
        s = w.runx(['-f', w.rcs['maildir'], '-r', q])
        got = sorted(re.sub(r'^mbox:(.*) \[\d+,\d+\)$', r'\1', l)[len(w.d) + 6:] for l in s.lines)
        if got != want[q]:
            return '%s then finds %r, not %r' % (q, got, want[q])
    # purged or not: the database keeps the place of the vanished message without -p only
    d = w.runx(['-f', w.rcs['maildir'], '-d'])
    dead = len(re.findall(rb'(?m)^\s*\d+:\s+DEAD', d.out))
    if d.code != 0:
        return 'dump fails: %r' % d
    if (dead > 0) != ('-p' not in opts):
        return 'the database then has %d dead messages' % dead
    return None


# ---------------------------------------------------------------- refusals and information

def refused(w, args):
    """options that are not options: an error, and nothing happens"""
    w.restore('old')
    w.runx(['-f', w.rcs['maildir'], 's:m5'])
    st = w.state()
    r = w.runx(args)
    if r.code <= 0 or r.code > 127:
        return 'exit %d' % r.code
    if w.state() != st:
        return 'something was written'
    if not r.err.strip():
        return 'no error message'
    return None


def info(w, args, want):
    w.restore('old')
    st = w.state()
    r = w.runx(args)
    if r.code != 0:
        return 'exit %d' % r.code
    if w.state() != st:
        return 'something was written'
    if want == '-h':
        miss = [o for o in ('-f', '-v', '-p', '-F', '-a', '-x', '-t', '-o', '-r', '-H', '-d', '-V') if o.encode() not in r.out]
        if miss:
            return 'help does not mention %s' % miss
    elif want == '-V':
        if b'mairix' not in r.out or b'Build index' in r.out:
            return 'no version shown: %r' % r.out[:100]
    elif want == '-d':
        for i in (1, 3):
            if w.src(i).encode() not in r.out:
                return 'dump does not show %s' % w.src(i)
    return None


def run(w, job):
    kind, items = job
    out = dict(bad=[], states=0, trans=0, runs=0, sample=None)
    r0 = w.runs
    for it in items:
        if kind == 'search':
            why = search_one(w, *it)
            what = 'search (%s, -f at %d%s) with %s' % (it[0], it[2], ', --' if it[3] else '', ' '.join(it[1]))
            n = len(it[1])
        elif kind == 'index':
            why = index_one(w, *it)
            what = 'indexing run (-f at %d%s) with %s' % (it[1], ', --' if it[2] else '', ' '.join(it[0]))
            n = len(it[0])
        elif kind == 'refuse':
            args = [w.rcs['maildir'] if x == 'RC' else x for x in it]
            why = refused(w, args)
            what = 'mairix ' + ' '.join(it)
            n = len(it)
        else:
            args = [w.rcs['maildir'] if x == 'RC' else x for x in it[0]]
            why = info(w, args, it[1])
            what = 'mairix ' + ' '.join(it[0])
            n = len(it[0])
        out['states'] += 1
        out['trans'] += n
        out['sample'] = what
        if why:
            out['bad'].append((what + ': ' + why, dict(case=what)))
            if len(out['bad']) > 3:
                break
    if w.mail() != w.mail0 and not out['bad'] and kind != 'search':
        out['bad'].append(('mail was changed', {}))
    out['runs'] = w.runs - r0
    return out


def seqs(opts, n):
    for s in itertools.product(opts, repeat=n):
        yield s


def jobs(th):
    js = []
    ss, si = spellings(S_OPTS), spellings(I_OPTS)
    ser = []
    for fmt in ('maildir', 'mh', 'mbox'):
        for s in seqs(ss, 0):
            ser += [(fmt, s, 0, dd) for dd in (0, 1)]
        for s in seqs(ss, 1):
            ser += [(fmt, s, k, dd) for k in (0, 1) for dd in (0, 1)]
        for s in seqs(ss if th or fmt == 'maildir' else S_OPTS, 2):
            ser += [(fmt, s, k, 0) for k in ((0, 1, 2) if fmt == 'maildir' else (1,))]
        if fmt == 'maildir' or th:
            for s in seqs(ss if fmt == 'maildir' else S_OPTS, 3):
                ser.append((fmt, s, len(ser) % 4, 0))
    if th:
        for s in seqs(S_OPTS, 4):
            ser.append(('maildir', s, len(ser) % 5, 0))
    js += [('search', ser[k:k + 150]) for k in range(0, len(ser), 150)]
    ind = []
    for n in range(0, 3):
        for s in seqs(si, n):
            ind += [(s, k, dd) for k in range(n + 1) for dd in (0, 1)]
    for s in seqs(si if th else I_OPTS, 3):
        ind += [(s, k, 0) for k in range(4)]
    if th:
        for s in seqs(I_OPTS, 4):
            ind.append((s, len(ind) % 5, 0))
    js += [('index', ind[k:k + 60]) for k in range(0, len(ind), 60)]
    # refusals
    ref = []
    short1 = ['-' + c for c in string.ascii_letters + string.digits + '?@_=+:,./%' if '-' + c not in ALL] + ['-']
    two = ['-' + a + b for a in 'atrxHovQpFfdhVz' for b in 'atrxHovQpFfdhVz']
    lo = []
    for l in list(SHORT) + ['--unlock', '--force-hash-key-new-database']:
        lo += [l[:k] for k in range(3, len(l))] + [l + c for c in 'xs=1'] + [l[1:], l.upper(), l[:3].upper() + l[3:]]
        lo += [l[:k] + l[k + 1:] for k in range(2, len(l))]
    for o in sorted(set(x for x in short1 + two + lo if x not in ALL)):
        ref += [['-f', 'RC', o], ['-f', 'RC', o, 's:m1']]
        if o in short1:
            ref += [[o, '-f', 'RC'], ['-f', 'RC', '-r', o, 's:m1'], ['-f', 'RC', '-p', o], ['-f', 'RC', '-h', o]]
    for o in ('-o', '--mfolder', '--force-hash-key-new-database', '-f', '--rcfile'):
        for pre in ([], ['-r'], ['-p'], ['-v', '-F'], ['-a', '-t']):
            ref.append(['-f', 'RC'] + pre + [o])
    for v in ('', 'x', 'xyz', '-p'):
        ref.append(['-f', 'RC', '--force-hash-key-new-database', v])
    ref.append(['-f', 'no-such-rc', 's:m1'])
    ref.append(['-f', 'no-such-rc'])
    js += [('refuse', ref[k:k + 80]) for k in range(0, len(ref), 80)]
    # information
    inf = []
    for a, b in itertools.product([()] + [(o,) for o in spellings(['-a', '-t', '-r', '-x', '-H', '-v', '-Q', '-p', '-F'])], repeat=2):
        for o in ('-h', '--help', '-V', '--version'):
            for tail in ([], ['s:m1']):
                inf.append((list(a) + [o] + list(b) + tail, norm(o)))
    for o in ('-h', '--help', '-V', '--version'):
        inf += [(['-f', 'RC', o], norm(o)), ([o, '-f', 'RC'], norm(o)), (['-o', 'alt', o], norm(o)), (['-f', 'no-such-rc', o], norm(o))]
    for o in ('-d', '--dump'):
        for p in ([], ['-v'], ['-Q'], ['--unlock'], ['-p'], ['-F']):
            inf += [(['-f', 'RC'] + p + [o], '-d'), ([o] + p + ['-f', 'RC'], '-d')]
    js += [('info', inf[k:k + 80]) for k in range(0, len(inf), 80)]
    return js


def check(ck):
    exe = mx.build(('plain',))['plain']
    for k in ('states', 'transitions', 'traces_validated_against_impl'):
        ck.cov[k] = 0
    for o in mx.pmap(run, jobs(ck.thorough), init=lambda: W(exe)):
        ck.add('states', o['states'])
        ck.add('transitions', o['trans'])
        ck.add('traces_validated_against_impl', o['runs'])
        for w_, c in o['bad']:
            ck.violation(w_, c)
        if o['sample']:
            ck.sample(o['sample'])
    ck.cov['exhaustive'] = True
    ck.cov['rule'] = ('state = one command line; transition = one option of it; every command line is run on a fresh copy of the same '
                      'database and match folder and compared with the model; trace = one run of the real program')
    ck.assumptions.append('-r together with -x, and search options without a search expression, are not covered')


mx.main(check, 'P23', 'model_checking')
