"""P19: configuration.  All orders and presentations of the directives, all splits of folder lists, all variable references,
all subsets of directives and environment overrides, option precedence, invalid values and line lengths: the database, the match
folder and their contents must be exactly those the manual prescribes for the effective configuration."""
import itertools, os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import mx, corpus

KINDS = ('maildir', 'mh', 'mbox')
SHORT = {'maildir': 'md', 'mh': 'mh', 'mbox': 'mb'}
ENVN = {'base': 'MAIRIX_FOLDER_BASE', 'maildir': 'MAIRIX_MAILDIR_FOLDERS', 'mh': 'MAIRIX_MH_FOLDERS', 'mbox': 'MAIRIX_MBOXEN',
        'mfolder': 'MAIRIX_MFOLDER', 'database': 'MAIRIX_DATABASE'}


class World:
    def __init__(self, exe, nfold=4):
        self.drv = mx.Driver(exe)
        self.w = w = mx.scratch() + '/w'
        os.makedirs(w + '/h/hh')
        os.makedirs(w + '/o')
        self.src = {}
        for base in ('B1', 'B2'):
            for i in range(1, nfold + 1):
                d = '%s/%s/md%d' % (w, base, i)
                corpus.mkmaildir(d)
                mx.write(d + '/cur/1:2,S', corpus.msg(subject='zz', body='w'))
                self.src[base, 'md%d' % i] = '%s/md%d/cur/1:2,S' % (base, i)
                d = '%s/%s/mh%d' % (w, base, i)
                os.makedirs(d)
                mx.write(d + '/.mh_sequences', '')
                mx.write(d + '/1', corpus.msg(subject='zz', body='w'))
                self.src[base, 'mh%d' % i] = '%s/mh%d/1' % (base, i)
                d = '%s/%s/mb%d' % (w, base, i)
                mx.write(d, corpus.FROMLINE + corpus.msg(subject='zz', body='w'))
                self.src[base, 'mb%d' % i] = '%s/mb%d' % (base, i)
        self.w0 = set(self.walk())
        self.rc = mx.scratch() + '/rc'
        self.aux = mx.scratch()

    def walk(self):
        out = []
        st = [self.w]
        n = len(self.w) + 1
        while st:
            for e in os.scandir(st.pop()):
                out.append(e.path[n:])
                if e.is_dir(follow_symlinks=False):
                    st.append(e.path)
        return out

    def new(self):
        return [p for p in self.walk() if p not in self.w0]

    def reset(self):
        for p in sorted(self.new(), reverse=True):
            q = self.w + '/' + p
            if os.path.isdir(q) and not os.path.islink(q):
                os.rmdir(q)
            else:
                os.unlink(q)
        if not all(os.path.lexists(self.w + '/' + p) for p in self.w0):
            raise AssertionError('source mail is gone')

    def rel(self, p):
        return p[len(self.w) + 1:] if p.startswith(self.w + '/') else p

    def dbmsgs(self, path):
        """messages recorded in the database at path, found with a configuration of the simplest form"""
        rc = self.aux + '/rc'
        shutil.copyfile(path, self.aux + '/db')
        mx.write(rc, 'base=/nowhere\nmaildir=nofolder\nmformat=raw\ndatabase=%s\n' % (self.aux + '/db'))
        r = self.drv.run(['-f', rc, 's:zz'], env=['HOME=/nowhere'])
        return sorted(self.src_of(l) for l in r.lines if self.w in l)

    def src_of(self, l):
        m = corpus.RAW_RE.match(l)
        return self.rel(m.group(1) if m else l)

    def look(self):
        """description of everything that was created"""
        d = {}
        for p in self.new():
            q = self.w + '/' + p
            if os.path.islink(q):
                par, nm = os.path.split(p)
                d[par + '/*'] = sorted(d.get(par + '/*', []) + [self.rel(os.readlink(q))])
            elif os.path.isdir(q):
                d[p] = 'dir'
            else:
                with open(q, 'rb') as f:
                    s = f.read()
                if s.startswith(b'From mairix@'):
                    d[p] = sorted(self.rel(x.decode()) for x in re.findall(rb'^X-source-folder: (.*)$', s, re.M))
                elif s.startswith(b'X-source-folder: '):
                    par, nm = os.path.split(p)
                    d[par + '/*'] = sorted(d.get(par + '/*', []) + [self.rel(s[17:].split(b'\n')[0].decode())])
                elif s[:2] == b'MX':
                    d[p] = ('db', self.dbmsgs(q))
                else:
                    d[p] = ('file', s[:40])
        return d

    def observe(self, rcbytes, args=None, env=(), cwd=None, iargs=(), sargs=(), query='s:zz', rcpath=None, search=True):
        mx.write(rcpath or self.rc, rcbytes)
        args = ['-f', self.rc] if args is None else args
        env = ['HOME=%s/h' % self.w] + list(env)
        cwd = cwd or self.w + '/o'
        r = self.drv.run(args + list(iargs), cwd=cwd, env=env)
        o = [self.code(r), self.look()]
        if search:
            r = self.drv.run(args + list(sargs) + [query], cwd=cwd, env=env)
            out = None
            if r.code == 0:
                out = sorted(self.src_of(l) for l in r.lines if self.w in l)
                if not r.out or b'Matched ' in r.out:
                    out = None
            o += [self.code(r), self.look(), out]
        if rcpath:
            os.unlink(rcpath)
        self.reset()
        return o

    @staticmethod
    def code(r):
        if r.code == 0:
            return 0
        return 'error' if 1 <= r.code <= 7 and r.err.strip() else 'exit %s' % r.code

    def join(self, base, p):
        return os.path.normpath(p if p.startswith('/') else base + '/' + p)

    def expect(self, c, search=True, cwd=None, fmt=None, mfolder=None):
        """c: effective configuration (missing keys = not given).  Returns what observe() must return."""
        base, dbp = c.get('base'), c.get('database')
        cwd = cwd or self.w + '/o'
        if base is None or dbp is None:
            return ['error', {}] + (['error', {}, None] if search else [])
        bn = os.path.basename(base)
        fol = [f for k in KINDS if c.get(k) for f in c[k].split(':')]
        om = c.get('omit', '').split(':')
        files = {}
        if not any(c.get(k) for k in KINDS):
            return ['error', {}] + (['error', {}, None] if search else [])
        msgs = sorted(self.src[bn, f] for f in fol if f not in om)
        dbp = self.rel(os.path.normpath(os.path.join(cwd, dbp)))
        files[dbp] = ('db', msgs)
        o = [0, dict(files)]
        if not search:
            return o
        fmt = (fmt or c.get('mformat') or 'maildir').lower()
        if fmt in ('raw', 'excerpt'):
            return o + [0, dict(files), msgs]
        mf = mfolder if mfolder is not None else c.get('mfolder')
        if mf is None:
            return o + ['error', dict(files), None]
        if mf.startswith('./'):
            mf = os.path.normpath(cwd + '/' + mf)
        mf = self.rel(self.join(base, mf))
        par = os.path.dirname(mf)
        files.update(self.folder(mf, fmt, msgs))
        return o + [0, files, None]

    def folder(self, mf, fmt, msgs):
        if fmt == 'mbox':
            return {mf: msgs}
        f = {mf: 'dir'}
        if fmt == 'mh':
            f[mf + '/*'] = msgs
        else:
            for s in ('cur', 'new', 'tmp'):
                f[mf + '/' + s] = 'dir'
            ncur = [m for m in msgs]
            f[mf + '/*cur'] = ncur
        return f


def norm(o):
    """maildir match folders: which of new and cur a message goes to is not this property's business"""
    r = []
    for x in o:
        if isinstance(x, dict):
            y = {}
            for k, v in x.items():
                m = re.match(r'(.*)/(cur|new)/\*$', k)
                if m:
                    k = m.group(1) + '/*cur'
                    v = sorted(y.get(k, []) + v)
                y[k] = v
            x = y
        r.append(x)
    return r


def text(c, order=None):
    return ''.join('%s=%s\n' % (k, c[k]) for k in order or c if c.get(k) is not None)


# ---------------------------------------------------------------- families: functions (World, thorough) -> iterator of cases
# a case is (description, observe kwargs, expected observation)

def conf(w, **kw):
    c = {'base': w.w + '/B1', 'database': w.w + '/o/db', 'mfolder': 'mf', 'mformat': 'mbox', 'maildir': 'md1:md2', 'mh': 'mh1',
         'mbox': 'mb1:mb2'}
    c.update(kw)
    return {k: v for k, v in c.items() if v is not None}


def orders(w, t):
    c = conf(w)
    lines = text(c).splitlines(True)
    e = w.expect(c)
    if t:
        lines.append('omit=mb2\n')
        e = w.expect(conf(w, omit='mb2'))
    for p in itertools.permutations(lines):
        yield ('order', dict(rcbytes=''.join(p)), e)


NOISE = ['', '\n', '   \n', '\t\n', '# comment\n', '#base=/wrong\n', '  # mfolder=wrong\n', '#' + 'x' * 4000 + '\n', '#\n', '\n\n#c=d\n\n']


def presentation(w, t):
    c = conf(w, omit='mb2')
    e = w.expect(c)
    keys = list(c)
    for k in keys:
        for lead, case, tail in itertools.product(('', ' ', '\t', '   ', ' \t '), (str.lower, str.upper, str.title, str.swapcase),
                                                  ('', '#c', '# mformat=raw', '#\t#')):
            s = ''.join('%s%s=%s%s\n' % (lead, case(q), c[q], tail) if q == k else '%s=%s\n' % (q, c[q]) for q in keys)
            yield ('presentation', dict(rcbytes=s), e)
            if k == keys[-1]:
                yield ('presentation', dict(rcbytes=s[:-1]), e)
    for lead, tail in itertools.product(('', ' ', '\t '), ('', '#c')):
        yield ('presentation', dict(rcbytes=''.join('%s%s=%s%s\n' % (lead, q.upper(), c[q], tail) for q in keys)), e)
    gaps = range(len(keys) + 1)
    pairs = itertools.combinations(gaps, 2) if t else [(g, g + 3) for g in gaps if g + 3 < len(keys) + 1]
    for g, h in list(pairs) + [(g, None) for g in gaps]:
        for n1, n2 in itertools.product(NOISE, NOISE if h is not None else ['']):
            s = ''
            for i, k in enumerate(keys + [None]):
                s += n1 if i == g else n2 if i == h else ''
                s += '%s=%s\n' % (k, c[k]) if k else ''
            yield ('noise', dict(rcbytes=s), e)
            if s.endswith('\n') and h is None:
                yield ('noise', dict(rcbytes=s[:-1]), e)
    # formats in every letter case (short names: all casings), with every option that overrides the format
    for f in ('maildir', 'mh', 'mbox', 'raw', 'excerpt'):
        cs = [f, f.upper(), f.title(), f.swapcase()[:1] + f[1:], f[:1] + f[1:].upper()]
        if len(f) <= 4:
            cs += [''.join(x) for x in itertools.product(*[(ch, ch.upper()) for ch in f])]
        for v in sorted(set(cs)):
            yield ('format', dict(rcbytes=text(conf(w, mformat=v))), w.expect(conf(w, mformat=v)))
        for so, ff in (('-r', 'raw'), ('--raw-output', 'raw'), ('-x', 'excerpt'), ('--excerpt-output', 'excerpt')):
            yield ('format option', dict(rcbytes=text(conf(w, mformat=f)), sargs=[so]), w.expect(conf(w, mformat=f), fmt=ff))
    yield ('default format', dict(rcbytes=text(conf(w, mformat=None))), w.expect(conf(w, mformat='maildir')))


def compositions(n):
    for m in range(1 << (n - 1)):
        out, cur = [], [0]
        for i in range(1, n):
            if m >> (i - 1) & 1:
                out.append(cur)
                cur = []
            cur.append(i)
        yield out + [cur]


def splits(w, t):
    """every way of spreading folder lists over lines"""
    for k in KINDS:
        for n in (2, 3, 4):
            names = ['%s%d' % (SHORT[k], i + 1) for i in range(n)]
            c = conf(w, maildir=None, mh=None, mbox=None, **{}) | {k: ':'.join(names)}
            e = w.expect(c)
            rest = text({q: v for q, v in c.items() if q != k}).splitlines(True)
            for perm in itertools.permutations(names):
                for comp in compositions(n):
                    ls = ['%s=%s\n' % (k, ':'.join(perm[i] for i in part)) for part in comp]
                    yield ('split', dict(rcbytes=''.join(ls + rest)), e)
                    if perm == tuple(names):
                        yield ('split', dict(rcbytes=''.join(rest + ls)), e)
                        for g in range(len(rest)):
                            yield ('split', dict(rcbytes=''.join(rest[:g] + ls[:1] + rest[g:] + ls[1:])), e)
    # interleaving of lines of all kinds
    ls = [(k, '%s%d' % (SHORT[k], i)) for k in KINDS for i in (1, 2)]
    c = conf(w, maildir='md1:md2', mh='mh1:mh2', mbox='mb1:mb2')
    rest = text({q: c[q] for q in ('base', 'database', 'mfolder', 'mformat')})
    for perm in itertools.permutations(ls):
        yield ('interleaved', dict(rcbytes=rest + ''.join('%s=%s\n' % x for x in perm)), w.expect(c))
    # omit lists
    al = {k: ':'.join('%s%d' % (SHORT[k], i) for i in (1, 2)) for k in KINDS}
    om = ['md1', 'mh2', 'mb2']
    for sub in range(8):
        o = [x for i, x in enumerate(om) if sub >> i & 1]
        c = conf(w, **al) | ({'omit': ':'.join(o)} if o else {})
        e = w.expect(c)
        for perm in itertools.permutations(o):
            for comp in (compositions(len(o)) if o else [[]]):
                ls = ['omit=%s\n' % ':'.join(perm[i] for i in part) for part in comp]
                body = text({q: v for q, v in c.items() if q != 'omit'}).splitlines(True)
                for g in (0, 3, len(body)):
                    yield ('omit', dict(rcbytes=''.join(body[:g] + ls + body[g:])), e)


VARS = {'V': 'vv', 'V9': 'q9', 'V_': 'u_', 'Va': 'wa', 'D': 'x$V', 'T': '~', 'E': ''}
TOK = ['a', '9', '_', '-', '.', '$V', '${V}', '$U', '${U}', '$D', '~', '~/', '${T}', '$E', '${V.}']


def expand(s, home):
    if s.startswith('~/'):
        s2, pre = s[1:], home
    else:
        s2, pre = s, ''
    return pre + re.sub(r'\$\{([^}]*)\}|\$([A-Za-z0-9_]+)', lambda m: VARS.get(m.group(1) or m.group(2) or '', ''), s2)


def references(w, t):
    """all sequences of literal and variable tokens as the database path"""
    env = ['%s=%s' % kv for kv in VARS.items()]
    c = conf(w, maildir='md1', mh=None, mbox=None)
    seen = set()
    for n in range(1, 6 if t else 5):
        for tk in itertools.product(TOK if n < 4 or t else TOK[:12], repeat=n):
            v = ''.join(tk)
            if v in seen:
                continue
            seen.add(v)
            x = expand(v, w.w + '/h')
            p = x if x.startswith('/') else w.w + '/o/' + x
            ok = x and not x.endswith('/') and os.path.isdir(os.path.dirname(p)) and not os.path.isdir(p)
            e = w.expect(c | {'database': x}, search=False) if ok else ['error', {}]
            yield ('reference', dict(rcbytes=text(c | {'database': v}), env=env, search=False), e)


def substrings(w, t):
    """every substring of every value given through a variable"""
    c = conf(w, omit='mb2')
    e = w.expect(c)
    for k in c:
        v = c[k]
        for i in range(len(v) + 1):
            for j in range(i, len(v) + 1):
                if not t and k in ('base', 'database') and (i % 3 or j % 2):
                    continue
                env = ['QQ=' + v[i:j]]
                yield ('variable', dict(rcbytes=text(c | {k: v[:i] + '${QQ}' + v[j:]}), env=env), e)
                if not re.match(r'\w', v[j:]):
                    yield ('variable', dict(rcbytes=text(c | {k: v[:i] + '$QQ' + v[j:]}), env=env), e)
    # two variables in a value
    for k in ('maildir', 'mbox', 'mfolder', 'mformat'):
        v = c[k]
        for i, j in itertools.combinations_with_replacement(range(len(v) + 1), 2):
            for f1, f2 in itertools.product(('$QA', '${QA}'), ('$QB', '${QB}')):
                s = v[:i] + f1 + f2 + v[j:]
                if f2 == '$QB' and re.match(r'\w', v[j:]):
                    continue
                m = (i + j) // 2
                yield ('variables', dict(rcbytes=text(c | {k: s}), env=['QA=' + v[i:m], 'QB=' + v[m:j]]), e)
    # home directory
    hv = [('base', '~/B1'), ('database', '~/o/db'), ('mfolder', '~/o/abs'), ('mfolder', '~/B1/mf')]
    for n in range(1, 5):
        for sub in itertools.combinations(hv, n):
            sub = dict(sub)
            real = {k: w.w + v[1:] for k, v in sub.items()}
            yield ('home', dict(rcbytes=text(c | sub), env=['HOME=' + w.w]), w.expect(c | real))


def subsets(w, t):
    """all subsets of the directives, each given in the file, in the environment, in both or not at all"""
    keys = ['base', 'database', 'mfolder', 'maildir', 'mh', 'mbox']
    rc = {'base': w.w + '/B1', 'database': w.w + '/o/db', 'mfolder': 'mf', 'maildir': 'md1', 'mh': 'mh1', 'mbox': 'mb1'}
    ev = {'base': w.w + '/B2', 'database': w.w + '/o/db2', 'mfolder': 'mf2', 'maildir': 'md2', 'mh': 'mh2', 'mbox': 'mb2'}
    for how in itertools.product(range(4), repeat=len(keys)):
        c = {k: rc[k] for k, h in zip(keys, how) if h & 1}
        e = {k: ev[k] for k, h in zip(keys, how) if h & 2}
        fmts = ('mbox', 'mh', 'raw', None) if t else (('mbox', 'raw', 'mh', None)[sum(how) % 4],)
        for f in fmts:
            cc = c | ({'mformat': f} if f else {})
            yield ('sources', dict(rcbytes=text(cc), env=['%s=%s' % (ENVN[k], v) for k, v in e.items()]), w.expect(cc | e))


def options(w, t):
    """-f, -o and the default file"""
    c = conf(w)
    other = text(conf(w, base=w.w + '/B2', database=w.w + '/o/wrong', mfolder='wrong', mformat='mh'))
    mfs = ['mf', './mf', w.w + '/o/abs', 'md3/x', './../o/z', w.w + '/h/y']
    for mode in ('-f', '--rcfile', 'default', 'default+f'):
        for o, oname in itertools.product([None] + mfs, ('-o', '--mfolder')):
            for rcmf, envmf in itertools.product(mfs[:3] + [None], ['em', None]):
                for fmt in ('mbox', 'mh', 'maildir', 'raw'):
                    cc = dict(c, mformat=fmt)
                    if rcmf is None:
                        del cc['mfolder']
                    else:
                        cc['mfolder'] = rcmf
                    eff = o if o is not None else envmf if envmf is not None else rcmf
                    if eff == 'md3/x' and fmt != 'mbox':
                        continue
                    kw = dict(rcbytes=text(cc), env=['MAIRIX_MFOLDER=' + envmf] if envmf else [])
                    if mode == 'default':
                        kw.update(args=[], rcpath=w.w + '/h/.mairixrc')
                    elif mode == '--rcfile':
                        kw.update(args=['--rcfile', w.rc])
                    so = [oname, o] if o is not None else []
                    yield (mode, dict(kw, sargs=so, _other=other if mode == 'default+f' else None), w.expect(
                        {k: v for k, v in cc.items() if k != 'mfolder'} | ({'mfolder': eff} if eff is not None else {})))
                    if mode != '--rcfile' and oname == '-o' and o is None:
                        break
                if o is None and oname == '--mfolder':
                    break
    # relative rc file and database paths, from several directories
    for cwd in (w.w + '/o', w.w + '/h', w.w):
        for db in ('db', './db', 'hh/../db', w.w + '/o/db'):
            cc = dict(c, database=db)
            ok = os.path.isdir(os.path.dirname(os.path.join(cwd, db)))
            yield ('cwd', dict(rcbytes=text(cc), cwd=cwd), w.expect(cc, cwd=cwd) if ok else ['error', {}, 'error', {}, None])


def invalid(w, t):
    c = conf(w)
    ok = ('mh', 'maildir', 'raw', 'exc', 'mbox', 'imap')
    seen = set()
    al = ['m', 'h', 'mail', 'dir', 'box', 'raw', 'imap', 'ex', '-', '1', '_', '/']
    for n in range(0, 5 if t else 4):
        for tk in itertools.product(al, repeat=n):
            v = ''.join(tk)
            if v in seen or v.startswith(ok) or (n == 4 and not t):
                continue
            seen.add(v)
            for f in ((text(c | {'mformat': v}), 'mformat=%s\n' % v + text(conf(w, mformat=None))) if n < 3 else (text(c | {'mformat': v}),)):
                yield ('invalid format %r' % v, dict(rcbytes=f), ['error', {}, 'error', {}, None])
    # unreadable configuration
    for a in (['-f', w.w + '/nosuch'], ['-f', w.w + '/o'], ['-f', ''], ['--rcfile', w.w + '/o/']):
        yield ('no file', dict(rcbytes='', args=a), ['error', {}, 'error', {}, None])
    yield ('no default file', dict(rcbytes='', args=[]), ['error', {}, 'error', {}, None])
    yield ('empty file', dict(rcbytes=''), ['error', {}, 'error', {}, None])


def lengths(w, t):
    """long lines: either obeyed completely or refused (None stands for: one of the two)"""
    for n in (list(range(4080, 4110)) + list(range(8180, 8200)) if t else list(range(4086, 4100)) + [8190, 8191, 8192]) + [100, 1000, 4000, 20000]:
        for k, c, real in (('maildir', conf(w, maildir=None), 'md1:md2'), ('mbox', conf(w, mbox=None), 'mb1:mb2'),
                           ('mh', conf(w, mh=None), 'mh1')):
            pad = n - len(k) - 1 - len(real) - 1
            # doubled separators and './' steps are no folders of their own
            for padding in (':nx' * (pad // 3), ):
                e = w.expect(c | {k: real})
                rest = text(c)
                yield ('long', dict(rcbytes='%s=%s%s\n' % (k, real, padding) + rest), ('either', e))
                yield ('long', dict(rcbytes=rest + '%s=%s:%s\n' % (k, padding[1:], real)), ('either', e))
        c = conf(w)
        yield ('long comment', dict(rcbytes='#' + 'x' * (n - 2) + '\n' + text(c)), ('either', w.expect(c)))
        yield ('long comment', dict(rcbytes=text(c) + '#' + 'x' * (n - 12) + 'base=/wrong'), ('either', w.expect(c)))
        yield ('long blanks', dict(rcbytes=' ' * n + '\n' + text(c)), ('either', w.expect(c)))
    # long variable values and long joined lists
    for n in (100, 4000, 4096, 5000, 70000):
        c = conf(w)
        yield ('long variable', dict(rcbytes=text(c | {'maildir': 'md1$QQ:md2'}), env=['QQ=' + ':nx' * (n // 3)]), w.expect(c))
        c = conf(w)
        yield ('many lines', dict(rcbytes=''.join('maildir=nx%d\n' % i for i in range(n // 10)) + text(c)), w.expect(c))


FAM = dict(orders=orders, presentation=presentation, splits=splits, references=references, substrings=substrings, subsets=subsets,
           options=options, invalid=invalid, lengths=lengths)


def run(ctx, item):
    exe, fam, t, part, nparts = item
    w = World(exe)
    out = dict(n=0, bad=[], runs=0, kinds={}, outcomes=set(), sample=None)
    for i, (what, kw, e) in enumerate(FAM[fam](w, t)):
        if i % nparts != part:
            continue
        kw = dict(kw)
        other = kw.pop('_other', None)
        if other:
            mx.write(w.w + '/h/.mairixrc', other)
            w.w0.add('h/.mairixrc')
        elif 'h/.mairixrc' in w.w0:
            os.unlink(w.w + '/h/.mairixrc')
            w.w0.discard('h/.mairixrc')
        o = w.observe(**kw)
        if kw.get('rcpath'):
            o = [({k: v for k, v in x.items() if k != 'h/.mairixrc'} if isinstance(x, dict) else x) for x in o]
        o = norm(o)
        out['n'] += 1
        out['runs'] += 2 if kw.get('search', True) else 1
        good = False
        if isinstance(e, tuple):
            good = o == e[1] or o == ['error', {}, 'error', {}, None]
            e = e[1]
        else:
            good = o == e
        out['outcomes'].add(hash(repr(o)))
        if out['sample'] is None and i > 40:
            out['sample'] = '%s: %r' % (what, kw['rcbytes'].replace(w.w, 'W')[:300])
        if not good:
            df = [(x, y) for x, y in zip(o, e) if x != y]
            case = {k: str(v).replace(w.w, 'W')[:2000] for k, v in kw.items()}
            out['bad'].append(('%s: rc %s %s: observed %s, expected %s' % (
                what, case['rcbytes'][:300], {k: v for k, v in case.items() if k != 'rcbytes'}, str(df[0][0])[:250], str(df[0][1])[:250]),
                dict(family=fam, case=case, observed=repr(o)[:2000], expected=repr(e)[:2000])))
            if len(out['bad']) > 8:
                break
    w.drv.close()
    mx.cleanup()
    return out


def run_nul(ctx, item):
    """zero bytes anywhere in the file: no memory error (result not judged)"""
    exe, part, nparts = item
    w = World(exe)
    out = dict(n=0, bad=[], runs=0, outcomes=set(), sample=None)
    base = text(conf(w)).replace(w.w + '/B1', '~/../B1').replace(w.w, '~/..')
    cases = [base[:i] + '\0' + base[i:] for i in range(len(base) + 1)]
    cases += [base[:i] + '\0' + base[i + 1:] for i in range(len(base))]
    cases += [base[:i] + '\0\n' + base[i:] for i in range(len(base) + 1)]
    cases += [base[:i] for i in range(len(base))]
    cases += [base.replace('=', x) for x in ('', '==', ' = ', '\n', '=$', '=${', '=${}', '=~', '=$$', '=$/')]
    ws = ['base', 'folders', 'mh_folders', 'maildir', 'mh', 'mbox', 'omit', 'mformat', 'mfolder', 'database', 'nochecks',
          'follow_mbox_symlinks', 'sort', 'imap', 'imap_pipe']
    cases += [''.join('%s%s\n' % (x, s) for x, s in zip(p, q)) + base for p in itertools.product(ws[:12], repeat=2)
              for q in itertools.product(('', '=', '=x'), repeat=2)]
    cases += [base + '%s%s%s' % (x, s, nl) for x in ws for s in ('', '=', '=x', ':', ' ') for nl in ('', '\n')]
    for i, s in enumerate(cases):
        if i % nparts != part:
            continue
        mx.write(w.rc, s)
        for a in ([], ['s:zz']):
            r = w.drv.run(['-f', w.rc] + a, cwd=w.w + '/o', env=['HOME=%s/h' % w.w])
            out['runs'] += 1
            out['outcomes'].add((r.code, r.err[:30]))
            if not (r.code is not None and 0 <= r.code <= 7):
                out['bad'].append(('rc file %r: exit %s: %s' % (s[:400], r.code, r.err.decode('latin-1')[:300]), dict(rc=s)))
        out['n'] += 1
        w.reset()
        if len(out['bad']) > 8:
            break
    w.drv.close()
    mx.cleanup()
    return out


def check(ck):
    t = ck.thorough
    b = mx.build(('plain', 'asan'))
    for k in ('states', 'transitions', 'traces_validated_against_impl'):
        ck.cov[k] = 0
    oc = set()

    def take(o):
        ck.add('states', o['n'])
        ck.add('transitions', o['runs'])
        ck.add('traces_validated_against_impl', o['n'])
        oc.update(o['outcomes'])
        if o['sample']:
            ck.sample(o['sample'])
        for x, c in o['bad']:
            ck.violation(x, c)
    NP = 16
    jobs = [(b['plain'], f, t, i, NP) for i in range(NP) for f in FAM]
    for o in mx.pmap(run, jobs):
        take(o)
    for o in mx.pmap(run_nul, [(b['asan'], i, NP) for i in range(NP)]):
        take(o)
    ck.cov['distinct_outcomes'] = len(oc)
    ck.cov['families'] = ' '.join(FAM)
    ck.cov['exhaustive'] = True
    ck.cov['rule'] = ('state = one configuration (file, environment, options); transition = one run of mairix under it, after which every '
                      'created file and its contents are compared with the expectation for the effective configuration')
    ck.assumptions += ['HOME is always set', 'an mfolder value starting with a dot but not "./" is not judged (manual and code differ)',
                       'trailing blanks are part of a value']


mx.main(check, 'P19', 'model_checking')
