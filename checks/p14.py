"""P14: size and flag searches.  Databases with a message of every size around every enumerated bound, in files and in
mboxes; messages with every short info suffix / every Status header; every bound pair and flag expression is searched."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import mx, corpus

FL = corpus.FROMLINE
K, M = 1024, 1024 * 1024


# ---------------------------------------------------------------- sizes

def sizes(t):
    s = set(range(60, 140 if t else 100))
    for b in (1 * K, 2 * K, 4 * K, 10 * K, 64 * K, 256 * K):
        s |= {b - 1, b, b + 1}
    for b in (M, 2 * M):
        s |= {b - 1, b, b + 1}
    if t:
        s |= {3 * M - 1, 3 * M, 3 * M + 1, 16 * M - 1, 16 * M, 16 * M + 1, 100 * K, 1000, 1000000}
    return sorted(s)


def pad(n, over):
    h = b'Subject: size\n\n'
    line = b'x' * 70 + b'\n'
    n -= over
    body = (line * (n // 71 + 1))[:n - len(h) - 1] + b'\n'
    m = h + body
    assert len(m) == n, (len(m), n)
    return m


def spell(n):
    o = [str(n)]
    if n % K == 0:
        o += ['%dk' % (n // K), '%dK' % (n // K)]
    if n % M == 0:
        o += ['%dm' % (n // M), '%dM' % (n // M)]
    return o


def bounds(t):
    b = {0, 1, 59, 60, 61, 75, 76, 98, 99, 100, 101, 1000}
    for x in (1 * K, 2 * K, 10 * K, 64 * K, M, 2 * M):
        b |= {x - 1, x, x + 1}
    b |= {3 * M, 100 * M, 1024 * M, 2047 * M, 2048 * M - 1, 2048 * M, 2048 * M + 1, 3000 * M, 4096 * M, 8192 * M, 4194303 * K,
          4294967295, 4294967296, 10 * 4096 * M}
    if t:
        b |= set(range(62, 99)) | {3 * M - 1, 3 * M + 1, 16 * M - 1, 16 * M, 16 * M + 1, 4 * K, 256 * K}
    return sorted(b)


class Sizes:
    def __init__(self, exe, t):
        self.drv = mx.Driver(exe)
        d = self.d = mx.scratch()
        self.sz = {}
        corpus.mkmaildir(d + '/md')
        os.makedirs(d + '/mh')
        mx.write(d + '/mh/.mh_sequences', '')
        for i, n in enumerate(sizes(t)):
            mx.write(d + '/md/new/s%d' % n, pad(n, 0))
            self.sz['%s/md/new/s%d' % (d, n)] = n
            if n < 4 * M:
                mx.write(d + '/mh/%d' % (i + 1), pad(n, 0))
                self.sz['%s/mh/%d' % (d, i + 1)] = n
        pos, parts = 0, []
        for n in sizes(t):
            m = pad(n, 1) + b'\n'
            a = pos + len(FL)
            parts.append(FL + m)
            pos = a + n
            self.sz['mbox:%s/box [%d,%d)' % (d, a, pos)] = n
        mx.write(d + '/box', b''.join(parts))
        self.rc = corpus.write_rc(d, maildir='md', mh='mh', mbox='box')
        r = self.drv.run(['-f', self.rc], timeout=120)
        if r.code != 0:
            raise AssertionError('indexing failed %r' % r)
        r = self.drv.run(['-f', self.rc, '-r', 's:size'])
        if set(r.lines) != set(self.sz):
            raise AssertionError('world not indexed as expected %r' % r)

    def close(self):
        self.drv.close()


def run_size(ctx, job):
    out = dict(n=0, dec=0, bad=[], sets=set())
    for q, lo, hi in job[1]:
        exp = {p for p, n in ctx.sz.items() if (lo is None or n > lo) and (hi is None or n < hi)}
        r = ctx.drv.run(['-f', ctx.rc, '-r', 'z:' + q])
        out['n'] += 1
        out['dec'] += len(ctx.sz)
        got = r.lines
        out['sets'].add((len(exp), lo is None, hi is None))
        if set(got) != exp or len(got) != len(exp) or r.code != (0 if exp else 1):
            out['bad'].append(('z:%s: exit %s, sizes wrongly selected %s, missing %s %s' % (
                q, r.code, sorted({ctx.sz.get(g, -1) for g in got if g not in exp})[:5],
                sorted({ctx.sz[e] for e in exp if e not in got})[:5], r.err[:80]), dict(query='z:' + q)))
            if len(out['bad']) > 3:
                break
    return out


def size_jobs(t):
    qs = []
    bs = bounds(t)
    for lo in [None] + bs:
        for hi in [None] + bs:
            a = [''] if lo is None else spell(lo)
            b = [''] if hi is None else spell(hi)
            l, h = (hi, lo) if lo is not None and hi is not None and lo > hi else (lo, hi)
            for i, x in enumerate(a):
                for j, y in enumerate(b):
                    if t or i == 0 or j == 0 or i == j:
                        qs.append(('%s-%s' % (x, y), l, h))
    n = 300
    return [('z', qs[i:i + n]) for i in range(0, len(qs), n)]


# ---------------------------------------------------------------- flags

INFO = 'FRSTPDa'


def infos(t):
    """info suffixes with the flags they mean; None = no suffix"""
    o = ['', ':2,', ':1,FRS', ':2', ':2;FRS', ':3,FRS', ',2,FRS', '.2,FRS']
    for n in range(1, 5 if t else 4):
        for c in itertools.product(INFO if n < 4 else 'FRSa', repeat=n):
            o.append(':2,' + ''.join(c))
    o += ['x:y:2,' + c for c in ('F', 'R', 'S', 'FRS', '')] + [':2,FRSfrs', ':2,frs', ':2,DFPRST']
    return o


def meaning(info):
    i = info.rfind(':')
    if i < 0 or info[i:i + 3] != ':2,':
        return frozenset()
    return frozenset(x for x in info[i + 3:] if x in 'FRS')


def statuses():
    """(header lines, flags)"""
    o = []
    for st in (None, '', 'R', 'O', 'RO', 'OR', 'U', 'N', 'D'):
        for n in range(0, 4):
            for x in itertools.permutations('AFDT', n):
                xs = ''.join(x)
                fl = frozenset((['S'] if st and 'R' in st else []) + (['R'] if 'A' in xs else []) + (['F'] if 'F' in xs else []))
                a = '' if st is None else 'Status: %s\n' % st
                b = '' if not xs else 'X-Status: %s\n' % xs
                o.append((a + b, fl))
                o.append((b.lower().replace(xs.lower(), xs) if xs else '', fl - (frozenset() if st and 'R' in st and 0 else
                                                                             frozenset('S'))))
                o.append(('X-Foo: RAF\n' + b.upper() + 'Y-Status: RAF\n' + a.upper(), fl))
                o.append((b + 'Subject2: x\n' + a.replace(': ', ':\n  '), fl))
                o.append((a.replace(': ', ':') + b.replace(': ', ':'), fl))
                o.append((b.replace(': ', ':\t') + a.replace(': ', ':  '), fl))
    return o


class Flags:
    def __init__(self, exe, t):
        self.drv = mx.Driver(exe)
        d = self.d = mx.scratch()
        self.fl = {}
        m = b'Subject: flag\n\nb\n'
        os.makedirs(d + '/in/dir:2,FRS', exist_ok=True)
        corpus.mkmaildir(d + '/in/dir:2,FRS/m')
        corpus.mkmaildir(d + '/in/md')
        os.makedirs(d + '/in/mh:2,S')
        mx.write(d + '/in/mh:2,S/.mh_sequences', '')
        for i, s in enumerate(infos(t)):
            for f in ('in/md', 'in/dir:2,FRS/m'):
                if f != 'in/md' and i > 40:
                    continue
                p = '%s/%s/%s/f%d%s' % (d, f, 'cur' if i % 5 else 'new', i, s)
                mx.write(p, m if i % 2 else b'Status: RO\nX-Status: AF\n' + m)
                self.fl[p] = meaning(s)
        for i in range(1, 4):
            mx.write('%s/in/mh:2,S/%d' % (d, i), m)
            self.fl['%s/in/mh:2,S/%d' % (d, i)] = frozenset()
        pos, parts = 0, []
        box = d + '/in/box:2,FRS'
        for h, f in statuses():
            x = b'Subject: flag\n' + h.encode() + b'\nStatus: RO\nX-Status: AF\n\n'
            a = pos + len(FL)
            parts.append(FL + x)
            pos = a + len(x)
            self.fl['mbox:%s [%d,%d)' % (box, a, pos)] = f
        mx.write(box, b''.join(parts))
        s = 'base=%s/in\nmaildir=md\nmaildir=dir\\:2,FRS/m\nmh=mh\\:2,S\nmbox=box\\:2,FRS\nmfolder=%s/mf\ndatabase=%s/db\n' % (d, d, d)
        mx.write(d + '/rc', s)
        self.rc = d + '/rc'
        r = self.drv.run(['-f', self.rc], timeout=120)
        if r.code != 0:
            raise AssertionError('indexing failed %r' % r)
        r = self.drv.run(['-f', self.rc, '-r', 's:flag'])
        if set(r.lines) != set(self.fl):
            raise AssertionError('world not indexed as expected: %r %r' % (
                sorted(set(r.lines) ^ set(self.fl))[:4], r.err[:300]))

    def close(self):
        self.drv.close()


def flag_match(q, flags):
    neg = False
    for c in q:
        if c == '-':
            neg = True
        else:
            if (c.upper() in flags) == neg:
                return False
            neg = False
    return True


def flag_queries(t):
    toks = ['s', 'r', 'f', '-s', '-r', '-f', 'S', 'R', 'F', '-S', '-R', '-F']
    o = []
    for n in range(1, 4 if t else 3):
        for c in itertools.product(toks, repeat=n):
            o.append(''.join(c))
    for c in itertools.product(['s', '-s'], ['r', '-r'], ['f', '-f']):
        for p in itertools.permutations(c):
            o.append(''.join(p))
    return o


def run_flags(ctx, job):
    out = dict(n=0, dec=0, bad=[], sets=set())
    for q in job[1]:
        exp = {p for p, f in ctx.fl.items() if flag_match(q, f)}
        r = ctx.drv.run(['-f', ctx.rc, '-r', 'F:' + q])
        out['n'] += 1
        out['dec'] += len(ctx.fl)
        out['sets'].add(('F', len(exp)))
        got = r.lines
        if set(got) != exp or len(got) != len(exp) or r.code != (0 if exp else 1):
            out['bad'].append(('F:%s: exit %s, wrongly selected %s, missing %s' % (
                q, r.code, sorted(os.path.basename(g) for g in got if g not in exp)[:5],
                sorted(os.path.basename(e) for e in exp if e not in got)[:5]), dict(query='F:' + q)))
            if len(out['bad']) > 3:
                break
    return out


# ---------------------------------------------------------------- flag changes by renaming

def suffix(fl, new):
    return ('' if new else ':2,') + ''.join(sorted(fl))


def run_trans(ctx, job):
    """all messages have flag set a; after the first run they all are renamed to b (one message per b), then to c"""
    exe, a, path2, opts = job
    out = dict(n=0, dec=0, bad=[], sets=set())
    drv, d = mx.Driver(exe), mx.scratch()
    corpus.mkmaildir(d + '/md')
    rc = corpus.write_rc(d, maildir='md')
    states = [None] + [frozenset(x) for n in range(4) for x in itertools.combinations('FRS', n)]     # None: in new

    def name(i, s):
        return '%s/md/%s/m%d%s' % (d, 'new' if s is None else 'cur', i, suffix(s or (), s is None))
    seqs = [(a, b) + ((c,) if path2 else ()) for b in states for c in (states if path2 else [0])]
    for i, s in enumerate(seqs):
        mx.write(name(i, s[0]), 'Subject: w%d\n\nb\n' % i)
    for step in range(len(seqs[0])):
        if step:
            for i, s in enumerate(seqs):
                if s[step] != s[step - 1]:
                    os.rename(name(i, s[step - 1]), name(i, s[step]))
        r = drv.run(['-f', rc] + list(opts))
        if r.code != 0:
            out['bad'].append(('indexing failed %r' % r, {}))
            break
        for q in ('s', '-s', 'r', '-r', 'f', '-f'):
            exp = {name(i, s[step]) for i, s in enumerate(seqs) if flag_match(q, s[step] or ())}
            r = drv.run(['-f', rc, '-r', 'F:' + q])
            out['n'] += 1
            out['dec'] += len(seqs)
            if set(r.lines) != exp:
                out['bad'].append(('after renaming (step %d of %s..., options %s) F:%s wrongly selects %s and misses %s' % (
                    step, [sorted(x or 'n') for x in seqs[0]], list(opts), q, sorted(set(r.lines) - exp)[:3],
                    sorted(exp - set(r.lines))[:3]), dict(a=repr(a), options=list(opts))))
    drv.close()
    mx.cleanup()
    return out


def check(ck):
    t = ck.thorough
    exe = mx.build(('plain',))['plain']
    for k in ('states', 'transitions', 'traces_validated_against_impl'):
        ck.cov[k] = 0
    sets = set()

    def take(o):
        ck.add('traces_validated_against_impl', o['n'])
        ck.add('states', o['n'])
        ck.add('transitions', o['dec'])
        sets.update(o['sets'])
        for w, c in o['bad']:
            ck.violation(w, c)
    zj = size_jobs(t)
    for o in mx.pmap(run_size, zj, init=lambda: Sizes(exe, t)):
        take(o)
    qs = flag_queries(t)
    fj = [('f', qs[i:i + 40]) for i in range(0, len(qs), 40)]
    for o in mx.pmap(run_flags, fj, init=lambda: Flags(exe, t)):
        take(o)
    states = [None] + [frozenset(x) for n in range(4) for x in itertools.combinations('FRS', n)]
    tj = [(exe, a, p2, o) for a in states for p2 in (False, True) for o in ((), ('-F',), ('-p',), ('-Q',))]
    for o in mx.pmap(run_trans, tj):
        take(o)
    ck.cov['distinct_outcomes'] = len(sets)
    ck.cov['exhaustive'] = True
    ck.sample('z:%s' % zj[0][1][5][0])
    ck.sample('F:%s over %d info suffixes, %d Status headers' % (qs[20], len(infos(t)), len(statuses())))
    ck.cov['rule'] = ('state = one query (all bound pairs in all spellings; all flag expressions) or one renaming history step; '
                      'transition = one (query, message) decision; sizes around every bound, all short info suffixes, all '
                      'Status/X-Status combinations')


mx.main(check, 'P14', 'model_checking')
