"""P07: vanished messages are never returned; purging and idle runs change no answer.
Every subset of the messages of mixed folders (maildir, MH, two mboxes) is removed, then every further single removal
or return, each with and without purge, followed by idle runs; all answers compared with a fresh index."""
import itertools, os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import mx, corpus, hist

T0 = 1000000000
FL = corpus.FROMLINE
# item -> (kind, ids it refers to)
ITEMS = {'a': ('md', []), 'b': ('md', ['a', 'x1']), 'c': ('mh', ['gone']), 'd': ('mh', ['c', 'y1']),
         'x1': ('X', []), 'x2': ('X', ['gone', 'a']), 'x3': ('X', []), 'y1': ('Y', ['x3'])}
NAMES = list(ITEMS)


def text(i):
    kind, refs = ITEMS[i]
    return corpus.msg(subject='subj%s all' % i, frm='%s@from.org' % i, to='to%s' % i, mid='<%s@h>' % i,
                      refs=' '.join('<%s@h>' % r for r in refs) or None,
                      date='%02d Mar 2001 12:00:00 +0000' % (10 + NAMES.index(i)), cc='cc%s' % i, extra='Status: %s\nX-Status: %s\nContent-Type: multipart/mixed; '
                      'boundary=qq\n' % ('RO' if i in ('x2', 'y1') else 'O', 'AF' if i in ('x1', 'y1') else 'F'),
                      body='--qq\n\nbody%s common\n' % i + 'text\n' * (5 * NAMES.index(i)) +
                      '--qq\nContent-Type: text/plain\nContent-Disposition: attachment; filename=att%s\n\nzz\n--qq--\n' % i)


PATH = {'a': 'md/cur/a:2,S', 'b': 'md/cur/b:2,FR', 'c': 'mh/1', 'd': 'mh/2'}


def fs_of(present):
    fs = {'md/cur': None, 'md/new': None, 'md/tmp': None, 'mh': None, 'mb': None, 'mh/.mh_sequences': (b'unseen:\n', 10 ** 9)}
    for i in PATH:
        if i in present:
            fs[PATH[i]] = (text(i), T0)
    for box in 'XY':
        its = [i for i in NAMES if ITEMS[i][0] == box and i in present]
        if its:
            fs['mb/' + box] = (b''.join(FL + text(i) + b'\n' for i in its),
                               T0 + sum(1 << NAMES.index(i) for i in its))
    # an mbox that stays and one empty slot so that mailbox numbers shift
    fs['mb/Z'] = (FL + corpus.msg(subject='stay all', mid='<z@h>', refs='<zz@h>', body='bodyz common\n') + b'\n', T0)
    return fs


PROBES = [('-r', ['s:all']), ('-x', ['b:common']), ('copy', ['s:~nosuch'])] + \
    [('-t -r', ['s:subj' + i]) for i in NAMES] + \
    [('-r', ['m:' + i + '@h']) for i in ('a', 'd', 'x1', 'x2', 'x3')] + \
    [('-r', ['b:body%s/body%s/body%s' % t]) for t in (('a', 'd', 'x2'), ('b', 'c', 'x1'), ('x3', 'y1', 'z'))] + \
    [('-r', ['F:s']), ('-r', ['F:-s']), ('-r', ['d:20010312-20010316']), ('-r', ['z:200-']), ('-r', ['p:mb,~nosuch']),
     ('-t -r', ['z:-330']), ('-r', ['f:from=1'])] + \
    [('-r', ['%s%s/%s%s/%s%s' % (k, x, k[2:], y, k[2:], z)]) for k in ('s:subj', 't:to', 'c:cc', 'n:att')
     for x, y, z in (('a', 'd', 'x2'), ('b', 'c', 'x1'), ('x3', 'y1', 'z'))] + \
    [('-r', ['f:%s@from.org/%s@from.org' % t]) for t in (('a', 'c'), ('d', 'x1'), ('y1', 'b'), ('x2', 'x3'))] + \
    [('-r', ['F:r']), ('-r', ['F:f'])]


def run(ctx, job):
    exe, s1, seconds, modes = job
    out = dict(runs=0, states=0, trans=0, bad=[], sample=None)
    w, seen = ctx.get_world('w', lambda: hist.World(exe, dict(maildir='md', mh='mh', mbox='mb/*'), PROBES))
    runs0 = w.runs
    full = frozenset(NAMES)

    def step(db, present, h, mode):
        w.set_fs(fs_of(present))
        w.set_db(db)
        r = w.index(mode)
        out['trans'] += 1
        h = h + [('+'.join(i for i in NAMES if i in present) or 'none', mode or 'n')]
        if r.code != 0:
            out['bad'].append(('indexing run failed after history %s: %r' % (h, r), dict(history=h)))
            return None
        nd = w.get_db()
        if (nd, present) not in seen:
            seen[(nd, present)] = 1
            out['states'] += 1
        got, exp = w.current(nd, present), w.fresh(present)
        if got != exp:
            out['bad'].append(('history %s: answers differ from a fresh index: %s' % (h, w.diff(got, exp)),
                               dict(history=h)))
            return None
        if mode == 'p' and nd is not None:
            for i in PATH:
                if i not in present and (w.d + '/' + PATH[i]).encode() + b'\0' in nd:
                    out['bad'].append(('history %s: %s still in the purged database' % (h, PATH[i]), dict(history=h)))
                    return None
            for box in 'XY':
                if not any(ITEMS[i][0] == box and i in present for i in NAMES) and \
                        (w.d + '/mb/' + box).encode() + b'\0' in nd:
                    out['bad'].append(('history %s: mbox %s still in the purged database' % (h, box), dict(history=h)))
                    return None
        out['sample'] = str(h)
        return nd, h

    db0, h0 = step(None, full, [], '')
    for m1 in modes:
        if len(out['bad']) > 3:
            break
        s = step(db0, s1, h0, m1)
        if s is None:
            continue
        for m in ('', 'p'):
            s_ = step(s[0], s1, s[1], m)          # idle run
            if s_ and m == 'p':
                step(s_[0], s1, s_[1], '')
        for i in seconds:
            s2 = s1 ^ {i}
            for m2 in modes:
                t = step(s[0], s2, s[1], m2)
                if t and len(out['bad']) < 4:
                    u = step(t[0], s2, t[1], 'p')
                    if u:
                        step(u[0], s2, u[1], '')
    out['runs'] = w.runs - runs0
    return out


# Positions of words in the hash tables: all ways in which the words of a few messages can collide around the end of a table,
# and every subset of these messages purged.
KEY, SIZE, KEEP = 5, 1024, b'Subject: keeper\n\n'
NEAR = (SIZE - 2, SIZE - 1, 0, 1)
PARTS = 'tcfsbnm'


def bucket(w):
    """where a word (of less than 12 characters) belongs: the hash function of hash.c (lookup2) with this key"""
    M = 0xffffffff
    a = b = 0x9e3779b9
    c = KEY + len(w)
    k = w.encode() + bytes(12 - len(w))
    a = (a + int.from_bytes(k[0:4], 'little')) & M
    b = (b + int.from_bytes(k[4:8], 'little')) & M
    c = (c + (int.from_bytes(k[8:11], 'little') << 8)) & M
    for x, y, z in ((13, 8, 13), (12, 16, 5), (3, 10, 15)):
        a = (a - b - c) & M ^ (c >> x)
        b = (b - c - a) & M ^ (a << y) & M
        c = (c - a - b) & M ^ (b >> z)
    return c % SIZE


def words_at(n):
    """for every bucket in NEAR the n first words (and ids) that belong there"""
    o = {}
    for fmt in ('w%d', 'i%d@x'):
        o[fmt] = {b: [] for b in NEAR}
        i = 0
        while any(len(x) < n for x in o[fmt].values()):
            w = fmt % i
            b = bucket(w)
            if b in o[fmt] and len(o[fmt][b]) < n:
                o[fmt][b].append(w)
            i += 1
    return o


def layout_run(ctx, job):
    exe, lays, n, ws = job
    out = dict(states=0, trans=0, runs=0, bad=[], sample=None)
    d = mx.scratch()
    drv = ctx.layout_driver(exe)
    corpus.mkmaildir(d + '/md')
    mx.write(d + '/md/new/k', KEEP)
    word = [{p: ws['i%d@x' if p == 'm' else 'w%d'][l[i]][i] for p, l in zip(PARTS, lays)} for i in range(n)]
    for i in range(n):
        w = word[i]
        mx.write('%s/md/new/%d' % (d, i), ('To: %(t)s\nCc: %(c)s\nFrom: %(f)s\nSubject: %(s)s\nMessage-ID: <%(m)s>\nContent-Type: multipart/mixed; boundary=bb\n\n--bb\nContent-Type: text/plain\n\n%(b)s\n'
                                           '--bb\nContent-Type: application/x\nContent-Disposition: attachment; filename=%(n)s\n\nx\n--bb--\n' % w).encode())
    rc = corpus.write_rc(d, maildir='md', db=d + '/db')
    r = drv.run(['-f', rc, '--force-hash-key-new-database', str(KEY)], timeout=60)
    out['runs'] += 1
    if r.code != 0:
        raise mx.CheckError('indexing fails: %r' % r)
    db = open(d + '/db', 'rb').read()
    os.mkdir(d + '/away')
    for m in range(1, 1 << n):
        dead = [i for i in range(n) if m >> i & 1]
        mx.write(d + '/db', db)
        for i in dead:
            os.rename('%s/md/new/%d' % (d, i), '%s/away/%d' % (d, i))
        out['states'] += 1
        for step, args in (('purging', ['-p']), ('the next run', ['-p'])):
            r = drv.run(['-f', rc] + args, timeout=60)
            out['runs'] += 1
            out['trans'] += 1
            if r.code != 0:
                out['bad'].append(('words in buckets %s, messages %s purged: %s ends with %s: %r' % (lays, dead, step, r.code, r.err[-200:]), dict(layouts=lays, dead=dead)))
                break
            for i in range(n):
                q = ['%s:%s' % (p, word[i][p]) for p in PARTS]
                if i in dead:
                    q = ['-r', ':'.join(('tcfsb', word[i]['s']))]
                    want = []
                    if any(word[j][p] == word[i]['s'] for j in range(n) if j not in dead for p in 'tcfsb'):
                        continue
                else:
                    q = ['-r'] + q
                    want = ['%s/md/new/%d' % (d, i)]
                r = drv.run(['-f', rc] + q, timeout=60)
                out['runs'] += 1
                if r.lines != want:
                    out['bad'].append(('words in buckets %s, messages %s purged: %s finds %s' % (lays, dead, ' '.join(q), r.lines), dict(layouts=lays, dead=dead)))
            if step == 'purging':
                # the next run adds a message with all the words
                mx.write(d + '/md/new/all', ('To: %s\nSubject: %s\n\n%s\n' % (' '.join(w['t'] for w in word), ' '.join(w['s'] for w in word), ' '.join(w['b'] for w in word))).encode())
                r = drv.run(['-f', rc], timeout=60)
                out['runs'] += 1
                r2 = drv.run(['-f', rc, '-r'] + ['t:' + w['t'] for w in word] + ['s:' + w['s'] for w in word] + ['b:' + w['b'] for w in word], timeout=60)
                if r.code != 0 or r2.lines != [d + '/md/new/all']:
                    out['bad'].append(('words in buckets %s, messages %s purged: a message with all words is not found: %r %r' % (lays, dead, r, r2), dict(layouts=lays, dead=dead)))
                os.unlink(d + '/md/new/all')
        for i in dead:
            os.rename('%s/away/%d' % (d, i), '%s/md/new/%d' % (d, i))
        if len(out['bad']) > 3:
            break
    shutil.rmtree(d)
    return out


class Ctx(hist.Worlds):
    drv07 = None

    def layout_driver(self, exe):
        if self.drv07 is None:
            self.drv07 = mx.Driver(exe)
        return self.drv07


def layout_jobs(exe, th):
    n = 4 if th else 3
    ws = words_at(n)
    all_ = list(itertools.product(NEAR, repeat=n))
    o = []
    for i in range(0, len(all_), len(PARTS)):
        g = [all_[(i + k) % len(all_)] for k in range(len(PARTS))]
        o.append(('layout', exe, g, n, ws))
    # every layout in every table
    for s in range(1, len(PARTS)):
        for i in range(0, len(all_), len(PARTS)) if not th else ():
            g = [all_[(i + (k + s) % len(PARTS)) % len(all_)] for k in range(len(PARTS))]
            o.append(('layout', exe, g, n, ws))
    return o


def step(ctx, job):
    return layout_run(ctx, job[1:]) if job[0] == 'layout' else run(ctx, job)


def check(ck):
    exe = mx.build(('plain',))['plain']
    jobs = layout_jobs(exe, ck.thorough)
    subs = [frozenset(c) for n in range(len(NAMES) + 1) for c in itertools.combinations(NAMES, n)]
    for s1 in subs:
        if ck.thorough:
            sec = NAMES
        else:
            k = NAMES.index
            sec = [i for i in NAMES if (sum(k(x) for x in s1) + k(i)) % 3 == 0]
        jobs.append((exe, s1, sec, ('', 'p')))
    for k in ('states', 'transitions', 'traces_validated_against_impl'):
        ck.cov[k] = 0
    for o in mx.pmap(step, jobs, init=Ctx):
        ck.add('states', o['states'])
        ck.add('transitions', o['trans'])
        ck.add('traces_validated_against_impl', o['runs'])
        for w, c in o['bad']:
            ck.violation(w, c)
        if o['sample']:
            ck.sample(o['sample'])
    ck.cov['exhaustive'] = True
    ck.cov['rule'] = ('history = all messages indexed; then every subset kept (256), purged or not; then single changes '
                      '(quick: a third of them, thorough: all), purged or not; then idle runs; transition = one indexing '
                      'run whose answers are compared with a fresh index')
    ck.cov['hash_layouts'] = sum(1 for j in jobs if j[0] == 'layout')
    ck.assumptions += ['8 messages in a maildir, an MH folder and two mboxes; 3 (thorough: 4) words in the last two and first two buckets of each hash table']


mx.main(check, 'P07', 'model_checking')
