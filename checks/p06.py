"""P06: incremental indexing of mboxes = indexing from scratch.
All sequences of mbox contents (as sequences of messages) and indexing modes up to a depth."""
import bz2, gzip, io, itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import mx, corpus, hist

T0 = 1000000000
FL = corpus.FROMLINE


MM = b'\1\1\1\1\n'


def message(k, mmdf=False):
    """k: number, or number + "'" (other text, same length), or number + 'p' (cut short)"""
    n = int(k[0])
    q = 2 if k.endswith("'") else 1
    m = corpus.msg(subject='subj%d%d msg' % (n, q), frm='a%d%d@h.org' % (n, q), to='to%d%d' % (n, q),
                   mid='<i%d%d@h>' % (n, q), irt='<i%d1@h>' % (n - 1), date='%02d Mar 200%d 12:00:00 +0000' % (10 + n, q),
                   cc='cc%d%d' % (n, q),
                   extra='Status: %s\nX-Status: %s\nContent-Type: multipart/mixed; boundary=qq\n' % (
                       'RO' if n % 2 else 'O', ('A', 'F', 'AF')[n % 3]),
                   body='--qq\n\nbody%d%d common\n' % (n, q) + 'line\n' * (3 * n) +
                   '--qq\nContent-Type: text/plain\nContent-Disposition: attachment; filename=att%d%d\n\nzz\n--qq--\n' % (n, q))
    if mmdf:
        return MM + m + MM
    t = FL + m + b'\n'
    if k.endswith('p'):
        t = t[:-12]
    return t


def split(keys, mmdf=False):
    """(offset, length, text) of each message of an mbox made of keys"""
    out, pos = [], 0
    h, e = (len(MM), len(MM)) if mmdf else (len(FL), 0)
    for k in keys:
        t = message(k, mmdf)
        out.append((pos + h, len(t) - h - e, t[h:len(t) - e]))
        pos += len(t)
    return out


def form(name, keys):
    """is that mbox in MMDF format?  (.mix: depends on its first message)"""
    return name.endswith('.mm') or (name.endswith('.mix') and keys[:1] in (('2',), ('3',)))


def data(keys, mmdf=False):
    return b''.join(message(k, mmdf) for k in keys)


def gz(b):
    f = io.BytesIO()
    with gzip.GzipFile(fileobj=f, mode='wb', mtime=0) as g:
        g.write(b)
    return f.getvalue()


def enc(name, b):
    if name.endswith('.gz'):
        return gz(b)
    if name.endswith('.bz2'):
        return bz2.compress(b)
    return b


def stamp(keys, policy):
    if policy == 'const':
        return T0
    h = 0
    for k in keys:
        h = h * 37 + sum(map(ord, k)) + 1
    return T0 + h % 100000007


def universe(spec, policy):
    """spec: {mbox name: [tuple of keys or None]}"""
    out = []
    names = list(spec)
    for combo in itertools.product(*spec.values()):
        fs = {'mb': None, 'mb/keep': (data(['9']), T0)}
        lay = {}
        for n, keys in zip(names, combo):
            if keys is not None:
                fs[('real/' if n.endswith('.ln') else 'mb/') + n] = (enc(n, data(keys, form(n, keys))), stamp(keys, policy))
                lay[n] = keys
        out.append((tuple('%s=%s' % (n, 'absent' if k is None else '[' + ','.join(k) + ']') for n, k in zip(names, combo)),
                    fs, lay))
    return out


PROBES = [('-r', ['s:msg']), ('-x', ['b:common']), ('copy', ['b:common'])] + \
    [('-r', [q]) for q in ('b:body11', 'b:body21/body12', 'b:body31', 's:subj22/subj31', 's:subj11', 't:to41/to61', 't:to21', 'c:cc11',
                           'c:cc31/cc51', 'f:a11@h.org/a12', 'f:a21', 'n:att11', 'n:att21', 'n:att4=', 'm:i21@h', 'm:i11@h',
                           'F:s', 'F:r', 'F:f', 'z:-300', 'd:20010312-20010316', 'p:Y')] + \
    [('-t -r', ['s:subj11']), ('-t -r', ['m:i51@h'])]


def exempt(lay0, lay1):
    """an edit leaving a later message where it was, after a changed one; or an invisible edit"""
    for n in lay0:
        if n in lay1 and lay0[n] != lay1[n]:
            b1 = data(lay1[n], form(n, lay1[n]))
            ok = [b1[o:o + l] == t for o, l, t in split(lay0[n], form(n, lay0[n]))]
            if ok != sorted(ok, reverse=True):
                return True
    return False


def invisible(fs0, fs1):
    return any(p in fs1 and fs0[p] is not None and fs0[p] != fs1[p] and fs0[p][1] == fs1[p][1] and
               len(fs0[p][0]) == len(fs1[p][0]) for p in fs0)


def make_world(exe, spec):
    w = hist.World(exe, dict(mbox='mb/*'), PROBES, 'follow_mbox_symlinks\n')
    for n in spec:
        if n.endswith('.ln'):
            os.makedirs(w.d + '/mb', exist_ok=True)
            os.symlink('../real/' + n, w.d + '/mb/' + n)
    return w


def run(ctx, job):
    exe, spec, policy, prefix, depth, modes = job
    out = dict(runs=0, states=0, trans=0, bad=[], sample=None, exempt=0)
    w, seen = ctx.get_world(repr((spec, policy)), lambda: make_world(exe, spec))
    runs0 = w.runs
    uni = universe(spec, policy)

    def step(db, prev, h, i, mode):
        tags, fs, lay = uni[i]
        if prev is not None and (exempt(uni[prev][2], lay) or invisible(uni[prev][1], fs)):
            out['exempt'] += 1
            return None
        w.set_fs(fs)
        w.set_db(db)
        r = w.index(mode)
        out['trans'] += 1
        h = h + [(' '.join(tags), mode or 'n')]
        if r.code != 0:
            out['bad'].append(('indexing run failed after history %s: %r' % (h, r), dict(history=h)))
            return None
        nd = w.get_db()
        got, exp = w.current(nd, i), w.fresh(i)
        if got != exp:
            out['bad'].append(('history %s: answers differ from a fresh index: %s' % (h, w.diff(got, exp)),
                               dict(history=h)))
            return None
        out['sample'] = str(h)
        return nd, h

    def expand(db, prev, h, left):
        key = (db, prev)
        if seen.get(key, -1) >= left:
            return
        seen[key] = left
        out['states'] += 1
        if left == 0 or len(out['bad']) >= 4:
            return
        for i in range(len(uni)):
            for m in modes:
                s = step(db, prev, h, i, m)
                if s is not None:
                    expand(s[0], i, s[1], left - 1)

    db, prev, h = None, None, []
    for i, m in prefix:
        s = step(db, prev, h, i, m)
        if s is None:
            break
        db, h = s
        prev = i
    else:
        expand(db, prev, h, depth)
    out['runs'] = w.runs - runs0
    return out


def spaces(t):
    perms = [tuple(x) for n in range(0, 4) for x in itertools.permutations('123', n)]
    X = [None] + perms + [("1", "2'"), ("2'",), ("1", "2'", "3"), ("1", "3p"), ("1", "2", "3p"), ("1", "2", "3", "4")]
    Xs = [None, (), ('1',), ('1', '2'), ('2',), ('2', '1')]
    yield dict(X=X), 'unique', 2 if not t else 3, ('', 'p')
    yield dict(X=[None, (), ('1',), ('2',), ('1', '2'), ('1', '2', '3'), ("1", "2'"), ('1', '3'), ('2', '3')]), 'unique', 3, ('', 'p')
    yield dict(X=[x for x in X if x is None or len(x) < 3]), 'const', 3 if t else 2, ('', 'p')
    yield {'X.gz': [None, ('1',), ('1', '2'), ('2',), ('1', '2', '3'), ()], 'Y': [None, ('4',), ('4', '5')]}, 'unique', 2, ('', 'p')
    yield dict(X=[None, ('1',), ('1', '2'), ('2',)], Y=[None, ('4',), ('4', '5'), ('5',)], Z=[None, ('6',)]), 'unique', 2 if not t else 3, ('', 'p')
    yield {'X.mm': [x for x in X if x is None or not (x and x[-1].endswith('p'))]}, 'unique', 2, ('', 'p')
    yield {'X.mm': [None, ('1',), ('2',), ('1', '2'), ('1', '2', '3'), ("1", "2'"), ('1', '3')], 'Y': [('4',), ('5',)]}, 'unique', 3 if t else 2, ('', 'p')
    yield {'X.mix': [('1',), ('2',), ('1', '2'), ('2', '1'), ('2', '3'), ('1', '3'), ('3', '1'), (), None]}, 'unique', 3, ('', 'p')
    yield {'X': [None, ('1',), ('1', '2')], 'Y.bz2': [None, ('4',), ('5', '4')]}, 'unique', 3, ('', 'p')
    yield {'X.ln': [None, ('1',), ('1', '2'), ('2',), ('1', '2', '3')], 'Y': [('4',), ('4', '5')]}, 'unique', 3 if t else 2, ('', 'p')
    yield dict(X=Xs if t else [None, ('1',), ('2', '1')]), 'unique', 5, ('', 'p')


def check(ck):
    exe = mx.build(('plain',))['plain']
    jobs = []
    for spec, policy, depth, modes in spaces(ck.thorough):
        n = len(universe(spec, policy))
        for i in range(n):
            if depth >= 3:
                for j in range(n):
                    for m in modes:
                        jobs.append((exe, spec, policy, [(i, ''), (j, m)], depth - 2, modes))
            else:
                jobs.append((exe, spec, policy, [(i, '')], depth - 1, modes))
    for k in ('states', 'transitions', 'traces_validated_against_impl'):
        ck.cov[k] = 0
    for o in mx.pmap(run, jobs, init=hist.Worlds):
        ck.add('states', o['states'])
        ck.add('transitions', o['trans'])
        ck.add('traces_validated_against_impl', o['runs'])
        ck.add('exempt_edits_skipped', o['exempt'])
        for w, c in o['bad']:
            ck.violation(w, c)
        if o['sample']:
            ck.sample(o['sample'])
    ck.cov['exhaustive'] = True
    ck.cov['rule'] = ('history = sequence of mbox contents, each followed by an indexing run (n normal, p purge); transition '
                      '= one indexing run checked against a fresh index; state = distinct (mboxes, database) reached; '
                      'traces = all program runs')
    ck.assumptions += ['up to 4 messages per mbox, 3 mboxes, in mbox or MMDF format, compressed or not, 2-5 indexing runs per history',
                       'edits visible as a change of mtime or size, and not the documented exemption']


mx.main(check, 'P06', 'model_checking')
