"""P05: incremental indexing of maildir and MH folders = indexing from scratch.
All sequences of folder states and indexing modes up to a depth; see DESIGN.md."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import mx, corpus, hist

T0 = 1000000000


def content(slot, v):
    """v1: base; v2: same size, other mtime; v3: other size, same mtime; v4: both differ"""
    ids = dict(A='a@h', B='b@h', C='c@h', D='d@h', E='e@h')
    irt = dict(B='<a@h>', C='<d@h>', E='<b@h>')
    m = corpus.msg(subject='sver%d slot%s' % (v, slot), frm='from%d@%s.org' % (v, slot.lower()), to='tver%d' % v,
                   cc='cver%d' % v, mid='<%s>' % ids[slot], irt=irt.get(slot),
                   date='%02d Mar %d 12:00:00 +0000' % (10 + v, 2000 + v),
                   extra='MIME-Version: 1.0\nContent-Type: multipart/mixed; boundary=qq\n',
                   body='--qq\n\nbver%d common b%s\n' % (v, slot) + ('longer text\n' * (40 * (v >= 3))) +
                   '--qq\nContent-Type: text/plain\nContent-Disposition: attachment; filename="att%d.%s"\n\nzz\n--qq--\n' % (v, slot))
    t = T0 + ord(slot) * 100 + (v if v in (2, 4) else 0)
    return m, t


def slot_states(slot, t):
    """list of (tag, {path: (data, mtime)}, same-name key)"""
    def f(path, v):
        return {path: content(slot, v)}
    if slot == 'A':
        l = [('-', {}), ('new1', f('md/new/A', 1)), ('new2', f('md/new/A', 2)), ('new3', f('md/new/A', 3)),
             ('curS1', f('md/cur/A:2,S', 1)), ('curFRS1', f('md/cur/A:2,FRS', 1)), ('curS4', f('md/cur/A:2,S', 4)),
             ('curS2', f('md/cur/A:2,S', 2)), ('curS3', f('md/cur/A:2,S', 3)), ('curFRS4', f('md/cur/A:2,FRS', 4)),
             ('curFRS2', f('md/cur/A:2,FRS', 2))]
    elif slot == 'B':
        l = [('-', {}), ('cur1', f('md/cur/B:2,', 1)), ('curF1', f('md/cur/B:2,F', 1)),
             ('curR1', f('md/cur/B:2,R', 1))]
    elif slot == 'C':
        l = [('-', {}), ('mh1', f('mh/1', 1)), ('mh2', f('mh/1', 2)), ('mh3', f('mh/1', 3))]
    elif slot == 'D':
        l = [('-', {}), ('mh1', f('mh/2', 1)), ('moved', f('mh/12', 1))]
    elif slot == 'S':
        # two messages trading names, moving up, moving to other folders
        c, d = content('C', 1), content('D', 1)
        l = [('-', {}), ('cd', {'mh/1': c, 'mh/2': d}), ('dc', {'mh/1': d, 'mh/2': c}), ('packed', {'mh/1': d}),
             ('shifted', {'mh/2': c, 'mh/3': d}), ('tomd', {'md/cur/C:2,S': c, 'mh/2': d}), ('tonew', {'md/new/C': c, 'md/cur/2:2,': d}),
             ('both', {'mh/1': c, 'mh/2': c}), ('bothmd', {'md/new/C': c, 'md/cur/C:2,': c})]
    elif slot == 'E':
        l = [('nofolder', {}), ('empty', {'md2/cur': None, 'md2/new': None, 'md2/tmp': None}),
             ('msg', dict({'md2/cur': None, 'md2/new': None, 'md2/tmp': None}, **f('md2/cur/E:2,', 1)))]
    return l


BASE = {'md/cur': None, 'md/new': None, 'md/tmp': None, 'mh': None, 'mh/.mh_sequences': (b'unseen:\n', T0)}


def universe(spec):
    """spec: dict slot -> list of tags; returns list of (tagtuple, fs)"""
    per = []
    for s, tags in spec.items():
        st = dict(slot_states(s, 1))
        per.append([(s, t, st[t]) for t in tags])
    out = []
    for combo in itertools.product(*per):
        fs = dict(BASE)
        for _, _, x in combo:
            fs.update(x)
        out.append((tuple('%s=%s' % (s, t) for s, t, _ in combo), fs))
    return out


PROBES = [('-x', ['s:~nosuch']), ('copy', ['d:1999-'])] + \
    [('-r', ['%s:%sver%d' % (k, k, v)]) for k in 'stcb' for v in (1, 2, 3, 4)] + \
    [('-r', [q]) for q in ('f:from1', 'f:a/from2', 'f:from3@a.org/from4@a.org', 'n:att1.a', 'n:att2.=', 'n:att3.c', 'F:s', 'F:f',
                           'F:r', 'F:-s-f-r', 'z:800-', 'd:20010101-20020101', 'm:a@h', 'm:b@h', 'm:c@h', 'p:cur')] + \
    [('-t -r', ['s:slotB']), ('-t -r', ['b:bver1', 's:slotD/slotC'])]


def stale_names(fs0, fs1):
    return {p for p in fs0 if p in fs1 and fs0[p] is not None and fs0[p] != fs1[p]}


def run(ctx, job):
    """explore all continuations of one prefix"""
    exe, spec, prefix, depth, modes = job
    out = dict(runs=0, states=0, trans=0, bad=[], sample=None)
    w, seen = ctx.get_world(repr(spec), lambda: hist.World(exe, dict(maildir='md:md2', mh='mh'), PROBES))
    runs0 = w.runs
    uni = universe(spec)

    def step(db, fs_prev, stale, hist_, i, mode):
        """folder state i, indexing mode; returns (db', stale') or None after a violation"""
        tags, fs = uni[i]
        w.set_fs(fs)
        w.set_db(db)
        r = w.index(mode)
        out['trans'] += 1
        h = hist_ + [(' '.join(tags), mode or 'n')]
        if r.code != 0:
            out['bad'].append(('indexing run failed after history %s: %r' % (h, r), dict(history=h)))
            return None
        nd = w.get_db()
        if mode == 'F':
            st = set(stale) | stale_names(fs_prev, fs)
            st = frozenset(p for p in st if p in fs and (p in fs_prev or p in stale))
        else:
            st = frozenset()
        if not st:
            got, exp = w.current(nd, i), w.fresh(i)
            if got != exp:
                out['bad'].append(('history %s: answers differ from a fresh index: %s' % (h, w.diff(got, exp)),
                                   dict(history=h)))
                return None
        else:
            # rewritten files that kept their name may be missed, nothing else
            got, exp = w.current(nd, i), w.fresh(i)
            bad = False
            for (k, q), x, y in zip(w.probes, got, exp):
                if k != '-r':
                    continue
                f = lambda s: {l for l in s if not any(l.endswith(b'/' + p.encode()) for p in st)}
                if len(x) > 2 or f(x[1]) != f(y[1]):
                    bad = True
            if bad:
                out['bad'].append(('history %s (fast run, only %s may be missed): %s' % (h, sorted(st), w.diff(got, exp)),
                                   dict(history=h)))
                return None
        out['sample'] = str(h)
        return nd, st, h

    def expand(db, fs_prev, stale, h, left):
        key = (db, tuple(sorted(fs_prev)) if False else uni_id(fs_prev), stale)
        if seen.get(key, -1) >= left:
            return
        seen[key] = left
        out['states'] += 1
        if left == 0 or len(out['bad']) >= 4:
            return
        for i in range(len(uni)):
            for m in modes:
                s = step(db, fs_prev, stale, h, i, m)
                if s is not None and left > 1:
                    expand(s[0], uni[i][1], s[1], s[2], left - 1)
                elif s is not None:
                    out['states'] += 1

    def uni_id(fs):
        return hash(tuple(sorted((k, v) for k, v in fs.items() if v is not None)))

    db, fs_prev, stale, h = None, {}, frozenset(), []
    for i, m in prefix:
        s = step(db, fs_prev, stale, h, i, m)
        if s is None:
            break
        db, stale, h = s
        fs_prev = uni[i][1]
    else:
        expand(db, fs_prev, stale, h, depth)
    out['runs'] = w.runs - runs0
    return out


def spaces(t):
    M = ('', 'p', 'F')
    # (spec, total depth, modes)
    wide = dict(A=['-', 'new1', 'new2', 'new3', 'curS1', 'curFRS1', 'curS4'], B=['-', 'cur1', 'curF1', 'curR1'],
                C=['-', 'mh1', 'mh2', 'mh3'])
    if not t:
        wide['A'] = ['-', 'new1', 'new3', 'curS1', 'curFRS1']
        wide['C'] = ['-', 'mh1', 'mh2']
    yield (wide, 2, M if t else ('', 'p'))
    yield (dict(A=['-', 'new1', 'new2', 'curS1'], C=['-', 'mh1', 'mh3'], D=['-', 'mh1', 'moved']), 2, M)
    yield (dict(B=['-', 'curF1'], E=['nofolder', 'empty', 'msg'], D=['-', 'mh1']), 3 if not t else 4, ('', 'p'))
    yield (dict(A=['-', 'new1', 'new3', 'curS1'], B=['-', 'cur1']), 3 if not t else 4, M)
    yield (dict(C=['-', 'mh1', 'mh2', 'mh3'], D=['-', 'mh1']), 3 if not t else 4, M)
    yield (dict(A=['-', 'new1', 'new2'], D=['-', 'mh1']), 4 if not t else 5, ('', 'p'))
    yield (dict(A=['-', 'new1', 'curS1', 'curS2', 'curS3', 'curS4', 'curFRS1', 'curFRS2', 'curFRS4']), 4 if t else 3, M)
    yield (dict(S=['-', 'cd', 'dc', 'packed', 'shifted', 'tomd', 'tonew', 'both', 'bothmd']), 4 if t else 3, M)
    if t:
        yield (dict(A=['-', 'new1', 'new3', 'curS1'], B=['-', 'cur1'], C=['-', 'mh1', 'mh2']), 3, M)


def check(ck):
    exe = mx.build(('plain',))['plain']
    jobs = []
    for spec, depth, modes in spaces(ck.thorough):
        n = len(universe(spec))
        for i in range(n):
            if depth >= 3:
                for j in range(n):
                    for m in modes:
                        jobs.append((exe, spec, [(i, ''), (j, m)], depth - 2, modes))
            else:
                jobs.append((exe, spec, [(i, '')], depth - 1, modes))
    jobs.sort(key=lambda j: -len(universe(j[1])) ** j[3])
    for k in ('states', 'transitions', 'traces_validated_against_impl'):
        ck.cov[k] = 0
    for o in mx.pmap(run, jobs, init=hist.Worlds):
        ck.add('states', o['states'])
        ck.add('transitions', o['trans'])
        ck.add('traces_validated_against_impl', o['runs'])
        for w, c in o['bad']:
            ck.violation(w, c)
        if o['sample']:
            ck.sample(o['sample'])
    ck.cov['exhaustive'] = True
    ck.cov['rule'] = ('history = sequence of folder states, each followed by an indexing run (n normal, p purge, F fast); '
                      'transition = one indexing run checked against a fresh index; state = distinct (folders, database) '
                      'reached; traces = all program runs')
    ck.assumptions += ['up to 3 messages and 2-4 indexing runs per history', 'fixed hash key (other keys: P04)',
                       'a rewrite changes size or mtime']


mx.main(check, 'P05', 'model_checking')
