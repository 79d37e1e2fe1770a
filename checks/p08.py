"""P08: thread search = connected components of the reference graph.
All reference structures among k messages plus absent ids are put side by side, in disjoint name spaces, into
databases; thread searches give the union of the components, which decomposes per structure."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import mx, corpus

FL = corpus.FROMLINE
NFORMS = 8


def headers(ids, form):
    """reference headers for a list of ids"""
    a = ['<%s>' % i for i in ids]
    if not a:
        return ''
    if form == 0:
        return 'References: %s\n' % ' '.join(a)
    if form == 1:       # first in In-Reply-To, rest in References
        return 'In-Reply-To: %s\n' % a[0] + ('References: %s\n' % ' '.join(a[1:]) if a[1:] else '')
    if form == 2:       # last in In-Reply-To, all in References, folded
        return 'References: %s\nIn-Reply-To: %s\n' % ('\n\t'.join(a), a[-1])
    if form == 3:
        return 'IN-REPLY-TO: Your message of Monday\n %s\n' % ' '.join(a)
    if form == 4:
        return 'references:%s\n' % ''.join(reversed(a))
    if form == 6:       # first in References, rest in In-Reply-To after it
        return 'References: %s\n' % a[0] + ('In-Reply-To: %s\n' % ' '.join(a[1:]) if a[1:] else '')
    if form == 7:       # no blank after the colon, In-Reply-To between other headers
        return 'In-Reply-To:%s\nX-Foo: <no@q>\n' % a[-1] + ('References:%s\n' % '\n '.join(a[:-1]) if a[1:] else '')
    return 'In-Reply-To: %s (x\'s message)\nReferences: <w%s.pad@q> %s\n' % (a[0], a[0][1:-1], '\n '.join(a))


def component(struct, j, alive):
    """struct: list of frozenset of all ids a message carries"""
    comp = {j}
    ids = set(struct[j])
    while True:
        new = [i for i in alive if i not in comp and struct[i] & ids]
        if not new:
            return comp
        for i in new:
            comp.add(i)
            ids |= struct[i]


def run(ctx, job):
    exe, k, structs, form, splits, key, layout = job
    out = dict(q=0, worlds=len(structs), pairs=0, bad=[], shapes=set(), sample=None)
    drv, d = mx.Driver(exe), mx.scratch()
    # box j holds message j of every world (layout 0); or one box with everything interleaved (layout 1)
    boxes = {}
    where = {}
    carried = []
    for w, (own, refs) in enumerate(structs):
        cs = []
        for j in range(k):
            f = (w + j) % NFORMS if form is None else form
            h = 'Subject: m%d world%d\n' % (j, w)
            c = set()
            if own[j] is not None:
                h += 'Message-ID: <w%d.%s@q>\n' % (w, own[j])
                c.add(str(own[j]))
            ids = ['w%d.%s@q' % (w, r) for r in refs[j]]
            h += headers(ids, f)
            c |= {str(r) for r in refs[j]}
            if f == 5 and refs[j]:
                c.add('pad%s' % refs[j][0])
            cs.append(frozenset(c))
            b = 'box%d' % (j if layout == 0 else 0)
            t = boxes.setdefault(b, [0, []])
            m = (h + '\nb\n\n').encode()
            where[(b, t[0] + len(FL))] = (w, j)
            t[1].append(FL + m)
            t[0] += len(FL) + len(m)
        carried.append(cs)
    rc = corpus.write_rc(d, mbox='mb/box*')
    os.mkdir(d + '/mb')
    alive = set()
    for nstep, step in enumerate(splits if layout == 0 else [[0]]):
        for j in step:
            if j < 0:       # ~j: the messages j vanish before this run
                os.unlink(d + '/mb/box%d' % ~j)
                alive.discard(~j)
            else:
                mx.write(d + '/mb/box%d' % j, b''.join(boxes['box%d' % j][1]))
                alive.add(j)
        purge = ['-p'] if (key >> nstep) & 1 else []
        r = drv.run(['-f', rc, '--force-hash-key-new-database', str(key)] + purge, timeout=300)
        if r.code != 0:
            out['bad'].append(('indexing failed %r' % r, {}))
            return out
    alive = range(k) if layout else sorted(alive)
    for j in alive:
        r = drv.run(['-f', rc, '-r', '-t', 's:m%d' % j], timeout=300)
        out['q'] += 1
        got = {}
        n = 0
        for l in r.lines:
            m = corpus.RAW_RE.match(l)
            p = where.get((os.path.basename(m.group(1)), int(m.group(2)))) if m else None
            if p is None:
                out['bad'].append(('odd output line %r' % l, {}))
                break
            got.setdefault(p[0], set()).add(p[1])
            n += 1
        if r.code not in (0, 1):
            out['bad'].append(('search failed %r' % r, {}))
            break
        tot = 0
        for w in range(len(structs)):
            exp = component(carried[w], j, alive)
            tot += len(exp)
            out['pairs'] += 1
            out['shapes'].add((j, tuple(sorted(exp))))
            if got.get(w, set()) != exp:
                if len(out['bad']) < 3:
                    out['bad'].append((
                        'thread of message %d of %s: got %s, expected %s (form %s, runs %s, hash key %s)' % (
                            j, [('id %s' % o, 'refs %s' % list(r)) for o, r in zip(*structs[w])], sorted(got.get(w, ())),
                            sorted(exp), (w + j) % NFORMS if form is None else form, splits, key),
                        dict(structure=repr(structs[w]), form=form, runs=repr(splits), key=key)))
        if not out['bad'] and tot != n:
            out['bad'].append(('thread search lists a message twice', {}))
        if out['bad']:
            break
    out['sample'] = '%d messages: %s runs %s' % (k, structs[len(structs) // 2], splits)
    drv.close()
    mx.cleanup()
    return out


def subsets(ids, maxn):
    for n in range(0, min(maxn, len(ids)) + 1):
        yield from itertools.combinations(ids, n)


def structures(k, absent, maxrefs):
    """all reference structures; message j has id j; refs to any other id or an absent one"""
    per = []
    for j in range(k):
        ids = [i for i in range(k) if i != j] + ['x%d' % a for a in range(absent)]
        per.append(list(subsets(ids, maxrefs)))
    own = tuple(range(k))
    for combo in itertools.product(*per):
        yield (own, combo)


def noid_structures(k):
    """some messages without id, some with the id of another"""
    for own in itertools.product(*[[None, j] + ([0] if j else []) for j in range(k)]):
        per = [list(subsets([i for i in list(range(k)) + ['x0'] if i != own[j]], 2)) for j in range(k)]
        for combo in itertools.product(*per):
            yield (own, combo)


def partitions(k):
    """all ordered set partitions of range(k)"""
    def rec(rest):
        if not rest:
            yield []
            return
        for n in range(1, len(rest) + 1):
            for c in itertools.combinations(rest, n):
                for t in rec([x for x in rest if x not in c]):
                    yield [list(c)] + t
    yield from rec(list(range(k)))


def jobs(exe, t):
    def cut(k, ss, form, splits, key, layout, n=4096):
        ss = list(ss)
        for i in range(0, len(ss), n):
            yield (exe, k, ss[i:i + n], form, splits, key, layout)
    three = list(structures(3, 1, 4))
    for form in range(NFORMS):
        for p in partitions(3):
            for key in range(0, 8 if t else 2):
                yield from cut(3, three, form, p, key, 0)
        for key in range(0, 40 if t else 10):
            yield from cut(3, three, form, [[0]], key, 1)
    one = [[0, 1, 2, 3]]
    for key in ((1, 2, 3, 4, 5, 6, 7, 8) if t else (1, 2)):
        yield from cut(4, structures(4, 1, 4), None, one, key, 1)
    four = list(structures(4, 1, 1))
    for p in partitions(4):
        yield from cut(4, four, None, p, 3, 0)
    # messages that vanish between the runs (purged or not), and come back
    for gone in range(4):
        rest = [j for j in range(4) if j != gone]
        for runs in ([[0, 1, 2, 3], [~gone]], [rest, [gone], [~gone], []], [[0, 1, 2, 3], [~gone], [gone]],
                     [[gone], rest, [~gone], [gone]], [[0, 1, 2, 3], [~gone, ~rest[0]]], [[gone, rest[0]], [~gone, rest[1], rest[2]]]):
            for key in range(0, 16 if t else 8, 1 if t else 3):
                yield from cut(4, four, None, runs, key, 0)
    for gone in range(3):
        for key in range(4):
            yield from cut(3, three, None, [[0, 1, 2], [~gone]], key, 0)
            yield from cut(3, noid_structures(3), None, [[0, 1, 2], [~gone]], key, 0)
    yield from cut(3, noid_structures(3), None, [[0, 1, 2]], 5, 1)
    yield from cut(5, structures(5, 1, 1), None, [[0]], 1, 1)
    yield from cut(4, structures(4, 2, 2), None, [[1], [0, 3], [2]], 9, 0)
    if t:
        yield from cut(6, structures(6, 1, 1), None, [[0]], 1, 1)
        yield from cut(5, structures(5, 0, 2), None, [[0]], 2, 1)
        for p in partitions(4):
            yield from cut(4, structures(4, 1, 2), None, p, 3, 0)


def check(ck):
    exe = mx.build(('plain',))['plain']
    js = list(jobs(exe, ck.thorough))
    for k in ('states', 'transitions', 'traces_validated_against_impl'):
        ck.cov[k] = 0
    shapes = set()
    for o in mx.pmap(run, js):
        ck.add('states', o['worlds'])
        ck.add('transitions', o['pairs'])
        ck.add('traces_validated_against_impl', o['q'])
        shapes |= o['shapes']
        for w, c in o['bad']:
            ck.violation(w, c)
        if o['sample']:
            ck.sample(o['sample'])
    ck.cov['distinct_outcomes'] = len(shapes)
    ck.cov['databases'] = len(js)
    ck.cov['exhaustive'] = True
    ck.cov['rule'] = ('state = one reference structure (all labelled structures within the bounds) in one form/order of '
                      'indexing; transition = one (structure, start message) component compared; trace = one thread search '
                      'over thousands of structures side by side')


mx.main(check, 'P08', 'model_checking')
