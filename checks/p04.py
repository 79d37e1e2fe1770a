"""P04: the inverted index is exact at any scale and hash key, in one run or several.
Model: a map word -> set of message positions.  Enumerated: all subsets of positions of a small database; all small
subsets of the positions at the boundaries of the variable-length position encoding; all database sizes and
vocabulary sizes across the growth steps of the arrays and hash tables; hash keys; ways of splitting the build."""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import mx, corpus

FL = b'From a@bc.de Mon Jan  1 12:00:00 2001\n'


class Box:
    """mbox whose message i carries the words of wordsets containing i"""

    def __init__(self, n, sets, parts='b'):
        per = {}
        for w, s in sets.items():
            for i in s:
                per.setdefault(i, []).append(w)
        self.chunks, self.ends, self.index = [], [], {}
        pos = 0
        for i in range(n):
            ws = per.get(i, ())
            if parts == 'b':
                t = b'X-A: 1\n\n' + ' '.join(ws).encode() + b'\n'
            elif parts == 'm':
                t = b'' .join(b'Message-ID: <%s@x>\n' % w.encode() for w in ws[:1]) + b'X-A: 1\n\n\n'
            else:
                h = {'s': b'Subject', 't': b'To', 'c': b'Cc', 'f': b'From'}[parts]
                t = h + b': ' + '\n '.join(' '.join(ws[k:k + 8]) for k in range(0, max(1, len(ws)), 8)).encode() + \
                    b'\nX-A: 1\n\n\n'
            c = FL + t + b'\n'
            self.index[pos + len(FL)] = i
            self.chunks.append(c)
            pos += len(c)

    def data(self, k=None):
        return b''.join(self.chunks[:k])


def put(path, data, stamp):
    mx.write(path, data)
    os.utime(path, (stamp, stamp))


def index(drv, rc, key=None, opts=()):
    r = drv.run(['-f', rc] + (['--force-hash-key-new-database', str(key)] if key is not None else []) + list(opts),
                timeout=600)
    return r


def ask(drv, rc, q, boxes):
    r = drv.run(['-f', rc, '-r'] + q, timeout=120)
    if r.code not in (0, 1):
        return 'exit %r' % r
    out = []
    for l in r.lines:
        m = corpus.RAW_RE.match(l)
        if not m:
            return 'odd line %r' % l
        base, ix = boxes[os.path.basename(m.group(1))]
        out.append(base + ix.get(int(m.group(2)), -10 ** 9))
    return out


BOUND = [0, 1, 2, 126, 127, 128, 129, 130, 254, 255, 256, 257, 383, 384, 385, 16382, 16383, 16384, 16385, 16386, 16510,
         16511, 16512, 16513]


def job_small(a, out):
    """all subsets of n positions as posting lists"""
    exe, n, part, splits, key = a
    drv, d = mx.Driver(exe), mx.scratch()
    sets = {'w%dq' % k: [i for i in range(n) if k >> i & 1] for k in range(1, 1 << n)}
    bx = Box(n, sets, part)
    rc = corpus.write_rc(d, mbox='box')
    t = 10 ** 9
    for k in list(splits) + [n]:
        put(d + '/box', bx.data(k), t + k)
        r = index(drv, rc, key)
        if r.code:
            out['bad'].append(('indexing failed: %r' % r, dict(job=a[1:])))
            return
    out['msgs'] += n
    for w, s in sets.items():
        got = ask(drv, rc, [part + ':' + w], {'box': (0, bx.index)})
        out['q'] += 1
        out['pairs'] += n
        if got != s:
            out['bad'].append(('%d messages, built in runs %s, key %s: %s:%s gives %s, expected %s' % (
                n, splits, key, part, w, got, s), dict(job=a[1:], word=w)))
            break
    drv.close()


def job_bound(a, out):
    """small sets of boundary positions in a large database (two mboxes when beyond 65536)"""
    exe, n, pos, maxk, part, splits, key, straddle = a
    drv, d = mx.Driver(exe), mx.scratch()
    sets = {}
    if part == 'm':
        sets = {'i%dz' % i: list(x) for i, x in enumerate(pos)}
    else:
        for k in range(1, maxk + 1):
            for c in itertools.combinations(pos, k):
                if straddle and k > 1 and splits and not any(c[0] < s <= c[-1] for s in splits):
                    continue
                sets['v' + 'x'.join(map(str, c)) + 'q'] = list(c)
        sets['every'] = list(range(0, n))
        sets['even'] = list(range(0, n, 2))
    half = min(n, 65000)
    bx = Box(half, {w: [i for i in s if i < half] for w, s in sets.items()}, part)
    boxes = {'box1': (0, bx.index)}
    by = None
    if n > half:
        by = Box(n - half, {w: [i - half for i in s if i >= half] for w, s in sets.items()}, part)
        boxes['box2'] = (half, by.index)
    rc = corpus.write_rc(d, mbox='box*')
    t = 10 ** 9
    for k in list(splits) + [n]:
        put(d + '/box1', bx.data(min(k, half)), t + k)
        if by and k > half:
            put(d + '/box2', by.data(k - half), t + k)
        r = index(drv, rc, key)
        if r.code:
            out['bad'].append(('indexing failed: %r' % r, dict(job=a[1:])))
            return
    out['msgs'] += n
    for w, s in sets.items():
        got = ask(drv, rc, [part + ':' + w + ('@x' if part == 'm' else '')], boxes)
        out['q'] += 1
        out['pairs'] += n
        if got != s:
            if isinstance(got, list):
                got = 'missing %s unexpected %s' % (sorted(set(s) - set(got))[:4], sorted(set(got) - set(s))[:4])
            out['bad'].append(('%d messages, built in runs %s: %s:%s (positions %s): %s' % (
                n, list(splits), part, w, s[:6], got), dict(job=[n, part, list(splits), key], word=w)))
            if len(out['bad']) > 3:
                break
    drv.close()


def job_sizes(a, out):
    """all database sizes lo..hi, each built in one run and as the sequence of one-message runs"""
    exe, lo, hi, mode = a
    drv, d = mx.Driver(exe), mx.scratch()
    sets = {'every': range(hi)}
    for i in range(hi):
        sets['u%dq' % i] = [i]
    bx = Box(hi, sets)
    rc = corpus.write_rc(d, mbox='box')
    t = 10 ** 9
    if mode == 'inc' and lo > 1:
        put(d + '/box', bx.data(lo - 1), t + lo - 1)
        index(drv, rc)
    for n in range(lo, hi + 1):
        put(d + '/box', bx.data(n), t + n)
        if mode == 'one' and os.path.exists(d + '/db'):
            os.unlink(d + '/db')
        r = index(drv, rc)
        out['msgs'] += n
        for q, exp in (('b:every', list(range(n))), ('b:u%dq' % (n - 1), [n - 1]), ('b:u0q', [0]),
                       ('b:u%dq' % (n // 2), [n // 2]), ('b:u%dq' % n, []),
                       ('b:' + '/'.join('u%dq' % i for i in range(0, n, max(1, n // 40))),
                        list(range(0, n, max(1, n // 40))))):
            got = ask(drv, rc, [q], {'box': (0, bx.index)}) if r.code == 0 else repr(r)
            out['q'] += 1
            out['pairs'] += n
            if got != exp:
                out['bad'].append(('database of %d messages (%s): %s gives %s, expected %s' % (
                    n, mode, q[:40], str(got)[:150], str(exp)[:100]), dict(n=n, mode=mode, query=q)))
                drv.close()
                return
    drv.close()


def job_vocab(a, out):
    """n distinct words, one message each; every word checked through the union queries over the bits of its number"""
    exe, n, split, key, part, per = a
    drv, d = mx.Driver(exe), mx.scratch()
    nm = (n + per - 1) // per
    sets = {'k%xz' % i: [i // per] for i in range(n)}
    bx = Box(nm, sets, part)
    rc = corpus.write_rc(d, mbox='box')
    t = 10 ** 9
    steps = [k for k in split if k < nm] + [nm]
    for k in steps:
        put(d + '/box', bx.data(k), t + k)
        r = index(drv, rc, key)
        if r.code:
            out['bad'].append(('indexing failed: %r' % r, dict(job=a[1:])))
            return
    out['msgs'] += nm
    words = list(sets)
    qs = []
    if per == 1:
        bits = max(1, (n - 1).bit_length())
        for b in range(bits):
            for v in (0, 1):
                g = [i for i in range(n) if (i >> b & 1) == v]
                qs += [g[k:k + 300] for k in range(0, len(g), 300)]
    else:
        qs = [[i] for i in range(0, n)]
    for g in qs:
        if not g:
            continue
        q = part + ':' + '/'.join(words[i] for i in g)
        got = ask(drv, rc, [q], {'box': (0, bx.index)})
        exp = sorted({i // per for i in g})
        out['q'] += 1
        out['pairs'] += len(g)
        if got != exp:
            x = ''
            if isinstance(got, list):
                x = 'missing %s unexpected %s' % ([words[i] for i in sorted(set(exp) - set(got))[:4]],
                                                  sorted(set(got) - set(exp))[:4])
            out['bad'].append(('vocabulary of %d words, built in %s, hash key %s, part %s: %s' % (n, steps, key, part, x or got),
                               dict(job=a[1:])))
            break
    drv.close()


def run(ctx, job):
    out = dict(msgs=0, q=0, pairs=0, bad=[], kind=job[0])
    {'small': job_small, 'bound': job_bound, 'sizes': job_sizes, 'vocab': job_vocab}[job[0]](job[1:], out)
    out['sample'] = '%s %s' % (job[0], str(job[2:])[:150])
    return out


def jobs(exe, t):
    big = []
    # encoding boundaries, one run
    P = BOUND + [16800]
    big.append(('bound', exe, 16801, P, 2, 'b', (), None, False))
    big.append(('bound', exe, 16801, [p for p in P if p not in (2, 130, 254, 383, 385)], 3, 'b', (), 7, False))
    big.append(('bound', exe, 16801, P[::2], 3, 's', (), None, False))
    for part in 'tcf':
        big.append(('bound', exe, 16801, P[::3], 2, part, (), None, False))
    # beyond 16 bits
    far = [0, 127, 128, 16384, 32767, 32768, 64999, 65000, 65535, 65536, 65537, 66000]
    big.append(('bound', exe, 66001, far, 2, 'b', (), None, False))
    if t:
        big.append(('bound', exe, 66001, far, 3, 's', (), None, False))
        big.append(('bound', exe, 16801, P, 3, 'b', (), 3, False))
    # message ids: each message has one id; disjoint position sets
    ids = [[0, 128], [1, 129, 16513], [127, 255], [2, 16386], [126, 16510], [254], [383, 16767], [16384]]
    big.append(('bound', exe, 16801, ids, 0, 'm', (), None, False))
    # splits at every boundary position
    for s in ([1, 127, 128, 129, 255, 256, 384, 16383, 16384, 16385, 16512] if not t else [b for b in BOUND if b]):
        big.append(('bound', exe, 16601, BOUND[::2] if not t else BOUND, 2, 'b', (s,), None, True))
    big.append(('bound', exe, 16601, BOUND[1::2], 2, 'b', (128, 16384), None, True))
    big.append(('bound', exe, 16601, BOUND[::3], 2, 's', (1, 129, 16385, 16386), None, True))
    yield from big
    # all subsets of a small database, all splits in one or two
    n = 10 if t else 8
    for part in 'b' if not t else 'bs':
        for k in range(0, 3):
            for sp in itertools.combinations(range(1, n), k):
                yield ('small', exe, n, part, sp, None)
    yield ('small', exe, 12, 'b', (), None)
    for part in 'tcfs':
        yield ('small', exe, 7, part, (3,), None)
    for key in range(0, 24 if t else 8):
        yield ('small', exe, n, 'b', (n // 2,), key)
    # sizes
    top = 900 if t else 600
    for lo in range(1, top, 50):
        yield ('sizes', exe, lo, min(top, lo + 49), 'one')
        yield ('sizes', exe, lo, min(top, lo + 49), 'inc')
    # vocabulary growth
    ns = set()
    for g in (384, 768, 1536, 3072):
        ns |= set(range(g - 3, g + 4))
    for g in ((6144, 12288) if not t else (6144, 12288, 24576)):
        ns |= {g - 1, g, g + 1}
    ns |= {1, 2, 3, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4096}
    for nn in sorted(ns):
        yield ('vocab', exe, nn, (), None, 'b', 1)
    for g in (384, 768, 1536):
        for s in (g - 2, g - 1, g, g + 1, g // 2, g // 2 + 1, 1):
            yield ('vocab', exe, g + 3, (s,), None, 'b', 1)
            yield ('vocab', exe, 2 * g + 3, (s, g + 2), None, 'b', 1)
    for key in list(range(0, 10)) + [255, 65535, 2 ** 31 - 1]:
        yield ('vocab', exe, 1000, (400,), key, 'b', 1)
    for part in 'tcfs':
        yield ('vocab', exe, 1700, (), None, part, 1)
        yield ('vocab', exe, 900, (300, 500), None, part, 1)
    for part in 'bs':
        for nn in (383, 384, 385, 386, 769, 1600):
            yield ('vocab', exe, nn, (), None, part, 64)
    for nn in (383, 384, 385, 386, 767, 768, 769, 1536, 1537, 2000):
        yield ('vocabm', exe, nn, (), None)
        yield ('vocabm', exe, nn, (nn // 2, nn - 1), None)


def job_vocabm(a, out):
    """n distinct message ids, each looked up"""
    exe, n, split, key = a
    drv, d = mx.Driver(exe), mx.scratch()
    sets = {'k%xz' % i: [i] for i in range(n)}
    bx = Box(n, sets, 'm')
    rc = corpus.write_rc(d, mbox='box')
    for k in list(split) + [n]:
        put(d + '/box', bx.data(k), 10 ** 9 + k)
        r = index(drv, rc, key)
        if r.code:
            out['bad'].append(('indexing failed: %r' % r, dict(job=a[1:])))
            return
    out['msgs'] += n
    for w, s in sets.items():
        got = ask(drv, rc, ['m:%s@x' % w], {'box': (0, bx.index)})
        out['q'] += 1
        out['pairs'] += n
        if got != s:
            out['bad'].append(('%d message ids built in %s: m:%s@x gives %s, expected %s' % (n, split, w, got, s),
                               dict(job=a[1:])))
            break
    drv.close()


_run = run


def run(ctx, job):
    if job[0] != 'vocabm':
        return _run(ctx, job)
    out = dict(msgs=0, q=0, pairs=0, bad=[], kind=job[0], sample=str(job[2:]))
    job_vocabm(job[1:], out)
    return out


def cleanrun(ctx, job):
    try:
        return run(ctx, job)
    finally:
        mx.cleanup()


def check(ck):
    exe = mx.build(('plain',))['plain']
    js = list(jobs(exe, ck.thorough))
    # deal the heavy jobs evenly: workers take items round robin
    for k in ('states', 'transitions', 'traces_validated_against_impl'):
        ck.cov[k] = 0
    ck.cov['databases'] = len(js)
    for o in mx.pmap(cleanrun, js):
        ck.add('states', o['msgs'])
        ck.add('transitions', o['pairs'])
        ck.add('traces_validated_against_impl', o['q'])
        ck.add('jobs_' + o['kind'])
        for w, c in o['bad']:
            ck.violation(w, c)
        ck.sample(o['sample'])
    ck.cov['exhaustive'] = True
    ck.cov['rule'] = ('state = an indexed message of one of the databases; transition = one (word, message) membership '
                      'decided by the model; trace = one query on the real program')
    ck.assumptions += ['databases of up to 66001 messages; position gaps of 2^24 and more are not reached']


mx.main(check, 'P04', 'model_checking')
