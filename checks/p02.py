"""P02: query algebra.  All query expressions of the grammar up to a term bound, on universes that realise
every presence/absence combination of the words in the parts."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import mx, corpus

WORDS = ['xa', 'yb', 'zc']
PARTS = 'tcfsb'
HD = {'t': 'To', 'c': 'Cc', 'f': 'From', 's': 'Subject'}


# ---------------------------------------------------------------- model
# message = dict: part letter -> set of words; plus 'path', 'n', 'm'
def letters(prefix):
    if prefix is None:
        return set(PARTS)
    out = set()
    for c in prefix:
        out |= {'a': set('tcf'), 'r': set('tc')}.get(c, {c})
    return out


# words with the substring and error suffixes: what they match among WORDS
PATS = {'a=': {'xa'}, '^a=': set(), '^y=': {'yb'}, 'b=': {'yb'}, 'xb=1': {'xa', 'yb'}, '^zc=': {'zc'}}


def term(m, ls, neg, w):
    v = False
    for l in ls:
        if l == 'p':
            v = v or (w in m['path'])
        elif w in PATS:
            v = v or bool(PATS[w] & m.get(l, set()))
        else:
            v = v or (w in m.get(l, ()))
    return v != neg


def ev_arg(m, arg):
    """arg = (prefix|None, [[(neg,word),...],...])  disjunction of conjunctions"""
    if arg[0] == 'm':
        return arg[1][0][0][1] in m.get('m', ())
    ls = letters(arg[0])
    return any(all(term(m, ls, n, w) for n, w in conj) for conj in arg[1])


def text(arg):
    s = '/'.join(','.join(('~' if n else '') + w for n, w in conj) for conj in arg[1])
    return s if arg[0] is None else arg[0] + ':' + s


def shapes(n):
    """all ways to put ',' or '/' between n terms -> list of conj lengths"""
    for seps in itertools.product(',/', repeat=n - 1):
        out = [1]
        for c in seps:
            if c == ',':
                out[-1] += 1
            else:
                out.append(1)
        yield tuple(out)


def args_of(prefix, words, n):
    ts = [(neg, w) for w in words for neg in (False, True)]
    for sh in shapes(n):
        for t in itertools.product(ts, repeat=n):
            it = iter(t)
            yield (prefix, tuple(tuple(next(it) for _ in range(k)) for k in sh))


# ---------------------------------------------------------------- universes
def uni_words(words, parts):
    """every presence/absence combination of words x parts"""
    atoms = [(p, w) for p in parts for w in words]
    out = []
    for bits in itertools.product((0, 1), repeat=len(atoms)):
        m = {}
        for (p, w), bit in zip(atoms, bits):
            if bit:
                m.setdefault(p, set()).add(w)
        m['path'] = '/box'
        out.append(m)
    return out


def build_mbox(drv, d, msgs):
    mb = corpus.Mbox()
    for m in msgs:
        h = ''
        for p in 'tcfs':
            h += '%s: %s\n' % (HD[p], ' '.join(sorted(m.get(p, ()))) or '-')
        mb.add(h + '\n' + ' '.join(sorted(m.get('b', ()))) + '\n')
    mx.write(d + '/box', mb.data())
    rc = corpus.write_rc(d, mbox='box')
    r = drv.run(['-f', rc])
    if r.code != 0:
        raise mx.CheckError('index %r' % r)
    return rc, lambda res: corpus.raw_ids(res, mb.index)


def uni_mixed():
    """word in body x attachment name x message-id x folder; each message one file of a maildir"""
    out = []
    for i, (bd, sj, at, fo, sz, fl, da) in enumerate(itertools.product((0, 1), repeat=7)):
        m = dict(b={'xa'} if bd else set(), s={'yb'} if sj else set(), n={'zc'} if at else set(),
                 m={'id%d@h' % i}, folder=('f1', 'xa2')[fo], big=sz, flag=fl, late=da)
        m['path'] = '/%s/%s' % (m['folder'], 'cur')
        m['base'] = 'm%03d' % i
        out.append(m)
    return out


def build_mixed(drv, d, msgs):
    ix = {}
    for f in ('f1', 'xa2'):
        corpus.mkmaildir(d + '/' + f)
    for i, m in enumerate(msgs):
        body = ' '.join(sorted(m['b'])) + '\n' + ('. ' * 800 if m['big'] else '') + '\n'
        h = 'Subject: %s\nMessage-ID: <%s>\nDate: %s\n' % (
            ' '.join(m['s']) or '-', list(m['m'])[0],
            'Mon, 10 Mar 2003 12:00:00 +0000' if m['late'] else 'Mon, 10 Feb 2003 12:00:00 +0000')
        if m['n']:
            h += 'MIME-Version: 1.0\nContent-Type: multipart/mixed; boundary="qq"\n\n--qq\nContent-Type: text/plain\n\n' \
                 + body + '\n--qq\nContent-Type: application/octet-stream\nContent-Disposition: attachment; ' \
                 'filename="zc"\n\n1\n--qq--\n'
            txt = h
        else:
            txt = h + '\n' + body
        p = '%s/%s/cur/%s:2,%s' % (d, m['folder'], m['base'], 'FS' if m['flag'] else 'S')
        mx.write(p, txt)
        m['path'] = p
        ix[p] = i
    rc = corpus.write_rc(d, maildir='f1:xa2')
    r = drv.run(['-f', rc])
    if r.code != 0:
        raise mx.CheckError('index %r' % r)
    return rc, lambda res: sorted((ix.get(l, -1) for l in res.lines))


class Ctx:
    def __init__(self, exe):
        self.drv = mx.Driver(exe)
        self.u = {}
        d = mx.scratch()
        for name, msgs in (('w3', uni_words(WORDS, 'sb')), ('w2', uni_words(WORDS[:2], PARTS)),
                           ('w1', uni_words(WORDS[:1], PARTS))):
            os.mkdir(d + '/' + name)
            rc, dec = build_mbox(self.drv, d + '/' + name, msgs)
            self.u[name] = (msgs, rc, dec)
        msgs = uni_mixed()
        os.mkdir(d + '/mx')
        rc, dec = build_mixed(self.drv, d + '/mx', msgs)
        self.u['mx'] = (msgs, rc, dec)

    def close(self):
        self.drv.close()


EXTRA = {'z:1k-': lambda m: bool(m['big']), 'z:-1k': lambda m: not m['big'],
         'd:20030301-': lambda m: bool(m['late']), 'd:-20030228': lambda m: not m['late'],
         'F:f': lambda m: bool(m['flag']), 'F:-f': lambda m: not m['flag'], 'F:s': lambda m: True,
         'F:fs': lambda m: bool(m['flag']), 'F:-fs': lambda m: not m['flag']}


def run_chunk(ctx, chunk):
    out = dict(q=0, dec=0, bad=[], results=set(), sample=None)
    for uni, args in chunk:
        msgs, rc, dec = ctx.u[uni]
        argv = [a if isinstance(a, str) else text(a) for a in args]
        fs = [EXTRA[a] if isinstance(a, str) else (lambda m, a=a: ev_arg(m, a)) for a in args]
        exp = [i for i, m in enumerate(msgs) if all(f(m) for f in fs)]
        r = ctx.drv.run(['-f', rc, '-r'] + argv)
        out['q'] += 1
        out['dec'] += len(msgs)
        got = dec(r) if r.code in (0, 1) else r
        out['results'].add(hash((uni, tuple(exp))))
        out['sample'] = '%s: mairix -r %s -> %d of %d messages' % (uni, ' '.join(argv), len(exp), len(msgs))
        if got != exp:
            if len(out['bad']) < 5:
                w = ''
                if isinstance(got, list):
                    df = sorted(set(got) ^ set(exp))[:2]
                    w = '; differing messages %s' % [msgs[i] for i in df if isinstance(i, int) and i >= 0]
                out['bad'].append(('query %r: got %s, expected %s%s' % (argv, str(got)[:100], str(exp)[:100], w),
                                   dict(universe=uni, query=argv)))
    return out


def subsets(s):
    for n in range(1, len(s) + 1):
        yield from (''.join(x) for x in itertools.combinations(s, n))


def space(thorough):
    # one argument, three words, n terms
    for n in range(1, 5 if thorough else 4):
        for pre in (None, 's', 'b', 'sb'):
            for a in args_of(pre, WORDS, n):
                yield 'w3', (a,)
    if not thorough:
        for a in args_of('s', WORDS, 4):
            if len({w for c in a[1] for _, w in c}) == 3:
                yield 'w3', (a,)
    # substring, anchored and approximate words as conjuncts, negated or not
    pats = ['xa', 'a=', '^a=', '^y=', 'xb=1']
    for n in (1, 2, 3):
        for a in args_of('s', pats, n):
            yield 'w3', (a,)
    for pre in (None, 'b', 'sb'):
        for n in (1, 2):
            for a in args_of(pre, pats + ['b=', '^zc='], n):
                yield 'w3', (a,)
    for a in args_of('s', pats, 1):
        for a2 in args_of('sb', pats, 2):
            yield 'w3', (a, a2)
    # two arguments
    small = [a for pre in (None, 's', 'b', 'sb') for n in (1, 2) for a in args_of(pre, WORDS, n)]
    tiny = [a for pre in ('s', 'b', None) for a in args_of(pre, WORDS, 1)]
    for a in small:
        for a2 in (small if thorough else tiny):
            yield 'w3', (a, a2)
    if not thorough:
        for a in tiny:
            for a2 in small:
                yield 'w3', (a, a2)
    # three (four) arguments
    t2 = [a for pre in ('s', None) for a in args_of(pre, WORDS, 1)]
    for x in itertools.product(t2, repeat=3):
        yield 'w3', x
    if thorough:
        for x in itertools.product([a for a in args_of('s', WORDS, 1)], repeat=5):
            yield 'w3', x
    # every part list, in canonical order, reversed, doubled, with the group letters
    pres = set(subsets(PARTS))
    pres |= {p[::-1] for p in pres} | {p + p[0] for p in pres}
    pres |= {g + q for g in ('a', 'r') for q in [''] + list(subsets('tcfsb'))}
    pres |= {q + g for g in ('a', 'r') for q in subsets('tcfsb')} | {'ar', 'ra'}
    if thorough:
        pres |= {''.join(x) for n in range(1, 6) for x in itertools.permutations(PARTS, n)}
    for pre in sorted(pres):
        for n in (1, 2):
            for a in args_of(pre, WORDS[:2], n):
                yield 'w2', (a,)
    for n in (1, 2, 3):
        for a in args_of(None, WORDS[:2], n):
            yield 'w2', (a,)
    # two different part lists, one word
    one = [(pre, ((t,),)) for pre in list(subsets(PARTS)) + ['a', 'r', None] for t in ((False, 'xa'), (True, 'xa'))]
    for a in one:
        for a2 in one:
            yield 'w1', (a, a2)
    # mixed kinds of argument
    kinds = [[None] + k for k in (
        [('b', (((False, 'xa'),),)), ('b', (((True, 'xa'),),)), ('bs', (((False, 'xa'),), ((False, 'yb'),)))],
        [('n', (((False, 'zc'),),)), ('n', (((True, 'zc'),),)), ('bn', (((False, 'xa'),), ((False, 'zc'),)))],
        [('p', (((False, 'xa2'),),)), ('p', (((True, 'xa2'),),)), ('p', (((False, 'f1'),), ((False, 'xa2'),))),
         ('pb', (((False, 'xa'),),))],
        ['z:1k-', 'z:-1k'], ['d:20030301-', 'd:-20030228'], ['F:f', 'F:-f', 'F:fs', 'F:-fs'])]
    for combo in itertools.product(*kinds):
        c = tuple(x for x in combo if x is not None)
        if not c:
            continue
        yield 'mx', c
        if len(c) > 1:
            yield 'mx', c[::-1]
        if thorough and len(c) == 3:
            for pm in itertools.permutations(c):
                yield 'mx', pm
    for i in range(0, 128, 3):
        a = ('m', (((False, 'id%d@h' % i),),))
        yield 'mx', (a,)
        for k in kinds:
            for x in k[1:]:
                yield 'mx', (a, x)
                yield 'mx', (x, a)


def check(ck):
    exe = mx.build(('plain',))['plain']
    jobs = list(space(ck.thorough))
    n = 400
    chunks = [jobs[i:i + n] for i in range(0, len(jobs), n)]
    res = set()
    for k in ('states', 'transitions', 'traces_validated_against_impl'):
        ck.cov[k] = 0
    for o in mx.pmap(run_chunk, chunks, init=lambda: Ctx(exe)):
        ck.add('traces_validated_against_impl', o['q'])
        ck.add('transitions', o['dec'])
        res |= o['results']
        for w, c in o['bad']:
            ck.violation(w, c)
        if o['sample']:
            ck.sample(o['sample'])
    ck.cov['states'] = len(res)
    ck.cov['exhaustive'] = True
    ck.cov['rule'] = ('trace = one query expression (all expressions of the grammar within the bounds) run on the real '
                      'program; transition = one (message, expression) truth value decided by the model; state = a distinct '
                      'result set reached')
    ck.assumptions += ['C locale', 'a trailing or doubled separator (empty word) is outside the grammar']


mx.main(check, 'P02', 'model_checking')
