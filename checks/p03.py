"""P03: substring and approximate matching = edit distance.  All (word, pattern, errors, anchor) tuples up to
length bounds over small alphabets, plus long patterns with every placement of errors."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import mx, corpus

BIG = 10 ** 6


def best(pat, word):
    """(minimum edit distance of pat to a substring, to a prefix) of word"""
    n = len(pat)
    u = list(range(n + 1))          # unanchored column
    a = list(range(n + 1))          # anchored column
    bu, ba = u[n], a[n]
    for ch in word:
        pu, pa = 0, a[0]
        a0 = a[0] + 1
        nu, na = [0], [a0]
        for i in range(1, n + 1):
            c = 0 if pat[i - 1] == ch else 1
            nu.append(min(u[i - 1] + c, u[i] + 1, nu[i - 1] + 1))
            na.append(min(a[i - 1] + c, a[i] + 1, na[i - 1] + 1))
        u, a = nu, na
        bu = min(bu, u[n])
        ba = min(ba, a[n])
    return bu, ba


def words_upto(al, n):
    for L in range(1, n + 1):
        for t in itertools.product(al, repeat=L):
            yield ''.join(t)


def mutations(p, al, k):
    """all strings at up to k single-letter edits from p (positions exhaustive, letters from al)"""
    cur = {p}
    allw = {p}
    for _ in range(k):
        nx = set()
        for s in cur:
            for i in range(len(s) + 1):
                for c in al:
                    nx.add(s[:i] + c + s[i:])
                    if i < len(s):
                        nx.add(s[:i] + c + s[i + 1:])
                if i < len(s):
                    nx.add(s[:i] + s[i + 1:])
        cur = nx - allw
        allw |= nx
    allw.discard('')
    return allw


FIELDS = {'s': 'Subject', 't': 'To', 'c': 'Cc', 'f': 'From'}


def build(drv, d, field, words):
    mb = corpus.Mbox()
    for w in words:
        if field in FIELDS:
            mb.add('X-A: 1\n%s: %s\nX-B: 1\n\n\n' % (FIELDS[field], w))
        elif field == 'b':
            mb.add('X-A: 1\n\n%s\n' % w)
        elif field == 'n':
            mb.add('MIME-Version: 1.0\nContent-Type: application/octet-stream\nContent-Disposition: attachment; '
                   'filename=%s\n\n1\n' % w)
    mx.write(d + '/box', mb.data())
    rc = corpus.write_rc(d, mbox='box')
    r = drv.run(['-f', rc], timeout=120)
    if r.code != 0:
        raise mx.CheckError('index %r' % r)
    return rc, lambda r: corpus.raw_ids(r, mb.index)


def build_paths(drv, d, words):
    paths = []
    for i, w in enumerate(words):
        mb = corpus.Mbox()
        mb.add('Subject: s\n\nb\n')
        paths.append('%s/M/%s' % (d, w))
        mx.write(paths[-1], mb.data())
    rc = corpus.write_rc(d, mbox='M/*')
    r = drv.run(['-f', rc], timeout=120)
    if r.code != 0:
        raise mx.CheckError('index %r' % r)
    ix = {p: i for i, p in enumerate(paths)}

    def dec(r):
        out = []
        for l in r.lines:
            m = corpus.RAW_RE.match(l)
            out.append(ix.get(m.group(1), -1) if m else -1)
        return sorted(out)
    return paths, rc, dec


def run(ctx, job):
    exe, kind, field, words, pats, errs = job
    drv = mx.Driver(exe)
    d = mx.scratch()
    out = dict(q=0, tuples=0, bad=[], sample=None, res=set())
    if field == 'p':
        subj, rc, dec = build_paths(drv, d, words)
    else:
        rc, dec = build(drv, d, field, words)
        subj = words
    for p in pats:
        lp = p if field == 'p' else p.lower()
        dist = [best(lp, w if field == 'p' else w.lower()) for w in subj]
        for n in errs:
            for anch in ('', '^', '~', '~^') if len(subj) <= 70 and kind == 'small' else ('', '^'):
                neg = anch.startswith('~')
                anch = anch.lstrip('~')
                if n is not None and n > 31:
                    continue
                q = '%s:%s%s%s=%s' % (field, '~' if neg else '', anch, p, '' if n is None else n)
                r = drv.run(['-f', rc, '-r', q])
                out['q'] += 1
                out['tuples'] += len(subj)
                got = dec(r) if r.code in (0, 1) else r
                N = n or 0
                if anch and N:
                    must = [i for i, (u, a) in enumerate(dist) if a <= N]
                    may = [i for i, (u, a) in enumerate(dist) if u <= N]
                elif anch:
                    must = may = [i for i, (u, a) in enumerate(dist) if a == 0]
                else:
                    must = may = [i for i, (u, a) in enumerate(dist) if u <= N]
                if neg:
                    must, may = [sorted(set(range(len(subj))) - set(x)) for x in (may, must)]
                ok = isinstance(got, list) and len(set(got)) == len(got) and set(must) <= set(got) <= set(may)
                out['res'].add((neg, anch, n, len(must), len(may)))
                out['sample'] = '%s on %d words -> %d must match' % (q, len(subj), len(must))
                if not ok and len(out['bad']) < 4:
                    x = []
                    if isinstance(got, list):
                        x = [subj[i] for i in sorted(set(must) - set(got))[:3]], \
                            [subj[i] for i in sorted(set(got) - set(may))[:3] if isinstance(i, int)]
                    out['bad'].append(('%s: missing/unexpected %s (got %s)' % (q, x, str(got)[:100]),
                                       dict(query=q, differing=x)))
    drv.close()
    out['n'] = len(subj)
    return out


def long_jobs(exe, thorough):
    base = 'abcdefghijklmnopqrstuvwxyz012345678'
    per = 'abaabbaaabbbaaaabbbbabababababaab'
    lens = range(1, 32)
    for L in lens:
        for src in (base, per):
            p = src[:L]
            ws = mutations(p, 'ax', 1)
            two = mutations(p, 'x', 2) if L <= (31 if thorough else 12) else \
                {p[:i] + p[i + 1:j] + 'x' + p[j + 1:] for i in range(0, L, 3) for j in range(i + 1, L, 4)}
            # many errors: drop / replace the first k, the last k letters
            for k in range(0, L):
                ws |= {p[k:], p[:L - k], 'x' * k + p[k:], p[:L - k] + 'x' * k, p[:k] + 'x' * 3 + p[k:]}
            ws |= {'zz' + p + 'zz', 'z' * 40 + p, p + 'z' * 40, p + p}
            ws = sorted(ws | two)
            yield (exe, 'long', 's', ws, [p, p.upper()], [None, 0, 1, 2, 3, 4, 5, 7])
        # every pattern length against one long word
    allp = [base[:L] for L in range(1, 32)] + [base[i:i + 31] for i in range(0, 4)]
    yield (exe, 'len', 'b', [base[:k] for k in range(1, 36)] + [base[k:] for k in range(1, 34)] + ['y' + base], allp,
           [None, 0, 1, 2, 3, 4, 9])
    # the number of errors, including the general (>3) matcher, for all values up to the pattern length
    # k letters inserted where m letters are left out, at every place
    for L in ((6, 12, 20, 31) if thorough else (6, 12)):
        ws = {base[:i] + 'x' * k + base[i + m:L] for i in range(0, L + 1) for m in range(0, L - i + 1) for k in range(0, L + 2)}
        ws |= {base[:i] + 'x' * k + base[i:j] + 'x' * k2 + base[j + m:L] for i in range(0, L, 2) for j in range(i, L, 2)
               for k in range(0, 5) for k2 in range(0, 5) for m in (0, 1, 3)} if L <= 12 else set()
        ws = sorted(ws - {''})
        for n in range(0, L + 1):
            yield (exe, 'errs', 's', ws, [base[:L], base[:L].upper()], [n])


def jobs(exe, t):
    def split(ws, ps, field, errs, k):
        for i in range(k):
            yield (exe, 'small', field, ws, ps[i::k], errs)
    ab = sorted(words_upto('ab', 9 if t else 8))
    abc = sorted(words_upto('abc', 6 if t else 5))
    yield from split(ab, sorted(words_upto('ab', 7 if t else 6)), 's', [None, 0, 1, 2, 3, 4, 5], 16)
    yield from split(abc, sorted(words_upto('abc', 4)), 's', [None, 0, 1, 2, 3, 4], 8)
    ab5 = sorted(words_upto('ab', 5))
    for f in 'tcfbn':
        yield from split(ab5, sorted(words_upto('ab', 4)), f, [None, 0, 1, 2, 3, 4], 2)
    pw = sorted(words_upto('Qq', 5))
    yield from split(pw, sorted(words_upto('Qq', 4)), 'p', [None, 0, 1, 2, 3, 4], 4)
    yield (exe, 'small', 's', ab5, [w.upper() for w in words_upto('ab', 3)], [None, 1, 2])
    yield from long_jobs(exe, t)


def check(ck):
    b = mx.build(('plain',))
    js = list(jobs(b['plain'], ck.thorough))
    for k in ('states', 'transitions', 'traces_validated_against_impl'):
        ck.cov[k] = 0
    res = set()
    for o in mx.pmap(run, js):
        ck.add('states', o['n'])
        ck.add('transitions', o['tuples'])
        ck.add('traces_validated_against_impl', o['q'])
        res |= o['res']
        for w, c in o['bad']:
            ck.violation(w, c)
        ck.sample(o['sample'])
    # p: with the pattern as a plain word, and multi-part substring searches
    ck.cov['distinct_outcomes'] = len(res)
    ck.cov['exhaustive'] = True
    ck.cov['rule'] = ('state = one indexed word (message); transition = one (word, pattern, errors, anchor) tuple decided by '
                      'dynamic programming; trace = one query run on the real program')
    ck.assumptions += ['C locale', 'patterns of at most 31 letters (longer ones are refused by the program)']


mx.main(check, 'P03', 'model_checking')
