"""P11: the match folder holds exactly the matching messages, faithfully.
Part 1: every subset of matches x format x output option.  Part 2: all sequences of searches, indexing runs and mail
changes up to a depth, with a model of every match folder.  Part 3: many results.  Part 4: excerpt/raw output."""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import mx, corpus, outw

FMTS = ('maildir', 'mh', 'mbox')


def ok(r, n):
    if r.code != (0 if n else 1):
        return 'exit %r for %d matches: %r' % (r.code, n, r)
    m = re.search(rb'Matched (\d+) messages', r.out)
    if m and int(m.group(1)) != n:
        return 'says %r for %d matches' % (m.group(0), n)


def subsets(w, job):
    _, fmt, opts, lo, hi = job
    out = dict(bad=[], states=0, trans=0, runs=0, sample=None)
    r0 = w.runs
    w.fresh()
    if w.index().code != 0:
        out['bad'].append(('indexing failed', {}))
        return out
    mail = w.mail()
    for mask in range(lo, hi):
        ids = [i for i in range(outw.N) if mask >> i & 1]
        before = w.view(fmt)
        r = w.search(fmt, ids, *opts)
        what = '%s search %s for %s' % (fmt, ' '.join(opts), ids)
        why = ok(r, len(ids)) or outw.judge(w, fmt, before, ids, '-a' in opts)
        out['states'] += 1
        out['trans'] += len(ids)
        if not why and '-a' in opts and mask % 32 == 31:
            w.search(fmt, [])       # empty it again
        if why:
            out['bad'].append((what + ': ' + why, dict(case=what)))
            if len(out['bad']) > 3:
                break
    if w.mail() != mail and not out['bad']:
        out['bad'].append(('%s %s: a search changed the mail' % (fmt, opts), {}))
    out['runs'] = w.runs - r0
    return out


SETS = [[0, 1, 2, 3, 4, 5, 6], [0, 3], [4, 5, 6], [1, 2], []]
OPS = [('s', f, s, o) for f in FMTS for s in (0, 1, 2, 4) for o in ((), ('-a',))] + \
      [('s', f, 3, o) for f in ('maildir', 'mh') for o in ((), ('-a',))] + \
      [('s', 'maildir', 1, ('-H',)), ('s', 'mh', 1, ('-H', '-a')), ('s', 'maildir', 1, ('-H', '-a'))] + \
      [('del', 0), ('del', 3), ('del', 2), ('ren', 0), ('ren', 1), ('box', 4)] + [('reader', f) for f in FMTS]


def step(w, op):
    """apply op; returns complaint"""
    if op[0] == 's':
        _, fmt, si, opts = op
        ids = [i for i in SETS[si] if i in w.have]
        if not SETS[si]:
            ids = []
        before = w.view(fmt)
        others = {f: w.view(f) for f in FMTS if f != fmt and not (fmt != 'mbox' and f != 'mbox')}
        mail = w.mail()
        r = w.search(fmt, SETS[si], *opts)
        why = ok(r, len(ids)) or outw.judge(w, fmt, before, ids, '-a' in opts)
        if not why and w.mail() != mail and '-H' not in opts:
            why = 'the mail was changed'
        if not why:
            for f, v in others.items():
                if w.view(f) != v:
                    why = 'the %s match folder was changed' % f
        return why and '%s search %s for %s: %s' % (fmt, ' '.join(opts), ids, why)
    if op[0] == 'reader':
        w.foreign(op[1])
        return None
    i = op[1]
    if op[0] == 'del' or op[0] == 'box':
        if i not in w.have:
            return 'skip'
        w.delete(i)
    elif op[0] == 'ren':
        if i not in w.have:
            return 'skip'
        cyc = {0: ['md/new/a', 'md/cur/a:2,S', 'md/cur/a:2,'], 1: ['md/cur/b:2,FS', 'md/cur/b:2,FRS', 'md/cur/b:2,']}[i]
        w.rename(i, cyc[(cyc.index(w.paths[i]) + 1) % 3])
    r = w.index('-p') if op[0] != 'box' else w.index()
    if r.code != 0:
        return 'indexing failed: %r' % r


def history(w, job):
    _, first, depth = job
    out = dict(bad=[], states=0, trans=0, runs=0, sample=None)
    r0 = w.runs
    for rest in itertools.product(OPS, repeat=depth - len(first)):
        seq = first + rest
        # a history ending in a mail change shows nothing new
        if seq[-1][0] != 's':
            continue
        w.fresh()
        if w.index().code != 0:
            out['bad'].append(('indexing failed', {}))
            break
        for k, op in enumerate(seq):
            why = step(w, op)
            out['trans'] += 1
            if why == 'skip':
                break
            if why:
                out['bad'].append(('history %s: %s' % (seq[:k + 1], why), dict(history=repr(seq[:k + 1]))))
                break
        out['states'] += 1
        if len(out['bad']) > 2:
            break
        out['sample'] = repr(seq)
    out['runs'] = w.runs - r0
    return out


def many(w, job):
    """n results, of files and of mbox messages"""
    _, n, kind, fmt = job
    out = dict(bad=[], states=1, trans=n, runs=0, sample=None)
    d = mx.scratch()
    ms = [corpus.msg(subject='many n%d' % i, body='b%d\n' % i) for i in range(n)]
    corpus.mkmaildir(d + '/md')
    if kind == 'files':
        for i, m in enumerate(ms):
            mx.write(d + '/md/new/x%d' % i, m)
    else:
        mx.write(d + '/box', b''.join(corpus.FROMLINE + m + b'\n' for m in ms))
    rc = corpus.write_rc(d, maildir='md', mbox='box', mformat=fmt, mfolder='out')
    w.drv.run(['-f', rc])
    want = sorted(ms)
    for q, aug, m in (('s:many', [], 1), ('s:many', [], 1), ('s:many', ['-a'], 2), ('s:nosuch', ['-a'], 2), ('s:many', [], 1)):
        r = w.drv.run(['-f', rc] + aug + [q])
        w.runs += 1
        if fmt == 'mbox':
            data = open(d + '/out', 'rb').read()
            got = [x.split(b'\n', 1)[1] for x in data.split(outw.OUTFL)[1:]]
        else:
            got = []
            for x in ['out/new', 'out/cur'] if fmt == 'maildir' else ['out']:
                for f in os.listdir(d + '/' + x):
                    p = d + '/' + x + '/' + f
                    if os.path.isdir(p):
                        continue
                    c = open(p, 'rb').read()
                    got.append(c.split(b'\n', 1)[1] if kind == 'mbox' else c)
        got = sorted(x.rstrip(b'\n') + b'\n' for x in got)
        # in a maildir an entry that is there already is not added again
        exp = want * m if fmt != 'maildir' else want
        if fmt == 'maildir' and len(got) > len(want):
            got = sorted(set(got))
        if got != sorted(exp):
            if not (m == 2 and sorted(set(got)) == want):
                out['bad'].append(('%d %s in a %s match folder (%s %s): %d entries, %d right ones expected' % (
                    n, kind, fmt, aug, q, len(got), len(exp)), {}))
    mx.shutil.rmtree(d, ignore_errors=True)
    out['runs'] = 5
    return out


def listing(w, job):
    """raw and excerpt: every subset listed once, with the header values, nothing touched"""
    _, lo, hi = job
    out = dict(bad=[], states=0, trans=0, runs=0, sample=None)
    r0 = w.runs
    w.fresh()
    w.index()
    for f in FMTS:
        w.search(f, [0, 3])
    base = (w.mail(), [w.view(f) for f in FMTS], open(w.d + '/db', 'rb').read())
    offs = {}
    for b in set(outw.BOX.values()):
        pos = 0
        for i in [i for i in outw.BOX if outw.BOX[i] == b]:
            pos += len(corpus.FROMLINE)
            ln = len(outw.content(i)) + (1 if i < 5 else 0)
            offs[i] = 'mbox:%s [%d,%d)' % (w.src(i), pos, pos + ln)
            pos += ln
    hd = {'To': 'To', 'Cc': 'Cc', 'From': 'From', 'Subject': 'Subject', 'Message-ID': 'Message-ID', 'In-Reply-To': 'In-Reply-To'}
    for mask in range(lo, hi):
        ids = [i for i in range(outw.N) if mask >> i & 1]
        for fmt in FMTS:
            for opt in (['-r'], ['-x'], ['-r', '-a'], ['-x', '-a']):
                if fmt != 'maildir' and mask % 16:
                    continue
                r = w.search(fmt, ids, *opt)
                out['states'] += 1
                out['trans'] += len(ids)
                what = '%s %s' % (opt, ids)
                names = {i: offs.get(i, w.src(i)) for i in ids}
                if r.code != (0 if ids else 1):
                    out['bad'].append((what + ': exit %s' % r.code, {}))
                if opt[0] == '-r':
                    if sorted(r.lines) != sorted(names.values()):
                        out['bad'].append((what + ': listed %r' % r.lines, {}))
                else:
                    got = sorted(x for x in r.out.decode('latin1').split('---------------------------------\n') if x)
                    exp = []
                    for i in ids:
                        hs = {}
                        for l in outw.content(i).split(b'\n\n')[0].decode('latin1').split('\n'):
                            k, v = l.split(': ', 1)
                            hs[k.lower()] = v
                        exp.append((names[i], hs))
                    seen = []
                    for g in got:
                        ls = g.split('\n')
                        f = {}
                        for l in ls[1:]:
                            m = re.match(r'\s+([A-Za-z-]+):\s*(.*)$', l)
                            if m:
                                f[m.group(1).lower()] = m.group(2)
                        seen.append((ls[0], f))
                    if sorted(x[0] for x in seen) != sorted(names.values()):
                        out['bad'].append((what + ': excerpt lists %r' % [x[0] for x in seen], {}))
                    else:
                        sd = dict(seen)
                        for n, hs in exp:
                            for k in ('to', 'cc', 'from', 'subject'):
                                if sd[n].get(k) != hs.get(k):
                                    out['bad'].append((what + ': excerpt of %s has %s %r, not %r' % (n, k, sd[n].get(k), hs.get(k)), {}))
                            if 'date' in hs:
                                dd = re.match(r'(\w+, )0?(\d+ \w+ \d+)', hs['date'])
                                g = re.sub(r', 0', ', ', sd[n].get('date', ''))
                                if g != dd.group(1) + dd.group(2):
                                    out['bad'].append((what + ': excerpt of %s has date %r, not %r' % (n, sd[n].get('date'), hs['date']), {}))
                if len(out['bad']) > 3:
                    return out
        if mask % 16 == 15 and (w.mail(), [w.view(f) for f in FMTS], open(w.d + '/db', 'rb').read()) != base:
            out['bad'].append(('raw or excerpt output changed something on disk (mask %d)' % mask, {}))
            return out
    out['runs'] = w.runs - r0
    return out


def run(w, job):
    return globals()[job[0]](w, job)


def check(ck):
    exe = mx.build(('plain',))['plain']
    js = []
    for f in FMTS:
        for o in ((), ('-a',), ('-t',), ('-H',)):
            if o == ('-t',):
                continue
            for lo in range(0, 128, 32):
                js.append(('subsets', f, o, lo, lo + 32))
    for lo in range(0, 128, 16):
        js.append(('listing', lo, lo + 16))
    if ck.thorough:
        js += [('history', (a, b), 4) for a in OPS for b in OPS]
    else:
        js += [('history', (a, b), 3) for a in OPS for b in OPS]
    for n in (9, 10, 11, 99, 100, 101, 300) + ((1000, 1500) if ck.thorough else ()):
        for k in ('files', 'mbox'):
            js += [('many', n, k, f) for f in FMTS]
    for k in ('states', 'transitions', 'traces_validated_against_impl'):
        ck.cov[k] = 0
    for o in mx.pmap(run, js, init=lambda: outw.World(exe)):
        ck.add('states', o['states'])
        ck.add('transitions', o['trans'])
        ck.add('traces_validated_against_impl', o['runs'])
        for w_, c in o['bad']:
            ck.violation(w_, c)
        if o['sample']:
            ck.sample(o['sample'])
    ck.cov['exhaustive'] = True
    ck.cov['rule'] = ('state = one search or history checked; transition = one step of a history, or one matched message of a '
                      'single search, compared with the model of the match folder; trace = one run of the real program')
    ck.assumptions.append('of a copied mbox message the empty line before the next separator may be kept or dropped')


mx.main(check, 'P11', 'model_checking')
