"""P17: splitting of mailbox files.  All sequences of separator, near-separator, blank and text lines, all separator spellings
of a grammar with all their one-character neighbours, MMDF files and compressed mailboxes; the message ranges, words and
copies must be those of an independent line-based splitter."""
import bz2, gzip, itertools, lzma, os, re, sys, zlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import mx, corpus

FL = corpus.FROMLINE
MM = b'\1\1\1\1\n'

# ---------------------------------------------------------------- oracle
_EM = r"[a-zA-Z0-9+\-.!#$%&'*/=?^_`{|}~]"
_DOM = r'[a-zA-Z0-9\-_.]'
_Q = r'"(?:' + _EM + r'|[ \t@:<>])*"'
_EMAIL = '(?:%s|@%s*:)*(?:%s|%s)+(?:@(?:\\[[0-9.]*\\]|%s{2,}))?' % (_EM, _DOM, _EM, _Q, _DOM)
_W = r'[ \t]+'
_TIME = r'\d\d:\d\d(?::\d\d)?'
_ZONE = r'(?:[A-Z]|[A-Z+\-][A-Za-z0-9]+)'
_DATE = _W + '[A-Z][a-z][a-z]' + _W + '[A-Z][a-z][a-z]' + _W + r'\d{1,2}' + _W + _TIME + _W + '(?:' + _ZONE + _W + r'){0,2}\d{4}'
_OLD = _W + '[A-Z][a-z][a-z],' + _W + r'\d{1,2}' + _W + '[A-Z][a-z][a-z]' + r'[ \t](?:\d{4}|\d\d)[ \t]*' + _TIME + r'[ \t]'
SEP = re.compile(('From [ \t]*(?:%s|<%s>|[+-]|)(?:%s|%s)' % (_EMAIL, _EMAIL, _DATE, _OLD)).encode())


def split_mbox(data):
    """[(start, end)] of the messages"""
    seps, pos = [], 0
    for l in data.splitlines(True) if b'\r' not in data else re.findall(b'[^\n]*\n|[^\n]+', data):
        if SEP.match(l):
            seps.append((pos, pos + len(l)))
        pos += len(l)
    out = []
    for i, (a, b) in enumerate(seps):
        if b >= len(data):          # separator without anything after it
            continue
        out.append((b, seps[i + 1][0] if i + 1 < len(seps) else len(data)))
    return out


def ok_header(m):
    """does every header line look like one, and does it end with a newline?"""
    first = True
    for l in m.split(b'\n')[:-1]:
        if not l.strip():
            return True
        if re.match(rb'>?From ', l):
            continue
        if not re.match(rb'[^\s:]+:' if first else rb'[^\s:]+:|[ \t]', l):
            return False
        first = False
    return m.endswith(b'\n') or not m


# ---------------------------------------------------------------- families
LINES = [FL, b'From <x+y@[1.2.3.4]>  Tue Feb 29 01:02 PST 2000\r\n', b'From here on\n', b'\n', b'Subject: %s\n', b'%s text\n',
         b'>' + FL, b' ' + FL, b'From: a@bc.de Mon Jan  1 12:00:00 2001\n']


def seq_items(t):
    out = []
    for n in range(0, 6 if t else 5):
        for c in itertools.product(range(len(LINES)), repeat=n):
            if n == 5 and c[0] != 0:
                continue
            out.append(('seq', c, 0))
            if n and n < 5:
                out.append(('seq', c, 1))        # last newline missing
    return out


def seq_file(it):
    _, c, cut = it
    d = b''
    for k, i in enumerate(c):
        l = LINES[i]
        d += l % (b'w%d' % k) if b'%s' in l else l
    return d[:-1] if cut else d


ADDR = ['', 'a', 'a@bc', 'joe.user+tag@host.example.org', '<a@bc.de>', '-', '+', '"a b"@host', '"x:y@z <q>"', "o'b!n#$%&*/=?^_`{|}~@h-o_s.t",
        'a@[127.0.0.1]', '@relay.x,y:a@bc', '@relay.x:a@bc', '<@r:a@bc>', 'MAILER-DAEMON', 'a@b', 'a b', '<>', 'x"y z"w@dd', 'a@bc@de']
DATES = ['Mon Mar 15 14:36:40 2021', 'Mon Mar 15 14:36:40 PST 2021', 'Mon Mar 15 14:36:40 2021 PST', 'Mon Mar  5 14:36:40 2021',
         'Mon Mar 05 14:36 2021', 'Mon  Mar\t15  14:36:40  2021', 'Mon Mar 15 14:36:40 MET DST 2021', 'Mon Mar 15 14:36:40 +0100 2021',
         'Mon Mar 15 14:36:40 2021 +0100 DST', 'Mon Mar 15 14:36:40 -0700 PDT 2021', 'Mon Mar 15 14:36:40 A B C 2021', 'Mon, 15 Mar 2021 21:36:40 PST',
         'Mon, 15 Mar 21 21:36:40 +0100', 'Mon, 5 Mar 2021 21:36 GMT', 'Mon Mar 15 14:36:40 2021 remote from host.x', 'Monday Mar 15 14:36:40 2021',
         'mon mar 15 14:36:40 2021', 'Mon Mar 15 2021 14:36:40', '15 Mar 2021 14:36:40', 'Mon Mar 15 14:36:40 21', 'Mon Mar 15 1:36:40 2021',
         'Mon Mar 115 14:36:40 2021', 'Mon Mar 15 14:36:40 2021 trailing words', 'Mon Mar 15 14:36:40 pst 2021', 'Mon Mar 15 14:36:4 2021',
         'Mon Mar 15 14:36:40 Z 2021', '2021-03-15 14:36:40', '']
BASE = ['From joe@host.org Mon Mar 15 14:36:40 2021', 'From <j@ho.st> Mon Mar  5 14:36 PST 2021', 'From - Mon Mar 15 14:36:40 +0100 2021',
        'From a Mon, 15 Mar 2021 21:36:40 PST', 'From "a b"@h.o Tue, 5 Mar 21 21:36 GMT', 'From @r.x:a@[1.2] Mon Mar 15 14:36:40 MET DST 2021',
        'From  Mon Mar 15 14:36:40 2021 PST']
SUBST = [' ', '\t', 'x', 'X', '7', ':', '@', '<', '"', ',', '-', '\n', '\r', '\0', '\xe9']


def from_items(t):
    c = []
    for a in ADDR:
        for d in DATES:
            for sp in (' ', '  ', '\t'):
                c.append('From ' + a + sp + d)
            if a:
                c.append('From  ' + a + ' ' + d)
    for b in BASE:
        for i in range(len(b)):
            c.append(b[:i] + b[i + 1:])
            for x in SUBST:
                c.append(b[:i] + x + b[i + 1:])
                if t:
                    c.append(b[:i] + x + b[i:])
            c.append(b[:i])
            c.append(b[i:])
        if t:
            for i in range(len(b)):
                for j in range(i + 1, len(b)):
                    for x, y in itertools.product(' x7', repeat=2):
                        c.append(b[:i] + x + b[i + 1:j] + y + b[j + 1:])
    n = 50
    return [('from', tuple(c[i:i + n]), 0) for i in range(0, len(c), n)]


def from_file(it):
    d = b''
    for k, l in enumerate(it[1]):
        d += FL + b'Subject: a%d\n\nbody\n\n' % k + l.encode('latin1') + b'\nSubject: c%d\n\ntail\n\n' % k
    return d


MLINES = [b'\n', b'Subject: %s\n', b'%s text\n', b'\1\1\1\n', b'x\1\1\1\1\n', b'\1\1\1\1\1\n', FL, b'\1\1\1\1x\n']


def mmdf_items(t):
    out = []
    bodies = [()]
    for n in range(1, 4 if t else 3):
        bodies += list(itertools.product(range(len(MLINES)), repeat=n))
    short = [b for b in bodies if len(b) <= 1] + [(1, 0), (1, 2)]
    for b in bodies:
        for end in (0, 1):
            out.append(('mmdf', (b,), end))
            for s in short:
                out.append(('mmdf', (b, s), end))
                if t or len(b) <= 1:
                    out.append(('mmdf', (s, b, (1,)), end))
    return [x for x in out if len(mmdf_parts(x)[0]) > 10]        # shorter files are not taken for MMDF


def mmdf_parts(it):
    _, msgs, end = it
    d, rng, k = b'', [], 0
    for i, c in enumerate(msgs):
        d += MM
        a = len(d)
        for x in c:
            l = MLINES[x]
            d += l % (b'w%d' % k) if b'%s' in l else l
            k += 1
        rng.append((a, len(d)))
        if end or i + 1 < len(msgs):
            d += MM
    return d, rng


CH = [b'Subject: %s\n\nplain\n\n', b'Subject: %s\nContent-Type: multipart/mixed; boundary=b\n\n--b\n\nopen\n\n',
      b'Subject: %s\n\nclosing\n--b--\n\n', b'Content-Type: multipart/mixed; boundary=b\nSubject: %s\n\n--b\n\nall\n--b--\n\n',
      b'Subject: %s\n\n--b\n\nmiddle\n\n', b'Subject: %s\nContent-Type: multipart/mixed; boundary=c\n\n--c\n\nopen\n\n']
BND = [None, b'b', None, b'b', None, b'c']


def coal_items(t):
    return [('coal', c, 0) for n in range(1, 6 if t else 5) for c in itertools.product(range(len(CH)), repeat=n)] + \
        [('coal', (1,) + (4,) * n + (2, 0), 0) for n in range(5, 99)]


def coal_parts(it):
    c = it[1]
    d, pos = b'', []
    for k, x in enumerate(c):
        d += FL
        a = len(d)
        d += CH[x] % (b'w%d' % k)
        pos.append((a, len(d)))
    rng, i = [], 0
    while i < len(c):
        j = i
        if BND[c[i]]:
            end = b'\n--' + BND[c[i]] + b'--'
            while j < len(c) and end not in d[pos[i][0]:pos[j][1]]:
                j += 1
            if j == len(c):
                j = i
        rng.append((pos[i][0], pos[j][1]))
        i = j + 1
    return d, rng


def parts(it):
    if it[0] == 'mmdf':
        return mmdf_parts(it)
    if it[0] == 'coal':
        return coal_parts(it)
    d = seq_file(it) if it[0] == 'seq' else from_file(it)
    return d, split_mbox(d)


HEAD = b'From mairix@mairix Mon Jan  1 12:34:56 1970\nX-source-folder: '


def run(ctx, job):
    exe, items = job
    out = dict(n=len(items), msgs=0, dec=0, bad=[], sets=set(), q=0)
    drv, d = mx.Driver(exe), mx.scratch()
    exp, data = {}, {}
    kinds = set()
    for i, it in enumerate(items):
        f = '%s/b/%05d' % (d, i)
        x, rng = parts(it)
        kinds.add(it[0])
        mx.write(f, x)
        data[f] = x
        out['sets'].add((it[0], len(rng)))
        for a, b in rng:
            exp['mbox:%s [%d,%d)' % (f, a, b)] = (f, a, b, it)
    # one message that is always there, so that there always is a database
    x = FL + b'Subject: stay\n\nstay\n'
    mx.write(d + '/b/zz', x)
    data[d + '/b/zz'] = x
    exp['mbox:%s/b/zz [%d,%d)' % (d, len(FL), len(x))] = (d + '/b/zz', len(FL), len(x), ('seq', (), 0))
    rc = corpus.write_rc(d, mbox='b/*', mformat='mbox')
    r = drv.run(['-f', rc], timeout=200)
    if r.code != 0:
        out['bad'].append(('indexing failed: %r' % r, {}))
    else:
        r = drv.run(['-f', rc, '-r', 'b:~nosuchword'], timeout=60)
        got = set(r.lines)
        out['q'] += 1
        out['msgs'] += len(exp)
        out['dec'] += sum(len(x) for x in data.values())
        if got != set(exp) or len(got) != len(r.lines):
            extra, miss = sorted(got - set(exp)), sorted(set(exp) - got)
            l = (miss or extra)[0]
            m = corpus.RAW_RE.match(l)
            f = m.group(1) if m else None
            out['bad'].append(('messages of %r: found %s instead of %s' % (
                data.get(f, b'?')[:600], sorted(x.split('[')[-1] for x in got if f and f in x)[:6],
                sorted(x.split('[')[-1] for x in exp if f and f in x)[:6]), dict(item=repr(items[int(os.path.basename(f))]) if f in data else l)))
        else:
            # words
            words = ['w%d' % k for k in range(5)] + ['a0', 'c0', 'a7', 'c7', 'c49', 'body', 'tail', 'text', 'plain', 'closing', 'open']
            for w in words:
                wb = w.encode()
                must, may = set(), set()
                for l, (f, a, b, it) in exp.items():
                    m = data[f][a:b]
                    if wb in re.split(rb'[^0-9A-Za-z_]+', m.replace(b'\1', b' ')):
                        may.add(l)
                        if it[0] != 'coal' and b'\0' not in m and ok_header(m) and found_in(m, wb):
                            must.add(l)
                        if it[0] == 'coal' and it[1][0] in (0, 2, 4) and re.match(rb'Subject: ' + wb + rb'\n', m):
                            must.add(l)
                r = drv.run(['-f', rc, '-r', w], timeout=60)
                out['q'] += 1
                out['dec'] += len(exp)
                got = set(r.lines)
                if not must <= got <= may:
                    l = sorted((must - got) or (got - may))[0]
                    f = exp[l][0] if l in exp else None
                    out['bad'].append(('word %s %s %s of %r' % (w, 'missed in' if l in must else 'wrongly found in', l[-24:],
                                                                data.get(f, b'')[:400]), dict(word=w, message=l)))
                    break
            # copies
            r = drv.run(['-f', rc, 'b:~nosuchword'], timeout=60)
            mf = open(d + '/mf', 'rb').read() if os.path.exists(d + '/mf') else repr(r).encode()
            want = {}
            for l, (f, a, b, it) in exp.items():
                want.setdefault(f, []).append(HEAD + f.encode() + b'\n' + data[f][a:b])
            order = []
            pos = 0
            ok = True
            rest = {f: list(v) for f, v in want.items()}
            while pos < len(mf):
                m = re.match(re.escape(HEAD) + rb'([^\n]*)\n', mf[pos:pos + 4200])
                f = m and m.group(1).decode('latin1')
                if not m or not rest.get(f):
                    ok = False
                    break
                x = rest[f].pop(0)
                if not mf.startswith(x, pos):
                    ok = False
                    break
                pos += len(x)
                # the separator needs a fresh line; an added newline is tolerated
                while pos < len(mf) and mf[pos:pos + 1] == b'\n' and not mf.startswith(HEAD, pos):
                    pos += 1
            if not ok or any(rest.values()):
                out['bad'].append(('copies differ from the messages near offset %d of the match folder: %r' % (pos, mf[pos:pos + 300]), {}))
    drv.close()
    mx.cleanup()
    return out


def found_in(m, w):
    """word in the subject (first one) or the body of a message without MIME headers"""
    head, sep, body = m.partition(b'\n\n')
    if m.startswith(b'\n'):
        head, body = b'', m[1:]
    # blank lines with white space end the header too
    hl, body2 = [], None
    ls = m.split(b'\n')
    for i, l in enumerate(ls):
        if not l.strip():
            body2 = b'\n'.join(ls[i + 1:])
            break
        hl.append(l)
    subj, cur = None, None
    for l in hl:
        if l[:1] in b' \t' and l:
            if cur is not None:
                cur[0] += l
            continue
        cur = None
        if l.lower().startswith(b'subject:') and subj is None:
            subj = cur = [l[8:]]
    text = (subj[0] if subj else b'') + b' ' + (body2 or b'')
    return w in re.split(rb'[^0-9A-Za-z_]+', text)


# ---------------------------------------------------------------- compression

def deflate(data, how):
    if how == 'gz':
        return gzip.compress(data, mtime=0)
    if how == 'gz0':
        return gzip.compress(data, compresslevel=0, mtime=0)
    if how == 'gz2':            # two members
        h = len(data) // 2
        return gzip.compress(data[:h], mtime=0) + gzip.compress(data[h:], mtime=0)
    if how == 'bz2':
        return bz2.compress(data)
    if how == 'bz2x2':
        h = len(data) // 3
        return bz2.compress(data[:h]) + bz2.compress(data[h:])
    if how == 'xz':
        return lzma.compress(data)
    if how == 'xzx2':
        h = len(data) // 3
        return lzma.compress(data[:h]) + lzma.compress(data[h:])
    return data


EXT = {'gz': '.gz', 'gz0': '.GZ', 'gz2': '.gz', 'bz2': '.bz2', 'bz2x2': '.bz2', 'xz': '.xz', 'xzx2': '.xz'}
HOW = list(EXT)


def comp_items(t):
    S = 8 * 1024 * 1024
    out = []
    for how in HOW:
        for size in [0, 1, 400, 5000] + [S + k for k in ((-1, 0, 1) if not t else (-2, -1, 0, 1, 2))] + ([2 * S - 1, 2 * S, 2 * S + 1] if t else []):
            out.append((how, size))
    return out


def comp_data(size):
    if size < 10:
        return b'x' * size
    d, k = b'', 0
    line = b'line of words here\n' * 30
    while len(d) < min(size, 5000) - 300:
        d += FL + b'Subject: z%d all\n\nb%d %s\n' % (k, k, b'text\n' * k) + b'\n'
        k += 1
    if size > 5000:
        d += FL + b'Subject: big all\n\n' + (line * (size // len(line) + 1))[:size - len(d) - 300]
    d += b'\n' + FL + b'Subject: last all\n\n'
    return d + b'e' * (size - len(d) - 7) + b' lastw\n'


def run_comp(ctx, job):
    exe, how, size = job
    out = dict(n=1, msgs=0, dec=0, bad=[], sets={('comp', how)}, q=0)
    drv, d = mx.Driver(exe), mx.scratch()
    data = comp_data(size)
    steps = [data, data + FL + b'Subject: added all\n\naddw\n']
    if size > 1000:
        steps.append(steps[-1][:len(data) // 2] + b'\n' + FL + b'Subject: third all\n\nthirdw\n')
    res = {}
    for side in ('plain', 'comp'):
        sd = d + '/' + side
        name = 'boxname0' + ('' if side == 'plain' else EXT[how])
        rc = corpus.write_rc(sd, mbox='b/' + name, mformat='mbox') if os.makedirs(sd + '/b') is None else None
        ans = []
        for i, x in enumerate(steps):
            mx.write(sd + '/b/' + name, x if side == 'plain' else deflate(x, how))
            os.utime(sd + '/b/' + name, (10 ** 9 + i, 10 ** 9 + i))
            if side == 'comp':      # a neighbour, so that the mapping cache has to change files
                mx.write(sd + '/b/other.gz', gzip.compress(FL + b'Subject: other\n\n', mtime=0))
            r = drv.run(['-f', rc], timeout=60)
            a = [r.code]
            for q in ('s:all', 'b:lastw', 's:z1', 'addw', 'b:thirdw', 'b:~nosuch', 'z:1000-'):
                r = drv.run(['-f', rc, '-r', q])
                a.append((q, r.code, [l.replace(sd, '').replace(EXT[how], '') for l in r.lines]))
                out['q'] += 1
            r = drv.run(['-f', rc, 's:all'])
            mf = open(sd + '/mf', 'rb').read() if os.path.exists(sd + '/mf') else b''
            a.append(('copy', r.code, zlib.crc32(mf.replace(sd.encode(), b'').replace(EXT[how].encode(), b'')), len(mf) > 0))
            r = drv.run(['-f', rc, '-x', 's:all'])
            a.append(('excerpt', r.code, zlib.crc32(r.out.replace(sd.encode(), b'').replace(EXT[how].encode(), b'')), len(r.out) > 0))
            ans.append(a)
        res[side] = ans
    if size > 10 and not any('[' in str(x) for x in res['plain']):
        raise AssertionError('vacuous')
    if size == 400 and res['plain'][1][1][1] != 0:
        raise AssertionError('vacuous %r' % (res['plain'],))
    if res['plain'] != res['comp']:
        df = [(i, p, c) for i, (x, y) in enumerate(zip(res['plain'], res['comp'])) for p, c in zip(x, y) if p != c]
        out['bad'].append(('%s mbox of %d bytes behaves differently from the uncompressed one: %s' % (how, size, str(df[0])[:500]),
                           dict(compression=how, size=size)))
    out['dec'] = len(steps)
    drv.close()
    mx.cleanup()
    return out


def check(ck):
    t = ck.thorough
    exe = mx.build(('plain',))['plain']
    for k in ('states', 'transitions', 'traces_validated_against_impl', 'messages', 'searches'):
        ck.cov[k] = 0
    sets = set()

    def take(o):
        ck.add('states', o['n'])
        ck.add('messages', o['msgs'])
        ck.add('transitions', o['dec'])
        ck.add('searches', o['q'])
        ck.add('traces_validated_against_impl', o['n'])
        sets.update(o['sets'])
        for w, c in o['bad']:
            ck.violation(w, c)
    jobs = []
    for items in (from_items(t), seq_items(t), mmdf_items(t), coal_items(t)):
        ck.cov['files_' + items[0][0]] = len(items)
        ck.sample(repr(parts(items[len(items) // 3])[0][:300]))
        n = 10 if items[0][0] == 'from' else 700
        jobs += [(exe, items[i:i + n]) for i in range(0, len(items), n)]
    for o in mx.pmap(run, jobs):
        take(o)
    for o in mx.pmap(run_comp, [(exe,) + c for c in comp_items(t)]):
        take(o)
    ck.cov['distinct_outcomes'] = len(sets)
    ck.cov['exhaustive'] = True
    ck.cov['rule'] = ('state = one generated mailbox file; transition = one byte position decided (separator or not) or one (word, '
                      'message) decision; compressed mailboxes over update histories compared with uncompressed ones')


mx.main(check, 'P17', 'model_checking')
