"""P18: no mail content crashes, hangs or derails indexing.  Every truncation, deletion and substitution of rich sample
messages, all sequences of header, MIME, encoding, date, id and HTML lexemes up to a length, damaged compressed files and
extreme sizes are indexed (as files and inside mboxes between two good messages), searched, excerpted and copied with an
address-sanitized build; file mappings are replaced by exact-size heap copies so that any overread shows."""
import bz2, gzip, itertools, lzma, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import mx, corpus

FL = corpus.FROMLINE
WIT = b'Subject: witness\nTo: wt@ab.cd\nMessage-ID: <w@h>\n\nwitness body\n\n'

S1 = b'''Return-Path: <x@y>
Received: from a by b; Mon, 1 Jan 2001 10:00:00 +0000
From: =?utf-8?q?J=C3=B6rg_M?= =?utf-8?B?w7xsbGVy?= <joe.user+tag@host.example.org>
To: "Some One" <a@bc.de>, b@cd.ef
Cc: c@de.fg,
\td@ef.gh
Subject: Re: [list] =?iso-8859-1*en?Q?caf=E9_?= plain =?x?z?y?=
Date: Mon, 15 Mar 2021 14:36:40 +0100 (CET)
Message-ID: <abc.1@host>
In-Reply-To: <r1@host> of "Mon"
References: <r0@host>
 <r1@host>
Status: RO
X-Status: AF
MIME-Version: 1.0
Content-Type: multipart/mixed; charset="a\\"b"; boundary="=_b 1"

pre
--=_b 1
Content-Type: text/plain; charset=utf-8
Content-Transfer-Encoding: quoted-printable

na=C3=AFve soft=
break=20end=3D
--=_b 1
Content-Type: text/html
Content-Transfer-Encoding: base64
Content-Disposition: attachment; filename*0*=utf-8''a%20b; filename*1="c.d"

PGEgaHJlZj0ieCI+aGk8L2E+IHRoZXJl
JmFtcDs8Yj4=
--=_b 1
Content-Type: message/rfc822; name*=us-ascii'en'x%20y

Subject: inner
Content-Type: multipart/alternative; boundary=i

--i
Content-Transfer-Encoding: x-uuencode
Content-Disposition: attachment; filename="f.uu"

begin 644 f
#86)C
`
end
--i

bare
--i--
--=_b 1
Content-Type: application/pdf; name="n.pdf"
Content-Transfer-Encoding: 7 bit

%PDF
--=_b 1--
epi
'''
S2 = b'''From: a@b.c
Content-Type: text/html; charset=x
Content-Transfer-Encoding: quoted-printable

<html><!-- c --><p class=3D"x">te=
xt &amp; more</p>=
'''
S3 = b'''Subject: b64
Content-Transfer-Encoding: base64

c29tZSB0ZXh0IGhlcmUgYW5kIG1vcmU=
'''
S4 = b'''Subject: uu
Content-Type: text/plain
Content-Transfer-Encoding: x-uuencode

begin 644 name
+:&5L;&\\@=V]R;&0*
`
end
'''
SAMPLES = [S1, S2, S3, S4]
SUB = [0, 10, 13, 32, ord('='), ord('"'), ord(';'), ord(':'), ord('-'), ord('<'), ord('>'), ord('%'), ord('?'), ord('*'), ord("'"), ord('/'), ord('a'),
       ord('7'), 255]


def mutants(t):
    out = []
    for k, s in enumerate(SAMPLES):
        for i in range(len(s) + 1):
            out.append(s[:i])
            if i < len(s):
                out.append(s[:i] + s[i + 1:])
                for c in SUB if k or t or 1 else SUB[::3]:
                    out.append(s[:i] + bytes([c]) + s[i + 1:])
        ls = s.splitlines(True)
        for i in range(len(ls)):
            out.append(b''.join(ls[:i] + ls[i + 1:]))
            out.append(b''.join(ls[:i + 1] + ls[i:]))
            for j in range(i + 1, len(ls)) if t else ():
                out.append(b''.join(ls[:i] + [ls[j]] + ls[i + 1:j] + [ls[i]] + ls[j + 1:]))
    if t:
        for s in SAMPLES[1:]:
            for i in range(len(s)):
                for j in range(i + 1, len(s) + 1):
                    out.append(s[:i] + s[j:])
    return list(dict.fromkeys(out))


def seqs(alpha, n, lo=0):
    for k in range(lo, n + 1):
        for c in itertools.product(alpha, repeat=k):
            yield b''.join(c)


def singles(t):
    """families of small messages, one per lexeme sequence"""
    o = []
    qp = [b'=', b'4', b'G', b'\n', b' ', b'\r', b'\0']
    for s in seqs(qp, 5 if t else 4):
        o.append(b'Subject: q\nContent-Transfer-Encoding: quoted-printable\n\n' + s)
    for s in seqs([b'A', b'=', b'\n', b'-', b'\xff', b'/'], 6 if t else 5):
        o.append(b'Subject: q\nContent-Transfer-Encoding: base64\n\n' + s)
    for s in seqs([b'begin ', b'\n', b'`', b'M', b'#', b'!', b'A ', b'\0'], 5 if t else 4):
        o.append(b'Subject: q\nContent-Transfer-Encoding: x-uuencode\n\n' + s)
    for s in seqs([b'\n', b'`', b'M', b'#', b'!', b'A%6', b'\xff'], 5 if t else 4):
        o.append(b'Subject: q\nContent-Transfer-Encoding: x-uuencode\n\nbegin 644 x\n' + s)
    ml = [b'--b\n', b'--b--\n', b'--bx\n', b'--b', b'--\n', b'\n', b'Content-Type: multipart/mixed; boundary=b\n', b'Content-Type: message/rfc822\n',
          b'text\n', b'\0']
    for s in seqs(ml, 5 if t else 4):
        o.append(b'Content-Type: multipart/mixed; boundary=b\nSubject: q\n\n' + s)
    for s in seqs(ml, 4 if t else 3):
        o.append(b'Content-Type: message/rfc822\n\n' + s)
        o.append(b'Content-Type: multipart/mixed; boundary=\n\n' + s)
    hl = [b'From x\n', b'>From x\n', b'Subject: b\n', b' c\n', b'd\n', b':\n', b'\n', b'\0', b'\r\n', b'To:\n', b'\xe9: \xff\n']
    for s in seqs(hl, 5 if t else 4):
        o.append(s)
    da = [b'Mon, ', b'1 ', b'Jan ', b'2001 ', b'99999999999999999999 ', b'12:00:00', b' ', b'x', b'-5 ', b'0070 ', b'\xe9']
    for s in seqs(da, 5 if t else 4):
        o.append(b'Date: ' + s + b'\nSubject: q\n\n')
    idl = [b'<', b'>', b'a', b'@', b' ', b'\n\t', b'\xff']
    for s in seqs(idl, 6 if t else 5):
        o.append(b'Message-ID: ' + s + b'\nReferences: ' + s[::-1].replace(b'\t\n', b'\n\t') + b'\nIn-Reply-To:' + s + b'\n\n')
    for s in seqs([b'<', b'>', b'a', b'&', b' ', b'\n', b'"', b'\xff', b'\0'], 5 if t else 4):
        o.append(b'Subject: q\nContent-Type: text/html\n\n' + s)
    return o


def packs(t):
    """families packed many to a message: (builder, strings)"""
    out = []

    def chop(fam, it, n):
        buf = []
        for s in it:
            buf.append(s)
            if len(buf) == n:
                out.append((fam, buf))
                buf = []
        if buf:
            out.append((fam, buf))
    nv = [b'a', b'*', b'0', b'=', b"'", b'%', b'"', b';', b' ', b'\\', b'/', b'4']
    chop('cd', seqs(nv, 5 if t else 4), 2000)
    chop('cdp', seqs(nv, 5 if t else 4), 2000)
    chop('ct', seqs(nv, 4), 2000)
    chop('cte', seqs(nv, 4 if t else 3), 2000)
    chop('cdv', seqs([b"'", b'%', b'4', b'a', b'"', b';', b' ', b'\\'], 6 if t else 5), 2000)
    ew = [b'=?', b'?=', b'?', b'q', b'b', b'=', b'4', b'_', b' ']
    chop('to', seqs(ew, 6 if t else 5), 4000)
    chop('toq', seqs(ew, 5 if t else 4), 4000)
    chop('tob', seqs(ew + [b'\xff'], 5 if t else 4), 4000)
    chop('bytes', [bytes([a, b]) for a in range(256) for b in range(256)], 8192)
    return out


def pack_msg(fam, ss):
    if fam in ('to', 'toq', 'tob'):
        pre = {'to': b'', 'toq': b'=?u?q?', 'tob': b'=?u?b?'}[fam]
        return b''.join(b'To: ' + pre + s + b'\n' for s in ss) + b'Subject: p\n\nx\n'
    if fam == 'bytes':
        j = b' '.join(x for s in ss for x in (s, b'a' + s + b'b'))
        h = j.replace(b'\n', b'').replace(b'\0', b'')
        return b'To: ' + h + b'\nSubject: ' + h + b'\nFrom: ' + h + b'\nMessage-ID: ' + h + b'\n\n' + j.replace(b'\0', b'\1')
    o = [b'Subject: p\nContent-Type: multipart/mixed; boundary=qqq\n\n']
    for s in ss:
        o.append(b'--qqq\n')
        if fam == 'cd':
            o.append(b'Content-Disposition: ' + s)
        elif fam == 'cdp':
            o.append(b'Content-Disposition: attachment; ' + s)
        elif fam == 'cdv':
            o.append(b'Content-Disposition: attachment; filename*=' + s)
        elif fam == 'ct':
            o.append(b'Content-Disposition: attachment\nContent-Type: text/x;' + s)
        else:
            o.append(b'Content-Transfer-Encoding: ' + s)
        o.append(b'\n\nx\n')
    o.append(b'--qqq--\n')
    return b''.join(o)


def extremes(t):
    o = []
    for n in list(range(1, 70)) + [127, 128, 255, 256, 1023, 1024, 4095, 4096, 4097, 65535, 65536, 300000]:
        w = b'w' * n
        o.append(b'To: ' + w + b'@' + w + b'\nFrom: "' + w + b'" <' + w + b'>\nSubject: ' + w + b'\nCc: =?' + w + b'?q?' + w + b'?=\n'
                 b'Message-ID: <' + w + b'>\nReferences: <' + w + b'>\nDate: ' + w + b'\nContent-Type: multipart/mixed; boundary="' + w + b'"\n'
                 b'Status: ' + w + b'\n\n--' + w + b'\nContent-Type: ' + w + b'/' + w + b'; ' + w + b'=' + w + b'\nContent-Disposition: attachment; '
                 b'filename="' + w + b'"\nContent-Transfer-Encoding: ' + w + b'\n\n' + w + b'\n--' + w + b'--\n')
        o.append(w + b': x\nSubject: y\n\n' + w)
        o.append(b'Date: 1 Jan ' + b'9' * n + b' 10:00\nSubject: d\n\nx\n')
        o.append(b'Date: ' + b'9' * n + b' Jan 2001 10:00\nSubject: d\n\nx\n')
    N = 20000
    o.append(b'Subject: many\n' + b''.join(b'X-%d: y\n' % i for i in range(N)) + b'\nx\n')
    o.append(b'Subject: many\n' + b''.join(b'To: a%d@b.c\n' % i for i in range(2000)) + b'\nx\n')
    o.append(b'Subject: many\nTo: x' + b''.join(b',\n\ta%d@b.c' % i for i in range(2000)) + b'\n\nx\n')
    o.append(b'Subject: many\nReferences: ' + b''.join(b'<%d@x>\n ' % i for i in range(3000)) + b'\n\nx\n')
    o.append(b'Subject: many\nContent-Type: multipart/mixed; boundary=z\n\n' + b'--z\n\nx\n' * 5000 + b'--z--\n')
    o.append(b'Subject: many\nContent-Type: multipart/mixed; boundary=z\n\n' + b'--z\n' * 5000)
    o.append(b'Subject: many\n\n' + b' '.join(b'w%d' % i for i in range(100000)) + b'\n')
    for d in (100, 1000) + ((3000, 10000)):
        o.append(b'Subject: deep\n' + b''.join(b'Content-Type: multipart/mixed; boundary=z%d\n\n--z%d\n' % (i, i) for i in range(d)) + b'\nx\n')
        o.append(b'Subject: deep\n' + b''.join(b'Content-Type: multipart/mixed; boundary=z%d\n\n--z%d\n' % (i, i) for i in range(d)) + b'\nx\n' +
                 b''.join(b'--z%d--\n' % i for i in reversed(range(d))))
        o.append(b'Content-Type: message/rfc822\n\n' * d + b'Subject: deep\n\nx\n')
    return o


def damaged(t):
    """(extension, bytes): damaged compressed mailboxes"""
    box = FL + S2 + b'\n' + FL + WIT
    o = []
    for ext, z in (('.gz', gzip.compress(box, mtime=0)), ('.bz2', bz2.compress(box)), ('.xz', lzma.compress(box)),
                   ('.bz2', bz2.compress(box) + bz2.compress(box)), ('.gz', b''), ('.bz2', b''), ('.xz', b''), ('.gz', box), ('.bz2', box), ('.xz', box)):
        o.append((ext, z))
        for i in range(len(z)):
            o.append((ext, z[:i]))
            for v in (0, 255, z[i] ^ 1) if t else (z[i] ^ 0x81,):
                o.append((ext, z[:i] + bytes([v]) + z[i + 1:]))
    return o


# ---------------------------------------------------------------- execution

QUERIES = [['-r', 'b:~nosuch'], ['-x', 's:~nosuch'], ['-t', '-r', 's:witness'], ['-r', 'd:2000-2030', 'z:1-'], ['-r', 'm:a', 'F:s'],
           ['-r', 'n:a=', 't:b@=', 'x=1']]


class W:
    def __init__(self, exe, base):
        self.d, self.drv = base, mx.Driver(exe)

    def close(self):
        self.drv.close()


def bad_result(r, ok):
    if r.code in ok and b'ERROR: AddressSanitizer' not in r.err:
        return None
    if r.code is None:
        return 'does not end within the time limit'
    e = r.err.decode('latin1')
    i = e.find('ERROR: AddressSanitizer')
    k = e.find('Assertion')
    s = e[i:i + 200] if i >= 0 else e[max(0, k - 80):k + 120] if k >= 0 else e[-200:]
    return 'exit %s: %s' % (r.code, ' '.join(s.split()))


def attempt(drv, msgs, files=()):
    """index these messages with good neighbours; returns None or what went wrong"""
    d = mx.scratch()
    corpus.mkmaildir(d + '/md')
    wit = set()
    mx.write(d + '/md/new/w', WIT)
    wit.add(d + '/md/new/w')
    for i, m in enumerate(msgs):
        mx.write('%s/md/new/%d' % (d, i), m)
        a = FL + WIT + FL + m + b'\n\n' + FL
        p = '%s/b/%d' % (d, i)
        mx.write(p, a + WIT)
        if b'subject: witness' not in m.lower():
            wit.add('mbox:%s [%d,%d)' % (p, len(FL), len(FL + WIT)))
            wit.add('mbox:%s [%d,%d)' % (p, len(a), len(a + WIT)))
    for i, (ext, z) in enumerate(files):
        mx.write('%s/b/z%d%s' % (d, i, ext), z)
    mx.write(d + '/b/zz', FL + WIT)
    wit.add('mbox:%s/b/zz [%d,%d)' % (d, len(FL), len(FL + WIT)))
    rc = corpus.write_rc(d, maildir='md', mbox='b/*', mformat='mbox')
    why = None
    try:
        r = drv.run(['-f', rc], timeout=100)
        why = bad_result(r, (0,))
        if why:
            return 'indexing: ' + why
        r = drv.run(['-f', rc, '-r', 's:witness', 't:wt@ab.cd', 'b:witness'], timeout=60)
        why = bad_result(r, (0, 1))
        if why:
            return 'searching: ' + why
        got = {l for l in r.lines if '/b/z' not in l or '/b/zz' in l}
        if got != wit:
            return 'good messages lost: %s; wrongly found: %s' % (sorted(wit - got)[:2], sorted(got - wit)[:2])
        for q in QUERIES:
            r = drv.run(['-f', rc] + q, timeout=60)
            why = bad_result(r, (0, 1))
            if why:
                return 'search %s: %s' % (' '.join(q), why)
        for mf in ('mbox', 'maildir', 'mh'):
            rc2 = corpus.write_rc(d, maildir='md', mbox='b/*', mformat=mf, mfolder='mf' + mf, name='rc2')
            r = drv.run(['-f', rc2, 's:~nosuch'], timeout=60)
            why = bad_result(r, (0, 1))
            if why:
                return 'copying to %s: %s' % (mf, why)
        r = drv.run(['-f', rc, '-p'], timeout=100)
        why = bad_result(r, (0,))
        if why:
            return 'second run: ' + why
        r = drv.run(['-f', rc, '-d'], timeout=100)
        why = bad_result(r, (0,))
        if why:
            return 'dump: ' + why
        return None
    finally:
        mx.cleanup()


ODD = [b'Subject: odd\nContent-Transfer-Encoding: zzz\n\nx\n', b'Subject: odd\nX: y', b'Subject: odd\nX: a\0b\n\nx\n', b'Subject: odd\nContent-Type: text/plain; charset\n\nx\n',
       b'Subject: odd\nContent-Type: multipart/mixed; boundary=z\n\n--z\n\nx\n', b'Subject: odd\nContent-Type: multipart/mixed\n\nx\n',
       b'Subject: odd\nContent-Type: multipart/mixed; boundary=z\n\n--z\nA', b'Subject: odd\nContent-Type: text/plain; a=b; =; "c\n\nx\n']
SIZES = [1, 60, 200, 240 * 6, 240 * 12]


def places(t):
    """(malformation, lengths of the paths of the folders it is in, offset of the message)"""
    o = []
    for m in range(len(ODD)):
        for n in (1, 2, 3):
            for q in itertools.permutations(range(len(SIZES)), n):
                for off in ((0, 12000000) if n < 2 else (0,)):
                    o.append((m, q, off))
    return o


def place_attempt(drv, a):
    """the same odd message in folders with paths of different length; whatever is said about one must not hurt the next"""
    m, q, off = a
    d = mx.scratch()
    wit, names = set(), []
    try:
        for i, k in enumerate(q):
            comp, left = ['%d' % i], SIZES[k]
            while left > 1:
                comp.append('p' * min(left, 240))
                left -= 240
            p = d + '/' + '/'.join(comp)
            x = FL + b'Subject: filler\n\n' + b'z' * off + b'\n\n' + FL + ODD[m] + b'\n\n' + FL
            mx.write(p + '/box', x + WIT)
            wit.add('mbox:%s/box [%d,%d)' % (p, len(x), len(x + WIT)))
            corpus.mkmaildir(p + '/md')
            mx.write(p + '/md/new/1', ODD[m])
            mx.write(p + '/md/new/2', WIT)
            wit.add(p + '/md/new/2')
            names.append('/'.join(comp))
        rc = d + '/rc'
        mx.write(rc, ('base=%s\nmfolder=mf\nmformat=mbox\ndatabase=%s/db\n' % (d, d) + ''.join('mbox=%s/box\nmaildir=%s/md\n' % (n, n) for n in names)).encode())
        for what, args, ok in (('indexing', [], (0,)), ('searching', ['-r', 's:witness'], (0,)), ('copying', ['s:~nosuch'], (0,)), ('excerpts', ['-x', 's:~nosuch'], (0,)), ('dump', ['-d'], (0,)),
                               ('second run', ['-p'], (0,))):
            r = drv.run(['-f', rc] + args, timeout=100)
            why = bad_result(r, ok)
            if why:
                return '%s: %s' % (what, why)
            if what == 'searching' and set(r.lines) != wit:
                return 'good messages lost or found twice: %d of %d' % (len(wit & set(r.lines)), len(wit))
        return None
    finally:
        mx.cleanup()


def narrow(fails, items):
    """one item that fails on its own, if there is one"""
    items = list(items)
    for _ in range(40):
        if len(items) == 1:
            return items
        h = len(items) // 2
        if fails(items[:h]):
            items = items[:h]
        elif fails(items[h:]):
            items = items[h:]
        else:
            break
    return items


def run(ctx, job):
    kind, items = job
    out = dict(n=0, bad=[], kind=kind)
    drv = ctx.drv

    def f(x):
        if kind == 'place':
            for y in x:
                why = place_attempt(drv, y)
                if why:
                    return why
            return None
        if kind == 'z':
            return attempt(drv, [], x)
        if kind == 'pack':
            return attempt(drv, [pack_msg(items[0], x)])
        return attempt(drv, x)
    lst = items[1] if kind == 'pack' else items
    out['n'] = len(lst)
    why = f(lst)
    if why:
        one = narrow(f, lst)
        why = f(one) or why
        m = pack_msg(items[0], one) if kind == 'pack' else one[0] if len(one) == 1 else b'(%d messages together)' % len(one)
        if kind == 'place':
            m = ODD[m[0]] + b' in folders with paths of %s bytes' % ' then '.join(str(SIZES[k]) for k in m[1]).encode()
        if isinstance(m, tuple):
            m = m[1]
        out['bad'].append(('%s -- content %r' % (why, m[:300] if len(m) < 20000 else m[:60]), dict(kind=kind, content=m[:4000].decode('latin1'), why=why)))
    return out


def check(ck):
    t = ck.thorough
    exe = mx.build(('asan',))['asan']
    for k in ('states', 'transitions', 'traces_validated_against_impl'):
        ck.cov[k] = 0
    jobs = []
    mu, si = mutants(t), singles(t)
    n = 150
    jobs += [('extreme', [x]) for x in extremes(t)]
    jobs += [('pack', p) for p in packs(t)]
    jobs += [('mutant', mu[i:i + n]) for i in range(0, len(mu), n)]
    jobs += [('single', si[i:i + 300]) for i in range(0, len(si), 300)]
    pl = places(t)
    jobs += [('place', pl[i:i + 15]) for i in range(0, len(pl), 15)]
    zs = damaged(t)
    jobs += [('z', zs[i:i + 40]) for i in range(0, len(zs), 40)]
    ck.cov['mutants'], ck.cov['lexeme_messages'], ck.cov['damaged_archives'] = len(mu), len(si), len(zs)
    ck.sample(repr(mu[1234][:120]))
    ck.sample(repr(si[4321][:120]))
    for o in mx.pmap(run, jobs, init=lambda: W(exe, None)):
        ck.add('states', o['n'])
        ck.add('transitions', o['n'] * (12 if o['kind'] != 'pack' else 1))
        ck.add('traces_validated_against_impl', o['n'])
        ck.cov['n_' + o['kind']] = ck.cov.get('n_' + o['kind'], 0) + o['n']
        for w, c in o['bad']:
            ck.violation(w, c)
    ck.cov['distinct_outcomes'] = len(jobs)
    ck.cov['exhaustive'] = True
    ck.cov['rule'] = ('state = one content (mutant, lexeme sequence, extreme, malformation at a place, damaged archive); transition = one mairix run of the '
                      'address-sanitized build on a folder set holding it (index, 6 searches, 3 copies, purge, dump)')
    ck.assumptions = ['memory errors = what AddressSanitizer detects, with file mappings as exact heap copies',
                      'a run that does not end in 100 s counts as hanging']


mx.main(check, 'P18', 'model_checking')
