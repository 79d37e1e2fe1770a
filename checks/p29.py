"""P29: mail is understood alike in every locale.
Locales are made with localedef; all spellings of header names, MIME keywords and directives and all 8-bit characters are
enumerated in each of them; see DESIGN.md."""
import base64, itertools, json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import mx, corpus

FL = corpus.FROMLINE
LOCALES = [('C', None, None), ('C.UTF-8', None, None), ('de_DE.ISO-8859-1', 'de_DE', 'ISO-8859-1'), ('tr_TR.ISO-8859-9', 'tr_TR', 'ISO-8859-9'),
           ('tr_TR.UTF-8', 'tr_TR', 'UTF-8'), ('ru_RU.KOI8-R', 'ru_RU', 'KOI8-R'), ('el_GR.ISO-8859-7', 'el_GR', 'ISO-8859-7')]
MORE = [('az_AZ.UTF-8', 'az_AZ', 'UTF-8'), ('ja_JP.EUC-JP', 'ja_JP', 'EUC-JP'), ('pl_PL.ISO-8859-2', 'pl_PL', 'ISO-8859-2'), ('lt_LT.ISO-8859-13', 'lt_LT', 'ISO-8859-13'),
        ('ru_RU.ISO-8859-5', 'ru_RU', 'ISO-8859-5'), ('he_IL.ISO-8859-8', 'he_IL', 'ISO-8859-8'), ('th_TH.TIS-620', 'th_TH', 'TIS-620')]


def spellings(w, every):
    """lower, upper, capitalized; with one letter in the other case; all of them for short words"""
    letters = [i for i, c in enumerate(w) if c.isalpha()]
    cap = '-'.join(x.capitalize() for x in w.split('-'))
    out = {w, w.upper(), cap, w.capitalize(), cap.swapcase(), ''.join(c.upper() if i % 2 else c for i, c in enumerate(w))}
    for i in letters:
        for b in (w, w.upper()) + ((cap,) if every else ()):
            out.add(b[:i] + b[i].swapcase() + b[i + 1:])
    if len(letters) <= (8 if every else 4):
        for m in itertools.product((0, 1), repeat=len(letters)):
            x = list(w)
            for i, u in zip(letters, m):
                x[i] = x[i].upper() if u else x[i].lower()
            out.add(''.join(x))
    return sorted(out)


def part(ct, body, extra=''):
    return 'Content-Type: %s\n%s\n%s\n' % (ct, extra, body)


def groups(every):
    """query -> messages it has to find"""
    g = {}

    def add(q, text):
        g.setdefault(q, []).append(text if isinstance(text, bytes) else text.encode('latin1'))

    base = 'Subject: plain\n'
    for s in spellings('from', every):
        add('f:wfrom', '%s: wfrom@q\n\nx\n' % s)
    for s in spellings('to', every):
        add('t:wto', '%s: wto@q\n\nx\n' % s)
    for s in spellings('cc', every):
        add('c:wcc', '%s: wcc@q\n\nx\n' % s)
    for s in spellings('subject', every):
        add('s:wsubj', '%s: wsubj\n\nx\n' % s)
    for s in spellings('date', every):
        add('d:20010203-20010205', base + '%s: Sun, 4 Feb 2001 12:00:00 +0000\n\nx\n' % s)
    for s in spellings('jul', every):
        add('d:20020703-20020705', base + 'Date: Sun, 4 %s 2002 12:00:00 +0000\n\nx\n' % s)
    for s in spellings('apr', every):
        add('d:20030403-20030405', base + 'Date: 4 %s 2003 12:00:00 +0000\n\nx\n' % s)
    for s in spellings('message-id', every):
        add('m:wmid@q', '%s: <wmid@q>\n\nx\n' % s)
    add('-t m:root@q', 'Message-Id: <root@q>\n\nx\n')
    for i, s in enumerate(spellings('in-reply-to', every)):
        add('-t m:root@q', 'Message-Id: <r%d@q>\n%s: <root@q>\n\nx\n' % (i, s))
    for i, s in enumerate(spellings('references', every)):
        add('-t m:root@q', 'Message-Id: <s%d@q>\n%s: <zz@q>\n <root@q>\n\nx\n' % (i, s))
    for s in spellings('status', every):
        add('F:s', base + '%s: RO\n\nx\n' % s)
    for s in spellings('x-status', every):
        add('F:f', base + '%s: F\n\nx\n' % s)
    b64 = base64.b64encode(b'wbase\n').decode()
    for s in spellings('content-transfer-encoding', every):
        add('b:wbase', base + 'Content-Type: text/plain\n%s: base64\n\n%s\n' % (s, b64))
    for s in spellings('base64', every):
        add('b:wbase', base + 'Content-Type: text/plain\nContent-Transfer-Encoding: %s\n\n%s\n' % (s, b64))
    for s in spellings('quoted-printable', every):
        add('b:wquoted', base + 'Content-Type: text/plain\nContent-Transfer-Encoding: %s\n\nw=71uoted\n' % s)
    for s in spellings('8bit', every):
        add('b:weight', base + 'Content-Type: text/plain\nContent-Transfer-Encoding: %s\n\nweight\n' % s)
    for s in spellings('content-type', every):
        add('b:whtml', base + '%s: text/html\n\n<a title="wtag">whtml</a>\n' % s)
    for s in spellings('text', every) + [x.split('/')[0] for x in spellings('text/', every)]:
        add('b:whtml', base + 'Content-Type: %s/html\n\n<a title="wtag">whtml</a>\n' % s)
    for s in spellings('html', every):
        add('b:whtml', base + 'Content-Type: text/%s\n\n<a title="wtag">whtml</a>\n' % s)
    for s in spellings('plain', every):
        add('b:wplain', base + 'Content-Type: text/%s\n\nwplain\n' % s)
    for s in spellings('image', every):
        add('s:nopart', 'Subject: nopart\nContent-Type: %s/gif\n\nwimage\n' % s)
    for s in spellings('multipart', every):
        add('b:wmulti', base + 'Content-Type: %s/mixed; boundary=bb\n\n--bb\n%s--bb--\n' % (s, part('text/plain', 'wmulti')))
    for s in spellings('boundary', every):
        add('b:wmulti', base + 'Content-Type: multipart/mixed; %s=bb\n\n--bb\n%s--bb--\n' % (s, part('text/plain', 'wmulti')))
    for s in spellings('message', every):
        add('s:winner', base + 'Content-Type: multipart/mixed; boundary=bb\n\n--bb\n%s--bb--\n' % part('%s/rfc822' % s, 'Subject: winner\n\nx\n'))
    for s in spellings('rfc822', every):
        add('s:winner', base + 'Content-Type: multipart/mixed; boundary=bb\n\n--bb\n%s--bb--\n' % part('message/%s' % s, 'Subject: winner\n\nx\n'))
    att = lambda cd: base + 'Content-Type: multipart/mixed; boundary=bb\n\n--bb\n%s--bb\n%s--bb--\n' % (
        part('text/plain', 'x'), part('application/data', 'x', cd + '\n'))
    for s in spellings('content-disposition', every):
        add('n:wfile.dat', att('%s: attachment; filename=wfile.dat' % s))
    for s in spellings('attachment', every):
        add('n:wfile.dat', att('Content-Disposition: %s; filename=wfile.dat' % s))
    for s in spellings('filename', every):
        add('n:wfile.dat', att('Content-Disposition: attachment; %s=wfile.dat' % s))
    for s in spellings('utf-8', every) + spellings('iso-8859-1', every):
        for e in 'bBqQ':
            add('s:wenc', 'Subject: =?%s?%s?%s?=\n\nx\n' % (s, e, base64.b64encode(b'wenc').decode() if e in 'bB' else 'w=65nc'))
    return g


NONE = ['b:wtag', 'b:wimage', 'b:%s' % base64.b64encode(b'wbase\n').decode().rstrip('=')]

DIRECTIVES = ['base', 'maildir', 'mbox', 'mh', 'mfolder', 'mformat', 'database', 'omit', 'follow_mbox_symlinks', 'sort']
FORMATS = ['maildir', 'mh', 'mbox']


class W:
    def __init__(self, tools, locdir):
        self.t = tools
        self.loc = locdir
        self.d = mx.scratch()
        self.drv = mx.Driver(tools['plain'])
        self.runs = 0

    def close(self):
        self.drv.close()
        shutil.rmtree(self.d, ignore_errors=True)

    def run(self, locale, args, var='LC_ALL'):
        self.runs += 1
        env = ['LOCPATH=' + self.loc, var + '=' + locale]
        if var != 'LC_ALL':
            env.append('LC_ALL=')
        return self.drv.run(args, env=env, timeout=60)


def fresh(w):
    d = w.d + '/x'
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    return d


def job(w, a):
    kind, loc, tab, every, k, n = a
    out = dict(bad=[], trans=0, sample=None)
    r0 = w.runs
    d = fresh(w)

    def bad(x, **c):
        out['bad'].append(('%s: %s' % (loc, x), dict(c, locale=loc, kind=kind)))

    if kind == 'names':
        g = groups(every)
        where = {}
        box = b''
        for q in sorted(g):
            for t in g[q]:
                box += FL
                where[len(box)] = (q, t)
                box += t + b'\n'
        mx.write(d + '/box', box)
        rc = corpus.write_rc(d, mbox='box', db=d + '/db')
        for var in ('LC_ALL', 'LC_CTYPE', 'LANG') if every else ('LC_ALL',):
            if os.path.exists(d + '/db'):
                os.unlink(d + '/db')
            r = w.run(loc, ['-f', rc], var)
            if r.code != 0:
                bad('indexing fails: %r' % r)
                break
            for q in g:
                r = w.run(loc, ['-f', rc, '-r'] + q.split(' '), var)
                got = {where[int(l.split('[')[-1].split(',')[0])] for l in r.lines}
                want = {x for x in where.values() if x[0] == q}
                out['trans'] += len(want)
                if r.code != 0 or got != want:
                    x = sorted(want - got)[:2] or sorted(got - want)[:2]
                    bad('%s %s %r' % (q, 'does not find' if want - got else 'also finds', [y[1] for y in x]), query=q)
            for q in NONE:
                out['trans'] += 1
                r = w.run(loc, ['-f', rc, '-r', q], var)
                if r.code != 1:
                    bad('%s finds %s' % (q, r.lines[:3]), query=q)
        out['sample'] = '%s: %d spellings in %d groups' % (loc, len(where), len(g))
    elif kind == 'bytes':
        # one message per 8-bit character, in subject, body and sender
        corpus.mkmaildir(d + '/md')
        alnum, lower = tab
        for b in range(128, 256):
            c = bytes([b])
            mx.write('%s/md/new/%02x' % (d, b), b'From: f%02xa%sf%02xz@q.yy\nSubject: s%02xa%ss%02xz\n\nb%02xa%sb%02xz\n' % (b, c, b, b, c, b, b, c, b))
        rc = corpus.write_rc(d, maildir='md', db=d + '/db')
        r = w.run(loc, ['-f', rc])
        if r.code != 0:
            bad('indexing fails: %r' % r)
        for b in range(128, 256):
            for p in 'fsb':
                x, z = ('%s%02xa' % (p, b)).encode(), ('%s%02xz' % (p, b)).encode()
                cs = {b} | {c for c in range(128, 256) if lower[c] == lower[b]} | {lower[b]}
                qs = [(x, not alnum[b]), (x.upper(), not alnum[b]), (z, not alnum[b]), (x + b'=', True), (z + b'=', True), (b'a' + bytes([b]) + z[:2] + b'=', alnum[b])]
                qs += [(x + bytes([c]) + z, alnum[b]) for c in cs]
                for q, want in qs:
                    out['trans'] += 1
                    r = w.run(loc, ['-f', rc, '-r', p.encode() + b':' + q])
                    names = [os.path.basename(l) for l in r.lines]
                    if (q[:1] == b'a' and ('%02x' % b in names) != want) or (q[:1] != b'a' and names != (['%02x' % b] if want else [])):
                        bad('%s:%r finds %s; the byte %02x is %sa letter or digit' % (p, q, names[:4], b, '' if alnum[b] else 'not '), byte=b)
                        if len(out['bad']) > 5:
                            break
    else:
        # directives in all spellings
        corpus.mkmaildir(d + '/md')
        mx.write(d + '/md/new/1', b'Subject: one\n\nx\n')
        mx.write(d + '/box', FL + b'Subject: two\n\nx\n')
        os.mkdir(d + '/mh')
        mx.write(d + '/mh/.mh_sequences', b'')
        mx.write(d + '/mh/1', b'Subject: three\n\nx\n')
        val = dict(base=d, maildir='md:mdx', mbox='box', mh='mh', mfolder=d + '/mf', mformat='maildir', database=d + '/db', omit='mdx', sort='date+')
        corpus.mkmaildir(d + '/mdx')
        mx.write(d + '/mdx/new/1', b'Subject: four\n\nx\n')
        cases = [(n_, s, None) for n_ in DIRECTIVES for s in spellings(n_, every)] + [('mformat', 'mformat', s) for f in FORMATS for s in spellings(f, every)]
        for name, s, v in cases[k::n]:
            if name == 'follow_mbox_symlinks':
                os.symlink('box', d + '/lbox')
            text = ''
            for n_ in val:
                text += '%s=%s\n' % (s if n_ == name else n_, v or val[n_] if n_ == name else val[n_] + (':lbox' if n_ == 'mbox' and name == 'follow_mbox_symlinks' else ''))
            if name == 'follow_mbox_symlinks':
                text += s + '\n'
            mx.write(d + '/rc', text)
            for x in ('db', 'mf'):
                if os.path.isdir(d + '/' + x):
                    shutil.rmtree(d + '/' + x)
                elif os.path.exists(d + '/' + x):
                    os.unlink(d + '/' + x)
            out['trans'] += 1
            r = w.run(loc, ['-f', d + '/rc'])
            r2 = w.run(loc, ['-f', d + '/rc', '-r', 's:~nosuch'])
            r3 = w.run(loc, ['-f', d + '/rc', 's:two'])
            got = sorted(os.path.relpath(l.split(' [')[0].replace('mbox:', ''), d) for l in r2.lines)
            want = sorted(['md/new/1', 'box', 'mh/1'] + (['lbox'] if name == 'follow_mbox_symlinks' else []))
            made = 'mbox' if os.path.isfile(d + '/mf') else 'maildir' if os.path.isdir(d + '/mf/new') else 'mh' if os.path.isdir(d + '/mf') else None
            if r.code != 0 or r2.code != 0 or r3.code != 0 or got != want or made != (v or 'maildir').lower() or not os.path.exists(d + '/db'):
                bad('%s=%s: exit %s %s %s, indexes %s, match folder is %s: %r' % (s, v or val.get(name), r.code, r2.code, r3.code, got, made, (r.err + r3.err)[-200:]), directive=s)
            if name == 'follow_mbox_symlinks':
                os.unlink(d + '/lbox')
    out['runs'] = w.runs - r0
    return out


def tables(locdir, name):
    """letters and lower case of a locale, from the C library"""
    p = subprocess.run([sys.executable, '-c', 'import ctypes, json\nc = ctypes.CDLL(None)\nc.setlocale.restype = ctypes.c_char_p\n'
                        'r = c.setlocale(0, b"")\nprint(json.dumps([r is not None, [int(bool(c.isalnum(i))) for i in range(256)], [c.tolower(i) for i in range(256)]]))'],
                       env={'PATH': '/usr/bin:/bin', 'LOCPATH': locdir, 'LC_ALL': name, 'PYTHONCOERCECLOCALE': '0', 'PYTHONUTF8': '1'}, stdout=subprocess.PIPE)
    ok, a, l = json.loads(p.stdout)
    if not ok:
        raise mx.CheckError('locale %s does not work' % name)
    return a, l


def check(ck):
    tools = mx.build(('plain',))
    th = ck.thorough
    locdir = mx.scratch()
    ls = LOCALES + (MORE if th else [])
    procs = []
    for name, src, cm in ls:
        if src:
            procs.append(subprocess.Popen(['localedef', '-i', src, '-f', cm, '--no-archive', locdir + '/' + name], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
        elif name == 'C.UTF-8':
            procs.append(subprocess.Popen(['localedef', '-i', 'C', '-f', 'UTF-8', '--no-archive', locdir + '/' + name], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
    for p in procs:
        p.wait()
    jobs = []
    for name, src, cm in ls:
        tab = tables(locdir, name)
        jobs.append(('names', name, None, th, 0, 1))
        jobs.append(('bytes', name, tab, th, 0, 1))
        jobs += [('rc', name, None, th, k, 2) for k in range(2)]
    for k in ('states', 'transitions', 'traces_validated_against_impl'):
        ck.cov[k] = 0
    for o in mx.pmap(job, jobs, init=lambda: W(tools, locdir)):
        ck.add('states', o['trans'])
        ck.add('transitions', o['runs'])
        ck.add('traces_validated_against_impl', o['runs'])
        for x, c in o['bad']:
            ck.violation(x, c)
        if o['sample']:
            ck.sample(o['sample'])
    ck.cov['exhaustive'] = True
    ck.cov['rule'] = 'state = one spelling, character or directive in one locale that is judged; transition = one run of mairix'
    ck.assumptions += ['the classification of characters by the C library in a locale is right']


mx.main(check, 'P29', 'model_checking')
