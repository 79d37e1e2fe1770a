"""P16: MIME decoding.  Messages are generated from grammars (part trees, transfer encodings in every phase, encoded-word
sequences, header spellings, attachment-name forms), all of them are indexed, and every word of the vocabulary is searched:
the result must be exactly the messages whose decoded parts hold it."""
import base64, binascii, itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import mx, corpus

FL = corpus.FROMLINE


def b64(s, width=76, eol='\n'):
    x = base64.b64encode(s.encode('latin1')).decode()
    return eol.join(x[i:i + width] for i in range(0, len(x), width)) + eol


def qp(s):
    """every third character escaped, a soft break after every fourth"""
    o = ''
    for i, c in enumerate(s):
        if c == '\n':
            o += c
            continue
        o += '=%02X' % ord(c) if i % 3 == 1 or c == '=' else c
        if i % 4 == 3:
            o += '=\n'
    return o


def uu(s):
    o = 'begin 644 f\n'
    for i in range(0, len(s), 45):
        o += binascii.b2a_uu(s[i:i + 45].encode('latin1'), backtick=bool(i % 2)).decode()
    return o + '`\nend\n'


# ---------------------------------------------------------------- A: part trees
# leaf kinds: name -> (headers, encoder, html?, indexed?, attachment name given?)
KINDS = {
    'p7': ('Content-Type: text/plain\n', str, 0, 1, 0),
    'p8': ('Content-Type: text/plain; charset=iso-8859-1\nContent-Transfer-Encoding: 8bit\n', str, 0, 1, 0),
    'pn': ('Content-Transfer-Encoding: binary\nContent-Type: TEXT/PLAIN\n', str, 0, 1, 0),
    'pq': ('Content-Type: text/plain; charset="utf-8"\nContent-Transfer-Encoding: quoted-printable\n', qp, 0, 1, 0),
    'pb': ('Content-Transfer-Encoding: base64\nContent-Type: text/plain\n', b64, 0, 1, 0),
    'pu': ('Content-Type: text/plain\nContent-Transfer-Encoding: x-uuencode\n', uu, 0, 1, 0),
    'hq': ('Content-Type: text/html\nContent-Transfer-Encoding: Quoted-Printable\n', qp, 1, 1, 0),
    'hb': ('Content-Type: text/html; charset=x\nContent-Disposition: attachment; filename="att%d.html"\n'
           'Content-Transfer-Encoding: BASE64\n', b64, 1, 1, 1),
    'nd': ('', str, 0, 1, 0),
    'nb': ('Content-Transfer-Encoding: base64\nContent-Disposition: attachment; filename=att%d.html\n', b64, 0, 1, 1),
    'ab': ('Content-Type: application/octet-stream; name="wrong.html"\nContent-Transfer-Encoding: base64\n'
           'Content-Disposition: attachment;\n\tfilename=att%d.html\n', b64, 0, 0, 1),
    'a7': ('Content-Type: image/png\nContent-Disposition: attachment\n', str, 0, 0, 0),
    'an': ('Content-Type: application/x-foo; Name=att%d.html\nContent-Disposition: attachment\n', qp, 0, 0, 1),
}


def shapes(depth, maxleaves):
    """all trees: 'L', ('M', kids), ('R', kid) of at most this depth and number of leaves"""
    if depth == 0:
        return [(('L',), 1)]
    sub = shapes(depth - 1, maxleaves)
    out = [(('L',), 1)]
    out += [(('R', s), n) for s, n in sub]
    for k in (1, 2, 3):
        for c in itertools.product(sub, repeat=k):
            n = sum(x[1] for x in c)
            if n <= maxleaves:
                out.append((('M',) + tuple(x[0] for x in c), n))
    return out


class Builder:
    def __init__(self, kinds, bstyle, wrap, rcte):
        self.kinds, self.k, self.r, self.m = kinds, 0, 0, 0
        self.facts = set()
        self.bds = []
        self.bstyle, self.wrap, self.rcte = bstyle, wrap, rcte

    def boundary(self, depth):
        if self.bstyle == 0:                     # inner ones extend outer ones
            return 'b' + ''.join(('x', '-y')[i % 2] for i in range(depth))
        if self.bstyle == 1:                     # outer ones extend inner ones
            return 'b' + '=_' * (9 - depth)
        self.m += 1
        return "%d'()+_,-./:=?" % self.m if self.bstyle == 2 else '----=_Part %d;' % self.m

    def entity(self, s, depth):
        """-> (headers, body)"""
        if s[0] == 'L':
            kind = self.kinds[self.k]
            h, enc, html, idx, att = KINDS[kind]
            k = self.k
            self.k += 1
            if '%d' in h:
                h = h % k
            if att:
                self.facts.add('n:att%d.html' % k)
            text = 'some leaf%dx words\n' % k
            quoted = ''.join('> --%s\nsay --%s--\n --%s\n' % (b, b, b) for b in self.bds) if self.wrap else ''
            text = quoted + text
            if html:
                text = quoted + '<a href="tag%dx">some</a> leaf%dx <b>words\n</b>' % (k, k)
            elif idx:
                text += 'x<tag%dx>\n' % k
                self.facts.add('b:tag%dx' % k)
            if idx:
                self.facts |= {'b:leaf%dx' % k, 'b:words'}
            return h, enc(text) + ('' if enc is str else '')
        if s[0] == 'R':
            r = self.r
            self.r += 1
            self.facts |= {'s:rs%d' % r, 'f:rf%d' % r, 't:rt%d' % r, 'c:rc%d' % r, 'rs%d' % r}
            h, b = self.entity(s[1], depth + 1)
            m = 'From: rf%d@ab.cd\nSubject: rs%d\n%sTo: rt%d\nCc: rc%d\n\n%s' % (r, r, h, r, r, b)
            h = 'Content-Type: message/rfc822\n'
            if self.rcte:
                return h + 'Content-Transfer-Encoding: base64\n', b64(m)
            return h, m
        bd = self.boundary(depth)
        self.bds.append(bd)
        out = 'preamble words0 --%s\n -- \n\n' % bd if self.wrap else ''
        for c in s[1:]:
            h, b = self.entity(c, depth + 1)
            out += '--%s%s\n%s\n%s\n' % (bd, ('', ' ', '\t ')[self.wrap * len(out) % 3], h, b)
        self.bds.pop()
        out += '--%s--\n' % bd + ('\nepilogue words1\n--%s\n\nwords1\n' % bd if self.wrap else '')
        q = 'boundary="%s"' % bd if self.bstyle else 'boundary=' + bd
        return 'Content-Type: multipart/mixed; ' + q + '\n', out


def tree_items(t):
    out = []
    reduced = ['pq', 'hb', 'ab', 'nd']
    variants = [(bs, w, rc, crlf) for bs in range(4) for w in (0, 1) for rc in (0, 1) for crlf in (0, 1)]
    for s, n in shapes(3, 3):
        deep = depth_of(s) >= 3
        if n == 1:
            combos = [(k,) for k in KINDS]
        elif n == 2:
            combos = list(itertools.product(KINDS, repeat=2)) if not deep or t else list(itertools.product(reduced, repeat=2))
        elif t and not deep:
            combos = list(itertools.product(KINDS, repeat=3))
        else:
            combos = list(itertools.product(reduced, repeat=3)) if not deep or t else [
                c for c in itertools.product(reduced[:3], repeat=3) if len(set(c)) > 1]
        for c in combos:
            if n == 1 or (n == 2 and (t or not deep)):
                vs = variants
            elif n == 2:
                vs = variants[::5]
            else:
                i = sum(list(KINDS).index(x) for x in c) * 7 % 32
                vs = [variants[(i + j * 5) % 32] for j in range(4 if t else 1)]
            if 'R' not in str(s):
                vs = sorted({v[:2] + (0,) + v[3:] for v in vs})
            out += [('tree', s, c, v) for v in vs]
    for d in (5, 10, 30, 60):                     # long chains
        for f in (lambda s, i: ('M', s), lambda s, i: ('R', s), lambda s, i: ('R', s) if i % 2 else ('M', s)):
            s = ('L',)
            for i in range(d):
                s = f(s, i)
            out += [('tree', s, (k,), (3, 0, 0, 0)) for k in ('p7', 'hb', 'ab')]
    return out


def depth_of(s):
    return 0 if s[0] == 'L' else 1 + max(depth_of(x) for x in s[1:])


def tree_msg(it):
    _, s, kinds, (bs, w, rc, crlf) = it
    bl = Builder(kinds, bs, w, rc)
    h, b = bl.entity(s, 0)
    m = 'From: topf@ab.cd\nTo: topt\n%sSubject: tops\n\n%s' % (h, b)
    if crlf:
        m = m.replace('\n', '\r\n')
    return m, bl.facts | {'s:tops', 'f:topf', 't:topt'}


TREE_VOC = ['s:tops', 'f:topf', 't:topt', 'b:words', 'b:words0', 'b:words1', 'b:preamble', 'n:wrong.html', 'b:tops'] + \
    ['%s%d%s' % (p, k, q) for k in range(3) for p, q in (('b:leaf', 'x'), ('b:tag', 'x'), ('n:att', '.html'), ('s:leaf', 'x'))] + \
    ['%s%d' % (p, k) for k in range(3) for p in ('s:rs', 'f:rf', 't:rt', 'c:rc', 'rs', 'b:rs')]
# preamble/epilogue text is not claimed either way
TREE_VOC = [v for v in TREE_VOC if v not in ('b:words0', 'b:words1', 'b:preamble')]


# ---------------------------------------------------------------- B: base64 phases

def b64_items(t):
    out = []
    for j in range(0, 5):
        for k in range(0, 7):
            for width in list(range(1, 9)) + [57, 76]:
                for form in range(6):
                    out.append(('b64', j, k, width, form))
    # every byte value as text in every phase; every byte outside of the alphabet strewn in (RFC 2045: to be ignored)
    for c in range(1, 256):
        for j in range(3):
            out.append(('b64', j, 2, 76, 1000 + c))
    for c in range(1, 256):
        if chr(c) not in '=+/' and not (c < 128 and chr(c).isalnum()):
            for j in range(2):
                out.append(('b64', j, 2, 3 + 2 * j, 2000 + c))
    return out


def b64_msg(it):
    _, j, k, width, form = it
    s = 'x' * j + ' needle ' + 'y' * k
    f = {'b:needle'}
    if 1000 <= form < 2000:
        c = chr(form - 1000)
        s = 'x' * j + ' ' + c * 3 + ' needle ' + 'y' * k
        if ord(c) < 128 and (c.isalnum() or c == '_'):
            f.add('b:' + c.lower() * 3)
    x = b64(s, width, '\r\n' if form == 1 else '\n')
    if form > 2000:
        x = x.replace('\n', chr(form - 2000) + '\n')
    if form == 2:
        x = x.rstrip('\n')
    elif form == 3:
        x = '\n' + x + '\n\n'
    elif form == 4:
        x = x.replace('\n', ' \n')
    elif form == 5:
        # in a part, so that the data end before the buffer does
        m = 'Subject: s\nContent-Type: multipart/mixed; boundary=b\n\n--b\nContent-Type: text/plain\n' \
            'Content-Transfer-Encoding: base64\n\n%s--b--\n' % x
    if form != 5:
        m = 'Subject: s\nContent-Transfer-Encoding: base64\n\n' + x
    if j:
        f.add('b:' + 'x' * j)
    if k:
        f.add('b:' + 'y' * k)
    return m, f


B64_VOC = ['b:needle'] + ['b:' + c * n for c in 'xy' for n in range(1, 8)] + \
    ['b:' + c * 3 for c in 'abcdefghijklmnopqrstuvwz0123456789_']


# ---------------------------------------------------------------- B2: uuencode

UU_WORDS = ['w%02d' % i for i in range(40)]
UU_VOC = ['b:w%02d' % i for i in range(40)] + ['b:w%d' % i for i in range(4)] + ['b:w', 'b:end', 'b:begin', 'b:644']


def uu_items(t):
    return [('uu', n, w, form) for n in range(1, 141 if t else 100) for w in (45, 1, 2, 3, 7, 44) for form in range(7)]


def uu_msg(it):
    _, n, w, form = it
    text = ' '.join(UU_WORDS)[:n]
    o = 'begin 644 f\n' if form != 6 else 'begin 600 a file with spaces.txt\n'
    if form == 2:
        o = 'first\n\nbegins here\n' + o
    for i in range(0, n, w):
        o += binascii.b2a_uu(text[i:i + w].encode(), backtick=form % 2 == 0).decode()
    o += '`\nend\n' if form != 5 else ' \nend\n'
    if form == 4:
        o = o[:-1]
    h = 'Content-Type: text/plain\nContent-Transfer-Encoding: x-uuencode\n\n'
    m = 'Subject: s\n' + h + o
    if form == 3:
        m = 'Subject: s\nContent-Type: multipart/mixed; boundary=b\n\n--b\n%s--b--\n' % (h + o)
    if form == 1:
        m = m.replace('\n', '\r\n')
    return m, {'b:' + x for x in words(text)}


# ---------------------------------------------------------------- C: quoted-printable

SOFT = ['=\n', '= \n', '=\t \n', '=\r\n', '=\n=\n']


def qp_items(t):
    out = []
    for mask in range(64):
        for up in (0, 1):
            out.append(('qp', mask, up, None, 0, 0))
            for pos in range(7):
                for soft in range(len(SOFT) if t or mask in (0, 1, 32, 63, 42) else 1):
                    for ctx in (0, 1, 2):
                        out.append(('qp', mask, up, pos, soft, ctx))
    return out


def qp_msg(it):
    _, mask, up, pos, soft, ctx = it
    o = []
    for i, c in enumerate('zkOn_m'):
        o.append(('=%02X' if up else '=%02x') % ord(c) if mask >> i & 1 else c)
    if pos is not None:
        o.insert(pos, SOFT[soft])
    w = ''.join(o)
    f = {'b:zkon_m', 's:s'}
    if ctx == 0:
        body = w
    elif ctx == 1:
        body = 'l1=20%s=0Ar1=3Dq1=\n=20l2\n' % w
        f |= {'b:l1', 'b:r1', 'b:q1', 'b:l2'}
    else:
        body = 'l1\n%s\nr1' % w
        f |= {'b:l1', 'b:r1'}
    hd = 'Subject: s\nContent-Type: text/plain\nContent-Transfer-Encoding: quoted-printable\n\n'
    return hd + body, f


QP_VOC = ['b:zkon_m', 's:s', 'b:l1', 'b:r1', 'b:q1', 'b:l2', 'b:l1zkon_m', 'b:zkon', 'b:20', 'b:3d', 'b:0a'] + \
    ['b:' + 'zkon_m'[:i] for i in range(1, 6)]


# ---------------------------------------------------------------- D: encoded-words

PIECES = [('al', 'al'), ('=?utf-8?q?be?=', 'be'), ('=?ISO-8859-1?B?Z2E=?=', 'ga'), ('=?us-ascii?Q?de_=65p?=', 'de ep'),
          ('=?utf-8*en?b?emV0YQ==?=', 'zeta'), ('=?x?q?=3Deta=3f?=', '=eta?'), ('=?utf-8?Q?_io?=', ' io'),
          ('=?utf-8?B?a2Fw?=', 'kap')]
SEPS = [' ', '\n ', '\n\t', '  ']
HDRS = [('Subject', 's'), ('From', 'f'), ('To', 't'), ('Cc', 'c')]


def ew_items(t):
    out = []
    for n in (1, 2, 3):
        for c in itertools.product(range(len(PIECES)), repeat=n):
            for sep in (range(len(SEPS))):
                if n == 1 and sep:
                    continue
                for hd in range(4):
                    out.append(('ew', c, sep, hd))
    if t:
        for c in itertools.product(range(len(PIECES)), repeat=4):
            out += [('ew', c, 1, 0), ('ew', c, 0, 1)]
        for c in itertools.product(range(5), repeat=5):
            out.append(('ew', c, 0, 2))
    for n in range(1, 13):
        for enc in 'bBqQ':
            for hd in range(4):
                out.append(('ewlen', n, enc, hd))
    return out


def words(s):
    w, o = '', set()
    for c in s.lower() + ' ':
        if c.isalnum() or c == '_':
            w += c
        else:
            if w:
                o.add(w)
            w = ''
    return o


def ew_msg(it):
    if it[0] == 'ewlen':
        _, n, enc, hd = it
        text = 'abcdefghijklm'[:n]
        v = base64.b64encode(text.encode()).decode() if enc in 'bB' else ''.join('=%02X' % ord(c) for c in text)
        v = '=?utf-8?%s?%s?=' % (enc, v)
        plain = text
    else:
        _, c, sep, hd = it
        v = SEPS[sep].join(PIECES[i][0] for i in c)
        plain = ''
        for j, i in enumerate(c):
            if j and not (PIECES[i][0].startswith('=?') and PIECES[c[j - 1]][0].startswith('=?')):
                plain += ' '
            plain += PIECES[i][1]
    name, p = HDRS[hd]
    return '%s: %s\nX: y\n\nbody\n' % (name, v), {p + ':' + w for w in words(plain)}


# vocabulary is the union of the facts plus every word under every other header
# ---------------------------------------------------------------- E: header spellings

E_NAMES = ['Content-Type', 'content-type', 'CONTENT-TYPE']
E_COLON = ['', ' ', '\t', '\n ', '  \n\t']
E_TYPE = ['text/html', 'TEXT/HTML', 'Text/hTmL']
E_PAR = ['', '; charset=us-ascii', ';charset="utf-8"', ' ; charset=x ; format=flowed', '; charset=x;', ';\n\tcharset="a;b"',
         '; name=""', '; charset=x\n  ; name="a b"', '; charset = x', '; x="a\\"b"; y="c\\\\"', ';  charset=" a "  ', '; a-b_c=d.e+f']
E_CTE = ['', '7bit', '8BIT', 'Binary', '7-bit', 'quoted-printable', 'QUOTED-PRINTABLE', 'Base64', 'base64 ', '\n base64']


def sp_items(t):
    out = []
    for i, (n, c, ty, p, e, top) in enumerate(itertools.product(range(3), range(5), range(3), range(len(E_PAR)), range(len(E_CTE)), (0, 1, 2))):
        if t or (n + c + ty + p) % 3 == 0 or (n, c, ty) == (0, 1, 0):
            out.append(('sp', n, c, ty, p, e, top))
    return out


def sp_msg(it):
    _, n, c, ty, p, e, top = it
    h = E_NAMES[n] + ':' + E_COLON[c] + E_TYPE[ty] + E_PAR[p] + '\n'
    cte = E_CTE[e]
    if cte:
        k = 'Content-Transfer-Encoding: %s\n' % cte
        k = k.upper().replace(cte.upper(), cte) if n == 2 else k
        h = h + k if c % 2 else k + h
    text = '<p tagw>ht<i>ml</i>w or&amp;d\n'
    lc = cte.strip().lower()
    b = qp(text) if lc.startswith('quoted') else b64(text, 9) if lc.startswith('base') else text
    if top == 0:
        m = 'Subject: s\n' + h + '\n' + b
    elif top == 1:
        m = 'Subject: s\nContent-Type: multipart/alternative;\n boundary=zz\n\n--zz\n%s\n%s\n--zz--\n' % (h, b)
    else:
        m = 'Subject: s\nContent-Type: message/rfc822\n\nTo: q\n%s\n%s' % (h, b)
    return m, {'s:s', 'b:w'}


# ---------------------------------------------------------------- F: attachment names

F_NAMES = ['a.txt', 'Case.TXT', 'two words.doc', 'x;y.z', "it's+(1).c", 'no_ext', 'a b c d.e', 'q=r.txt0', 'abcdefghijkl.mn', 'per%cent', 'say "hi".ps', 'back\\slash.c\\', 'n\xe4m\xff\x80.doc']
TOKEN = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._-+')


def pct(s):
    return ''.join(c if c.isascii() and c.isalnum() else '%%%02X' % ord(c) if i % 2 else '%%%02x' % ord(c) for i, c in enumerate(s))


def qs(nm, every=False):
    """a quoted-string: backslashes where they are needed, or everywhere"""
    return ''.join('\\' + c if every or c in '"\\' else c for c in nm)


def name_forms(nm):
    """(content-type parameters, content-disposition parameters)"""
    out = []
    simple = set(nm) <= TOKEN
    for par, cd in (('filename', 1), ('FileName', 1), ('name', 0), ('NAME', 0)):
        fs = ['%s="%s"' % (par, qs(nm)), '%s = "%s"' % (par, qs(nm))]
        if simple:
            fs += ['%s=%s' % (par, nm)]
        ext = "%s*=utf-8''%s" % (par, pct(nm))
        fs += [ext, "%s*=iso-8859-1'en'%s" % (par, pct(nm)), "%s*=us-ascii'de-at'%s" % (par, pct(nm))]
        fs += ['%s="%s"' % (par, qs(nm, True))]
        # a plain form for old readers besides the real name
        fs += ['%s="old.txt"; %s' % (par, ext), '%s; %s="old.txt"' % (ext, par), '%s=%s; %s' % (par, 'old.txt', ext)]
        for i in range(1, len(nm)):
            u, v = qs(nm[:i]), qs(nm[i:])
            fs.append('%s*0="%s"; %s*1="%s"' % (par, u, par, v))
            fs.append('%s="old.txt"; %s*0="%s"; %s*1="%s"' % (par, par, u, par, v))
            fs.append('%s*0="%s"; %s="old.txt"; %s*1="%s"' % (par, u, par, par, v))
            if simple:
                fs.append('%s*0=%s;\n\t%s*1=%s' % (par, nm[:i], par, nm[i:]))
            fs.append("%s*0*=utf-8''%s; %s*1*=%s" % (par, pct(nm[:i]), par, pct(nm[i:])))
            fs.append("%s*0*=utf-8'en'%s; %s*1=\"%s\"" % (par, pct(nm[:i]), par, v))
            fs.append("%s*0*=utf-8''%s; %s*1*=%s; %s=\"old.txt\"" % (par, pct(nm[:i]), par, pct(nm[i:]), par))
        fs.append('; '.join('%s*%d="%s"' % (par, i, qs(c)) for i, c in enumerate(nm)))
        fs.append('; '.join("%s*%d*=%s%s" % (par, i, '' if i else "utf-8''", pct(c)) for i, c in enumerate(nm)))
        for f in fs:
            out.append(('', f) if cd else (f, ''))
        if cd:
            out.append(('name="other"', fs[0]))
    return out


def nm_items(t):
    out = []
    for nm in F_NAMES:
        for i, (a, b) in enumerate(name_forms(nm)):
            for disp in (('attachment', 'ATTACHMENT', 'Attachment') if t or i < 3 else ('attachment',)):
                for pos in (0, 1, 2):
                    for top in (0, 1):
                        out.append(('nm', nm, a, b, disp, pos, top))
    return out


def nm_msg(it):
    _, nm, a, b, disp, pos, top = it
    pad = [('', ''), ('size=10; ', ''), ('', '; creation-date="Mon, 1 Jan 2001"')][pos]
    h = ''
    facts = {'n:' + nm.lower()}
    if not (a or pos or top):
        facts.add('b:zzz')  # text/plain is what a part without a type is
    else:
        h += 'Content-Type: application/x-y' + (';\n ' + pad[0] + a + pad[1] if a else '') + '\n'
    h += 'Content-Disposition: ' + disp + ('; ' + pad[0] + b + pad[1] if b else '') + '\n'
    if top:
        return 'Subject: s\n' + h + '\nzzz\n', facts
    return 'Subject: s\nContent-Type: multipart/mixed; boundary=b\n\n--b\n%s\nzzz\n--b--\n' % h, facts


FAM = {'tree': tree_msg, 'b64': b64_msg, 'uu': uu_msg, 'qp': qp_msg, 'ew': ew_msg, 'ewlen': ew_msg, 'sp': sp_msg, 'nm': nm_msg}


def vocabulary(fam):
    if fam == 'tree':
        return [v for v in TREE_VOC] + ['b:rs3']
    if fam == 'b64':
        return B64_VOC
    if fam == 'uu':
        return UU_VOC
    if fam == 'qp':
        return QP_VOC
    if fam == 'ew':
        ws = set()
        for it in ew_items(False):
            if it[0] == 'ew' and len(it[1]) <= 3 or it[0] == 'ewlen':
                ws |= {f[2:] for f in ew_msg(it)[1]}
        ws |= {'utf', 'q', '3d', '65p', 'eta3f'}
        return [p + w for w in sorted(ws) for p in ('s:', 'f:', 't:', 'c:')]
    if fam == 'sp':
        return ['s:s', 'b:w', 'b:tagw', 'b:p', 'b:i', 'b:htmlw']
    return ['n:' + n.lower() for n in F_NAMES] + ['n:other', 'n:a', 'n:old.txt', 'b:q', 'b:zzz']


CLAIM = {'sp': lambda v: v in ('s:s', 'b:tagw', 'b:w')}


def run(ctx, job):
    exe, fam, container, items, voc = job
    out = dict(n=len(items), dec=0, q=0, bad=[], sets=set())
    drv, d = mx.Driver(exe), mx.scratch()
    facts, where = [], {}
    if container == 'md':
        corpus.mkmaildir(d + '/md')
        for i, it in enumerate(items):
            m, f = FAM[it[0]](it)
            facts.append(f)
            p = '%s/md/new/%d' % (d, i)
            mx.write(p, m.encode('latin1'))
            where[p] = i
        rc = corpus.write_rc(d, maildir='md')
    else:
        parts, pos = [], 0
        for i, it in enumerate(items):
            m, f = FAM[it[0]](it)
            facts.append(f)
            m = m.encode('latin1')
            m = m + (b'\n' if m.endswith(b'\n') else b'\n\n')
            a = pos + len(FL)
            parts.append(FL + m)
            pos = a + len(m)
            where['mbox:%s/box [%d,%d)' % (d, a, pos)] = i
        mx.write(d + '/box', b''.join(parts))
        rc = corpus.write_rc(d, mbox='box')
    r = drv.run(['-f', rc], timeout=200)
    if r.code != 0:
        out['bad'].append(('indexing failed for %s: %r' % (fam, r), {}))
    else:
        for v in voc:
            exp = {i for i, f in enumerate(facts) if v in f}
            if fam == 'sp' and v not in ('s:s', 'b:w', 'b:tagw'):
                continue
            r = drv.run(['-f', rc, '-r', v.encode('latin1')], timeout=60)
            got = {where.get(l, l) for l in r.lines}
            out['q'] += 1
            out['dec'] += len(items)
            out['sets'].add((v, len(exp) > 0))
            if got != exp or len(r.lines) != len(exp) or r.code != (0 if exp else 1):
                extra, miss = sorted(got - exp, key=str), sorted(exp - got)
                ex = (miss or extra or [0])[0]
                desc = items[ex] if isinstance(ex, int) else ex
                out['bad'].append(('search %s (exit %s) %s message %s in %s: %d missing, %d too many' % (
                    v, r.code, 'misses' if miss else 'wrongly finds', desc, container, len(miss), len(extra)),
                    dict(search=v, item=repr(desc), message=FAM[desc[0]](desc)[0] if isinstance(ex, int) else '')))
                if len(out['bad']) > 3:
                    break
    drv.close()
    mx.cleanup()
    return out


def check(ck):
    t = ck.thorough
    exe = mx.build(('plain',))['plain']
    for k in ('states', 'transitions', 'traces_validated_against_impl', 'searches'):
        ck.cov[k] = 0
    fams = {'tree': tree_items(t), 'b64': b64_items(t), 'uu': uu_items(t), 'qp': qp_items(True), 'ew': ew_items(t), 'sp': sp_items(True), 'nm': nm_items(True)}
    jobs = []
    for fam, items in fams.items():
        voc = vocabulary(fam)
        n = 1500
        for c in ('md', 'mbox'):
            its = items
            for i in range(0, len(its), n):
                jobs.append((exe, fam, c, its[i:i + n], voc))
        ck.cov['messages_' + fam] = len(items)
        ck.sample('%s: %r' % (fam, items[len(items) // 2]))
    jobs.sort(key=lambda j: -len(j[3]) * len(j[4]))
    sets = set()
    for o in mx.pmap(run, jobs):
        ck.add('states', o['n'])
        ck.add('transitions', o['dec'])
        ck.add('searches', o['q'])
        ck.add('traces_validated_against_impl', o['n'])
        sets |= o['sets']
        for w, c in o['bad']:
            ck.violation(w, c)
    ck.cov['distinct_outcomes'] = len(sets)
    ck.cov['exhaustive'] = True
    ck.cov['rule'] = ('state = one generated message (as a maildir file and in an mbox); transition = one (search word, message) '
                      'decision compared with the decoded content known from the generator')
    ck.assumptions = ['LC_ALL=C', 'well-formed MIME (boundaries closed, base64 padded)',
                      'preamble/epilogue text and names of inline parts are not claimed']


mx.main(check, 'P16', 'model_checking')
