"""Building mail folders and reading mairix output."""
import os, re
import mx

FROMLINE = b'From a@bc.de Mon Jan  1 12:00:00 2001\n'


def b(x):
    return x if isinstance(x, bytes) else x.encode('latin1')


def msg(subject=None, frm=None, to=None, cc=None, mid=None, irt=None, refs=None, date=None, body='', extra=''):
    h = []
    for n, v in (('From', frm), ('To', to), ('Cc', cc), ('Subject', subject), ('Message-ID', mid),
                 ('In-Reply-To', irt), ('References', refs), ('Date', date)):
        if v is not None:
            h.append(b(n) + b': ' + b(v) + b'\n')
    if extra:
        h.append(b(extra))
    if not h:
        h.append(b'X-None: 1\n')
    return b''.join(h) + b'\n' + b(body)


class Mbox:
    """Accumulates messages; knows the start offset of each."""

    def __init__(self):
        self.parts = []
        self.pos = 0
        self.offs = []
        self.index = {}

    def add(self, m, fromline=FROMLINE):
        m = b(m)
        if not m.endswith(b'\n'):
            m += b'\n'
        self.pos += len(fromline)
        self.index[self.pos] = len(self.offs)
        self.offs.append(self.pos)
        self.parts.append(fromline + m + b'\n')
        self.pos += len(m) + 1

    def data(self):
        return b''.join(self.parts)


RAW_RE = re.compile(r'^mbox:(.*) \[(\d+),(\d+)\)$')


def raw_ids(res, offindex):
    """message numbers of a one-mbox database from -r output"""
    out = []
    for l in res.lines:
        m = RAW_RE.match(l)
        out.append(offindex.get(int(m.group(2)), ('?', l)) if m else ('?', l))
    return out


def write_rc(d, maildir=None, mh=None, mbox=None, mformat=None, extra='', mfolder='mf', base=None, db=None,
             name='rc', omit=None):
    s = 'base=%s\n' % (base or d)
    if maildir:
        s += 'maildir=%s\n' % maildir
    if mh:
        s += 'mh=%s\n' % mh
    if mbox:
        s += 'mbox=%s\n' % mbox
    if omit:
        s += 'omit=%s\n' % omit
    if mformat:
        s += 'mformat=%s\n' % mformat
    if mfolder:
        s += 'mfolder=%s\n' % mfolder
    s += 'database=%s\n' % (db or os.path.join(d, 'db'))
    s += extra
    p = os.path.join(d, name)
    mx.write(p, s)
    return p


def mkmaildir(p):
    for s in ('cur', 'new', 'tmp'):
        os.makedirs(os.path.join(p, s), exist_ok=True)
