"""P21: sort=date+.  Databases in which every position holds messages of every date, so that every assignment of dates to positions is
some result set: all assignments are searched for, in every output form, and the listed order must be ascending; the set must be that of
the unsorted search."""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import mx, corpus

DATES = ['2 Jan 1970', '5 Nov 1985', '31 Dec 1999', '29 Feb 2000', '1 Mar 2000', '9 Sep 2001', '19 Jan 2038', '21 Jan 2038',
         '14 Feb 2054', '30 Dec 2069', '1 Jan 2100', '6 Feb 2106']
MON = 'Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()


def key(d):
    a, m, y = d.split()
    return (int(y), MON.index(m), int(a))


assert sorted(DATES, key=key) == DATES


class World:
    """npos positions (in database order) x the dates; kinds[p] says what sort of folder position p is in"""

    def __init__(self, exe, kinds, dates, rounds=1):
        self.drv = mx.Driver(exe)
        self.d = d = mx.scratch() + '/w'
        os.makedirs(d)
        self.kinds, self.dates = kinds, dates
        self.id = {}
        mds, mhs, mbs = [], [], []
        for p, k in enumerate(kinds):
            n = 'p%02d' % p
            if k == 'maildir':
                corpus.mkmaildir('%s/%s' % (d, n))
                mds.append(n)
            elif k == 'mh':
                os.makedirs('%s/%s' % (d, n))
                mx.write('%s/%s/.mh_sequences' % (d, n), '')
                mhs.append(n)
            else:
                mbs.append(n)
        kw = dict(maildir=':'.join(mds) or None, mh=':'.join(mhs) or None, mbox=':'.join(mbs) or None)
        self.rc = {}
        for f in ('raw', 'excerpt', 'mbox', 'mh', 'maildir'):
            for s in (0, 1):
                self.rc[f, s] = corpus.write_rc(d, mformat=f, name='rc-%s-%d' % (f, s), extra='sort=date+\n' if s else '', **kw)
        # rounds > 1: positions are indexed in several runs, the last positions first
        order = [list(range(len(kinds)))] if rounds == 1 else [[p] for p in reversed(range(len(kinds)))]
        for ps in order:
            for p in ps:
                box = b''
                for i, dt in enumerate(dates):
                    m = corpus.msg(subject='p%dd%d pall' % (p, i), mid='<p%dd%d@x>' % (p, i), refs='<all@x>',
                                   date='Mon, %s 10:11:12 +0000' % dt, body='w')
                    n = '%s/p%02d' % (d, p)
                    if kinds[p] == 'maildir':
                        mx.write('%s/cur/%d:2,S' % (n, i), m)
                    elif kinds[p] == 'mh':
                        mx.write('%s/%d' % (n, i + 1), m)
                    else:
                        box += corpus.FROMLINE + m + b'\n'
                if box:
                    mx.write(n, box)
            r = self.drv.run(['-f', self.rc['raw', 0]])
            if r.code != 0:
                raise AssertionError('indexing failed %r' % r)

    def listed(self, fmt, s, q, opts=()):
        """sequence of (position, date index) as listed"""
        r = self.drv.run(['-f', self.rc[fmt, s]] + list(opts) + [q], timeout=60)
        if r.code not in (0, 1):
            raise AssertionError('search failed: %r' % r)
        if fmt == 'excerpt':
            return [tuple(map(int, x)) for x in re.findall(rb'(?m)^  Subject: +p(\d+)d(\d+) ', r.out)]
        mf = self.d + '/mf'
        if fmt == 'raw':
            out = []
            for l in r.lines:
                m = corpus.RAW_RE.match(l)
                if m:
                    with open(m.group(1), 'rb') as f:
                        f.seek(int(m.group(2)))
                        out.append(f.read(int(m.group(3)) - int(m.group(2))))
                else:
                    with open(l, 'rb') as f:
                        out.append(f.read())
            txt = out
        elif fmt == 'mbox':
            with open(mf, 'rb') as f:
                txt = f.read().split(b'From mairix@mairix ')[1:]
            os.unlink(mf)
        elif fmt == 'mh':
            ns = sorted(int(x) for x in os.listdir(mf) if x.isdigit())
            txt = [open('%s/%d' % (mf, n), 'rb').read() for n in ns]
            for n in ns:
                os.unlink('%s/%d' % (mf, n))
            os.rmdir(mf) if not os.listdir(mf) else None
        else:
            txt = []
            for sub in ('cur', 'new', 'tmp'):
                for n in os.listdir('%s/%s' % (mf, sub)):
                    p = '%s/%s/%s' % (mf, sub, n)
                    txt.append(open(p, 'rb').read())
                    os.unlink(p)
                os.rmdir('%s/%s' % (mf, sub))
            os.rmdir(mf)
        return [tuple(map(int, re.search(rb'(?m)^Subject: p(\d+)d(\d+) ', t).groups())) for t in txt]


WORLDS = {'files': ['maildir'] * 6, 'mixed': ['maildir', 'mh', 'mh', 'mbox', 'mbox', 'maildir'], 'late': ['maildir', 'mbox', 'mh', 'maildir', 'mbox']}


def assignments(name, t):
    """(format, assignment) : assignment[p] = date index or None"""
    np = len(WORLDS[name])
    nd = len(DATES)
    full = range(nd)
    few = [0, 3, 5, 7, 9, 11]
    for n in (1, 2, 3):
        for ps in itertools.combinations(range(np), n):
            if n == 3 and not t and ps[0] != 0:
                continue
            for ds in itertools.product(full if n < 3 or t else few, repeat=n):
                yield 'raw', dict(zip(ps, ds))
    for ds in itertools.product(few[1:5] if not t else few, repeat=5):
        yield 'raw', dict(enumerate(ds))
    for n, dset in ((2, full), (3, few), (4, few[1:4] if not t else few)):
        for ds in itertools.product(dset, repeat=n):
            for f in ('mbox', 'excerpt', 'mh') + (('maildir',) if n == 3 else ()):
                yield f, dict(zip(range(np - n, np), ds))


def run(ctx, item):
    exe, name, t, part, nparts = item
    w = World(exe, WORLDS[name], DATES, rounds=2 if name == 'late' else 1)
    out = dict(n=0, runs=0, bad=[], seen=set(), sample=None)
    for i, (f, a) in enumerate(assignments(name, t)):
        if i % nparts != part:
            continue
        q = 's:' + '/'.join('p%dd%d' % (p, d) for p, d in sorted(a.items()))
        want = sorted(a.items())
        judge(w, out, f, q, want, ())
        if len(out['bad']) > 6:
            break
        out['sample'] = '%s %s %s' % (name, f, q)
    # the whole database, and by thread
    if part == 0:
        alls = sorted((p, d) for p in range(len(w.kinds)) for d in range(len(DATES)))
        for f in ('raw', 'mbox', 'excerpt', 'mh', 'maildir'):
            judge(w, out, f, 's:pall', alls, ())
            judge(w, out, f, 'p0d3', alls, ('-t',))
            for d in range(len(DATES)):
                judge(w, out, f, 's:~' + '/'.join(['p0d%d' % d]), [x for x in alls if x != (0, d)], ())
    w.drv.close()
    mx.cleanup()
    return out


def judge(w, out, f, q, want, opts):
    got = w.listed(f, 1, q, opts)
    uns = w.listed(f, 0, q, opts) if f == 'raw' or out['n'] % 4 == 0 else want
    out['n'] += 1
    out['runs'] += 2
    out['seen'].add(tuple(d for p, d in got)[:6])
    if sorted(got) != want:
        out['bad'].append(('%s output of %s with sort=date+ has %r, expected %r' % (f, q, got, want), dict(query=q, format=f)))
    elif sorted(uns) != want:
        out['bad'].append(('%s output of %s without sort has %r, expected %r' % (f, q, uns, want), dict(query=q, format=f)))
    elif f != 'maildir' and [d for p, d in got] != sorted(d for p, d in got):
        out['bad'].append(('%s output of %s is listed in the order %s' % (f, q, [DATES[d] for p, d in got]), dict(query=q, format=f)))


def run_big(ctx, item):
    """large result sets: n messages, every structured permutation of their dates"""
    exe, n, kind, arg = item
    import datetime
    drv = mx.Driver(exe)
    d = mx.scratch() + '/w'
    corpus.mkmaildir(d + '/md')
    rnk = list(range(n))
    if kind == 'shift':
        rnk = rnk[arg:] + rnk[:arg]
    elif kind == 'reverse':
        rnk = [x // arg for x in reversed(rnk)]
    elif kind == 'stride':
        rnk = [(x * arg) % n for x in rnk]
    base = datetime.date(1970, 1, 2)
    step = 49000 // max(rnk + [1])
    dates = [base + datetime.timedelta(days=r * step) for r in rnk]
    for i, dt in enumerate(dates):
        mx.write('%s/md/cur/%05d:2,S' % (d, i), corpus.msg(subject='zz', date='%d %s %d 01:02:03 -0500' % (dt.day, MON[dt.month - 1], dt.year), body='x'))
    rc = corpus.write_rc(d, maildir='md', mformat='raw', extra='sort=date+\n')
    drv.run(['-f', rc], timeout=60)
    r = drv.run(['-f', rc, 's:zz'], timeout=60)
    got = [int(os.path.basename(l)[:5]) for l in r.lines]
    bad = []
    if sorted(got) != list(range(n)):
        bad.append(('%d messages, %d listed' % (n, len(got)), dict(n=n, kind=kind, arg=arg)))
    elif any(dates[a] > dates[b] for a, b in zip(got, got[1:])):
        k = [j for j in range(n - 1) if dates[got[j]] > dates[got[j + 1]]][0]
        bad.append(('%d messages (%s %d): %s listed before %s' % (n, kind, arg, dates[got[k]], dates[got[k + 1]]), dict(n=n, kind=kind, arg=arg)))
    drv.close()
    mx.cleanup()
    return dict(n=1, runs=2, bad=bad, seen={tuple(got[:6])}, sample=None)


def check(ck):
    t = ck.thorough
    exe = mx.build(('plain',))['plain']
    for k in ('states', 'transitions', 'traces_validated_against_impl'):
        ck.cov[k] = 0
    orders = set()

    def take(o):
        ck.add('states', o['n'])
        ck.add('transitions', o['runs'])
        ck.add('traces_validated_against_impl', o['n'])
        orders.update(o['seen'])
        if o['sample']:
            ck.sample(o['sample'])
        for x, c in o['bad']:
            ck.violation(x, c)
    NP = 8
    for o in mx.pmap(run, [(exe, n, t, i, NP) for i in range(NP) for n in WORLDS]):
        take(o)
    big = [(exe, n, k, a) for n in ((2, 3, 7, 8, 100, 300) if not t else (2, 3, 5, 7, 8, 9, 50, 100, 300, 1000, 2000))
           for k, a in [('shift', x) for x in sorted({0, 1, n // 2, n - 1})] + [('reverse', 1), ('reverse', 3)] +
           [('stride', x) for x in (3, 7, 11, 37) if n % x]]
    for o in mx.pmap(run_big, big):
        take(o)
    ck.cov['distinct_orders'] = len(orders)
    ck.cov['exhaustive'] = True
    ck.cov['rule'] = ('state = one result set (assignment of dates to database positions) in one output form; transition = one search; the '
                      'listed order must be ascending and the set that of the unsorted search')
    ck.assumptions += ['dates are compared by day', 'messages without a usable date and dates before 1970 are not judged']


mx.main(check, 'P21', 'model_checking')
