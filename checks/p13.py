"""P13: date searches.  One database with a message for every day of 1998..2005 (and the turning points of every year
1970..2069); every spelling of the date grammar is searched under every enumerated current date, time of day and time
zone, and the messages returned are compared with the interval given by an independent reading of the manual."""
import bisect, datetime, itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import mx, corpus

D = datetime.date
ONE = datetime.timedelta(1)
MON = ['jan', 'feb', 'mar', 'apr', 'may', 'jun', 'jul', 'aug', 'sep', 'oct', 'nov', 'dec']
LONG = ['January', 'February', 'March', 'April', 'May', 'June', 'July', 'August', 'September', 'October', 'November',
        'December']
WD = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']
FL = corpus.FROMLINE
TZS = ['UTC', 'CET-1CEST,M3.5.0,M10.5.0/3', 'PST8PDT,M3.2.0,M11.1.0', 'NZST-12NZDT,M9.5.0,M4.1.0/3', 'XST+12', 'YST-14',
       'BRT3BRST,M10.3.0/0,M2.3.0/0']
OFFSET = {'UTC': 0, 'XST+12': -12, 'YST-14': 14}


# ---------------------------------------------------------------- the manual's rules

class Bad(Exception):
    """not a date expression"""


class Unspecified(Exception):
    """well-formed, but names a day that does not exist"""


def mk(y, m, d):
    try:
        return D(y, m, d)
    except ValueError:
        raise Unspecified()


def full_year(s):
    y = int(s)
    return y if len(s) > 2 else (y + 2000 if y < 70 else y + 1900)


def last(y, m):
    return (D(y + (m == 12), m % 12 + 1, 1) - ONE)


NUM = re.compile(r'(\d*)([a-zA-Z]*)(\d*)$')
SCALE = {'d': 1, 'w': 7, 'm': 30, 'y': 365}


def is_day(s):
    return re.match(r'([1-9]|[12][0-9]|3[01])$', s)


def is_year(s):
    return re.match(r'([04-9][0-9]|3[2-9]|[1-9][0-9]{3})$', s)


def resolve(e, ref, today):
    """(first day, last day) meant by e, omitted parts being such that it is on or before ref"""
    m = NUM.match(e)
    if not m:
        raise Bad()
    a, mon, b = m.groups()
    if len(mon) == 1 and a and not b:
        if mon not in SCALE:
            raise Bad()
        d = today - ONE * (int(a) * SCALE[mon])
        return d, d
    if mon == '':
        if b:
            raise Bad()
        if len(a) == 8:
            if int(a[:4]) < 1970:
                raise Unspecified()
            d = mk(int(a[:4]), int(a[4:6]), int(a[6:]))
            return d, d
        if len(a) == 6:
            d = mk(full_year(a[:2]), int(a[2:4]), int(a[4:]))
            return d, d
        if is_day(a):
            d = ref
            while d.day != int(a):
                d -= ONE
            return d, d
        if is_year(a):
            y = full_year(a)
            if not 1970 <= y < 2070:
                raise Unspecified()
            return D(y, 1, 1), D(y, 12, 31)
        raise Bad()
    if mon.lower() not in MON:
        raise Bad()
    mn = MON.index(mon.lower()) + 1
    if not a and not b:
        y = ref.year - (mn > ref.month)
        return D(y, mn, 1), last(y, mn)
    day = year = None
    if a and b:
        if is_day(a) and is_year(b):
            day, year = a, b
        elif is_year(a) and is_day(b):
            day, year = b, a
        else:
            raise Bad()
    else:
        x = a or b
        if is_day(x):
            day = x
        elif is_year(x):
            year = x
        else:
            raise Bad()
    if year is not None:
        y = full_year(year)
        if not 1970 <= y < 2070:
            raise Unspecified()
        if day is None:
            return D(y, mn, 1), last(y, mn)
        d = mk(y, mn, int(day))
        return d, d
    y = ref.year - ((mn, int(day)) > (ref.month, ref.day))
    d = mk(y, mn, int(day))
    return d, d


def interval(q, today):
    """(lo, hi): matching days d satisfy lo < d <= hi; None = unbounded"""
    if '-' not in q:
        a, b = resolve(q, today, today)
        return a - ONE, b
    s, e = q.split('-', 1)
    hi = lo = None
    if e:
        hi = resolve(e, today, today)[1]
    if s:
        lo = resolve(s, hi or today, today)[0]
    if lo and hi and lo > hi:
        lo, hi = hi, lo
    return lo, hi


# ---------------------------------------------------------------- world

def days():
    s = set()
    d = D(1998, 1, 1)
    while d < D(2006, 1, 1):
        s.add(d)
        d += ONE
    for y in range(1970, 2070):
        for m, x in ((1, 1), (1, 2), (2, 28), (3, 1), (6, 15), (12, 30), (12, 31)):
            s.add(D(y, m, x))
        if y % 4 == 0:
            s.add(D(y, 2, 29))
    return sorted(x for x in s if x > D(1970, 1, 5))


def hdr(d, form):
    mo = MON[d.month - 1].capitalize()
    wd = WD[d.weekday()]
    two = '%02d' % (d.year % 100)
    f = [
        'Date: %s, %d %s %d 10:00:00 +0000' % (wd, d.day, mo, d.year),
        'Date: %s, %02d %s %d 00:00:00 -1200' % (wd, d.day, mo, d.year),
        'Date: %d %s %d 23:59:59 +1400' % (d.day, mo, d.year),
        'DATE: %s, %d %s %s 12:34:56 GMT' % (wd, d.day, mo, two),
        'date:%s, %d %s %d 7:01 (MEST)' % (wd.upper(), d.day, mo.upper(), d.year),
        'Date: %s,\n\t%02d %s %d\n 01:00:00 +0900 (JST)' % (wd, d.day, mo.lower(), d.year),
        'Date:   %s,  %2d  %s   %d   24:00:00 +0000  ' % (wd, d.day, mo, d.year),
        'Date: %s, %d %s %d 10:00:00 +0000' % (LONG[0][:3] + 'day', d.day, LONG[d.month - 1], d.year),
        'Date: %s,%d %s %d 10:00:00 +0000' % (wd, d.day, mo, d.year),
        'Date: %d %s %s 10:00' % (d.day, mo, two),
    ]
    return f[form % len(f)] + '\n'


NFORM = 10


class Ctx:
    def __init__(self, exe):
        self.drv = mx.Driver(exe)
        self.dbs = {}

    def close(self):
        self.drv.close()

    def db(self, tz, rot):
        if (tz, rot) in self.dbs:
            return self.dbs[(tz, rot)]
        d = mx.scratch()
        ds = days()
        parts, lines, pos = [], [], 0
        for i, x in enumerate(ds):
            m = ('Subject: %s\n' % x.isoformat() + hdr(x, i + rot) + 'Date: Mon, 1 Jan 2001 00:00:00 +0000\n\nb\n').encode()
            a = pos + len(FL)
            parts.append(FL + m + b'\n')
            pos = a + len(m) + 1
            lines.append(('mbox:%s/box [%d,%d)\n' % (d, a, pos)).encode())
        mx.write(d + '/box', b''.join(parts))
        rc = corpus.write_rc(d, mbox='box')
        r = self.drv.run(['-f', rc], timeout=120, env=['TZ=' + tz], now=1053216000)
        if r.code != 0:
            raise AssertionError('indexing failed %r' % r)
        r = self.drv.run(['-f', rc, '-r', 'b:b'], timeout=60, env=['TZ=' + tz])
        if r.out != b''.join(lines):
            raise AssertionError('world not indexed as expected %r' % r)
        self.dbs[(tz, rot)] = (rc, ds, lines)
        return self.dbs[(tz, rot)]


def epoch(day, tod, tz):
    """a moment whose local date and time of day in tz is (day, tod)"""
    os.environ['TZ'] = tz
    import time
    time.tzset()
    for dst in (-1,):
        t = time.mktime((day.year, day.month, day.day, tod // 3600, tod // 60 % 60, tod % 60, 0, 0, dst))
        if time.localtime(t)[:3] == (day.year, day.month, day.day):
            return int(t)
    return None


def run(ctx, job):
    tz, rot, today, tod, queries = job
    out = dict(n=0, unspec=0, refused=0, bad=[], sets=set())
    rc, ds, lines = ctx.db(tz, rot)
    now = epoch(today, tod, tz)
    if now is None:
        return out
    for q in queries:
        err = far = False
        try:
            lo, hi = interval(q, today)
        except Unspecified:
            out['unspec'] += 1
            continue
        except Bad:
            err = True
        except OverflowError:
            far = True          # more than 2000 years back: nothing, or a refusal
            lo, hi = None, D(1, 1, 1)
        r = ctx.drv.run(['-f', rc, '-r', 'd:' + q], now=now, env=['TZ=' + tz])
        out['n'] += 1
        where = 'd:%s on %s at %02d:%02d:%02d, TZ=%s' % (q, today, tod // 3600, tod // 60 % 60, tod % 60, tz)
        case = dict(query='d:' + q, now=now, tz=tz, today=str(today))
        if far and r.code in (1, 2) and not r.out:
            continue
        if err:
            out['refused'] += 1
            if r.code in (0, 1, None) or r.code < 0 or r.out:
                out['bad'].append(('%s: not a date expression, but not refused: %r' % (where, r), case))
            continue
        i = 0 if lo is None else bisect.bisect_right(ds, lo)
        j = len(ds) if hi is None else bisect.bisect_right(ds, hi)
        exp = b''.join(lines[i:j]) if i < j else b''
        out['sets'].add((i, j) if i < j else None)
        if r.out != exp or r.code != (0 if exp else 1):
            got = [ds[lines.index(l + b'\n')].isoformat() if l + b'\n' in lines else repr(l) for l in r.out.split(b'\n')[:-1]]
            want = [x.isoformat() for x in ds[i:j]]
            extra = [x for x in got if x not in want]
            miss = [x for x in want if x not in got]
            out['bad'].append(('%s: exit %s, should select days after %s up to %s; missing %s; wrongly selected %s' % (
                where, r.code, lo, hi, miss[:3] + ['..'] * (len(miss) > 3), extra[:3] + ['..'] * (len(extra) > 3)), case))
        if len(out['bad']) > 4:
            break
    return out


# ---------------------------------------------------------------- enumeration

def spell_days(d, case=0):
    y4, y2 = '%04d' % d.year, '%02d' % (d.year % 100)
    mo = MON[d.month - 1]
    mo = (mo, mo.capitalize(), mo.upper(), mo[0] + mo[1:].upper())[case % 4]
    o = ['%04d%02d%02d' % (d.year, d.month, d.day)]
    o += [y2 + '%02d%02d' % (d.month, d.day)]
    o += ['%d%s' % (d.day, mo), '%s%d' % (mo, d.day), '%d%s%s' % (d.day, mo, y4), '%s%s%d' % (y4, mo, d.day)]
    if is_year(y2):
        o += ['%d%s%s' % (d.day, mo, y2), '%s%s%d' % (y2, mo, d.day)]
    return o


def grid():
    """every expression without '-': all days, years, months, month-days, relative offsets"""
    o = [str(i) for i in range(1, 32)]
    o += ['%02d' % i for i in range(0, 100) if not 10 <= i < 32]
    o += [str(y) for y in range(1970, 2070)]
    o += ['%d%s' % (n, c) for c in 'dwmy' for n in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 30, 31, 33, 52, 60, 99, 100, 365,
                                                    366, 400, 999)]
    o += ['%s' % m for m in MON] + [m.upper() for m in MON] + [m.capitalize() for m in MON]
    for m in MON:
        for y in ('00', '01', '02', '03', '04', '05', '09', '98', '99', '70', '69', '32', '1998', '2000', '2001', '2004', '2005',
                  '2069'):
            o += [m + y, y + m]
    return o


def daymonths():
    o = []
    d = D(2004, 1, 1)
    while d.year == 2004:
        mo = MON[d.month - 1]
        o += ['%d%s' % (d.day, mo), '%s%d' % (mo, d.day)]
        d += ONE
    return o


def fulldays():
    o = []
    for a in (D(1999, 12, 1), D(2003, 1, 1), D(2004, 2, 1), D(2000, 2, 20), D(2001, 2, 20)):
        for i in range(40):
            o += spell_days(a + ONE * i, i)
    for y in list(range(1971, 1998)) + list(range(2006, 2069)):
        o += spell_days(D(y, 1, 1), y) + spell_days(D(y, 12, 31), y)
    return o


ENDS = ['', '1', '9', '10', '17', '18', '19', '28', '29', '30', '31', '00', '03', '98', '2002', '2003', 'jan', 'feb', 'apr', 'may',
        'jun', 'oct', 'dec', '1jan', 'dec31', '28feb', '1oct', 'oct01', '17may', '18may', '19may', '31mar', '99oct', 'oct1999', '2feb04',
        '1999dec31', '030301', '20030425', '20040229', '0d', '1d', '1w', '6w', '5m', '1y', '4y', '34y']
TODAYS = [D(2003, 5, 18), D(2004, 1, 1), D(2003, 12, 31), D(2004, 2, 29), D(2004, 3, 1), D(2003, 3, 1), D(2003, 3, 30),
          D(2003, 10, 31), D(2002, 2, 28), D(2001, 7, 1), D(2000, 1, 31), D(2005, 5, 31)]


def bads():
    toks = ['0', '1', '3', '9', '31', '32', '200', '2003', '20030', 'j', 'jan', 'janu', 'xyz', 'd', 'w', 'D', 'q', '/', ' ', '.']
    o = set()
    for n in (1, 2, 3):
        for c in itertools.product(toks, repeat=n):
            s = ''.join(c)
            o.add(s)
    o |= {'1-2-3', '2003--', '--2003', '2003-x', 'x-2003', '03-jan-2003', 'd', '0', '32d-0', '1000001d', '99999999999999999999d'}
    return sorted(o)


def jobs(t):
    g, dm, fd = grid(), daymonths(), fulldays()
    rg = ['%s-%s' % (a, b) for a in ENDS for b in ENDS]

    def cut(tz, rot, today, tod, qs, n=400):
        for i in range(0, len(qs), n):
            yield (tz, rot, today, tod, qs[i:i + n])
    for i, td in enumerate(TODAYS):
        tod = (0, 43200, 86399)[i % 3]
        yield from cut('UTC', i % NFORM, td, tod, g)
        yield from cut('UTC', 0, td, tod, rg)
        if t or i < 4:
            yield from cut('UTC', 0, td, tod, dm)
    for rot in range(NFORM):
        yield from cut('UTC', rot, TODAYS[0], 1, fd if rot == 0 or t else fd[::7])
    # every current day over a leap winter (thorough: all days of two years), everything that is inferred from it
    inf = [str(i) for i in range(1, 32)] + MON + ['15-3', '3-15', 'jan-', '-dec', '30-29', '31-1m', '31-', '-30', '30-jun', '0d', '1d-',
                                                  '-1d', '2w-0d']
    d = D(2003, 1, 1) if t else D(2003, 12, 20)
    while d < (D(2005, 1, 1) if t else D(2004, 4, 5)):
        yield from cut('UTC', 0, d, (0, 86399, 1, 43200)[d.day % 4], inf)
        d += ONE
    # times of day
    rel = ['%d%s' % (n, c) for c in 'dwmy' for n in (0, 1, 2, 5)]
    rel += ['%s-%s' % (a, b) for a in rel[:9] + ['', '1', '18', 'may'] for b in rel[:9] + ['', '1', '18', 'may']]
    for tod in (0, 1, 3600, 43200, 86398, 86399) + (tuple(range(1800, 86400, 1800)) if t else ()):
        yield from cut('UTC', 0, TODAYS[0], tod, rel)
    # time zones (relative offsets only at noon: a day is 24 hours there)
    for tz in TZS[1:]:
        for i, td in enumerate(TODAYS if t else TODAYS[:4]):
            yield from cut(tz, i, td, 43200, g[:131 + 100] if t else g[:131:3] + g[231:327:5] + g[327:])
            yield from cut(tz, i, td, 43200, rg if t else rg[i::4])
            if t:
                yield from cut(tz, i, td, 43200, dm)
    b = bads()
    yield from cut('UTC', 0, TODAYS[0], 43200, b)
    if t:
        ex = g[:131] + g[231:] + fd[::9]
        rg2 = ['%s-%s' % (a, b) for a in ex[::2] for b in ENDS] + ['%s-%s' % (b, a) for a in ex[1::2] for b in ENDS]
        for td in TODAYS:
            yield from cut('UTC', 0, td, 43200, rg2)


def check(ck):
    exe = mx.build(('plain',))['plain']
    js = list(jobs(ck.thorough))
    for k in ('states', 'transitions', 'traces_validated_against_impl'):
        ck.cov[k] = 0
    sets = set()
    for o in mx.pmap(run, js, init=lambda: Ctx(exe)):
        ck.add('traces_validated_against_impl', o['n'])
        ck.add('unspecified_skipped', o['unspec'])
        ck.add('refusals', o['refused'])
        sets |= o['sets']
        for w, c in o['bad']:
            ck.violation(w, c)
    n = len(days())
    ck.cov['states'] = ck.cov['traces_validated_against_impl']
    ck.cov['transitions'] = ck.cov['traces_validated_against_impl'] * n
    ck.cov['distinct_intervals'] = len(sets)
    ck.cov['message_days'] = n
    ck.cov['exhaustive'] = True
    for j in js[:: max(1, len(js) // 5)]:
        ck.sample('%s %s %s' % (j[2], j[0], j[4][:4]))
    ck.cov['rule'] = ('state = one (expression, current date and time, zone); transition = one (state, message day) decision; '
                      'each state is one search by the real program over a message for every day of eight years and the turning '
                      'points of 1970-2069')
    ck.assumptions.append('current time is injected through time(); zones with summer time are searched at noon')


mx.main(check, 'P13', 'model_checking')
