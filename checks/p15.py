"""P15: folder definitions.  Trees of mboxes, maildirs and MH folders; every wildcard, omit pattern and folder entry up to
the bounds is put into an rc file, the tree is indexed and the messages in the database are compared with an independent
expansion of the definitions."""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import mx, corpus

FL = corpus.FROMLINE
MSG = b'Subject: hit\n\nb\n'
BOX = FL + MSG + b'\n'


# ---------------------------------------------------------------- the oracle

def glob_re(p, path):
    """regular expression for a wildcard; path: '*' does not match '/' (omit patterns)"""
    o, i = '', 0
    while i < len(p):
        c = p[i]
        if c == '*':
            if p[i:i + 2] == '**':
                o += '.*'
                i += 1
            else:
                o += '[^/]*' if path else '.*'
        elif c == '?':
            o += '.'
        elif c == '[':
            j = p.find(']', i + 2)
            body = p[i + 1:j]
            chars, k = set(), 0
            while k < len(body):
                if k + 2 < len(body) and body[k + 1] == '-':
                    chars |= {chr(x) for x in range(min(ord(body[k]), ord(body[k + 2])), max(ord(body[k]), ord(body[k + 2])) + 1)}
                    k += 3
                else:
                    chars.add(body[k])
                    k += 1
            o += '[' + ''.join(re.escape(x) for x in sorted(chars)) + ']'
            i = j
        else:
            o += re.escape(c)
        i += 1
    return re.compile(o + r'\Z', re.S)


_cache = {}


def glob(p, s, path):
    r = _cache.get((p, path))
    if r is None:
        if len(_cache) > 5000:
            _cache.clear()
        r = _cache[(p, path)] = glob_re(p, path)
    return r.match(s) is not None


def split_colons(s):
    return [x.replace('\\:', ':') for x in re.split(r'(?<!\\):', s)]


MARKERS = ['.xmhcache', '.mh_sequences', '.sylpheed_cache', '.sylpheed_mark', '.claws_cache', '.claws_mark', '.marks', '.overview',
           'cmeta', 'summary', '.mew-summary', 'index']


def is_folder(kind, p, follow):
    if kind == 'mbox':
        return os.path.isfile(p) and (follow or not os.path.islink(p))
    if kind == 'maildir':
        return all(os.path.isdir(p + '/' + x) for x in ('cur', 'new', 'tmp'))
    return os.path.isdir(p) and any(os.path.isfile(p + '/' + m) for m in MARKERS)


def walk(kind, p):
    yield p
    if os.path.isdir(p):
        mine = is_folder(kind, p, True)
        for n in os.listdir(p):
            if kind == 'maildir' and mine and n in ('cur', 'new', 'tmp'):
                continue
            if kind == 'mh' and re.match(r'[0-9]+\.?$', n):
                continue
            yield from walk(kind, p + '/' + n)


def expand(kind, base, entry, follow=False):
    """(path, name as the rc file names it) of the folders an entry selects"""
    deep = entry.endswith('...')
    if deep:
        entry = entry[:-3]
    full = entry if entry.startswith('/') else base + '/' + entry
    wild_part = full.rsplit('/', 1)[1]
    if any(c in wild_part for c in '*?['):
        par = full.rsplit('/', 1)[0]
        tops = [par + '/' + n for n in (os.listdir(par) if os.path.isdir(par) else []) if glob(wild_part, n, False)]
    else:
        while len(full) > 1 and full.endswith('/'):
            full = full[:-1]
        tops = [full]
    for t in tops:
        for p in (walk(kind, t) if deep else [t]):
            if is_folder(kind, p, follow):
                yield p, (p if entry.startswith('/') else p[len(base) + 1:])


def messages(kind, folder):
    if kind == 'mbox':
        with open(folder, 'rb') as f:
            d = f.read()
        if d.startswith(FL):
            return ['mbox:%s [%d,%d)' % (folder, len(FL), len(d))]
        return []
    if kind == 'maildir':
        return ['%s/%s/%s' % (folder, s, n) for s in ('new', 'cur') for n in os.listdir(folder + '/' + s)
                if os.path.isfile('%s/%s/%s' % (folder, s, n)) and n != '.gitignore']
    return ['%s/%s' % (folder, n) for n in os.listdir(folder)
            if re.match(r'[0-9]+\.?$', n) and os.path.isfile(folder + '/' + n)]


def expected(base, defs, omit, follow):
    """defs: list of (kind, value) lines; returns (messages, has overlap)"""
    out, over = set(), False
    pats = [x for o in omit for x in split_colons(o)]
    for kind in ('maildir', 'mh', 'mbox'):
        seen = set()
        for k, v in defs:
            if k != kind:
                continue
            for e in split_colons(v):
                for p, name in expand(kind, base, e, follow):
                    if any(glob(o, name, True) for o in pats):
                        continue
                    if p in seen:
                        over = True
                    seen.add(p)
                    out.update(messages(kind, p))
    return out, over


# ---------------------------------------------------------------- running one configuration

class Ctx:
    def __init__(self, exe, make):
        self.drv = mx.Driver(exe)
        self.d = mx.scratch()
        self.base = self.d + '/m'
        os.mkdir(self.base)
        if make:
            make(self.base)

    def close(self):
        self.drv.close()

    def index(self, defs, omit, extra=''):
        s = 'base=%s\nmfolder=%s/mf\ndatabase=%s/db\n%s' % (self.base, self.d, self.d, extra)
        for k, v in defs:
            s += '%s=%s\n' % (k, v)
        for o in omit:
            s += 'omit=%s\n' % o
        mx.write(self.d + '/rc', s)
        if os.path.exists(self.d + '/db'):
            os.unlink(self.d + '/db')
        r = self.drv.run(['-f', self.d + '/rc'])
        if r.code != 0:
            return r, None, s
        q = self.drv.run(['-f', self.d + '/rc', '-r', 's:hit'])
        return r, q.lines, s


def tidy(p):
    return re.sub('//+', '/', p)


def judge(ctx, out, defs, omit, extra='', follow=False):
    r, got, s = ctx.index(defs, omit, extra)
    exp, over = expected(ctx.base, defs, omit, follow)
    exp = {os.fsencode(tidy(x)).decode('latin1') for x in exp}
    out['n'] += 1
    out['sets'].add(hash((len(exp), tuple(sorted(x[len(ctx.base):] for x in exp)[:3]))))
    out['folders'] += len(exp)
    conf = '; '.join(s.split('\n')[3:-1])
    if over:
        if got is None and r.code is not None and r.code > 0 and not os.path.exists(ctx.d + '/db'):
            return          # overlapping definitions are refused
    if got is None:
        out['bad'].append(('%s: indexing run exits with %s %r' % (conf, r.code, r.err[-200:]), dict(rc=s)))
        return
    g = [tidy(x) for x in got]
    if set(g) != exp or len(g) != len(exp):
        n = len(ctx.base) + 1

        def short(x):
            return x.replace(ctx.base + '/', '')
        out['bad'].append(('%s: indexed although not selected %s, not indexed %s%s' % (
            conf, [short(x) for x in sorted(set(g) - exp)[:4]], [short(x) for x in sorted(exp - set(g))[:4]],
            '' if len(g) == len(set(g)) else ', some twice'), dict(rc=s)))


def new_out():
    return dict(n=0, folders=0, bad=[], sets=set())


def run(ctx, job):
    out = new_out()
    for c in job:
        judge(ctx, out, *c)
        if len(out['bad']) > 3:
            break
    return out


# ---------------------------------------------------------------- A: wildcards

def flat(base):
    os.mkdir(base + '/w')
    for n in range(1, 5):
        for c in itertools.product('ab]-' if n < 4 else 'ab', repeat=n):
            mx.write(base + '/w/' + ''.join(c), BOX)
    for x in ('A', 'c', '.a', 'a.b', 'a:b', 'a b', '[', '*', '?', 'caf\xe9', '^a'):
        mx.write((base + '/w/' + x).encode('latin1'), BOX)


def wild_cases(t, deep):
    toks = ['a', 'b', '*', '?', '[ab]', '[]a]', '[a-]', '[^-b]', ']']
    o = []
    for n in range(1, 5 if t else 4):
        for c in itertools.product(toks, repeat=n):
            o.append(''.join(c))
    for c in itertools.product(['a', '*', '?', '[ab]'], repeat=4):
        o.append(''.join(c))
    if deep:
        for n in (5, 6):
            for c in itertools.product(['a', 'b', '*', '?', '[ab]'], repeat=n):
                o.append(''.join(c))
    o = [x for x in o if not x.startswith('.')]
    return [([('mbox', 'w/' + p)], []) for p in o] + [([('mbox', 'w...')], ['w/' + p]) for p in o[::1 if t else 7]]


def class_cases(t):
    """all bracket lists up to a length, also with ']' first, '[' inside and ranges either way round"""
    o = []
    for n in range(1, 6 if t else 5):
        for c in itertools.product('acA-[]', repeat=n):
            s = ''.join(c)
            if ']' in s[1:] or re.search(r'.-.-.', s):  # ends the list; what a range from a range is, is not said
                continue
            o += ['[' + s + ']'] + (['a[' + s + ']', '*[' + s + ']b'] if n < 4 else [])
    return [([('mbox', 'w/' + p)], []) for p in o] + [([('mbox', 'w...')], ['w/' + p]) for p in o[::7]]


def names_split(n):
    out = []
    for k in range(1, n + 1):
        for c in itertools.product('a:\\', repeat=k):
            out.append(''.join(c))
    return out


def split_tree(base):
    for x in names_split(4):
        mx.write(base + '/' + x, BOX)
    mx.write(base + '/b', BOX)


def split_cases(t):
    o = []
    for s in names_split(7 if t else 6):
        if '' not in split_colons(s):
            o += [([('mbox', s)], [])]
            if len(s) < 6:
                o += [([('mbox', 'b'), ('mbox', s)], []), ([('mbox', '...')], [s]), ([('mbox', 'b:' + s + ':b')], [])]
    return o


SLASHED = ['abcdefghijklmnopqrstuvwxyz0123456789'[:n] for n in range(28, 36)]


def slashtree(base):
    for x in SLASHED:
        for n in range(1, 4):
            for c in itertools.product('ab', repeat=n):
                put('mh', base, x + '/' + '/'.join(c))


def slash_cases(t):
    """omit patterns that get beyond a machine word within names and slashes"""
    o = []
    for n in range(1, 5 if t else 4):
        for c in itertools.product(['a', 'b', '/', '*', '**'], repeat=n):
            s = ''.join(c)
            if '***' not in s and '//' not in s and s[0] != '/':
                o.append(s)
    return [([('mh', x + '/...')], [x + '/' + p]) for p in o for x in SLASHED]


LONGS = [1, 5, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 40, 61, 62, 63, 64, 65, 66, 95, 96, 97, 128, 200]


def longtree(base):
    os.mkdir(base + '/w')
    for n in LONGS:
        s = ('abcdefghijklmnopqrstuvwxyz' * 10)[:n]
        for x in (s, s + 'X', s[:-1] + 'X', 'X' + s[1:], 'X' + s, s[:n // 2] + 'X' + s[n // 2:]):
            mx.write(base + '/w/' + x, BOX)


def long_cases(t):
    o = []
    for n in LONGS:
        s = ('abcdefghijklmnopqrstuvwxyz' * 10)[:n]
        o += [s + '*', '*' + s, s[:-1] + '?', '?' + s[1:], '[a-z]' + s[1:], s[:-1] + '[a-z]', s[:n // 2] + '*' + s[n // 2:], '?' * n,
              '[X-a]' + '?' * (n - 1), s[:n // 2] + '?' + s[n // 2:], s[:n // 2] + '**' + s[n // 2 + 1:], '*' + s[n // 3:], s[:n // 2] + '*']
    return [([('mbox', 'w/' + p)], []) for p in o] + [([('mbox', 'w/*')], ['w/' + p]) for p in o] + \
        [([('mbox', 'w/*')], ['**' + p]) for p in o if not p.startswith('*')]


# ---------------------------------------------------------------- B: trees and omissions

def put(kind, base, p):
    if kind == 'mbox':
        mx.write('%s/%s/x' % (base, p), BOX)
        mx.write('%s/%s/y' % (base, p), BOX)
    elif kind == 'maildir':
        corpus.mkmaildir('%s/%s' % (base, p))
        mx.write('%s/%s/new/1' % (base, p), MSG)
        mx.write('%s/%s/cur/2:2,S' % (base, p), MSG)
    else:
        mx.write('%s/%s/.mh_sequences' % (base, p), b'')
        mx.write('%s/%s/7' % (base, p), MSG)


def tree(kind, names='ab', depth=3):
    def make(base):
        for n in range(1, depth + 1):
            for c in itertools.product(names, repeat=n):
                put(kind, base, '/'.join(c))
        if kind == 'mbox':
            mx.write(base + '/x', BOX)
    return make


def omit_cases(kind, t):
    toks = ['a', 'b', '/', '*', '**'] + (['x'] if kind == 'mbox' else [])
    o = set()
    for n in range(1, (6 if t else 5)):
        for c in itertools.product(toks, repeat=n):
            s = ''.join(c)
            if '***' not in s and '//' not in s:
                o.add(s)
    o = sorted(o)
    defs = [[(kind, '...')], [(kind, 'a...')], [(kind, '*...')], [(kind, 'a/b/...')]]
    out = [(defs[0], [p]) for p in o]
    for i, p in enumerate(o[::1 if t else 5]):
        out.append((defs[1 + i % 3], [p]))
    few = ['a', 'a/*', 'a/**', '**/b', '*/b', 'b*', '**b', 'a/a/**', 'b/*/a*', 'a/b']
    for p, q in itertools.product(few, repeat=2):
        out.append((defs[0], [p + ':' + q]))
        out.append((defs[0], [p, q]))
    return out


# ---------------------------------------------------------------- C: folder entries, alone and combined

def mixed(base):
    """folders of all kinds next to and inside each other, odd names"""
    for i, n in enumerate(['f', 'foo', 'foobar', 'fob', 'Foo', 'g', 'with space', 'co:lon', 'back\\slash', 'st*r', '.hid', '10']):
        put('maildir', base, 'md/' + n)
        put('maildir', base, 'md/' + n + '/in/' + n)
        put('mh', base, 'mh/' + n)
        put('mh', base, 'mh/' + n + '/in/' + n)
        put('mbox', base, 'mb/' + n)
        mx.write('%s/mb/%s.box' % (base, n), BOX)
        mx.write('%s/mb/%s.not' % (base, n), b'no mailbox\n')
    mx.write(base + '/mb/empty', b'')
    os.symlink('f.box', base + '/mb/link')
    os.symlink(base + '/mb/g', base + '/mb/dirlink')
    os.makedirs(base + '/none/here')
    # message files that are links to files elsewhere, dangling or to directories
    mx.write(base + '/else/1', MSG)
    for x in ('md/f/new/', 'md/g/cur/', 'mh/f/', 'mh/g/'):
        for j, to in enumerate((base + '/else/1', base + '/else/none', base + '/else', '/dev/null')):
            os.symlink(to, '%s/%s%d' % (base, x, 90 + j))
    put('maildir', base, 'deep/none/none/m')
    put('mh', base, 'deep/none/none/h')
    put('mbox', base, 'deep/none/none/b')
    put('maildir', base, 'md')


ENTRIES = ['%s', '%s/', '%s...', '%s/...', '%s/f', '%s/foo', '%s/f...', '%s/foo*', '%s/fo?', '%s/[Ff]oo', '%s/[a-f]*', '%s/*', '%s/*...', '%s/f*...',
           '%s/[,-z]*...', '%s/with space', '%s/co\\:lon', '%s/co*', '%s/back\\slash', '%s/st*r', '%s/st*r/in/*', '%s/*/in', '%s/nosuch', '%s/nosuch*',
           '%s/.hid', '%s/.*', '%s/10', '%s/?0...', '%s/*.box', '%s/f.box...', '%s/*.not', '%s/empty', '%s/l*', '%s/dirlink...', 'deep...', 'none...', '...',
           '/BASE/%s/foo', '/BASE/%s/f*...', '/BASE/deep...']


def entry_cases(t, base):
    out = []
    short = {'maildir': 'md', 'mh': 'mh', 'mbox': 'mb'}

    def e(k, x):
        x = x.replace('%s', short[k])
        return base + x[5:] if x.startswith('/BASE') else x
    for k in short:
        for x in ENTRIES:
            out.append(([(k, e(k, x))], []))
            out.append(([(k, e(k, x))], ['**foo**']))
            if k == 'mbox':
                out.append(([(k, e(k, x))], [], 'follow_mbox_symlinks\n', True))
        for x, y in itertools.combinations(ENTRIES, 2):
            out.append(([(k, e(k, x) + ':' + e(k, y))], []))
            out.append(([(k, e(k, y)), (k, e(k, x))], []))
    some = ENTRIES[::3]
    for x, y, z in itertools.product(some, repeat=3):
        if t or hash_of(x + y + z) % 6 == 0:
            out.append(([('mbox', e('mbox', x)), ('maildir', e('maildir', y)), ('mh', e('mh', z))], []))
    return out


def hash_of(s):
    import zlib
    return zlib.crc32(s.encode())


# ---------------------------------------------------------------- D: what is a folder, what is a message

def run_markers(ctx, job):
    """every subset of up to two marker files / every subset of cur,new,tmp; every short MH file name"""
    out = new_out()
    b = ctx.base
    n = 0
    for k in (0, 1, 2):
        for c in itertools.combinations(MARKERS + ['.mh_sequencesx', 'mh_sequences', '.profile'], k):
            n += 1
            p = '%s/h/%d_' % (b, n)
            os.makedirs(p)
            for m in c:
                mx.write(p + '/' + m, b'')
            mx.write(p + '/1', MSG)
            q = '%s/h/d%d_' % (b, n)
            os.makedirs(q)
            for m in c:
                os.mkdir(q + '/' + m)
            mx.write(q + '/1', MSG)
    judge(ctx, out, [('mh', 'h...')], [])
    judge(ctx, out, [('mh', 'h/*')], [])
    n = 0
    for k in range(4):
        for c in itertools.product(['', 'd', 'f', 'l'], repeat=3):
            if c.count('f') + c.count('l') > 1:
                continue
            n += 1
            p = '%s/d/%d_' % (b, n)
            if os.path.isdir(p):
                continue
            os.makedirs(p)
            os.makedirs(p + '_other')
            for x, kind in zip(('cur', 'new', 'tmp'), c):
                if kind == 'd':
                    os.mkdir(p + '/' + x)
                    mx.write(p + '/' + x + '/1', MSG)
                elif kind == 'f':
                    mx.write(p + '/' + x, MSG)
                elif kind == 'l':
                    os.symlink(p + '_other', p + '/' + x)
                    if x != 'tmp':
                        mx.write(p + '_other/2', MSG)
    judge(ctx, out, [('maildir', 'd...')], [])
    judge(ctx, out, [('maildir', 'd/*')], [])
    # MH message names
    put('mh', b, 'n')
    for k in range(1, 4):
        for c in itertools.product('01.a-', repeat=k):
            s = ''.join(c)
            if s not in ('.', '..'):
                mx.write(b + '/n/' + s, MSG)
    for s in (' 1', '1 ', '+1', '1:2,S', '12345678901234567890', '#1', ',1', '1~', '\xb2', '0x1', '1e5'):
        mx.write((b + '/n/' + s).encode('latin1'), MSG)
    os.mkdir(b + '/n/77')
    mx.write(b + '/n/77/.mh_sequences', b'')
    mx.write(b + '/n/77/1', MSG)
    judge(ctx, out, [('mh', 'n')], [])
    judge(ctx, out, [('mh', 'n...')], [])
    # maildir message names and sub-directories
    corpus.mkmaildir(b + '/q')
    for sub in ('new', 'cur', 'tmp', ''):
        for s in ('a', '.dot', '..x', '1', 'a:2,', 'a:2,FRS', 'x y', '.gitignore', 'gitignore', 'caf\xe9', '-', '~', 'a' * 200):
            mx.write((b + '/q/' + sub + '/' + s).encode('latin1'), MSG)
        if sub:
            os.mkdir(b + '/q/' + sub + '/subdir')
            mx.write(b + '/q/' + sub + '/subdir/1', MSG)
    judge(ctx, out, [('maildir', 'q')], [])
    # mbox candidates
    for i, d in enumerate([BOX, b'', b'\n', b'From', b'From \n', b'from a@bc.de Mon Jan  1 12:00:00 2001\n' + MSG, b'\n' + MSG, MSG, b'X' + BOX,
                           b'>' + BOX, b'From a@bc.de\n' + MSG]):
        mx.write(b + '/x/f%d' % i, d)
    judge(ctx, out, [('mbox', 'x/*')], [])
    judge(ctx, out, [('mbox', 'x...')], [])
    return out


def run_orders(ctx, job):
    """the entries of a directory created (and so listed) in every order: what comes first must not matter"""
    out = new_out()
    b = ctx.base
    kinds = {
        'mh': [('.mh_sequences', b''), ('7', MSG), ('a/', 0), ('9/', 0), ('notes', MSG), ('z', None)],
        'maildir': [('new/', 0), ('cur/', 0), ('tmp/', 0), ('a/', 0), ('notes', MSG), ('z', None)],
        'mbox': [('x', BOX), ('a/', 0), ('notes', b'no mailbox\n'), ('y', BOX), ('z', None)],
    }
    for kind, ents in kinds.items():
        for i, c in enumerate(itertools.permutations(ents)):
            if i % 8 != job:
                continue
            top = '%s/%s%d' % (b, kind, i)
            os.mkdir(top)
            for n, v in c:
                if n.endswith('/'):
                    os.mkdir(top + '/' + n)
                    if n in ('new/', 'cur/', 'tmp/'):
                        mx.write(top + '/' + n + '1', MSG)
                    else:
                        put(kind, top, n[:-1])
                elif v is None:
                    put(kind, top, 'z')
                else:
                    mx.write(top + '/' + n, v)
            judge(ctx, out, [(kind, '%s%d...' % (kind, i))], [])
            judge(ctx, out, [(kind, '%s%d/*...' % (kind, i))], [])
            if kind != 'mbox':
                judge(ctx, out, [(kind, '%s%d/*' % (kind, i))], [])
    return out


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def check(ck):
    t, deep = True, ck.thorough
    exe = mx.build(('plain',))['plain']
    for k in ('states', 'transitions', 'traces_validated_against_impl'):
        ck.cov[k] = 0
    sets = set()

    def phase(name, jobs, make, fn=run):
        for o in mx.pmap(fn, jobs, init=lambda: Ctx(exe, make)):
            ck.add('states', o['n'])
            ck.add('transitions', o['folders'])
            ck.add('traces_validated_against_impl', o['n'])
            ck.add(name, o['n'])
            sets.update(o['sets'])
            for w, c in o['bad']:
                ck.violation(w, c)
    w = wild_cases(t, deep)
    phase('wildcards', chunks(w, 40), flat)
    ck.sample('wildcard %s' % (w[500],))
    phase('bracket_lists', chunks(class_cases(deep), 40), flat)
    phase('colons', chunks(split_cases(deep), 60), split_tree)
    phase('long_slashed', chunks(slash_cases(deep), 40), slashtree)
    phase('long_patterns', chunks(long_cases(t), 40), longtree)
    for kind in ('mbox', 'maildir', 'mh'):
        oc = omit_cases(kind, deep)
        phase('omit_patterns', chunks(oc, 60), tree(kind))
        ck.sample('omit %s' % (oc[len(oc) // 2],))
    phase('entries', list(range(64)), mixed, lambda ctx, i: run(ctx, entry_cases(t, ctx.base)[i::64]))
    phase('shapes', [[0]], None, run_markers)
    phase('creation_orders', list(range(8)), None, run_orders)
    ck.cov['distinct_outcomes'] = len(sets)
    ck.cov['exhaustive'] = True
    ck.cov['rule'] = ('state = one rc file (all wildcards up to the token bound, all omit patterns up to the token bound on complete '
                      'binary trees of three levels, all entries and pairs of entries, pairs and triples thinned by a fixed rule in the '
                      'quick tier); transition = one message decided to be in or out')


if __name__ == '__main__':
    mx.main(check, 'P15', 'model_checking')
