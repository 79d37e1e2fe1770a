"""P12: source mail is never modified, and never used as match folder.
Part 1: every path of a mail tree (folders, messages, places inside folders, outside) in many spellings x output format x
augment as match folder.  Part 2: all sequences of runs up to a depth, the whole mail tree compared after every run."""
import gzip, itertools, os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import mx, corpus, outw
from corpus import msg

FL = corpus.FROMLINE


def m(s):
    return msg(subject='all ' + s, mid='<%s@q>' % s, body='text %s\n' % s)


def mb(*s):
    return b''.join(FL + m(x) + b'\n' for x in s)


TREE = {
    'md/new/a': m('a'), 'md/cur/b:2,S': m('b'), 'md/cur/5': m('c'), 'md/tmp': None, 'md/.sub': None,
    'rec/x/new/d': m('d'), 'rec/x/cur': None, 'rec/x/tmp': None,
    'rec/x/y/new/e': m('e'), 'rec/x/y/cur': None, 'rec/x/y/tmp': None, 'rec/plain': None,
    'wc1/new/f': m('f'), 'wc1/cur': None, 'wc1/tmp': None, 'wc9/new/g': m('g'), 'wc9/cur': None, 'wc9/tmp': None,
    'mh/1': m('h'), 'mh/2': m('i'), 'mh/10.': m('j'), 'mh/.mh_sequences': b'', 'mh/sub': None, 'mh/note': b'note\n',
    'mhr/k/3': m('k'), 'mhr/k/.mh_sequences': b'', 'mhr/k/sub': None,
    'box': mb('l', 'm'), 'boxes/b1': mb('n'), 'boxes/2': mb('o'), 'boxes/b.gz': gzip.compress(mb('p'), mtime=0),
    'rbox/s/deep': mb('q'), 'mx/new/inbox': mb('r'), 'mx/cur': mb('s'), 'mx/tmp': None,
    'mk/new/4': m('t'), 'mk/new/.mh_sequences': b'',
    'mhw1/4': m('u'), 'mhw1/.mh_sequences': b'', 'mhw9/5': m('v'), 'mhw9/.mh_sequences': b'', 'boxes/b9': mb('w'),
    'out/new': None, 'out/cur': None, 'out/tmp': None, 'plain': None,
}
LINKS = {'lmd': 'md', 'lmh': 'mh', 'lbox': 'box', 'lall': '.', 'lmsg': 'md/new/a', 'lnew': 'md/new', 'lout/new': '../md/new',
         'lmhmsg': 'mh/1'}
CONF = dict(maildir='md:rec...:wc*', mh='mh:mhr...:mk/new:mhw*', mbox='box:boxes/*:rbox...:mx/new/inbox:mx/cur', omit='wc9:mhw9:boxes/b9')
FOLDERS = ['md', 'rec/x', 'rec/x/y', 'wc1', 'mh', 'mhw1', 'mhr/k', 'mk/new', 'box', 'boxes/b1', 'boxes/2', 'boxes/b.gz', 'rbox/s/deep',
           'mx/new/inbox', 'mx/cur']
MD = ['md', 'rec/x', 'rec/x/y', 'wc1']
MHF = ['mh', 'mhw1', 'mhr/k', 'mk/new']
MBF = ['box', 'boxes/b1', 'boxes/2', 'boxes/b.gz', 'rbox/s/deep', 'mx/new/inbox', 'mx/cur']
# match folders that have nothing to do with any mail and must work
FINE = {'maildir': ['out', 'fresh', 'md/vf', 'md/.sub', 'plain', 'mh/sub', 'mh/vf', 'rec/vf', 'wc9', 'boxes/vf'],
        'mh': ['fresh', 'md/vf', 'md/.sub', 'plain', 'mh/sub', 'mh/vf', 'rec/vf', 'mhr/vf', 'mhw9'],
        'mbox': ['fresh', 'md/vf', 'plain/box', 'mh/vf', 'rec/vf', 'boxfresh', 'boxes/b9']}


class W:
    def __init__(self, exe):
        self.drv = mx.Driver(exe)
        self.d = mx.scratch()
        self.b = self.d + '/m'
        self.runs = 0
        self.dirty = True
        self.rcs = {}
        self.build()

    def close(self):
        self.drv.close()
        shutil.rmtree(self.d, ignore_errors=True)

    def build(self):
        shutil.rmtree(self.b, ignore_errors=True)
        for p, v in TREE.items():
            if v is None:
                os.makedirs(self.b + '/' + p, exist_ok=True)
            else:
                mx.write(self.b + '/' + p, v)
                os.utime(self.b + '/' + p, (10 ** 9, 10 ** 9))
        for p, t in LINKS.items():
            os.makedirs(os.path.dirname(self.b + '/' + p), exist_ok=True)
            os.symlink(t, self.b + '/' + p)
        if not self.rcs:
            for f in ('maildir', 'mh', 'mbox'):
                self.rcs[f] = corpus.write_rc(self.d, base=self.b, mformat=f, mfolder='out', name='rc' + f, extra='', **CONF)
            r = self.drv.run(['-f', self.rcs['mh']])
            if r.code != 0:
                raise AssertionError('indexing failed: %r' % r)
            self.runs += 1
            n = self.drv.run(['-f', self.rcs['mh'], '-r', 's:all'])
            if len(n.lines) != 20:
                raise AssertionError('%d messages indexed, expected 20: %r' % (len(n.lines), n))
        self.base = self.snap()
        self.dirty = False

    def snap(self):
        out = {}
        for r, ds, fs in os.walk(self.b):
            s = os.lstat(r)
            out[r[len(self.b) + 1:]] = ('d', s.st_mode)
            for n in fs + [x for x in ds if os.path.islink(r + '/' + x)]:
                p = r + '/' + n
                s = os.lstat(p)
                out[p[len(self.b) + 1:]] = (s.st_ino, s.st_mode, s.st_mtime_ns, s.st_size, os.readlink(p) if os.path.islink(p)
                                            else open(p, 'rb').read())
        return out


def protected(p):
    """is this (relative) path part of the mail?"""
    for f in MD:
        if p == f or p in (f + '/new', f + '/cur') or p.startswith(f + '/new/') or p.startswith(f + '/cur/'):
            return True
    for f in MHF:
        if p == f or p.startswith(f + '/') and '/' not in p[len(f) + 1:] and p[len(f) + 1:].rstrip('.').isdigit():
            return True
    return p in MBF


def spellings(w, p):
    """(argument, cwd) forms of a relative path"""
    yield p, ''
    yield w.b + '/' + p, ''
    yield p + '/', ''
    yield w.b + '//' + p.replace('/', '//'), ''
    yield 'plain/../' + p, ''
    yield './' + p, w.b
    yield 'lall/' + p, ''
    yield w.b + '/./' + p, ''
    if '/' in p:
        a, b = p.split('/', 1)
        yield a + '/./' + b, ''
        yield a + '/../' + p, ''


def paths():
    out = set()
    for p in list(TREE) + list(LINKS):
        parts = p.split('/')
        for k in range(1, len(parts) + 1):
            out.add('/'.join(parts[:k]))
    dirs = {p for p in out if any(x.startswith(p + '/') for x in out) or TREE.get(p, 1) is None}
    for d in list(dirs) + list(LINKS):
        out.add(d + '/vf')
        out.add(d + '/77')
    out |= {'fresh', 'boxfresh', 'plain/box', '77'}
    return sorted(out)


def targets(w, job):
    _, fmt, ps = job
    out = dict(bad=[], states=0, trans=0, runs=0, sample=None)
    for p in ps:
        real = os.path.realpath(w.b + '/' + p)
        isfolder = real.startswith(w.b + '/') and real[len(w.b) + 1:] in FOLDERS
        for arg, cwd in spellings(w, p):
            for opts in ((), ('-a',)):
                if w.dirty:
                    w.build()
                r = w.drv.run(['-f', w.rcs[fmt], '-o', arg] + list(opts) + ['s:a/all'], cwd=cwd)
                w.runs += 1
                out['states'] += 1
                what = '%s match folder %r%s %s' % (fmt, arg.replace(w.b, 'BASE'), ' (in BASE)' if cwd else '', ' '.join(opts))
                for x in ('db.lock',):
                    if os.path.exists(w.d + '/' + x):
                        out['bad'].append((what + ': lock left: %r' % r, dict(case=what)))
                        os.unlink(w.d + '/' + x)
                s = w.snap()
                if s != w.base:
                    w.dirty = True
                    ch = sorted(k for k in set(s) | set(w.base) if s.get(k) != w.base.get(k))
                    hit = [k for k in ch if protected(k)]
                    if hit:
                        out['bad'].append((what + ': %s %s' % (hit[0], 'changed' if hit[0] in s and hit[0] in w.base else
                                                              'removed' if hit[0] in w.base else 'created among the messages'),
                                           dict(case=what, exit=r.code)))
                    if isfolder:
                        out['bad'].append((what + ': indexed folder, but %s was touched' % ch[0], dict(case=what)))
                if isfolder and r.code == 0 or r.code is None or r.code < 0:
                    # a path with a trailing slash to an mbox cannot be opened at all
                    out['bad'].append((what + ': exit %s' % r.code, dict(case=what)))
                if isfolder and not (arg.endswith('/') and os.path.isfile(real)) and r.code != 3:
                    out['bad'].append((what + ': not refused (exit %s)' % r.code, dict(case=what)))
                if p in FINE[fmt] and r.code != 0 and not (arg.endswith('/') and fmt == 'mbox'):
                    out['bad'].append((what + ': refused although it is no mail folder: %r' % r, dict(case=what)))
                out['trans'] += len(s)
                if len(out['bad']) > 6:
                    return out
        # the same in the rc file
        if w.dirty:
            w.build()
        rc = corpus.write_rc(w.d, base=w.b, mformat=fmt, mfolder=p, name='rcx', **CONF)
        r = w.drv.run(['-f', rc, 's:a/all'])
        s = w.snap()
        if s != w.base:
            w.dirty = True
        hit = [k for k in set(s) | set(w.base) if s.get(k) != w.base.get(k) and protected(k)]
        what = '%s match folder %s in the rc file' % (fmt, p)
        if hit:
            out['bad'].append((what + ': %s changed' % hit[0], dict(case=what)))
        if isfolder and (r.code != 3 or s != w.base):
            out['bad'].append((what + ': not refused', dict(case=what)))
        w.runs += 1
    return out


SETS = [[0, 1, 2, 3, 4, 5, 6], [0, 2, 4], [3, 5, 6], []]
OPS = [('s', f, s, o) for f in ('maildir', 'mh', 'mbox') for s in (0, 1, 2) for o in ((), ('-a',))] + \
    [('s', 'maildir', 0, ('-H',)), ('s', 'mh', 0, ('-H', '-a')), ('s', 'maildir', 2, ('-t',)), ('s', 'mh', 3, ()),
     ('s', 'maildir', 0, ('-r',)), ('s', 'mbox', 0, ('-x',)), ('s', 'maildir', 3, ())] + \
    [('i', ()), ('i', ('-p',)), ('i', ('-F', '-Q')), ('d', 0), ('d', 3), ('r', 0)]


def history(w, job):
    _, first, depth = job
    out = dict(bad=[], states=0, trans=0, runs=0, sample=None)
    for rest in itertools.product(OPS, repeat=depth - len(first)):
        seq = first + rest
        w.fresh()
        w.index()
        for k, op in enumerate(seq):
            if op[0] == 'd':
                if op[1] in w.have:
                    w.delete(op[1])
            elif op[0] == 'r':
                if op[1] in w.have:
                    w.rename(op[1], 'md/cur/a:2,S' if w.paths[op[1]] == 'md/new/a' else 'md/new/a')
            before = w.mail()
            if op[0] == 's':
                r = w.search(op[1], SETS[op[2]], *op[3])
            elif op[0] == 'i':
                r = w.index(*op[1])
            else:
                r = w.index('-p')
            out['trans'] += 1
            if r.code not in (0, 1):
                out['bad'].append(('history %s: exit %r' % (seq[:k + 1], r), dict(history=repr(seq))))
                break
            after = w.mail()
            if before != after:
                ch = sorted(x for x in set(before) | set(after) if before.get(x) != after.get(x))
                out['bad'].append(('history %s: %s was changed' % (seq[:k + 1], ch[0].replace(w.d, '')), dict(history=repr(seq))))
                break
        out['states'] += 1
        out['sample'] = repr(seq)
        if len(out['bad']) > 2:
            break
    return out


class Both:
    def __init__(self, exe):
        self.exe = exe
        self.w = {}

    def get(self, k):
        if k not in self.w:
            self.w[k] = W(self.exe) if k == 'targets' else outw.World(self.exe)
        return self.w[k]

    def close(self):
        for x in self.w.values():
            x.close()


def run(ctx, job):
    w = ctx.get(job[0])
    r0 = w.runs
    o = globals()[job[0]](w, job)
    o['runs'] = w.runs - r0
    return o


def check(ck):
    exe = mx.build(('plain',))['plain']
    ps = paths()
    js = []
    for f in ('maildir', 'mh', 'mbox'):
        js += [('targets', f, ps[i:i + 6]) for i in range(0, len(ps), 6)]
    if ck.thorough:
        js += [('history', (a, b), 4) for a in OPS for b in OPS]
    else:
        js += [('history', (a, b), 3 if a[0] == 's' and a[1] != 'mbox' else 2) for a in OPS for b in OPS]
    for k in ('states', 'transitions', 'traces_validated_against_impl'):
        ck.cov[k] = 0
    for o in mx.pmap(run, js, init=lambda: Both(exe)):
        ck.add('states', o['states'])
        ck.add('transitions', o['trans'])
        ck.add('traces_validated_against_impl', o['runs'])
        for w_, c in o['bad']:
            ck.violation(w_, c)
        if o['sample']:
            ck.sample(o['sample'])
    ck.cov['match_folder_paths'] = len(ps)
    ck.cov['exhaustive'] = True
    ck.cov['rule'] = ('state = one match folder spelling x format x option, or one history; transition = one file compared / '
                      'one step of a history; trace = one run of the real program')


mx.main(check, 'P12', 'model_checking')
