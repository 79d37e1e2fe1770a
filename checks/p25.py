"""P25: a search or dump that reports success has delivered.
The real program runs under lib/mxtrace.c; every system call of a run that touches the match folder or standard output is a
fault point: it fails with each of a set of errors, or transfers only part of its data.  If the run nevertheless exits with
success, the match folder (or the output) has to be exactly what an undisturbed run leaves."""
import os, shutil, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import mx, corpus, outw

ALL = list(range(outw.N))
ERRS = ('28', '5', '13')        # no space, I/O error, no permission


class W(outw.World):
    def __init__(self, tools):
        self.tools = tools
        super().__init__(tools['plain'])

    def clean(self):
        for x in os.listdir(self.d):
            if x.startswith('out'):
                p = self.d + '/' + x
                shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)

    def trace(self, args, *a):
        self.runs += 1
        cmd = [self.tools['mxtrace'], '-w', self.d + '/out', '-o', self.d + '/outstd'] + list(a) + ['--', self.tools['binary']] + args
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=self.d,
                           env={'PATH': '/usr/bin:/bin', 'HOME': '/nonexistent', 'TZ': 'UTC', 'LC_ALL': 'C'})
        ev, code, hang = [], None, False
        for l in p.stdout.decode('latin1').splitlines():
            f = l.split(' ')
            if f[0] == 'E':
                ev.append((f[3], ' '.join(f[5:]).replace(self.d, '')))
            elif f[0] == 'X':
                s = int(f[2])
                code = -os.WTERMSIG(s) if os.WIFSIGNALED(s) else os.WEXITSTATUS(s)
            elif f[0] == 'Z':
                hang = True
        if p.returncode not in (0, 4):
            raise mx.CheckError('mxtrace: %r %r' % (p.returncode, p.stderr[-300:]))
        return ev, code, hang, open(self.d + '/outstd.0.out', 'rb').read(), open(self.d + '/outstd.0.err', 'rb').read()


# what the match folder holds before: nothing at all, results of an earlier search, the same results
BEFORE = {'absent': None, 'empty': [], 'some': [0, 3, 5], 'all': ALL}


def scenario(w, fmt, before, args, ids):
    w.clean()
    if BEFORE[before] is not None:
        w.search(fmt, BEFORE[before])
    return ['-f', w.rcs[fmt]] + list(args) + (['s:' + '/'.join('m%d' % i for i in ids)] if ids else ['s:nothing'])


def complete(w, fmt, args, before, ids, code, out, ref):
    """complaint about a run that should have delivered"""
    if fmt == 'stdout':
        return None if out == ref else 'the output is not complete'
    return outw.judge(w, fmt, before, ids, '-a' in args)


def job(w, j):
    fmt, before, args, ids, part, parts = j
    f = 'maildir' if fmt == 'stdout' else fmt
    if not os.path.exists(w.d + '/db'):
        w.fresh()
        if w.index().code != 0:
            raise AssertionError('indexing failed')
    out = dict(bad=[], points=0, runs=0)
    r0 = w.runs
    mail = w.mail()
    argv = scenario(w, f, before, args, ids) if args != ('-d',) else ['-f', w.rcs['maildir'], '-d']
    ref = w.trace(argv)
    want = 0 if ids else 1
    db = open(w.d + '/db', 'rb').read()
    name = '%s search %s for %s into %s folder' % (fmt, ' '.join(args), ids, before)
    if ref[1] != want:
        out['bad'].append((name + ': exit %s undisturbed: %r' % (ref[1], ref[4][-200:]), {}))
        return out
    for e, (call, path) in enumerate(ref[0]):
        if path.endswith('.0.err') or e % parts != part:
            continue
        for err in ERRS + (('short',) if 'write' in call else ()):
            scenario(w, f, before, args, ids)
            b = w.view(f)
            ev, code, hang, o, er = w.trace(argv, '-e', '0,%d,%s' % (e, err))
            out['points'] += 1
            what = '%s, error %s at event %d (%s %s)' % (name, err, e, call, path)
            case = dict(args=args, ids=ids, before=before, fmt=fmt, event=e, call=call, path=path, errno=err)
            why = None
            if hang or code is None:
                why = 'hangs'
            elif code < 0:
                why = 'dies of signal %d' % -code
            elif code == want:
                why = complete(w, f if fmt != 'stdout' else fmt, args, b, ids, code, o, ref[3])
                if why:
                    why = 'exit %d although %s' % (code, why)
            elif code in (0, 1) and want != code and not er.strip():
                why = 'exit %d without a message' % code
            elif not er.strip():
                why = 'exit %d without a message' % code
            if not why and os.path.exists(w.d + '/db.lock'):
                why = 'the lock is left'
            if not why and open(w.d + '/db', 'rb').read() != db:
                why = 'the database is changed'
            if not why and '-H' not in args and w.mail() != mail:
                why = 'the mail is changed'
            if why:
                out['bad'].append((what + ': ' + why, case))
                if os.path.exists(w.d + '/db.lock'):
                    os.unlink(w.d + '/db.lock')
                if len(out['bad']) > (200 if os.environ.get('MX_ALL') else 3):
                    out['runs'] = w.runs - r0
                    return out
    out['runs'] = w.runs - r0
    return out


def check(ck):
    tools = mx.build(('plain',))
    js = []
    sets = [ALL, [3], []] if not ck.thorough else [ALL, [0, 1], [3], [4, 5], [6], [2, 3], []]
    n = 6
    for fmt in ('maildir', 'mh', 'mbox'):
        for before in BEFORE:
            for args in ((), ('-a',), ('-H',), ('-H', '-a')):
                if fmt == 'mbox' and '-H' in args:
                    continue
                for ids in sets:
                    js += [(fmt, before, args, ids, k, n) for k in range(n)]
    for args in (('-r',), ('-x',), ('-r', '-t'), ('-d',)):
        for ids in sets if args != ('-d',) else [ALL]:
            js += [('stdout', 'absent', args, ids, k, n) for k in range(n)]
    for k in ('states', 'transitions', 'traces_validated_against_impl'):
        ck.cov[k] = 0
    for o in mx.pmap(job, js, init=lambda: W(tools)):
        ck.add('states', 1)
        ck.add('transitions', o['points'])
        ck.add('traces_validated_against_impl', o['runs'])
        for w_, c in o['bad']:
            ck.violation(w_, c)
    ck.sample('maildir search for %s with no space at the first write' % ALL)
    ck.cov['exhaustive'] = True
    ck.cov['rule'] = ('state = one scenario (format, former contents, options, matches) and share of its events; transition = one run '
                      'with one system call on the match folder or standard output failing in one way; trace = one run of the real '
                      'program under the tracer')
    ck.assumptions.append('one fault per run; reading the mail itself does not fail')


mx.main(check, 'P25', 'model_checking')
