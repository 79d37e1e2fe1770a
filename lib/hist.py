"""Histories: sequences of folder states interleaved with indexing runs, explored exhaustively against the real
program; after every indexing run the answers are compared with those of a database built from scratch."""
import hashlib, os, shutil
import mx, corpus

KEY = '17'


class World:
    """One scratch directory; folder states are dicts path -> (bytes, mtime) or None for a directory."""

    def __init__(self, exe, rcargs, probes, extra_rc=''):
        self.drv = mx.Driver(exe)
        self.d = mx.scratch()
        self.rc = corpus.write_rc(self.d, extra=extra_rc, **rcargs)
        self.rcf = corpus.write_rc(self.d, name='rcf', db=self.d + '/dbf', extra=extra_rc, **rcargs)
        self.rco = corpus.write_rc(self.d, name='rco', mformat='mbox', mfolder='OUT', extra=extra_rc, **rcargs)
        self.rcfo = corpus.write_rc(self.d, name='rcfo', db=self.d + '/dbf', mformat='mbox', mfolder='OUTF',
                                    extra=extra_rc, **rcargs)
        self.db = self.d + '/db'
        self.dbf = self.d + '/dbf'
        self.cur = {}
        self.probes = probes
        self.fresh_cache = {}
        self.ans_cache = {}
        self.runs = 0

    def close(self):
        self.drv.close()
        shutil.rmtree(self.d, ignore_errors=True)

    # -- folder states
    def set_fs(self, want):
        cur = self.cur
        for p in list(cur):
            if p not in want:
                fp = self.d + '/' + p
                if cur[p] is None:
                    shutil.rmtree(fp, ignore_errors=True)
                else:
                    try:
                        os.unlink(fp)
                    except FileNotFoundError:
                        pass
                del cur[p]
        for p, v in want.items():
            if p in cur and cur[p] == v and os.path.exists(self.d + '/' + p):
                continue
            fp = self.d + '/' + p
            if v is None:
                os.makedirs(fp, exist_ok=True)
            else:
                os.makedirs(os.path.dirname(fp), exist_ok=True)
                with open(fp, 'wb') as f:
                    f.write(v[0])
                os.utime(fp, (v[1], v[1]))
            cur[p] = v

    # -- database
    def get_db(self):
        try:
            with open(self.db, 'rb') as f:
                return f.read()
        except FileNotFoundError:
            return None

    def set_db(self, data):
        if data is None:
            if os.path.exists(self.db):
                os.unlink(self.db)
        else:
            with open(self.db, 'wb') as f:
                f.write(data)

    def index(self, mode, fresh=False):
        a = ['-f', self.rcf if fresh else self.rc, '--force-hash-key-new-database', KEY]
        for o in mode:
            a.append({'p': '-p', 'F': '-F', 'Q': '-Q'}[o])
        self.runs += 1
        r = self.drv.run(a, timeout=20)
        if r.code != 0:
            for x in ('/db.lock', '/dbf.lock'):
                if os.path.exists(self.d + x):
                    os.unlink(self.d + x)
        return r

    def answers(self, fresh):
        out = []
        for kind, q in self.probes:
            self.runs += 1
            if kind == 'copy':
                r = self.drv.run(['-f', self.rcfo if fresh else self.rco] + q)
                f = self.d + ('/OUTF' if fresh else '/OUT')
                data = open(f, 'rb').read() if os.path.exists(f) else b''
                if os.path.exists(f):
                    os.unlink(f)
                ans = (r.code, tuple(sorted(data.split(b'From mairix@mairix'))))
            else:
                r = self.drv.run(['-f', self.rcf if fresh else self.rc] + kind.split() + q)
                if kind == '-x':
                    ans = (r.code, tuple(sorted(r.out.split(b'---------------------------------'))))
                else:
                    ans = (r.code, tuple(sorted(r.out.split(b'\n'))))
            if r.code not in (0, 1):
                for x in ('/db.lock', '/dbf.lock'):
                    if os.path.exists(self.d + x):
                        os.unlink(self.d + x)
                ans = ans + (r.err[-300:],)
            out.append(ans)
        return tuple(out)

    def fresh(self, fskey):
        """answers of a database built from scratch for the folder state in place"""
        if fskey not in self.fresh_cache:
            if os.path.exists(self.dbf):
                os.unlink(self.dbf)
            r = self.index('', fresh=True)
            if r.code != 0:
                self.fresh_cache[fskey] = ('index failed', repr(r))
            elif not os.path.exists(self.dbf):
                self.fresh_cache[fskey] = tuple((1, x) for x in self.empty_answers())
            else:
                self.fresh_cache[fskey] = self.answers(True)
        return self.fresh_cache[fskey]

    def empty_answers(self):
        return [((b'',)) for _ in self.probes]

    def current(self, dbdata, fskey):
        """answers of the database in place"""
        if dbdata is None:
            return tuple((1, x) for x in self.empty_answers())
        h = (hashlib.md5(dbdata).digest(), fskey)
        if h not in self.ans_cache:
            self.ans_cache[h] = self.answers(False)
        return self.ans_cache[h]

    def diff(self, a, b):
        out = []
        for (k, q), x, y in zip(self.probes, a, b):
            if x != y:
                sx, sy = set(x[1]), set(y[1])
                out.append('%s %s: exit %s/%s, only incremental: %s, only fresh: %s%s' % (
                    k, ' '.join(q), x[0], y[0], sorted(sx - sy)[:3], sorted(sy - sx)[:3],
                    ' stderr %r' % x[2] if len(x) > 2 else ''))
        return '; '.join(out)[:600]


class Worlds(dict):
    """per-worker worlds, kept over jobs so that answers are cached"""

    def get_world(self, key, make):
        if key not in self:
            self[key] = (make(), {})
        return self[key]

    def close(self):
        for w, _ in self.values():
            w.close()
