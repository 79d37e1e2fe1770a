"""Development aid: write and confirm a planted bug.  plant(id, prop, needs, breaks, edits, demo)
edits: [(file, old, new)]; confirms in a scratch copy: applies, builds, 41 tests pass, demo 0 before / nonzero after,
and runs the property's quick check against the copy."""
import json, os, shutil, subprocess, sys
W = '/tmp/plantwt'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def prep():
    if not os.path.exists(W):
        sh('cp -a /repo %s && mkdir -p /tmp/plantvp && cp -a /opt/vp/. /tmp/plantvp/ && sed -i s,/repo,%s,g,\\;s,/opt/vp,/tmp/plantvp,g '
           '/tmp/plantvp/*.sh' % (W, W))
        for f in ('build.sh', 'test.sh'):
            s = open('/opt/vp/' + f).read().replace('/repo', W).replace('/opt/vp/build', '/tmp/plantvp/build')
            open('/tmp/plantvp/' + f, 'w').write(s)
    sh('cd %s && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -qfd' % W)


def tests():
    r = sh('bash /tmp/plantvp/test.sh /tmp/plant.json')
    o = json.load(open('/tmp/plant.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))
    return r, o


def demo(bid, repo):
    try:
        r = sh('bash %s/seeded/%s/demo.sh' % (V, bid), cwd=repo, timeout=300)
    except subprocess.TimeoutExpired:
        return 'timeout', b''
    return r.returncode, r.stdout[-600:]


def confirm(bid, checks=None):
    prep()
    d = '%s/seeded/%s' % (V, bid)
    meta = json.load(open(d + '/meta.json'))
    sh('bash /tmp/plantvp/build.sh')
    a = demo(bid, W)
    r = sh('cd %s && git apply %s/patch.diff' % (W, d))
    if r.returncode:
        print(bid, 'PATCH DOES NOT APPLY', r.stdout)
        return
    r = sh('bash /tmp/plantvp/build.sh')
    if r.returncode:
        print(bid, 'BUILD FAILS', r.stdout[-800:].decode())
        return
    r, o = tests()
    b = demo(bid, W)
    ok = len(o['passed']) == 41 and not o['failed'] and a[0] == 0 and b[0] not in (0,)
    NOCHK=os.environ.get('NOCHK')
    print(bid, 'OK' if ok else 'NOT CONFIRMED', 'tests', len(o['passed']), o['failed'], 'demo clean', a if a[0] else 0,
          'demo patched', b[0], '' if ok else b[1])
    for p in [] if NOCHK else checks or [meta['property']]:
        f = '%s/checks/%s.py' % (V, p.lower())
        if os.path.exists(f):
            r = sh('MX_REPO=%s python3 %s quick' % (W, f), cwd=V)
            print('   ', p, 'exit', r.returncode, r.stdout.decode(errors='replace').strip().splitlines()[:3])
    sys.stdout.flush()


def plant(bid, prop, needs, breaks, edits, demo, checks=None):
    prep()
    d = '%s/seeded/%s' % (V, bid)
    os.makedirs(d, exist_ok=True)
    for f, old, new in edits:
        p = W + '/' + f
        s = open(p).read()
        assert s.count(old) == 1, (bid, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    r = subprocess.run(['git', 'diff'], cwd=W, stdout=subprocess.PIPE)
    open(d + '/patch.diff', 'wb').write(r.stdout)
    with open(d + '/demo.sh', 'w') as f:
        f.write(PRE + demo)
    with open(d + '/meta.json', 'w') as f:
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, f, indent=1)
        f.write('\n')
    confirm(bid, checks)


PRE = '''#!/bin/bash
# run with cwd = the repository after the build; exit 0 = property holds
export LC_ALL=C TZ=UTC
M=$PWD/mairix
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cd "$T" || exit 2
F='From a@bc.de Mon Jan  1 12:00:00 2001'
rc() { printf 'base=%s\\nmfolder=mf\\ndatabase=%s/db\\n' "$T" "$T" > rc; printf '%s\\n' "$@" >> rc; }
'''
if __name__ == '__main__':
    for b in sys.argv[1:]:
        confirm(b)
