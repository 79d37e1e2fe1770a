"""P01: word search exactness.  Exhaustive over all strings up to a length over an
alphabet of character classes, in every searchable part; all word queries over the
same alphabet up to a length, in every part."""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import mx, corpus
from corpus import b

FIELDS = {'to': 't', 'cc': 'c', 'from': 'f', 'subject': 's', 'body': 'b', 'html': 'b', 'mid': 'm'}
HDR = {'to': 'To', 'cc': 'Cc', 'from': 'From', 'subject': 'Subject'}
W1 = re.compile(rb'[A-Za-z0-9_]+')
W2 = re.compile(rb'[A-Za-z0-9_@.+-]+')
AGAIN = re.compile(rb'\n(X-C: 3\n)?(to|cc):', re.I)
ADDR = ('to', 'cc', 'from')


def strip_tags(s):
    # words inside tags do not count: everything from '<' up to '>' (or the end)
    return re.sub(rb'<[^>]*(>|$)', b' ', s, flags=re.S)


def oracle(field, s):
    """set of words (lower case) searchable in `field` for text s"""
    s = b(s)
    if field == 'html':
        s = strip_tags(s)
    if field == 'mid':
        return {x.lower() for x in re.findall(rb'<([^>]*)>', s)}
    if field in ('to', 'cc'):
        s = AGAIN.sub(b', ', s)     # a header that is there several times
    r = {x.lower() for x in W1.findall(s)}
    if field in ADDR:
        r |= {x.lower() for x in W2.findall(s)}
    return r


def message(field, s, style=0):
    s = b(s)
    if field in HDR:
        name = HDR[field]
        name = (name, name.upper(), name.lower())[style % 3]
        sp = (b' ', b'', b'\t')[style % 3]
        return b'X-A: 1\n' + b(name) + b':' + sp + s + b'\nX-B: 2\n\n\n'
    if field == 'body':
        return b'X-A: 1\n\n' + s + b'\n'
    if field == 'html':
        return b'X-A: 1\nContent-Type: text/html\n\n' + s + b'\n'
    return b'X-A: 1\nMessage-ID: ' + s + b'\n\n\n'


def alphabets(field, thorough):
    hdr = ['a', 'B', '7', '_', '.', '@', '-', '+', ' ', ',']
    ext = ['\xe9', '"', '\n ']
    body = ['a', 'B', '7', '_', '.', '@', '-', ' ', '\n', "'"]
    if field == 'html':
        return ['a', 'B', '9', '_', '<', '>', ' ', '\n', '.', '/']
    if field == 'mid':
        return ['a', 'B', '7', '.', '@', '<', '>', ' ', '-', '$']
    if field == 'body':
        return body
    return hdr + (ext if thorough else ext[2:])


def cases(field, thorough):
    al = alphabets(field, thorough)
    n = 4
    if thorough:
        n = 5
    for L in range(0, n + 1):
        for t in itertools.product(al, repeat=L):
            s = ''.join(t)
            if field == 'mid' and L == n and s.count('<') == 0:
                continue
            yield s
    # every byte value as a separator or word character, alone and between letters
    for c in range(1, 256):
        ch = chr(c)
        if ch in '\n\r':
            continue
        if field == 'html' and ch in '<>':
            continue
        for s in ('xy' + ch + 'zt', ch + 'qq', 'rr' + ch):
            yield s
    # word lengths
    for L in list(range(5, 70)) + [126, 127, 128, 129, 255, 256, 257, 1000, 5000]:
        yield 'w' * L + ' tail%d' % L
        yield 'Ab1' * L
    if field in HDR:
        for s in ('uno dos\n tres', 'uno dos\n\ttres', 'uno\n   dos\n   tres cuatro', 'x' * 300 + '\n ' + 'y' * 300):
            yield s
        for k in range(1, 60):
            yield ' '.join('m%dx%d' % (k, j) for j in range(k))
    if field in ('to', 'cc'):
        ends = ['ann', 'a@b.c', 'x.', '_y', '-z+', '"q" <r@s>', '', 'u,']
        for a, b_, h in itertools.product(ends, ends, (HDR[field] + ':', field + ': ', 'X-C: 3\n' + field.upper() + ':\n ')):
            yield a + '\n' + h + b_ + '1'
            yield a + ('\n' + field + ': ' + b_ + '2') * 2
    if field == 'html':
        for s in ('<a href="http://foo.bar/baz">text</a>', 'one<br>two', 'one<br/>two<br/>three', '<p>x</p><p>y</p>',
                  '<tag\nattr=1>word', 'a<b', 'a>b', '<<x>>y', 'pre<!-- comment -->post',
                  'ein<p ">zwei</p>drei', "ein<p it's>zwei</p>drei", '"ein <b>zwei</b>" drei', "it's<b>zwei</b>drei",
                  'ein<a href="x" "y>zwei</a>drei', 'ein<!>zwei', 'ein<!--x>zwei', 'ein<?xml x?>zwei', 'ein</>zwei',
                  'ein< b>zwei', 'ein<script>zwei</script>drei', 'ein<style x>zwei</style>drei', 'ein&lt;zwei&gt;drei',
                  'ein<b\n\nc\nd>zwei', 'ein<' + 'x ' * 3000 + '>zwei'):
            yield s


def usable(field, s):
    """strings for which the message means what the property says"""
    if field in HDR:
        # folding: a continuation line must not be blank, header must not be cut
        for l in s.split('\n')[1:]:
            if not l.strip(' \t\r\x0b\x0c'):
                return False
        if '=?' in s:
            return False
    if field == 'mid' and ('=?' in s):
        return False
    if field in ('body', 'html'):
        if any(l.startswith('From ') for l in s.split('\n')):
            return False
    if field == 'mid' and re.search(r'<[^>]*<', s):
        return False    # a '<' inside the angle brackets: not an id
    return True


def run_field(ctx, job):
    field, thorough, style, exe = job
    drv = mx.Driver(exe)
    d = mx.scratch()
    out = dict(field=field, msgs=0, queries=0, words=0, bad=[], outcomes=0)
    mb = corpus.Mbox()
    texts, seen = [], set()
    for s in cases(field, thorough):
        if s in seen or not usable(field, s):
            continue
        seen.add(s)
        texts.append(s)
        mb.add(message(field, s, style))
    mx.write(d + '/box', mb.data())
    rc = corpus.write_rc(d, mbox='box')
    r = drv.run(['-f', rc], timeout=300)
    if r.code != 0:
        out['bad'].append(('indexing failed: %r' % r, dict(field=field)))
        return out
    out['msgs'] = len(texts)
    want = {}
    for i, s in enumerate(texts):
        for w in oracle(field, s):
            want.setdefault(w, []).append(i)
    out['words'] = len(want)
    # queries: every word of the oracle, plus every string over the word alphabet up to length 3
    al = [b'a', b'b', b'7', b'_', b'.', b'@', b'-', b'+', b'9'] if field != 'mid' else \
        [b'a', b'b', b'7', b'.', b'@', b'-', b'$']
    qs = set(want)
    for L in range(1, 4):
        for t in itertools.product(al, repeat=L):
            qs.add(b''.join(t))
    letter = FIELDS[field]
    outcomes = set()

    def ask(prefix, w):
        r = drv.run(['-f', rc, '-r', prefix + b':' + w], timeout=60)
        out['queries'] += 1
        if r.code not in (0, 1):
            return r
        return corpus.raw_ids(r, mb.index)

    for w in sorted(qs):
        if not w or w[:1] in b'~^' or b'/' in w or b',' in w or b'=' in w:
            if field != 'mid' or not w:
                continue
        got = ask(b(letter), w)
        exp = want.get(w, [])
        outcomes.add(tuple(exp[:3]))
        if got != exp:
            bad = []
            if isinstance(got, list):
                diff = set(map(str, got)) ^ set(map(str, exp))
                bad = [repr(texts[int(x)]) for x in sorted(diff)[:3] if x.isdigit()]
            out['bad'].append(('%s:%s gives %s, expected %s; differing texts %s' % (
                letter, w.decode('latin1'), str(got)[:120], str(exp)[:120], bad),
                dict(field=field, word=w.decode('latin1'), texts=bad)))
            if len(out['bad']) > 5:
                break
        # letter case of the query is irrelevant
        if exp and w != w.upper():
            got = ask(b(letter), w.upper())
            if got != exp:
                out['bad'].append(('%s:%s (upper case) gives %s, expected %s' % (
                    letter, w.upper().decode('latin1'), str(got)[:100], str(exp)[:100]), dict(field=field)))
    # no word of this part is found in another part
    other = ''.join(sorted({'t', 'c', 'f', 's', 'b'} - {letter}))
    for w in sorted(want)[::max(1, len(want) // 400)]:
        if b'/' in w or b',' in w or not w or b'=' in w or w[:1] in b'~^':
            continue
        for o in ((other,) if field == 'mid' else (other, 'm')):
            got = ask(b(o), w)
            exp = []
            if field in ('mid',):
                exp = []
            if got != exp:
                out['bad'].append(('%s:%s finds %s although the word only occurs in %s' % (
                    o, w.decode('latin1'), str(got)[:100], field), dict(field=field, word=w.decode('latin1'))))
                break
    out['outcomes'] = len(outcomes)
    out['sample'] = 'field=%s text=%r words=%r' % (field, texts[min(len(texts) - 1, 777)],
                                                   sorted(oracle(field, texts[min(len(texts) - 1, 777)])))
    drv.close()
    return out


def check(ck):
    exe = mx.build(('plain',))['plain']
    jobs = []
    for field in FIELDS:
        for style in ((0, 1) if field in HDR else (0,)):
            jobs.append((field, ck.thorough, style, exe))
    jobs.sort(key=lambda j: j[0] == 'mid')
    ck.cov['states'] = 0
    ck.cov['transitions'] = 0
    ck.cov['traces_validated_against_impl'] = 0
    ck.cov['distinct_outcomes'] = 0
    ck.cov['words'] = 0
    for o in mx.pmap(run_field, jobs):
        ck.add('states', o['msgs'])
        ck.add('transitions', o['queries'] * o['msgs'])
        ck.add('traces_validated_against_impl', o['queries'])
        ck.add('distinct_outcomes', o['outcomes'])
        ck.add('words', o['words'])
        for w, c in o['bad']:
            ck.violation(w, c)
        if 'sample' in o:
            ck.sample(o['sample'], 8)
    ck.cov['exhaustive'] = True
    ck.cov['rule'] = ('state = one message text (all strings over the class alphabet up to length %d, all single byte '
                      'values, lengths); transition = one (message, query) pair decided by the model; each query is one run of the real program whose whole answer is compared'
                      % (5 if ck.thorough else 4))
    ck.assumptions += ['C locale', 'messages carried in an mbox']


mx.main(check, 'P01', 'model_checking')
