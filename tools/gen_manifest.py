"""Regenerates MANIFEST.json from the table below and properties.jsonl."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
CHECKS = {}   # id -> (level, technique, note)


def c(pid, level, technique, note):
    CHECKS[pid] = (level, technique, note)


NOT_BUILT = {}
exec(open(os.path.join(ROOT, 'tools', 'checks_table.py')).read())
out = {'version': 1,
       'setup_cmd': 'python3 tools/setup.py',
       'checks': [], 'not_applicable': [],
       'notes': 'Every check builds mairix from /repo\'s working tree into /verif/.build (ignored by git) and explores '
                'the real program; no hooks in /repo are needed.'}
for p in props:
    i = p['id']
    if i in CHECKS:
        lv, te, no = CHECKS[i]
        out['checks'].append({'property': i, 'quick_cmd': 'python3 checks/%s.py quick' % i.lower(),
                              'thorough_cmd': 'python3 checks/%s.py thorough' % i.lower(),
                              'evidence_file': 'evidence/%s.json' % i,
                              'technique': te, 'level': lv, 'level_note': no})
    else:
        out['not_applicable'].append({'property': i, 'reason': NOT_BUILT.get(i, 'no check built yet')})
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
