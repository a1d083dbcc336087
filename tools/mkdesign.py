#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md.

usage: mkdesign.py MC, where MC is a built explorer; the tables of planted bugs
and reverted repairs come from tools/detections.json, which holds measured
results ({"seeded": {id: caught-by}, "reverts": {commit: caught-by}})."""
import json, os, re, subprocess, sys

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mc = sys.argv[1]

def table(head, rows):
    out = ['| ' + ' | '.join(head) + ' |', '|' + '---|' * len(head)]
    return '\n'.join(out + ['| ' + ' | '.join(c.replace('|', '\\|') for c in r) + ' |' for r in rows])

def suites():
    found = {}
    for tier in ('quick', 'thorough'):
        for l in subprocess.run([mc, '-list', '-tier', tier], capture_output=True, text=True, check=True).stdout.splitlines():
            pid, name, bound, about = l.split(None, 3)
            found.setdefault((pid, name), {'about': about})[tier] = bound
    rows = [(k[0], k[1], v.get('quick', '–'), v.get('thorough', '–'), v['about']) for k, v in sorted(found.items(), key=lambda e: e[0][0])]
    own = [r for r in rows if '/' not in r[1]]
    lent = {}
    for r in rows:
        if '/' in r[1]:
            lent.setdefault(r[0], []).append(r[1])
    text = table(('id', 'suite', 'bound quick', 'bound thorough', 'what is enumerated'), own)
    text += '\n\nSuites explored again under another judgement (counts):\n\n'
    text += table(('id', 'number', 'from'), [(k, str(len(v)), ' '.join(sorted({re.search(r'C\d\d', n).group(0) for n in v if re.search(r'C\d\d', n)}))) for k, v in sorted(lent.items())])
    return text

def fixes():
    rows = []
    for e in json.load(open(root + '/known-findings.json')):
        _, pid, commit, what = e['what'].split(None, 3)
        rows.append((commit, pid.split('=')[1], what))
    return table(('commit', 'property', 'what failed'), rows)

det = json.load(open(root + '/tools/detections.json'))

def reverts():
    return table(('commit', 'reported by'), sorted(det['reverts'].items()))

def seeded():
    rows = []
    for i in sorted(os.listdir(root + '/seeded')):
        m = json.load(open('%s/seeded/%s/meta.json' % (root, i)))
        rows.append((i, m['property'], m['needs'], det['seeded'].get(i, 'not measured')))
    return table(('bug', 'property', 'needs', 'caught by'), rows)

path = root + '/DESIGN.md'
s = open(path).read()
for name, text in (('fixes', fixes()), ('reverts', reverts()), ('seeded', seeded()), ('suites', suites())):
    a, b = '<!-- begin %s -->\n' % name, '<!-- end %s -->' % name
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + text + '\n' + s[j:]
open(path, 'w').write(s)
