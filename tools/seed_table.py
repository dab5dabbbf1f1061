"""Rewrites the table of planted bugs at the end of DESIGN.md.  Usage: seed_table.py RESULTS
(lines "<id> <property> rc=<n> ... <first report>" as printed while running the checks against the planted bugs)."""
import json, os, re, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(sys.argv[1]):
    m = re.match(r'(\S+) (C\d\d) rc=(\d+) (\d+)s ?(.*)', l)
    if m:
        res[m.group(1)] = m.groups()[1:]
rows = ['| id | property | needs | own check, first report |', '|---|---|---|---|']
for i in sorted(os.listdir(R + '/seeded')):
    d = json.load(open('%s/seeded/%s/meta.json' % (R, i)))
    p, rc, s, rep = res.get(i, (d['property'], '?', '', ''))
    rep = re.sub(r'VIOLATION.*', '', rep).strip().replace('|', '/')[:110]
    rows.append('| %s | %s | %s | %s |' % (i, d['property'], d['needs'].replace('|', '/'), ('caught: ' + rep) if rc == '1' else 'NOT caught' if rc == '0' else 'not run'))
t = open(R + '/DESIGN.md').read()
a = t.index('<!-- table -->') if '<!-- table -->' in t else t.index('@@TABLE@@')
open(R + '/DESIGN.md', 'w').write(t[:a] + '<!-- table -->\n' + '\n'.join(rows) + '\n')
