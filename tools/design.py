#!/usr/bin/env python3
"""Renders DESIGN.md from DESIGN.in.md, the planted bugs and the fix commits."""
import json, os, glob, subprocess
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
t = open(here + '/DESIGN.in.md').read()
res = json.load(open(here + '/seedresults.json')) if os.path.exists(here + '/seedresults.json') else {}
rows = ['| change | property | needs | check |', '|---|---|---|---|']
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    rows.append(f"| {i} | {m['property']} | {m['needs'].replace('|', chr(92) + '|')} | {res.get(i, '?')} |")
t = t.replace('@@SEEDS@@', '\n'.join(rows))
n = subprocess.run(['git', '-C', '/repo', 'log', '--oneline', 'b7ea391..HEAD'], capture_output=True, text=True).stdout.count('\n')
t = t.replace('@@NFIX@@', str(n))
more = json.load(open(here + '/design_more.json')) if os.path.exists(here + '/design_more.json') else {}
for k in ('MORE', 'KNOWN', 'MISSED'):
    v = '\n'.join(more.get(k, []))
    t = t.replace('@@' + k + '@@\n', v + '\n' if v else '')
open(root + '/DESIGN.md', 'w').write(t)
