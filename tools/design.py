#!/usr/bin/env python3
"""writes DESIGN.md from tools/design.tmpl.md, the list of sub-checks and the planted bugs"""
import json, os, subprocess
os.chdir(os.path.dirname(os.path.abspath(__file__)) + '/..')
out = subprocess.run('. ../env.sh && go run . list', shell=True, cwd='harness', executable='/bin/bash', capture_output=True, text=True, check=True).stdout
rows, cur = [], None
for l in out.splitlines():
    if l.startswith('C'):
        cur = l.split(' ', 1); rows.append([cur[0], cur[1], []])
    else:
        n, q, th = l.split(); rows[-1][2].append(f'{n} {q}/{th}' if q != '1' else f'{n} (enumeration)')
subs = '| property | sub-checks: generated cases quick/thorough |\n|---|---|\n' + '\n'.join(f'| {r[0]} {r[1]} | {"; ".join(r[2])} |' for r in rows)
t = '| bug | property | breaks | needs | caught by |\n|---|---|---|---|---|\n'
missed = set(open('tools/missed.txt').read().split()) if os.path.exists('tools/missed.txt') else set()
for d in sorted(os.listdir('seeded')):
    m = json.load(open(f'seeded/{d}/meta.json'))
    t += f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {'missed' if d in missed else m['property'] + ' quick'} |\n"
s = open('tools/design.tmpl.md').read().replace('@@SUBS@@', subs).replace('@@SEEDED@@', t).replace('@@MISSNOTES@@', open('tools/missnotes.txt').read().strip() if os.path.exists('tools/missnotes.txt') else '')
open('DESIGN.md', 'w').write(s)
