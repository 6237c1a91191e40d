#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
s = open('DESIGN.md').read()
ids = sorted(os.listdir('seeded'))
s = re.sub(r'`seeded/` holds \d+ changes', '`seeded/` holds %d changes' % len(ids), s)
a = s.index('| property | change | what it breaks |')
b = s.index('\n\n## False alarms')
old = dict(re.findall(r'\| C\d\d \| (\S+) \| (.*) \|', s[a:b]))
rows = ['| property | change | what it breaks |', '|---|---|---|']
for d in ids:
    m = json.load(open(f'seeded/{d}/meta.json'))
    w = old.get(d, m['what_it_breaks'].rstrip('.').replace('|', '/'))
    rows.append((m['property'], f"| {m['property']} | {d} | {w} |"))
rows = rows[:2] + [r for _, r in sorted(rows[2:], key=lambda r: r)]
s = s[:a] + '\n'.join(rows) + s[b:]
open('DESIGN.md', 'w').write(s)
