#!/usr/bin/env python3
"""matrix.py: writes the table of planted bugs in DESIGN.md from tools/seeds/results.txt (lines of tools/seeds/run.sh)."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for line in open(ROOT + '/tools/seeds/results.txt'):
    m = re.match(r'(\S+) (P\d\d) rc=(\d+) violations=(\d+)', line)
    if m:
        caught.setdefault(m[1], {})[m[2]] = m[3] == '1' and m[4] != '0'
rows, missed = {}, []
for i in sorted(os.listdir(ROOT + '/seeded')):
    prop = json.load(open(f'{ROOT}/seeded/{i}/meta.json'))['property']
    by = [p for p, c in sorted(caught.get(i, {}).items()) if c]
    if prop not in by:
        missed.append(f'{i} ({"caught by " + ", ".join(by) if by else "not run" if i not in caught else "missed"})')
    rows.setdefault(prop, []).append((i, prop in by))
out = ['<!-- matrix -->', '', '| check | planted bugs of its property that it catches |', '|---|---|']
for p in sorted(rows):
    out.append(f'| {p} | {", ".join(i[4:] for i, c in rows[p] if c)} ({sum(c for _, c in rows[p])} of {len(rows[p])}) |')
out += ['', 'Not caught by the check of their own property: ' + ('; '.join(missed) if missed else 'none') + '.', '', '<!-- /matrix -->']
d = open(ROOT + '/DESIGN.md').read()
block = '\n'.join(out)
if '<!-- matrix -->' in d:
    d = re.sub(r'<!-- matrix -->.*<!-- /matrix -->', lambda _: block, d, flags=re.S)
else:
    d = d.rstrip('\n') + '\n\n' + block + '\n'
open(ROOT + '/DESIGN.md', 'w').write(d)
print(f'{sum(c for r in rows.values() for _, c in r)} of {sum(map(len, rows.values()))} caught; others: {missed}')
