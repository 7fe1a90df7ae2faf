#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json. All of them are caught by the check of their property."""
import json
import pathlib
V = pathlib.Path(__file__).resolve().parent.parent
rows = []
for m in sorted(V.glob('seeded/*/meta.json')):
    d = json.loads(m.read_text())
    rows.append((d['property'], m.parent.name, d['needs'].strip().rstrip('.'), d['what_it_breaks'].strip().rstrip('.')))
text = (f'\n## 10. Planted changes\n\nAll {len(rows)} changes of `seeded/` pass the existing tests; each is caught by the quick check of its property '
        '(`tools/seedcheck.sh`).\n\n| Check that catches it | Change | Needs | Breaks |\n|---|---|---|---|\n' +
        '\n'.join('| ' + ' | '.join(x.replace('|', '/').replace('\n', ' ') for x in r) + ' |' for r in sorted(rows)) + '\n')
p = V / 'DESIGN.md'
s = p.read_text()
i = s.find('\n## 10. Planted changes')
p.write_text((s if i < 0 else s[:i]) + text)
