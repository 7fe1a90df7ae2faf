"""Lists the planted changes that change only lines which our own commits added to /repo (those do not count)."""
import glob, re, subprocess, sys
ROOT = '2213b62'
own = set(subprocess.check_output(['git', '-C', '/repo', 'rev-list', ROOT + '..HEAD'], text=True).split())
for f in sorted(glob.glob('/verif/seeded/*/patch.diff')):
    path, original, added = None, 0, 0
    for l in open(f, newline=''):
        if l.startswith('--- a/'): path = l[6:].strip()
        m = re.match(r'@@ -(\d+)', l)
        if m: n = int(m[1]); continue
        if l.startswith('-') and not l.startswith('---'):
            b = subprocess.check_output(['git', '-C', '/repo', 'blame', '-l', '-L', f'{n},{n}', path], text=True).split()[0].lstrip('^')
            original += not any(o.startswith(b) or b.startswith(o) for o in own); added += 1; n += 1
        elif l.startswith(' '): n += 1
    if not original: print(f.split('/')[-2], 'removes', added)
