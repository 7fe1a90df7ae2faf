#!/usr/bin/env python3
"""usage: python3 tools/seed.py SPEC.py  -- SPEC.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]
Makes /verif/seeded/<id>/ and confirms it in a scratch copy of /repo: builds, passes the stable tests, demo 0 / nonzero."""
import json, os, pathlib, shutil, subprocess, sys
V = pathlib.Path('/verif/seeded'); R = '/tmp/seedrepo'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
DEMO = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
'''
PRE = "import sys, os; sys.path.insert(0, os.getcwd())\n"
def main():
    ns = {}; exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    base = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', []))
    for s in ns['SEEDS']:
        if only and s['id'] not in only: continue
        sh(f'rm -rf {R}; cp -a /repo {R}')
        bad = False
        for f, old, new in s['edits']:
            p = pathlib.Path(R, f); t = p.read_bytes().decode()
            if '\r\n' in t: old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if t.count(old) != 1: print(s['id'], 'edit matches', t.count(old), f); bad = True; break
            p.write_bytes(t.replace(old, new).encode())
        if bad: continue
        d = V / s['id']; d.mkdir(parents=True, exist_ok=True)
        (d / 'patch.diff').write_bytes(subprocess.run(f'git -C {R} diff', shell=True, capture_output=True).stdout)
        (d / 'demo.sh').write_text(DEMO); os.chmod(d / 'demo.sh', 0o755)
        (d / 'demo.py').write_text(PRE + s['demo'].lstrip('\n'))
        (d / 'meta.json').write_text(json.dumps({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, indent=1) + '\n')
        a = sh(f'bash {d}/demo.sh', cwd='/repo'); b = sh(f'bash {d}/demo.sh', cwd=R)
        t = sh('PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=/tmp/mplseed OMP_NUM_THREADS=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -x tests 2>&1 | tail -3', cwd=R)
        ap = sh(f'git -C /repo apply --check {d}/patch.diff')
        ok = a.returncode == 0 and b.returncode != 0 and 'failed' not in t.stdout and 'error' not in t.stdout and ap.returncode == 0
        print('OK ' if ok else 'BAD', s['id'], a.returncode, b.returncode, t.stdout.strip().splitlines()[-1:], a.stderr[-200:] if a.returncode else '', b.stderr.strip().splitlines()[-1:], flush=True)
    sh(f'rm -rf {R}')
main()
