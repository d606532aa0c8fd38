"""Confirm and store a planted bug. usage: plant.py DEFS.py [id...]
DEFS.py defines BUGS = {id: dict(prop, file, edits=[(old,new)...], demo=str, needs, breaks)}"""
import json, os, re, shutil, subprocess, sys, runpy
BASE = '728c648'
defs = runpy.run_path(sys.argv[1])['BUGS']
only = sys.argv[2:]
S = '/tmp/plant'
PY = '/opt/venv/bin/python'
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)
def tests():
    base = json.load(open('/opt/vp/BASELINE.json'))
    r = sh(f"cd {S} && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH={S} {PY} -m pytest -q -x -p no:cacheprovider 2>&1 | tail -15")
    return r.stdout
for bid, b in defs.items():
    if only and bid not in only:
        continue
    shutil.rmtree(S, ignore_errors=True)
    sh(f"cp -a /repo {S}")
    orig = sh(f"git -C {S} show {BASE}:{b['file']}").stdout
    path = f"{S}/{b['file']}"
    s = open(path).read()
    bad = None
    for old, new in b['edits']:
        if s.count(old) != 1:
            bad = f"text occurs {s.count(old)} times: {old!r}"
            break
        s = s.replace(old, new)
    if bad:
        print(bid, 'BAD EDIT', bad); continue
    open(path, 'w').write(s)
    diff = sh(f"git -C {S} diff").stdout
    removed = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
    notorig = [l for l in removed if l.strip() and l not in orig.splitlines()]
    d = f"/tmp/plantdemo/{bid}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(f"{d}/demo.py", 'w').write(b['demo'])
    open(f"{d}/demo.sh", 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(f"{d}/demo.sh", 0o755)
    clean = sh(f"bash {d}/demo.sh", cwd='/repo')
    broken = sh(f"bash {d}/demo.sh", cwd=S, env=dict(os.environ, PYTHONPATH=S))
    t = tests()
    ok = clean.returncode == 0 and broken.returncode != 0 and re.search(r'\d+ passed', t) and ' failed' not in t and 'error' not in t.lower()
    if notorig:
        print(bid, 'lines not in the original:', notorig)
        ok = False
    if not removed:
        print(bid, 'note: only adds lines')
    if not ok:
        print(bid, 'REJECTED', 'clean', clean.returncode, clean.stderr[-600:], 'broken', broken.returncode, broken.stderr[-300:], 'tests', t[-700:])
        continue
    out = f"/verif/seeded/{bid}"
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    for f in ('demo.py', 'demo.sh'):
        shutil.copy(f"{d}/{f}", f"{out}/{f}")
    open(f"{out}/patch.diff", 'w').write(diff)
    json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(f"{out}/meta.json", 'w'), indent=1)
    print(bid, 'KEPT', (broken.stderr.strip().splitlines() or [''])[-1][:150])
shutil.rmtree(S, ignore_errors=True); shutil.rmtree('/tmp/plantdemo', ignore_errors=True)
