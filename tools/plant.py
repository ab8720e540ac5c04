"""make a planted bug:  python3 tools/plant.py SPEC.py   (SPEC defines id, property, needs, breaks, edits=[(file, old, new)], demo)
Works on a scratch copy, writes seeded/<id>/, confirms the demo on both trees and (unless NOTEST) the stable tests."""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = {}
exec(open(sys.argv[1]).read(), SPEC)
for B in SPEC["bugs"]:
    W = f"/tmp/plant-{B['id']}"
    shutil.rmtree(W, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", W])
    subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
    for f, old, new in B["edits"]:
        s = open(f"{W}/{f}").read()
        assert s.count(old) == 1, (B["id"], f, s.count(old), old)
        open(f"{W}/{f}", "w").write(s.replace(old, new))
    d = f"{ROOT}/seeded/{B['id']}"
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(subprocess.check_output(["git", "-C", W, "diff"], text=True))
    open(f"{d}/demo.py", "w").write(B["demo"])
    open(f"{d}/demo.sh", "w").write(
        '#!/bin/bash\nexport PYTHONPATH=${SCRATCH:-/repo} MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1\n'
        'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=B["property"], needs=B["needs"], what_it_breaks=B["breaks"]), open(f"{d}/meta.json", "w"), indent=1)
    r0 = subprocess.run(["bash", f"{d}/demo.sh"], cwd="/repo", capture_output=True, text=True)
    r1 = subprocess.run(["bash", f"{d}/demo.sh"], cwd=W, capture_output=True, text=True, env=dict(os.environ, SCRATCH=W))
    print(B["id"], "demo base", r0.returncode, "patched", r1.returncode)
    if r0.returncode:
        print(r0.stderr[-1500:])
    print("   patched:", (r1.stderr.strip().splitlines() or ["?"])[-1][:200])
    ok = r0.returncode == 0 and r1.returncode != 0
    if ok and not os.environ.get("NOTEST"):
        t = open("/opt/vp/test.sh").read().replace("/repo", W)
        open(f"{W}.sh", "w").write(t)
        o = subprocess.run(["bash", f"{W}.sh", f"{W}.json"], capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=W))
        print("   tests:", o.stdout.strip().splitlines()[-1], [x for x in o.stdout.splitlines() if x.startswith(("FAILED", "ERROR"))])
    if not os.environ.get("NOCHECK"):
        o = subprocess.run(["python3", f"{ROOT}/check.py", "--property", B["property"], "--tier", "quick", "--repo", W], capture_output=True, text=True, cwd=ROOT)
        print("   check rc", o.returncode, "\n      ".join(x[:260] for x in o.stdout.splitlines()[1:6]))
    shutil.rmtree(W, ignore_errors=True)
    for x in (f"{W}.sh", f"{W}.json"):
        if os.path.exists(x):
            os.remove(x)
