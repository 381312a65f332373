#!/usr/bin/env python3
"""dev tool: mkbug.py SPEC.py -- SPEC defines ID, PROPERTY, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (python source).
Builds seeded/<ID>, then confirms in a scratch copy: applies, tests pass, demo 0/nonzero; and runs the check on it."""
import json, os, shutil, subprocess, sys, tempfile

V = "/verif"
ns = {}
exec(open(sys.argv[1]).read(), ns)
d = f"{V}/seeded/{ns['ID']}"
os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp(prefix="bug-")
subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
r = w + "/repo"
for f, old, new in ns["EDITS"]:
    p = f"{r}/starlette/{f}"
    t = open(p).read()
    assert t.count(old) == 1, (f, t.count(old), old)
    open(p, "w").write(t.replace(old, new))
diff = subprocess.run(["git", "-C", r, "diff"], capture_output=True, text=True).stdout
open(d + "/patch.diff", "w").write(diff)
open(d + "/demo.py", "w").write(ns["DEMO"].strip() + "\n")
open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
a = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
b = subprocess.run(["bash", d + "/demo.sh"], cwd=r, capture_output=True, text=True)
print("demo unchanged:", a.returncode, "patched:", b.returncode, (b.stderr.strip().splitlines() or [""])[-1][:150])
if a.returncode: print(a.stderr[-1500:])
t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--deselect", "tests/test_staticfiles.py::test_staticfiles_with_invalid_dir_permissions_returns_401", "-k", "not invalid_dir_permissions", "tests"], cwd=r, capture_output=True, text=True, env={**os.environ, "PYTHONPATH": r, "PYTHONDONTWRITEBYTECODE": "1"})
print("tests:", t.stdout.strip().splitlines()[-1][:200])
if t.returncode: print(t.stdout[-700:])
if os.path.exists(f"{V}/drivers/{ns['PROPERTY'].lower()}.py"):
    c = subprocess.run(["./check", ns["PROPERTY"]], cwd=V, capture_output=True, text=True, env={**os.environ, "VERIF_REPO": r})
    print("check:", c.returncode, c.stdout.strip()[:200], "|", c.stdout.strip().splitlines()[-1][:100] if c.stdout.strip() else c.stderr[-800:])
shutil.rmtree(w)
