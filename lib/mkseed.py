#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE  (development tool; no check uses it)
Reads from stdin a JSON object {old,new,needs,breaks,demo,tests, count?}; makes the patch against /repo HEAD in a scratch
copy, checks that the demo passes without and fails with it and that the named tests pass with it."""
import json, os, shutil, subprocess, sys
sid, pid = sys.argv[1:3]
d = json.load(sys.stdin) if len(sys.argv) < 4 else json.load(open(sys.argv[3]))
W = "/tmp/seedwt-" + sid
subprocess.run(["rm", "-rf", W]); subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
shutil.copytree("/repo", W, symlinks=True)
edits = d["edits"] if "edits" in d else [d]
for e in edits:
    p = os.path.join(W, "parallel_control", e["file"]); s = open(p).read()
    n = s.count(e["old"])
    assert n == e.get("count", 1), "%s: %d occurrences of %r" % (e["file"], n, e["old"])
    open(p, "w").write(s.replace(e["old"], e["new"]))
out = "/verif/seeded/" + sid
os.makedirs(out, exist_ok=True)
diff = subprocess.run(["git", "-C", W, "diff"], capture_output=True, text=True).stdout
open(out + "/patch.diff", "w").write(diff)
open(out + "/demo.py", "w").write(d["demo"])
open(out + "/demo.sh", "w").write('''#!/bin/bash
# run with cwd = the repository; exit 0 when the behaviour is right
export PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3 JAX_PLATFORMS=cpu MPLBACKEND=Agg
export PYTHONPATH="$PWD"
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
''')
os.chmod(out + "/demo.sh", 0o755)
json.dump(dict(property=pid, needs=d["needs"], what_it_breaks=d["breaks"]), open(out + "/meta.json", "w"), indent=1)
env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", CUDA_VISIBLE_DEVICES="", TF_CPP_MIN_LOG_LEVEL="3", JAX_PLATFORMS="cpu", MPLBACKEND="Agg", OMP_NUM_THREADS="2")
a = subprocess.run(["bash", out + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
b = subprocess.run(["bash", out + "/demo.sh"], cwd=W, capture_output=True, text=True)
print("demo clean rc", a.returncode, "patched rc", b.returncode, (b.stdout + b.stderr)[-300:])
if a.returncode: print(a.stdout + a.stderr)
tests = d.get("tests", [])
if tests:
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-n", "4"] + ["tests/" + t for t in tests], cwd=W, capture_output=True, text=True, env=dict(env, PYTHONPATH=W))
    print(r.stdout[-300:])
subprocess.run(["rm", "-rf", W])
ok = a.returncode == 0 and b.returncode != 0 and (not tests or r.returncode == 0)
print(sid, "OK" if ok else "BAD")
