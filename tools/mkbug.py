#!/usr/bin/env python3
"""mkbug.py <id> <property> <needs> <what_it_breaks> : takes the working tree change in /tmp/wt (a worktree
of /repo's HEAD) and /tmp/demo.cpp, confirms them, and keeps them as /verif/seeded/<id>."""
import json, os, shutil, subprocess, sys
bid, prop, needs, what = sys.argv[1:5]
d = "/verif/seeded/" + bid
HERE = os.path.dirname(os.path.abspath(__file__))
diff = subprocess.check_output(["git", "-C", "/tmp/wt", "diff"], text=True)
assert diff.strip(), "no change"
os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "w").write(diff)
json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + "/meta.json", "w"), indent=1)
demo = open("/tmp/demo.cpp").read()
open(d + "/demo.cpp", "w").write(demo)
for f in ["demo.sh", "plat.h"] + (["pair.h"] if "pair.h" in demo else []):
    shutil.copy(os.path.join(HERE, "demo", f), d + "/" + f)
os.chmod(d + "/demo.sh", 0o755)
bad = subprocess.run(["bash", d + "/demo.sh"], cwd="/tmp/wt", capture_output=True, text=True)
print("with the patch: rc", bad.returncode, bad.stdout.strip()[-300:], bad.stderr.strip()[-200:])
good = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
print("without:        rc", good.returncode, good.stdout.strip()[-300:], good.stderr.strip()[-200:])
# Stable tests with the patch, in /repo, then undone.
subprocess.check_call(["git", "-C", "/repo", "apply", d + "/patch.diff"])
try:
    r = subprocess.run(["bash", "/tmp/ut.sh"], capture_output=True, text=True)
    print("tests:", r.stdout.strip()[:300])
    tests_ok = "missing set()" in r.stdout
    if "--check" in sys.argv:
        r = subprocess.run(["python3", "/verif/check.py", prop, "quick"], cwd="/verif", capture_output=True, text=True)
        print("check: rc", r.returncode, "\n".join(l for l in r.stdout.splitlines() if "VIOLATION" in l or "quick:" in l)[:400])
finally:
    subprocess.check_call(["git", "-C", "/repo", "checkout", "--", "."])
ok = bad.returncode not in (0, 9) and good.returncode == 0 and tests_ok
print("KEEP" if ok else "REJECT")
subprocess.check_call(["git", "-C", "/tmp/wt", "checkout", "--", "."])
