#!/usr/bin/env python3
"""mkseed.py ID PROP 'needs' 'breaks' DEMO.rs  : records the diff of /tmp/seedwt (scratch worktree of /repo) as a planted bug,
after confirming there that it builds, passes the tests, and that the demo passes without and fails with it."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
id, prop, needs, breaks, demo = sys.argv[1:6]
W = "/tmp/seedwt"
d = f"{V}/seeded/{id}"
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", W, "diff"], capture_output=True, text=True).stdout
assert diff.strip(), "no diff"
open(d + "/patch.diff", "w").write(diff)
shutil.copy(demo, d + "/demo.rs")
shutil.copy(V + "/tools/demo_template.sh", d + "/demo.sh")
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
bad = subprocess.run(["bash", d + "/demo.sh"], cwd=W)
print("with bug rc", bad.returncode)
env = dict(os.environ)
t = subprocess.run(". /opt/vp/env.sh; CARGO_TARGET_DIR=/tmp/seedwt_target cargo test --workspace --offline --locked -- --test-threads 8 2>&1 | grep -E '^test result|FAILED|^error' | grep -v ' 0 passed'", shell=True, cwd=W, capture_output=True, text=True, executable="/bin/bash")
print(t.stdout[-600:])
subprocess.run(["git", "-C", W, "checkout", "--", "."])
good = subprocess.run(["bash", d + "/demo.sh"], cwd=W)
print("without bug rc", good.returncode)
ok = bad.returncode not in (0, 3) and good.returncode == 0 and "FAILED" not in t.stdout and "error" not in t.stdout
print("CONFIRMED" if ok else "REJECTED", id)
sys.exit(0 if ok else 1)
