#!/usr/bin/env python3
"""mkseed.py ID PROPERTY NEEDS BREAKS DEMO.rs [--check]: /repo's working-tree diff becomes seeded/ID, after
confirming that it builds, passes the stable tests, and that the demonstration tells it apart.  /repo is left clean."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, prop, needs, breaks, demo = sys.argv[1:6]
sh = lambda c, **k: subprocess.run(c, shell=True, text=True, capture_output=True, **k)
diff = sh("git diff", cwd="/repo").stdout
assert diff.strip(), "no diff"
d = os.path.join(V, "seeded", sid)
shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
open(d + "/patch.diff", "w").write(diff)
D = os.path.join(V, "tools", "demo")
shutil.copytree(D + "/vendor", d + "/vendor")
for f in ("Cargo.lock", "Cargo.toml.in", "demo.sh", "util.rs"): shutil.copy(os.path.join(D, f), d)
shutil.copy(D + "/.cargo/config.toml", d + "/config.toml")
shutil.copy(demo, d + "/demo.rs")
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
ok = True
try:
    t = sh("bash /tmp/rt.sh").stdout
    if "missing []" not in t: print("TESTS", t[-1500:]); ok = False
    r = sh(f"bash {d}/demo.sh", cwd="/repo")
    print("demo with patch:", r.returncode, (r.stdout + r.stderr)[-400:])
    if r.returncode in (0, 2): ok = False
    if ok and "--check" in sys.argv:
        c = sh(f"timeout 880 python3 check.py {prop}", cwd=V)
        print("check:", c.returncode, c.stdout[-700:], c.stderr[-500:])
        open(V + "/tools/seed-results.tsv", "a").write(f"{sid}\t{prop}\t{'caught' if c.returncode == 1 else 'MISSED rc=%d' % c.returncode}\n")
finally:
    sh("git checkout -- .", cwd="/repo")
r = sh(f"bash {d}/demo.sh", cwd="/repo")
print("demo clean:", r.returncode, (r.stdout + r.stderr)[-400:])
if r.returncode: ok = False
if not ok:
    shutil.move(d, "/tmp/rejected-" + sid) if not os.path.exists("/tmp/rejected-" + sid) else shutil.rmtree(d)
    print("REJECTED", sid); sys.exit(1)
print("KEPT", sid)
