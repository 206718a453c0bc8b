#!/usr/bin/env python3
"""mut.py FILE: FILE defines M = [(name, file, old, new, "C01 C02")]; tries each small change in a private copy mounted over /repo."""
import os, shutil, subprocess, sys
W = "/tmp/mw"
if sys.argv[1] == "--inner":
    f, old, new, checks = sys.argv[2:6]
    p = "/repo/" + f; s = open(p).read()
    if s.count(old) < 1: print("  TEXT NOT FOUND", s.count(old)); sys.exit(0)
    open(p, "w").write(s.replace(old, new, 1))
    for c in checks.split():
        r = subprocess.run(["python3", "/verif/tools/check.py", "run", c, "quick"], env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", SIM_BUILD="/tmp/simb-seed"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "class" in l or "FAILED" in l or "error:" in l][:3]
        print("  %s exit %d %s" % (c, r.returncode, "CAUGHT" if r.returncode == 1 else "MISSED"), "|".join(x[:200] for x in v), flush=True)
    open(p, "w").write(s); sys.exit(0)
ns = {}; exec(open(sys.argv[1]).read(), ns)
subprocess.call("rm -rf %s; mkdir %s; cp -a /repo/. %s/" % (W, W, W), shell=True)
only = sys.argv[2:]
for m in ns["M"]:
    if only and m[0] not in only: continue
    print(m[0], flush=True)
    subprocess.call(["unshare", "-m", "bash", "-c", 'mount --bind %s /repo && exec python3 "$@"' % W, "x", os.path.abspath(__file__), "--inner"] + list(m[1:]))
shutil.rmtree(W)
