#!/usr/bin/env python3
"""seedtry.py ID [check...] [--nocheck]: tries a planted bug in a private copy mounted over /repo (never touches the real tree)."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid = sys.argv[1]
if len(sys.argv) > 2 and sys.argv[2] == "--inner":
    checks = sys.argv[3:]
    d = os.path.join(V, "seeded", sid)
    def sh(c, quiet=True, t=900):
        r = subprocess.run(c, shell=True, cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
        if not quiet or r.returncode: print(r.stdout[-1500:])
        return r.returncode, r.stdout
    demo = "rm -rf /tmp/demo-%s; cp -r %s /tmp/demo-%s; rm -f /tmp/demo-%s/*.diff; cd /repo; timeout 300 bash /tmp/demo-%s/demo.sh; r=$?; rm -rf /tmp/demo-%s; exit $r" % (sid, d, sid, sid, sid, sid)
    r0, o = sh(demo); print("demo on unchanged tree:", r0)
    if sh("git apply %s/patch.diff" % d)[0]: sys.exit("patch does not apply")
    if sh("bash /opt/vp/build.sh >/tmp/b-%s.log 2>&1" % sid)[0]: print("BUILD FAILS"); sh("tail -20 /tmp/b-%s.log" % sid, False); sys.exit(1)
    sh("bash /opt/vp/test.sh /tmp/t-%s.json >/dev/null 2>&1" % sid)
    base = json.load(open("/opt/vp/BASELINE.json")); t = json.load(open("/tmp/t-%s.json" % sid))
    stable = base.get("stable") or base.get("passed") or base.get("tests")
    passed = set(t.get("passed", []))
    miss = [x for x in stable if x not in passed]
    print("stable tests failing with the patch:", miss)
    r1, o = sh(demo, t=400); print("demo with the patch:", r1, "-> %s" % o.strip()[-200:])
    print("SEED", sid, "counts" if r0 == 0 and r1 and not miss else "DOES NOT COUNT")
    for c in checks:
        env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", SIM_BUILD="/tmp/simb-seed")
        r = subprocess.run(["python3", V + "/tools/check.py", "run", c, "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print("check %s exit %d: %s" % (c, r.returncode, "CAUGHT" if r.returncode == 1 else "missed"))
        print("\n".join(l[:300] for l in r.stdout.splitlines() if not l.startswith("note")))
    sys.exit(0)
w = "/tmp/wt-" + sid
shutil.rmtree(w, ignore_errors=True)
subprocess.check_call(["cp", "-a", "/repo", w])
meta = json.load(open(os.path.join(V, "seeded", sid, "meta.json")))
checks = [c for c in sys.argv[2:] if not c.startswith("--")] or [meta["property"]]
if "--nocheck" in sys.argv: checks = []
try:
    subprocess.call(["unshare", "-m", "bash", "-c", "mount --bind %s /repo && exec python3 %s %s --inner %s" % (w, os.path.abspath(__file__), sid, " ".join(checks))])
finally:
    shutil.rmtree(w, ignore_errors=True)
