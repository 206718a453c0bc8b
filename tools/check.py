#!/usr/bin/env python3
"""Decides one property by seeded simulation.

  check.py run ID [quick|thorough]     explore; exit 0 held, 1 violated, 2 no answer
  check.py replay FILE                 run a replay file again, compare with what it recorded
  check.py show FILE                   the same, with the event log on stderr
  check.py determinism ID [N]          run N seeds twice in different processes and orders, compare
"""
import hashlib, json, os, queue, re, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import simbuild
from props import PROPS, RULES
VERIF = os.path.dirname(HERE)
EVID = os.path.join(VERIF, "evidence")

def say(*a):
    print(*a); sys.stdout.flush()

def do_build(ids):
    vs, gs, ks = [], [], []
    for i in ids:
        for v in PROPS[i]["variants"]:
            if v not in vs: vs.append(v)
        ks = None if not PROPS[i].get("kinds") or ks is None else ks + [k for k in PROPS[i]["kinds"] if k not in ks]
        for g in PROPS[i]["groups"]:
            if g not in gs: gs.append(g)
    try:
        exe, sos, bad = simbuild.build(vs, gs, ks)
    except simbuild.BuildFailed as e:
        say("BUILD-FAILED simulator: %s" % e); sys.exit(2)
    for v in bad: say("BUILD-FAILED variant %s is not explored: %s" % (v, bad[v]))
    if not sos: say("nothing could be built"); sys.exit(2)
    return exe, sos, bad

def libarg(sos): return ",".join("%s=%s" % kv for kv in sos.items())

# ---- known findings -------------------------------------------------------------------
def known_findings(pid):
    """lines: property=<id> class=<class> match=<regular expression on the message> :: description"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"property=(\S+) class=(\S+) match=(.*?) :: (.*)$", l.strip())
            if m and m.group(1) == pid: out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out

# ---- running --------------------------------------------------------------------------
class Res(dict):
    @property
    def key(self): return self["status"], self["cls"], self["msg"], self["hash"]

def parse_blocks(lines):
    cur = None
    for l in lines:
        l = l.rstrip("\n")
        w, _, rest = l.partition(" ")
        if w == "run":
            s, t = rest.split(); cur = Res(seed=int(s), wall=float(t), count={}, trace="")
        elif w == "skip": yield Res(seed=int(rest), status="skip", count={})
        elif cur is None: continue
        elif w == "status": cur["status"] = rest
        elif w == "class": cur["cls"] = rest
        elif w == "msg": cur["msg"] = rest
        elif w in ("hash", "sig"): cur[w] = rest
        elif w in ("steps", "simus", "choices"): cur[w] = int(rest)
        elif w == "count":
            a, b = rest.rsplit(" ", 1); cur["count"][a] = int(b)
        elif w == "trace": cur["trace"] = rest
        elif w == "end": yield cur; cur = None

def run_file(exe, sos, text, verbose=False):
    p = os.path.join(simbuild.OUT, "run-%d-%d.sim" % (os.getpid(), threading.get_ident()))
    open(p, "w").write(text)
    try:
        r = subprocess.run([exe, "run", p, libarg(sos)] + (["-v"] if verbose else []), stdout=subprocess.PIPE,
                           stderr=None if verbose else subprocess.DEVNULL, text=True, errors="replace")
    finally: os.unlink(p)
    for b in parse_blocks(["run 0 0"] + r.stdout.splitlines()): return b
    return Res(status="lost", cls="lost", msg=r.stdout[-300:], hash="0", count={}, trace="")

def gen(exe, pid, seed, tier):
    return subprocess.run([exe, "gen", pid, str(seed), str(tier)], stdout=subprocess.PIPE, text=True, check=True).stdout

class Pool:
    """workers that run disjoint arithmetic progressions of seeds"""
    def __init__(self, exe, sos, pid, tier, first, count, secs, workers, stride=None, order=1):
        self.q = queue.Queue(); self.ps = []; self.live = workers
        stride = stride or workers
        for w in range(workers):
            n = (count - w + workers - 1) // workers
            if n <= 0: self.live -= 1; continue
            p = subprocess.Popen([exe, "batch", pid, str(tier), str(first + w), str(stride), str(n), str(secs), libarg(sos)],
                                 stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", start_new_session=True)
            self.ps.append(p)
            threading.Thread(target=self.reader, args=(p,), daemon=True).start()
    def reader(self, p):
        ended = [False]
        def lines():
            for l in p.stdout:
                if l.startswith("batch-end"): ended[0] = True
                yield l
        for b in parse_blocks(lines()): self.q.put(b)
        p.wait()
        self.q.put(None if ended[0] else "died %s" % p.returncode)
    def __iter__(self):
        n = len(self.ps)
        while n:
            b = self.q.get()
            if b is None: n -= 1
            elif isinstance(b, str): n -= 1; self.died = b; yield Res(status="worker", msg=b, count={})
            else: yield b
    def stop(self):
        for p in self.ps:
            try: os.killpg(p.pid, 9)
            except OSError: pass

# ---- minimisation -----------------------------------------------------------------------
def split_spec(text):
    """list of lines; indices of removable op lines"""
    lines = [l for l in text.splitlines() if not l.startswith("trace") and not l.startswith("expect")]
    return lines, [i for i, l in enumerate(lines) if l.startswith("op ")]

def minimise(exe, sos, text, trace, cls, secs):
    t0 = time.time(); tries = 0
    def attempt(lines, tr):
        nonlocal tries
        tries += 1
        r = run_file(exe, sos, "\n".join(lines) + "\n" + ("trace %s\n" % tr if tr is not None else ""))
        return r if r["status"] == "violation" and r["cls"] == cls else None
    lines, _ = split_spec(text)
    best = attempt(lines, trace)
    if not best: return None
    def over(): return time.time() - t0 > secs
    # 1. drop operations, whole phases' tails first
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        size = max(1, len(split_spec("\n".join(lines))[1]) // 2)
        while size >= 1 and not over():
            ops = split_spec("\n".join(lines))[1]
            chunks = [ops[i:i + size] for i in range(0, len(ops), size)]
            # try all chunks of this size in parallel, keep the first that still fails
            cand = [[l for i, l in enumerate(lines) if i not in set(c)] for c in chunks]
            done = False
            for lo in range(0, len(cand), 8):
                if over(): break
                res = list(ex.map(lambda c: attempt(c, None), cand[lo:lo + 8]))
                hit = [k for k, r in enumerate(res) if r]
                if hit:
                    lines, best, done = cand[lo + hit[-1]], res[hit[-1]], True
                    break
            if not done: size //= 2
            else: size = min(size, max(1, len(split_spec("\n".join(lines))[1])))
    # 2. simplify the schedule: zero the choices in ever smaller pieces
    tr = best["trace"].split()
    r = attempt(lines, "")
    if r: tr, best = r["trace"].split(), r
    size = max(1, len(tr) // 2)
    with ThreadPoolExecutor(8) as ex:
        while tr and not over():
            cand = [tr[:i] + tr[i + size:] for i in range(0, len(tr), size)]
            done = False
            for lo in range(0, len(cand), 8):
                if over(): break
                res = list(ex.map(lambda c: attempt(lines, " ".join(c)), cand[lo:lo + 8]))
                hit = [k for k, r in enumerate(res) if r]
                if hit: tr, best, done = cand[lo + hit[0]], res[hit[0]], True; break
            if not done:
                if size == 1: break
                size //= 2
            else: size = max(1, min(size, len(tr)))
    return lines, " ".join(tr), best, tries

# ---- commands ------------------------------------------------------------------------------
def cmd_run(pid, tiername):
    t0 = time.time()
    P = PROPS[pid]
    base = int(os.environ.get("VERIF_SEED", "1"))
    tier = 1 if tiername == "thorough" else 0
    say("check %s tier %s VERIF_SEED %d" % (pid, tiername, base))
    exe, sos, bad = do_build([pid])
    tb = time.time() - t0
    first = base * 10000000 + 1
    count, secs = (3 * P["quick"], 45) if not tier else (10**9, float(os.environ.get("VERIF_BUDGET", "900")))
    if "SIM_COUNT" in os.environ: count = int(os.environ["SIM_COUNT"])
    known = known_findings(pid)
    W = simbuild.JOBS
    pool = Pool(exe, sos, pid, tier, first, count, secs, W)
    n = skipped = steps = 0; simus = 0; wall = 0.0
    cnt = {}; sigs = set(); nontriv = set(); faulty = 0; clean_runs = 0
    viol = []; knownhits = {}; bugs = []; hashes = {}; samples = []; stop_at = None; per_variant = {}
    for b in pool:
        if b["status"] == "skip": skipped += 1; continue
        if b["status"] == "worker": bugs.append(b); continue
        n += 1; steps += b.get("steps", 0); simus += b.get("simus", 0); wall += b["wall"]
        for k, v in b["count"].items(): cnt[k] = cnt.get(k, 0) + v
        if b["count"].get("reports", 0) or b["count"].get("ops", 0): nontriv.add((b["sig"], b["hash"]))
        sigs.add(b["sig"])
        if any(k.startswith(("fault.", "env.")) for k in b["count"]): faulty += 1
        else: clean_runs += 1
        if len(hashes) < 48 or b["seed"] % 97 == 0: hashes[b["seed"]] = b.key
        if b["status"] == "simbug": bugs.append(b)
        elif b["status"] in ("violation", "lost"):
            for c, rx, desc in known:
                if b["cls"] == c and rx.search(b["msg"]):
                    knownhits[desc] = knownhits.get(desc, 0) + 1; break
            else:
                viol.append(b)
                if stop_at is None: stop_at = time.time() + 2
        if len(samples) < 3 and b["count"].get("ops", 0) and b["status"] == "ok":
            samples.append({"seed": b["seed"], "steps": b["steps"], "sig": b["sig"], "hash": b["hash"], "ops": b["count"].get("ops", 0), "choices": b["choices"]})
        if stop_at and (time.time() > stop_at or len(viol) > 40): pool.stop(); break
    pool.stop()
    explore = time.time() - t0 - tb
    # determinism: run some of the seeds again, one at a time in fresh processes
    det = 0; mism = []
    if not viol:
        sample = sorted(hashes)[: (16 if not tier else 200)]
        from concurrent.futures import ThreadPoolExecutor
        def again(s): return s, run_file(exe, sos, gen(exe, pid, s, tier))
        with ThreadPoolExecutor(W) as ex:
            for s, r in ex.map(again, sample):
                det += 1
                if r.key != hashes[s]: mism.append((s, hashes[s], r.key))
    for d in known:
        if d[2] in knownhits: say("KNOWN-FINDING: property=%s %s (%d runs)" % (pid, d[2], knownhits[d[2]]))
    for d in known:
        if d[2] not in knownhits: say("KNOWN-FINDING: property=%s %s (not reached in this run)" % (pid, d[2]))
    rc = 0
    if viol: rc = report(exe, sos, pid, tier, viol, 60 if not tier else 240)
    elif bugs: say("ERROR simulator: %s" % bugs[0]["msg"], "seed", bugs[0].get("seed")); rc = 2
    elif mism: say("ERROR nondeterministic: seed %s %s / %s" % mism[0]); rc = 2
    elif n == 0: say("ERROR nothing was run"); rc = 2
    zero = [p for p in P.get("probes", []) if not cnt.get(p)]
    if zero: say("note: never reached in this run: %s" % ", ".join(zero))
    wall_s = time.time() - t0
    ev = {
        "property": pid, "tier": tiername, "seed": base, "level": P["level"], "wall_s": round(wall_s, 2), "violations": len(viol),
        "coverage": {
            "evaluations": n, "distinct_nontrivial": len(nontriv),
            "rule": RULES["rule"] + " " + P["rule"],
            "samples": samples or [{"seed": v["seed"], "class": v["cls"], "msg": v["msg"]} for v in viol[:2]],
            "runs_per_hour": int(n / max(explore, 0.01) * 3600), "seeds": "%d..%d" % (first, first + max(n + skipped - 1, 0)),
            "scheduling_steps": steps, "simulated_microseconds": simus, "interleaving_signatures": len(sigs),
            "runs_with_faults_or_environment_events": faulty, "fault_free_runs": clean_runs,
            "faults_injected": {k[6:]: v for k, v in sorted(cnt.items()) if k.startswith("fault.")},
            "environment_events": {k[4:]: v for k, v in sorted(cnt.items()) if k.startswith("env.")},
            "fault_sites_passed": {k[5:]: v for k, v in sorted(cnt.items()) if k.startswith("site.")},
            "counters": {k: v for k, v in sorted(cnt.items()) if not k.startswith(("fault.", "env.", "site."))},
            "probes_never_reached": zero, "determinism_reruns": det, "determinism_mismatches": len(mism),
            "known_finding_hits": knownhits, "variants": sorted(sos), "variants_not_built": sorted(bad), "skipped_seeds": skipped,
            "real_code": P["real"], "stubs": P["stub"],
            "build_s": round(tb, 1), "explore_s": round(explore, 1),
        },
        "assumptions": RULES["assumptions"] + P.get("assumptions", []),
    }
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    say("%s: %d runs (%d distinct), %d steps, build %.1f s, explore %.1f s, exit %d" % (pid, n, len(nontriv), steps, tb, explore, rc))
    return rc

def report(exe, sos, pid, tier, viol, secs):
    """confirm, minimise and write a replay file for the first violation that reproduces"""
    viol.sort(key=lambda b: (b["seed"]))
    classes = []
    rc = 2
    for v in viol[:12]:
        if v["cls"] in classes or len(classes) >= 3: continue
        text = gen(exe, pid, v["seed"], tier)
        again = [run_file(exe, sos, text) for _ in range(2)]
        ok = all(r["status"] == v["status"] and r["cls"] == v["cls"] for r in again)
        exact = ok and all(r.key == v.key for r in again)
        if not ok:
            say("not reproducible: seed %d %s: %s / %s" % (v["seed"], v["cls"], v["msg"][:200], again[0]["msg"][:200])); continue
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        path = os.path.join(EVID, "replay", "%s-%d.sim" % (pid, v["seed"]))
        fin = None
        if v["status"] == "violation" and exact:
            m = minimise(exe, sos, text, v["trace"], v["cls"], secs / (len(classes) + 1))
            if m:
                lines, tr, best, tries = m
                body = "\n".join(lines) + "\ntrace %s\n" % tr
                rr = [run_file(exe, sos, body) for _ in range(2)]
                if all(r["cls"] == v["cls"] and r.key == rr[0].key for r in rr): fin = (body, rr[0])
        if not fin: fin = (text + ("trace %s\n" % v["trace"] if exact and v["status"] == "violation" else ""), again[0])
        body, r = fin
        open(path, "w").write("# %s\n# %s: %s\n%sexpect %s %s\n" % (pid, r["cls"], r["msg"], body, r["cls"], r["hash"]))
        say("VIOLATION property=%s replay=%s" % (pid, path))
        say("  %s: %s" % (r["cls"], r["msg"][:600]))
        say("  seed %d, found in a run of %d steps; the replay file has %d operations and %d scheduling choices%s" %
            (v["seed"], v.get("steps", 0), body.count("\nop "), len(body.rsplit("trace ", 1)[1].split()) if "trace " in body else 0,
             "" if exact else " (reproduces the violation, not the exact event log)"))
        classes.append(v["cls"]); rc = 1
    if rc == 2: say("ERROR no violation could be reproduced")
    return rc

def cmd_replay(path, verbose):
    text = open(path).read()
    pid = re.search(r"^prop (\S+)", text, re.M).group(1)
    vs = re.findall(r"^phase (\S+)", text, re.M)
    PROPS[pid] = dict(PROPS[pid], variants=sorted(set(vs)))
    exe, sos, bad = do_build([pid])
    r = run_file(exe, sos, text, verbose)
    m = re.search(r"^expect (\S+) (\S+)", text, re.M)
    say("%s %s: %s" % (r["status"], r["cls"], r["msg"]))
    if m: say("recorded %s %s, now %s %s: %s" % (m.group(1), m.group(2), r["cls"], r["hash"], "identical" if (r["cls"], r["hash"]) == m.groups() else "DIFFERENT"))
    if r["status"] == "violation": say("VIOLATION property=%s replay=%s" % (pid, path)); return 1
    return 0 if r["status"] == "ok" else 2

def cmd_determinism(pid, n):
    exe, sos, bad = do_build([pid])
    def collect(workers, stride_first):
        d = {}
        for b in Pool(exe, sos, pid, 0, 77000001, n, 600, workers):
            if b["status"] not in ("skip", "worker"): d[b["seed"]] = b.key + (b["trace"],)
        return d
    a = collect(8, 0); b = collect(3, 0); bad = [s for s in a if a[s] != b.get(s)]
    say("%s: %d seeds run twice, %d differ" % (pid, len(a), len(bad)))
    for s in bad[:3]: say(s, a[s][:4], b.get(s, ())[:4])
    return 1 if bad or len(a) != n else 0

if __name__ == "__main__":
    c = sys.argv[1]
    if c == "run": sys.exit(cmd_run(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick")))
    if c == "replay": sys.exit(cmd_replay(sys.argv[2], False))
    if c == "show": sys.exit(cmd_replay(sys.argv[2], True))
    if c == "determinism": sys.exit(cmd_determinism(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 400))
