#!/usr/bin/env python3
"""Builds the simulator host and the node libraries from /repo's working tree.

Library variants are named after what configure would have been given.  Objects
are cached by a hash of everything they can depend on, so an unchanged tree is
not compiled twice; any change under /repo/include or /repo/lib is."""
import hashlib, os, subprocess, sys, concurrent.futures, shutil

REPO = os.environ.get("SIM_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = os.path.join(VERIF, "sim")
OUT = os.environ.get("SIM_BUILD", os.path.join(VERIF, ".build"))
JOBS = int(os.environ.get("SIM_JOBS", "8"))

BASE = "map subset random layout io byteorder util stdio profile strnlen crc32 stopwatch rannyu default_allocator generic_threadbind".split()
XML = "xmlio iogauge qdpio qio_strings map_obj_disk".split()
KINDS = "I B R D C V M S F H P CD".split()
KINDS2 = "FD MD HD VD".split()       # only where asked for
LAYOUTS = {"cb2": "CB2", "lex": "LEXICO", "cb3d": "CB3D", "cb32": "CB32"}

def parse(variant):
    """ps-cb2, sc-lex-sse, ps-cb2-omp, sc-cb2-qmt ..."""
    p = variant.split("-")
    o = set(p[2:])
    if p[0] == "ps": o.add("xml")      # the parallel build needs the XML classes to compile
    return {"arch": p[0], "layout": p[1], "opts": sorted(o)}

def config(v, layout):
    o = v["opts"]
    d = [("ARCH_PARSCALAR" if v["arch"] == "ps" else "ARCH_SCALAR", "1"), ("BASE_PRECISION", "32"), ("HAVE_GETHOSTNAME", "1"),
         ("PACKAGE", '"qdp--"'), ("PACKAGE_BUGREPORT", '"x"'), ("PACKAGE_NAME", '"qdp++"'), ("PACKAGE_STRING", '"qdp++ 1.46.0"'),
         ("PACKAGE_TARNAME", '"qdp--"'), ("PACKAGE_URL", '""'), ("PACKAGE_VERSION", '"1.46.0"'), ("QDP_AC_ALIGNMENT_SIZE", "128" if "al128" in o else "64" if "al64" in o else "16"),
         ("QDP_NC", "3"), ("QDP_ND", "4"), ("QDP_NS", "4"), ("QDP_USE_BAGEL_QDP", "0"), ("QDP_USE_BLUEGENEL", "1"),
         ("VERSION", '"1.46.0"'), ("QDP_USE_%s_LAYOUT" % LAYOUTS[layout], "1")]
    if "sse" in o or "ssex" in o:
        d += [("QDP_USE_SSE", "1"), ("QDP_USE_SSE2", "1")]
    else:
        d += [("QDP_USE_GENERIC_OPTS", "1")]
    if "xml" in o: d += [("QDP_USE_LIBXML2", "1")]
    if "omp" in o: d += [("QDP_USE_OMP_THREADS", "1")]
    if "qmt" in o: d += [("QDP_USE_QMT_THREADS", "1")]
    if "prof" in o: d += [("QDP_USE_PROFILING", "1")]
    if "dbg" in o: d += [("QDP_DEBUG_MEMORY", "1")]
    if "pool" in o: d += [("QDP_USE_TBBPOOL_ALLOCATOR", "1")]
    return "".join("#define %s %s\n" % x for x in d)

def flags(v):
    o = v["opts"]
    f = ["-std=gnu++17", "-O1", "-msse2", "-fPIC", "-w", "-fno-gnu-unique", "-fvisibility=default",
         "-include", "cstring", "-include", "cstdint", "-include", "array"]
    if "sse" in o: f += ["-I" + os.path.join(SIM, "stub_intrin")]
    if "ssex" in o: f += ["-DQDP_SCALARSITE_SSE_LINALG_H"]   # as /opt/vp builds it
    if "omp" in o: f += ["-fopenmp"]
    if "tsan" in o: f += ["-fsanitize=thread"]
    return f

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:24]

def tree_hash(dirs, exts):
    h = hashlib.sha256()
    for d in dirs:
        for r, ds, fs in sorted(os.walk(d)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(exts):
                    p = os.path.join(r, f)
                    h.update(p.encode()); h.update(open(p, "rb").read()); h.update(b"\0")
    return h.hexdigest()

class BuildFailed(Exception): pass

def run(cmd, what):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        lines = [l for l in r.stdout.splitlines() if "error" in l or "undefined" in l][:6]
        raise BuildFailed("%s: %s" % (what, "\n".join(lines or r.stdout.splitlines()[-6:])))

class Builder:
    def __init__(self, out=OUT):
        self.out = out
        os.makedirs(os.path.join(out, "obj"), exist_ok=True)
        self.qdp_h = tree_hash([os.path.join(REPO, "include")], (".h",))
        self.stub_h = tree_hash([os.path.join(SIM, d) for d in ("include", "stub", "stub_intrin")], (".h",))
        self.vm_h = tree_hash([os.path.join(SIM, d) for d in ("common", "node")], (".h", ".inc"))
        self.jobs = []
        self.pend = {}
        self.failed = {}

    def cfgdir(self, v, layout):
        txt = config(v, layout)
        d = os.path.join(self.out, "cfg-" + sha(txt))
        p = os.path.join(d, "qdp_config_internal.h")
        if not os.path.exists(p):
            os.makedirs(d, exist_ok=True)
            open(p + ".tmp%d" % os.getpid(), "w").write(txt); os.replace(p + ".tmp%d" % os.getpid(), p)
        return d

    def obj(self, src, v, layout, extra=(), prio=0):
        cfg = self.cfgdir(v, layout)
        fl = flags(v) + list(extra)
        inc = ["-I" + cfg, "-I" + os.path.join(SIM, "include")]
        if "xml" in v["opts"]: inc += ["-I" + os.path.join(SIM, "stub")]
        inc += ["-I" + os.path.join(REPO, "include"), "-I" + SIM]
        key = sha(src, open(src, "rb").read(), self.qdp_h, self.stub_h, "" if src.startswith(os.path.join(REPO, "lib")) else self.vm_h, os.path.basename(cfg), " ".join(fl))
        o = os.path.join(self.out, "obj", os.path.basename(src).rsplit(".", 1)[0] + "-" + key + ".o")
        if not os.path.exists(o) and o not in self.pend:
            tmp = o + ".t%d" % os.getpid()
            self.pend[o] = (prio, src, ["g++"] + fl + inc + ["-c", src, "-o", tmp], tmp)
        return o

    def compile_all(self):
        todo = sorted(self.pend.items(), key=lambda x: -x[1][0])
        self.pend = {}
        def one(it):
            o, (prio, src, cmd, tmp) = it
            try: run(cmd, src); os.replace(tmp, o)
            except BuildFailed as e: self.failed[o] = str(e)
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            for _ in ex.map(one, todo): pass
        return len(todo)

    def plan(self, variant, groups, kinds=None):
        kinds = kinds or KINDS
        v = parse(variant)
        lay = v["layout"]
        lib = os.path.join(REPO, "lib")
        arch = "parscalar" if v["arch"] == "ps" else "scalar"
        names = list(BASE) + [arch + "_init", arch + "_layout", arch + "_specific", "scalarsite_specific"]
        if "xml" in v["opts"]: names += XML
        if "pool" in v["opts"]: names += ["pool_allocator"]
        objs = []
        for n in names:
            src = os.path.join(lib, "qdp_%s.cc" % n)
            # only the layout files look at the layout choice
            l = lay if n in ("layout", arch + "_layout") else "cb2"
            objs.append(self.obj(src, v, l))
        if "sse" in v["opts"] or "ssex" in v["opts"]:
            sd = os.path.join(lib, "scalarsite_sse")
            for f in sorted(os.listdir(sd)):
                if f.endswith(".cc") and not ("ssex" in v["opts"] and f == "qdp_scalarsite_sse.cc"):
                    objs.append(self.obj(os.path.join(sd, f), v, "cb2"))
        ext = ["-DVM_" + g.upper() for g in groups]
        for k in kinds:      # "F-": without shifts, maps, masks and single sites
            lite = ["-DKLITE"] if k.endswith("-") else []; k = k.rstrip("-")
            objs.append(self.obj(os.path.join(SIM, "node", "kind_%s.cc" % k), v, "cb2", ext + lite, prio=2 if k in "PFHSM" else 1))
        kinds = [k.rstrip("-") for k in kinds]
        objs.append(self.obj(os.path.join(SIM, "node", "vm_main.cc"), v, "cb2", ext + ["-DNO_K_" + k for k in KINDS + KINDS2 if k not in kinds]))
        for g in groups:
            nd = os.path.join(SIM, "node")
            for f in sorted(os.listdir(nd)):
                if f == "vm_%s.cc" % g or (f.startswith("vm_%s_" % g) and f.endswith(".cc")):
                    objs.append(self.obj(os.path.join(nd, f), v, "cb2", ext, prio=3))
        if "xml" in v["opts"]:
            st = os.path.join(SIM, "stub")
            for f in sorted(os.listdir(st)):
                if f.endswith(".cc"): objs.append(self.obj(os.path.join(st, f), v, "cb2"))
        return v, objs

    def link(self, variant, v, objs):
        so = os.path.join(self.out, "node-" + variant + "-" + sha(*objs) + ".so")
        if os.path.exists(so): return so
        cmd = ["g++", "-shared", "-fPIC", "-fno-gnu-unique", "-Wl,-Bsymbolic", "-Wl,-s", "-Wl,-z,now"]
        if "tsan" in v["opts"]:
            cmd += ["-Wl,--wrap=memcpy", "-Wl,--wrap=memset", "-Wl,--wrap=memmove"]
        tmp = so + ".t%d" % os.getpid()
        run(cmd + objs + ["-o", tmp], so); os.replace(tmp, so)
        return so

    def host(self):
        srcs = []
        for d in ("core", "host"):
            p = os.path.join(SIM, d)
            srcs += [os.path.join(p, f) for f in sorted(os.listdir(p)) if f.endswith(".cc")]
        hh = tree_hash([os.path.join(SIM, d) for d in ("core", "host", "common", "include", "stub")], (".h",)) + tree_hash([os.path.join(SIM, "stub")], (".cc",))
        objs = []
        for s in srcs:
            fl = ["-std=gnu++17", "-O2", "-g1", "-Wall", "-fno-strict-aliasing", "-fno-builtin-malloc", "-I" + SIM]
            key = sha(s, open(s, "rb").read(), hh, " ".join(fl))
            o = os.path.join(self.out, "obj", "host-" + os.path.basename(s)[:-3] + "-" + key + ".o")
            if not os.path.exists(o):
                tmp = o + ".t%d" % os.getpid()
                self.pend[o] = (5, s, ["g++"] + fl + ["-c", s, "-o", tmp], tmp)
            objs.append(o)
        self.hostobjs = objs
        return objs

    def link_host(self):
        exe = os.path.join(self.out, "simhost-" + sha(*self.hostobjs))
        if not os.path.exists(exe):
            tmp = exe + ".t%d" % os.getpid()
            run(["g++", "-rdynamic", "-no-pie"] + self.hostobjs + ["-o", tmp, "-ldl"], exe); os.replace(tmp, exe)
        return exe

def build(variants, groups, kinds=None):
    """returns (simhost, {variant: library}, {variant: why it could not be built})"""
    b = Builder()
    b.host()
    plans = [(x, *b.plan(x, groups, kinds)) for x in variants]
    b.compile_all()
    for o in b.hostobjs:
        if o in b.failed: raise BuildFailed(b.failed[o])
    exe = b.link_host()
    bad = {}
    for x, v, objs in plans:
        f = [o for o in objs if o in b.failed]
        if f: bad[x] = b.failed[f[0]]
    def link(p):
        try: return p[0], b.link(*p)
        except BuildFailed as e: bad[p[0]] = str(e); return p[0], None
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        sos = {k: so for k, so in ex.map(link, [p for p in plans if p[0] not in bad]) if so}
    return exe, sos, bad

if __name__ == "__main__":
    import time
    t = time.time()
    groups = [g for g in sys.argv[1].split(",") if g]
    exe, sos, bad = build(sys.argv[2:], groups, os.environ.get("KINDS", "").split() or None)
    print(exe)
    for k in sos: print(k, sos[k], os.path.getsize(sos[k]))
    for k in bad: print("FAILED", k, bad[k]); sys.exit(1)
    print("%.1f s" % (time.time() - t))
