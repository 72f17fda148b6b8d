#!/usr/bin/env python3
"""run.py PROPERTY          build from /repo, run the check, write evidence/PROPERTY.json
   run.py --replay FILE    re-run a saved failing case
   run.py --build HARNESS  only build (prints the binary path)
Exit 0: held.  Exit 1 + "VIOLATION property=<id> replay=<path>": broken."""
import sys, os, re, json, subprocess, hashlib, shutil, time, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, V)
import recipes
TMP = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
BUILD = os.path.join(V, "build")
REPLAYS = os.path.join(V, "replays")
KNOWN = os.path.join(V, "known_findings.txt")

class BuildError(Exception): pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode: raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:24]

def rd(p):
    with open(p, "rb") as f: return f.read()

def gen_config(username=None):
    m = {}
    for l in open(os.path.join(V, "config_map.txt")):
        k, _, v = l.rstrip("\n").partition(" ")
        if k: m[k] = v
    out = []
    for l in open(os.path.join(REPO, "config.h.in"), errors="replace"):
        x = re.match(r"\s*#\s*undef\s+(\w+)", l)
        if x:
            out.append("#define %s %s\n" % (x.group(1), m[x.group(1)]) if x.group(1) in m else "/* %s */\n" % l.strip())
        else: out.append(l)
    return "".join(out)

# formats are looked at on their way to the C library (see pbt.cpp)
PRINTF = "printf fprintf sprintf snprintf dprintf asprintf vprintf vfprintf vsprintf vsnprintf vdprintf vasprintf".split()

DEFS = {"PIDFILE": "fcron.pid", "REBOOT_LOCK": "fcron.reboot", "SUSPEND_FILE": "fcron.suspend", "FIFOFILE": "fcron.fifo",
        "ETC": "etc", "FCRON_SHELL": "/bin/sh", "FCRON_CONF": "fcron.conf", "FCRONTABS": "spool",
        "FCRON_ALLOW": "fcron.allow", "FCRON_DENY": "fcron.deny", "SENDMAIL": "/nonexistent/sendmail",
        "FCRON_EDITOR": "/bin/false", "MAILDISPLAYNAME": "Fcron Daemon", "BINDIREX": "bin"}

def obj_list(name):
    t = open(os.path.join(REPO, "Makefile.in"), errors="replace").read()
    m = re.search(r"^%s\s*:?=\s*(.*)$" % name, t, re.M)
    return [o[:-2] for o in m.group(1).split() if o.endswith(".o")]

GROUPS = {"daemon": lambda: ["fcron"] + obj_list("OBJSD_NO_MAIN"), "tab": lambda: obj_list("OBJSTAB"),
          "dyn": lambda: obj_list("OBJSDYN"), "conv": lambda: obj_list("OBJCONV"), "sig": lambda: obj_list("OBJSIG")}

def compile_one(cc, src, flags, deps_hash, tag):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    key = sha(cc, " ".join(flags), deps_hash, rd(src), os.path.basename(src))
    out = os.path.join(BUILD, "obj", "%s-%s-%s.o" % (tag, os.path.splitext(os.path.basename(src))[0], key))
    if not os.path.exists(out):
        tmp = out + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        sh([cc] + flags + ["-c", src, "-o", tmp])
        os.rename(tmp, out)
    return out

def undef_syms(obj):
    u, d = set(), set()
    for l in sh(["nm", obj]).splitlines():
        p = l.split()
        if len(p) == 2 and p[0] in "Uw": u.add(p[1])
        elif len(p) == 3: d.add(p[2])
    return u, d

def build(h):
    r = recipes.HARNESS[h]
    cfgdir = os.path.join(BUILD, "cfg")
    os.makedirs(cfgdir, exist_ok=True)
    cfg = gen_config()
    for k, v in r.get("config", {}).items():
        cfg, n = re.subn(r"^#define %s .*$" % k, lambda m: "#define %s %s" % (k, v), cfg, flags=re.M)
    chash = sha(cfg)
    cdir = os.path.join(cfgdir, chash)
    os.makedirs(cdir, exist_ok=True)
    cp = os.path.join(cdir, "config.h")
    if not os.path.exists(cp):
        with open(cp + ".%d" % os.getpid(), "w") as f: f.write(cfg)
        os.rename(cp + ".%d" % os.getpid(), cp)
    hdrs = sorted(f for f in os.listdir(REPO) if f.endswith(".h"))
    hh = sha(chash, *[f.encode() + rd(os.path.join(REPO, f)) for f in hdrs])
    cc = r.get("cc", "gcc"); cxx = {"gcc": "g++", "clang": "clang++"}[cc]
    san = r.get("san", [])
    opt = r.get("opt", ["-O1", "-g"])
    defs = dict(DEFS); defs.update(r.get("defs", {}))
    dflags = ["-DHAVE_CONFIG_H"] + ["-D%s=\"%s\"" % kv for kv in sorted(defs.items())]
    base = opt + san + ["-w", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-fno-stack-protector" if san else "-fstack-protector-all", "-I" + cdir, "-I" + REPO, "-I/usr/include/selinux"]
    cflags = (["-fsanitize=fuzzer-no-link"] if r.get("fuzzer") else []) + base + dflags + ["-std=gnu11", "-fexceptions"] + r.get("cflags", [])
    link_objs = []
    pool = ThreadPoolExecutor(8)
    jobs = []
    hsrc = [os.path.join(V, "harness", s) for s in r["src"]]
    # harness headers
    vh = sha(*[f.encode() + rd(os.path.join(V, "harness", f)) for f in sorted(os.listdir(os.path.join(V, "harness"))) if f.endswith((".hpp", ".h"))])
    for s in hsrc:
        hf = base + dflags + (["-std=gnu++17"] if s.endswith(".cpp") else ["-std=gnu11"]) + r.get("hflags", []) + ["-I" + os.path.join(V, "harness")]
        jobs.append(pool.submit(compile_one, cxx if s.endswith(".cpp") else cc, s, hf, hh + vh, "h"))
    gjobs = {}
    for g, gr in r.get("groups", {}).items():
        names = [n for n in GROUPS[gr.get("group", g)]() if n not in gr.get("omit", [])] + gr.get("extra", [])
        gjobs[g] = [pool.submit(compile_one, gr.get("cc", cc), os.path.join(REPO, n + ".c"), cflags + gr.get("cflags", []), hh, "r") for n in names]
    objs = [j.result() for j in jobs]
    os.makedirs(os.path.join(BUILD, "link"), exist_ok=True)
    parts = list(objs)
    for g, gr in r.get("groups", {}).items():
        gobjs = [j.result() for j in gjobs[g]]
        wraps = gr.get("wrap", [])
        out = []
        for o in gobjs:
            u, d = undef_syms(o)
            args = []
            for w in wraps:
                if w in u: args += ["--redefine-sym", "%s=%s%s" % (w, gr.get("wprefix", "w_"), w)]
            if not r.get("fuzzer"):
                for w in PRINTF:
                    if w in u and w not in wraps: args += ["--redefine-sym", "%s=pbtfmt_%s" % (w, w)]
            if "main" in d: args += ["--redefine-sym", "main=%s_main" % g]
            for a, b in gr.get("rename", {}).items():
                if a in u or a in d: args += ["--redefine-sym", "%s=%s" % (a, b)]
            for a in gr.get("globalize", []):
                if a in d: args += ["--globalize-symbol", a]
            if args:
                n = os.path.join(BUILD, "obj", "w-%s.o" % sha(o, *args))
                if not os.path.exists(n):
                    t = n + ".%d.tmp" % os.getpid()
                    sh(["objcopy"] + args + [o, t]); os.rename(t, n)
                o = n
            out.append(o)
        if "keep" in gr:
            n = os.path.join(BUILD, "obj", "g-%s.o" % sha(*out, *gr["keep"], *sorted(gr.get("rename", {}).items())))
            if not os.path.exists(n):
                t = n + ".%d.tmp" % os.getpid()
                sh(["ld", "-r", "-o", t + "r"] + out)
                a = []
                for k in gr["keep"]: a += ["--keep-global-symbol", k]
                sh(["objcopy"] + a + [t + "r", t]); os.unlink(t + "r"); os.rename(t, n)
            out = [n]
        parts += out
    # the engine is never instrumented nor wrapped
    if not r.get("fuzzer"):
        parts.append(compile_one("g++", os.path.join(V, "harness", "pbt.cpp"), ["-O2", "-g", "-w", "-std=gnu++17", "-I" + os.path.join(V, "harness")], vh, "e"))
    libs = ["-lpam", "-lreadline", "-lcrypt", "-laudit", "-lselinux", "-lm"]
    lflags = san + (["-fsanitize=fuzzer"] if r.get("fuzzer") else [])
    b = os.path.join(BUILD, "link", "%s-%s" % (h, sha(*parts, *lflags, cxx)))
    if not os.path.exists(b):
        t = b + ".%d.tmp" % os.getpid()
        sh([cxx] + lflags + ["-rdynamic", "-o", t] + parts + r.get("ldflags", []) + libs)
        os.rename(t, b)
    return b

# the caller's environment (TZ, LANG, EDITOR...) is not the subject
ENV = dict({k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "TMPDIR") or k.startswith("VERIF_") or k == "JDBG"}, ASAN_OPTIONS="exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=1:symbolize=1:external_symbolizer_path=",
           UBSAN_OPTIONS="halt_on_error=1:exitcode=99:print_stacktrace=1", TZ="UTC", LC_ALL="C", LANG="C")
for k in ("MAILTO", "SHELL_OVERRIDE"): ENV.pop(k, None)

def load_known(prop):
    known, lines = [], []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known:\s+property=(\S+)\s+sig=(\S+)\s+(.*)", l.strip())
            if m and m.group(1) == prop: known.append((m.group(2), m.group(3)))
    return known

def run_fuzz(prop, h, tier, seed, known):
    """libFuzzer target: a fixed number of executions from the committed seeds."""
    r = recipes.HARNESS[h]
    b = build(h)
    work = tempfile.mkdtemp(prefix="verif-%s-" % h, dir=os.environ.get("VERIF_TMP", TMP))
    os.chmod(work, 0o755)
    try:
        corpus = os.path.join(work, "corpus"); os.makedirs(corpus)
        stats = os.path.join(work, "stats")
        env = dict(ENV, FUZZ_STATS=stats)
        runs = int(os.environ.get("VERIF_CASES", r.get("runs", 20000) if tier == "quick" else r.get("runs_thorough", 2000000)))
        t0 = time.time()
        seeds = os.path.join(V, "harness", "seeds", r.get("seeds", h))
        p = subprocess.run([b, "-seed=%d" % seed, "-runs=%d" % runs, "-max_total_time=%d" % (r.get("max_s", 150) if tier == "quick" else r.get("max_s_thorough", 1200)),
                            "-max_len=%d" % r.get("max_len", 4096), "-timeout=20", "-rss_limit_mb=4096", "-artifact_prefix=%s/" % work, "-print_final_stats=1", "-verbosity=1"]
                           + (["-dict=" + os.path.join(V, "harness", "seeds", r["dict"])] if "dict" in r else []) + [corpus, seeds],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, cwd=work)
        ex = re.search(r"stat::number_of_executed_units: (\d+)", p.stdout)
        st = json.load(open(stats)) if os.path.exists(stats) else {}
        res = {"cases": runs, "evaluations": int(ex.group(1)) if ex else 0, "nontrivial": st.get("nontrivial", 0), "distinct_nontrivial": st.get("distinct", 0), "discards": 0,
               "samples": [{"case": x} for x in st.get("samples", [])], "labels": st.get("labels", {}), "capped": not ex or int(ex.group(1)) < runs, "unreproduced": 0, "wall_s": round(time.time() - t0, 2), "known_hits": {}}
        m = re.findall(r"cov: (\d+)", p.stdout)
        if m: res["labels"]["edges covered"] = int(m[-1])
        arts = [f for f in os.listdir(work) if f.startswith(("crash-", "leak-", "timeout-", "oom-"))]
        if p.returncode != 0 and arts:
            a = os.path.join(work, arts[0])
            mini = os.path.join(work, "mini")
            subprocess.run([b, "-minimize_crash=1", "-max_total_time=40", "-runs=200000", "-exact_artifact_path=" + mini, a], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, cwd=work)
            best = mini if os.path.exists(mini) and os.path.getsize(mini) else a
            # confirmed only if it fails again, alone, every time
            outs = [subprocess.run([b, best], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, cwd=work) for _ in range(3)]
            ok = all(o.returncode for o in outs)
            why = re.search(r"FUZZ-FAIL .*|SUMMARY: .*|ERROR: .*", outs[0].stdout)
            res["failure"] = {"confirmed": ok, "sig": (why.group(0) if why else "crash")[:200], "msg": why.group(0) if why else "", "notes": outs[0].stdout[:4000], "choices": list(rd(best)), "index": "fuzz"}
        elif p.returncode != 0:
            raise BuildError("%s: fuzzer exit %s\n%s" % (h, p.returncode, p.stdout[-3000:]))
        return res
    finally:
        shutil.rmtree(work, ignore_errors=True)

def run_harness(prop, h, tier, seed, known, quick=None, thorough=None, only=None):
    r = recipes.HARNESS[h]
    if r.get("fuzzer"): return run_fuzz(prop, h, tier, seed, known)
    b = build(h)
    work = tempfile.mkdtemp(prefix="verif-%s-" % h, dir=os.environ.get("VERIF_TMP", TMP))
    os.chmod(work, 0o755)
    try:
        kf = os.path.join(work, "known")
        with open(kf, "w") as f: f.write("".join(s + "\n" for s, _ in known))
        out = os.path.join(work, "out.json")
        cmd = [b, "--seed", str(seed), "--known", kf, "--out", out, "--scratch", work,
               "--max-seconds", str(r.get("max_s", 200) if tier == "quick" else r.get("max_s_thorough", 1500))]
        if tier != "quick": cmd.append("--thorough")
        n = quick if tier == "quick" else thorough
        if n: cmd += ["--cases", str(n)]
        if only: cmd += ["--only", only]
        if os.environ.get("VERIF_CASES"): cmd += ["--cases", os.environ["VERIF_CASES"]]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=ENV, cwd=work)
        if not os.path.exists(out):
            raise BuildError("%s: no result (exit %s)\n%s" % (h, p.returncode, p.stdout[-3000:]))
        return json.load(open(out, errors="replace"))
    finally:
        shutil.rmtree(work, ignore_errors=True)

def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        t = open(sys.argv[2]).read()
        h = re.search(r"^harness: (\S+)$", t, re.M).group(1)
        work = tempfile.mkdtemp(prefix="verif-replay-", dir=TMP); os.chmod(work, 0o755)
        if recipes.HARNESS[h].get("fuzzer"):
            f = os.path.join(work, "input")
            with open(f, "wb") as o: o.write(bytes(map(int, re.search(r"^choices: (.*) end-choices$", t, re.M).group(1).split())))
            try: return 1 if subprocess.run([build(h), f], env=ENV, cwd=work).returncode else 0
            finally: shutil.rmtree(work, ignore_errors=True)
        only = re.search(r"^only: (\S+)$", t.split("\nseed:")[0], re.M)
        try: return subprocess.run([build(h), "--replay", os.path.abspath(sys.argv[2]), "--scratch", work] + (["--only", only.group(1)] if only else []), env=ENV, cwd=work).returncode
        finally: shutil.rmtree(work, ignore_errors=True)
    if len(sys.argv) >= 3 and sys.argv[1] == "--build":
        print(build(sys.argv[2])); return 0
    if len(sys.argv) >= 2 and sys.argv[1] == "--setup":
        bad = 0
        for h in recipes.HARNESS:
            try: build(h)
            except BuildError as e: print("build of %s failed: %s" % (h, e)); bad = 1
        return bad
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv: tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    known = load_known(prop)
    rc = 0
    agg = {"evaluations": 0, "distinct_nontrivial": 0, "nontrivial": 0, "discarded": 0, "samples": [], "labels": {}, "harnesses": {}}
    nviol = 0
    hits = {}
    for h in recipes.PROPS[prop]["harness"]:
        # "harness" or ("harness", quick cases, thorough cases, "the only signature this property looks at")
        h, args = (h, ()) if isinstance(h, str) else (h[0], h[1:])
        res = run_harness(prop, h, tier, seed, known, *args)
        agg["evaluations"] += res["evaluations"]; agg["distinct_nontrivial"] += res["distinct_nontrivial"]
        agg["nontrivial"] += res["nontrivial"]; agg["discarded"] += res["discards"]
        agg["samples"] += [dict(s, harness=h) for s in res["samples"]]
        agg["labels"].update({"%s/%s" % (h, k): v for k, v in res["labels"].items()})
        agg["harnesses"][h] = {k: res[k] for k in ("cases", "evaluations", "distinct_nontrivial", "capped", "unreproduced", "wall_s")}
        for k, v in res.get("known_hits", {}).items(): hits[k] = hits.get(k, 0) + v
        f = res.get("failure")
        if f and f["confirmed"]:
            os.makedirs(REPLAYS, exist_ok=True)
            path = os.path.join(REPLAYS, "%s-%s-%s.txt" % (prop, h, sha(json.dumps(f["choices"]), f["sig"])[:10]))
            with open(path, "w") as o:
                o.write("property: %s\nharness: %s\n" % (prop, h) + ("only: %s\n" % args[2] if args else "") + "seed: %d\nindex: %s\nsig: %s\n%s\n\n%s\nchoices: %s end-choices\n" %
                        (seed, f["index"], f["sig"], f["msg"], f["notes"], " ".join(map(str, f["choices"]))))
            print("%s: %s: %s" % (h, f["sig"], f["msg"]))
            print(f["notes"][:3000])
            print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, V)))
            nviol += 1; rc = 1
        elif f:
            print("%s: case %s failed once (%s: %s) but not on replay: not reported" % (h, f["index"], f["sig"], f["msg"]))
    for s, d in known:
        print("KNOWN-FINDING: property=%s %s (%s; met %d times in this run)" % (prop, d, s, hits.get(s, 0)))
    agg["rule"] = recipes.PROPS[prop]["rule"]
    if hits: agg["excluded_known_findings"] = hits
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": recipes.PROPS[prop].get("level", "exploration"), "coverage": agg,
          "assumptions": recipes.PROPS[prop].get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": nviol}
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s %s: %d cases, %d non-trivial distinct, %.1f s: %s" % (prop, tier, agg["evaluations"], agg["distinct_nontrivial"], time.time() - t0, "VIOLATED" if rc else "held"))
    return rc

if __name__ == "__main__":
    try: sys.exit(main())
    except BuildError as e:
        print("ERROR: %s" % e); sys.exit(2)
