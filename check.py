#!/usr/bin/env python3
"""Decide one property: compile its harness against /repo's current source to LLVM IR, execute every job
symbolically (build/symex), replay counterexamples and sampled paths natively, write evidence/<ID>.json.

usage: check.py ID [--tier quick|thorough] [--job NAME] [--keep]
Job directives in harness/<ID>.cpp:
  //@ job NAME args=0..6,9 [thorough=7..10] [t=SECONDS] [need=label,label]
  //@ bound free text            (stated bounds, copied to the evidence)
  //@ assume free text           (assumption / stub, copied to the evidence)
  //@ flags extra compile flags
"""
import sys, os, re, json, subprocess, time, tempfile, shutil, threading, resource
from concurrent.futures import ThreadPoolExecutor, as_completed
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("STRTK_REPO", "/repo")
LL = "/usr/lib/llvm-18/bin/clang++"
if not os.path.exists(LL): LL = "clang++"
BASE = ["-std=c++14", "-Dstrtk_no_tr1_or_boost", "-I" + REPO, "-w"]
IRF = ["-O2", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-threadsafe-statics",
       "-gline-tables-only", "-fno-builtin-memchr", "-fsanitize=array-bounds", "-fsanitize-trap=array-bounds", "-fno-pic", "-fno-pie", "-emit-llvm", "-c"]
T0 = time.time()

def ranges(s):
    r = []
    for p in s.split(","):
        if not p: continue
        m = re.match(r"^(-?\d+)\.\.(-?\d+)$", p)
        if m: r += list(range(int(m.group(1)), int(m.group(2)) + 1))
        else: r.append(int(p))
    return r

def parse(path):
    spec = {"jobs": [], "bounds": [], "assume": [], "flags": [], "rt": ["rt"]}
    for line in open(path):
        m = re.match(r"\s*//@ (\w+) (.*)", line)
        if not m: continue
        k, v = m.group(1), m.group(2).strip()
        if k == "bound": spec["bounds"].append(v)
        elif k == "assume": spec["assume"].append(v)
        elif k == "rt": spec["rt"] += v.split()
        elif k == "flags": spec["flags"] += v.split()
        elif k == "job":
            f = v.split(); j = {"name": f[0], "args": [0], "thorough": [], "t": 240, "need": []}
            for x in f[1:]:
                a, b = x.split("=", 1)
                if a in ("args", "thorough"): j[a] = ranges(b)
                elif a == "t": j["t"] = float(b)
                elif a == "need": j["need"] = b.split(",")
            spec["jobs"].append(j)
    return spec

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

def limit():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
def nocore():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def known(pid):
    r = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) job=(\S+) arg=(\S+) input=(\S*) what=(.*)", line.strip())
            if m and m.group(1) == pid: r.append(dict(job=m.group(2), arg=m.group(3), input=m.group(4), what=m.group(5)))
    return r

class Native:
    """native builds of the same harness, for replay"""
    def __init__(self, d, src, flags):
        self.bins = {}
        self.dir = d
        rr = os.path.join(HERE, "engine", "replay_rt.cpp")
        tail = [src, rr, "-rdynamic", "-ldl"]
        self.cmds = {
            "asan": [LL] + BASE + flags + ["-O1", "-g", "-fsanitize=address,array-bounds", "-fno-sanitize-recover=array-bounds", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern"] + tail,
            "plain": ["g++"] + BASE + flags + ["-O2", "-ftrivial-auto-var-init=pattern"] + tail,
        }
    def build(self, name):
        out = os.path.join(self.dir, "native_" + name)
        p = run(self.cmds[name] + ["-o", out])
        if p.returncode: return p.stdout.decode(errors="replace")
        self.bins[name] = out
        return None
    def env(self, perturb=None):
        e = dict(os.environ)
        fill = "" if perturb is None else ":max_malloc_fill_size=65536:malloc_fill_byte=%d" % perturb
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1:hard_rss_limit_mb=3000:allocator_may_return_null=0:symbolize=0" + fill
        if perturb is not None: e["MALLOC_PERTURB_"] = str(perturb)
        return e
    def one(self, job, arg, hx, uninit=False):
        """-> (reproduced, description)"""
        desc = ""
        for name in ("asan", "plain"):
            if name not in self.bins: continue
            for pert in ([None, 1, 85, 254] if uninit else [None]):
                try:
                    p = run([self.bins[name], "job_" + job, str(arg), hx], env=self.env(pert), timeout=60, preexec_fn=nocore, cwd=self.dir)
                    rc, txt = p.returncode, p.stdout.decode(errors="replace")
                except subprocess.TimeoutExpired:
                    rc, txt = 1, "REPLAY HANG (no result in 60 s)"
                if rc == 3: desc = "input rejected by the harness assumptions natively"; continue
                if rc == 4: continue
                if rc != 0:
                    m = re.search(r"(REPLAY \S.*|ERROR: AddressSanitizer: [^\n(]*|runtime error[^\n]*)", txt)
                    return True, "%s build: rc=%d %s" % (name, rc, m.group(1) if m else txt[-200:])
        return False, desc
    def batch(self, job, arg, samples):
        """-> (agreeing, mismatches, failing input or None)"""
        inp = "".join(s["in"] + "\n" for s in samples)
        try:
            p = run([self.bins["asan"], "job_" + job, str(arg), "-batch"], input=inp.encode(), env=self.env(), timeout=120, preexec_fn=nocore, cwd=self.dir)
        except subprocess.TimeoutExpired:
            return 0, ["timeout"], None
        lines = [l for l in p.stdout.decode(errors="replace").split("\n") if l.startswith("OBS")]
        ok, bad = 0, []
        for s, l in zip(samples, lines):
            got = [int(x) for x in l.split()[1:]]
            if got == s["obs"]: ok += 1
            else: bad.append({"input": s["in"], "engine": s["obs"], "native": got})
        fail = None
        if p.returncode != 0 and len(lines) < len(samples): fail = samples[len(lines)]["in"]
        return ok, bad, fail

def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    if tier not in ("quick", "thorough"): tier = "quick"
    only = a[a.index("--job") + 1] if "--job" in a else None
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    src = os.path.join(HERE, "harness", pid + ".cpp")
    spec = parse(src)
    ev_path = os.path.join(HERE, "evidence", pid + ".json")
    rp_dir = os.path.join(HERE, "evidence", "replay"); os.makedirs(rp_dir, exist_ok=True)
    if os.path.exists(ev_path): os.unlink(ev_path)
    p = run(["bash", os.path.join(HERE, "engine", "build.sh")])
    symex = os.path.join(HERE, "build", "symex")
    if p.returncode or not os.path.exists(symex): print("engine build failed\n" + p.stdout.decode()); return 2
    d = tempfile.mkdtemp(prefix="vchk_%s_" % pid)
    deadline = T0 + (780 if tier == "quick" else 3300)
    try: return go(pid, tier, seed, src, spec, ev_path, rp_dir, symex, d, deadline, only)
    finally:
        if "--keep" in a: print("kept", d)
        else: shutil.rmtree(d, ignore_errors=True)

def go(pid, tier, seed, src, spec, ev_path, rp_dir, symex, d, deadline, only):
    nat = Native(d, src, spec["flags"])
    bc, rtbc = os.path.join(d, "h.bc"), [os.path.join(d, x + ".bc") for x in spec["rt"]]
    ex = ThreadPoolExecutor(8)
    f1 = ex.submit(run, [LL] + BASE + spec["flags"] + IRF + [src, "-o", bc])
    f2 = [ex.submit(run, [LL] + BASE + IRF + [os.path.join(HERE, "engine", x + ".cpp"), "-o", o]) for x, o in zip(spec["rt"], rtbc)]
    fa, fp = ex.submit(nat.build, "asan"), ex.submit(nat.build, "plain")
    for f in [f1] + f2:
        r = f.result()
        if r.returncode: print("harness does not compile against the current tree:\n" + r.stdout.decode()[-3000:]); return 2
    stop = threading.Event()
    def work(j, arg):
        if stop.is_set(): return (j, arg, None)
        left = deadline - time.time()
        if left < 5: return (j, arg, {"complete": False, "incomplete": "check deadline"})
        t = min(j["t"] * (1 if tier == "quick" else 5), left)
        out = os.path.join(d, "o_%s_%d.json" % (j["name"], arg))
        cmd = [symex, "--entry=job_" + j["name"], "--arg=%d" % arg, "--out=" + out, "--max-time=%g" % t, "--seed=%d" % seed,
               "--samples=48", "--max-steps=%d" % (3000000 if tier == "quick" else 10000000), bc] + rtbc
        pr = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=limit)
        procs.add(pr)
        try: txt = pr.communicate(timeout=t + 90)[0].decode(errors="replace")
        except subprocess.TimeoutExpired: pr.kill(); txt = pr.communicate()[0].decode(errors="replace") + " killed"
        procs.discard(pr)
        try: res = json.load(open(out))
        except Exception as e: res = {"complete": False, "incomplete": "symex gave no result rc=%s: %s" % (pr.returncode, txt[-300:])}
        return (j, arg, res)
    procs = set()
    jobs = []
    for j in spec["jobs"]:
        if only and j["name"] != only: continue
        args = sorted(set(j["args"] + (j["thorough"] if tier == "thorough" else [])))
        for n, x in enumerate(args): jobs.append((j, x))
    # interleave: small bounds of every job first
    order = {}
    jobs2 = []
    for j, x in jobs:
        order[j["name"]] = order.get(j["name"], -1) + 1
        jobs2.append((order[j["name"]], j, x))
    jobs2.sort(key=lambda t: t[0])
    errs = [f.result() for f in (fa, fp)]
    for e in errs:
        if e: print("native replay build failed:\n" + e[-2000:]); return 2
    futs = [ex.submit(work, j, x) for _, j, x in jobs2]
    results, violations, notes, mism = [], [], [], []
    validated = 0
    def report(j, arg, v, desc):
        n = len(violations)
        path = os.path.join(rp_dir, "%s_%d.txt" % (pid, n))
        with open(path, "w") as f:
            f.write("property %s\njob %s\narg %s\ninput %s\nkind %s\nmessage %s\nengine location %s\nnative replay: %s\nreproduce: python3 /verif/replay.py %s\n" %
                    (pid, j["name"], arg, v["input"], v["kind"], v["msg"], v.get("loc", ""), desc, path))
        violations.append({"job": j["name"], "arg": arg, "kind": v["kind"], "msg": v["msg"], "input": v["input"], "loc": v.get("loc", ""), "replay": desc, "path": path})
    for f in as_completed(futs):
        j, arg, r = f.result()
        if r is None: continue
        results.append((j, arg, r))
        if violations: continue
        for v in r.get("violations", []):
            rep, desc = nat.one(j["name"], arg, v["input"], v.get("uninit", False))
            if rep: report(j, arg, v, desc); break
            notes.append("counterexample of %s(%d) not reproduced natively: %s %s input=%s %s" % (j["name"], arg, v["kind"], v["msg"], v["input"], desc))
        if not violations and r.get("samples"):
            ok, bad, fail = nat.batch(j["name"], arg, r["samples"])
            validated += ok
            for b in bad[:2]: mism.append({"job": j["name"], "arg": arg, "detail": b})
            if fail is not None:
                rep, desc = nat.one(j["name"], arg, fail)
                if rep: report(j, arg, {"kind": "native", "msg": "the native run of a symbolically explored path fails", "input": fail}, desc)
        if violations:
            stop.set()
            for pr in list(procs):
                try: pr.kill()
                except Exception: pass
    inc = [(j["name"], arg, r.get("incomplete") or "counterexample not reproduced") for j, arg, r in results
           if not r.get("complete") or (r.get("violations") and not violations)]
    kf = []
    for k in known(pid):
        rep, desc = nat.one(k["job"], k["arg"], k["input"], True)
        if rep: kf.append(k["what"]); print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        else: notes.append("listed finding no longer fails: " + k["what"])
    tot = lambda key: sum(r.get(key, 0) for _, _, r in results)
    funcs = sorted(set(x for _, _, r in results for x in r.get("functions", [])))
    reached = {}
    for j, arg, r in results:
        for k, n in r.get("reached", {}).items(): reached[j["name"] + ":" + k] = reached.get(j["name"] + ":" + k, 0) + n
    vac = []
    byjob = {}
    for j, arg, r in results:
        b = byjob.setdefault(j["name"], {"args": [], "paths": 0, "asserts": 0, "queries": 0, "solver_s": 0.0, "wall_s": 0.0, "max_wall_s": 0.0})
        b["args"].append(arg)
        for k in ("paths", "asserts", "queries", "solver_s", "wall_s"): b[k] = round(b[k] + r.get(k, 0), 3)
        b["max_wall_s"] = max(b["max_wall_s"], r.get("wall_s", 0))
    for j, arg, r in results:
        if r.get("complete") and not r.get("violations") and (r.get("paths", 0) == 0): vac.append("%s(%d): no feasible path" % (j["name"], arg))
    for j in spec["jobs"]:
        if only and j["name"] != only: continue
        if j["name"] in byjob:
            byjob[j["name"]]["args"].sort()
            if byjob[j["name"]]["asserts"] == 0: vac.append(j["name"] + ": no assertion reached")
            for l in j["need"]:
                if (j["name"] + ":" + l) not in reached: vac.append(j["name"] + ": label not reached: " + l)
    samp = []
    for j, arg, r in results:
        for s in r.get("samples", [])[:1]: samp.append({"job": j["name"], "arg": arg, "input_hex": s["in"], "observed": s["obs"][:16]})
    cov = {
        "states": int(tot("paths")), "transitions": int(tot("instructions")), "traces_validated_against_impl": validated,
        "samples": samp[:12],
        "explanation": "states = feasible symbolic paths explored to their end (each stands for every input satisfying its path condition); transitions = LLVM IR instructions of the compiled strtk templates executed symbolically; every branch, memory access and assertion was decided by the solver for all values of the symbolic inputs within the bounds.",
        "jobs": byjob, "bounds": spec["bounds"], "functions_encoded": funcs[:400], "functions_encoded_count": len(funcs),
        "queries": int(tot("queries")), "queries_sat": int(tot("sat")), "queries_unsat": int(tot("unsat")), "queries_lia": int(tot("lia")),
        "query_cache_hits": int(tot("cache_hits")), "answered_by_model_reuse": int(tot("model_hits")),
        "assertions_checked": int(tot("asserts")), "assertions_needing_solver": int(tot("asserts_symbolic")), "solver_s": round(tot("solver_s"), 3),
        "reachability_witnesses": reached, "vacuous": vac, "incomplete": ["%s(%d): %s" % x for x in inc],
        "encoding_mismatches": mism[:10], "notes": notes[:20], "known_findings": kf,
        "exhaustive": not inc and not violations,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": spec["assume"] + ["LLVM IR produced by clang 18 -O2 from the current /repo/strtk.hpp is the object analysed; libstdc++ tree/list rebalancing helpers, toupper/tolower and the allocator are modelled (engine/rt.cpp, engine/engine.cpp); allocation never fails"],
          "wall_s": round(time.time() - T0, 3), "violations": len(violations)}
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    json.dump(ev, open(ev_path, "w"), indent=1)
    print("%s %s: jobs=%d paths=%d asserts=%d queries=%d solver=%.1fs validated=%d wall=%.1fs" % (pid, tier, len(results), tot("paths"), tot("asserts"), tot("queries"), tot("solver_s"), validated, time.time() - T0))
    for x in vac: print("VACUOUS:", x)
    for x in inc[:10]: print("INCONCLUSIVE: %s(%d): %s" % x)
    for x in notes[:5]: print("NOTE:", x)
    for x in mism[:5]: print("ENCODING-MISMATCH:", json.dumps(x))
    if violations:
        for v in violations: 
            print("  %s(%s) %s: %s input=%s\n  at %s\n  native: %s" % (v["job"], v["arg"], v["kind"], v["msg"], v["input"], v["loc"][:600], v["replay"]))
            print("VIOLATION property=%s replay=%s" % (pid, v["path"]))
        return 1
    print("HELD property=%s on everything explored%s" % (pid, "" if not inc else " (some jobs inconclusive, see evidence)"))
    return 0

if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
