#!/usr/bin/env python3-vt
"""Runs one property's check.  usage: check.py C01 [quick|thorough]"""
import sys, os, time, json, subprocess, tempfile, shutil, threading, importlib, glob, re, hashlib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get("VC_REPO", "/repo")
from vc import harness

PROP = sys.argv[1]; TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1"); TH = TIER == "thorough"
T0 = time.time()

def findings():
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == PROP: out.append({"key": m.group(2), "what": m.group(3)})
    return out

# ------------------------------------------------------------------ native part
class Native(threading.Thread):
    """builds the library and this property's drivers from the current tree, runs them (bounded)"""
    def __init__(self, work): super().__init__(); self.work = work; self.res = []; self.err = []; self.ready = threading.Event(); self.extra = []; self.built = []
    def header(self, src):
        h = {"cfg": "def", "flags": "", "libs": "", "time": "240"}
        for l in open(src).read().splitlines()[:12]:
            m = re.match(r"// (cfg|flags|libs|time|thorough-only|defs): ?(.*)", l)
            if m: h[m.group(1)] = m.group(2).strip()
        return h
    def sh(self, cmd, timeout=400):
        return subprocess.run(cmd, shell=True, capture_output=True, text=True, timeout=timeout, errors="replace")
    def build_lib(self, cfg, flags):
        key = hashlib.md5((cfg + flags).encode()).hexdigest()[:8]
        d = os.path.join(self.work, "lib_" + cfg + key); lib = os.path.join(d, "libg3.a")
        if os.path.exists(lib): return lib
        os.makedirs(d, exist_ok=True)
        inc = harness.gen_include(self.work + "/n", cfg)
        srcs = [s for s in sorted(glob.glob(REPO + "/src/*.cpp")) if "windows" not in s]
        ps = [(s, subprocess.Popen("g++ -std=c++17 -O1 -g1 -DNDEBUG %s -I%s/src -I%s -c %s -o %s/%s.o" % (flags, REPO, inc, s, d, os.path.basename(s)), shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for s in srcs]
        for s, p in ps:
            o, _ = p.communicate()
            if p.returncode: self.err.append("library source %s does not compile: %s" % (s, o[-800:])); return None
        r = self.sh("ar rcs %s %s/*.o" % (lib, d)); return lib
    def run(self):
        try: self.go()
        except Exception as e: self.err.append(repr(e))
        self.ready.set()
    def go(self):
        os.makedirs(self.work, exist_ok=True)
        for src in sorted(glob.glob(os.path.join(HERE, "native", PROP.lower() + "*.cpp"))):
            h = self.header(src)
            if "thorough-only" in h and not TH: continue
            for cfg in h["cfg"].split(","):
                cfg = cfg.strip(); lib = self.build_lib(cfg, h["flags"])
                if lib is None: return
                inc = harness.gen_include(self.work + "/n", cfg)
                exe = os.path.join(self.work, os.path.basename(src)[:-4] + "_" + cfg)
                r = self.sh("g++ -std=c++17 -O1 -g1 -DNDEBUG %s -I%s/src -I%s -I%s/native %s %s %s -lpthread -ldl -o %s" % (h["flags"], REPO, inc, HERE, src, lib, h["libs"], exe))
                if r.returncode: self.err.append("driver %s does not compile: %s" % (os.path.basename(src), r.stderr[-1500:])); continue
                self.built.append((exe, h, src, cfg))
        self.ready.set()
        for b in self.built: self.res.append(self.drive(b, []))
    def drive(self, b, extra):
        exe, h, src, cfg = b
        sc = tempfile.mkdtemp(prefix="vcs", dir=self.work)
        os.chmod(sc, 0o755)
        cmd = [exe, "--seed", str(SEED), "--scratch", sc] + (["--thorough"] if TH else []) + extra
        t = time.time()
        env = dict(os.environ); env["TZ"] = env.get("TZ", "")
        if not env["TZ"]: env.pop("TZ")
        try:
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", cwd=sc, start_new_session=True, env=env)
            try: o, _ = p.communicate(timeout=int(h["time"]) * (4 if TH else 1)); to = False
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9); o, _ = p.communicate(); to = True
        finally: pass
        shutil.rmtree(sc, ignore_errors=True)
        fails = [l for l in o.splitlines() if l.startswith("FAIL ")]
        m = re.search(r"^DONE cases=(\d+)", o, re.M)
        if not to and not m and not fails and p.returncode != 0: fails = ["FAIL [driver-died] the driver died with status %s" % p.returncode]
        return {"driver": os.path.basename(src), "cfg": cfg, "cases": int(m.group(1)) if m else 0, "fails": fails, "rc": p.returncode, "timeout": to, "wall_s": round(time.time() - t, 1), "cmd": " ".join(cmd[:1] + cmd[1:]), "src": src,
                "notes": [l for l in o.splitlines() if l.startswith("NOTE ")][:20]}

def main():
    work = tempfile.mkdtemp(prefix="vc_%s_" % PROP); os.chmod(work, 0o755)
    try: return check(work)
    finally: shutil.rmtree(work, ignore_errors=True)

def check(work):
    spec = importlib.import_module("vc.specs." + PROP.lower())
    nat = Native(work + "/nat"); nat.start()
    env = harness.Env(work); rs = []
    tasks = spec.tasks()
    try: rs = harness.run_tasks(env, tasks, TH, jobs=6)
    except Exception as e: env.errors.append(repr(e)[:1500])
    failed = [r for r in rs if r["status"] == "failed"]
    nat.join()
    # replay the verifier's counterexamples against the real code
    extra = []
    for r in failed:
        for o in r["obl"]:
            for k, v in (o.get("model") or {}).items():
                if isinstance(v, bool): v = int(v)
                if isinstance(v, int) and -(1 << 63) <= v < (1 << 63): extra += ["--int", str(v)]
                elif isinstance(v, str) and not v.startswith("?"):
                    try: extra += ["--str", v.encode("latin-1", "replace").hex()]
                    except Exception: pass
    replays = []
    if failed and not any(n["fails"] for n in nat.res):
        replays = [nat.drive(b, extra[:400]) for b in nat.built]
    runs = nat.res + replays
    known = findings(); seen = {}
    real = []
    for n in runs:
        for l in n["fails"]:
            m = re.match(r"FAIL \[([^\]]*)\]", l); key = m.group(1) if m else ""
            k = [f for f in known if f["key"] == key]
            if k: seen[key] = (k[0]["what"], l)
            else: real.append((n, l))
    pfail = []
    for r in failed:
        for o in r["obl"]:
            if o["status"] == "failed" and not (o.get("note") or "").startswith("[tainted]"):
                key = (r["name"] + "::" + o["name"]).replace(" ", "_")
                k = [f for f in known if f["key"] == key]
                if k: seen[key] = (k[0]["what"], "")
                else: pfail.append((r, o))
    undec = [r for r in rs if r["status"] == "undecided"]
    for key, (what, l) in seen.items(): print("KNOWN-FINDING: property=%s %s" % (PROP, what))
    write_evidence(spec, env, nat, rs, runs, seen, undec, pfail, real)
    for r in rs:
        print("%-9s %s (%d paths, %d obligations, %.1fs)%s" % (r["status"], r["name"], r["paths"], sum(o["n"] for o in r["obl"]), r["time"], " " + r["reason"] if r["reason"] else ""))
    for n in runs: print("native   %s[%s]: %d cases, %d failures, %.1fs%s" % (n["driver"], n["cfg"], n["cases"], len(n["fails"]), n["wall_s"], " TIMEOUT" if n["timeout"] else ""))
    for e in env.errors + nat.err: print("note: " + e[:1500])
    if real or pfail:
        rp = os.path.join(HERE, "replay"); os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, "%s-%s.txt" % (PROP, TIER))
        with open(path, "w") as f:
            f.write("property %s\n" % PROP)
            for r, o in pfail: f.write("failed obligation: %s :: %s\n  in functions: %s\n  last source line: %s\n  note: %s\n  verifier's counterexample: %s\n  path: %s\n" % (r["name"], o["name"], ", ".join(r["fns"]), o.get("line"), o.get("note"), o.get("model"), o.get("path")))
            for n, l in real[:40]: f.write("%s\n" % l)
            for n in {id(n): n for n, _ in real}.values():
                f.write("replay: build native/%s (%s configuration) against /repo/src and run it with: %s\n" % (n["driver"], n["cfg"], n["cmd"].split(" ", 1)[1]))
        for r, o in pfail[:5]: print("failed obligation: %s :: %s %s" % (r["name"], o["name"], str(o.get("model"))[:300]))
        for n, l in real[:5]: print(l[:600])
        if real: print("VIOLATION property=%s replay=%s" % (PROP, path))
        else: print("VIOLATION property=%s replay=%s no-failing-input-found" % (PROP, path))
        return 1
    return 0

def write_evidence(spec, env, nat, rs, runs, seen, undec, pfail, real):
    d = os.path.join(HERE, "evidence"); os.makedirs(d, exist_ok=True)
    tot = sum(o["n"] for r in rs for o in r["obl"]); dis = sum(o["n"] for r in rs for o in r["obl"] if o["status"] == "discharged")
    be = {}; con = {}
    for r in rs:
        for k, v in r["backends"].items(): be[k] = be.get(k, 0) + v
        for k, v in r["contracts"].items(): con[k] = con.get(k, 0) + v
    names = {}
    for r in rs:
        for o in r["obl"]: names.setdefault(r["name"] + " :: " + o["name"], 0); names[r["name"] + " :: " + o["name"]] += o["n"]
    ev = {"property": PROP, "tier": TIER, "seed": SEED, "level": "proof", "wall_s": round(time.time() - T0, 2), "coverage": {
        "obligations": tot, "discharged": dis,
        "checker_cmd": "python3-vt checks/check.py %s %s (exporter/exporter.cpp on clang 18 -> vc/ symbolic verifier -> z3 4.x python API%s)" % (PROP, TIER, ", cvc5 1.1.2 cross-check" if TH else ", cvc5 1.1.2 fallback"),
        "trusted_base": sorted(set(getattr(spec, "TRUST", [])) | {t for r in rs for t in r["trust"]} | {"clang 18 front end and exporter/exporter.cpp", "vc/core.py, vc/interp.py (verification condition generation)", "vc/lib.py contracts of the C and C++ standard library (assumed)", "z3, cvc5"}),
        "functions_under_contract": sorted({f for r in rs for f in r["fns"]}),
        "functions_executed_from_source": sorted({f for r in rs for f in r["inlined"]}),
        "callee_contracts_used": con, "library_models_used": sorted({m for r in rs for m in r["models"]}),
        "proofs": [{"name": r["name"], "status": r["status"], "reason": r["reason"], "paths": r["paths"], "obligations": sum(o["n"] for o in r["obl"]), "seconds": r["time"]} for r in rs],
        "obligations_by_name": names, "discharged_by_backend": be, "cross_checked_by_cvc5": sum(r["crossed"] for r in rs),
        "solver_queries": sum(r["queries"] for r in rs), "solver_seconds": round(sum(r["solver"] for r in rs), 2),
        "assumptions_unchecked": getattr(spec, "ASSUME", []),
        "undecided_functions_left_to_bounded_check": [{"proof": r["name"], "reason": r["reason"]} for r in undec],
        "bounded": {"explanation": "native drivers run the real code on generated cases; labelled bounded, never counted as proved", "runs": [{k: n[k] for k in ("driver", "cfg", "cases", "wall_s", "timeout", "notes")} | {"failures": len(n["fails"])} for n in runs]},
        "known_findings_seen": sorted(seen), "errors": (env.errors + nat.err)[:10], "samples": [r["name"] + ": " + ", ".join(sorted({o["name"] for o in r["obl"]}))[:300] for r in rs[:4]],
        "exporter": env.log}}
    if not getattr(spec, "tasks")(): ev["level"] = "exploration"
    json.dump(ev, open(os.path.join(d, PROP + ".json"), "w"), indent=1)

if __name__ == "__main__": sys.exit(main())
