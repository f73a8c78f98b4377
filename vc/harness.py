"""Builds the exporter, exports /repo's current source, runs proof tasks in parallel."""
import os, sys, subprocess, time, multiprocessing, tempfile, shutil, json, importlib, traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VC_REPO", "/repo")
SRC = {"g3log": "g3log.cpp", "logworker": "logworker.cpp", "logcapture": "logcapture.cpp", "logmessage": "logmessage.cpp",
       "loglevels": "loglevels.cpp", "filesink": "filesink.cpp", "time": "time.cpp", "crashhandler": "crashhandler_unix.cpp"}

def gen_include(work, cfg):
    d = os.path.join(work, "inc_" + cfg, "g3log"); os.makedirs(d, exist_ok=True)
    t = "#pragma once\n#define G3LOG_DEBUG DEBUG\n"
    if cfg == "dyn": t = "#pragma once\n#define G3LOG_DEBUG DEBUG\n#define G3_DYNAMIC_LOGGING\n"
    if cfg == "max": t += "#define G3_DYNAMIC_MAX_MESSAGE_SIZE\n"
    p = os.path.join(d, "generated_definitions.hpp")
    open(p, "w").write(t)
    return os.path.dirname(d)

class Env:
    def __init__(self, work): self.work = work; self.progs = {}; self.errors = []; self.log = {}
    def exporter(self):
        out = os.path.join(self.work, "exporter")
        pre = os.environ.get("VC_EXPORTER")
        if pre and os.path.exists(pre): return pre
        if not os.path.exists(out):
            t = time.time()
            r = subprocess.run(["bash", os.path.join(HERE, "exporter", "build.sh"), out], capture_output=True, text=True)
            self.log["exporter_build_s"] = round(time.time() - t, 1)
            if r.returncode: raise RuntimeError("exporter build failed: " + r.stderr[-2000:])
        return out
    def export(self, units):
        """units: list of (tu, cfg) -> json path; exported in parallel"""
        exe = self.exporter(); procs = []; outs = {}
        for tu, cfg in units:
            src = os.path.join(HERE, "client", tu + ".cpp") if tu.startswith("client") else os.path.join(REPO, "src", SRC[tu])
            out = os.path.join(self.work, "%s.%s.json" % (tu, cfg)); outs[(tu, cfg)] = out
            if os.path.exists(out): continue
            roots = REPO + "/src" + ("," + os.path.join(HERE, "client") if tu.startswith("client") else "")
            inc = gen_include(self.work, cfg)
            cmd = [exe, src, tu, out, roots, "--", "-std=c++17", "-O2", "-DNDEBUG", "-I" + REPO + "/src", "-I" + inc, "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"]
            procs.append((tu, cfg, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), out))
        for tu, cfg, p, out in procs:
            o, _ = p.communicate()
            if p.returncode or not os.path.exists(out):
                self.errors.append("export of %s (%s) failed: %s" % (tu, cfg, o[-1500:]))
                if os.path.exists(out): os.unlink(out)
        return outs
    def program(self, tus, cfg="def"):
        from .prog import Program
        k = (tuple(tus), cfg)
        if k not in self.progs:
            outs = self.export([(t, cfg) for t in tus])
            P = Program()
            for t in tus:
                if not os.path.exists(outs[(t, cfg)]): raise RuntimeError("no export of %s" % t)
                P.load(outs[(t, cfg)])
            self.progs[k] = P.finish()
        return self.progs[k]

class Task:
    """one proof: fn(ctx, I) explores a function under contract"""
    def __init__(self, name, fn, tus, cfg="def", fns=(), covers=(), budget=None, kind="contract", max_paths=4000):
        self.name = name; self.fn = fn; self.tus = tus; self.cfg = cfg; self.fns = list(fns); self.covers = covers; self.budget = budget; self.kind = kind; self.max_paths = max_paths

def run_task(env, task, thorough):
    from .core import Prover, Undecided
    from .interp import Interp
    from .lib import LibModel
    import sys as _s
    _s.setrecursionlimit(20000)
    pr = Prover(timeout_ms=20000 if thorough else 8000, cross=thorough, budget=(task.budget or 150) * (3 if thorough else 1))
    try: prog = env.program(task.tus, task.cfg)
    except Exception as e:
        return {"name": task.name, "status": "undecided", "reason": "no program: %r" % (e,), "obl": [], "paths": 0, "time": 0, "fns": task.fns, "solver": 0, "queries": 0, "trust": [], "contracts": {}, "models": [], "inlined": [], "backends": {}, "crossed": 0}
    lib = LibModel(); exhaust = 0
    def go(ctx):
        I = Interp(ctx, prog, lib); I.exhaust = exhaust
        task.fn(ctx, I)
    pf = pr.run(task.name, go, task.fns, task.covers, task.max_paths)
    if pf.status != "proved" and pr.havocs:
        # a loop without a specification: explored without the loop rule where it provably ends within a few iterations
        if os.environ.get("VC_VERBOSE"): print("loop rule:", pf.status, pf.reason)
        exhaust = 16; pr.budget = min(pr.budget, int(os.environ.get("VC_EXHAUST", "60"))); pf2 = pr.run(task.name, go, task.fns, task.covers, task.max_paths)
        if pf2.status in ("proved", "failed"): pf = pf2
    obl = {}
    out = []
    for o in pf.obl:
        k = (o.name, o.status)
        e = obl.setdefault(k, {"name": o.name, "status": o.status, "n": 0, "time": 0.0, "backend": o.backend, "safety": o.safety})
        e["n"] += 1; e["time"] += o.time
        if o.status != "discharged" and "model" not in e: e["model"] = o.model; e["line"] = o.line; e["note"] = o.note; e["path"] = str(o.path)[:500]
        if o.status == "failed" and not (o.note or "").startswith("[tainted]") and (e.get("note") or "").startswith("[tainted]"): e["model"] = o.model; e["note"] = o.note
    return {"name": task.name, "status": pf.status, "reason": pf.reason, "obl": list(obl.values()), "paths": pf.paths, "time": round(pf.time, 2), "fns": task.fns, "kind": task.kind,
            "solver": pr.solver_time, "queries": pr.queries, "trust": sorted(pr.trust), "contracts": pr.used_contracts, "models": sorted(pr.models_used), "inlined": sorted(pr.inlined),
            "backends": pr.backends, "crossed": pr.crossed}

_G = {}
def _work(i):
    env, tasks, th = _G["a"]
    try: return run_task(env, tasks[i], th)
    except BaseException as e:
        t = tasks[i]
        return {"name": t.name, "status": "undecided", "reason": "internal: %s" % traceback.format_exc()[-600:], "obl": [], "paths": 0, "time": 0, "fns": t.fns, "solver": 0, "queries": 0, "trust": [], "contracts": {}, "models": [], "inlined": [], "backends": {}, "crossed": 0}
def run_tasks(env, tasks, thorough=False, jobs=7):
    for u in {(tuple(t.tus), t.cfg) for t in tasks}:
        pass
    env.export(sorted({(tu, t.cfg) for t in tasks for tu in t.tus}))
    for k in {(tuple(t.tus), t.cfg) for t in tasks}:
        try: env.program(list(k[0]), k[1])
        except Exception as e: env.errors.append(repr(e))
    _G["a"] = (env, tasks, thorough)
    if jobs <= 1 or len(tasks) <= 1: return [_work(i) for i in range(len(tasks))]
    with multiprocessing.get_context("fork").Pool(min(jobs, len(tasks)), maxtasksperchild=1) as pool:
        return pool.map(_work, range(len(tasks)), chunksize=1)
