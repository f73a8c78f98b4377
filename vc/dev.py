"""developer entry: python3-vt -m vc.dev SPEC [task-substring]"""
import sys, os, importlib, time
os.environ.setdefault("VC_EXPORTER", "/tmp/exporter")
from . import harness
if __name__ == "__main__":
    spec = importlib.import_module("vc.specs." + sys.argv[1])
    sub = sys.argv[2] if len(sys.argv) > 2 else ""
    work = "/tmp/vcdev"; import shutil; shutil.rmtree(work, ignore_errors=True); os.makedirs(work, exist_ok=True)
    env = harness.Env(work)
    tasks = [t for t in spec.tasks() if sub in t.name]
    if sub: os.environ["VC_DEBUG"] = "1"
    rs = harness.run_tasks(env, tasks, jobs=1 if sub else 7)
    if env.errors: print("ERRORS", env.errors)
    for r in rs:
        print("%-10s %-46s paths=%d obl=%d t=%.1f %s" % (r["status"], r["name"], r["paths"], sum(o["n"] for o in r["obl"]), r["time"], r["reason"]))
        for o in r["obl"]:
            if o["status"] != "discharged": print("     ", o["status"], o["name"], "L", o.get("line"), o.get("note"), str(o.get("model"))[:400])
            elif sub: print("      ok", o["name"], o["n"])
