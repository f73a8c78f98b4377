#!/usr/bin/env python3
"""mkseed.py ID PROP def|dyn NEEDS BREAKS < demo.cpp : makes seeded/ID from the current diff in /repo, then reverts it"""
import sys, os, json, subprocess
R = os.environ.get("SEED_REPO", "/repo"); i, prop, cfg, needs, what = sys.argv[1:6]; d = "/verif/seeded/" + i; os.makedirs(d, exist_ok=True)
diff = subprocess.run("git -C %s diff" % R, shell=True, capture_output=True).stdout
assert diff.strip(), "no change in /repo"
open(d + "/patch.diff", "wb").write(diff); subprocess.run("git -C %s checkout -q -- ." % R, shell=True)
src = sys.stdin.read()
if src.strip(): open(d + "/demo.cpp", "w").write(src)
t = open("/verif/tools/demo.sh.tpl").read().replace("@B@", "_build" if cfg == "def" else "_build_dynamic").replace("@T@", "60")
t = t.replace("@D@", "")
open(d + "/demo.sh", "w").write(t)
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
