"""Which planted changes alter lines of the original repository (and not only lines of our own /repo commits)."""
import re, subprocess, glob, os, sys
REPO = os.environ.get("SEED_REPO", "/repo"); BASE = "c44664d"
def git(*a): return subprocess.run(["git", "-C", REPO] + list(a), capture_output=True, text=True, errors="replace", check=True).stdout
def added(path, memo={}):
    if path not in memo:
        s = set()
        for h in re.findall(r"(?m)^@@ -\S+ \+(\d+)(?:,(\d+))? @@", git("diff", "-U0", BASE, "HEAD", "--", path)):
            a, n = int(h[0]), int(h[1] or 1); s |= set(range(a, a + n))
        memo[path] = s
    return memo[path]
for d in sorted(glob.glob("/verif/seeded/*/")):
    ok = False; path = None
    import tempfile
    t = open(d + "patch.diff", errors="replace").read()
    # -U0 view
    for f in re.split(r"(?m)^diff --git ", t)[1:]:
        path = re.match(r"a/(\S+)", f).group(1); total = len(git("show", "HEAD:" + path).splitlines())
        for h in re.split(r"(?m)^(?=@@ )", f)[1:]:
            ln = int(re.match(r"@@ -(\d+)", h).group(1)); rows = h.splitlines()[1:]; i = 0
            while i < len(rows):
                if rows[i][:1] in "+-":
                    rm = []; ad = 0; at = ln
                    while i < len(rows) and rows[i][:1] in ("+", "-", "\\"):
                        if rows[i][0] == "-": rm.append(ln); ln += 1
                        elif rows[i][0] == "+": ad += 1
                        i += 1
                    old = [x not in added(path) for x in (rm if rm else (at - 1, at)) if 1 <= x <= total]
                    if old and (any(old) if rm else all(old)): ok = True
                else: ln += 1; i += 1
    r = subprocess.run(["git", "-C", REPO, "apply", "--check", d + "patch.diff"], capture_output=True)
    if not ok or r.returncode: print(os.path.basename(d[:-1]), "" if ok else "only our own lines", "" if not r.returncode else "does not apply")
