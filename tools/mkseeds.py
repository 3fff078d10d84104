#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from tools/seeds.py: patch.diff, demo.sh and its files, meta.json.
Each is confirmed in a scratch copy of /repo: builds, passes the stable tests, and the demonstration
passes without and fails with the change."""
import sys, os, json, shutil, subprocess, tempfile, difflib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import seeds
REPO = "/repo"; BASE = "5aa6ccd"
def sh(cmd, cwd=None, t=300): return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, errors="replace", timeout=t)
want = sys.argv[1:]
force = "--force" in want; want = [w for w in want if w != "--force"]
basecache = {}
def basefile(f):
    if f not in basecache: basecache[f] = set(sh(f"git show {BASE}:{f}", REPO).stdout.split("\n"))
    return basecache[f]
ok = True
scratch = tempfile.mkdtemp(prefix="seed"); 
sh(f"cp -a {REPO} {scratch}/repo"); R = scratch + "/repo"
def clean(): sh("git checkout -q -- .", R)
for s in seeds.SEEDS:
    sid = s["id"]
    if want and sid not in want: continue
    clean()
    d = os.path.join(V, "seeded", sid)
    orig = {}
    bad = None
    for f, old, new in s["edits"]:
        p = os.path.join(R, f); t = open(p).read(); orig.setdefault(f, t)
        if t.count(old) != s.get("count", 1): bad = f"{f}: found {t.count(old)} times: {old[:60]!r}"; break
        open(p, "w").write(t.replace(old, new))
    if bad: print(sid, "STALE", bad); ok = False; continue
    diff = sh("git diff", R).stdout
    touched = False; cur = None
    for l in diff.split("\n"):
        if l.startswith("--- a/"): cur = l[6:]
        elif l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] in basefile(cur): touched = True
    if not touched: print(sid, "WARNING: changes no line of the original")
    if os.path.exists(d + "/patch.diff") and open(d + "/patch.diff").read() == diff and not force and not want:
        continue
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + "/patch.diff", "w").write(diff)
    D = os.path.join(V, "tools", "seeddrv")
    if "demo" in s:
        open(d + "/demo.sh", "w").write(s["demo"])
    else: shutil.copy(D + "/demo.sh", d + "/demo.sh")
    os.chmod(d + "/demo.sh", 0o755)
    drv = s.get("drv")
    if drv: open(d + "/drv.c", "w").write(drv)
    else: shutil.copy(D + "/drv.c", d + "/drv.c")
    progs = s["prog"] if isinstance(s["prog"], list) else [s["prog"]]
    for i, p in enumerate(progs): open(d + f"/prog{i}.bas", "w").write(p)
    open(d + "/expect.txt", "w").write(s.get("expect", ""))
    if "opts" in s: open(d + "/opts", "w").write(s["opts"])
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    if "expect" not in s: # what the unchanged tree does: to be reviewed
        clean(); r = sh(f"{d}/demo.sh", R); out = "".join(l[2:] + "\n" for l in r.stdout.split("\n") if l.startswith("< "))
        open(d + "/expect.txt", "w").write(out); print(sid, "expect:", out.replace("\n", " | "))
        sh(f"git apply {d}/patch.diff", R)
    # confirm: demo in a moved copy
    mv = scratch + "/demo"; shutil.rmtree(mv, ignore_errors=True); shutil.copytree(d, mv)
    for x in ("patch.diff", "meta.json"): os.remove(mv + "/" + x)
    r1 = sh(f"{mv}/demo.sh", R)
    clean()
    r0 = sh(f"{mv}/demo.sh", R)
    a = sh(f"git apply {d}/patch.diff", R)
    # the build and test scripts work on /repo: same commands here
    env = open("/opt/vp/env.sh").read().replace("cd /repo", f"cd {R}")
    bt = env + f"\nrm -f sbc test; rmake debug >/dev/null 2>{scratch}/err && rmake test >/dev/null 2>>{scratch}/err && [ -x sbc ] && [ -x test ]"
    b = subprocess.run(["bash", "-c", bt], cwd=R, capture_output=True, text=True, errors="replace")
    t = open("/opt/vp/test.sh").read().replace("/repo", R).replace(". /opt/vp/env.sh", env)
    open(scratch + "/test.sh", "w").write(t)
    tr = subprocess.run(["bash", scratch + "/test.sh", scratch + "/t.json"], cwd=R, capture_output=True, text=True, errors="replace")
    base = json.load(open("/opt/vp/BASELINE.json")); stable = set(base.get("stable", base))
    try: miss = stable - set(json.load(open(scratch + "/t.json"))["passed"])
    except Exception as e: miss = {"no result: %s" % e}
    state = "OK" if r0.returncode == 0 and r1.returncode == 1 and a.returncode == 0 and b.returncode == 0 and not miss else "BAD"
    if state == "BAD": ok = False
    print(sid, state, "demo clean", r0.returncode, "with", r1.returncode, "apply", a.returncode, "build", b.returncode, "missing tests", sorted(miss))
    if state == "BAD" or "-v" in sys.argv: print("  clean:", r0.stdout[-600:], r0.stderr[-300:], "\n  with:", r1.stdout[-600:])
clean(); shutil.rmtree(scratch)
sys.exit(0 if ok else 1)
