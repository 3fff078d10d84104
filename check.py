#!/usr/bin/env python3
"""Builds the check of one property from /repo's working tree and runs it.

  check.py P01                 tier from VERIF_TIER (default quick), seed from VERIF_SEED
  check.py P01 --tier thorough
  check.py P01 --replay FILE   re-runs a saved failing case
  check.py --setup             builds every check once (setup_cmd)
"""
import sys, os, subprocess, hashlib, glob, shutil, tempfile, concurrent.futures, fcntl
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SBC_REPO", "/repo")
H = os.path.join(V, "harness")
BUILD = os.path.join(V, "build")
SAN = ["-fsanitize=address,bounds,integer-divide-by-zero,null,unreachable,return", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
SAN = ["-fsanitize=address,bounds,integer-divide-by-zero", "-fstrict-flex-arrays=3", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
INC = ["-I" + os.path.join(REPO, "source", d) for d in ("", "graphics/pc", "graphics", "interpreter", "subsystem", "extension")] + ["-I" + os.path.join(REPO, "util")]
CFLAGS = ["-std=gnu11", "-O1", "-g1", "-w", "-DPC", "-include", os.path.join(H, "silence.h")] + INC + SAN
CXXFLAGS = ["-std=gnu++17", "-O1", "-g1", "-w", "-I" + H, "-I" + os.path.join(REPO, "source")]
WRAP = ["-Wl,--wrap=sbc_malloc", "-Wl,--wrap=sbc_calloc", "-Wl,--wrap=thrd_sleep", "-Wl,--wrap=time"]
LIBS = ["-lm", "-lcsfml-audio", "-lcsfml-graphics", "-lcsfml-window", "-lcsfml-system", "-lpthread"]

def sources():
    r = []
    for d in ("source", "source/graphics/pc", "source/interpreter", "source/subsystem", "source/extension"):
        r += sorted(glob.glob(os.path.join(REPO, d, "*.c")))
    return [f for f in r if os.path.basename(f) != "main.c"]

def tree_hash():
    h = hashlib.sha256(b"2")
    files = []
    for root, dirs, fs in os.walk(os.path.join(REPO, "source")):
        dirs.sort()
        files += [os.path.join(root, f) for f in sorted(fs) if f.endswith((".c", ".h"))]
    files += glob.glob(os.path.join(REPO, "resources", "*.frag")) + glob.glob(os.path.join(REPO, "util", "*.[ch]"))
    for f in files + sorted(glob.glob(os.path.join(H, "*"))):
        h.update(os.path.relpath(f, "/").encode()); h.update(open(f, "rb").read())
    h.update(repr((CFLAGS, CXXFLAGS, WRAP)).encode())
    return h.hexdigest()[:16]

def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode and cmd[-1].endswith("P26.o.tmp"): # shader not written in the subset p26.cc understands
        p = subprocess.run(cmd + ["-DNO_FRAG"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, " ".join(cmd) + "\n" + p.stdout

def build(props):
    """Returns the directory holding the binaries of `props`."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        out = os.path.join(BUILD, tree_hash())
        if not os.path.isdir(out):
            olds = sorted((d for d in glob.glob(os.path.join(BUILD, "*")) if os.path.isdir(d)), key=os.path.getmtime)
            for d in olds[:-2]:
                shutil.rmtree(d, ignore_errors=True)
        os.makedirs(out, exist_ok=True)
        jobs = []
        def obj(src, cc, flags, tag):
            o = os.path.join(out, tag + ".o")
            if not os.path.exists(o):
                jobs.append((o, [cc] + flags + ["-c", src, "-o", o + ".tmp"]))
            return o
        repo_objs = [obj(s, "clang", CFLAGS, "r_" + os.path.relpath(s, REPO).replace("/", "_")) for s in sources()]
        base = [obj(os.path.join(H, "shim.c"), "clang", CFLAGS, "shim"),
                obj(os.path.join(H, "engine.cc"), "clang++", CXXFLAGS, "engine"),
                obj(os.path.join(H, "model.cc"), "clang++", CXXFLAGS, "model")]
        links = []
        for p in props:
            po = [obj(os.path.join(H, p.lower() + ".cc"), "clang++", CXXFLAGS, p)]
            ext = os.path.join(H, p.lower() + "_shim.c")
            if os.path.exists(ext):
                po.append(obj(ext, "clang", CFLAGS, p + "_shim"))
            b = os.path.join(out, p)
            if not os.path.exists(b):
                links.append((b, ["clang++"] + SAN + WRAP + po + base + repo_objs + LIBS + ["-o", b + ".tmp"]))
        for batch in (jobs, links):
            with concurrent.futures.ThreadPoolExecutor(8) as ex:
                for (o, _), (rc, txt) in zip(batch, ex.map(lambda j: run(j[1]), batch)):
                    if rc != 0:
                        sys.stderr.write(txt); sys.stderr.write("check.py: build failed\n"); raise SystemExit(2)
                    os.rename(o + ".tmp", o)
        os.utime(out)
        return out

def all_props():
    return sorted(os.path.basename(f)[:-3].upper() for f in glob.glob(os.path.join(H, "p[0-9][0-9].cc")))

def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        print(build(all_props())); return 0
    prop = a[0]; rest = a[1:]
    tier = os.environ.get("VERIF_TIER", "quick"); seed = os.environ.get("VERIF_SEED", "1")
    out = build([prop])
    tmp = tempfile.mkdtemp(prefix="sbcverif.")
    try:
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        cmd = [os.path.join(out, prop), "--tier", tier, "--seed", seed, "--tmp", tmp, "--replaydir", os.path.join(V, "replay"),
               "--evidence", os.path.join(V, "evidence", prop + ".json")]
        if "--replay" in rest:
            i = rest.index("--replay"); rest[i + 1] = os.path.abspath(rest[i + 1])
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:handle_abort=0:exitcode=77:symbolize=0:detect_stack_use_after_return=0",
                   UBSAN_OPTIONS="print_stacktrace=0:symbolize=0", TZ="UTC", LC_ALL="C.UTF-8")
        sys.stdout.flush()
        return subprocess.call(cmd + rest, cwd=tmp, env=env)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
