#!/usr/bin/env python3
"""Plants and validates the seeded changes (development aid; no check uses it).
seed.py make NAME PROPERTY BACKEND SPECFILE   build seeded/NAME from a spec (edits + demo source), see tools/README
seed.py validate NAME...                      in a scratch copy: applies, builds, existing tests pass, demo 0 -> nonzero
seed.py catch NAME... [--prop P] [--tier T]   runs the property's check against the scratch copy with the change applied"""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, "seeded")
WT = os.environ.get("SEED_WT", "/tmp/seedwt")
SRC = "libs/e_float/src/"
def sh(cmd, **kw): return subprocess.run(cmd, shell=isinstance(cmd, str), **kw)
def worktree():
    """a copy of /repo at HEAD, with its build output, and copies of the build scripts that point at it"""
    if not os.path.isdir(WT):
        os.makedirs(WT); subprocess.check_call(["cp", "-a", "/repo", WT + "/repo"])
        os.makedirs(WT + "/vp")
        for f in os.listdir("/opt/vp"):
            s = open("/opt/vp/" + f, errors="replace").read().replace("/opt/vp/", WT + "/vp/").replace("/repo", WT + "/repo")
            open(WT + "/vp/" + f, "w").write(s); shutil.copymode("/opt/vp/" + f, WT + "/vp/" + f)
    head = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()
    sh(["git", "-C", WT + "/repo", "fetch", "-q", "/repo", "HEAD"], check=True)
    sh(["git", "-C", WT + "/repo", "checkout", "-q", "-f", "--detach", head], check=True)
    sh(["git", "-C", WT + "/repo", "clean", "-qfd", "libs"], check=True)
    return WT + "/repo"
def rep(path, old, new, count=1):
    s = open(path, encoding="utf-8", newline="").read(); crlf = "\r\n" in s
    if crlf: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
    assert s.count(old) == count, (path, old, s.count(old)); open(path, "w", encoding="utf-8", newline="").write(s.replace(old, new))
def make(name, prop, backends, edits, demo, needs, breaks, std=True, gen=None):
    wt = worktree(); d = os.path.join(SEED, name); os.makedirs(d, exist_ok=True)
    for e in edits: rep(os.path.join(wt, SRC if not e[0].startswith("libs/") else "", e[0]), *e[1:])
    open(d + "/patch.diff", "w", newline="").write(subprocess.check_output(["git", "-C", wt, "diff"]).decode("utf-8"))
    open(d + "/demo.cpp", "w").write(demo)
    open(d + "/demo.sh", "w").write(DEMO.replace("@B@", backends)); os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    sh(["git", "-C", wt, "checkout", "-q", "-f", "."], check=True)
DEMO = '''#!/bin/bash
# Builds the library from the current tree for each engine and runs demo.cpp against it: 0 = behaves, 1 = broken.
here=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 3; trap 'rm -rf -- "$T"' EXIT
cd libs/e_float/src || exit 3; rc=0
for b in @B@; do
  F="-std=c++17 -O1 -w -DE_FLOAT_TYPE_${b^^} -I. -I../../math/include"; mkdir -p "$T/$b"
  find functions e_float/*.cpp e_float/$b utility -name '*.cpp' | xargs -P8 -I{} sh -c 'g++ '"$F"' -c {} -o '"$T/$b"'/$(basename {}).o' || exit 3
  g++ $F "$here/demo.cpp" "$T/$b"/*.o -lmpfr -lgmp -lpthread -o "$T/$b/demo" || exit 3
  timeout 100 "$T/$b/demo" || { echo "demo failed on $b (status $?)"; rc=1; }
done
exit $rc
'''
def validate(name):
    wt = worktree(); d = os.path.join(SEED, name); r = {}
    r["demo_clean"] = sh(["bash", d + "/demo.sh"], cwd=wt, stdout=subprocess.DEVNULL).returncode
    if sh(["git", "-C", wt, "apply", d + "/patch.diff"]).returncode: r["apply"] = 1; return r
    p = sh(["bash", d + "/demo.sh"], cwd=wt, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True); r["demo_patched"] = p.returncode; r["demo_says"] = p.stdout[-200:]
    p = sh(["bash", WT + "/vp/test.sh", WT + "/out.json"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    o = json.load(open(WT + "/out.json")); r["passed"], r["failed"] = len(o["passed"]), o["failed"][:5]
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    missing = [t for t in base if t not in set(o["passed"])]; r["missing"] = missing[:5]
    r["ok"] = r["demo_clean"] == 0 and r["demo_patched"] not in (0, 3) and not missing
    sh(["git", "-C", wt, "checkout", "-q", "-f", "."], check=True); return r
def catch(name, prop=None, tier="quick"):
    wt = worktree(); d = os.path.join(SEED, name); prop = prop or json.load(open(d + "/meta.json"))["property"]
    sh(["git", "-C", wt, "apply", d + "/patch.diff"], check=True)
    e = dict(os.environ, VERIF_REPO=wt, VERIF_OUT=WT + "/out")
    p = sh([sys.executable, os.path.join(ROOT, "runner/vrun.py"), prop, "--tier", tier], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=ROOT)
    sh(["git", "-C", wt, "checkout", "-q", "-f", "."], check=True)
    return p.returncode, p.stdout
if __name__ == "__main__":
    a = sys.argv[2:]
    for n in [x for x in a if not x.startswith("--")] or sorted(os.listdir(SEED)):
        if sys.argv[1] == "validate":
            r = validate(n); print(("VALID   " if r.get("ok") else "INVALID ") + n, r, flush=True)
        else:
            prop = next((x[7:] for x in a if x.startswith("--prop=")), None); tier = next((x[7:] for x in a if x.startswith("--tier=")), "quick")
            rc, out = catch(n, prop, tier); print(("CAUGHT " if rc == 1 and "VIOLATION property=" in out else "MISSED rc=%d " % rc) + n + " by " + (prop or json.load(open(os.path.join(SEED, n, "meta.json")))["property"]), flush=True)
            if rc != 1: print(out[-1500:])
            elif "-v" in os.environ.get("SEED_V", ""): print(out[-1500:])
