#!/usr/bin/env python3
"""Build the monitored binaries from /repo's working tree, run the workloads, decide, write evidence.
Usage: vrun.py <property> [--tier quick|thorough] [--seed N] [--keep]"""
import array, concurrent.futures as cf, fnmatch, glob, hashlib, json, os, resource, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARN = os.path.join(VERIF, "harness")
SRC = os.path.join(REPO, "libs/e_float/src")
NCPU = max(2, min(8, os.cpu_count() or 2))
sys.path.insert(0, HERE)

FLAVOURS = {
    # functional: optimised a little, library assertions on
    "fun":  ["-O1", "-D_GLIBCXX_ASSERTIONS"],
    "fast": ["-O2"],
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-D_GLIBCXX_DEBUG", "-fsanitize=address,undefined",
             "-fsanitize=float-cast-overflow", "-fno-sanitize-recover=all"],
    "vg":   ["-O1", "-g1", "-fno-omit-frame-pointer"],
    "tsan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
}
BACKENDS = {"efx": ["-DE_FLOAT_TYPE_EFX"], "gmp": ["-DE_FLOAT_TYPE_GMP"], "mpfr": ["-DE_FLOAT_TYPE_MPFR"]}
SLOW_O0 = ("tables/",)      # large generated tables: optimisation buys nothing

class HarnessError(Exception):
    pass

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:32]

def lib_sources(backend):
    out = []
    for root in ("functions", "e_float", "utility"):
        for f in sorted(glob.glob(os.path.join(SRC, root, "**", "*.cpp"), recursive=True)):
            rel = os.path.relpath(f, SRC)
            other = [b for b in BACKENDS if b != backend and ("/%s/" % b) in rel]
            if not other:
                out.append(f)
    return out

_hdr = {}
def header_hash():
    if "h" not in _hdr:
        h = hashlib.sha256()
        for top in (os.path.join(REPO, "libs"), HARN):
            for d, _, fs in sorted(os.walk(top)):
                for f in sorted(fs):
                    if f.endswith((".h", ".hpp", ".inc", ".ipp")) or "." not in f:
                        with open(os.path.join(d, f), "rb") as fh:
                            h.update(f.encode() + b"\0" + fh.read())
        _hdr["h"] = h.hexdigest()
    return _hdr["h"]

_locks = {}
_lk = threading.Lock()
def compile_one(src, flags, cxx="g++"):
    with open(src, "rb") as fh:
        key = sha(cxx, " ".join(flags), fh.read(), src, header_hash())
    obj = os.path.join(BUILD, "obj", key + ".o")
    with _lk:
        lock = _locks.setdefault(obj, threading.Lock())
    with lock:
        if os.path.exists(obj):
            os.utime(obj)
            return obj
        tmp = obj + ".%d.tmp" % os.getpid()
        p = subprocess.run([cxx] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise HarnessError("compilation of %s failed:\n%s" % (src, p.stdout[-4000:]))
        os.replace(tmp, obj)
    return obj

class Unit:
    """One monitored binary: a backend at a precision, in one build flavour, with some monitors."""
    def __init__(self, backend, srcs, digits=None, flavour="fun", scale=1.0, only=None, defs=(), shards=None, cpu=30, env=None, label=None, libs=(), cxx="g++", lib=True, log=False, tier=None, wrap=(), faults_only=False, tf=1.0):
        self.backend, self.srcs, self.digits, self.flavour, self.scale, self.only = backend, list(srcs), digits, flavour, scale, only
        self.defs, self.shards, self.cpu, self.env, self.libs, self.cxx, self.lib, self.log, self.tier = list(defs), shards, cpu, env or {}, list(libs), cxx, lib, log, tier
        self.wrap, self.faults_only, self.tf = list(wrap), faults_only, tf     # faults_only: functional verdicts belong to another check
        self.name = label or "%s%s%s" % (backend, "" if digits is None else "-%d" % digits, "" if flavour == "fun" else "-" + flavour)
    def flags(self):
        f = ["-std=c++17", "-w", "-pthread"] + FLAVOURS[self.flavour] + BACKENDS[self.backend]
        if self.digits is not None:
            f.append("-DE_FLOAT_VERIF_DIGITS10=%d" % self.digits)
        f += ["-I" + SRC, "-I" + os.path.join(REPO, "libs/math/include"), "-I" + HARN] + ["-D" + d for d in self.defs]
        return f

class NotBuilt(Exception):
    pass

def build(units, log, until=None):
    """Build in the order of the units; what is not begun by "until" is left out (a slow machine still gives a verdict on the rest)."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    jobs = {}          # (src, flags, cxx) -> future
    t0 = time.time()
    with cf.ThreadPoolExecutor(NCPU) as ex:
        def gated(src, flags, cxx):
            if until and time.time() > until:
                raise NotBuilt()
            return compile_one(src, flags, cxx)
        def submit(src, flags, cxx):
            k = (src, tuple(flags), cxx)
            if k not in jobs:
                jobs[k] = ex.submit(gated, src, flags, cxx)
            return jobs[k]
        plan = []
        todo = []
        for u in units:
            f = u.flags()
            for s in u.srcs:
                todo.append((0, os.path.join(HARN, s), f, u))
            if u.lib:
                nodef = [x for x in f if x not in ["-D" + d for d in u.defs]]
                for s in lib_sources(u.backend):
                    fl = nodef
                    if any(t in s for t in SLOW_O0):
                        fl = ["-O0" if x in ("-O1", "-O2") else x for x in nodef]
                    pri = 0 if "A007318" in s or "/efx/" in s else 1
                    todo.append((pri, s, fl, u))
            san = [x for x in FLAVOURS[u.flavour] if x.startswith("-fsanitize") or x.startswith("-fno-sanitize") or x.startswith("-D_GLIBCXX")]
            todo.append((1, os.path.join(HARN, "mon.cpp"), ["-std=c++17", "-O1", "-w", "-I" + HARN] + san, u))
            todo.append((1, os.path.join(HARN, "oracle.cpp"), ["-std=c++17", "-O1", "-w", "-I" + HARN] + [x for x in san if x.startswith("-D")], u))
        rank = {u: i // 12 for i, u in enumerate(units)}
        for pri, s, f, u in sorted(todo, key=lambda t: (rank[t[3]], t[0])):
            plan.append((u, submit(s, f, u.cxx)))
        objs = {}
        err = None
        missing = set()
        for u, fut in plan:
            try:
                objs.setdefault(u, []).append(fut.result())
            except HarnessError as e:
                err = err or e
            except NotBuilt:
                missing.add(u)
        if err:
            raise err
        units = [u for u in units if u not in missing]
        def link(u):
            os_ = sorted(set(objs[u]))
            key = sha(u.flavour, *os_)
            exe = os.path.join(BUILD, "bin", key)
            if not os.path.exists(exe):
                san = [x for x in FLAVOURS[u.flavour] if x.startswith("-fsanitize") or x.startswith("-fno-sanitize")]
                cmd = [u.cxx, "-pthread"] + san + os_ + ["-o", exe + ".tmp%d" % os.getpid()] + u.libs + ["-lmpfr", "-lgmp"]
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode != 0:
                    raise HarnessError("link failed for %s:\n%s" % (u.name, p.stdout[-4000:]))
                os.replace(exe + ".tmp%d" % os.getpid(), exe)
            u.exe = exe
        list(ex.map(link, units))
    log("built %d binaries in %.1f s%s" % (len(units), time.time() - t0, "; left out for lack of time: " + ", ".join(u.name for u in missing) if missing else ""))
    return units, sorted(u.name for u in missing)

def locales():
    """Compile a few locales for C28 (their sources are part of the C library); without them only C++ facets are used."""
    d = os.path.join(BUILD, "locales")
    os.makedirs(d, exist_ok=True)
    def one(n):
        to = os.path.join(d, n + ".UTF-8")
        if os.path.isdir(to) or not shutil.which("localedef"):
            return
        tmp = tempfile.mkdtemp(prefix="tmp-", dir=d)
        try:
            subprocess.run(["localedef", "-i", n, "-f", "UTF-8", "-c", os.path.join(tmp, n + ".UTF-8")], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
            if os.path.exists(os.path.join(tmp, n + ".UTF-8", "LC_NUMERIC")):
                os.rename(os.path.join(tmp, n + ".UTF-8"), to)
        except (OSError, subprocess.SubprocessError):
            pass
        shutil.rmtree(tmp, ignore_errors=True)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(one, ("de_DE", "en_US", "hi_IN", "fr_FR", "de_CH", "tr_TR", "fa_IR", "ar_SA")))
    return d

def prune():
    """Keep the object cache below ~3 GB."""
    fs = [(os.stat(f).st_mtime, os.stat(f).st_size, f) for f in glob.glob(BUILD + "/obj/*.o") + glob.glob(BUILD + "/bin/*")]
    tot = sum(s for _, s, _ in fs)
    for _, s, f in sorted(fs):
        if tot < 3 << 30:
            break
        os.unlink(f); tot -= s

SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=1:allocator_may_return_null=1:detect_stack_use_after_return=1:strict_string_checks=1:malloc_context_size=12",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:abort_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:second_deadlock_stack=1:history_size=4",
    "LSAN_OPTIONS": "exitcode=23",
}

class Result:
    def __init__(self):
        self.viol = {}      # key -> dict
        self.cases = self.checks = self.nontrivial = 0
        self.families, self.hits, self.samples, self.hashes = {}, {}, [], set()
        self.logs = []
        self.inconclusive = []; self.stopped = []
        self.per_unit = {}
    def add(self, key, d):
        if key in self.viol:
            self.viol[key]["count"] += d.get("count", 1)
        else:
            d.setdefault("count", 1); self.viol[key] = d

def summarize_san(err):
    """A stable signature of a sanitizer report: kind plus the innermost library frame."""
    kind, frame = "", ""
    for line in err.splitlines():
        if not kind and ("ERROR: AddressSanitizer" in line or "runtime error:" in line or "WARNING: ThreadSanitizer" in line or "ERROR: LeakSanitizer" in line):
            kind = line.strip()
            if "runtime error:" in line:
                kind = "UBSan " + line.split("runtime error:")[1].strip()
            elif "AddressSanitizer" in line:
                kind = "ASan " + line.split("AddressSanitizer:")[1].strip().split(" ")[0]
            elif "ThreadSanitizer" in line:
                kind = "TSan " + line.split("ThreadSanitizer:")[1].split("(")[0].strip()
            elif "LeakSanitizer" in line:
                kind = "LSan leak"
        if not kind and line.startswith("==") and ("ninitialised" in line or "Invalid " in line or "definitely lost" in line or "overlap" in line or "Mismatched free" in line):
            kind = "memcheck " + line.split("== ", 1)[1].strip()
        if not frame and line.startswith("==") and ("by 0x" in line or "at 0x" in line) and ("e_float" in line or "ef::" in line or "Util::" in line) and "(anonymous" not in line and "(m_" not in line:
            frame = line.split(": ", 1)[1].split("(")[0].strip()
        if not frame and ("/libs/e_float/" in line or "/libs/math/" in line) and " in " in line and line.strip().startswith("#"):
            frame = line.split(" in ", 1)[1].split("(")[0].strip()
    return kind, frame

def run_shard(u, shard, shards, args, tmp, deadline, res, lock, prop, share=lambda: 0):
    until = share()
    base = os.path.join(tmp, "%s.%d" % (u.name, shard))
    out, prog, hsh, lg = base + ".json", base + ".prog", base + ".hash", base + ".log"
    env = dict(os.environ); env.update(SAN_ENV); env.update(u.env)
    after = None
    restarts = 0
    killed = 0
    def limits():
        os.setsid()
        if u.flavour in ("fun", "fast") and not u.wrap:
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    def one(extra, outf, wall, cpu):
        cmd = u.wrap + [u.exe, "--seed", str(args.seed), "--scale", str(u.scale * (u.tf if args.tier == "thorough" else 1)), "--shard", "%d/%d" % (shard, shards), "--out", outf, "--progress", prog, "--hashes", hsh, "--cpu", str(cpu)]
        if args.tier == "thorough":
            cmd.append("--thorough")
        if until and "--replay" not in extra:
            cmd += ["--until", str(int(until))]
        if u.only:
            cmd += ["--only", u.only]
        if u.log:
            cmd += ["--log", lg]
        cmd += extra
        with open(base + ".err", "wb") as ef:
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=env, preexec_fn=limits, cwd=tmp)
            try:
                rc = p.wait(timeout=max(1, wall))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL); p.wait(); rc = "timeout"
        with open(base + ".err", "rb") as ef:
            err = ef.read()[-200000:].decode("utf-8", "replace")
        return rc, err
    def progress():
        try:
            raw = open(prog, "rb").read().split(b"\0")[0].decode("utf-8", "replace").split("\t")
            return raw if len(raw) >= 4 else None
        except OSError:
            return None
    while True:
        extra = ["--after"] + after if after else []
        if os.path.exists(out):
            os.unlink(out)
        if os.path.exists(prog):
            os.unlink(prog)
        rc, err = one(extra, out, deadline - time.time(), u.cpu)
        pr = progress()
        if rc == 0 or (rc == 23 and os.path.exists(out)):
            try:
                j = json.load(open(out))
            except (OSError, ValueError) as e:
                raise HarnessError("%s shard %d: no summary (%s)" % (u.name, shard, e))
            with lock:
                res.cases += j["cases"]; res.checks += j["checks"]; res.nontrivial += j["nontrivial"]
                pu = res.per_unit.setdefault(u.name, {"cases": 0, "checks": 0})
                pu["cases"] += j["cases"]; pu["checks"] += j["checks"]
                for k, (a, b) in j["families"].items():
                    x = res.families.setdefault(k, [0, 0]); x[0] += a; x[1] += b
                for k, v in j["hits"].items():
                    res.hits[k] = res.hits.get(k, 0) + v
                if j.get("stopped"):
                    res.stopped.append("%s shard %d" % (u.name, shard))
                if shard == 0:
                    res.samples += ["%s: %s" % (u.name, s) for s in j["samples"]]
                j_counts = j["counts"]
            if rc == 23:
                kind, frame = summarize_san(err)
                with lock:
                    res.add("%s/leak/%s" % (u.name, frame or "?"), {"unit": u.name, "family": "leak", "idx": -1, "inputs": "", "detail": err[-3000:], "exe": u})
            break
        if rc == "timeout":
            with lock:
                res.inconclusive.append("%s shard %d: wall limit while at %s" % (u.name, shard, "/".join(pr[:2]) if pr else "?"))
            break
        if rc in (2, 3) or pr is None or not pr[0]:
            raise HarnessError("%s shard %d: exit %s\n%s" % (u.name, shard, rc, err[-3000:]))
        fam, idx, cls, inputs = pr[0], pr[1], pr[2], pr[3]
        if rc == 97 and u.faults_only:
            pass                       # slow under instrumentation: termination is judged elsewhere
        elif rc == 97:
            with lock:
                if any(k.endswith("/no-termination") for k in res.viol):
                    break              # already established by another shard
            # CPU limit inside one case: give the same case three times as long before calling it a hang
            rc2, err2 = one(["--replay", fam, idx], base + ".re.json", deadline - time.time(), 3 * u.cpu)
            if rc2 == 97:
                with lock:
                    res.add("%s/%s/%s/no-termination" % (u.name, fam, cls or "-"), {"unit": u.name, "family": fam, "idx": int(idx), "inputs": inputs, "detail": "one call did not return within %d s of CPU time (repeated)" % (3 * u.cpu), "exe": u})
            elif rc2 == "timeout":
                with lock:
                    res.inconclusive.append("%s shard %d: wall limit re-running %s[%s]" % (u.name, shard, fam, idx))
                break
        elif rc == -9 and killed < 2:
            killed += 1              # ended from outside (memory guard): try again from the same case
            time.sleep(1)
            if int(idx) > 0:
                after = [fam, str(int(idx) - 1)]
            continue
        else:
            kind, frame = summarize_san(err)
            sig = kind or ("signal %s" % signal.Signals(-rc).name if isinstance(rc, int) and rc < 0 else "exit %s" % rc)
            key = "%s/%s/%s/crash:%s%s" % (u.name, fam, cls or "-", sig, (" in " + frame) if frame else "")
            with lock:
                res.add(key, {"unit": u.name, "family": fam, "idx": int(idx), "inputs": inputs, "detail": sig + "\n" + err[-3000:], "exe": u})
        restarts += 1
        if restarts > 25:
            break                      # enough witnesses from this shard
        after = [fam, idx]
    # violations recorded by the monitors themselves
    vf = out + ".v"
    counts = locals().get("j_counts", {})
    if os.path.exists(vf) and not u.faults_only:
        for line in open(vf, encoding="utf-8", errors="replace"):
            try:
                v = json.loads(line)
            except ValueError:
                continue
            fam = v["key"].split("/")[0]
            with lock:
                res.add("%s/%s" % (u.name, v["key"]), {"unit": u.name, "family": fam, "idx": v["idx"], "inputs": v["inputs"], "detail": v["detail"], "count": counts.get(v["key"], 1), "exe": u})
    if os.path.exists(hsh):
        a = array.array("Q")
        data = open(hsh, "rb").read()
        a.frombytes(data[:len(data) // 8 * 8])
        salt = hash(u.name) & 0xffffffffffff
        with lock:
            res.hashes.update((x ^ salt) for x in a)
    if u.log and os.path.exists(lg):
        with lock:
            res.logs.append((u, lg))

def load_known(prop):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                assert rest.startswith("key="), line
                key, what = rest[4:].split(" :: ", 1)
                out.append((key.strip(), what.strip()))
    return out

def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--units", default=""); ap.add_argument("--show", type=int, default=25); ap.add_argument("--scale", type=float, default=1.0)
    args = ap.parse_args()
    t0 = time.time()
    import specs
    spec = specs.SPECS[args.prop]
    log = lambda m: print("[%s %6.1fs] %s" % (args.prop, time.time() - t0, m), flush=True)
    units = [u for u in spec["units"]() if (u.tier is None or u.tier == args.tier)]
    if args.units:
        units = [u for u in units if any(fnmatch.fnmatch(u.name, p) for p in args.units.split(","))]
    for u in units:
        u.scale *= args.scale
    res = Result(); lock = threading.Lock()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % args.prop)
    limit = 800 if args.tier == "quick" else 6 * 3600
    try:
        units, left_out = build(units, log, t0 + 450 if args.tier == "quick" else None)
        deadline = t0 + limit
        tasks = []
        for u in units:
            n = u.shards or spec.get("shards", NCPU)
            tasks += [(u, s, n) for s in range(n)]
        # interleave the units so that every core stays busy
        tasks.sort(key=lambda t: (t[1], t[0].name))
        left = [len(tasks)]
        def share():
            # the time this shard may take so that the ones behind it get theirs too
            with lock:
                rounds = -(-left[0] // NCPU); left[0] -= 1
            return time.time() + max(2, (deadline - 60 - time.time()) * (2 if rounds > 2 else 1) / rounds)
        with cf.ThreadPoolExecutor(NCPU) as ex:
            futs = [ex.submit(run_shard, u, s, n, args, tmp, deadline, res, lock, args.prop, share) for u, s, n in tasks]
            for f in futs:
                f.result()
        log("ran %d cases, %d oracle decisions" % (res.cases, res.checks))
        if spec.get("offline"):
            spec["offline"](res, args, log, tmp)
    except HarnessError as e:
        print("HARNESS ERROR: %s" % e)
        shutil.rmtree(tmp, ignore_errors=True)
        return 2
    prune()
    known = load_known(args.prop)
    new, seen_known = {}, {}
    for key, d in sorted(res.viol.items()):
        for pat, what in known:
            if fnmatch.fnmatchcase(key, pat):
                seen_known.setdefault((pat, what), []).append(key); break
        else:
            new[key] = d
    # nothing observed, or a family that never ran: not a verdict
    problems = list(res.inconclusive)
    if res.cases == 0 or res.checks == 0:
        problems.append("nothing observed")
    if args.scale >= 1 and not args.units and not left_out:
        for need in spec.get("must_hit", []):
            if not any(fnmatch.fnmatch(h, need) and n > 0 for h, n in res.hits.items()):
                problems.append("never observed: " + need)
    for (pat, what), keys in seen_known.items():
        print("KNOWN-FINDING: property=%s %s" % (args.prop, what))
    for pat, what in known:
        if (pat, what) not in seen_known:
            print("note: listed finding not observed in this run: %s (%s)" % (pat, what))
    rdir = os.path.join(VERIF, "replays"); os.makedirs(rdir, exist_ok=True)
    lines = []
    for key, d in new.items():
        u = d.get("exe")
        rp = os.path.join(rdir, "%s-%s.json" % (args.prop, sha(key, args.seed)[:12]))
        rec = {k: v for k, v in d.items() if k != "exe"}
        rec.update({"property": args.prop, "key": key, "seed": args.seed, "tier": args.tier})
        if u is not None:
            rec["replay_cmd"] = "%s --seed %d --replay %s %s" % (getattr(u, "exe", "?"), args.seed, d["family"], d["idx"])
            rec["build_flags"] = u.flags()
        json.dump(rec, open(rp, "w"), indent=1)
        lines.append((key, d, rp))
    cov = {"evaluations": res.cases, "distinct_nontrivial": len(res.hashes),
           "rule": spec["rule"], "samples": res.samples[:40] or ["(none)"],
           "oracle_decisions": res.checks, "families": {k: {"cases": v[0], "decisions": v[1]} for k, v in sorted(res.families.items())},
           "observed": dict(sorted(res.hits.items())), "builds": {u.name: {"flags": [f for f in u.flags() if not f.startswith("-I")], **res.per_unit.get(u.name, {})} for u in units}}
    cov.update(spec.get("extra_cov", {}))
    if hasattr(res, "extra_cov"):
        cov.update(res.extra_cov)
    ev = {"property": args.prop, "tier": args.tier, "seed": args.seed, "level": spec.get("level", "exploration"), "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    if seen_known:
        ev["coverage"]["known_findings_observed"] = [w for _, w in seen_known]
    if left_out:
        ev["coverage"]["left_out_by_clock"] = left_out
    if res.stopped:
        ev["coverage"]["stopped_by_clock"] = sorted(res.stopped)
        print("note: %d shards stopped by the clock before their last case" % len(res.stopped))
    if problems:
        ev["coverage"]["inconclusive"] = problems
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", args.prop + ".json"), "w"), indent=1)
    shutil.rmtree(tmp, ignore_errors=True)
    for key, d, rp in lines[:args.show]:
        print("  %s x%d\n    inputs: %s\n    detail: %s" % (key, d["count"], d["inputs"][:500], d["detail"][:700].replace("\n", "\n      ")))
    if lines:
        print("%d distinct violations" % len(lines))
        print("VIOLATION property=%s replay=%s" % (args.prop, lines[0][2]))
        return 1
    if problems:
        print("INCONCLUSIVE: " + "; ".join(problems))
        return 2
    log("property held on everything explored (%d cases, %d distinct non-trivial)" % (res.cases, len(res.hashes)))
    return 0

if __name__ == "__main__":
    sys.exit(main())
