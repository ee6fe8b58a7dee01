#!/usr/bin/env python3
"""Random one-line mutants of a source file, each run through the checks that ought to notice (development aid; no check uses it).
mutate.py FILE(rel. to libs/e_float/src or repo) CHECKS(comma) COUNT [--units PAT] [--scale X] [--seed N] [--lines A-B]
Prints one line per mutant: KILLED/SURVIVED/NOBUILD with the changed line. The scratch copy is $MUT_WT (default /tmp/mutwt)."""
import os, random, re, subprocess, sys, argparse
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = os.environ.get("MUT_WT", "/tmp/mutwt")
OPS = [(r"(?<![<>=!\-+*/%&|])<(?![<=])(?=[^<>]*[;){])", "<="), (r"<=", "<"), (r"(?<![<>=!\-])>(?![>=])(?=\s*(static_cast|\d|\())", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
       (r"(?<=[\w)\]]) \+ (?=[\w(])", " - "), (r"(?<=[\w)\]]) - (?=[\w(])", " + "), (r"(?<=[\w)\]]) \* (?=[\w(])", " / "), (r"\+=", "-="), (r"-=", "+="), (r"\*=", "/="), (r"/=", "*="),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bif\(", "if(!("), (r"\?", "? (true) ? "), (r"!(?=[\w(])", ""), (r"-(?=[a-z_(])", ""), (r"\+\+", "--")]
def mutants(text, rng, n, lo, hi):
    lines = text.split("\n"); out = []; comment = False; cand = []
    for i, l in enumerate(lines):
        s = l.strip()
        if comment:
            if "*/" in s: comment = False
            continue
        if s.startswith("/*"): comment = "*/" not in s; continue
        if not s or s.startswith(("//", "#", "namespace", "using", "template", "typedef", "struct", "class")): continue
        if lo <= i + 1 <= hi: cand.append(i)
    tries = 0; seen = set()
    while len(out) < n and tries < 60 * n:
        tries += 1; i = rng.choice(cand); l = lines[i]; code = l.split("//")[0]
        kind = rng.random()
        if kind < 0.62:
            pat, rep = rng.choice(OPS); ms = list(re.finditer(pat, code))
            if not ms: continue
            m = rng.choice(ms)
            if rep == "if(!(":
                j = m.end(); d = 1
                while j < len(code) and d: d += {"(": 1, ")": -1}.get(code[j], 0); j += 1
                if d: continue
                new = code[:m.start()] + "if(!(" + code[m.end():j] + ")" + code[j:]
            elif rep.startswith("? (true)"):
                j = code.find(":", m.end())
                if j < 0 or code[j:j+2] == "::": continue
                new = code[:m.start()] + "?" + code[m.end():j] + ":" + code[m.end():j] + code[code.find(";", j):] if code.find(";", j) > 0 else None
                if not new: continue
            else: new = code[:m.start()] + rep + code[m.end():]
        elif kind < 0.87:
            ms = list(re.finditer(r"(?<![\w.])(\d+)(?=(U|L|LL|ULL|UL)?\b(?!\.))", code))
            if not ms: continue
            m = rng.choice(ms); v = int(m.group(1)); new = code[:m.start()] + str(max(0, v + rng.choice([1, -1]) if v < 40 or rng.random() < .5 else int(v * rng.choice([0.5, 0.9, 1.1, 2])))) + code[m.end():]
        else:
            if not re.match(r"\s*[\w:\.\->\[\]\(\)\*\s]+(=|\+=|-=|\*=|/=|\+\+|--|\().*;\s*$", code) or re.match(r"\s*(return|const|static|break|auto|std::\w+(<.*>)?\s+\w+\s*=)", code) or re.match(r"\s*(\w+::)*\w+\s+\w+\s*[=(;]", code): continue
            new = "/* removed */"
        if new == code or (i, new) in seen: continue
        seen.add((i, new)); out.append((i, l, new))
    return lines, out
def main():
    ap = argparse.ArgumentParser(); ap.add_argument("file"); ap.add_argument("checks"); ap.add_argument("count", type=int); ap.add_argument("--units", default=""); ap.add_argument("--scale", default="0.25"); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--lines", default="1-999999"); a = ap.parse_args()
    if not os.path.isdir(WT): subprocess.check_call(["git", "clone", "-q", "/repo", WT])
    subprocess.check_call(["git", "-C", WT, "fetch", "-q", "/repo", "HEAD"]); subprocess.check_call(["git", "-C", WT, "checkout", "-q", "-f", "--detach", "FETCH_HEAD"])
    p = os.path.join(WT, "" if a.file.startswith("libs/") else "libs/e_float/src", a.file); text = open(p, newline="").read(); lo, hi = map(int, a.lines.split("-"))
    lines, ms = mutants(text, random.Random("%s %d" % (a.file, a.seed)), a.count, lo, hi); tally = {}
    for i, old, new in ms:
        t = lines[:]; t[i] = new + ("\r" if old.endswith("\r") else ""); open(p, "w", newline="").write("\n".join(t)); verdict = "SURVIVED"
        for c in a.checks.split(","):
            cmd = [sys.executable, os.path.join(ROOT, "runner/vrun.py"), c, "--scale", a.scale, "--show", "1"] + (["--units", a.units] if a.units else [])
            try:
                r = subprocess.run(cmd, env=dict(os.environ, VERIF_REPO=WT), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400, cwd=ROOT)
                if "compilation of" in r.stdout: verdict = "NOBUILD"; break
                if r.returncode == 1: verdict = "KILLED by " + c; break
                if r.returncode == 2: verdict = "INCONCLUSIVE by %s %s" % (c, r.stdout[-160:].replace("\n", " ")); break
            except subprocess.TimeoutExpired: verdict = "TIMEOUT in " + c; subprocess.run(["pkill", "-f", WT]); break
        tally[verdict.split()[0]] = tally.get(verdict.split()[0], 0) + 1
        print("%-14s %s:%d\n    - %s\n    + %s" % (verdict, a.file, i + 1, old.strip(), new.strip()), flush=True)
    open(p, "w", newline="").write(text); print("SUMMARY", a.file, tally, flush=True)
main()
