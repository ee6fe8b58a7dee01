#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after an edit; both files are committed)."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE, NOTES
import specs
L = "libs/e_float/src/"
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p.get("over", ["inputs", "configurations"]), text=p["q"]),
                 why_tests_cant=p["why"],
                 anchors=dict(files=[L + x if not x.startswith("libs/") else x for x in p["files"]],
                              mechanism=[dict(name=n, where=(L + w if not w.startswith("libs/") else w)) for n, w in p["mech"]],
                              observe_at=p.get("observe", []), hook_needed=p.get("hook")))
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(d) + "\n")
checks = []
for p in PROPS:
    if p["id"] not in specs.SPECS: continue
    checks.append(dict(property=p["id"],
        quick_cmd="python3 runner/vrun.py %s --tier quick" % p["id"],
        thorough_cmd="python3 runner/vrun.py %s --tier thorough" % p["id"],
        technique=p.get("technique", "runtime monitoring: generated workloads on the real code, judged online by an independent MPFR oracle"),
        level="exploration", level_note=p["note"]))
hooks = [l.split()[0] for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines() if " hook:" in l]
m = dict(version=1, setup_cmd="bash setup.sh",
         hooks=dict(guard="E_FLOAT_VERIF_DIGITS10", enable="-DE_FLOAT_VERIF_DIGITS10=<n> on the compiler command line of the units that check other precisions than the default 101 digits; everything else is built without it", source_commits=hooks),
         checks=checks, not_applicable=NOT_APPLICABLE + [dict(property=p["id"], reason="no check yet") for p in PROPS if p["id"] not in specs.SPECS], notes=NOTES)
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1); open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(PROPS), "properties,", len(checks), "checks")
