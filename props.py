#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table. Run by hand after editing; both outputs are committed."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vsim import registry

P = []


def prop(id, title, statement, over, text, why, files, mech, hook=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if hook:
        a["hook_needed"] = hook
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


exec(open(os.path.join(HERE, "props_table.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
cls = registry.classes()
NA = globals().get("NOT_APPLICABLE", [])
checks = []
for p in P:
    c = cls.get(p["id"])
    if c is None:
        continue
    checks.append({"property": p["id"],
                   "quick_cmd": "python3 check.py run %s --tier quick" % p["id"],
                   "thorough_cmd": "python3 check.py run %s --tier thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": c.technique, "level": c.level,
                   "level_note": getattr(c, "level_note", "seeded search; no violation within the explored runs, no exhaustiveness claimed")})
missing = [p["id"] for p in P if p["id"] not in cls and p["id"] not in [n["property"] for n in NA]]
assert not missing, missing
commits = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], stdout=subprocess.PIPE, text=True).stdout.split("\n")
hooks = [l.split()[0] for l in commits if " sim:" in l]
m = {"version": 1, "setup_cmd": "python3 setup_check.py",
     "hooks": {"guard": "CORA_SIM", "enable": "compile src/*.c with -DCORA_SIM (done by vsim/build.py on a scratch copy of /repo)",
               "source_commits": hooks},
     "checks": checks, "not_applicable": NA,
     "notes": "Every check rebuilds the runtime from /repo's working tree into a scratch directory under /dev/shm (or /tmp), and "
              "runs it in one process under the simulator in sim/. 'python3 check.py replay ID FILE' replays a violation."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
