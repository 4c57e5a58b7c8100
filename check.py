#!/usr/bin/env python3
"""check.py run ID [--tier quick|thorough] [--seed N] [--runs N] [--wall S] [--jobs N] | check.py replay ID FILE"""
import argparse, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vsim import runner, registry
from vsim.build import BuildError

a = argparse.ArgumentParser()
a.add_argument("cmd", choices=["run", "replay"])
a.add_argument("id")
a.add_argument("file", nargs="?")
a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
a.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
a.add_argument("--runs", type=int)
a.add_argument("--wall", type=float)
a.add_argument("--jobs", type=int)
x = a.parse_args()
c = registry.get(x.id)
try:
    if x.cmd == "replay":
        sys.exit(runner.replay(c, x.file))
    sys.exit(runner.run_check(c, x.tier, x.seed, x.jobs, x.runs, x.wall))
except BuildError as e:
    sys.stderr.write("build: %s\n" % e)
    sys.exit(2)
