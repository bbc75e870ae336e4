#!/usr/bin/env python3
"""replay FILE: rebuilds vctrs from /repo and runs one saved case again."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.abspath(sys.argv[1])
rp = json.load(open(path))
if rp.get("kind") == "history":
    # the case needs what its shard did before: run the shard again
    print("history-dependent case: re-running the check with the same seed")
    sys.exit(subprocess.run([f"{ROOT}/bin/check", rp["property"], "--seed", str(rp["seed"]), "--tier", rp.get("tier", "quick"),
                             "--scale", str(rp.get("scale", "1")), "--workers", str(rp["nshards"])]).returncode)
sys.exit(subprocess.run([f"{ROOT}/bin/check", rp["property"], "--replay", path]).returncode)
