#!/usr/bin/env python3
# mkbug.py: makes seeded/ID from a description on stdin (python literal):
# dict(id=, property=, needs=, breaks=, edits=[(file, old, new), ...], demo=R code or None)
# in a clone of /repo in /tmp/wt/repo.
import sys, json, os, subprocess
W = "/tmp/wt/repo"
def sh(*a): return subprocess.run(a, cwd=W, capture_output=True, text=True, check=True).stdout
sh("git", "fetch", "-q", "origin"); sh("git", "reset", "-q", "--hard", "origin/HEAD")
for b in eval(sys.stdin.read()):
    sh("git", "checkout", "-q", "--", ".")
    for f, old, new in b["edits"]:
        p = f"{W}/{f}"; s = open(p).read()
        # "context@@old": the first `old` after the only `context`
        ctx, _, old2 = old.rpartition("@@")
        if ctx:
            if s.count(ctx) != 1: sys.exit(f"{b['id']}: {s.count(ctx)} matches of {ctx!r} in {f}")
            at = s.index(ctx) + len(ctx)
            if old2 not in s[at:]: sys.exit(f"{b['id']}: no {old2!r} after the context")
            at = s.index(old2, at)
        else:
            if s.count(old2) != 1: sys.exit(f"{b['id']}: {s.count(old2)} matches of {old2!r} in {f}")
            at = s.index(old2)
        open(p, "w").write(s[:at] + new + s[at + len(old2):])
    d = f"/verif/seeded/{b['id']}"; os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(sh("git", "diff"))
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    open(f"{d}/demo.R", "w").write("library(vctrs)\n" + b["demo"].strip() + "\n")
    open(f"{d}/demo.sh", "w").write('''#!/bin/bash
# exits 0 if the property holds in this case
D=$(cd "$(dirname "$0")" && pwd)
export LC_ALL=C.UTF-8 TZ=UTC R_LIBS=${R_LIBS:-/repo/_build/lib} R_LIBS_USER=/nonexistent R_PROFILE_USER=/nonexistent
exec timeout 250 Rscript --no-init-file "$D/demo.R"
''')
    sh("git", "checkout", "-q", "--", ".")
    print("made", b["id"])
