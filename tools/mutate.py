#!/usr/bin/env python3
"""mutate.py gen N SEED [file-regex] > list.json    random mutants of /repo's sources
mutate.py run LIST SLOTS OUT                         judge them in scratch copies (mount namespaces)

A campaign to look for holes in the checks: each mutant is built, then judged by
shard after shard of the checks its file maps to (no shrinking), and by the
stable tests. A mutant nobody notices is written down as "survived" and read by
hand: it is equivalent, outside every property, or a hole."""
import sys, json, os, re, random, subprocess, shutil, time, glob
MAP = [
 (r"src/(slice|slice-array)\.c|strides|R/slice\.R", "C01 C03 C04 C27 C28"),
 (r"src/slice-chop|R/slice-chop", "C04 C28 C01"),
 (r"src/slice-assign", "C03 C05 C26 C06 C28"),
 (r"subscript", "C02 C01 C03"),
 (r"src/c(-unchop)?\.c|R/c\.R", "C05 C04 C26 C34 C31"),
 (r"bind|type-data-frame|type-tibble|type-data-table", "C06 C07 C38 C26 C24"),
 (r"src/cast|R/cast|type-bare|R/type-integer64|R/type-unspecified|conditions", "C08 C10 C09 C33"),
 (r"ptype|typeof|type2|unspecified|R/type\.R|type-info|type-explain|partial", "C09 C10 C38 C05 C40"),
 (r"size|shape|dim|recycle", "C11 C07 C01 C10"),
 (r"src/equal|R/equal", "C12 C16 C18 C20 C23"),
 (r"compare|type-integer64|type-complex", "C13 C14 C12 C19"),
 (r"order|R/order", "C14 C15 C17 C19 C39 C28"),
 (r"rank", "C15"),
 (r"dictionary|hash", "C16 C18 C17 C20 C30"),
 (r"group|split", "C17 C14"),
 (r"match", "C19 C18 C39"),
 (r"/set\.", "C20"),
 (r"missing|complete", "C21 C22 C13"),
 (r"fill", "C22"), (r"runs", "C23"), (r"rep\.|expand|interleave", "C24 C04"),
 (r"names", "C25 C26 C05 C06 C07"),
 (r"proxy|fields|type-rcrd|restore|altrep", "C27 C35 C30 C01 C03"),
 (r"date-time", "C33 C08 C09 C13 C14"),
 (r"factor", "C34 C08 C09 C13"),
 (r"interval", "C39"), (r"assert", "C40 C07"),
 (r"translate|poly-op", "C30 C12 C19 C20 C21"),
 (r"type-vctr|type-sclr", "C35 C37 C36 C27"), (r"list-of", "C36 C35"),
 (r"arith|numeric|type-misc|type-dplyr|type-sf", "C37 C35 C38"),
 (r"utils", "C01 C05 C06 C07 C26 C27 C09 C28"),
]
TAIL = "C28 C31"
SKIP = re.compile(r"(rlang|standalone|init\.c|version|globals\.c|deprecated|register|callables|growable|decl/|zzz|vctrs-package|aaa|conditions|print|type-asis|type-explain|shape-print|translate\.h)")
def files(rx):
    fs = [f for f in glob.glob("/repo/src/*.[ch]") + glob.glob("/repo/R/*.R") if not SKIP.search(f)]
    return [f[6:] for f in sorted(fs) if not rx or re.search(rx, f)]
CSKIP = re.compile(r"abort|r_stop|stop_|^\s*//|^\s*\*|#include|FREE|UNPROTECT|^\s*/\*|_arg\b.*=|default:|^\s*static\b|^\s*#define \w+$|fprintf|Rprintf|warn")
RSKIP = re.compile(r"abort|stop|^\s*#|check_dots|cnd_|warn|paste|cat\(|glue|sprintf|message|deprec")
def muts_c(l):
    out = []
    code = l.split("//")[0]
    def sub(rx, new, tag):
        for m in re.finditer(rx, code):
            out.append((tag, l[:m.start()] + m.expand(new) + l[m.end():]))
    sub(r" < ", " <= ", "rel"); sub(r" <= ", " < ", "rel"); sub(r" > ", " >= ", "rel"); sub(r" >= ", " > ", "rel")
    sub(r" == ", " != ", "eq"); sub(r" != ", " == ", "eq")
    sub(r" \+ 1\b", "", "off"); sub(r" - 1\b", "", "off"); sub(r" \+ ", " - ", "arith"); sub(r" - ", " + ", "arith")
    sub(r" \* ", " + ", "arith") if not re.search(r"\w+ \* \w+[,;)]", code) or "=" in code else None
    sub(r" && ", " || ", "log"); sub(r" \|\| ", " && ", "log"); sub(r"\(!(?=[a-z_])", "(", "not")
    sub(r"if \((?=[a-z_][\w]*\)|[a-z_]\w*\([^()]*\)\))", "if (!", "not")
    sub(r"\btrue\b", "false", "bool"); sub(r"\bfalse\b", "true", "bool")
    sub(r"(?<![\w.])0(?![\w.])", "1", "const"); sub(r"(?<![\w.])1(?![\w.])", "0", "const"); sub(r"(?<![\w.])2(?![\w.])", "3", "const")
    sub(r" \+= ", " -= ", "arith"); sub(r"VCTRS_OWNED_false", "VCTRS_OWNED_true", "own")
    sub(r"S3_FALLBACK_true", "S3_FALLBACK_false", "fb"); sub(r"S3_FALLBACK_false", "S3_FALLBACK_true", "fb")
    if re.match(r"^\s+(break|continue);\s*$", code): out.append(("del", l.replace("break;", ";").replace("continue;", ";")))
    if re.match(r"^\s+(?!return|FREE|UNPROTECT|goto|break|continue|case|else|enum|struct|const|int |bool |double |r_obj\*|r_ssize|SEXP|void|char|R_len_t|PROTECT|KEEP|static|unsigned|uint)[\w>.\[\]*()\-+ ]+(=[^=].*|\(.*\)|\+\+|--);\s*\\?$", code) and "KEEP" not in code and "PROTECT" not in code and not re.match(r"^\s+(return\b|[\w]+(\*|\s+)[*\s]*\w+(\[.*\])?\s+=)", code):
        out.append(("del", re.sub(r"^(\s+).*?;(\s*\\?)$", r"\1;\2", l)))
    return out
def muts_r(l):
    out = []
    code = l.split("#")[0]
    def sub(rx, new, tag):
        for m in re.finditer(rx, code):
            out.append((tag, l[:m.start()] + m.expand(new) + l[m.end():]))
    sub(r"\bTRUE\b", "FALSE", "bool"); sub(r"\bFALSE\b", "TRUE", "bool")
    sub(r" && ", " || ", "log"); sub(r" \|\| ", " && ", "log"); sub(r" == ", " != ", "eq"); sub(r" != ", " == ", "eq")
    sub(r" < ", " <= ", "rel"); sub(r" <= ", " < ", "rel"); sub(r" > ", " >= ", "rel"); sub(r" >= ", " > ", "rel")
    sub(r"if \(!", "if (", "not"); sub(r"if \((?!!)(?=[\w.]+\([^()]*\)\))", "if (!", "not")
    sub(r"\b0L?\b", "1L", "const"); sub(r"\b1L?\b", "2L", "const"); sub(r" \+ ", " - ", "arith"); sub(r" - ", " + ", "arith")
    sub(r"\bany\(", "all(", "quant"); sub(r"\ball\(", "any(", "quant"); sub(r"\bNULL\b(?=[,)])", "NA", "null")
    if re.match(r"^\s+[\w.$\[\]\"()]+ <- [^{(]*(\([^{]*\))?\s*$", code) and code.count("(") == code.count(")"):
        out.append(("del", re.match(r"^\s*", l).group(0) + "NULL"))
    return out
def gen(n, seed, rx):
    rnd = random.Random(seed); allm = []
    for f in files(rx):
        skipto = False
        for i, l in enumerate(open("/repo/" + f).read().split("\n")):
            if f.endswith(".R"):
                if RSKIP.search(l): continue
                ms = muts_r(l)
            else:
                if CSKIP.search(l): continue
                ms = muts_c(l)
            for t, new in ms:
                if new != l: allm.append(dict(file=f, line=i + 1, op=t, old=l, new=new))
    # the same weight for every file of 40 mutants and more
    byf = {}
    for m in allm: byf.setdefault(m["file"], []).append(m)
    pick = []
    for f in byf: rnd.shuffle(byf[f]); byf[f].sort(key=lambda m: m['op'] != 'del' or rnd.random() < .3)
    fs = sorted(byf); w = [min(len(byf[f]), 120) ** .7 for f in fs]
    while len(pick) < n and any(byf.values()):
        f = rnd.choices(fs, w)[0]
        if byf[f]: pick.append(byf[f].pop())
    for k, m in enumerate(pick): m["id"] = k
    json.dump(pick, sys.stdout, indent=0)
    print(len(allm), "possible", file=sys.stderr)
def props(f):
    out = []
    for rx, ps in MAP:
        if re.search(rx, f): out += [p for p in ps.split() if p not in out]
    return (out or "C01 C05 C06 C09 C27".split())
def sh(cmd, timeout, **kw):
    try:
        p = subprocess.Popen(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True, **kw)
        o, _ = p.communicate(timeout=timeout); return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate(); return "timeout", ""
CFG = json.load(open("/verif/lib/config.json"))
def env(p):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("R_", "VCTRS_", "_R_"))}
    e.update(LC_ALL="C.UTF-8", LANG="C.UTF-8", TZ="UTC", R_LIBS="/verif/_build/plain/lib", R_LIBS_USER="/nonexistent", R_PROFILE_USER="/nonexistent", R_ENVIRON_USER="/nonexistent", NOT_CRAN="true")
    return e
def probe(p, shard, only=None):
    # C31's laws without the sanitizers: crashes and odd errors still count
    sc = CFG.get(p, {}).get("scale", 1)
    os.makedirs("/verif/mutout", exist_ok=True)
    rc, o = sh(["Rscript", "--vanilla", "/verif/lib/worker.R", "mode=run", "root=/verif", f"prop={p}", "lib=/verif/_build/plain/lib", "vhelp=/verif/_build/plain/vhelp.so", "seed=1", "tier=quick", "out=/verif/mutout", f"scale={sc}", f"shard={shard}", "nshards=8", "cap=200", "probe=1"], 260, env=env(p), cwd="/verif/mutout")
    if rc == 0: return None
    if rc == 3: return [l for l in o.splitlines() if l.startswith("PROBE")][-1][:200]
    return f"{rc}: " + o[-200:].replace("\n", " | ")
def judge(m):
    p = "/repo/" + m["file"]; s = open(p).read(); ls = s.split("\n")
    assert ls[m["line"] - 1] == m["old"]
    ls[m["line"] - 1] = m["new"]; open(p, "w").write("\n".join(ls))
    try:
        rc, o = sh(["bash", "/verif/bin/build.sh", "plain"], 300, env=dict(os.environ, MAKEFLAGS="-j2"))
        if rc: return dict(status="build")
        rc, o = sh("Rscript --vanilla -e 'library(vctrs); x <- vec_c(1L, 2); vec_slice(data.frame(a=1:3), 2:3)'", 60, env=env(""))
        if rc: return dict(status="load")
        ps = props(m["file"])
        for q in ps:
            r = probe(q, 0)
            if r: return dict(status="caught", by=q, how=r, shard=0)
        rc, o = sh(["bash", "/opt/vp/test.sh", "/verif/mutout/t.json"], 600)
        b = json.load(open("/opt/vp/BASELINE.json")); st = b.get("stable") or b.get("passed") or b
        try: got = set(json.load(open("/verif/mutout/t.json"))["passed"])
        except Exception: got = set()
        miss = [x for x in st if x not in got]
        if miss: return dict(status="tests", first=miss[:2])
        for q in ps:
            for k in range(1, 8):
                r = probe(q, k)
                if r: return dict(status="caught", by=q, how=r, shard=k)
        for q in TAIL.split():
            if q in ps: continue
            for k in range(0, 3):
                r = probe(q, k)
                if r: return dict(status="caught", by=q, how=r, shard=k)
        return dict(status="survived")
    finally:
        open(p, "w").write(s)
def run(lst, slots, out):
    ms = json.load(open(lst)); done = set()
    if os.path.exists(out): done = {json.loads(l)["id"] for l in open(out)}
    procs = []
    for k in range(slots):
        S = f"/tmp/mut/{k}"; shutil.rmtree(S, ignore_errors=True); os.makedirs(S)
        subprocess.run(["cp", "-a", "/repo", S + "/repo"]); subprocess.run(["rsync", "-a", "--exclude=.git", "--exclude=replays", "--exclude=seeded", "--exclude=_build/gc", "--exclude=_build/asan", "/verif/", S + "/verif/"])
        mine = [m for m in ms if m["id"] % slots == k and m["id"] not in done]
        json.dump(mine, open(f"{S}/list.json", "w"))
        procs.append(subprocess.Popen(["unshare", "-Urm", "bash", "-c", f"mount --bind {S}/repo /repo; mount --bind {S}/verif /verif; cd /; exec python3 /verif/tools/mutate.py slot {S}/list.json {os.path.abspath(out)}"]))
    for p in procs: p.wait()
def slot(lst, out):
    for m in json.load(open(lst)):
        if os.path.exists("/tmp/mut/stop"): break
        t = time.time()
        try: r = judge(m)
        except Exception as e: r = dict(status="error", how=repr(e))
        with open(out, "a") as f: f.write(json.dumps(dict(m, **r, secs=round(time.time() - t))) + "\n")
if sys.argv[1] == "gen": gen(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4] if len(sys.argv) > 4 else None)
elif sys.argv[1] == "run": run(sys.argv[2], int(sys.argv[3]), sys.argv[4])
else: slot(sys.argv[2], sys.argv[3])
