#!/usr/bin/env python3
"""tools/mutate/run.py FILE [FROM [COUNT]]: mutation testing of the checks. Each mutant of /repo/FILE which compiles and passes the
tests is put in a copy of /repo, mounted over /repo in a namespace of its own, and the quick checks are run until one of them fails.
Results are appended to /tmp/mut/results.jsonl. The copies are removed."""
import subprocess, sys, os, json, shutil, random, time
env = dict(os.environ, HOME="/root", PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
verif = os.environ.get("MUT_VERIF", "/verif")
base = os.environ.get("MUT_BASE", "/repo")
f = sys.argv[1]
frm = int(sys.argv[2]) if len(sys.argv) > 2 else 0
cnt = int(sys.argv[3]) if len(sys.argv) > 3 else 10**9
order = {
 "accounting.go": "C01 C08 C12 C10 C25 C22 C24 C07 C19 C02 C04 C18 C05 C26 C14 C11 C09 C16 C03 C17 C20 C13",
 "types.go": "C01 C24 C22",
 "backend/ledger/parser.go": "C06 C23 C26 C14 C22 C01 C05 C15 C16 C25 C13 C04 C10 C17 C20",
 "backend/ledger/ledger.go": "C05 C16 C15 C26 C14 C20 C11 C08 C13",
 "backend/txtdb/txtdb.go": "C17 C16 C29 C13 C11 C05",
 "backend/postgres/postgres.go": "C27 C29",
 "cmd/ledger/main.go": "C30 C20 C21",
 "cmd/tacc/main.go": "C30",
 "cmd/muscular/main.go": "C28",
 "cmd/acc/main.go": "C29",
}[f].split()
bin = "/tmp/mut/mutate"
os.makedirs("/tmp/mut", exist_ok=True)
subprocess.run(["go", "build", "-o", bin, "."], cwd=os.path.dirname(os.path.abspath(__file__)), env=env, check=True)
ms = json.loads(subprocess.run([bin, base + "/" + f], stdout=subprocess.PIPE, check=True).stdout)
random.Random(7).shuffle(ms)
print(len(ms), "mutants of", f)
res = "/tmp/mut/results.jsonl"
done = set()
if os.path.exists(res):
    for l in open(res):
        r = json.loads(l); done.add((r["file"], r["off"], r["end"], r["text"]))
src = open(base + "/" + f, "rb").read()
orig = set() # only the lines of the first commit
if os.environ.get("MUT_ORIG"):
    first = subprocess.run(["git", "-C", "/repo", "rev-parse", "--short=8", os.environ["MUT_ORIG"]], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
    for n, l in enumerate(subprocess.run(["git", "-C", "/repo", "blame", "-s", f], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines()):
        if l.startswith("^") or l.startswith(first): orig.add(n + 1)
stat = {}
skip = [tuple(map(int, x.split("-"))) for x in os.environ.get("MUT_SKIP", "").split()] # lines, as 10-20
for k, m in enumerate(ms[frm:frm + cnt]):
    key = (f, m["Off"], m["End"], m["Text"])
    if key in done: continue
    if orig and m["Line"] not in orig: continue
    if any(a <= m["Line"] <= b for a, b in skip): continue
    d = "/tmp/mut/w%d" % os.getpid()
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(base, d, symlinks=True, ignore=shutil.ignore_patterns(".git"))
    open(d + "/" + f, "wb").write(src[:m["Off"]] + m["Text"].encode() + src[m["End"]:])
    r = {"file": f, "off": m["Off"], "end": m["End"], "text": m["Text"], "line": m["Line"], "what": m["What"][:200], "func": m["Func"]}
    t0 = time.time()
    p = subprocess.run(["go", "build", "./..."], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode: r["res"] = "compile"
    else:
        try:
            p = subprocess.run(["go", "test", "-vet=off", "./..."], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
            if p.returncode: r["res"] = "tests"
        except subprocess.TimeoutExpired:
            r["res"] = "tests"
    if "res" not in r:
        r["res"] = "SURVIVED"
        for c in order:
            try:
                p = subprocess.run(["nice", "unshare", "-Urm", "sh", "-c", "mount --bind %s /repo && %s/run.sh %s quick" % (d, verif, c)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                r["res"] = c + " timeout"; break
            if p.returncode == 1 and "VIOLATION property=" in p.stdout:
                r["res"] = c; r["n"] = p.stdout.split("VIOLATION property=",1)[1][:600]; break
            if p.returncode not in (0, 1) or (p.returncode == 1):
                r["res"] = c + " exit %d" % p.returncode; r["n"] = p.stdout[-800:]; break
    r["secs"] = round(time.time() - t0, 1)
    stat[r["res"]] = stat.get(r["res"], 0) + 1
    open(res, "a").write(json.dumps(r) + "\n")
    print(k + frm, r["line"], r["what"].replace("\n", " ")[:110], "=>", r["res"], r["secs"], flush=True)
    shutil.rmtree(d, ignore_errors=True)
print(stat)
