#!/usr/bin/env python3
"""tools/seed.py ID...: verifies planted bugs in a scratch copy of /repo: patch applies, touches original lines, builds,
tests pass, demo passes without and fails with it; with --check also runs the property's quick check on /repo with the patch applied."""
import subprocess, sys, os, json, shutil, tempfile
env = dict(os.environ, HOME="/root", PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
root = "/verif/seeded"
def sh(cmd, cwd, t=300):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"
args = [a for a in sys.argv[1:] if not a.startswith("--")]
if not args: args = sorted(os.listdir(root))
base = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], stdout=subprocess.PIPE, text=True).stdout.split()
for i in args:
    d = os.path.join(root, i)
    meta = json.load(open(d + "/meta.json"))
    tmp = tempfile.mkdtemp(prefix="seed")
    demo = os.path.join(tmp, "elsewhere"); repo = os.path.join(tmp, "repo")
    msgs = []
    try:
        shutil.copytree("/repo", repo, symlinks=True)
        shutil.copytree(d, demo)
        for f in os.listdir(demo):
            if f.endswith((".diff", ".patch")) or f == "meta.json": os.remove(os.path.join(demo, f))
        rc, o = sh(["bash", demo + "/demo.sh"], repo)
        if rc != 0: msgs.append("demo fails on clean tree (%d): %s" % (rc, o[-600:]))
        rc, o = sh(["git", "apply", d + "/patch.diff"], repo)
        if rc != 0: msgs.append("patch does not apply: " + o)
        # original lines?
        removed = 0; mine = 0
        cur = None
        for l in open(d + "/patch.diff"):
            if l.startswith("--- a/"): cur = l[6:].strip()
            elif l.startswith("@@"):
                ln = int(l.split()[1].split(",")[0][1:])
            elif l.startswith("-") and not l.startswith("---"):
                removed += 1
                b = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-L", "%d,%d" % (ln, ln), cur], stdout=subprocess.PIPE, text=True).stdout
                if not b.startswith("^38a1dfa"): mine += 1
                ln += 1
            elif l.startswith(" "): ln += 1
        if removed == 0 or mine == removed: msgs.append("changes no original line (removed %d, mine %d)" % (removed, mine))
        rc, o = sh(["go", "build", "./..."], repo)
        if rc != 0: msgs.append("does not build: " + o)
        rc, o = sh(["go", "test", "-vet=off", "-count=1", "./..."], repo)
        if rc != 0: msgs.append("tests fail: " + o)
        rc, o = sh(["bash", demo + "/demo.sh"], repo)
        if rc == 0: msgs.append("demo passes with the patch")
        elif "--show" in sys.argv: print(o[-500:])
        shutil.rmtree(repo)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    res = ""
    if "--check" in sys.argv and not msgs:
        subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
        try:
            rc, o = sh(["/verif/run.sh", meta["property"], "quick"], "/verif", 900)
            v = [l for l in o.splitlines() if l.startswith("VIOLATION property=%s " % meta["property"])]
            res = "caught" if rc == 1 and v else "MISSED rc=%d %s" % (rc, o[-200:])
            if "--show" in sys.argv: print(o[:1200])
        finally:
            subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
    print(i, meta["property"], "OK" if not msgs else msgs, res, flush=True)
