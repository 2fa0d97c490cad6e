#!/usr/bin/env python3
"""Builds /verif/seeded/* from tools/seeds/*.py; verifies each in a scratch copy of /repo."""
import sys, os, subprocess, shutil, json, glob, importlib.util, concurrent.futures, tempfile
ROOT = "/verif"
LIB = ROOT + "/tools/seedlib"
SEEDS = {}
def seed(id, prop, needs, breaks, edits, main, rec=True, demo=None, files=None):
    SEEDS[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, main=main, rec=rec, demo=demo, files=files or {})
def env():
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; env -0"], capture_output=True).stdout
    return dict(x.split("=", 1) for x in out.decode().split("\0") if "=" in x)
ENV = env()
def sh(cmd, cwd, timeout=300):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, errors="replace", timeout=timeout)
    return p.returncode, p.stdout + p.stderr
def build(id):
    s = SEEDS[id]
    d = f"{ROOT}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed-" + id + "-", dir="/tmp")
    try:
        repo = w + "/repo"
        sh(["git", "clone", "-q", "/repo", repo], "/")
        for f in glob.glob(d + "/*"):
            os.remove(f)
        main = s["main"]
        open(d + "/main.go", "w").write(main)
        if s["rec"]:
            shutil.copy(LIB + "/rec.go", d + "/rec.go")
        for n, c in s["files"].items():
            open(d + "/" + n, "wb").write(c if isinstance(c, bytes) else c.encode())
        if s["demo"]:
            open(d + "/demo.sh", "w").write(s["demo"])
        else:
            shutil.copy(LIB + "/demo.sh", d + "/demo.sh")
        os.chmod(d + "/demo.sh", 0o755)
        sh(["gofmt", "-w", d + "/main.go"], "/")
        rc, out = sh(["bash", d + "/demo.sh"], repo)
        if rc != 0:
            return f"{id}: demo fails on the unchanged tree ({rc}): {out[-1500:]}"
        for fn, old, new in s["edits"]:
            p = repo + "/" + fn
            t = open(p).read()
            if t.count(old) != 1:
                return f"{id}: {fn}: old text occurs {t.count(old)} times: {old!r}"
            open(p, "w").write(t.replace(old, new))
        fs = sorted({e[0] for e in s["edits"]})
        rc, out = sh(["gofmt", "-l"] + fs, repo)
        rc, diff = sh(["git", "diff"], repo)
        open(d + "/patch.diff", "w").write(diff)
        # touches an original line?
        base = "f18e84b"
        orig = False
        for fn in fs:
            rc, bl = sh(["git", "blame", "-l", "-s", "HEAD", "--", fn], repo)
            mine = set(subprocess.run(["git", "rev-list", f"{base}..HEAD"], cwd=repo, capture_output=True, text=True).stdout.split())
            rc, hunk = sh(["git", "diff", "-U0", "--", fn], repo)
            lines = bl.splitlines()
            for h in hunk.splitlines():
                if h.startswith("@@"):
                    a = h.split()[1][1:].split(",")
                    st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                    for k in range(st, st + n):
                        if lines[k - 1].split()[0].lstrip("^") not in mine:
                            orig = True
        if not orig:
            return f"{id}: no original line changed"
        rc, out = sh(["go", "build", "./..."], repo)
        if rc: return f"{id}: build: {out}"
        rc, out = sh(["go", "test", "./..."], repo)
        if rc: return f"{id}: tests: {out[-800:]}"
        rc, out = sh(["bash", d + "/demo.sh"], repo)
        if rc == 0:
            return f"{id}: demo passes with the patch"
        if rc == 3:
            return f"{id}: demo does not build: {out}"
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        return f"{id}: ok: {out.strip().splitlines()[-1][:160] if out.strip() else rc}"
    finally:
        shutil.rmtree(w, ignore_errors=True)
def main():
    for f in sorted(glob.glob(ROOT + "/tools/seeds/*.py")):
        ns = {"seed": seed}
        exec(compile(open(f).read(), f, "exec"), ns)
    ids = sys.argv[1:] or sorted(SEEDS)
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        for r in ex.map(build, ids):
            print(r)
main()
