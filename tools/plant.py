"""plant.py ID PROPERTY FILE(rel. torchimage/) NEEDS BREAKS  (stdin: python source with OLD=..., NEW=..., DEMO=... ; optional EDITS=[(file, old, new), ...])
Makes the patch in a scratch copy of /repo, runs the stable tests and the demonstration before and after, and writes /verif/seeded/ID."""
import json, os, shutil, subprocess, sys, tempfile
ID, PROP, FILE, NEEDS, BREAKS = sys.argv[1:6]
ns = {}
exec(sys.stdin.read(), ns)
edits = ns.get("EDITS") or [(FILE, ns["OLD"], ns["NEW"])]
scratch = tempfile.mkdtemp(prefix="plant_")
try:
    repo = os.path.join(scratch, "repo")
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    out = os.path.join("/verif/seeded", ID)
    tmp = os.path.join(scratch, "out")
    os.makedirs(tmp)
    open(os.path.join(tmp, "demo.py"), "w").write(ns["DEMO"].lstrip())
    open(os.path.join(tmp, "demo.sh"), "w").write('#!/bin/sh\nPY=/opt/venv/bin/python\n[ -x "$PY" ] || PY=python3\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec "$PY" -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(tmp, "demo.sh"), 0o755)

    def demo():
        r = subprocess.run(["sh", os.path.join(tmp, "demo.sh")], cwd=repo, capture_output=True, text=True)
        return r.returncode, (r.stdout + r.stderr)[-400:]
    a = demo()
    if a[0] != 0:
        sys.exit(f"{ID}: demo fails on the unchanged tree: {a}")
    for f, o, n in edits:
        p = os.path.join(repo, "torchimage", f)
        s = open(p).read()
        if s.count(o) != 1:
            sys.exit(f"{ID}: {s.count(o)} occurrences of the old text in {f}")
        open(p, "w").write(s.replace(o, n))
    diff = subprocess.run(["git", "-C", repo, "diff"], capture_output=True, text=True).stdout
    b = demo()
    if b[0] == 0:
        sys.exit(f"{ID}: demo passes with the change")
    js = os.path.join(scratch, "o.json")
    # the stable tests, run in the scratch copy
    base = json.load(open("/opt/vp/BASELINE.json"))
    sh = open("/opt/vp/test.sh").read().replace("/repo", repo)
    p = os.path.join(scratch, "test.sh")
    open(p, "w").write(sh)
    r = subprocess.run(["bash", p, js], capture_output=True, text=True)
    res = json.load(open(js))
    failed = [t for t in (base.get("stable") or base.get("passed") or []) if t not in res.get("passed", [])]
    if failed or not res.get("passed"):
        sys.exit(f"{ID}: tests fail: {failed[:5]} {len(res.get('passed', []))}")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    for f in ("demo.py", "demo.sh"):
        shutil.copy2(os.path.join(tmp, f), out)
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    json.dump({"property": PROP, "needs": NEEDS, "what_it_breaks": BREAKS}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    print(ID, "ok; demo:", b[1].strip().splitlines()[-1:] , "tests passed", len(res["passed"]))
finally:
    shutil.rmtree(scratch, ignore_errors=True)
