#!/usr/bin/env python3
"""Development tool: plant bugs.  python3 tools/plant.py DEFS.py [id ...] -- builds seeded/<id>/ after confirming each bug.

DEFS.py calls bug(id, prop, edits=[(file, old, new)], needs, breaks, demo).  A bug is kept when it applies, the stable tests pass with it, and the demo
passes without and fails with it.  Then the property's check is run against the changed copy (never against /repo).
"""
import json
import os
import shutil
import subprocess
import sys
import concurrent.futures as cf

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = {}


def bug(id, prop, edits, needs, breaks, demo):
    assert id not in BUGS, id
    BUGS[id] = dict(id=id, prop=prop, edits=edits, needs=" ".join(needs.split()), breaks=" ".join(breaks.split()), demo=demo)


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def original(repo):
    """Lines of each file that the original repository had (a bug has to change those)."""


def build(b):
    w = "/tmp/plant/%s" % b["id"]
    if os.path.exists(w):
        shutil.rmtree(w)
    os.makedirs(w)
    repo = w + "/repo"
    subprocess.check_call(["cp", "-a", "/repo", repo])
    for f, old, new in b["edits"]:
        p = os.path.join(repo, f)
        s = open(p).read()
        if s.count(old) != 1:
            return "edit matches %d times in %s: %r" % (s.count(old), f, old[:80])
        open(p, "w").write(s.replace(old, new))
        base = subprocess.check_output(["git", "-C", "/repo", "show", "db6d4b6:" + f], text=True)
    d = w + "/seed"
    os.makedirs(d)
    open(d + "/patch.diff", "w").write(sh(["git", "diff"], repo).stdout)
    removed = [l[1:] for l in open(d + "/patch.diff") if l.startswith("-") and not l.startswith("---")]
    basel = set(subprocess.check_output(["git", "-C", "/repo", "show", "db6d4b6:" + b["edits"][0][0]], text=True).splitlines(True))
    if removed and not any(l in basel for l in removed if l.strip()):
        return "changes no original line"
    for x in ("lib.py", "gmpy2.py", "numba.py", "compat.py"):
        shutil.copy(os.path.join(V, "tools/demo", x), d)
    open(d + "/demo.py", "w").write("from lib import *  # noqa\n\n" + b["demo"].strip() + "\n\ndone()\n")
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# %s\nexport PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\nexec python3-vt -B "$(dirname "$0")/demo.py"\n' % b["breaks"])
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
    t = sh(["/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-p", "no:cacheprovider", "computing/test_d_table.py"], repo)
    if "12 passed" not in t.stdout:
        return "stable tests: " + t.stdout[-500:]
    r = sh([d + "/demo.sh"], "/repo", timeout=280)
    if r.returncode != 0:
        return "demo fails on the clean tree: " + r.stdout[-1500:]
    r = sh([d + "/demo.sh"], repo, timeout=280)
    if r.returncode == 0:
        return "demo passes with the bug"
    msg = r.stdout.strip().splitlines()[-1][:160] if r.stdout.strip() else "rc %d" % r.returncode
    dst = os.path.join(V, "seeded", b["id"])
    if os.path.exists(dst):
        shutil.rmtree(dst)
    shutil.copytree(d, dst)
    return "kept; demo: " + msg


def run(b, secs):
    out = []
    for c in b["prop"].split():
        env = dict(os.environ, VRT_REPO="/tmp/plant/%s/repo" % b["id"], VRT_OUT="/tmp/plant/%s" % b["id"], VERIF_SEED="1", VRT_WORKERS="4")
        r = sh(["python3-vt", "-B", "run.py", c, "--tier", "quick"], V, env=env)
        v = "VIOLATION property=%s" % c in r.stdout
        lines = r.stdout.splitlines()
        out.append("%s rc=%d %s | %s" % (c, r.returncode, "CAUGHT" if v and r.returncode == 1 else "MISSED", " / ".join(lines[:2])[:200]))
    shutil.rmtree("/tmp/plant/%s" % b["id"])
    return "; ".join(out)


def one(b):
    try:
        m = build(b)
    except Exception as e:  # noqa
        m = "error %r" % e
    if m.startswith("kept"):
        return b["id"], m + "\n     " + run(b, 0)
    return b["id"], "REJECTED " + m


def main():
    src = open(sys.argv[1]).read()
    exec(compile(src, sys.argv[1], "exec"), dict(bug=bug))
    ids = sys.argv[2:] or list(BUGS)
    with cf.ThreadPoolExecutor(3) as ex:
        for i, m in ex.map(one, [BUGS[i] for i in ids]):
            print("%s: %s" % (i, m), flush=True)


if __name__ == "__main__":
    main()
