"""Development tool: survivors of a mutation campaign before the full quick checks.  recheck.py MUT.jsonl IDX[:C01,C02] ..."""
import json
import os
import subprocess
import sys
import tempfile
import shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate
ls = [json.loads(x) for x in open(sys.argv[1])]
for a in sys.argv[2:]:
    i, _, cs = a.partition(":")
    d = ls[int(i)]
    f = d["file"]
    m = [t for l, w, t in mutate.mutants(f, open("/repo/" + f).read()) if (l, w) == (d["line"], d["what"])]
    cs = cs.split(",") if cs else [x[:3] for x in d.get("log", [])]
    w = tempfile.mkdtemp(prefix="rc")
    try:
        subprocess.check_call(["cp", "-a", "/repo", w + "/repo"])
        open(w + "/repo/" + f, "wb").write(m[0])
        env = dict(os.environ, VRT_REPO=w + "/repo", VRT_OUT=w)
        res = []
        for c in cs:
            rc, o = mutate.sh(["python3-vt", "-B", "run.py", c, "--tier", "quick"], mutate.V, env, 600)
            res.append("%s:%s" % (c, rc))
            if "VIOLATION property=" in o:
                res[-1] += " KILLED " + o.splitlines()[0][:100]
                break
            if rc != 0:
                res[-1] += " " + o.strip().splitlines()[-1][:150]
        print(i, f, d["line"], d["what"], "->", res, flush=True)
    finally:
        shutil.rmtree(w)
