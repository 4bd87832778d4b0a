#!/usr/bin/env python3
"""Development tool: mutation campaign.  python3 tools/mutate.py OUT.jsonl COVDIR [file-substring ...]

Small AST mutants of every non-test source file are made in copies of /repo (never in /repo); those that still pass the stable tests are
put before the checks that execute the mutated line (COVDIR/Cnn.txt: lines "path:line"), each on one worker for a few seconds, until one
reports a violation.  OUT gets one line per mutant; the survivors are read by hand: equivalent, or a hole in a check.
"""
import ast
import concurrent.futures as cf
import glob
import json
import os
import queue
import random
import re
import shutil
import signal
import subprocess
import sys
import collections

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST = [("xgboost/", "C04 C21 C20"), ("secureboosting", "C02 C03 C21 C20 C23 C14 C16"), ("boosting_tree.py", "C02 C23 C03"), ("histogram", "C11 C01"),
         ("ml/tree", "C01 C03 C02 C17 C05 C11 C14 C20"), ("loss", "C15 C02"), ("quantile_summ", "C09 C10 C19"), ("binning", "C10 C09 C01"),
         ("paillier", "C06 C08 C05"), ("fixedpoint", "C07 C06"), ("affine", "C22"), ("gmpy", "C22 C06"), ("encrypt", "C08 C22 C06 C05"),
         ("statistic", "C19 C10"), ("param", "C16 C23"), ("model_base", "C23"), ("d_table", "C12"), ("transfer", "C13 C14"), ("guest.py", "C18"),
         ("host.py", "C18"), ("i_o", "C18"), ("fate_op", "C19"), ("convergence", "C21"), ("activation", "C15"), ("", "C01 C15 C23 C19")]
SKIP = re.compile(r"_pb2|test|consts\.py|logger\.py|__init__")
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"], ast.GtE: [">", "<="], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.FloorDiv: ["%"], ast.Mod: ["//"], ast.Pow: ["*"]}
UNWRAP = {"abs", "sorted", "list", "copy", "deepcopy", "max", "min", "set", "reversed", "tuple", "int", "float"}


def noisy(n):
    s = ast.unparse(n)
    return bool(re.search(r"(?i)log(ger)?\.(info|debug|warn|error|warning)|^print\(|^raise ", s))


def mutants(path, src):
    """(line, what, start, end, new text)"""
    tree = ast.parse(src)
    off = [0]
    for l in src.splitlines(True):
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    out = []

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        s, e = pos(n)
        return b[s:e].decode()

    def put(n, new, what):
        s, e = pos(n)
        out.append((n.lineno, what, s, e, new))

    def visit(n, infn):
        if isinstance(n, ast.If) and "__main__" in ast.unparse(n.test):
            return
        if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.Expr):
            if isinstance(n.value, ast.Constant) or noisy(n.value):
                return
            put(n, "pass", "drop " + seg(n)[:60])
        if isinstance(n, (ast.Assign, ast.AugAssign)) and infn:
            t = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if isinstance(t, (ast.Attribute, ast.Subscript)) or isinstance(n, ast.AugAssign):
                put(n, "pass", "drop " + seg(n)[:60])
        if isinstance(n, (ast.Continue, ast.Break)):
            put(n, "pass", "drop " + seg(n))
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            put(n, "return None", "return None for " + seg(n)[:60])
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            t = n.test
            if isinstance(n, ast.If):
                put(t, "True", "if True for " + seg(t)[:60])
            if not isinstance(n, ast.While):
                put(t, "False", "if False for " + seg(t)[:60])
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                put(n, "%s %s %s" % (seg(n.left), o, seg(n.comparators[0])), "cmp %s -> %s" % (seg(n)[:60], o))
        if isinstance(n, ast.BinOp) and not (isinstance(n.op, (ast.Mod, ast.Add)) and isinstance(n.left, (ast.Constant, ast.JoinedStr))
                                             and isinstance(getattr(n.left, "value", 0), (str, bytes, type(None)))):
            for o in BIN.get(type(n.op), []):
                put(n, "(%s) %s (%s)" % (seg(n.left), o, seg(n.right)), "op %s -> %s" % (seg(n)[:60], o))
        if isinstance(n, ast.BoolOp):
            j = " or " if isinstance(n.op, ast.And) else " and "
            put(n, "(" + j.join("(%s)" % seg(v) for v in n.values) + ")", "bool %s ->%s" % (seg(n)[:60], j))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            put(n, "(%s)" % seg(n.operand), "unary %s" % seg(n)[:60])
        if isinstance(n, ast.Constant) and infn:
            v = n.value
            if v is True or v is False:
                put(n, str(not v), "const %s" % v)
            elif isinstance(v, int):
                put(n, str(v + 1), "const %s+1" % v)
                if v > 0:
                    put(n, str(v - 1), "const %s-1" % v)
            elif isinstance(v, float):
                put(n, repr(v * 1.5 + (0.25 if v == 0 else 0)), "const %s*1.5" % v)
        if isinstance(n, ast.Call):
            if noisy(n):
                return
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                s, e = pos(n.args[0])[0], pos(n.args[1])[1]
                out.append((n.args[0].lineno, "swap args of " + seg(n)[:60], s, e, seg(n.args[1]) + ", " + seg(n.args[0])))
            f = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ""
            if f in UNWRAP and len(n.args) >= 1 and not isinstance(n.args[0], ast.Starred):
                put(n, "(%s)" % seg(n.args[0]), "unwrap " + seg(n)[:60])
            for k in n.keywords:
                if k.arg:
                    pass
        if isinstance(n, ast.For) and infn:
            put(n.iter, "list(%s)[1:]" % seg(n.iter), "skip first of " + seg(n.iter)[:50])
            put(n.iter, "list(%s)[:-1]" % seg(n.iter), "skip last of " + seg(n.iter)[:50])
        for c in ast.iter_child_nodes(n):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)) and isinstance(c, ast.arguments):
                for d in c.defaults + c.kw_defaults:
                    if d is not None:
                        visit(d, True)
                continue
            visit(c, infn or isinstance(n, (ast.FunctionDef, ast.Lambda)))
    visit(tree, False)
    seen, res = set(), []
    for m in out:
        t = b[:m[2]] + m[4].encode() + b[m[3]:]
        if t in seen or t == b:
            continue
        try:
            if ast.dump(ast.parse(t)) == ast.dump(tree):
                continue
        except SyntaxError:
            continue
        seen.add(t)
        res.append((m[0], m[1], t))
    return res


def sh(cmd, cwd, env=None, timeout=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return 124, "timeout"


def main():
    outp, covd, pats = sys.argv[1], sys.argv[2], sys.argv[3:]
    hit = collections.defaultdict(list)
    size = {}
    for f in sorted(glob.glob(covd + "/C*.txt")):
        c = os.path.basename(f)[:3]
        ls = sorted(set(open(f).read().split()))
        size[c] = len(ls)
        for l in ls:
            hit[l.replace("/repo/", "")].append(c)
    done = set()
    if os.path.exists(outp):
        for l in open(outp):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["what"]))
    jobs = []
    for f in subprocess.check_output(["git", "-C", "/repo", "ls-files", "*.py"], text=True).split():
        if SKIP.search(f) or pats and not any(p in f for p in pats):
            continue
        src = open("/repo/" + f).read()
        for line, what, text in mutants(f, src):
            if (f, line, what) in done:
                continue
            cs = sorted(hit.get("%s:%d" % (f, line), []), key=lambda c: size[c])
            jobs.append((f, line, what, text, cs))
    random.Random(7).shuffle(jobs)
    print(len(jobs), "mutants", flush=True)
    if os.environ.get("MUT_DRY"):
        print(collections.Counter(j[0] for j in jobs))
        return
    nw = int(os.environ.get("MUT_WORKERS", "8"))
    secs = os.environ.get("MUT_SECS", "5")
    cap = int(os.environ.get("MUT_CAP", "6"))
    free = queue.Queue()
    for k in range(nw):
        w = "/tmp/mu/%d" % k
        if os.path.exists(w):
            shutil.rmtree(w)
        os.makedirs(w)
        subprocess.check_call(["cp", "-a", "/repo", w + "/repo"])
        free.put(w)
    res = open(outp, "a")

    def one(j):
        f, line, what, text, cs = j
        w = free.get()
        p = w + "/repo/" + f
        orig = open(p, "rb").read()
        try:
            open(p, "wb").write(text)
            if not cs:
                return dict(file=f, line=line, what=what, result="uncovered")
            if f.startswith("computing"):
                rc, o = sh(["/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-p", "no:cacheprovider", "computing/test_d_table.py"], w + "/repo", timeout=60)
                if "12 passed" not in o:
                    return dict(file=f, line=line, what=what, result="tests")
            env = dict(os.environ, VRT_REPO=w + "/repo", VRT_OUT=w, VERIF_SEED="5", VRT_WORKERS="1")
            log = []
            pri = [c for k, v in FIRST if k in f for c in v.split()]
            pick = sorted(cs, key=lambda c: pri.index(c) if c in pri else 99)[:cap]
            for c in pick:
                rc, o = sh(["python3-vt", "-B", "run.py", c, "--tier", "quick", "--seconds", secs], V, env, 120)
                log.append("%s:%s" % (c, rc))
                if "VIOLATION property=" in o:
                    return dict(file=f, line=line, what=what, result="killed", by=c, mech=o.splitlines()[0][:80])
                if rc == 124 or "ERROR" in o:
                    log[-1] += " " + [l for l in o.splitlines() if "ERROR" in l or l == "timeout"][-1][:80]
            return dict(file=f, line=line, what=what, result="survived", log=log)
        except Exception as e:  # noqa
            return dict(file=f, line=line, what=what, result="error", msg=repr(e))
        finally:
            open(p, "wb").write(orig)
            free.put(w)
    n = collections.Counter()
    with cf.ThreadPoolExecutor(nw) as ex:
        for d in ex.map(one, jobs):
            n[d["result"]] += 1
            res.write(json.dumps(d) + "\n")
            res.flush()
            if sum(n.values()) % 50 == 0:
                print(dict(n), flush=True)
    print(dict(n))


if __name__ == "__main__":
    main()
