"""C18: the command-line programs train and test on the same rows at every party, and report the accuracy they have."""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

from vrt import boot, fed, oracle

RULE = ("Two kinds of cases: (a) random CSV files (number formats, widths, sizes, line ends, ids, labels) are read by the two readers and "
        "random lists are split by the splitters of guest.py and host.py; (b) guest.py and one to three host.py run as they are, "
        "with random CSV files, ratios and hosts, as parties of the simulated network (and once as real processes): the tables "
        "they train and predict on, the trees they use and the accuracy they print are compared with the files. Distinct by file "
        "content or by trained trees.")
ASSUMPTIONS = ["the CSV files list the same rows in the same order, as the repository's do", "at least two training rows and one test row"]
NEED = {"files": 100, "splits": 300, "programs": 8, "rows": 100, "accuracies": 8}
CPU_LIMIT = 250
QUICK_S = 30
MIN_CASES = 3


def fixed(tier):
    r = random.Random("c18")
    return [e2e(r, real=True)] + [e2e(r) for _ in range(3 if tier == "quick" else 16)]


def number(r, v):
    return r.choice(["%r", "%.6f", "%g", "%e", "%r"]) % v


def e2e(r, real=False):
    n, nh = r.choice([8, 12, 20, 30]), r.choice([1, 1, 2, 3])
    k = r.choice([2, 2, 2, 3])
    names = r.choice([["0", "1", "2"], ["no", "yes", "dunno"], ["-1", "1", "3"], ["1", "10", "100"], ["1", "1.0", "01"], ["0", "00", "-0"], ["a", "A", "a "],
                      ["yes", "ye", "y"]])
    w = [r.randint(1, 3) for _ in range(nh + 1)]
    rows = [[[number(r, round(r.gauss(0, 2), r.choice([0, 2, 9]))) for _ in range(w[p])] for _ in range(n)] for p in range(nh + 1)]
    y = [names[(i if i < k else int(sum(float(c[i][0]) for c in rows) > 0) if k == 2 or r.random() < .6 else 2)] if r.random() < .8 or i < k else
         names[r.randrange(k)] for i in range(n)]
    ids = r.choice([[str(i) for i in range(n)], ["id%d" % i for i in r.sample(range(999), n)]])
    order = r.sample(range(n), n)
    return dict(kind="e2e", real=real, ids=ids, y=[y[i] for i in order], tables=[[t[i] for i in order] for t in rows],
                ratio=r.choice([.5, .8, .7, .34]), ridx=r.choice([list(range(nh)), r.sample(range(20), nh)]), seed=r.getrandbits(40),
                sched=dict(seed=r.getrandbits(32), frag=r.choice(["whole", "mixed"]), capacity=None, quantum=.3, policy=r.choice(["random", "starve"])))


def case(rng, i, tier):
    if i % 40 == 7:
        return e2e(rng)
    return dict(kind="io", seed=rng.getrandbits(40))


def write(path, header, rows, eol="\n", last=True):
    body = [",".join(r) for r in [header] + rows]
    with open(path, "w", newline="") as f:
        f.write(eol.join(body) + (eol if last else ""))


def run_case(cfg, mon):
    tmp = tempfile.mkdtemp(prefix="vrt-c18-")
    cwd = os.getcwd()
    os.chdir(tmp)
    try:
        (run_e2e if cfg["kind"] == "e2e" else run_io)(cfg, mon, tmp)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


def same(got, want):
    return len(got) == len(want) and all(type(g).__name__ == "ndarray" and [float(v) for v in g] == w for g, w in zip(got, want))


def run_io(cfg, mon, tmp):
    from i_o.utils import read_from_csv_with_lable, read_from_csv_with_no_lable
    r = random.Random(cfg["seed"])
    check = mon.check
    for _ in range(6):
        n, w = r.choice([0, 1, 2, r.randint(1, 40)]), r.choice([1, 1, 2, r.randint(1, 12)])
        lab = r.random() < .5
        head = [r.choice(["id", "ID", "uid", " id"])] + (["y"] if lab else []) + ["x%d" % j for j in range(w)]
        if r.random() < .3:      # names do not matter, positions do
            r.shuffle(head)
        ids = [r.choice(["%d" % i, "u-%d" % i, "%05d" % i, "", "id %d" % i, "é%d" % i, " %d" % i, "%d " % i, "#%d" % i, "%%%d" % i, ";%d" % i, "*%d" % i, "-%d" % i, "//%d" % i]) for i in range(n)]
        ys = [r.choice(["0", "1", "-1", "yes", "1.0", "007", "", "#1", "-", "nan", "None"]) for _ in range(n)]
        vals = [[r.choice([0.0, -0.0, 1.0, r.gauss(0, 1), r.gauss(0, 1) * 10 ** r.randint(-30, 30), float(r.randint(-9, 9)), 1e-7, 5e-324]) for _ in range(w)] for _ in range(n)]
        text = [[r.choice([repr(v), "%.17g" % v, "%.17e" % v, "  %r" % v, "%r " % v, "+%r" % v if v > 0 else repr(v)]) for v in row] for row in vals]
        rows = [[ids[i]] + ([ys[i]] if lab else []) + text[i] for i in range(n)]
        p = os.path.join(tmp, "f.csv")
        write(p, head, rows, r.choice(["\n", "\n", "\r\n"]), r.random() < .7)
        mon.count("files")
        mon.state(rows, head)
        keep = open(p, "rb").read()
        if lab:
            h, gi, gf, gy = read_from_csv_with_lable(p)
            check(list(gy) == ys, "labels", "labels %r were read as %r", ys, gy)
        else:
            h, gi, gf = read_from_csv_with_no_lable(p)
        check(list(h) == head[2 if lab else 1:], "header", "header %r of %r", h, head)
        check(list(gi) == ids, "ids", "ids %r were read as %r", ids, gi)
        check(same(gf, vals), "features", "features %r were read as %r", vals, gf)
        check(open(p, "rb").read() == keep, "file-changed", "reading changed the file")
    # the splitters
    mods = {}
    import compat
    for s in ("guest.py", "host.py"):
        g = {"__name__": "cli", "__file__": s, "float": compat.LegacyFloat}
        exec(compile(open(os.path.join(boot.REPO, s)).read(), s, "exec"), g)
        mods[s] = g["data_split"]
    for _ in range(12):
        n = r.choice([0, 1, 2, 3, r.randint(0, 60), 10])
        ratio = r.choice([0.0, 1.0, .5, .8, .1, .99, r.random(), r.randint(0, 100) / 100])
        if r.random() < .25:
            n, ratio = r.choice([(100, .29), (100, .57), (100, .58), (1000, .001 * r.randint(0, 1000)), (10 * r.randint(1, 30), .1 * r.randint(1, 9))])
        shuffle, seed = r.random() < .7, r.choice([None, 2, 2, r.randint(0, 99)])
        state = random.getstate()
        full = [["g", i] for i in range(n)]
        k = int(n * ratio)
        res = {}
        for s, f in mods.items():
            random.setstate(state)
            if seed is not None:
                random.seed(r.random())      # a given seed decides alone
            a, b = f([(s, i) for i in range(n)], ratio, shuffle, seed)
            mon.count("splits")
            res[s] = [i for _, i in a], [i for _, i in b]
            check(len(a) == k and len(b) == n - k, "split-size", "%s: %d rows at ratio %r split into %d and %d", s, n, ratio, len(a), len(b))
            check(sorted(res[s][0] + res[s][1]) == list(range(n)), "split-rows", "%s: splitting %d rows gave %r", s, n, res[s])
            if not shuffle:
                check(res[s][0] + res[s][1] == list(range(n)), "split-order", "%s: unshuffled split changed the order", s)
        check(res["guest.py"] == res["host.py"], "split-differs", "guest and host split %d rows at %r with seed %r differently: %r", n, ratio, seed, res)
        if shuffle and n > 30 and k >= 1 and seed is not None:
            check(res["guest.py"][0] + res["guest.py"][1] != list(range(n)), "unshuffled", "a shuffled split left %d rows in order", n)
    mon.sample = dict(rows=n, ratio=ratio)


def run_e2e(cfg, mon, tmp):
    check = mon.check
    n, nh = len(cfg["ids"]), len(cfg["tables"]) - 1
    heads = [["id"] + ["x%d" % j for j in range(len(t[0]))] for t in cfg["tables"]]
    for p in range(nh + 1):
        lead = [[cfg["ids"][i]] + ([cfg["y"][i]] if p == 0 else []) for i in range(n)]
        write("p%d.csv" % p, heads[p][:1] + (["y"] if p == 0 else []) + heads[p][1:], [lead[i] + cfg["tables"][p][i] for i in range(n)])
    k = int(n * cfg["ratio"])
    recs = (real if cfg["real"] else sim)(cfg, mon, tmp, nh)
    if recs is None:
        return
    vals = [[[float(v) for v in row] for row in t] for t in cfg["tables"]]
    pos = {d: i for i, d in enumerate(cfg["ids"])}
    order = None
    for p, rec in enumerate(recs):
        who = "guest" if p == 0 else "host %d" % p
        check(len(rec["train"]) == len(rec["test"]) == 1, "runs", "%s trained %d times and predicted %d times", who, len(rec["train"]), len(rec["test"]))
        parts = []
        for part in ("train", "test"):
            t = rec[part][0]
            check([row[0] for row in t["rows"]] == list(range(len(t["rows"]))), "keys", "%s: %s rows are keyed %r", who, part, [x[0] for x in t["rows"]])
            check(t["header"] == heads[p][1:], "header", "%s: header %r, the file has %r", who, t["header"], heads[p][1:])
            parts.append([row[1] for row in t["rows"]])
            for _, d, feats, label in t["rows"]:
                mon.count("rows")
                check(d in pos, "id", "%s: id %r is not in the file", who, d)
                check(feats == vals[p][pos[d]], "row", "%s: row %r has features %r, the file %r", who, d, feats, vals[p][pos[d]])
                check(label == (cfg["y"][pos[d]] if p == 0 else None), "row", "%s: row %r has label %r", who, d, label)
        check(len(parts[0]) == k and sorted(parts[0] + parts[1]) == sorted(cfg["ids"]), "split", "%s: %d rows at %r were split into %r", who, n, cfg["ratio"], parts)
        order = order or parts
        check(parts == order, "alignment", "%s pairs other rows than the guest: %r and %r", who, parts, order)
    g = recs[0]
    pred = g["pred"][0]
    test = g["test"][0]["rows"]
    check(sorted(r[0] for r in pred) == list(range(n - k)), "pred-rows", "predictions for rows %r of %d", [r[0] for r in pred], n - k)
    for key, v in pred:
        check(v[0] == test[key][3], "pred-label", "the prediction of row %r carries label %r, it has %r", key, v[0], test[key][3])
    acc = sum(v[0] == v[1] for _, v in pred) / (n - k)
    nums = [float(x) for line in g["lines"] for x in re.findall(r"-?\d+\.?\d*(?:e-?\d+)?", line)]
    check(len(g["lines"]) == 1 and len(nums) == 1 and abs(nums[0] - acc) < 1e-6, "accuracy", "the guest printed %r, the accuracy is %r", g["lines"], acc)
    mon.count("accuracies")
    mon.count("programs", nh + 1)
    mon.sample = dict(rows=n, train=k, hosts=nh, accuracy=acc, real=cfg["real"], labels=sorted(set(cfg["y"])))
    if cfg["real"]:
        mon.count("real_processes", nh + 1)
        return
    # and the predictions are those of the trained trees on the joined rows
    tr = [pos[d] for d in order[0]]
    ys = [cfg["y"][i] for i in tr]

    class Out:
        pass
    out = Out()
    out.guest, out.hosts = g["model"], [r["model"] for r in recs[1:]]
    c = dict(guest=[vals[0][i] for i in tr], hosts=[[t[i] for i in tr] for t in vals[1:]], ridx=cfg["ridx"], task="classification",
             objective="cross_entropy", oparams=None, y=ys, keys=None, tree=dict(criterion_params=[.1]), lr=.3, threshold=.5)

    def go():
        from checks.c03 import check_rows
        rp = oracle.Replay(out, c)
        te = [pos[d] for d in order[1]]
        rows = {"guest": [[oracle.eff(v) for v in vals[0][i]] for i in te]}
        for q in range(nh):
            rows[rp.sites[q + 1]] = [[oracle.eff(v) for v in vals[q + 1][i]] for i in te]
        check_rows(mon, rp, rows, None, [cfg["y"][i] for i in te], [(a, b) for a, b in pred], "test rows")
        mon.state([t.SerializeToString(deterministic=True) for t in out.guest.trees_])
    fed.guarded(mon, go)



def argvs(cfg, nh, port):
    return (["p0.csv", nh, cfg["ratio"], "CLASSIFICATION", port],
            [["p%d.csv" % (i + 1), cfg["ratio"], port, cfg["ridx"][i]] for i in range(nh)])


def sim(cfg, mon, tmp, nh):
    from vrt import cli
    ga, ha = argvs(cfg, nh, 9000)
    net, ps = cli.run_sim(ga, ha, cfg["sched"], cfg["seed"])
    errs = [(p.name, p.exc, p.tb) for p in net.parties if p.exc is not None]
    if errs and one_class(cfg, nh):
        mon.skipped = "one class in the training rows"
        return None
    if errs or net.failure:
        mon.fail("cli-failed", "guest.py and host.py did not complete on valid files: %s %s", net.failure, [e[0] + ": " + e[2][-800:] for e in errs][:2])
    ps = {p.name: p for p in net.parties}
    return [ps["guest"].result] + [ps["host%d" % i].result for i in range(nh)]


def one_class(cfg, nh):
    """Whether some split of the rows could leave fewer than two classes to train on."""
    k = int(len(cfg["y"]) * cfg["ratio"])
    top = max(cfg["y"].count(c) for c in set(cfg["y"]))
    return top >= k


def real(cfg, mon, tmp, nh):
    import socket
    for _ in range(2):
        s = socket_free()
        if s is None:
            mon.count("real_unusable")
            return None
        ga, ha = argvs(cfg, nh, s)
        script = os.path.join(boot.VERIF, "vrt", "cli.py")
        cmds = [["guest"] + [os.path.join(tmp, "r0.json")] + [str(a) for a in ga]]
        cmds += [["host", os.path.join(tmp, "r%d.json" % (i + 1))] + [str(a) for a in h] for i, h in enumerate(ha)]
        ps = [subprocess.Popen([sys.executable, "-B", script] + c, cwd=tmp, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                               env=dict(os.environ, PYTHONHASHSEED="0")) for c in cmds]
        errs, slow = [], False
        for p in ps:
            try:
                errs.append(p.communicate(timeout=200)[1].decode()[-600:])
            except subprocess.TimeoutExpired:
                slow = True
                errs.append("")
            if slow:
                break
        for p in ps:
            if p.poll() is None:
                p.kill()
                p.wait()
        if slow:
            mon.count("real_unfinished")      # hangs are decided on the simulated network
            return None
        if all(p.returncode == 0 for p in ps):
            return [json.load(open(os.path.join(tmp, "r%d.json" % i))) for i in range(nh + 1)]
        if not any("Address already in use" in e or "Connection refused" in e or "Permission" in e for e in errs):
            break
    if one_class(cfg, nh):
        mon.skipped = "one class in the training rows"
        return None
    if any("Address already in use" in e or "Connection refused" in e or "Permission" in e for e in errs):
        mon.count("real_unusable")
        return None
    mon.fail("cli-failed", "guest.py and host.py as real processes did not complete on valid files: %s", [e for e in errs if e][:2])


def socket_free():
    """A free port of the loopback interface, without the simulated sockets."""
    out = subprocess.run([sys.executable, "-c", "import socket; s=socket.socket(); s.bind(('127.0.0.1',0)); print(s.getsockname()[1])"], capture_output=True, text=True)
    try:
        return int(out.stdout)
    except ValueError:
        return None
