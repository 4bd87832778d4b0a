"""C09: quantile summaries answer within the documented rank error."""
import bisect
import math

RULE = ("A case is a stream of numbers (random, sorted, reversed, heavy ties, extreme magnitudes), an error, buffer sizes, "
        "optional splitting into summaries that are merged, queries interleaved with insertions, sparse streams with "
        "implied zeros, or a table binned by QuantileBinning. Every answer's rank range in the exact sorted data is compared "
        "with the documented bound. Distinct by (kind, error, size class, compressed or not).")
ASSUMPTIONS = ["the bound is the one FeatureBinningParam documents: floor((p-2e)N) <= rank <= ceil((p+2e)N)",
               "a sparse vector holds only values that are not zero by the library's 1e-6 rule"]
NEED = {"queries": 4000, "merged": 20, "sparse": 20, "tables": 15, "compressed": 30, "interleaved": 20, "pieces": 10, "abnormal": 30, "junk": 5}
CPU_LIMIT = 200


def stream(rng, n, nonzero=False):
    s = rng.choice(["gauss", "int", "sorted", "rev", "dup", "big", "mixed", "zigzag", "tail", "near"])
    if s in ("gauss", "sorted", "rev", "zigzag"):
        v = [rng.gauss(0, 3) for _ in range(n)]
        if s != "gauss":
            v.sort(reverse=s == "rev")
        if s == "zigzag":
            v = [v[i // 2] if i % 2 else v[-1 - i // 2] for i in range(n)]
    elif s == "int":
        v = [rng.randint(-6, 9) for _ in range(n)]
    elif s == "dup":
        pool = [rng.uniform(-5, 5) for _ in range(rng.randint(1, 4))]
        v = [rng.choice(pool) for _ in range(n)]
    elif s == "big":
        v = [rng.uniform(-1, 1) * 10 ** rng.randint(-3, 12) for _ in range(n)]
    elif s == "near":        # distinct values that almost coincide
        c = rng.choice([1e6, 1.0, -3e3])
        v = [c * (1 + rng.randint(0, n) * rng.choice([1e-10, 1e-13, 1e-7])) for _ in range(n)]
    elif s == "tail":        # every later batch lies above or below the earlier ones
        v = [(i // max(1, n // 7)) * rng.choice([1, 1, -1]) * 10 + rng.random() for i in range(n)]
    else:
        v = [rng.choice([0, rng.gauss(0, 1), rng.expovariate(.1)]) for _ in range(n)]
    if nonzero:
        v = [x if abs(x) > 1e-5 else 1.5 for x in v]
    return v


ABN = -999.25


def case(rng, i, tier):
    kind = rng.choice(["one", "one", "merge", "merge", "sparse", "sparsemerge", "table"])
    top = 3000 if tier == "quick" else 40000
    size = lambda: rng.choice([1, 2, 3, rng.randint(1, 60), rng.randint(1, 600), rng.randint(1, top)])
    cfg = dict(kind=kind, err=rng.choice([.0001, .001, .01, .05, .1, .2, .3]), thres=rng.choice([1, 5, 20, 100, 10000]),
               head=rng.choice([1, 3, 10, 50, 500, 10000]), style=rng.random())
    if kind == "one":
        cfg.update(parts=[stream(rng, size())], ask=[rng.random() for _ in range(rng.choice([0, 0, 3]))],
                   abnormal=rng.random() < .15, text=rng.random() < .1)
    elif kind == "merge":
        cfg.update(parts=[stream(rng, size() if rng.random() < .9 else 0) for _ in range(rng.randint(2, 7))],
                   tree=rng.random() < .4)
    elif kind in ("sparse", "sparsemerge"):
        cfg.update(parts=[stream(rng, size(), True) if rng.random() < .93 else [] for _ in range(1 if kind == "sparse" else rng.randint(2, 4))],
                   zeros=rng.choice([0, 1, rng.randint(0, 40), rng.randint(0, 3000)]), abnormal=rng.random() < .3)
        if not any(cfg["parts"]) and not cfg["zeros"]:
            cfg["zeros"] = 3
    else:
        n = rng.choice([1, 2, rng.randint(3, 40), rng.randint(3, 400)])
        w = rng.randint(1, 4)
        sp = rng.random() < .4
        cols = [stream(rng, n, False) for _ in range(w)]
        if sp:
            cols = [[x if rng.random() < .5 and abs(x) > 1e-5 else 0.0 for x in c] for c in cols]
        rows = [[float(c[j]) for c in cols] for j in range(n)]
        if rng.random() < .35:      # abnormal cells, and cells that are no numbers; the first row keeps a value in every column
            cfg["junk"] = [ABN] if sp else rng.choice([[ABN], ["n/a", None, ""], [ABN, "n/a", None]])
            share = rng.choice([.05, .3, .8])
            rows[1:] = [[rng.choice(cfg["junk"]) if rng.random() < share else x for x in r] for r in rows[1:]]
        cfg.update(rows=rows, sparse=sp, bins=rng.choice([1, 2, 3, 10, 32, 100]),
                   cols=-1 if rng.random() < .7 else sorted(rng.sample(range(w), rng.randint(1, w))),
                   plain=rng.random() < .2)
    return cfg


QS = sorted(set([k / 40 for k in range(41)] + [k / 32 for k in range(33)] + [1 / 3, 2 / 3, .999, .001, .0001, .9999]))


def run_case(cfg, mon):
    if cfg["kind"] == "table":
        return table(cfg, mon)
    from ml.feature.quantile_summaries import QuantileSummaries, SparseQuantileSummaries
    sparse = cfg["kind"].startswith("sparse")
    cls = SparseQuantileSummaries if sparse else QuantileSummaries
    e = cfg["err"]
    bad = [-999.25, "junk"] if cfg.get("abnormal") else None
    made, nbad = [], 0
    for k, vals in enumerate(cfg["parts"]):
        s = cls(cfg["thres"], cfg["head"], e, bad) if bad else cls(cfg["thres"], cfg["head"], e)
        asks = sorted(int(a * len(vals)) for a in cfg.get("ask", []))
        for j, v in enumerate(vals):
            if bad and j % 5 == 0:
                s.insert(bad[j // 5 % 2])
                nbad += 1
                mon.count("abnormal")
            if cfg.get("text") and j % 4 == 1:
                s.insert(["n/a", "", "--", None][j // 4 % 4])      # no number: not counted
            s.insert(str(v) if cfg.get("text") and j % 3 == 0 else v)
            if j in asks:
                ask(mon, s, sorted(vals[:j + 1]), e, cfg)
                mon.count("interleaved")
        made.append(s)
    if cfg.get("tree"):
        while len(made) > 1:
            nxt = []
            for a in range(0, len(made), 2):
                if a + 1 < len(made):
                    made[a].merge(made[a + 1])
                nxt.append(made[a])
            made = nxt
    else:
        for s in made[1:]:
            made[0].merge(s)
    s = made[0]
    if len(cfg["parts"]) > 1:
        mon.count("merged")
    data = [float(v) for p in cfg["parts"] for v in p]
    if sparse:
        mon.count("sparse")
        s.set_total_count(len(data) + cfg["zeros"] + nbad)
        data += [0.0] * cfg["zeros"]
    data.sort()
    if not data:
        return
    ask(mon, s, data, e, cfg)
    if 2 * e * len(data) >= 4 and cfg["thres"] < len(data):
        mon.count("compressed")
    mon.state(cfg["kind"], e, len(data).bit_length(), cfg["thres"], cfg["head"], data[:3])
    mon.sample = dict(kind=cfg["kind"], error=e, sizes=[len(p) for p in cfg["parts"]], zeros=cfg.get("zeros"),
                      median=s.query(.5))
    for q in (-.01, 1.01):
        if sparse:
            continue
        try:
            s.query(q)
        except ValueError:
            mon.count("rejected")
        else:
            mon.fail("range", "quantile %r was answered", q)


def bound(data, x, p, e):
    n = len(data)
    lo, hi = bisect.bisect_left(data, x) + 1, bisect.bisect_right(data, x)
    low, high = math.floor((p - 2 * e) * n + 1e-9), max(1, math.ceil((p + 2 * e) * n - 1e-9))
    return lo, hi, low, high


def ask(mon, s, data, e, cfg):
    got = []
    for p in QS:
        x = s.query(p)
        mon.count("queries")
        lo, hi, low, high = bound(data, x, p, e)
        mon.check(hi >= lo, "not-a-value", "quantile %r: %r is not one of the values", p, x)
        mon.check(lo <= high and hi >= low, "rank", "quantile %r of %d values at error %r: %r has rank %d..%d, allowed is "
                  "%d..%d", p, len(data), e, x, lo, hi, low, high)
        got.append(x)
    mon.check(all(a <= b for a, b in zip(got, got[1:])), "order", "quantiles do not ascend")


def values(rows, name):
    """What counts in a column: neither abnormal values nor what is no number."""
    return sorted(r[int(name[1:])] for r in rows if isinstance(r[int(name[1:])], float) and r[int(name[1:])] != ABN)


def table(cfg, mon):
    import numpy as np
    from vrt import session
    from computing.d_table import DTable
    from ml.feature.binning.quantile_binning import QuantileBinning
    from ml.feature.instance import Instance
    from ml.param.feature_binning_param import FeatureBinningParam
    rows, w = cfg["rows"], len(cfg["rows"][0])
    p = FeatureBinningParam(bin_num=cfg["bins"], error=cfg["err"], compress_thres=cfg["thres"], head_size=cfg["head"],
                            cols=cfg["cols"])
    junk = cfg.get("junk")
    if not cfg["sparse"] and (cfg["plain"] or junk):
        kind = object if junk and junk != [ABN] else float
        mon.count("junk", bool(junk))
        t = DTable(False, [np.array(r, dtype=kind) if cfg["plain"] else Instance(features=np.array(r, dtype=kind)) for r in rows])
        t.schema["header"] = ["x%d" % j for j in range(w)]
    else:
        t = session.make_table(rows, sparse=cfg["sparse"])
    b = QuantileBinning(p, abnormal_list=[ABN]) if junk and ABN in junk else QuantileBinning(p)
    sp = b.fit_split_points(t)
    mon.count("tables")
    want = ["x%d" % j for j in (range(w) if cfg["cols"] == -1 else cfg["cols"])]
    mon.check(sorted(sp) == sorted(want), "columns", "columns %r were asked for, got %r", want, sorted(sp))
    for name in want:
        data = values(rows, name)
        pts = list(sp[name])
        mon.check(all(a < c for a, c in zip(pts, pts[1:])), "order", "split points of %s do not ascend: %r", name, pts)
        mon.check(len(pts) <= max(0, cfg["bins"] - 1), "too-many", "%d split points for %d bins", len(pts), cfg["bins"])
        for x in pts:
            mon.check(any(x == d for d in data), "not-a-value", "split point %r of %s is not one of its values", x, name)
        n = len(data)
        for k in range(1, cfg["bins"]):     # each quantile is represented, and nothing else is
            q = k / cfg["bins"]
            mon.count("queries")
            okk = False
            for x in pts:
                lo, hi, low, high = bound(data, x, q, cfg["err"])
                okk = okk or (lo <= high and hi >= low)
            mon.check(okk, "rank", "no split point of %s lies at quantile %r: %r", name, q, pts)
        for x in pts:
            okk = False
            for k in range(1, cfg["bins"]):
                lo, hi, low, high = bound(data, x, k / cfg["bins"], cfg["err"])
                okk = okk or (lo <= high and hi >= low)
            mon.check(okk, "rank", "split point %r of %s is at none of the quantiles", x, name)
        mon.state("table", cfg["sparse"], cfg["bins"], n.bit_length(), pts[:2])
    again = b.fit_split_points(t)
    mon.check(sorted(again) == sorted(want) and all(list(again[c]) == list(sp[c]) for c in want), "refit", "fitting once more gives other split points: %r, first %r", again, sp)
    pieces(mon, cfg, QuantileBinning, p, t, want)
    mon.sample = dict(kind="table", rows=len(rows), bins=cfg["bins"], sparse=cfg["sparse"],
                      points={k: [float(x) for x in v][:6] for k, v in list(sp.items())[:2]})


def pieces(mon, cfg, QB, p, t, want):
    """A table summarised piece by piece, the pieces merged, as a partitioned store would."""
    if not (hasattr(QB, "approxiQuantile") and hasattr(QB, "merge_summary_dict")):
        return
    rows, header = list(t.collect()), list(t.schema["header"])
    k = max(1, len(rows) // 3)
    merged = None
    for a in range(0, len(rows), k):
        d, = QB.approxiQuantile(rows[a:a + k], params=p, cols_dict={c: header.index(c) for c in want}, abnormal_list=[ABN] if ABN in cfg.get("junk", []) else [], header=header, is_sparse=cfg["sparse"])
        merged = QB.merge_summary_dict(merged, d) if a % 2 else QB.merge_summary_dict(QB.merge_summary_dict(merged, None), d)
    mon.check(QB.merge_summary_dict(None, None) is None and sorted(merged) == sorted(want), "pieces", "columns %r were merged into %r", want, sorted(merged))
    mon.count("pieces")
    for name in want:
        data = values(cfg["rows"], name)
        if cfg["sparse"]:
            merged[name].set_total_count(len(cfg["rows"]))
        for q in QS:
            x = merged[name].query(q)
            lo, hi, low, high = bound(data, x, q, cfg["err"])
            mon.count("queries")
            mon.check(hi >= lo and lo <= high and hi >= low, "rank", "merged pieces: quantile %r of %d values at error %r: %r has rank %d..%d, allowed is %d..%d",
                      q, len(data), cfg["err"], x, lo, hi, low, high)
