"""C11: gradient histograms account for every row of every node exactly once."""
import math

RULE = ("A case is a binned sparse table, a dispatch of its rows over open, finished and unrelated tree nodes, gradients (plain "
        "or Paillier-encrypted, possibly for a subset of the rows, in another order), a feature selection and a node "
        "numbering; every cell of the plain and of the cumulative histogram is compared with a direct sum over the rows, "
        "and the last cumulative cell of every feature with the node's total. Histograms of row subsets must add up to the "
        "whole. Distinct by (nodes, features, selection, encrypted).")
ASSUMPTIONS = ["bins and gradients meet the callers' contract: bins lie within the split points, every node number is unique",
               "encrypted sums are judged at 1e-9 relative"]
NEED = {"cells": 5000, "encrypted_cells": 300, "deselected": 50, "finished_rows": 100, "implied_rows": 300, "merged": 20}
_key = {}


def case(rng, i, tier):
    n = rng.choice([0, 1, rng.randint(2, 40), rng.randint(2, 200)]) if rng.random() < .8 else rng.randint(2, 12)
    w = rng.randint(1, 5)
    enc = rng.random() < (.25 if tier == "quick" else .3)
    if enc:
        n = min(n, rng.randint(1, 18))
    same = rng.choice([None, None, rng.randint(0, 5)])
    npts = [same if same is not None else rng.randint(0, 6) for _ in range(w)]
    nodes = rng.sample(range(0, 40), rng.randint(1, 5))
    other = rng.sample(range(40, 60), 2)
    wide = rng.random()
    if wide < .015:        # a level of a deep tree
        nodes, other, n = rng.sample(range(0, 900), rng.randint(20, 300)), rng.sample(range(900, 1000), 2), rng.randint(2, 300)
        enc, npts = False, [rng.randint(0, 3) for _ in range(w)]
    elif wide < .03:       # fine bins
        npts, enc, n = [rng.randint(100, 400) for _ in range(w)], False, rng.randint(2, 300)
    elif wide < .05:       # many rows
        n, enc = rng.choice([rng.randint(200, 800), rng.randint(800, 2500)]), False
    elif wide < .06:       # many columns
        w, enc = rng.randint(20, 150), False
        npts = [rng.randint(0, 3) for _ in range(w)]
        n = min(n, 60)
    density = rng.choice([0, .3, .7, 1])
    rows = []
    for _ in range(n):
        st = rng.random()
        node = (1, rng.choice(nodes)) if st < .75 else (0, rng.choice(nodes + other)) if st < .9 else (1, rng.choice(other))
        rows.append(dict(bins=[[c, rng.randint(0, npts[c])] for c in rng.sample(range(w), w) if rng.random() < density], node=node,
                         g=rng.choice([rng.gauss(0, 1), 0.0, rng.uniform(-1, 1) * 1e5, 1.0, -1.0]), h=rng.choice([rng.random(), 1.0, 0.0]),
                         has=rng.random() < .95))
    return dict(rows=rows, npts=npts, nodes=nodes, sparse=[rng.randint(0, k) for k in npts], enc=enc,
                valid=None if rng.random() < .15 else [rng.random() < .75 for _ in range(w)],
                split=rng.random(), seed=rng.getrandbits(30), names=rng.choice(["int", "str"]))


def run_case(cfg, mon):
    import random
    import numpy as np
    from vrt import boot
    from computing.d_table import DTable
    from ml.feature.instance import Instance
    from ml.feature.sparse_vector import SparseVector
    from ml.tree.feateur_histogram import FeatureHistogram as FH
    check = mon.check
    r = random.Random(cfg["seed"])
    w = len(cfg["npts"])
    key = (lambda j: j) if cfg["names"] == "int" else (lambda j: "row%d" % j)
    if cfg["enc"] and "k" not in _key:
        from ml.secureprotol.encrypt import PaillierEncrypt
        _key["k"] = PaillierEncrypt()
        _key["k"].generate_key(512)
        boot.reseed(cfg["_seed"])
    e = _key["k"].encrypt if cfg["enc"] else (lambda v: v)
    d = (lambda v: _key["k"].decrypt(v) if not isinstance(v, (int, float)) else v) if cfg["enc"] else (lambda v: v)
    points = [np.array([float(k) for k in range(m)]) for m in cfg["npts"]]
    bsp = np.empty(w, dtype=object)
    for c in range(w):
        bsp[c] = points[c]
        if c and cfg["npts"][c] == cfg["npts"][c - 1] and cfg["split"] < .5:      # columns alike may well share one array
            bsp[c] = bsp[c - 1]
    node_map = {nid: k for k, nid in enumerate(cfg["nodes"])}

    def tables(rows):
        items = [(key(j), (Instance(features=SparseVector([c for c, _ in x["bins"]], [b for _, b in x["bins"]], w)), tuple(x["node"])))
                 for j, x in rows]
        gh = [(key(j), (e(x["g"]), e(x["h"]))) for j, x in rows if x["has"]]
        r.shuffle(gh)
        return DTable(True, items), DTable(True, gh)

    def calc(rows):
        a, b = tables(rows)
        return FH.calculate_histogram(a, b, bsp, dict(enumerate(cfg["sparse"])) if r.random() < .8 else list(cfg["sparse"]),
                                      None if cfg["valid"] is None else list(cfg["valid"]), dict(node_map))

    def oracle(rows):
        out = [[[[0.0, 0.0, 0, 0.0, 0.0] for _ in range(m + 1)] for m in cfg["npts"]] for _ in cfg["nodes"]]
        for _, x in rows:
            if not x["has"] or x["node"][0] == 0 or x["node"][1] not in node_map:
                if x["node"][0] == 0:
                    mon.count("finished_rows")
                continue
            bins = dict(x["bins"])
            for c in range(w):
                if c not in bins:
                    mon.count("implied_rows")
                cell = out[node_map[x["node"][1]]][c][bins.get(c, cfg["sparse"][c])]
                cell[0] += x["g"]
                cell[1] += x["h"]
                cell[2] += 1
        return out
    scale = 1 + sum(abs(x["g"]) + abs(x["h"]) for x in cfg["rows"])

    def judge(hist, want, what, cum=False):
        check(len(hist) == len(cfg["nodes"]), "nodes", "%s: %d nodes instead of %d", what, len(hist), len(cfg["nodes"]))
        for k, nid in enumerate(cfg["nodes"]):
            check(len(hist[k]) == w, "features", "%s: %d features instead of %d", what, len(hist[k]), w)
            for c in range(w):
                if cfg["valid"] is not None and not cfg["valid"][c]:
                    mon.count("deselected")
                    check(len(hist[k][c]) == 0, "deselected", "%s: feature %d is not selected but has a histogram", what, c)
                    continue
                check(len(hist[k][c]) == cfg["npts"][c] + 1, "bins", "%s: feature %d has %d bins, not %d", what, c, len(hist[k][c]), cfg["npts"][c] + 1)
                acc = [0.0, 0.0, 0]
                for b in range(cfg["npts"][c] + 1):
                    w3 = want[k][c][b][:3]
                    acc = [p + q for p, q in zip(acc, w3)]
                    exp = acc if cum else w3
                    got = hist[k][c][b]
                    mon.count("encrypted_cells" if cfg["enc"] else "cells")
                    gv = [d(got[0]), d(got[1]), got[2]]
                    check(gv[2] == exp[2], "count", "%s: node %r feature %d bin %d counts %r rows, not %r", what, nid, c, b, gv[2], exp[2])
                    check(math.isclose(gv[0], exp[0], abs_tol=1e-9 * scale) and math.isclose(gv[1], exp[1], abs_tol=1e-9 * scale),
                          "sum", "%s: node %r feature %d bin %d sums %r, not %r", what, nid, c, b, gv[:2], exp[:2])
    rows = list(enumerate(cfg["rows"]))
    want = oracle(rows)
    hist = calc(rows)
    judge(hist, want, "histogram")
    acc = FH.accumulate_histogram(hist)
    judge(acc, want, "cumulative histogram", cum=True)
    if len(rows) > 1 and not (cfg["enc"] and len(rows) > 8):
        cut = max(1, int(cfg["split"] * len(rows)))
        a, b = calc(rows[:cut]), calc(rows[cut:])
        judge(FH.aggregate_histogram(a, b), want, "sum of two partial histograms")
        mon.count("merged")
    mon.state(len(rows), cfg["npts"], cfg["valid"], len(cfg["nodes"]), cfg["enc"])
    mon.sample = dict(rows=len(rows), split_points=cfg["npts"], nodes=cfg["nodes"], selected=cfg["valid"], encrypted=cfg["enc"])
