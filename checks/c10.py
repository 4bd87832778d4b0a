"""C10: binning puts every value where the split points say, and changes nothing else."""
import copy

RULE = ("A case is a table (dense arrays or sparse vectors, random keys and row order, values on, just below and just above "
        "split points, columns of any shape), a bin number, optional column selections and optional foreign split points; "
        "every cell of the converted table is compared with a counting oracle and the input with a snapshot. Distinct by "
        "(representation, split points, bins used).")
ASSUMPTIONS = ["a sparse vector holds values that are not zero by the library's 1e-6 rule, or plain zeros",
               "fit precedes convert, as in training"]
NEED = {"cells": 3000, "sparse_tables": 20, "dense_tables": 20, "on_point": 100, "unselected_cells": 100, "refused": 100, "stored_zeros": 30}


def case(rng, i, tier):
    from vrt import gen
    n = rng.choice([1, 2, rng.randint(3, 30), rng.randint(3, 120)])
    w = rng.randint(1, 5)
    fine = rng.random() < .06
    if fine:        # more bins than a byte counts
        n, w = rng.randint(300, 700), rng.randint(1, 2)
    rows = gen.table(rng, n, w, rng.choice(["gauss", "linear", "big"]) if fine else None)
    m = rng.choice([0, rng.randint(1, 25)])
    other = gen.table(rng, m, w) if m else []
    for r in other:          # values sitting on and around the training values
        for c in range(w):
            if rng.random() < .7:
                r[c] = rng.choice(rows)[c] + rng.choice([0, 0, 0, 1e-4, -1e-4, 1e-9])
    sparse = rng.random() < .45
    if sparse:
        rows, other = ([[x if abs(x) > 2e-6 else 0.0 for x in r] for r in t] for t in (rows, other))
        rows, other = list(rows), list(other)
    sel = sorted(rng.sample(range(w), rng.randint(1, w)))
    given = None
    if rng.random() < .25:
        given = [sorted(set(rng.choice(rows)[c] if rng.random() < .6 else rng.gauss(0, 2) for _ in range(rng.randint(0, 6) if not fine else rng.choice([255, 256, 257, 400]))))
                 for c in range(w)]
    cols = -1 if rng.random() < .6 else sorted(rng.sample(range(w), rng.randint(1, w)))
    if rng.random() < .5:      # a selection need not follow the table's order
        rng.shuffle(sel)
        if cols != -1:
            rng.shuffle(cols)
    return dict(rows=rows, other=other, sparse=sparse, keys=gen.keys(rng, n), bins=rng.choice([1, 2, 3, 5, 10, 32]) if not fine else rng.choice([200, 256, 300, 600]),
                cols=cols, transform=rng.choice(["all", "all", "none", "some"]), sel=sel, given=given,
                order=rng.choice([None, rng.getrandbits(20)]), names=rng.random() < .4, stored=rng.random() if sparse and rng.random() < .4 else 0)


def store_zeros(t, w, p):
    """A sparse vector may hold zeros: some writers keep every cell."""
    import random
    from ml.feature.sparse_vector import SparseVector
    r = random.Random(p)
    for _, inst in t.collect():
        d = dict(inst.features.get_all_data())
        for c in range(w):
            if c not in d and r.random() < p:
                d[c] = r.choice([0.0, 0, -0.0])
        idx = list(d)
        r.shuffle(idx)
        inst.features = SparseVector(idx, [d[c] for c in idx], w)


def cells(t, w):
    import numpy as np
    out = []
    for k, inst in t.collect():
        f = inst.features
        if hasattr(f, "get_all_data"):
            d = dict(f.get_all_data())
            out.append((k, inst.label, inst.inst_id, inst.weight, f.get_shape(), sorted((c, float(v)) for c, v in d.items())))
        else:
            out.append((k, inst.label, inst.inst_id, inst.weight, None, [float(v) for v in np.asarray(f)]))
    return out


def run_case(cfg, mon):
    from vrt import session
    from ml.feature.binning.quantile_binning import QuantileBinning
    from ml.param.feature_binning_param import FeatureBinningParam
    check = mon.check
    w = len(cfg["rows"][0])
    header = ["c%02d" % (97 * (j + 3) % 89) for j in range(w)] if cfg["names"] else ["x%d" % j for j in range(w)]
    n = len(cfg["rows"])
    train = session.make_table(cfg["rows"], cfg["keys"], ["lab%d" % j for j in range(n)], header, cfg["order"], cfg["sparse"])
    if cfg["stored"]:
        store_zeros(train, w, cfg["stored"])
    b = QuantileBinning(FeatureBinningParam(bin_num=cfg["bins"], cols=copy.copy(cfg["cols"])))
    snap = cells(train, w)
    fitted = b.fit_split_points(train)
    fcols = list(range(w)) if cfg["cols"] == -1 else cfg["cols"]
    tables = [("train", train, cfg["rows"], cfg["keys"])]
    if cfg["other"]:
        tables.append(("other", session.make_table(cfg["other"], None, None, header, None, cfg["sparse"]), cfg["other"], None))
    tcols = fcols
    arg = {"all": -1, "none": None}.get(cfg["transform"])
    if cfg["transform"] == "some":
        tcols = [c for c in cfg["sel"] if c in fcols]
        arg = list(tcols)
    given = None
    if cfg["given"] is not None:
        given = {header[c]: cfg["given"][c] for c in range(w)}
    for what, t, rows, keys in tables:
        if cfg["stored"] and what == "other":
            store_zeros(t, w, cfg["stored"])
        before = cells(t, w)
        conv, arr, sparse_bin = b.convert_feature_to_bin(t, arg, given)
        check(cells(t, w) == before, "input-changed", "binning changed the table it was given")
        if arg is None:
            check(cells(conv, w) == before and arr is None and sparse_bin is None, "transform-none", "transforming no column did something")
            continue
        sp = given or fitted
        mon.count("sparse_tables" if cfg["sparse"] else "dense_tables")
        got = cells(conv, w)
        check([g[:5] for g in got] == [x[:5] for x in before], "rows", "keys, order, labels, ids, weights or shape changed: %r", got[:2])
        check(conv.schema.get("header") == header, "header", "the header became %r", conv.schema.get("header"))
        for (key, _, _, _, _, feats), (_, _, _, _, _, raw) in zip(got, before):
            if cfg["sparse"]:
                feats, raw = dict(feats), dict(raw)
                check(set(feats) == set(raw), "cells", "row %r: stored cells %r became %r", key, sorted(raw), sorted(feats))
            else:
                feats, raw = dict(enumerate(feats)), dict(enumerate(raw))
            for c, v in raw.items():
                if c in tcols:
                    pts = [float(p) for p in sp[header[c]]]
                    want = sum(p < v for p in pts)     # the first split point that is not below the value
                    mon.count("cells")
                    mon.count("stored_zeros", cfg["sparse"] and v == 0)
                    if v in pts:
                        mon.count("on_point")
                    check(feats[c] == want, "bin", "value %r between split points %r is put in bin %r, not %r", v, pts, feats[c], want)
                else:
                    mon.count("unselected_cells")
                    check(feats[c] == v, "unselected", "column %d was not selected, %r became %r", c, v, feats[c])
        check(sorted(sparse_bin) == sorted(tcols), "sparse-bin", "zero bins of columns %r instead of %r", sorted(sparse_bin), tcols)
        for c in tcols:
            want = sum(float(p) < 0 for p in sp[header[c]])
            check(sparse_bin[c] == want, "sparse-bin", "column %d: zero is said to lie in bin %r, not %r", c, sparse_bin[c], want)
        if given is None:
            names = [h for h in header if h in fitted]
            check(len(arr) == len(names), "points", "%d arrays of split points for %d columns", len(arr), len(names))
            for h, a in zip(names, arr):
                check([float(x) for x in a] == [float(x) for x in fitted[h]], "points", "split points of %s: %r, fitted were %r", h, list(a), fitted[h])
        mon.state(cfg["sparse"], what, sorted(tcols), [[float(p) for p in sp[header[c]]][:4] for c in tcols])
    check(cells(train, w) == snap, "input-changed", "fitting changed the table")
    # columns that do not exist or were not fitted are refused, not guessed
    for bad in ([w], [0, w + 3], ["a"], [0, None], [-1], [0, -w], ["-1"]):
        try:
            QuantileBinning(FeatureBinningParam(bin_num=cfg["bins"], cols=list(bad))).fit_split_points(train)
        except (ValueError, TypeError):
            mon.count("refused")
        else:
            mon.fail("refuse", "column selection %r of a table of %d columns is accepted", bad, w)
    for c in [c for c in range(w + 1) if c not in fcols][:2]:
        try:
            b.convert_feature_to_bin(train, [fcols[0], c] if c % 2 else [c])
        except (RuntimeError, ValueError):
            mon.count("refused")
        else:
            mon.fail("refuse", "column %d was not fitted, yet transforming it is accepted", c)
    check(cells(train, w) == snap, "input-changed", "a refused conversion changed the table")
    # a selection may spell its indices as text
    t2 = QuantileBinning(FeatureBinningParam(bin_num=cfg["bins"], cols=[str(c) for c in fcols])).fit_split_points(train)
    check(sorted(t2) == sorted(fitted) and all(list(t2[h]) == list(fitted[h]) for h in t2), "points", "columns %r spelled as text are fitted differently", fcols)
    mon.sample = dict(rows=n, columns=w, sparse=cfg["sparse"], transformed=tcols, bins=cfg["bins"])
