"""C03: prediction agrees with the trained model, row by row."""
import math

from vrt import fed, gen, oracle, session

RULE = fed.TREE_RULE + (
    "Several prediction calls follow training in the same session (training rows, unseen rows, reordered and subset "
    "rows, boundary values). Every output row is compared with a plain traversal of the trees on the raw rows of all "
    "parties. Distinct by (leaf path, output).")
ASSUMPTIONS = ["tolerance 1e-12 relative to the sizes of the parts of a score; labels are compared unless the score is that close to the threshold "
               "or two class scores tie"]
QUICK_S = 36
NEED = {"sessions": 12, "rows": 150, "train_rows": 40, "host_hops": 30, "ties": 4}


def case(rng, i, tier):
    # (the derivative finding on Tweedie, C15, does not matter here: the trees are taken as they are)
    cfg = gen.session(rng, task="reg_pos", objective="tweedie") if rng.random() < .06 else gen.session(rng)
    cfg["predict_train"] = True
    if cfg["task"] == "regression" and cfg["objective"] in ("lse", "lae") and rng.random() < .15:      # models of large numbers
        e = 10.0 ** rng.randint(2, 7)
        cfg["y"] = [v * e for v in cfg["y"]]
    elif cfg["task"] == "classification" and len(set(cfg["y"])) == 2 and len(cfg["y"]) > 3 and rng.random() < .12:      # scores that sit on the threshold
        a, b = sorted(set(cfg["y"]), key=str)
        m = len(cfg["y"]) // 2
        cfg["y"] = [a, b] * m + ([a] if len(cfg["y"]) % 2 else [])
        if len(cfg["y"]) % 2:      # the odd row out has a place of its own
            cfg["guest"][-1] = [99.0] * len(cfg["guest"][0])
        for t in [cfg["guest"]] + cfg["hosts"]:
            for j in range(0, 2 * m, 2):
                t[j + 1] = list(t[j])
        cfg.update(threshold=.5)
    elif i * .6180339887 % 1 < .1:      # the guest's columns say nothing: hosts own every split
        for t in [cfg["guest"]] + [p["guest"] for p in cfg["preds"]]:
            for row in t:
                row[:] = [0.0] * len(row)
        cfg["tree"].update(max_depth=rng.choice([2, 2, 3]), min_sample_split=2, min_leaf_node=1)
    if (i + 5) * .6180339887 % 1 < .06 and len(cfg["y"]) <= 60:      # more trees than there usually are
        cfg.update(num_trees=rng.randint(5, 9), stop=False)
        if len(set(cfg["y"])) > 2 and cfg["task"] == "classification":
            cfg["num_trees"] = rng.randint(4, 5)
        gen.tame(cfg)
    if rng.random() < .1:      # scores that hardly differ still differ
        cfg["lr"] = rng.choice([1e-2, 1e-3, 1e-4, 1e-5])
    # the same rows again, reordered and thinned out: a row's prediction may not depend on the company it is in
    p = cfg["preds"][-1]
    m = len(p["guest"])
    pick = rng.sample(range(m), rng.randint(1, m))
    cfg["preds"].append(dict(guest=[p["guest"][j] for j in pick], hosts=[[h[j] for j in pick] for h in p["hosts"]],
                             keys=None if rng.random() < .3 else ["r%03d" % j for j in pick], of=[len(cfg["preds"]) - 1, pick]))
    j = rng.choice(pick)        # and on its own
    cfg["preds"].append(dict(guest=[p["guest"][j]], hosts=[[h[j]] for h in p["hosts"]], keys=["r%03d" % j], of=[len(cfg["preds"]) - 2, [j]]))
    if rng.random() < .6:      # rows sitting exactly on training values, which are the candidate thresholds
        n = len(cfg["guest"])
        rows = [rng.randrange(n) for _ in range(rng.randint(1, 10))]
        g = [[cfg["guest"][rng.choice(rows)][f] for f in range(len(cfg["guest"][0]))] for _ in rows]
        hs = [[[h[rng.choice(rows)][f] for f in range(len(h[0]))] for _ in rows] for h in cfg["hosts"]]
        cfg["preds"].append(dict(guest=g, hosts=hs, keys=gen.keys(rng, len(rows))))
    return cfg


def close(a, b, unit=1.0):
    return abs(a - b) <= 1e-12 * unit


def snapshot(t):
    out = []
    for k, v in sorted(t.collect(), key=lambda kv: str(kv[0])):
        f = v.features
        fs = sorted(f.get_all_data()) if hasattr(f, "get_all_data") else [float(x) for x in f]
        out.append((k, [list(map(float, x)) if isinstance(x, tuple) else x for x in fs], v.label))
    return out


def check_rows(mon, rp, rows, keys, labels, got, where):
    """got: [(key, [label, class, score, detail])]"""
    cfg, g, L = rp.cfg, rp.guest, rp.L
    m = len(rows["guest"])
    keys = keys if keys is not None else list(range(m))
    gk = [k for k, _ in got]
    oracle.need(len(gk) == len(set(map(repr, gk))), "row-twice", "%s: a row was predicted twice: %r", where, gk)
    oracle.need(set(gk) == set(keys), "row-set", "%s: predictions for %r, asked for %r", where, gk, keys)
    res = dict(got)
    T = rp.ntrees()
    F = [list(map(float, g.init_score)) for _ in range(m)]
    unit = [[max(abs(float(v)) for v in g.init_score)] * L.dim for _ in range(m)]      # the size of what was added up
    if L.dim == 1 and cfg["task"] != "regression" or L.dim > 1:
        unit = [[1.0] * L.dim for _ in range(m)]
    for t in range(T):
        nodes = oracle.read_tree(g.trees_[t])
        thr = rp.thresholds(t)
        leaf, members = rp.route(nodes, thr, rows, m)
        for i in range(m):
            F[i][t % L.dim] += cfg["lr"] * nodes[leaf[i]].weight
            unit[i][t % L.dim] += abs(cfg["lr"] * nodes[leaf[i]].weight)
        mon.count("host_hops", sum(len(v) for nid, v in members.items() if not nodes[nid].is_leaf
                                   and nodes[nid].sitename != "guest"))
        mon.state(t, tuple(leaf))
    for i, k in enumerate(keys):
        mon.count("rows")
        r = res[k]
        oracle.need(len(r) == 4, "row-shape", "%s row %r: %r", where, k, r)
        oracle.need(r[0] == labels[i], "row-label", "%s row %r: label %r, it was %r", where, k, r[0], labels[i])
        if cfg["task"] == "regression":
            v, un = F[i][0], unit[i][0]
            oracle.need(close(r[1], v, un) and close(r[2], v, un) and set(r[3]) == {"label"} and close(r[3]["label"], v, un),
                        "prediction", "%s row %r: %r, the model gives %.12g", where, k, r, v)
        elif L.binary:
            p, un = oracle.sigmoid(F[i][0]), 1 + unit[i][0]
            oracle.need(close(r[2], p, un) and set(r[3]) == {"0", "1"} and close(r[3]["1"], p, un)
                        and close(r[3]["0"], 1 - p, un), "prediction", "%s row %r: %r, the model gives p=%.12g", where, k, r, p)
            # a score of exactly 1/2 needs no rounding
            if abs(p - cfg["threshold"]) > 1e-9 or F[i][0] == 0 and cfg["threshold"] == .5:
                mon.count("ties", p == cfg["threshold"])
                want = rp.classes[1 if p > cfg["threshold"] else 0]
                oracle.need(r[1] == want, "class", "%s row %r: class %r with p=%.9g and threshold %r, expected %r",
                            where, k, r[1], p, cfg["threshold"], want)
        else:
            p, un = oracle.softmax(F[i]), 1 + max(unit[i])
            oracle.need(set(r[3]) == set(map(str, rp.classes)), "prediction", "%s row %r: classes %r", where, k, r[3])
            for j, c in enumerate(rp.classes):
                oracle.need(close(r[3][str(c)], p[j], un), "prediction", "%s row %r: class %r has %.12g, the model gives "
                            "%.12g", where, k, c, r[3][str(c)], p[j])
            oracle.need(abs(math.fsum(r[3].values()) - 1) < 1e-9, "probabilities", "%s row %r: probabilities sum to %r",
                        where, k, math.fsum(r[3].values()))
            oracle.need(close(r[2], max(p), un), "prediction", "%s row %r: score %r, the largest probability is %r", where,
                        k, r[2], max(p))
            oracle.need(r[1] in rp.classes and p[rp.classes.index(r[1])] > max(p) - 1e-9, "class", "%s row %r: class %r is not among the most probable of %r",
                        where, k, r[1], p)
            top = sorted(p)
            if len(top) == 1 or top[-1] - top[-2] > 1e-9:
                want = rp.classes[p.index(max(p))]
                oracle.need(r[1] == want, "class", "%s row %r: class %r, the most probable is %r", where, k, r[1], want)
    return F, unit


def run_case(cfg, mon):
    out = fed.start(cfg, mon)

    def go():
        rp = oracle.Replay(out, cfg)
        F, unit = check_rows(mon, rp, rp.X, cfg["keys"], cfg["y"], out.train_pred, "training rows")
        mon.count("train_rows", rp.n)
        # what training accumulated for a row is what prediction gives it
        tr = dict(out.guest_F.collect())
        for i, k in enumerate(rp.keys):
            for d in range(rp.L.dim):
                oracle.need(close(float(tr[k][d]), F[i][d], unit[i][d]), "train-predict", "row %r: the model scores it %.12g, in "
                            "training it had %.12g", k, F[i][d], float(tr[k][d]))
        for j, p in enumerate(cfg["preds"]):
            rows = {"guest": [[oracle.eff(v) for v in r] for r in p["guest"]]}
            for i, h in enumerate(p["hosts"]):
                rows[rp.sites[i + 1]] = [[oracle.eff(v) for v in r] for r in h]
            check_rows(mon, rp, rows, p["keys"], [None] * len(p["guest"]), out.preds[j], "prediction %d" % j)
            if "of" in p:
                o, pick = p["of"]
                ok = cfg["preds"][o]["keys"]
                a, b = dict(out.preds[j]), dict(out.preds[o])
                for q, src in enumerate(pick):
                    x = a[p["keys"][q] if p["keys"] is not None else q]
                    y = b[ok[src] if ok is not None else src]
                    mon.count("again")
                    oracle.need(x[1] == y[1] and x[2] == y[2], "company", "the same row was predicted %r and %r in "
                                "different company", y, x)
        # the caller's training tables are as they were
        fresh = session.make_table(cfg["guest"], cfg["keys"], cfg["y"], sparse=cfg.get("sparse_in"))
        oracle.need(snapshot(out.train_tables["guest"]) == snapshot(fresh), "caller-data",
                    "training changed the guest's own table")
        for i in range(len(cfg["hosts"])):
            fresh = session.make_table(cfg["hosts"][i], cfg["keys"], sparse=cfg.get("sparse_in"))
            oracle.need(snapshot(out.train_tables["host%d" % i]) == snapshot(fresh), "caller-data",
                        "training changed host %d's own table", i)
        mon.count("tables_unchanged", 1 + len(cfg["hosts"]))
    fed.guarded(mon, go)
    mon.sample = dict(fed.summary(cfg, out), predicted=out.preds[0][:2])
