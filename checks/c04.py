"""C04: losslessness: how the columns are spread over parties does not change the model."""
from vrt import fed, gen, oracle, session
from vrt.core import Skip

RULE = fed.TREE_RULE + (
    "The same columns are distributed over the parties in two random ways (other schedules, encryption modes, batch "
    "sizes, row orders, number of hosts) and also given to the repository's single-machine trainer (xgboost/); the "
    "three must give every row the same training score, loss history and prediction. Non-trivial: at least one split; "
    "runs whose best split is tied are left out, decided by exhaustive search. Distinct by score vector.")
ASSUMPTIONS = ["runs with two row-splitting candidates within 3e-6 of the best gain are skipped: the library documents "
               "that such ties depend on the party"]
QUICK_S = 36
NEED = {"classes_compared": 50, "compared": 6, "compared_local": 6, "rows": 100}


def case(rng, i, tier):
    many = rng.choice([4, 5, 6]) if rng.random() < .08 else None
    n = rng.randint(14, 24) if many else rng.randint(18, 45) if tier == "quick" or rng.random() < .7 else rng.randint(45, 110)
    ncol = rng.randint(3, 7)
    styles = ["gauss", "gauss", "linear", "skew", "neg", "big", "sparse", "int"]
    cols = [gen.column(rng, n, rng.choice(styles)) for _ in range(ncol)]
    smooth = not many and rng.random() < .3
    if smooth:          # columns that agree but for neighbouring rows exchanged, labels that grow along them
        cols[0] = gen.column(rng, n, "linear")
        for j in range(1, ncol):
            if rng.random() < .6:
                cols[j] = gen.cousin(rng, cols[0])
    m = rng.randint(2, 10)
    pcols = []
    for c in cols:
        pcols.append([rng.choice(c) + rng.choice([0, 0, rng.gauss(0, .3)]) for _ in range(m)])

    def parties():
        k = rng.randint(2, min(4, ncol))
        idx = list(range(ncol))
        rng.shuffle(idx)
        cuts = sorted(rng.sample(range(1, ncol), k - 1))
        return [idx[a:b] for a, b in zip([0] + cuts, cuts + [ncol])]

    base = gen.session(rng, n=12, hosts=1, task="reg" if smooth else "multi%d" % many if many else rng.choice(["bin", "bin", "multi3", "reg"]))
    kind = "reg" if base["task"] == "regression" else "multi%d" % many if many else "bin" if len(set(base["y"])) == 2 else "multi3"
    rows = [[c[j] for c in cols] for j in range(n)]
    y = gen.labels(rng, kind, [rows], n)
    if smooth:
        y = [v * rng.choice([1, 1, 1.3]) + .01 * rng.random() for v in cols[0]]
        base["bin_num"] = rng.choice([32, 200])
    if kind != "reg":
        names = gen.label_names(rng, 2 if kind == "bin" else many or 3)
        y = [names[v] for v in y]
    base.update(y=y, subsample=1.0, predict_train=True, keys=gen.keys(rng, n), sparse_in=False)
    base["tree"]["max_depth"] = rng.choice([2, 2, 3, 4])
    base["tree"]["min_leaf_node"] = rng.choice([1, 2, 3])
    pk = gen.keys(rng, m)
    sides = []
    for _ in range(2):
        ps = parties()
        s = dict(parties=ps, sched=gen.schedule(rng), enc_mode=rng.choice(["strict", "fast", "balance"]),
                 msn=rng.choice([1, 2, 3, 4, 5, 65536]), order=rng.random() < .5,
                 ridx=rng.sample(range(9), len(ps) - 1), seed=rng.getrandbits(40))
        sides.append(s)
    return dict(base=base, cols=cols, pcols=pcols, pkeys=pk, sides=sides)


def side_cfg(case, s):
    import copy
    cfg = copy.deepcopy(case["base"])
    n, m = len(case["cols"][0]), len(case["pcols"][0])
    tab = lambda cols, p, k: [[cols[c][j] for c in p] for j in range(k)]
    cfg["guest"] = tab(case["cols"], s["parties"][0], n)
    cfg["hosts"] = [tab(case["cols"], p, n) for p in s["parties"][1:]]
    cfg["preds"] = [dict(guest=tab(case["pcols"], s["parties"][0], m),
                         hosts=[tab(case["pcols"], p, m) for p in s["parties"][1:]], keys=case["pkeys"])]
    cfg.update(sched=s["sched"], enc_mode=s["enc_mode"], order=s["order"], ridx=s["ridx"], seed=s["seed"])
    cfg["tree"]["max_split_nodes"] = s["msn"]
    return cfg


def ambiguity(out, cfg):
    """(rows could differ, unseen rows could differ, number of splits) by exhaustive search."""
    rp = oracle.Replay(out, cfg)
    tie = [False, False, 0]
    mi = cfg["tree"]["min_impurity_split"]

    def on_tree(t, k, nodes, depth, thr, leaf, members, g, w):
        for nid, nd in nodes.items():
            if depth[nid] >= cfg["tree"]["max_depth"]:
                continue
            cand, scale = rp.candidates(t, members[nid], g)
            margin = 3e-6 + 1e-7 * scale
            allc = sorted(((c, s) for s, l in cand.items() for c in l), key=lambda x: -x[0][0])
            if not allc:
                continue
            top = allc[0][0][0]
            if abs(top - mi) < 2 * margin:
                tie[0] = True
            if top <= mi:
                continue
            tie[2] += 1
            near = [(c, s) for c, s in allc if c[0] >= top - margin]
            sets, colset = set(), set()
            for c, s in near:
                left = frozenset(i for i in members[nid] if rp.X[s][i][c[1]] <= c[3])
                sets.add(frozenset([left, frozenset(members[nid]) - left]))
                colset.add((s, c[1]))
            if len(sets) > 1:
                tie[0] = True
            if len(colset) > 1:
                tie[1] = True
    rp.walk(on_tree)
    return tie


def same(a, b):
    return abs(a - b) <= 1e-6 * (1 + abs(a))


def compare(mon, what, a, b, keys, threshold):
    import numbers
    for k in keys:
        mon.count("rows")
        x, y = a[k], b[k]
        for v in [x[2], y[2]] + list(x[3].values()) + list(y[3].values()):
            oracle.need(isinstance(v, numbers.Real), what + "-form", "row %r: %r or %r holds a score that is no number", k, x, y)
        ps = sorted(x[3].values())
        near = abs(x[3]["1"] - threshold) < 1e-5 if set(x[3]) == {"0", "1"} and threshold is not None else len(ps) > 1 and ps[-1] - ps[-2] < 1e-5
        oracle.need(len(x) == len(y) == 4 and x[0] == y[0], what, "row %r: %r here, %r there", k, x, y)
        if len(ps) == 1 and "label" in x[3]:
            for v in (x, y):
                oracle.need(isinstance(v[1], numbers.Real) and v[1] == v[2], what + "-form", "row %r: %r", k, v)
        if len(ps) > 1 and (not near or x[3] == y[3]):
            mon.count("classes_compared")
            oracle.need(x[1] == y[1] and type(x[1]) is type(y[1]), what + "-class", "row %r is of class %r here, %r there", k, x[1], y[1])
        oracle.need(set(x[3]) == set(y[3]) and same(x[2], y[2]) and all(same(x[3][c], y[3][c]) for c in x[3]), what,
                    "row %r: %r here, %r there", k, x, y)


def run_case(case, mon):
    c0, c1 = (side_cfg(case, s) for s in case["sides"])
    o0 = fed.start(c0, mon)

    def go():
        amb = ambiguity(o0, c0)
        if amb[0] or not amb[2]:
            raise Skip("tied splits" if amb[0] else "no split")
        o1 = fed.start(c1, mon)
        mon.count("compared")
        mon.count("splits", amb[2])
        keys = c0["keys"] if c0["keys"] is not None else list(range(len(c0["guest"])))
        pkeys = case["pkeys"] if case["pkeys"] is not None else list(range(len(case["pcols"][0])))
        thr = c0["threshold"] if c0["task"] == "classification" and len(set(c0["y"])) == 2 else None
        loc = local(case, c0)
        mon.count("compared_local")
        for name, other in (("federated", result(o1)), ("local", loc)):
            a = result(o0)
            oracle.need(len(a["loss"]) == len(other["loss"]) and all(same(x, y) for x, y in zip(a["loss"], other["loss"])),
                        "lossless-" + name, "loss history %r here, %r there", a["loss"], other["loss"])
            for k in keys:
                oracle.need(all(same(x, y) for x, y in zip(a["F"][k], other["F"][k])), "lossless-" + name,
                            "training score of row %r: %r here, %r there", k, a["F"][k], other["F"][k])
            compare(mon, "lossless-" + name, a["train"], other["train"], keys, thr)
            if not amb[1]:
                mon.count("compared_unseen")
                compare(mon, "lossless-" + name, a["pred"], other["pred"], pkeys, thr)
        mon.state(sorted((str(k), [round(float(v), 9) for v in f]) for k, f in result(o0)["F"].items()))
        mon.sample = dict(fed.summary(c0, o0), parties=[s["parties"] for s in case["sides"]], loss=list(o0.guest.history_loss))
    fed.guarded(mon, go)


def result(o):
    return {"F": {k: [float(x) for x in v] for k, v in o.guest_F.collect()}, "loss": list(o.guest.history_loss),
            "train": dict(o.train_pred), "pred": dict(o.preds[0])}


def local(case, cfg):
    from xgboost.hetero_secureboosting_tree_guest import HeteroSecureBoostingTreeGuest
    n, m = len(case["cols"][0]), len(case["pcols"][0])
    rows = [[c[j] for c in case["cols"]] for j in range(n)]
    prows = [[c[j] for c in case["pcols"]] for j in range(m)]
    g = HeteroSecureBoostingTreeGuest()
    g.model_param = session.build_param(cfg)
    g._init_model(g.model_param)
    g.fit(session.make_table(rows, cfg["keys"], cfg["y"]))
    F = {k: [float(x) for x in v] for k, v in g.F.collect()}
    loss = list(g.history_loss)
    tr = dict(session.collect(g.predict(session.make_table(rows, cfg["keys"], cfg["y"]))))
    pr = dict(session.collect(g.predict(session.make_table(prows, case["pkeys"], [None] * m))))
    return {"F": F, "loss": loss, "train": tr, "pred": pr}
