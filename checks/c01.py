"""C01: every split is the best admissible one over all parties."""
from vrt import fed, gen, oracle

RULE = fed.TREE_RULE + (
    "An exhaustive search over every feature bin of every party, done on the raw data, judges each node of each "
    "tree. Non-trivial: a node with at least one admissible candidate or a justified leaf; distinct by (rows, "
    "parties, candidates, outcome).")
ASSUMPTIONS = ["nodes whose best and second best split differ by less than 1e-6 may go either way between parties, as "
               "the code documents with FLOAT_ZERO", "Paillier keys of 512 bits stand for all key lengths",
               "gmpy2 and numba are replaced by pure Python stand-ins"]
QUICK_S = 36
NEED = {"sessions": 12, "splits_by_guest": 5, "splits_by_hosts": 5, "leaves_justified": 5, "contested_nodes": 5, "columns": 100}


def nearly(rng):
    """Two parties offer almost equally good splits: they differ in the side of one row whose target is almost halfway."""
    n, nh = (rng.randint(16, 60), rng.randint(2, 4)) if rng.random() < .85 else (rng.randint(8, 16), rng.randint(7, 12))
    cfg = gen.session(rng, n=n, hosts=nh, task="reg", objective="lse", preds=[], predict_train=False)
    one = rng.random() < .45        # two columns of one party
    a, b = [rng.choice([-1, rng.randrange(nh)])] * 2 if one else rng.sample(range(-1, nh), 2) if rng.random() < .4 else rng.sample(range(nh), 2)
    tables = dict(enumerate(cfg["hosts"]))
    tables[-1] = cfg["guest"]
    rows = list(range(n))
    rng.shuffle(rows)
    ca, cb = (0, 0) if not one else rng.choice([(0, 1), (1, 0)])
    if one and len(tables[a][0]) < 2:
        for row in tables[a]:
            row.append(0.0)
    cut, e, size = rng.randint(n // 4, 3 * n // 4), rng.choice([-1, 1]) * 10 ** rng.uniform(-5, -1.5), rng.choice([1, 10, 100])
    if one:
        e, size = rng.choice([-1, 1]) * 10 ** rng.uniform(-7.5, -6.1), 1
    swap = rng.random() < .7      # both cut off equally many rows, all but one of them the same
    for j, i in enumerate(rows):
        cfg["y"][i] = size * (float(j > cut) if j != cut else 1 + e if swap else .5 + e)
        tables[a][i][ca] = float(j >= cut) if not swap or j < cut + 1 else float(j != cut + 1)
        tables[b][i][cb] = float(j > cut)
    cfg["subsample"], cfg["num_trees"] = 1.0, 1
    cfg["tree"].update(max_depth=rng.choice([2, 2, 3]), min_impurity_split=1e-3, min_leaf_node=1, min_sample_split=2)
    return cfg


def saturated(rng):
    """Steps so long that later trees meet rows without curvature next to misjudged ones."""
    n = rng.randint(16, 40)
    cfg = gen.session(rng, n=n, hosts=rng.randint(1, 2), task="bin", preds=[], predict_train=False, stop=False, style="gauss")
    h, thr = rng.choice(cfg["hosts"]), rng.gauss(0, .4)
    u = sorted(set(cfg["y"]), key=str)
    for i in range(n):
        cfg["y"][i] = u[int((h[i][0] > thr) != (rng.random() < .08 and h[i][0] > thr))]
    if len(set(cfg["y"])) < 2:
        cfg["y"][0] = u[0] if cfg["y"][0] == u[1] else u[1]
    cfg.update(lr=rng.choice([20., 30., 40.]), num_trees=rng.choice([2, 3]), subsample=1.0, bin_num=rng.choice([5, 8]))
    cfg["tree"].update(criterion_params=[rng.choice([1.0, 3.0])], max_depth=rng.choice([2, 3]), min_impurity_split=1e-3, min_leaf_node=1,
                       min_sample_split=2, max_split_nodes=65536)
    return cfg


def clusters(rng):
    """Targets in two far clusters: within a cluster gains are small against the sums they come from, and still decide."""
    n = rng.randint(16, 60)
    cfg = gen.session(rng, n=n, hosts=rng.randint(1, 3), task="reg", objective="lse", preds=[], predict_train=False, style=rng.choice(["gauss", "linear", None]))
    t = rng.choice([cfg["guest"]] + cfg["hosts"])
    f, e, s = rng.randrange(len(t[0])), 10 ** rng.uniform(3, 4.5), 10 ** rng.uniform(-1.7, .5)
    cut = sorted(r[f] for r in t)[rng.randint(n // 4, 3 * n // 4)]
    cfg["y"] = [v * s + (e if r[f] > cut else 0) for v, r in zip(cfg["y"], t)]
    cfg.update(subsample=1.0, num_trees=rng.choice([1, 2, 3]), lr=rng.choice([.3, 1.0]))
    cfg["tree"].update(max_depth=rng.choice([3, 4, 5]), min_impurity_split=1e-3, min_leaf_node=1, min_sample_split=2)
    if rng.random() < .8:      # regularised, such a cluster is not worth splitting
        cfg["tree"]["criterion_params"] = [0]
    return cfg


def wide(rng):
    """Hosts of many columns and bins: the column worth splitting may come after hundreds of candidates."""
    n = rng.randint(50, 80)
    cfg = gen.session(rng, n=n, hosts=rng.randint(1, 2), task=rng.choice(["bin", "reg"]), preds=[], predict_train=False)
    h = rng.choice(cfg["hosts"])
    k = rng.randint(9, 13)
    cols = [gen.column(rng, n, "gauss") for _ in range(k)]
    for j in range(n):
        h[j][:] = [c[j] for c in cols]
    f = rng.randint(k // 2, k - 1)
    order, u = sorted(range(n), key=lambda j: cols[f][j]), sorted(set(cfg["y"]), key=repr)
    cut = rng.randint(n // 5, 4 * n // 5)
    for p, j in enumerate(order):
        if rng.random() < .95:
            cfg["y"][j] = u[-1] if p > cut else u[0]
    if len(set(cfg["y"])) < 2:
        cfg["y"][order[-1]] = u[-1]
    cfg.update(bin_num=rng.choice([30, 40]), subsample=rng.choice([1.0, .9]), num_trees=1)
    cfg["tree"].update(max_depth=rng.choice([2, 3]), min_leaf_node=1, min_sample_split=2)
    return cfg


def case(rng, i, tier):
    u = i * .6180339887 % 1        # evenly spread: every kind of session occurs early
    if u < .15:
        return nearly(rng)
    if u < .21:
        return saturated(rng)
    if u < .27:
        return clusters(rng)
    if u < .30:
        return wide(rng)
    over = dict(preds=[], predict_train=False)
    if tier == "thorough" and rng.random() < .3:
        over["n"] = rng.randint(40, 160)
    fine = rng.random() < (.04 if tier == "quick" else .1)
    if fine:        # more bins than a byte counts
        over.update(n=rng.randint(150, 300), hosts=1, style=rng.choice(["gauss", "linear", "skew"]))
    cfg = gen.session(rng, **over)
    cfg["tree"]["max_depth"] = rng.choice([2, 3, 3, 4, 5])
    if fine:
        cfg["bin_num"], cfg["num_trees"], cfg["subsample"] = rng.choice([140, 200, 300]), 1, 1.0
        cfg["tree"]["max_depth"] = rng.choice([1, 2, 3])
        for h in cfg["hosts"]:        # the guest's column is the one worth splitting, anywhere along its range
            for row in h:
                del row[1:]
        rows = sorted(range(len(cfg["y"])), key=lambda i: cfg["guest"][i][0])
        cut = rng.randrange(len(rows) // 5, len(rows) - 5)
        u = sorted(set(cfg["y"]), key=repr)
        for j, i in enumerate(rows):
            if rng.random() < .97:
                cfg["y"][i] = u[-1] if j > cut else u[0]
    return cfg


def candidates(cfg, rp, mon):
    """Every i/bin_num quantile of a party's own column is a candidate, and nothing else is."""
    from checks.c09 import bound
    for s in rp.sites:
        for fid, pts in enumerate(rp.split_points[s]):
            data = sorted(row[fid] for row in rp.X[s])
            mon.count("columns")
            oracle.need(all(a < b for a, b in zip(pts, pts[1:])) and set(pts) <= set(data), "candidates",
                        "candidates of feature %d of %s are %r, its values %r", fid, s, pts, data[:40])
            spans = [bound(data, x, 0, 0)[:2] for x in pts]
            want = [bound(data, 0, k / cfg["bin_num"], 1e-3)[2:] for k in range(1, cfg["bin_num"])]
            hit = lambda a, b: a[0] <= b[1] and a[1] >= b[0]
            oracle.need(all(any(hit(a, b) for a in spans) for b in want) and all(any(hit(a, b) for b in want) for a in spans), "candidates",
                        "candidates of feature %d of %s are %r, which are not the quantiles i/%d of %r", fid, s, pts, cfg["bin_num"], data[:40])


def run_case(cfg, mon):
    out = fed.start(cfg, mon)

    def go():
        rp = oracle.Replay(out, cfg)
        candidates(cfg, rp, mon)

        def on_tree(t, k, nodes, depth, thr, leaf, members, g, w):
            mon.count("trees")
            for nid in sorted(nodes):
                mon.count("nodes")
                rp.check_node(t, nid, nodes, depth, thr, members, g, mon)
                mon.state(len(members[nid]), nodes[nid].sitename, nodes[nid].is_leaf, nodes[nid].fid,
                          round(sum(g[i][0] for i in members[nid]), 9))
        rp.walk(on_tree)
    fed.guarded(mon, go)
    mon.sample = fed.summary(cfg, out)
