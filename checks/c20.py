"""C20: features are sampled per tree as configured, and importances report the splits that were made."""
import collections
import math

from vrt import fed, gen, oracle

RULE = fed.TREE_RULE + (
    "For each party and tree the features admitted to the split search are observed: their number, that all splits stay inside, and over "
    "many repeated draws on the trained party that every feature and different sets occur. The importances are compared with the "
    "splits in the trees, or with the sum of their gains recomputed from the raw data. Distinct by (party, sample, splits).")
ASSUMPTIONS = ["300 repeated draws miss a feature or repeat one set with probability below 1e-9 if sampling is uniform"]
QUICK_S = 36
NEED = {"sessions": 10, "samples": 60, "splits": 30, "draws": 3000, "importances_split": 3, "importances_gain": 3, "local": 5, "series": 3}


def case(rng, i, tier):
    over = dict(preds=[], predict_train=False, subsample=rng.choice([0.0, .1, .3, .5, .67, .8, .99, 1.0, 1]))
    cfg = gen.session(rng, **over)
    if rng.random() < .6:      # enough features for sampling to matter
        n = len(cfg["guest"])
        w = rng.randint(3, 7)
        cfg["guest"] = gen.table(rng, n, w)
        cfg["hosts"] = [gen.table(rng, n, rng.randint(2, 6)) for _ in cfg["hosts"]]
        kind = "reg" if cfg["task"] == "regression" else None
        if kind:
            cfg["y"] = gen.labels(rng, "reg", [cfg["guest"]] + cfg["hosts"], n)
    if i % 6 == 1:             # several trees per round: each must draw anew
        n = rng.randint(16, 30)
        g, hs = gen.table(rng, n, rng.randint(5, 9)), [gen.table(rng, n, rng.randint(5, 9)) for _ in range(rng.randint(1, 2))]
        cfg.update(guest=g, hosts=hs, keys=None, y=gen.labels(rng, "multi5", [g] + hs, n), task="classification", objective="cross_entropy", oparams=None, enc_mode="strict",
                   num_trees=rng.randint(4, 6), stop=False, subsample=rng.choice([.3, .4, .5]), ridx=list(range(len(hs))))
        cfg["tree"]["max_depth"] = 1
    if i % 3 == 0:             # many small trees: each must draw anew
        cfg.update(num_trees=10, stop=False, subsample=rng.choice([.3, .5, .7]))
        cfg["tree"]["max_depth"] = 1
    if cfg["task"] == "regression" and cfg["objective"] in ("lse", "lae") and rng.random() < .25:      # gains beyond all usual sizes
        e = 10.0 ** rng.choice([3, 5, 6])
        cfg["y"] = [v * e for v in cfg["y"]]
    if rng.random() < .3:      # host numbers of two digits and more
        cfg["ridx"] = rng.sample(range(8, 1300), len(cfg["hosts"]))
    if rng.random() < .3:      # a rate that falls just short of a whole number of features, or just exceeds it
        w = len(rng.choice([cfg["guest"]] * len(cfg["hosts"]) + cfg["hosts"])[0])
        k = rng.randint(min(2, w), w)
        cfg["subsample"] = min(1.0, (k + rng.choice([-1, -1, 1]) * 10.0 ** -rng.randint(3, 8)) / w)
    cfg["tree"]["feature_importance_type"] = ["split", "gain"][i % 2]
    cfg["headers"] = {p: rng.sample(["f%d" % j for j in range(40)] + ["age", "income", ""], len(t[0]))
                      for p, t in [("guest", cfg["guest"])] + [("host%d" % j, h) for j, h in enumerate(cfg["hosts"])]}
    return gen.tame(cfg)


def run_case(cfg, mon):
    out = fed.start(cfg, mon)
    fed.guarded(mon, judge, cfg, mon, out)
    mon.sample = dict(fed.summary(cfg, out), importances={repr(k): v for k, v in out.guest.feature_importances_.items()}, subsample=cfg["subsample"],
                      samples={p: v[:2] for p, v in out.valid.items()})


def judge(cfg, mon, out):
    need = oracle.need
    rp = oracle.Replay(out, cfg)
    split, gain = collections.Counter(), collections.defaultdict(list)
    rate = cfg["subsample"]
    for t in range(rp.ntrees()):
        for s in rp.sites:
            v = rp.valid(s, t)
            want = max(1, int(rate * len(v)))
            mon.count("samples")
            need(sum(v) == want, "sample-size", "tree %d: %s admits %d of %d features at rate %r, expected %d", t, s, sum(v), len(v), rate, want)
            mon.state(s, t, v)

    for s in rp.sites:
        sets = [rp.valid(s, t) for t in range(rp.ntrees())]
        if math.comb(len(sets[0]), sum(sets[0])) ** (len(sets) - 1) > 1e10:
            mon.count("series")
            need(any(v != sets[0] for v in sets), "sample-once", "%s draws %r for each of %d trees", s, sets[0], len(sets))
        # a tree repeats the sample of the one before it no more often than chance allows
        comb = math.comb(len(sets[0]), sum(sets[0]))
        for lag in range(1, 7):
            m = len(sets) - lag
            if m < 1 or comb == 1:
                continue
            same = sum(a == b for a, b in zip(sets, sets[lag:]))
            mon.count("lags")
            tail = math.fsum(math.comb(m, q) * (1 / comb) ** q * (1 - 1 / comb) ** (m - q) for q in range(same, m + 1))
            need(same == 0 or tail > 1e-11, "sample-repeat", "%s: of %d trees, %d draw what the tree %d before them drew", s, len(sets), same, lag)

    def on_tree(t, k, nodes, depth, thr, leaf, members, g, w):
        lam = rp.lam
        for nid, nd in nodes.items():
            if nd.is_leaf:
                continue
            s = nd.sitename
            mon.count("splits")
            need(s in rp.sites and 0 <= nd.fid < len(rp.X[s][0]), "split", "tree %d node %d names feature %r of %r", t, nid, nd.fid, s)
            need(rp.valid(s, t)[nd.fid], "sampled-feature", "tree %d node %d splits on feature %d of %s, which was not sampled", t, nid, nd.fid, s)
            split[(s, nd.fid)] += 1
            gh = [(math.fsum(g[i][0] for i in members[c]), math.fsum(g[i][1] for i in members[c])) for c in (nd.left_nodeid, nd.right_nodeid)]
            G, H = gh[0][0] + gh[1][0], gh[0][1] + gh[1][1]
            a, b, c = [x * x / (h + lam) for x, h in gh + [(G, H)]]
            gain[(s, nd.fid)].append((a + b - c, a + b + c))
    rp.walk(on_tree)
    kind = cfg["tree"]["feature_importance_type"]
    check_importances(out.guest.feature_importances_, kind, split, gain)
    mon.count("importances_" + kind)
    mon.state(sorted(split.items()))

    # repeated draws
    parties = [("guest", out.guest)] + [("host%d" % i, h) for i, h in enumerate(out.hosts)]
    for name, b in parties:
        if not hasattr(b, "sample_valid_features"):
            continue
        w = len(b.bin_split_points)
        want = max(1, int(rate * w))
        hits, sets = [0] * w, collections.Counter()
        for _ in range(300 if want < w else 3):
            v = [bool(x) for x in b.sample_valid_features()]
            mon.count("draws")
            need(len(v) == w and sum(v) == want, "sample-size", "%s admits %r of %d features at rate %r, expected %d", name, v, w, rate, want)
            sets[tuple(v)] += 1
            for j in range(w):
                hits[j] += v[j]
        if want < w:
            need(min(hits) > 0 and max(hits) < 300 and len(sets) > 1, "sample-spread", "%s: 300 draws of %d of %d features took feature j %r times", name, want, w, hits)
            # within 7 standard deviations of fair
            p = want / w
            dev = 7 * math.sqrt(300 * p * (1 - p)) + 1
            need(all(abs(h - 300 * p) <= dev for h in hits), "sample-spread", "%s: 300 draws of %d of %d features took feature j %r times", name, want, w, hits)
    fresh(cfg, mon)
    # names
    for name, b in parties:
        h = cfg["headers"][name]
        need(dict(b.feature_name_fid_mapping) == {c: j for j, c in enumerate(h)}, "names", "%s: features %r are mapped %r", name, h, b.feature_name_fid_mapping)

    local(cfg, mon)


def fresh(cfg, mon):
    """Models with equally many features draw their own samples."""
    import numpy as np
    from vrt import session
    from ml.tree.hetero_secureboosting_tree_guest import HeteroSecureBoostingTreeGuest
    from ml.tree.hetero_secureboosting_tree_host import HeteroSecureBoostingTreeHost
    series = []
    for cls in (HeteroSecureBoostingTreeGuest, HeteroSecureBoostingTreeHost) * 2:
        m = cls()
        if not hasattr(m, "sample_valid_features"):
            return
        p = session.build_param(cfg)
        p.subsample_feature_rate = .5
        m._init_model(p)
        m.bin_split_points = np.array([[1.0]] * 24)
        m.feature_num = None
        series.append([tuple(map(bool, m.sample_valid_features())) for _ in range(3)])
        mon.count("fresh_models")
    for a in range(len(series)):
        for b in range(a):
            for x, y in zip(series[a], series[b]):
                oracle.need(x != y, "sample-repeat", "two models with 24 features draw the same 12: %r", [j for j in range(24) if x[j]])


def check_importances(got, kind, split, gain):
    need = oracle.need
    got = {(k[0], int(k[1])): float(v) for k, v in got.items()}
    need(set(got) == set(split), "importance", "importances name %r, the trees split on %r", sorted(got), sorted(split))
    for k, v in got.items():
        if kind == "split":
            need(v == split[k], "importance", "%r is used in %d splits, its importance is %r", k, split[k], v)
        else:
            want = math.fsum(x for x, _ in gain[k])
            need(abs(v - want) <= 1e-6 * len(gain[k]) + 1e-7 * math.fsum(s for _, s in gain[k]), "importance", "%r gained %.10g in %d splits, its importance is %.10g", k, want, split[k], v)


def local(cfg, mon):
    """The single-machine trainer counts its splits too."""
    from vrt import session
    from xgboost.hetero_secureboosting_tree_guest import HeteroSecureBoostingTreeGuest
    g = HeteroSecureBoostingTreeGuest()
    g.model_param = session.build_param(cfg)
    g._init_model(g.model_param)
    rows = [list(a) + [v for h in cfg["hosts"] for v in h[i]] for i, a in enumerate(cfg["guest"])]
    g.fit(session.make_table(rows, cfg["keys"], cfg["y"]))
    split = collections.Counter()
    for t in g.trees_:
        for n in t.tree_:
            if not n.is_leaf:
                split[(n.sitename, n.fid)] += 1
    got = {(k[0], int(k[1])): float(v) for k, v in g.feature_importances_.items()}
    mon.count("local")
    oracle.need(set(got) == set(split), "importance", "local trainer: importances name %r, the trees split on %r", sorted(got), sorted(split))
    if cfg["tree"]["feature_importance_type"] == "split":
        oracle.need(got == dict(split), "importance", "local trainer: importances %r, the trees split %r", got, dict(split))
    else:
        oracle.need(all(v > 0 for v in got.values()), "importance", "local trainer: gains %r", got)
