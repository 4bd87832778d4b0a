"""C02: leaf weights, boosted scores and the loss history are those of the stated objective."""
import math

from vrt import fed, gen, oracle

RULE = fed.TREE_RULE + (
    "The trees are replayed on the raw data: leaf weights must be -G/(H+lambda) of the rows that reach the leaf, "
    "scores after training must be initial score plus learning rate times those weights (each row exactly once per "
    "tree), and the loss history must be the objective's mean loss after each round. Distinct by (leaf population, "
    "weight).")
ASSUMPTIONS = ["tolerance 1e-6 relative: gradient sums pass through encryption and subtraction",
               "the Tweedie objective is left to C15"]
QUICK_S = 36
NEED = {"sessions": 12, "leaves": 40, "scores": 150, "rounds": 12}


def case(rng, i, tier):
    cfg = gen.session(rng, preds=[], predict_train=False)
    u = i * .6180339887 % 1        # evenly spread: every kind of session occurs early
    if tier == "thorough" and rng.random() < .2:
        cfg = gen.session(rng, n=rng.randint(40, 120), preds=[], predict_train=False)
    elif u < .12:      # what counts is relative: a target measured in millionths is a target
        cfg = gen.session(rng, n=rng.randint(4, 20), task="reg_tiny", objective=rng.choice(["lse", "lse", "lae", "huber", "fair", "log_cosh"]),
                          preds=[], predict_train=False)
        cfg["num_trees"] = rng.choice([3, 5, 6])
        return cfg
    elif u < .19:      # and so is one measured in millions
        cfg = gen.session(rng, n=rng.randint(4, 20), task="reg", objective=rng.choice(["lse", "lse", "lae"]), preds=[], predict_train=False)
        e = 10.0 ** rng.randint(2, 7)
        cfg["y"] = [v * e for v in cfg["y"]]
        if rng.random() < .6:
            cfg["tree"].update(max_depth=rng.choice([2, 3]), min_sample_split=2, min_leaf_node=1)
        return cfg
    elif u < .25:      # steps so long that the loss goes up
        cfg = gen.session(rng, n=rng.randint(6, 16), hosts=1, task=rng.choice(["bin", "multi3", "multi3"]), preds=[], predict_train=False, stop=False)
        cfg.update(num_trees=3, lr=rng.choice([2.0, 3.0, 4.0]))
        cfg["tree"].update(max_depth=rng.choice([2, 3]), criterion_params=[rng.choice([1.0, 3.0])])
        return gen.tame(cfg)
    elif u < .29:
        cfg = gen.session(rng, n=rng.randint(3, 7), hosts=1, task=rng.choice(["bin", "reg", "reg"]), preds=[], predict_train=False, stop=False)
        cfg["num_trees"] = rng.randint(7, 14)
        cfg["tree"]["max_depth"] = 2
        return cfg
    elif u < .33:      # more rows than any sample of them
        cfg = gen.session(rng, n=rng.randint(201, 420), hosts=1, task=rng.choice(["bin", "multi3", "reg"]), preds=[], predict_train=False)
        cfg["num_trees"] = 1
        cfg["tree"]["max_depth"] = rng.choice([1, 1, 2])
        return cfg
    cfg["num_trees"] = rng.choice([1, 2, 3, 4]) if len(cfg["y"]) > 60 or rng.random() < .85 else rng.choice([5, 6])
    return gen.tame(cfg)


def close(a, b, scale=1.0):
    return abs(a - b) <= 1e-6 * (abs(b) + scale)


def run_case(cfg, mon):
    out = fed.start(cfg, mon)
    g = out.guest

    def go():
        rp = oracle.Replay(out, cfg)
        losses = []
        unit = 1.0 if cfg["task"] == "classification" else max(abs(float(v)) for v in rp.y) or 1.0

        def on_tree(t, k, nodes, depth, thr, leaf, members, gh, w):
            mon.count("trees")
            for nid, nd in nodes.items():
                if nd.is_leaf:
                    mon.count("leaves")
                    G = math.fsum(abs(gh[i][0]) for i in members[nid])
                    H = math.fsum(gh[i][1] for i in members[nid])
                    oracle.need(close(nd.weight, w[nid], G / (H + rp.lam)), "leaf-weight",
                                "tree %d leaf %d (%d rows) has weight %.12g, -G/(H+lambda) is %.12g", t, nid,
                                len(members[nid]), nd.weight, w[nid])
                    mon.state(len(members[nid]), round(w[nid], 9))
                    oracle.need(nd.sitename == "guest", "leaf-owner", "leaf %d belongs to %r", nid, nd.sitename)

        def on_round(r, F):
            ls = [rp.L.loss(rp.y[i], F[i]) for i in range(rp.n)]
            losses.append(None if None in ls else math.fsum(ls) / len(ls))
        F = rp.walk(on_tree, on_round)
        got = dict(out.guest_F.collect())
        oracle.need(set(got) == set(rp.keys) and out.guest_F.count() == rp.n, "score-rows",
                    "scores for rows %r, the training table has %r", sorted(map(str, got))[:9], sorted(map(str, rp.keys))[:9])
        for i, key in enumerate(rp.keys):
            for k in range(rp.L.dim):
                mon.count("scores")
                oracle.need(close(float(got[key][k]), F[i][k], unit), "score",
                            "row %r output %d: score %.12g after training, expected %.12g", key, k,
                            float(got[key][k]), F[i][k])
        h = list(g.history_loss)
        oracle.need(len(h) == len(losses), "loss-history", "%d losses for %d rounds", len(h), len(losses))
        known = [b for b in losses if b is not None]
        slack = 2e-15 * (1 + sum(v * v for v in cfg["oparams"] or [])) + 1e-6 * (max(known) if known else 0)    # log(cosh) near 0 is that rough
        for r, (a, b) in enumerate(zip(h, losses)):
            mon.count("rounds")
            if b is not None:
                oracle.need(abs(a - b) <= slack, "loss-history", "round %d: loss %.12g, expected %.12g", r, a, b)
    fed.guarded(mon, go)
    mon.sample = dict(fed.summary(cfg, out), loss=list(g.history_loss)[:4])
