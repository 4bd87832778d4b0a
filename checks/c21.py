"""C21: training runs the configured number of rounds, or stops at the first converged one, at every party alike."""
import math

from vrt import fed, gen, oracle, session

RULE = ("Two kinds of cases: (a) the three convergence rules judge random sequences of losses or weights (repeats, oscillations, "
        "constant, tiny and large steps) and each verdict is compared with its definition; (b) federated sessions and single-machine training "
        "with early stopping on or off and random tolerances: the number of rounds follows from the loss history by the rule, at the "
        "guest and every host alike, and every round reports one loss. Distinct by (rule, verdicts) or (history, rounds).")
ASSUMPTIONS = ["steps within 1e-9 of the tolerance may go either way"]
QUICK_S = 36
NEED = {"judged": 2000, "sessions": 12, "stopped_early": 4, "ran_out": 4, "never_stops": 3, "local": 12}


def case(rng, i, tier):
    if i % 3 == 2:
        return dict(kind="rule", seed=rng.getrandbits(40))
    cfg = gen.session(rng, preds=[], predict_train=False, n=rng.randint(12, 30))
    cfg["num_trees"] = rng.choice([1, 2, 4, 6, 8] if not isinstance(cfg["y"][0], str) and cfg["task"] == "regression" else [1, 2, 4, 5])
    if cfg["task"] == "classification" and len(set(cfg["y"])) > 2:
        cfg["num_trees"] = min(cfg["num_trees"], 4)
    cfg.update(kind="session", stop=rng.random() < .75, tol=rng.choice([0, 1e-6, 1e-3, .01, .03, .05, .1, .2, 1, 50]), lr=rng.choice([.1, .3, 1.0]), subsample=rng.choice([1.0, .6]))
    cfg["tree"]["max_depth"] = rng.choice([1, 2, 2])
    if rng.random() < .1:      # nothing to split: the loss still moves by the root's weight
        cfg["tree"]["min_impurity_split"] = 1e6
    return gen.tame(cfg)


def run_case(cfg, mon):
    (rules if cfg["kind"] == "rule" else sessions)(cfg, mon)


def rules(cfg, mon):
    import random
    import numpy as np
    from ml.optim.convergence import AbsConverge, DiffConverge, WeightDiffConverge
    r = random.Random(cfg["seed"])
    check = mon.check
    for _ in range(6):
        eps = r.choice([0.0, 1e-6, 1e-4, .01, .5, 3.0, 1e3])
        steps = lambda: r.choice([0.0, eps * .5, -eps * .5, eps * .99, eps * 1.01, -eps * 1.01, -eps * .99, eps * 2, r.gauss(0, 1) * eps, -r.gauss(0, 10) * eps])
        seq, v = [], r.choice([0.0, 1.0, -5.0, eps, 3e6, -2e9, 5e12])
        for _ in range(r.randint(1, 12)):
            v += steps()
            seq.append(v)
        first = r.choice([None, None, seq[0] + steps()])
        d = DiffConverge(eps=eps) if first is None and r.random() < .7 else DiffConverge(first, eps) if r.random() < .5 else DiffConverge(pre_loss=first, eps=eps)
        prev, out = first, []
        for x in seq:
            got = d.is_converge(x)
            mon.count("judged")
            want = prev is not None and abs(prev - x) < eps
            if prev is None or eps == 0 or abs(abs(prev - x) - eps) > 1e-9 * (1 + eps):
                check(bool(got) == want, "difference", "after %r, %r with tolerance %r: %r", prev, x, eps, got)
            out.append(bool(got))
            prev = x
        mon.state("diff", eps, out)
        a = AbsConverge(eps)
        for x in seq:
            mon.count("judged")
            if abs(x - eps) > 1e-9 * (1 + eps):
                check(bool(a.is_converge(x)) == (x < eps), "absolute", "loss %r with tolerance %r", x, eps)
        check(bool(a.is_converge(eps)), "absolute", "loss %r at tolerance %r does not count", eps, eps)
        k = r.randint(1, 5)
        w = [r.gauss(0, 1) * r.choice([0, .1, 1, 30]) for _ in range(k)]
        c = WeightDiffConverge(eps=eps)
        prev = None
        out, given = [], []
        for _ in range(r.randint(1, 8)):
            x = np.array(w)
            given.append((x, x.copy()))
            got = c.is_converge(x)
            mon.count("judged")
            check(all(np.array_equal(x, keep) for x, keep in given), "weights-changed", "judging changed weights it was given")
            if prev is None:
                check(not got, "weights", "the first weights %r count as converged", w)
            else:
                diff = math.sqrt(sum((p - q) ** 2 for p, q in zip(prev, w)))
                lim = eps * max(math.sqrt(sum(q * q for q in w)), 1)
                if abs(diff - lim) > 1e-9 * (1 + lim) or eps == 0:
                    check(bool(got) == (diff < lim), "weights", "from %r to %r with tolerance %r: %r", prev, w, eps, got)
            out.append(bool(got))
            prev = list(w)
            scale = r.choice([0, eps * .3, eps, eps * 5])
            w = [q + r.gauss(0, 1) * scale * max(1, math.sqrt(sum(z * z for z in w))) / math.sqrt(k) for q in w]
        mon.state("weights", eps, out)
    mon.sample = dict(tolerance=eps, losses=seq[:5])


def expected(losses, cfg):
    """(acceptable numbers of rounds) by the loss history; the history itself is judged by C02."""
    if not cfg["stop"]:
        return {cfg["num_trees"]}
    if cfg["tol"] == 0:      # no step is smaller than nothing
        return {cfg["num_trees"]}
    ok = set()
    for i in range(1, len(losses)):
        d = abs(losses[i] - losses[i - 1])
        if abs(d - cfg["tol"]) <= 1e-9 * (1 + cfg["tol"]):
            ok.add(i + 1)
        elif d < cfg["tol"]:
            ok.add(i + 1)
            return ok
    ok.add(cfg["num_trees"])
    return ok


def mean(v):
    return None if None in v else math.fsum(v) / len(v)


def sessions(cfg, mon):
    out = fed.start(cfg, mon)
    check = mon.check
    dim = len(set(cfg["y"])) if cfg["task"] == "classification" and len(set(cfg["y"])) > 2 else 1

    def judge(who, b):
        losses = [float(x) for x in b.history_loss]
        rounds = len(losses)
        check(len(b.trees_) == rounds * dim, "rounds", "%s: %d losses, %d trees of %d per round", who, rounds, len(b.trees_), dim)
        check(rounds <= cfg["num_trees"], "rounds", "%s: %d rounds of at most %d", who, rounds, cfg["num_trees"])
        ok = expected(losses, cfg)
        check(rounds in ok, "rounds", "%s: %d rounds with losses %r, tolerance %r, stopping %s, at most %d; expected %r", who, rounds, losses, cfg["tol"],
              cfg["stop"], cfg["num_trees"], sorted(ok))
        mon.state(who, [round(x, 6) for x in losses], rounds)
        return rounds
    rounds = judge("guest", out.guest)
    mon.count("never_stops" if not cfg["stop"] else "stopped_early" if rounds < cfg["num_trees"] else "ran_out")
    for i, h in enumerate(out.hosts):
        check(len(h.trees_) == len(out.guest.trees_), "hosts", "host %d trained %d trees, the guest %d", i, len(h.trees_), len(out.guest.trees_))
    # the losses it judged by are the model's own
    def go():
        rp = oracle.Replay(out, cfg)
        hist = []
        rp.walk(on_round=lambda r, F: hist.append(mean([rp.L.loss(rp.y[i], F[i]) for i in range(rp.n)])))
        for r, (a, b) in enumerate(zip(out.guest.history_loss, hist)):
            oracle.need(b is None or abs(float(a) - b) <= 1e-6 * (1 + abs(b)), "loss", "round %d reports a loss of %r, the model has %r", r, a, b)
    fed.guarded(mon, go)
    from xgboost.hetero_secureboosting_tree_guest import HeteroSecureBoostingTreeGuest
    g = HeteroSecureBoostingTreeGuest()
    g.model_param = session.build_param(cfg)
    g._init_model(g.model_param)
    rows = [list(a) + [v for h in cfg["hosts"] for v in h[i]] for i, a in enumerate(cfg["guest"])]
    g.fit(session.make_table(rows, cfg["keys"], cfg["y"]))
    judge("local trainer", g)
    mon.count("local")
    mon.sample = dict(fed.summary(cfg, out), losses=[float(x) for x in out.guest.history_loss], tolerance=cfg["tol"], stop=cfg["stop"], rounds=rounds)
