"""C14: parties stay in step: every session ends, everything sent is used, no schedule or crash changes or hangs it."""
import random

from vrt import fed, gen, session

RULE = fed.TREE_RULE + (
    "Each case runs one session under two adversarial schedules (segmentation, back-pressure of a few hundred bytes, starved "
    "parties) and again with one party killed at a random network operation. Monitors on the network decide: nobody waits for "
    "somebody who will never send, every byte sent is received, all parties hold the same trees, both schedules give the "
    "same model and predictions, and after a crash every survivor ends (with an error, or with the undisturbed result). "
    "Distinct by schedule trace.")
ASSUMPTIONS = ["a crashed party's connections are closed, as its operating system does", "every party has its own random streams", "hosts connect in the same order in "
               "both schedules: ties between hosts go by it"]
CPU_LIMIT = 300
QUICK_S = 36
NEED = {"sessions": 12, "crashes": 6, "trees_agree": 12, "bytes_accounted": 10000}


def case(rng, i, tier):
    cfg = gen.session(rng, n=rng.randint(1, 6) if rng.random() < .07 else None, hosts=rng.choice([1, 2, 2, 3, 3, 4]))
    if rng.random() < .12:         # few rows that walk far between hosts: exchanges in which some host has nothing to do
        cfg = gen.session(rng, n=rng.randint(20, 36), hosts=rng.choice([2, 3, 4]), task="reg", objective="lse", subsample=1.0)
        cfg["y"] = [rng.gauss(0, 2) for _ in cfg["y"]]
        for d in [cfg] + cfg["preds"]:
            d["guest"] = [[0.0] for _ in d["guest"]]
        cfg["preds"] = [dict(guest=p["guest"][:k], hosts=[h[:k] for h in p["hosts"]], keys=p["keys"] and p["keys"][:k])
                        for p in cfg["preds"] * 3 for k in [rng.randint(1, 2)]]
        cfg["tree"].update(max_depth=rng.choice([4, 5, 6]), min_leaf_node=1, min_sample_split=2, min_impurity_split=1e-3)
        cfg.update(num_trees=1, bin_num=32, key_len=512)
    broad = i % 24 == 5
    if broad:      # levels of dozens of nodes
        cfg = gen.session(rng, n=rng.randint(110, 180), hosts=1, task="reg", objective="lse", subsample=1.0, style="gauss")
        cfg["y"] = [rng.gauss(0, 3) for _ in cfg["y"]]
        cfg["tree"].update(max_depth=rng.choice([7, 8]), min_leaf_node=1, min_sample_split=2, min_impurity_split=1e-3, max_split_nodes=rng.choice([65536, 65536, 20]))
        cfg.update(num_trees=1, bin_num=64, predict_train=False, preds=cfg["preds"][:1])
    cfg["pin"] = True
    cfg["n2"] = gen.schedule(rng)
    for s in (cfg["sched"], cfg["n2"]):
        if broad:
            s.update(frag="whole", capacity=None)
        elif rng.random() < .5:
            s.update(frag=rng.choice(["small", "mixed"]), capacity=rng.choice([300, 2000, 17]), policy=rng.choice(["starve", "random"]))
        if s["capacity"] == 17:
            s["frag"] = "whole"
    cfg["who"] = rng.choice(["guest", "host0", "host%d" % rng.randrange(len(cfg["hosts"]))])
    cfg["when"] = rng.choice([rng.random(), rng.random(), rng.random() * .1, 1 - rng.random() * .1])
    if not broad and rng.random() < .15:         # trees that never split, one-row nodes, one class of rows
        cfg["tree"]["min_impurity_split"] = 1e6
    return cfg


def tree(t):
    return [(n.id, n.sitename, bool(n.is_leaf), n.left_nodeid, n.right_nodeid, None if n.is_leaf else n.fid) for n in t.tree_]


def result(out):
    return dict(F=sorted(((str(k), [round(float(x), 9) for x in v]) for k, v in out.guest_F.collect())) if out.guest_F is not None else None,
                loss=[round(float(x), 9) for x in out.guest.history_loss] if hasattr(out.guest, "history_loss") else None,
                trees=[tree(t) + [round(n.weight, 9) for n in t.tree_] for t in out.guest.trees_])


def preds(p):
    return None if p is None else [(str(k), repr([round(x, 9) if isinstance(x, float) else x for x in v[:3]])) for k, v in sorted(p, key=lambda kv: str(kv[0]))]


def finish(out, mon, what):
    if out.failure:
        mon.fail("stuck", "%s: %s: %s", what, *out.failure)
    for s in out.net.streams:
        mon.count("bytes_accounted", len(s.all))
        mon.check(not s.buf, "left-over", "%s: %d of %d bytes from %s to %s were never received", what, len(s.buf), len(s.all), s.src, s.dst)
    for i, h in enumerate(out.hosts):
        mon.check(len(h.trees_) == len(out.guest.trees_), "tree-count", "%s: host %d holds %d trees, the guest %d", what, i, len(h.trees_), len(out.guest.trees_))
        for k, (a, b) in enumerate(zip(out.guest.trees_, h.trees_)):
            mon.count("trees_agree")
            mon.check(tree(a) == tree(b), "tree-differs", "%s: tree %d of the guest %r, of host %d %r", what, k, tree(a), i, tree(b))
    for k, t in enumerate(out.guest.trees_):
        inner = {n.id: n.sitename for n in t.tree_ if not n.is_leaf}
        owners = [("guest", t)] + [("host.%d" % cfg_ridx, h.trees_[k]) for cfg_ridx, h in zip(out.cfg["ridx"], out.hosts)]
        for name, ot in owners:
            mon.check(set(ot.split_maskdict) == {i for i, s in inner.items() if s == name}, "ownership", "%s: tree %d: %s keeps thresholds of "
                      "nodes %r, it owns %r", what, k, name, sorted(ot.split_maskdict), sorted(i for i, s in inner.items() if s == name))


def run_case(cfg, mon):
    out = fed.start(cfg, mon)
    finish(out, mon, "first schedule")
    a = result(out)
    mon.state(out.net.trace_hash)
    out2 = fed.start(dict(cfg, sched=cfg["n2"]), mon)
    finish(out2, mon, "second schedule")
    mon.state(out2.net.trace_hash)
    b = result(out2)
    for k in a:
        mon.check(a[k] == b[k], "schedule", "two schedules gave different %s: %.300r and %.300r", k, a[k], b[k])
    pa, pb = ([preds(p) for p in [o.train_pred] + o.preds] for o in (out, out2))
    mon.check(pa == pb, "schedule", "two schedules gave different predictions")
    mon.count("schedules_compared")
    ops = {p.name: p.ops for p in out.net.parties}[cfg["who"]]
    when = max(1, int(cfg["when"] * ops))
    out3 = session.run(dict(cfg, crash=[cfg["who"], when]))
    if out3.net.crashed:
        mon.count("crashes")
        mon.state("crash", out3.net.trace_hash)
        if out3.failure:
            mon.fail("stuck-after-crash", "%s died at its network operation %d of %d: %s: %s", cfg["who"], when, ops, *out3.failure)
        mon.check(not out3.stuck, "stuck-after-crash", "parties never ended: %r", out3.stuck)
        if out3.fitted:
            mon.count("fitted_before_crash")
            c = result(out3)
            mon.check(c == a, "crash-result", "%s died at operation %d of %d: training ended with another model", cfg["who"], when, ops)
            for p, q in zip([out3.train_pred] if cfg["predict_train"] and out3.train_pred is not None else [], pa[:1]):
                mon.check(preds(p) == q, "crash-result", "predictions differ after a crash")
            for p, q in zip(out3.preds, pa[1:]):
                mon.check(preds(p) == q, "crash-result", "predictions differ after a crash")
        else:
            mon.check(any(n == "guest" for n, _, _ in out3.errors), "silent", "training did not finish, yet the guest reported nothing")
    mon.sample = dict(fed.summary(cfg, out), crash=[cfg["who"], when], ops=ops, survivors=[(n, type(e).__name__) for n, e, _ in out3.errors])
