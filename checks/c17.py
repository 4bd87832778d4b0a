"""C17: a tree survives export, serialisation and reload unchanged, and predicts the same afterwards."""
import struct

from vrt import fed, gen, oracle

RULE = ("Two kinds of cases: (a) synthetic guest and host trees with random and extreme node fields, thresholds and settings are "
        "exported, serialised to bytes, parsed, loaded into a fresh or a used tree object with other settings, and compared "
        "bit by bit, repeatedly; (b) a federated session in which, after training, every party reloads all its trees from bytes "
        "and the predictions are compared with a walk of the trees as trained. Distinct by exported bytes.")
ASSUMPTIONS = ["fields a node does not have (feature of a leaf) come back as the schema's zero"]
QUICK_S = 36
NEED = {"round_trips": 300, "nodes": 3000, "sessions": 8, "rows": 60, "reused": 80}

SETTINGS = ["max_depth", "min_sample_split", "min_impurity_split", "min_leaf_node"]
FLOATS = [0.0, -0.0, 1.0, -1.0, 1e-300, -1e308, 5e-324, 0.1, 1 / 3, 123456789.123456789, 2.0 ** 53 + 2]


def case(rng, i, tier):
    if i % 8 == 0:
        cfg = gen.session(rng)
        cfg["kind"], cfg["predict_train"] = "session", False
        return cfg
    return dict(kind="tree", side=rng.choice(["guest", "host"]), seed=rng.getrandbits(40))


def bits(v):
    return struct.pack("<d", float(v) + 0.0).hex()     # -0.0 is 0.0


def nodes_of(t):
    return [(n.id, n.sitename, n.fid or 0, bits(n.bid or 0), bits(n.weight), bool(n.is_leaf), n.left_nodeid, n.right_nodeid) for n in t.tree_]


def masks(t):
    return sorted((int(k), bits(v)) for k, v in dict(t.split_maskdict).items())


def settings(t, side):
    s = [(k, getattr(t, k)) for k in SETTINGS]
    if side == "guest":
        s += [("criterion_method", t.criterion_method), ("criterion_params", [float(v) for v in t.criterion_params])]
    return s


def fresh(r, side):
    from ml.param.boosting_tree_param import DecisionTreeParam
    if side == "guest":
        from ml.tree.hetero_decision_tree_guest import HeteroDecisionTreeGuest as C
    else:
        from ml.tree.hetero_decision_tree_host import HeteroDecisionTreeHost as C
    p = DecisionTreeParam()
    if r is not None:
        p.max_depth, p.min_sample_split = r.randint(1, 100), r.choice([0, 1, 2, r.randint(1, 10 ** 6)])
        p.min_leaf_node, p.min_impurity_split = r.choice([0, 1, r.randint(1, 10 ** 6)]), r.choice([0.0, 1e-3, r.random()])
        p.criterion_params = [r.choice([0.0, .1, r.random()])] + [r.random() for _ in range(r.randint(0, 2))]
    return C(p)


def fill(r, t, size):
    from ml.tree.node import Node
    t.tree_ = []
    for j in range(size):
        leaf = r.random() < .5
        f = lambda: r.choice([r.gauss(0, 1), r.choice(FLOATS), r.gauss(0, 1) * 10 ** r.randint(-12, 12)])
        t.tree_.append(Node(id=j if r.random() < .9 else r.randrange(2 ** 31), sitename=r.choice(["guest", "host.0", "host.%d" % r.randint(0, 99)]),
                            fid=None if leaf else r.choice([0, r.randint(0, 300), 2 ** 31 - 1]), bid=None if leaf else r.choice([0, r.randint(0, 40), f()]),
                            weight=f(), is_leaf=leaf, left_nodeid=-1 if leaf else r.randint(0, 2 ** 31 - 1), right_nodeid=-1 if leaf else r.randint(0, 999)))
    t.split_maskdict = {r.choice([r.randint(0, 60), r.randint(0, 2 ** 31 - 1)]): r.choice([r.gauss(0, 1), r.choice(FLOATS)]) for _ in range(r.randint(0, size))}


def parse(msg):
    m = type(msg)()
    m.ParseFromString(msg.SerializeToString())
    return m


def run_case(cfg, mon):
    import random
    if cfg["kind"] == "session":
        return run_session(cfg, mon)
    r = random.Random(cfg["seed"])
    check = mon.check
    side = cfg["side"]
    for _ in range(12):
        t = fresh(r, side)
        fill(r, t, r.choice([0, 1, 2, r.randint(1, 15), r.randint(1, 64)]))
        want, wm, ws = nodes_of(t), masks(t), settings(t, side)
        meta, param = t.get_model()
        check((nodes_of(t), masks(t), settings(t, side)) == (want, wm, ws), "source", "%s: exporting a tree changed it", side)
        blob = param.SerializeToString(deterministic=True)
        u = fresh(r, side)
        if r.random() < .5:      # a used object forgets what it held
            mon.count("reused")
            fill(r, u, r.randint(1, 20))
        u.load_model(parse(meta), parse(param))
        mon.count("round_trips")
        mon.count("nodes", len(want))
        got = nodes_of(u)
        check(len(got) == len(want), "nodes", "%s: %d nodes came back of %d", side, len(got), len(want))
        for a, b in zip(got, want):
            check(a == b, "node", "%s: node %r came back as %r", side, b, a)
        check(masks(u) == wm, "thresholds", "%s: thresholds %r came back as %r", side, wm, masks(u))
        check(settings(u, side) == ws, "settings", "%s: settings %r came back as %r", side, ws, settings(u, side))
        meta2, param2 = u.get_model()
        check(meta2 == meta and param2 == param and param2.SerializeToString(deterministic=True) == blob, "again",
              "%s: exporting the reloaded tree gives another model", side)
        # two trees do not share what they loaded
        w = fresh(r, side)
        w.load_model(meta, param)
        for n in w.tree_:
            n.weight, n.left_nodeid, n.is_leaf = 17.0, 3, True
        w.split_maskdict[1] = 5.5
        if side == "guest" and len(w.criterion_params):
            try:
                w.criterion_params[0] = w.criterion_params[0] + 1.25
            except TypeError:      # not writable is fine
                pass
        check(settings(u, side) == ws and meta == meta2, "shared", "%s: changing a loaded tree's settings changed the model", side)
        check(nodes_of(u) == want and param.SerializeToString(deterministic=True) == blob, "shared", "%s: changing a loaded tree changed the model", side)
        mon.state(side, blob)
    mon.sample = dict(side=side, nodes=want[:3], thresholds=wm[:3], settings=ws)


def run_session(cfg, mon):
    from checks.c03 import check_rows
    from ml.param.boosting_tree_param import DecisionTreeParam

    def reload(b, side):
        b.tree_meta = parse(b.tree_meta)
        b.tree_param = DecisionTreeParam()
        b.trees_ = [parse(p) for p in b.trees_]

    def through_object(b, side):      # and once more through a tree object
        new = []
        for p in b.trees_:
            t = fresh(None, side)
            t.load_model(b.tree_meta, p)
            meta, q = t.get_model()
            t2 = fresh(None, side)
            t2.load_model(parse(meta), parse(q))
            new.append(parse(t2.get_model_param()))
            mon.count("trees")
            mon.state(p.SerializeToString(deterministic=True))
            if new[-1] != p or meta != b.tree_meta:
                bad.append((side, p, new[-1], meta))
        b.trees_ = new
    bad, kept = [], {}

    def guest_extra(out, g, tr):
        kept["guest"] = [parse(p) for p in g.trees_]
        reload(g, "guest")
        through_object(g, "guest")

    def host_extra(out, h, tr, i):
        kept[i] = [parse(p) for p in h.trees_]
        reload(h, "host")
        through_object(h, "host")
    out = fed.start(cfg, mon, guest_extra=guest_extra, host_extra=host_extra)
    mon.check(not bad, "again", "a trained tree changed on its way through a tree object: %s", bad[:1])

    def go():
        # the trees as they were trained decide what the reloaded ones must answer
        out.guest.trees_ = kept["guest"]
        for i, h in enumerate(out.hosts):
            h.trees_ = kept[i]
        rp = oracle.Replay(out, cfg)
        for j, p in enumerate(cfg["preds"]):
            rows = {"guest": [[oracle.eff(v) for v in q] for q in p["guest"]]}
            for i, h in enumerate(p["hosts"]):
                rows[rp.sites[i + 1]] = [[oracle.eff(v) for v in q] for q in h]
            check_rows(mon, rp, rows, p["keys"], [None] * len(p["guest"]), out.preds[j], "prediction %d" % j)
    fed.guarded(mon, go)
    mon.sample = fed.summary(cfg, out)
