"""Run the real guest and host code over the simulated network, and record what happened."""
import copy
import random

from . import simnet


class Outcome:
    pass


def make_table(rows, keys=None, labels=None, header=None, order=None, sparse=False):
    """A party's table.  order permutes the insertion order, which must not matter."""
    import numpy as np
    from computing.d_table import DTable
    from ml.feature.instance import Instance
    from ml.feature.sparse_vector import SparseVector
    n = len(rows)
    idx = list(range(n))
    if order is not None:
        random.Random(order).shuffle(idx)
    items = []
    for i in idx:
        if sparse:
            # the library's own "non-zero" rule for sparse vectors
            nz = [j for j, v in enumerate(rows[i]) if not abs(v) < 1e-6]
            feats = SparseVector(nz, [rows[i][j] for j in nz], len(rows[i]))
        else:
            feats = np.array(rows[i], dtype=float)
        k = keys[i] if keys is not None else i
        inst = Instance(inst_id=k, features=feats, label=None if labels is None else labels[i])
        items.append((k, inst))
    if keys is None and order is None:
        t = DTable(False, [v for _, v in items])
    else:
        t = DTable(True, items)
    t.schema["header"] = header or ["x%d" % j for j in range(len(rows[0]))]
    return t


def build_param(cfg):
    from ml.param.boosting_tree_param import BoostingTreeParam, DecisionTreeParam, ObjectiveParam
    from ml.param.encrypt_param import EncryptParam
    from ml.param.encrypted_mode_calculation_param import EncryptedModeCalculatorParam
    from ml.param.predict_param import PredictParam
    p = BoostingTreeParam()
    t = p.tree_param
    for k, v in cfg["tree"].items():
        setattr(t, k, copy.deepcopy(v))
    p.task_type = cfg["task"]
    p.objective_param = ObjectiveParam(cfg["objective"], cfg["oparams"])
    p.learning_rate = cfg["lr"]
    p.num_trees = cfg["num_trees"]
    p.subsample_feature_rate = cfg["subsample"]
    p.n_iter_no_change = cfg["stop"]
    p.tol = cfg["tol"]
    p.bin_num = cfg["bin_num"]
    p.encrypt_param.key_length = cfg["key_len"]
    if "enc_method" in cfg:
        p.encrypt_param.method = cfg["enc_method"]
    p.encrypted_mode_calculator_param.mode = cfg["enc_mode"]
    p.encrypted_mode_calculator_param.re_encrypted_rate = cfg["enc_rate"]
    p.predict_param.threshold = cfg["threshold"]
    if cfg.get("check", True):
        p.check()
    return p


def component_conf(cfg):
    """The same parameters as build_param, the way a component reads them: a dictionary of overrides."""
    c = dict(tree_param=dict(cfg["tree"]), task_type=cfg["task"],
             objective_param=dict(objective=cfg["objective"], params=cfg["oparams"]), learning_rate=cfg["lr"],
             num_trees=cfg["num_trees"], subsample_feature_rate=cfg["subsample"], n_iter_no_change=cfg["stop"],
             tol=cfg["tol"], bin_num=cfg["bin_num"], encrypt_param=dict(key_length=cfg["key_len"]),
             encrypted_mode_calculator_param=dict(mode=cfg["enc_mode"], re_encrypted_rate=cfg["enc_rate"]),
             predict_param=dict(threshold=cfg["threshold"]))
    return copy.deepcopy({"BoostingTreeParam": c, "OtherParam": {"learning_rate": 77}})


def taskid(plan, j):
    return plan["taskid"] + (str(j) if j else "")


def component_run(out, cfg, model, who, train, evals):
    """Train, evaluate and test by the component's one entry point: run(parameters, data sets)."""
    plan = cfg["component"]
    model.set_taskid(taskid(plan, 0))
    names = {k: (plan["names"] if not plan["split"] else "%s_%s" % (plan["names"], k)) for k in ("train_data", "eval_data")}
    data = {}
    data.setdefault(names["train_data"], {})["train_data"] = train
    if plan["validate"]:
        data.setdefault(names["eval_data"], {})["eval_data"] = evals[0]
    rec = out.component.setdefault(who, [])
    model.run(component_conf(cfg), {"data": data})
    rec.append((model.save_data(), model.flowid))
    if who == "guest":
        out.guest_F = model.F
    out.fitted = True
    for t in evals[1 if plan["validate"] else 0:]:
        model.set_taskid(taskid(plan, len(rec)))
        model.run(component_conf(cfg), {"data": {plan["names"]: {"eval_data": t}}})
        rec.append((model.save_data(), model.flowid))


_hooked = {}


def _hook_valid_features():
    """Log the features each party admits per tree, as the tree sees them when it starts to fit."""
    if "vf" in _hooked:
        return
    _hooked["vf"] = True
    for mod, cls in (("ml.tree.hetero_decision_tree_guest", "HeteroDecisionTreeGuest"),
                     ("ml.tree.hetero_decision_tree_host", "HeteroDecisionTreeHost")):
        c = getattr(__import__(mod, fromlist=[cls]), cls)

        def wrap(self, *a, _o=c.fit, **k):
            p = getattr(simnet._tls, "party", None)
            v = getattr(self, "valid_features", None)
            if p is not None:
                p.valid.append(None if v is None else [bool(x) for x in v])
            return _o(self, *a, **k)
        c.fit = wrap


def party_key(i):
    return "guest" if i < 0 else "host%d" % i


def run(cfg, guest_extra=None, host_extra=None, save_reload=False):
    """Train and predict.  Never raises for what the code under test does; see Outcome."""
    from federation.transfer_inst import TransferInstGuest, TransferInstHost
    from ml.tree.hetero_secureboosting_tree_guest import HeteroSecureBoostingTreeGuest
    from ml.tree.hetero_secureboosting_tree_host import HeteroSecureBoostingTreeHost
    _hook_valid_features()
    sc = cfg["sched"]
    net = simnet.Sched(sc["seed"], sc["frag"], sc["capacity"], quantum=sc["quantum"], policy=sc["policy"],
                       max_steps=cfg.get("max_steps", 3000000))
    net.crash = tuple(cfg["crash"]) if cfg.get("crash") else None
    net.expect = len(cfg["hosts"])
    out = Outcome()
    out.connected = 0
    out.net, out.cfg = net, cfg
    out.preds, out.train_pred, out.model = [], None, {}
    out.component = {}
    out.train_tables = {}
    nh = len(cfg["hosts"])
    names = cfg.get("headers") or {}
    order = random.Random(("order", cfg["seed"]).__repr__())
    conn = list(range(nh))
    if cfg.get("conn_shuffle", True):
        order.shuffle(conn)

    def guest():
        tr = TransferInstGuest(9000, nh)
        out.guest_transfer = tr
        g = HeteroSecureBoostingTreeGuest()
        if not cfg.get("component"):
            g.model_param = build_param(cfg)
            g._init_model(g.model_param)
        g.set_transfer_inst(tr)
        out.guest = g
        t = make_table(cfg["guest"], cfg["keys"], cfg["y"], names.get("guest"), order=None, sparse=cfg.get("sparse_in"))
        out.train_tables["guest"] = t
        if cfg.get("component"):
            t.schema["sid_name"] = "sid"
            component_run(out, cfg, g, "guest", t, [make_table(p["guest"], p["keys"], p.get("y") or [None] * len(p["guest"]), names.get("guest"),
                                                    sparse=cfg.get("sparse_in")) for p in cfg["preds"]])
            return g
        g.fit(t)
        out.guest_F = g.F
        out.fitted = True
        net.parties_mark = net.steps
        if guest_extra:
            guest_extra(out, g, tr)
        if cfg.get("predict_train"):
            out.train_pred = collect(g.predict(make_table(
                cfg["guest"], cfg["keys"], cfg["y"], sparse=cfg.get("sparse_in"))))
        for p in cfg["preds"]:
            pt = make_table(p["guest"], p["keys"], [None] * len(p["guest"]), sparse=cfg.get("sparse_in"))
            out.preds.append(collect(g.predict(pt)))
        return g

    def host(i):
        def main():
            if cfg.get("pin"):       # hosts connect in a fixed order: it breaks ties between hosts
                net.yield_(net.current, lambda: out.connected == conn.index(i), "turn to connect", force=True)
            tr = TransferInstHost(port=9000)
            out.connected += 1
            h = HeteroSecureBoostingTreeHost()
            if not cfg.get("component"):
                h.model_param = build_param(cfg)
                h._init_model(h.model_param)
            h.set_transfer_inst(tr)
            h.set_runtime_idx(cfg["ridx"][i])
            out.hosts[i] = h
            o = ("ho", cfg["seed"], i).__repr__() if cfg["order"] else None
            ht = make_table(cfg["hosts"][i], cfg["keys"], None, names.get("host%d" % i), order=o, sparse=cfg.get("sparse_in"))
            out.train_tables["host%d" % i] = ht
            if cfg.get("component"):
                component_run(out, cfg, h, "host%d" % i, ht, [make_table(p["hosts"][i], p["keys"], None, names.get("host%d" % i),
                                                              sparse=cfg.get("sparse_in")) for p in cfg["preds"]])
                return h
            h.fit(ht)
            if host_extra:
                host_extra(out, h, tr, i)
            if cfg.get("predict_train"):
                h.predict(make_table(cfg["hosts"][i], cfg["keys"], order=o, sparse=cfg.get("sparse_in")))
            for j, p in enumerate(cfg["preds"]):
                o2 = ("hp", cfg["seed"], i, j).__repr__() if cfg["order"] else None
                h.predict(make_table(p["hosts"][i], p["keys"], order=o2, sparse=cfg.get("sparse_in")))
            return h
        return main

    out.hosts = [None] * nh
    out.fitted = False
    ps = [("guest", -1, guest)] + [("host%d" % i, i, host(i)) for i in conn]
    for name, i, fn in ps:
        p = net.spawn(name, fn)
        p.valid = []
        p.seed((cfg["seed"], name))
    net.run()
    out.parties = {p.name: p for p in net.parties}
    out.valid = {p.name: p.valid for p in net.parties}
    out.errors = [(p.name, p.exc, p.tb) for p in net.parties if p.exc is not None]
    out.failure = net.failure
    out.stuck = [p.name for p in net.parties if p.thread.is_alive()]
    return out


def collect(table):
    return list((k, v) for k, v in table.collect())


def problems(out):
    """Why a session on valid input did not complete (empty when it did)."""
    if out.errors:
        # the first party to fail is the cause; others fail because the connection went away
        order = sorted(out.errors, key=lambda e: isinstance(e[1], (EOFError, OSError, ConnectionError)))
        name, exc, tb = order[0]
        return ["%s raised %s: %s\n%s" % (name, type(exc).__name__, exc, tb[-1500:])]
    if out.failure:
        return ["%s: %s" % out.failure]
    if out.stuck:
        return ["parties never ended: %s" % out.stuck]
    return []
