"""C23: a component's single entry point, run(parameters, data sets), dispatches as documented and tags its output rows."""
import copy

from vrt import fed, gen, oracle, session
from . import c03

RULE = ("A case is either a whole federated job driven only through run(): guest and hosts are given a parameter dictionary and named data sets, "
        "train, validate, and are run again on evaluation data alone, and each row of the guest's output is compared with a traversal of the trained trees "
        "on the raw rows of all parties; or a recording component, which logs every call it gets, driven through run() with random parameters "
        "and random sets of data, and compared with the documented dispatch. Distinct by (arguments, calls).")
ASSUMPTIONS = ["training and evaluation rows have different keys", "the dispatch is the one of FATE's ModelBase, which the class documents by its method names"]
QUICK_S = 36
NEED = {"sessions": 6, "rows": 100, "validated": 30, "tested": 30, "dispatches": 200, "host_outputs": 10, "untouched": 6, "metrics": 10}
MIN_CASES = 6


def case(rng, i, tier):
    if i % 2:
        return dict(kind="dispatch", seed=rng.getrandbits(40))
    cfg = gen.session(rng)
    cfg["kind"] = "session"
    cfg["predict_train"] = False
    n = len(cfg["guest"])
    cfg["keys"] = rng.choice([["t%03d" % j for j in rng.sample(range(900), n)], [10 ** 6 + j for j in rng.sample(range(900), n)]])
    for q, p in enumerate(cfg["preds"]):
        m = len(p["guest"])
        p["keys"] = rng.choice([["e%03d" % j for j in rng.sample(range(900), m)], rng.sample(range(900), m)])
        if rng.random() < .6:
            p["y"] = [rng.choice(cfg["y"]) for _ in range(m)]
    cfg["component"] = dict(validate=rng.random() < .7, split=rng.random() < .5, names=rng.choice(["data_0", "x"]), taskid=rng.choice(["", "job7", "a.b"]))
    return cfg


def run_case(cfg, mon):
    if cfg["kind"] == "dispatch":
        import random
        r = random.Random(cfg["seed"])
        for _ in range(20):
            dispatch(r, mon)
        metrics(r, mon)
        return
    out = fed.start(cfg, mon)
    plan = cfg["component"]

    def go():
        rp = oracle.Replay(out, cfg)
        rec = out.component["guest"]
        want = 1 + len(cfg["preds"]) - (1 if plan["validate"] else 0)
        oracle.need(len(rec) == want, "runs", "%d runs of %d", len(rec), want)
        for who, rr in out.component.items():
            for j, (d, flow) in enumerate(rr):
                step = "validate" if j == 0 and plan["validate"] else "predict"
                oracle.need(flow == session.taskid(plan, j) + "." + step, "flow-id", "%s: run %d ended in flow %r of task %r", who, j, flow, session.taskid(plan, j))
                if who != "guest":
                    mon.count("host_outputs")
                    oracle.need(d is None, "host-output", "%s: a host produced output rows", who)
        for j, (d, _) in enumerate(rec):
            oracle.need(d is not None, "no-output", "run %d produced nothing", j)
            sch = d.schema
            oracle.need(sch.get("header") == ["label", "predict_result", "predict_score", "predict_detail", "type"]
                        and sch.get("sid_name") == ("sid" if j == 0 else None), "schema", "run %d: the output's schema is %r", j, sch)
            rows = session.collect(d)
            oracle.need(len(rows) == len({k for k, _ in rows}), "row-twice", "run %d: rows twice", j)
            for k, v in rows:
                oracle.need(isinstance(v, list) and len(v) == 5, "row-shape", "run %d row %r: %r", j, k, v)
            tags = [("train", rp.X, cfg["keys"], cfg["y"])] if j == 0 else []
            q = None
            if j == 0 and plan["validate"]:
                q, tag = 0, "validation"
            elif j:
                q, tag = j - (0 if plan["validate"] else 1), "test"
            if q is not None:
                p = cfg["preds"][q]
                x = {"guest": [[oracle.eff(v) for v in r] for r in p["guest"]]}
                for i, h in enumerate(p["hosts"]):
                    x[rp.sites[i + 1]] = [[oracle.eff(v) for v in r] for r in h]
                tags.append((tag, x, p["keys"], p.get("y") or [None] * len(p["guest"])))
            oracle.need({v[4] for _, v in rows} == {t[0] for t in tags}, "tag", "run %d: rows are tagged %r, expected %r", j, {v[4] for _, v in rows}, [t[0] for t in tags])
            for tag, x, keys, y in tags:
                c03.check_rows(mon, rp, x, keys, y, [(k, v[:4]) for k, v in rows if v[4] == tag], "run %d, %s rows" % (j, tag))
                mon.count({"train": "trained", "validation": "validated", "test": "tested"}[tag], len(keys))
        fresh = session.make_table(cfg["guest"], cfg["keys"], cfg["y"], sparse=cfg.get("sparse_in"))
        oracle.need(c03.snapshot(out.train_tables["guest"]) == c03.snapshot(fresh), "caller-data", "run changed the guest's own table")
        mon.count("untouched")
        # the parameters reached the model
        g = out.guest
        for name, got, exp in (("learning_rate", g.learning_rate, cfg["lr"]), ("num_trees", g.num_trees, cfg["num_trees"]),
                               ("tol", g.tol, cfg["tol"]), ("bin_num", g.bin_num, cfg["bin_num"]), ("max_depth", g.tree_param.max_depth, cfg["tree"]["max_depth"]),
                               ("n_iter_no_change", g.n_iter_no_change, cfg["stop"]), ("subsample", g.subsample_feature_rate, cfg["subsample"]),
                               ("threshold", g.predict_param.threshold, cfg["threshold"])):
            oracle.need(got == exp, "parameters", "%s is %r, the configuration says %r", name, got, exp)
    fed.guarded(mon, go)
    mon.sample = dict(fed.summary(cfg, out), plan=plan)


def dispatch(r, mon):
    from computing.d_table import DTable
    from ml.model_base import ModelBase
    from ml.param.base_param import BaseParam
    check = mon.check

    class Cv(object):
        def __init__(self):
            self.need_cv = False

    class Ovr(object):
        def __init__(self):
            self.need_one_vs_rest = False

    class DummyParam(BaseParam):
        def __init__(self):
            self.alpha = 3
            self.beta = None
            if feats["cv"]:
                self.cv_param = Cv()
            if feats["ovr"]:
                self.one_vs_rest_param = Ovr()
            if feats["need_run"]:
                self.need_run = True

        def check(self):
            calls.append(("check", self.alpha))
            if self.alpha == 13:
                raise ValueError("alpha")

    class Flow:
        def set_flowid(self, f):
            calls.append(("flow", f))

    feats = dict(cv=r.random() < .5, ovr=r.random() < .5, need_run=r.random() < .5)
    calls = []
    nothing = set(x for x in ("predict", "ovr_predict") if r.random() < .15)
    only_eval_nothing = r.random() < .1
    only_train_nothing = not only_eval_nothing and r.random() < .1

    class Dummy(ModelBase):
        def __init__(self):
            super().__init__()
            self.model_param = DummyParam()
            self.transfer_variable = Flow() if with_flow else None

        def _init_model(self, p):
            calls.append(("init", p.alpha, p.beta))

        def _load_model(self, a):
            calls.append(("load", a is args))

        def fit(self, d):
            calls.append(("fit", ident(d), self.flowid))
            return table(d, "fit") if d is not None else None

        def transform(self, d):
            calls.append(("transform", ident(d), self.flowid))
            return table(d, "transform") if d is not None else None

        def predict(self, d):
            calls.append(("predict", ident(d), self.flowid))
            if "predict" in nothing or (only_eval_nothing and ident(d) == "eval") or (only_train_nothing and ident(d) == "train"):
                return None
            return table(d, "predict")

        def cross_validation(self, d):
            calls.append(("cv", ident(d)))

        def one_vs_rest_fit(self, d=None):
            calls.append(("ovr_fit", ident(d)))

        def one_vs_rest_predict(self, d):
            calls.append(("ovr_predict", ident(d)))
            return None if "ovr_predict" in nothing or (only_train_nothing and ident(d) == "train") else table(d, "ovr")

    def ident(d):
        return next((k for k, v in tables.items() if v is d), None)

    def table(d, how):
        return DTable(True, [(k, rows.setdefault((how, v), [how, v]) if shared else [how, v]) for k, v in d.collect()])

    with_flow, shared, rows = r.random() < .7, r.random() < .3, {}      # a component may hand out one row for several keys
    tables, datasets = {}, {}
    names = r.sample(["a", "b", "c"], r.randint(1, 3))
    for nm in names:
        datasets[nm] = {}
    for kind in ("train", "eval", "data"):
        if r.random() < .55:
            t = DTable(True, [("%s%d" % (kind, j), r.randint(0, 9)) for j in range(r.randint(1, 5))])
            t.schema["sid_name"] = "sid-" + kind
            tables[kind] = t
            datasets[r.choice(names)][{"train": "train_data", "eval": "eval_data", "data": "data"}[kind]] = t
        elif r.random() < .3:
            datasets[r.choice(names)].setdefault({"train": "train_data", "eval": "eval_data", "data": "data"}[kind], None)
    args = {}
    if r.random() < .9:
        args["data"] = datasets
    elif r.random() < .5:
        args["data"] = None
    if r.random() < .25:
        args["model"] = {"m": 1}
    if r.random() < .2:
        args["isometric_model"] = {"m": 2}
    over = {}
    if r.random() < .6:
        over["alpha"] = r.choice([0, 7, 13, "z"])
    if r.random() < .4:
        over["beta"] = r.choice([0, None, [1]])
    need_run = need_cv = need_ovr = None
    if r.random() < .4:
        over["need_run"] = need_run = r.random() < .4
    if r.random() < .3:
        need_cv = r.random() < .7
        over["cv_param"] = {"need_cv": need_cv}
    if r.random() < .35:
        need_ovr = r.random() < .7
        over["one_vs_rest_param"] = {"need_one_vs_rest": need_ovr}
    if r.random() < .2:
        over["unknown"] = 1
    conf = {"DummyParam": over} if r.random() < .9 else {"Elsewhere": over}
    applied = "DummyParam" in conf
    task = r.choice(["", "t1", "x.y"])
    m = Dummy()
    if r.random() < .4:      # a component used before, as part of another task
        m.set_taskid(task + r.choice(["t0", "x", ".y"]))
        try:
            before = copy.deepcopy(conf)
            for name, opt in (("cv_param", "need_cv"), ("one_vs_rest_param", "need_one_vs_rest")):
                if name in conf.get("DummyParam", {}) and r.random() < .5:      # that time it was the other way
                    before["DummyParam"][name] = {opt: not conf["DummyParam"][name][opt]}
            if "need_run" in conf.get("DummyParam", {}) and r.random() < .5:
                before["DummyParam"]["need_run"] = not conf["DummyParam"]["need_run"]
            if r.random() < .5 and isinstance(args.get("data"), dict):      # that time it had to run, perhaps on other data
                before.get("DummyParam", {}).pop("need_run", None)
                others = {nm: {f: t for f, t in d.items() if r.random() < .5} for nm, d in datasets.items()}
                if r.random() < .5:
                    others["z"] = {"data": DTable(True, [("old", 1)])}
                m.run(before, dict(args, data=others))
            else:
                m.run(before, args)
        except ValueError:
            pass
        calls.clear()
    stale = m.save_data()
    m.set_taskid(task)
    if r.random() < .3:      # a number that cross validation and metrics use, nothing else
        m.set_cv_fold(r.choice([0, 1, 4]))
    sent = copy.deepcopy(conf)
    mon.count("dispatches")

    alpha = over.get("alpha", 3) if applied else 3
    beta = over.get("beta") if applied else None
    raised = False
    try:
        m.run(conf, args)
    except ValueError:
        raised = True
    what = "run(%r, data %r, model %r, isometric %r) with %r" % (sent, {n: sorted(d) for n, d in datasets.items()} if args.get("data") else None, "model" in args, "isometric_model" in args, feats)
    check(conf == sent, "configuration", "%s changed the configuration", what)
    exp = [("check", alpha)]
    if alpha == 13:
        check(raised and calls == exp, "refused", "%s: parameters the check refuses led to %r", what, calls)
        return
    check(not raised, "raised", "%s raised", what)
    exp.append(("init", alpha, beta))
    run_ = need_run is not False or not (feats["need_run"] and applied)
    cv = bool(need_cv and feats["cv"] and applied)
    ovr = bool(need_ovr and feats["ovr"] and applied)
    if cv:
        stage = "cv"
    elif ovr:
        stage = "ovr"
        if "model" in args:
            exp.append(("load", True))
    elif "model" in args or "isometric_model" in args:
        exp.append(("load", True))
        stage = "transform" if "model" in args else "fit"
    else:
        stage = "fit"
    train, ev, dat = (k if k in tables and args.get("data") else None for k in ("train", "eval", "data"))
    rows, schema, flow = None, None, []

    def fl(x):
        exp.extend([("flow", task + "." + x)] if with_flow else [])
        return task + "." + x

    def out(kind, how, tag):
        return {k: [how, v, tag] if tag else [how, v] for k, v in tables[kind].collect()}
    same = None
    if args.get("data") is not None:
        if not run_:
            same = tables.get(dat) if dat else None
        elif stage == "cv":
            exp.append(("cv", train))
        elif stage == "ovr":
            if train:
                exp += [("ovr_fit", "train"), ("ovr_predict", "train")]
                rows = {} if "ovr_predict" in nothing or only_train_nothing else out("train", "ovr", "train")
                if ev:
                    exp.append(("ovr_predict", "eval"))
                    if "ovr_predict" not in nothing:
                        rows.update(out("eval", "ovr", "validation"))
                schema = "train"
            elif ev:
                exp.append(("ovr_predict", "eval"))
                rows = {} if "ovr_predict" in nothing else out("eval", "ovr", "test")
                schema = "eval"
        elif train:
            exp.append(("fit", "train", fl("train")))
            exp.append(("predict", "train", fl("predict")))
            rows = {} if "predict" in nothing or only_train_nothing else out("train", "predict", "train")
            if ev:
                exp.append(("predict", "eval", fl("validate")))
                if "predict" not in nothing and not only_eval_nothing:
                    rows.update(out("eval", "predict", "validation"))
            schema = "train"
        elif ev:
            exp.append(("predict", "eval", fl("predict")))
            rows = {} if "predict" in nothing or only_eval_nothing else out("eval", "predict", "test")
            schema = "eval"
        elif stage == "fit":
            exp.append(("fit", dat, fl("fit")))
            rows = out("data", "fit", None) if dat else None
        else:
            exp.append(("transform", dat, fl("transform")))
            rows = out("data", "transform", None) if dat else None
    mon.state(stage, train, ev, dat, run_, with_flow, sorted(nothing), only_train_nothing)
    # flow ids are part of the calls they precede; order matters
    check(calls == exp, "dispatch", "%s made the calls %r, expected %r", what, calls, exp)
    got = m.save_data()
    if args.get("data") is not None and not run_:      # no data, no output: an earlier run's would pass for it
        check(got is same, "not-run", "%s: a component that need not run does not hand its data through", what)
        return
    if not rows:
        # a run without output of its own is not said to drop that of a run before it
        check(got is None or got is stale, "output", "%s: output %r where there is none", what, got)
        return
    check(got is not None and dict(got.collect()) == rows, "output", "%s: output rows %r, expected %r", what, got and dict(got.collect()), rows)
    if schema:
        check(got.schema.get("header") == ["label", "predict_result", "predict_score", "predict_detail", "type"] and got.schema.get("sid_name") == "sid-" + schema, "schema", "%s: output schema %r", what, got.schema)
    for kind, t in tables.items():
        check(all(isinstance(v, int) for _, v in t.collect()), "input", "%s changed its input data", what)


def metrics(r, mon):
    """What a component reports to its tracker: the metric's name, marked with the fold under cross validation, and the data as given."""
    from ml.model_base import ModelBase

    class Track:
        def __init__(self):
            self.log = []

        def set_metric_meta(self, metric_name, metric_namespace, metric_meta):
            self.log.append(("meta", metric_name, metric_namespace, metric_meta))

        def log_metric_data(self, metric_name, metric_namespace, metrics):
            self.log.append(("data", metric_name, metric_namespace, metrics))

    class Meta:
        def __init__(self):
            self.d = {}

        def update_metas(self, d):
            self.d.update(d)
    m, t = ModelBase(), Track()
    mon.count("metrics")
    m.set_tracker(t)
    m.need_cv = r.random() < .5
    fold = r.choice([0, 1, 7])
    m.set_cv_fold(fold)
    task, flow = r.choice(["", "job"]), r.choice(["train", 0, "0.validate", "a.b.c"])
    m.set_taskid(task)
    m.set_flowid(flow)
    name, space, data, meta = r.choice(["loss", "auc", "a.b"]), r.choice(["train", "n"]), [r.random()], Meta()
    m.callback_meta(name, space, meta)
    m.callback_metric(name, space, data)
    full = "%s.%d" % (name, fold) if m.need_cv else name
    mon.check(t.log == [("meta", full, space, meta), ("data", full, space, data)], "metric", "metric %r of %r, fold %r (cv %r) was reported as %r", name, space, fold, m.need_cv, t.log)
    mon.check(meta.d == {"curve_name": str(flow) if m.need_cv else name}, "metric", "the curve of metric %r in flow %r (cv %r) is called %r", name, m.flowid, m.need_cv, meta.d)
    mon.check(m.get_metric_name(name) == ("%s_%s.%s" % (name, task, flow) if m.need_cv else name), "metric", "metric %r in flow %r is named %r", name, m.flowid, m.get_metric_name(name))
    m.model_output = out = {"Meta": 1}
    mon.check(m.export_model() is out and m.save_data() is None, "export", "export_model gives %r", m.export_model())
