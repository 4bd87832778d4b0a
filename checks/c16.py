"""C16: parameters accept exactly the documented values; configurations override exactly what they name."""
import copy
import importlib

RULE = ("A case draws a parameter class, valid random values for all its documented fields (nested objects included) and random "
        "letter case: check() must accept them, normalise the case and change nothing else. Then one field gets one invalid "
        "value (wrong type, out of range, unknown name): check() must raise. A random nested configuration with unknown keys "
        "and other sections is parsed and every field compared. Distinct by (class, field, value kind, verdict).")
ASSUMPTIONS = ["where docstring and code differ in type only (num_trees float) no value of the disputed type is tried"]
NEED = {"accepted": 200, "rejected": 1500, "parsed": 200, "independent": 200, "fields_parsed": 300, "deep": 60, "helpers": 1000}
THOROUGH_S = 300

CASE = ["lower", "upper", "title", "swapcase", "str"]
BAD_TYPES = [None, "1", [1], {"a": 1}, [], (1,)]
MODS = {"DecisionTreeParam": "boosting_tree_param", "ObjectiveParam": "boosting_tree_param", "BoostingTreeParam": "boosting_tree_param",
        "EncryptParam": "encrypt_param", "EncryptedModeCalculatorParam": "encrypted_mode_calculation_param", "PredictParam": "predict_param",
        "FeatureBinningParam": "feature_binning_param", "TransformParam": "feature_binning_param",
        "CrossValidationParam": "cross_validation_param", "EvaluateParam": "evaluation_param"}
NESTED = {"BoostingTreeParam": {"tree_param": "DecisionTreeParam", "objective_param": "ObjectiveParam", "encrypt_param": "EncryptParam",
                                "encrypted_mode_calculator_param": "EncryptedModeCalculatorParam", "predict_param": "PredictParam"}}


def spell(r, s):
    k = r.choice(CASE)
    return s if k == "str" else getattr(s, k)()


DEFAULTS = {
    "DecisionTreeParam": dict(criterion_method="xgboost", criterion_params=[.1], max_depth=5, min_sample_split=2, min_impurity_split=1e-3, min_leaf_node=1,
                              max_split_nodes=65536, n_iter_no_change=True, feature_importance_type="split", tol=.001),
    "ObjectiveParam": dict(params=None),
    "BoostingTreeParam": dict(task_type="classification", learning_rate=.3, num_trees=5, subsample_feature_rate=.8, n_iter_no_change=True, bin_num=32),
    "EncryptParam": dict(method="Paillier", key_length=1024), "EncryptedModeCalculatorParam": dict(mode="strict", re_encrypted_rate=1),
    "PredictParam": dict(with_proba=True, threshold=.5), "EvaluateParam": dict(eval_type="binary", pos_label=1),
    "FeatureBinningParam": dict(method="quantile", compress_thres=10000, head_size=10000, error=.001, bin_num=10, cols=-1, adjustment_factor=.5, local_only=False),
    "TransformParam": dict(transform_cols=-1), "CrossValidationParam": dict(n_splits=5, shuffle=True, random_seed=1)}


def integer(lo, hi=100):
    return (lambda r: r.choice([lo, lo + 1, r.randint(lo, hi), 10 ** 6]),
            lambda r: r.choice(BAD_TYPES + [lo - 1, lo - 1, -r.randint(1, 99), 1.5, float(lo), True, "5"]))


ANYINT = (lambda r: r.randint(0, 50), lambda r: r.choice(BAD_TYPES + [2.0, .5, True, "2"]))
NUM = (lambda r: r.choice([0, 1, .5, 1e-3, 2.5, 7]), lambda r: r.choice(BAD_TYPES + [True, False, "0.1"]))
BOOL = (lambda r: r.random() < .5, lambda r: r.choice([None, 0, 1, "True", 0.0, []]))


def names(opts, exact=False, none=False):
    bad = lambda r: r.choice([r.choice(opts) + "x", "", " " + opts[0], opts[0][:-1], "no such"] + ([1, ["x"], True, 2.5] if not exact or True else []) +
                             ([] if none else [None]) + ([opts[0].upper(), opts[0].title()] if exact else []))
    return (lambda r: r.choice(opts) if exact else spell(r, r.choice(opts))), bad


def fields(cls, ctx):
    """field -> (valid, invalid[, normalised])"""
    if cls == "DecisionTreeParam":
        return dict(criterion_method=names(["xgboost"]) + (str.lower,),
                    criterion_params=(lambda r: [r.choice([.1, 0, 1, 2.5])] + r.choice([[], [1], ["x"]]), lambda r: r.choice([None, [], .1, "0.1", ["0.1"], [None], (0.1,), [True], [[1]], {"a": 1}])),
                    max_depth=integer(1), min_sample_split=ANYINT, min_impurity_split=NUM, min_leaf_node=ANYINT, max_split_nodes=integer(1),
                    n_iter_no_change=BOOL, tol=NUM, feature_importance_type=names(["split", "gain"]) + (str.lower,))
    if cls == "ObjectiveParam":
        task = ctx["task"]
        if task == "classification":
            return dict(objective=names(["cross_entropy"], exact=True, none=True)[:1] +
                        (lambda r: r.choice(["lse", "lae", "huber", "fair", "log_cosh", "tweedie", "", "entropy", 1, ["cross_entropy"]]),))
        o = ctx["objective"]
        d = dict(objective=(lambda r: spell(r, o), lambda r: r.choice(["cross_entropy", "mse", "", "lse ", 3, [o], "l1", True]), str.lower))
        if o in ("huber", "fair"):
            d["params"] = (lambda r: [r.choice([1e-3, .5, 1, 3, 1000])], lambda r: r.choice([None, [], 1.0, "1", ["1"], [0], [0.0], [-1], [-.5], (1,), [None], [True]]))
        if o == "tweedie":
            d["params"] = (lambda r: [r.choice([1, 1.0, 1.5, 1.999, 1.0001])], lambda r: r.choice([None, [], 1.5, ["1.5"], [2], [2.0], [.999], [0], [-1], [2.5], [100], [True]]))
        return d
    if cls == "EncryptParam":
        return dict(method=(lambda r: r.choice([None, spell(r, "paillier"), "Plain", "affine"]), lambda r: r.choice([1, ["Paillier"], True, 2.0]),
                            lambda v: "Paillier" if isinstance(v, str) and v.lower() == "paillier" else v),
                    key_length=(lambda r: r.choice([1, 128, 512, 1024, 2048]), lambda r: r.choice([0, -1, -1024, 1024.0, "1024", None, True, [1024]])))
    if cls == "EncryptedModeCalculatorParam":
        d = dict(mode=names(["strict", "fast", "balance"])[:2] + (str.lower,))
        if ctx["mode"] == "balance":
            d["mode"] = (lambda r: spell(r, "balance"), d["mode"][1], str.lower)
            d["re_encrypted_rate"] = NUM
        return d
    if cls == "PredictParam":
        return dict(with_proba=BOOL, threshold=(lambda r: r.choice([.5, 0, 1, .1, .999]), lambda r: r.choice([None, "0.5", [.5], True, {}])))
    if cls == "FeatureBinningParam":
        return dict(method=names(["quantile"])[:2] + (str.lower,), compress_thres=integer(1), head_size=integer(1), bin_num=integer(1),
                    error=(lambda r: r.choice([0.0, .001, .1, .99]), lambda r: r.choice(BAD_TYPES + [-.001, -1.0, 1.001, 2.0, True, "0.1"])),
                    cols=(lambda r: r.choice([-1, 0, 3, [], [0], [2, 1]]), lambda r: r.choice([None, "1", 1.0, (1, 2), {"a": 1}, True])),
                    adjustment_factor=(lambda r: r.choice([.5, .001, .999]), lambda r: r.choice(BAD_TYPES + [0.0, 1.0, 0, 1, -.5, 1.5])))
    if cls == "TransformParam":
        return dict(transform_cols=(lambda r: r.choice([-1, None, [], [1, 2]]), lambda r: r.choice([0, 3, "1", 1.5, (1,), {"a": 1}])),
                    transform_type=(lambda r: r.choice(["bin_num", None]), lambda r: r.choice(["bin", "woe", "", 1, "BIN_NUM", True])))
    if cls == "CrossValidationParam":
        return dict(n_splits=integer(1), random_seed=integer(1), mode=names(["homo", "hetero"], exact=True), role=names(["host", "guest", "arbiter"], exact=True),
                    shuffle=BOOL)
    if cls == "EvaluateParam":
        return dict(eval_type=names(["binary", "multi", "regression"])[:2] + (str.lower,),
                    pos_label=(lambda r: r.choice([0, 1, -1, "yes", .5]), lambda r: r.choice([None, [1], True, {}, (1,)])))
    return dict(task_type=(lambda r: ctx["task"], lambda r: r.choice(["Classification", "REGRESSION", "rank", "", None, 1, ["classification"]])),
                learning_rate=NUM, num_trees=(integer(1)[0], lambda r: r.choice(BAD_TYPES + [0, -1, True, "5", 1.5])),
                subsample_feature_rate=(lambda r: r.choice([0, 1, .5, 0.0, 1.0, .8]), lambda r: r.choice(BAD_TYPES + [-.01, 1.01, 2, -1, True, "0.5"])),
                n_iter_no_change=BOOL, tol=NUM, bin_num=integer(2))


def case(rng, i, tier):
    return dict(cls=list(MODS)[i % len(MODS)], seed=rng.getrandbits(40))


def get(cls):
    return getattr(importlib.import_module("ml.param." + MODS[cls]), cls)


def snap(o):
    """Everything an object holds, nested parameter objects included."""
    if hasattr(o, "__dict__") and type(o).__name__.endswith("Param"):
        return {k: snap(v) for k, v in vars(o).items()}
    return copy.deepcopy(o)


def kind(v):
    return (type(v).__name__, repr(v)[:12])


def build(r, cls, ctx):
    """An object with valid random documented values, the expected state after check(), and every field path with an invalid maker."""
    o = get(cls)()
    if cls == "ObjectiveParam" and ctx["task"] == "regression":
        o.objective = ctx["objective"]
    want, bad = {}, []
    for f, spec in fields(cls, ctx).items():
        v = spec[0](r)
        setattr(o, f, copy.deepcopy(v))
        want[f] = spec[2](v) if len(spec) > 2 else v
        bad.append(((f,), spec[1]))
    full = snap(o)
    full.update(want)
    for f, sub in NESTED.get(cls, {}).items():
        so, sfull, sbad = build(r, sub, ctx)
        setattr(o, f, so)
        full[f] = sfull
        bad += [((f,) + p, m) for p, m in sbad]
    return o, full, bad


def run_case(cfg, mon):
    import random
    r = random.Random(cfg["seed"])
    cls = cfg["cls"]
    check = mon.check
    ctx = dict(task=r.choice(["classification", "regression"]), objective=r.choice(["lse", "lae", "huber", "fair", "log_cosh", "tweedie"]),
               mode=r.choice(["balance", "any"]))
    call = lambda o: o.check(ctx["task"]) if cls == "ObjectiveParam" else o.check()
    d0 = snap(get(cls)())

    for f, v in DEFAULTS[cls].items():
        check(d0[f] == v, "default", "%s.%s is %r by default, documented is %r", cls, f, d0[f], v)

    # the defaults and any combination of documented values are accepted
    if cls != "ObjectiveParam" or ctx["task"] == "classification":     # its default objective is a classification one
        d = get(cls)()
        call(d)
        low = lambda v: {k: low(x) for k, x in v.items()} if isinstance(v, dict) else v.lower() if isinstance(v, str) else v
        check(low(snap(d)) == low(d0), "changed", "%s: checking the defaults changed them from %r to %r", cls, d0, snap(d))
    for _ in range(8):
        o, want, bad = build(r, cls, ctx)
        before = snap(o)
        try:
            call(o)
        except Exception as e:  # noqa
            mon.fail("rejects-valid", "%s.check() rejects documented values %r: %r", cls, before, e)
        mon.count("accepted")
        check(snap(o) == want and repr(snap(o)) == repr(want), "changed", "%s.check() turned %r into %r, expected %r", cls, before, snap(o), want)
        call(o)
        check(snap(o) == want, "changed", "%s: a second check() changed the values", cls)
        # one invalid field at a time
        for _ in range(6):
            path, make = bad[r.randrange(len(bad))]
            v = make(r)
            o2 = copy.deepcopy(o)
            t = o2
            for p in path[:-1]:
                t = getattr(t, p)
            setattr(t, path[-1], copy.deepcopy(v))
            mon.count("rejected")
            mon.state(cls, path, kind(v), ctx["task"] if "objective" in path[-1] else 0)
            try:
                call(o2)
            except (ValueError, TypeError):
                continue
            mon.fail("accepts-invalid", "%s.check() accepts %s = %r (task %s, objective %s)", cls, ".".join(path), v, ctx["task"],
                     ctx["objective"])
        for path, make in bad:
            mon.state(cls, path)

    # objects do not share their defaults, with each other or with what was passed in
    for _ in range(8):
        a, b = get(cls)(), get(cls)()
        sb = snap(b)
        scribble(r, a)
        mon.count("independent")
        check(snap(b) == sb, "shared", "%s: changing one object changed another from %r to %r", cls, sb, snap(b))
        check(snap(get(cls)()) == d0, "shared", "%s: changing one object changed the defaults of new ones", cls)
    for f in NESTED.get(cls, {}):
        sub = get(NESTED[cls][f])()
        o = get(cls)(**{f: sub})
        so = snap(o)
        scribble(r, sub)
        check(snap(o) == so, "shared", "%s: changing the %s passed in changed it later", cls, f)

    # configuration parsing
    from ml.utils.param_extract import ParamExtract
    for _ in range(8):
        o = build(r, cls, ctx)[0] if r.random() < .5 else get(cls)()
        want = snap(o)
        section = override(r, want, o, mon, (cls,))
        conf = {cls: section}
        for k in r.sample(list(MODS) + ["unknown", "Dummy"], 3):
            if k != cls:
                conf[k] = {f: "intruder" for f in list(want)[:2]}
        if r.random() < .15:
            conf.pop(cls)
            want = snap(o)
        keep = copy.deepcopy(conf)
        res = ParamExtract().parse_param_from_config(o, conf)
        mon.count("parsed")
        check(type(res).__name__ == cls and snap(res) == want and repr(snap(res)) == repr(want), "parse", "configuration %r gave %r, expected %r", keep, snap(res), want)
        check(conf == keep, "parse-input", "parsing changed the configuration from %r to %r", keep, conf)
    for junk in (None, [], "x", 3, [("a", 1)]):
        try:
            ParamExtract().parse_param_from_config(get(cls)(), junk)
        except Exception:  # noqa
            continue
        mon.fail("junk", "a configuration %r was accepted", junk)

    # fields that hold containers are replaced as they are, in any class
    for _ in range(4):
        box = Box()
        want = snap(vars(box))
        sec = {f: copy.deepcopy(r.choice([{}, {"a": 5}, {"b": 2, "c": [3]}, [], [9], (1, 2), 7, None, "s", {1: 2}, 1.5, {"a": {}}])) for f in r.sample(sorted(want) + ["q"], r.randint(1, 5))}
        conf = {"Box": sec}
        keep = copy.deepcopy(conf)
        res = ParamExtract().parse_param_from_config(box, conf)
        mon.count("parsed")
        want.update({f: v for f, v in keep["Box"].items() if f != "q"})
        mon.state("box", sorted((f, kind(v)) for f, v in sec.items()))
        check(res is box and vars(box) == want and repr(vars(box)) == repr(want), "parse", "configuration %r gave %r, expected %r", keep, vars(box), want)
        check(conf == keep and repr(conf) == repr(keep), "parse-input", "parsing changed the configuration from %r to %r", keep, conf)

    helpers(r, mon)
    # without a task, any known objective will do; with no objective nothing is checked
    P = get("ObjectiveParam")
    for o, ok in [(spell(r, x), True) for x in ["cross_entropy", "lse", "lae", "huber", "fair", "log_cosh", "tweedie"]] + [(x, False) for x in ("mse", "", 3, ["lse"])]:
        d = P(objective=o)
        mon.count("accepted" if ok else "rejected")
        try:
            d.check()
        except ValueError:
            check(not ok, "rejects-valid", "ObjectiveParam.check() without a task rejects %r", o)
            continue
        check(ok and d.objective == o.lower() and d.params is None, "accepts-invalid", "ObjectiveParam.check() without a task turns %r into %r", o, d.objective)
    for t in ("classification", "regression", None):
        d = P(objective=None)
        d.check(t)
        check(d.objective is None, "changed", "an objective of None became %r", d.objective)

    # nesting: 5 levels below the section are parsed, deeper ones refused
    for depth in range(8):
        mon.count("deep")
        root, conf = chain(depth, bare=True)
        try:
            ParamExtract().parse_param_from_config(root, {"Nest": conf})
        except Exception:  # noqa
            check(depth > 5, "depth", "a configuration nested %d deep, empty at the bottom, was refused", depth)
        else:
            check(depth <= 5, "depth", "a configuration nested %d deep, empty at the bottom, was accepted", depth)
        root, conf = chain(depth)
        try:
            res = ParamExtract().parse_param_from_config(root, {"Nest": conf})
        except Exception:  # noqa
            check(depth > 5, "depth", "a configuration nested %d deep was refused", depth)
            continue
        check(depth <= 5, "depth", "a configuration nested %d deep was accepted", depth)
        for k in range(depth + 1):
            held = {f: getattr(res, f) for f in level(k)}
            check(res.x == k and res.y == -1 and repr(held) == repr(level(k)), "parse", "level %d of a nested configuration holds %r and %r, "
                  "configured %r", k, res.x, held, level(k))
            res = res.sub
    mon.sample = dict(cls=cls, task=ctx["task"], defaults=repr(d0)[:400])


VALUES = [None, True, False, 0, 1, -1, 5, 10 ** 9, 0.0, 1.0, .5, -.5, 1e-9, 1.0000001, 2.5, "", "a", "A", "ab", "1", [], [1], (), {}, b"a"]


def helpers(r, mon):
    """The building blocks of every check: each accepts its kind of value and raises ValueError for all others."""
    from ml.param.base_param import BaseParam
    num = lambda v: type(v) in (int, float)
    opts = r.choice([["a", "ab"], [1, 2, .5], ["", None], [True]])
    low = r.choice([["a", "ab"], ["1", "x y"], []])
    types = r.choice([["int"], ["float", "int"], ["NoneType", "str"], ["bool", "list", "dict"], []])
    spec = [("check_string", lambda v: type(v) is str, ()), ("check_positive_integer", lambda v: type(v) is int and v > 0, ()),
            ("check_positive_number", lambda v: num(v) and v > 0, ()), ("check_decimal_float", lambda v: type(v) is float and 0 <= v <= 1, ()),
            ("check_boolean", lambda v: type(v) is bool, ()), ("check_open_unit_interval", lambda v: type(v) is float and 0 < v < 1, ()),
            ("check_valid_value", lambda v: v in opts, (opts,)), ("check_defined_type", lambda v: type(v).__name__ in types, (types,))]
    b = BaseParam()
    for name, ok, extra in spec:
        for v in VALUES:
            mon.count("helpers")
            try:
                getattr(b, name)(copy.deepcopy(v), "p's", *extra)
            except ValueError:
                mon.check(not ok(v), "helper", "%s%r rejects %r", name, extra, v)
                continue
            mon.check(ok(v), "helper", "%s%r accepts %r", name, extra, v)
    for v in VALUES:
        for k in (str.lower, str.upper) if type(v) is str else (lambda x: x,):
            mon.count("helpers")
            w = k(v)
            try:
                got = b.check_and_change_lower(w, low, "p's")
            except ValueError:
                mon.check(not (type(w) is str and w.lower() in low), "helper", "check_and_change_lower(%r, %r) raises", w, low)
                continue
            mon.check(type(w) is str and w.lower() in low and got == w.lower(), "helper", "check_and_change_lower(%r, %r) gives %r", w, low, got)
    try:
        b.check()
    except NotImplementedError:
        return
    mon.fail("helper", "a parameter class without a check passes it")


class Box:
    def __init__(self):
        self.d, self.e, self.l, self.t, self.s, self.n, self.f, self.z, self.st = {"a": 1}, {}, [1, 2], (3,), "x", None, .5, 0, {1, 2}


class Nest:
    def __init__(self, sub):
        self.x, self.y, self.sub = -1, -1, sub
        self.none, self.flag, self.real, self.text, self.items, self.map = None, True, .5, "t", [1], {"a": 1}


def level(k):
    return {"none": ["n", k, None, {"k": k}][k % 4], "flag": bool(k % 2), "real": [None, k, .1 * k][k % 3], "text": ["", None, "u"][k % 3],
            "items": [None, [k], []][k % 3], "map": [{}, {"b": k}, None, {"a": {}}][k % 4]}


def chain(depth, bare=False):
    o, c = Nest(None), {} if bare else {"x": depth, **level(depth)}
    for k in range(depth - 1, -1, -1):
        o, c = Nest(o), {"sub": c} if bare else {"x": k, "sub": c, "zzz": 5, **level(k)}
    return o, c


def scribble(r, o):
    for k, v in list(vars(o).items()):
        if hasattr(v, "__dict__"):
            scribble(r, v)
        elif isinstance(v, list):
            v.append("scribble")
            if v:
                v[0] = "scribble"
        else:
            setattr(o, k, "scribble")


def override(r, want, o, mon, path):
    sec = {}
    for f in list(want):
        if r.random() < .5:
            continue
        sub = getattr(o, f)
        if hasattr(sub, "__dict__"):
            sec[f] = override(r, want[f], sub, mon, path + (f,))
        else:
            sec[f] = r.choice([None, 0, 1, "abc", [1, 2], 3.5, True, False, "", {"a": 1}, []])
            want[f] = copy.deepcopy(sec[f])
            mon.count("fields_parsed")
            mon.state("parse", path, f, kind(sec[f]))
    for k in r.sample(["unknown", "sub_param", "learning rate", "Max_Depth"], r.randint(0, 3)):
        sec[k] = r.choice([1, {"max_depth": 3}, None])
    return sec
