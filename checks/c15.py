"""C15: losses, their gradients and hessians, link functions and label checks are mutually consistent."""
import math

RULE = ("A case is a loss with a random parameter and random labels, scores, keys and row orders (moderate, extreme, zero and "
        "near-zero residuals). Gradients and hessians are compared with textbook formulas and with numeric derivatives of "
        "the library's own loss, the mean loss with a direct sum, initial scores with mean, median or zeros, links with "
        "their definition. Distinct by (loss, parameter, residual class).")
ASSUMPTIONS = ["least-absolute-error has hessian 1 by convention, softmax the diagonal of its hessian",
               "scores stay below 1e6 in size"]
NEED = {"gradients": 3000, "numeric": 500, "losses": 300, "inits": 200, "links": 2000, "label_checks": 200}
KINDS = ["sigmoid", "softmax", "lse", "lae", "huber", "fair", "log_cosh", "tweedie"]


def case(rng, i, tier):
    kind = KINDS[i % len(KINDS)]
    n = rng.choice([1, 2, 3, rng.randint(1, 12), rng.randint(1, 60)])
    k = rng.randint(3, 6)
    mag = rng.choice([.01, 1, 1, 10, 1000, 1e5]) if kind not in ("sigmoid", "softmax") else rng.choice([.01, 1, 1, 10, 40])
    if kind == "tweedie":
        mag = rng.choice([.01, 1, 3])
    if kind == "sigmoid":
        y = [rng.randint(0, 1) for _ in range(n)]
    elif kind == "softmax":
        y = [rng.randrange(k) for _ in range(n)]
    elif kind == "tweedie":
        y = [rng.choice([0.0, rng.expovariate(1)]) for _ in range(n)]
    else:
        if rng.random() < .06:
            n = rng.choice([rng.randint(60, 300), rng.randint(1001, 1400)])
        y = [rng.gauss(0, 1) * mag if rng.random() < .8 else float(rng.randint(-3, 3)) for _ in range(n)]
    f = []
    wide = rng.random() < .3
    param = rng.choice([.01, .3, 1.0, 2, 7.5, 100] * 2 + [None, 0, 1e-9, 1e-6, 1e-5, 1e-4, 1e-3]) if kind != "tweedie" else rng.choice([1.1, 1.5, 1.9])
    for j in range(n):
        if kind == "softmax":
            f.append([rng.gauss(0, 1) * mag for _ in range(k)] if rng.random() < .9 else [0.0] * k)
        elif kind in ("sigmoid", "tweedie"):
            f.append(rng.choice([0.0, rng.gauss(0, 1) * mag, rng.gauss(0, 1), rng.uniform(-700, 700) if wide else 0.0]) if kind == "sigmoid" else abs(rng.gauss(0, 1) * mag) + .01)
        else:
            f.append(y[j] + rng.choice([0.0, 0.0, rng.gauss(0, 1) * mag, rng.gauss(0, 1), 1e-3, -1e-3, 5e-7, rng.choice([-1, 1]) * mag * 3, rng.gauss(0, 3) * (param or 1e-6), rng.gauss(0, 3) * 10 ** rng.randint(-8, 0)]))
    return dict(kind=kind, y=y, f=f, param=param,
                keys=rng.choice([None, rng.sample(range(max(1000, n)), n)]), seed=rng.getrandbits(30), ext=rng.choice([0, 50, 709, 745, 1000, 1e5]),
                classes=rng.choice([1, 2, 5, 40, 999, 1000, 1001, 1500]) if rng.random() < .3 else rng.randint(1, 9))


def make(kind, param):
    from ml.loss import cross_entropy as ce, regression_loss as rl
    return {"sigmoid": lambda: ce.SigmoidBinaryCrossEntropyLoss(), "softmax": lambda: ce.SoftmaxCrossEntropyLoss(),
            "lse": lambda: rl.LeastSquaredErrorLoss(), "lae": lambda: rl.LeastAbsoluteErrorLoss(), "huber": lambda: rl.HuberLoss(param),
            "fair": lambda: rl.FairLoss(param), "log_cosh": lambda: rl.LogCoshLoss(), "tweedie": lambda: rl.TweedieLoss(param)}[kind]()


def run_case(cfg, mon):
    import random
    import numpy as np
    from computing.d_table import DTable
    from vrt.oracle import Loss, median_ok, sigmoid, softmax
    r = random.Random(cfg["seed"])
    check = mon.check
    kind, y, f, n = cfg["kind"], cfg["y"], cfg["f"], len(cfg["y"])
    L = make(kind, cfg["param"])
    if not cfg["param"] or cfg["param"] < 1e-6:      # left out or vanishing: the code's zero, 1e-6, stands in
        cfg = dict(cfg, param=1e-6)
    task = "classification" if kind in ("sigmoid", "softmax") else "regression"
    ref = Loss(dict(task=task, objective=kind, oparams=[cfg["param"]]), list(range(len(f[0]))) if kind == "softmax" else [0, 1])
    keys = cfg["keys"] or list(range(n))
    perm = r.sample(range(n), n)

    def lib_loss(ys, fs):
        """The mean loss as training computes it: labels and (linked) scores joined by key."""
        probs = [L.predict(np.array(v) if kind == "softmax" else np.array([v])) for v in fs]
        if kind == "lae":
            probs = [np.array([v]) for v in fs]
        yt = DTable(True, [(keys[j], ys[j]) for j in range(n)])
        pt = DTable(True, [(keys[j], probs[j]) for j in perm])
        v = L.compute_loss(yt, pt)
        return float(np.asarray(v).reshape(-1)[0])
    near = lambda a, b, tol=1e-9: abs(a - b) <= tol * (1 + abs(a) + abs(b)) or (math.isinf(a) and a == b)

    # gradients and hessians against the formulas, scalar and array forms, inputs untouched
    for j in range(n):
        mon.count("gradients")
        fj = np.array(f[j]) if kind == "softmax" else np.array([f[j]])
        p = L.predict(fj)
        keep = np.array(p, copy=True)
        g, h = L.compute_grad(y[j], p), L.compute_hess(y[j], p)
        check(np.array_equal(np.asarray(p), keep), "input-changed", "%s: computing the gradient changed the score", kind)
        g, h = np.asarray(g, dtype=float).reshape(-1), np.asarray(h, dtype=float).reshape(-1)
        check(g.shape == h.shape == fj.shape, "shape", "%s: gradient of shape %r for scores of shape %r", kind, g.shape, fj.shape)
        mon.state(kind, cfg["param"] if kind in ("huber", "fair", "tweedie") else 0, [0 if v == 0 else int(math.log10(abs(v) + 1e-12)) for v in (f[j] if kind == "softmax" else [f[j]])],
                  y[j] if task == "classification" else 0, round(float(g[0]), 3))
        if kind == "tweedie":
            continue
        want = ref.gh(y[j], list(fj))
        # residuals at the documented zero margin of the absolute loss may count either way
        for d, (wg, wh) in enumerate(want):
            check(math.isfinite(g[d]) and math.isfinite(h[d]), "finite", "%s(y=%r, f=%r): gradient %r, hessian %r", kind, y[j], f[j], g[d], h[d])
            check(near(g[d], wg), "gradient", "%s(param %r): gradient at y=%r, f=%r is %r, not %r", kind, cfg["param"], y[j], f[j], g[d], wg)
            # beyond that, to the precision of the number itself and not of 1
            top = wg + (d == y[j]) if kind == "softmax" else wg + y[j] if kind == "sigmoid" else 0
            check(abs(g[d] - wg) <= 1e-9 * abs(wg) + (1e-14 if task == "classification" and (top > .4 or wg < 0) else 1e-300), "gradient",
                  "%s(param %r): gradient at y=%r, f=%r is %r, not %r", kind, cfg["param"], y[j], f[j], g[d], wg)
            check(abs(h[d] - wh) <= 1e-9 * abs(wh) + (1e-14 if kind == "log_cosh" or top > .4 else 1e-300), "hessian",
                  "%s(param %r): hessian at y=%r, f=%r is %r, not %r", kind, cfg["param"], y[j], f[j], h[d], wh)
            check(near(h[d], wh), "hessian", "%s(param %r): hessian at y=%r, f=%r is %r, not %r", kind, cfg["param"], y[j], f[j], h[d], wh)
        if kind not in ("sigmoid", "softmax"):
            a, b = L.compute_grad(float(y[j]), float(f[j])), L.compute_hess(float(y[j]), float(f[j]))
            check(near(float(a), g[0]) and near(float(b), h[0]), "scalar", "%s: scalar and array forms differ at y=%r, f=%r", kind, y[j], f[j])

    if task == "regression":      # whole columns at once
        a, b = (np.asarray(v, dtype=float) for v in (L.compute_grad(np.array(y, dtype=float), np.array(f, dtype=float)),
                                                     L.compute_hess(np.array(y, dtype=float), np.array(f, dtype=float))))
        mon.count("columns")
        for j in range(n):
            p, q = float(L.compute_grad(float(y[j]), float(f[j]))), float(L.compute_hess(float(y[j]), float(f[j])))
            ga, ha = a.reshape(-1)[j if a.size > 1 else 0], b.reshape(-1)[j if b.size > 1 else 0]
            check(near(ga, p) and near(ha, q), "scalar", "%s: gradient and hessian of a column at y=%r, f=%r are %r and %r, of the single value %r and %r",
                  kind, y[j], f[j], ga, ha, p, q)

    # the gradient is the derivative of the library's own loss, the hessian of its gradient
    j = r.randrange(n)
    one = list(f)
    eps_ok = kind == "tweedie" or task == "classification" or abs(f[j] - y[j]) > 1e-3 or kind in ("lse", "log_cosh")
    scale = max([1.0] + [abs(x - z) if task == "regression" else 0 for x, z in zip(f, y)]) if task == "regression" else 1.0
    if eps_ok and scale < 1e3 and (task == "regression" or max(abs(x) for v in f for x in (v if kind == "softmax" else [v])) < 20):
        mon.count("numeric")
        eps = 1e-4 * (1 if kind not in ("huber", "fair") else min(1, cfg["param"]))
        d = r.randrange(len(f[j])) if kind == "softmax" else 0

        def shift(e):
            one = [list(v) if kind == "softmax" else v for v in f]
            if kind == "softmax":
                one[j][d] += e
            else:
                one[j] += e
            return one

        def grad_at(fs):
            p = L.predict(np.array(fs[j]) if kind == "softmax" else np.array([fs[j]]))
            return (float(np.asarray(L.compute_grad(y[j], p), dtype=float).reshape(-1)[d]), float(np.asarray(L.compute_hess(y[j], p), dtype=float).reshape(-1)[d]))
        num = (lib_loss(y, shift(eps)) - lib_loss(y, shift(-eps))) / (2 * eps) * n
        gp, gm = grad_at(shift(eps))[0], grad_at(shift(-eps))[0]
        g0, h0 = grad_at(f)
        noise = 1e-11 * (1 + abs(lib_loss(y, f))) * n / eps + 1e-6
        mech = "derivative"
        if kind == "tweedie":       # the finding on file is this one wrong pair of formulas and no other
            a, b, rho = math.exp(1 - cfg["param"]), math.exp(2 - cfg["param"]), cfg["param"]
            if near(g0, (b - y[j] * a) * f[j]) and near(h0, ((2 - rho) * b - y[j] * (1 - rho) * a) * f[j]) and near(
                    lib_loss(y, f), math.fsum((b / (2 - rho) - v * a / (1 - rho)) * math.log(max(x, 1e-6)) for v, x in zip(y, f)) / n):
                mech = "tweedie-derivative"
        smooth = 1e-3 * (1 + abs(g0)) if kind not in ("huber", "fair") else 1e-3 * (1 + abs(g0))
        check(abs(num - g0) <= noise + smooth, mech, "%s(param %r): the loss changes by %r per unit of score at y=%r, f=%r, the "
              "gradient says %r", kind, cfg["param"], num, y[j], f[j], g0)
        if kind not in ("lae", "tweedie"):
            check(abs((gp - gm) / (2 * eps) - h0) <= 1e-3 * (1 + abs(h0)), mech, "%s: the gradient changes by %r per unit at y=%r, f=%r, "
                  "the hessian says %r", kind, (gp - gm) / (2 * eps), y[j], f[j], h0)

    # the mean loss
    if kind != "tweedie":
        mon.count("losses")
        ls = [ref.loss(y[j], f[j] if kind == "softmax" else [f[j]]) for j in range(n)]
        if all(v is not None for v in ls) and (kind not in ("sigmoid", "softmax") or max(abs(x) for v in f for x in (v if kind == "softmax" else [v])) < 30):
            got = lib_loss(y, f)
            check(abs(got - math.fsum(ls) / n) <= 1e-7 * (1 + math.fsum(map(abs, ls)) / n), "loss", "%s(param %r): mean loss %r of %d rows, not %r",
                  kind, cfg["param"], got, n, math.fsum(ls) / n)
            if task == "regression":      # to the precision of the loss itself
                c = cfg["param"]
                slack = {"huber": 1e-12 * c * c, "fair": 1e-12 * max(c * abs(a - b) for a, b in zip(y, f)), "log_cosh": 1e-14}.get(kind, 0)
                check(abs(got - math.fsum(ls) / n) <= 1e-9 * math.fsum(map(abs, ls)) / n + slack + 1e-300, "loss", "%s(param %r): mean loss %r of %d rows, not %r",
                      kind, c, got, n, math.fsum(ls) / n)
    else:
        check(math.isfinite(lib_loss(y, f)), "loss", "tweedie loss is %r", lib_loss(y, f))

    # initial scores
    mon.count("inits")
    yt = DTable(True, [(keys[j], y[j]) for j in range(n)])
    t, v = L.initialize(yt, len(f[0])) if kind == "softmax" else L.initialize(yt)
    v = np.asarray(v, dtype=float)
    rows = dict(t.collect())
    check(set(rows) == set(keys), "init-rows", "initial scores for rows %r of %r", list(rows)[:4], keys[:4])
    want = np.zeros(len(f[0]) if kind == "softmax" else 1)
    if kind == "lae":
        check(median_ok(float(v[0]), y), "init", "lae starts at %r, the labels are %r", v, y[:6])
    elif task == "regression":
        want[0] = math.fsum(y) / n
        check(near(float(v[0]), want[0]), "init", "%s starts at %r, the mean label is %r", kind, v, want)
    else:
        check(np.array_equal(v, want), "init", "%s starts at %r", kind, v)
    check(all(np.array_equal(np.asarray(a, dtype=float), v) for a in rows.values()), "init", "rows start at different scores than %r", v)
    first = keys[0]
    rows[first] += 1
    check(all(np.array_equal(np.asarray(a, dtype=float), v) for k, a in rows.items() if k != first) and list(dict(yt.collect()).values()) == y,
          "init-shared", "rows share one score array")

    # links
    from ml.optim import activation
    for x in (f if kind == "sigmoid" else [r.gauss(0, 5), float(cfg["ext"]), -float(cfg["ext"])]):
        if kind == "softmax":
            break
        mon.count("links")
        s = float(activation.sigmoid(x))
        check(0 <= s <= 1 and near(s, sigmoid(x), 1e-12), "sigmoid", "sigmoid(%r) = %r", x, s)
        check(near(s + float(activation.sigmoid(-x)), 1), "sigmoid", "sigmoid(%r) and sigmoid(-%r) do not add up to 1", x, x)
        sp = float(activation.softplus(x))
        check(near(sp, max(x, 0) + math.log1p(math.exp(-abs(x)))), "softplus", "softplus(%r) = %r", x, sp)
        ll = float(activation.log_logistic(x))
        check(near(ll, -(max(-x, 0) + math.log1p(math.exp(-abs(x))))), "log_logistic", "log_logistic(%r) = %r", x, ll)
        check(near(float(activation.tanh(x)), math.tanh(x)) and near(float(activation.softsign(x)), x / (1 + abs(x))) and
              near(float(activation.hard_sigmoid(x)), min(1, max(0, .2 * x + .5))), "activation", "an activation is wrong at %r", x)
    if kind == "softmax":
        for v in f + [[cfg["ext"] * c for c in (1, -1, 0)], [1e4 + 1, 1e4, 1e4]]:
            mon.count("links")
            keep = np.array(v, dtype=float)
            p = np.asarray(activation.softmax(keep))
            check(np.all(np.isfinite(p)) and near(float(p.sum()), 1) and all(near(float(a), b) for a, b in zip(p, softmax(v))), "softmax", "softmax(%r) = %r", v, p)
        m = np.array(f, dtype=float)
        p = activation.softmax(m, axis=1)
        check(all(near(float(a), b) for row, v in zip(p, f) for a, b in zip(row, softmax(v))), "softmax", "softmax along rows is wrong")
        q = np.asarray(activation.softmax(m, axis=0))
        check(all(near(float(a), b) for d in range(m.shape[1]) for a, b in zip(q[:, d], softmax(list(m[:, d])))), "softmax", "softmax along columns of %r is %r", m, q)
        wild = [[r.gauss(0, 3) + o for _ in range(r.randint(2, 2))] for o in r.sample([0, 5, -900, 1e3, -1e4, 3e4], 3)]
        for axis in (-1, 1):
            mon.count("links")
            p = np.asarray(activation.softmax(np.array(wild), axis=axis))
            check(all(near(float(a), b, 1e-7) for row, v in zip(p, wild) for a, b in zip(row, softmax(v))), "softmax",
                  "softmax of %r along axis %d is %r", wild, axis, p)

    # labels
    from ml.utils.classfiy_label_checker import ClassifyLabelChecker, RegressionLabelChecker
    c = cfg["classes"]
    names = [("c%d" % a if r.random() < .5 else a) for a in range(c)]
    odd = ["", " ", -1, 1.5, "0", "None", "c0 ", (1, 2), b"", float("inf")]
    if c < 600 and r.random() < .5:
        for j, o in enumerate(r.sample(odd, min(len(odd), c, r.randint(1, 4)))):
            names[j] = o
        c = len(set(names))
        names = list(set(names))
    if r.random() < .2:       # numbers that differ late
        names = [.1 + j * r.choice([1e-7, 1e-9, 3e-13]) for j in range(min(c, 50))] if r.random() < .5 else [10 ** 7 + j / 8 for j in range(min(c, 50))]
        c = len(set(names))
        names = list(set(names))
    labs = names + [r.choice(names) for _ in range(r.randint(0, 9))]
    r.shuffle(labs)
    mon.count("label_checks")
    try:
        num, seen = ClassifyLabelChecker.validate_y(DTable(False, labs))
        check(c <= 1000, "classes", "%d classes were accepted", c)
        check(num == c and sorted(map(str, seen)) == sorted(map(str, names)), "classes", "%d classes were counted as %r", c, num)
    except ValueError:
        check(c > 1000, "classes", "%d classes were refused", c)
    good = [r.choice([1, 2.5, "3", "-4e2", np.float64(1)]) for _ in range(4)]
    RegressionLabelChecker.validate_y(DTable(False, good))
    try:
        RegressionLabelChecker.validate_y(DTable(False, good + [r.choice(["x", None, [], "1,2"])]))
    except ValueError:
        pass
    else:
        mon.fail("labels", "a label that is no number was accepted for regression")
    mon.sample = dict(loss=kind, param=cfg["param"], labels=y[:3], scores=f[:3], loss_value=lib_loss(y, f))
