"""Generators: a case is a JSON-able dict that fully determines a federated session."""
import random

VALUE_STYLES = ["gauss", "int", "sparse", "dup", "skew", "neg", "const", "tiny", "big", "binary", "linear"]


def column(r, n, style=None):
    s = style or r.choice(VALUE_STYLES)
    if s == "gauss":
        return [r.gauss(0, 1) for _ in range(n)]
    if s == "int":
        return [float(r.randint(-3, 6)) for _ in range(n)]
    if s == "sparse":
        return [0.0 if r.random() < 0.6 else r.gauss(0, 2) for _ in range(n)]
    if s == "dup":
        pool = [r.uniform(-5, 5) for _ in range(r.randint(2, 5))]
        return [r.choice(pool) for _ in range(n)]
    if s == "skew":
        return [r.expovariate(0.5) ** 2 for _ in range(n)]
    if s == "neg":
        return [-abs(r.gauss(3, 2)) for _ in range(n)]
    if s == "const":
        c = r.choice([0.0, 1.0, -2.5])
        return [c] * n
    if s == "tiny":      # straddles the |x| < 1e-6 "sparse zero" rule, away from its edge
        pool = [0.0, 3e-7, -4e-7, 2e-6, -3e-6, 1e-3, -1e-3] if r.random() < .5 else [0.0, 0.0, 5e-5, -5e-5, 4e-4, -4e-4, -2e-3]
        return [r.choice(pool) for _ in range(n)]
    if s == "big":
        return [r.uniform(-1, 1) * 10 ** r.randint(3, 9) for _ in range(n)]
    if s == "binary":
        return [float(r.random() < 0.4) for _ in range(n)]
    if s == "linear":
        v = [i / 7.0 - n / 14.0 for i in range(n)]
        r.shuffle(v)
        return v
    raise ValueError(s)


def cousin(r, col):
    """The column with one or two pairs of neighbouring values exchanged."""
    col = list(col)
    for _ in range(r.randint(1, 2)):
        order = sorted(range(len(col)), key=lambda i: col[i])
        k = r.randrange(len(col) // 4, max(len(col) // 4 + 1, 3 * len(col) // 4 - 1))
        a, b = order[k], order[min(k + 1, len(col) - 1)]
        col[a], col[b] = col[b], col[a]
    return col


def table(r, n, nfeat, style=None):
    cols = [column(r, n, style) for _ in range(nfeat)]
    return [[c[i] for c in cols] for i in range(n)]


def signal(r, tables, n):
    """A noisy target that depends on features of several parties."""
    terms = []
    for t in tables:
        k = len(t[0])
        for _ in range(max(1, k // 2)):
            f = r.randrange(k)
            col = sorted(row[f] for row in t)
            thr = col[r.randrange(len(col))]
            terms.append((t, f, thr, r.choice([-1, 1]) * r.uniform(.5, 2)))
    out = []
    for i in range(n):
        out.append(sum(w if t[i][f] > thr else 0.0 for t, f, thr, w in terms) + r.gauss(0, .4))
    return out


def labels(r, kind, tables, n):
    s = signal(r, tables, n)
    if kind.startswith("reg"):
        if kind == "reg_pos":
            return [abs(v) + 0.1 for v in s]
        if kind == "reg_int":
            return [int(round(v * 3)) for v in s]
        if kind == "reg_tiny":
            e = r.choice([1e-4, 1e-5, 1e-6])
            return [v * e for v in s]
        return [round(v * 2, 3) if r.random() < .5 else v * 2 for v in s]
    k = {"bin": 2}.get(kind) or int(kind[5:])
    srt = sorted(s)
    cuts = [srt[min(n - 1, (j + 1) * n // k)] for j in range(k - 1)]
    y = [sum(v > c for c in cuts) for v in s]
    for j in range(k):         # every class occurs
        y[j % n] = j
    return y


def label_names(r, k):
    """How class labels are spelled; sorted order is the order of the classes."""
    opts = [list(range(k)), [str(i) for i in range(k)], [float(i) for i in range(k)],
            [2 * i - 1 for i in range(k)], ["c%d" % i for i in range(k)], [10 + i for i in range(k)],
            [9 + i for i in range(k)], [-9.5 * (k - i) for i in range(k)], sorted(["b", "A", "c", "Z", "aa", "10", "9"])[:k]]
    return r.choice([o for o in opts if len(o) == k])


def schedule(r, hostile=True):
    if not hostile:
        return dict(seed=r.getrandbits(32), frag="whole", capacity=None, quantum=.35, policy="random")
    return dict(seed=r.getrandbits(32), frag=r.choice(["whole", "mixed", "mixed", "small"]),
                capacity=r.choice([None, None, 65536, 6000]), quantum=r.choice([.02, .2, .6]),
                policy=r.choice(["random", "random", "starve"]))


def tame(cfg):
    """Unregularised Newton steps drive class probabilities to exactly 0 and 1, where there is no curvature left (0/0): only so many of them."""
    k = len(set(cfg["y"]))
    if cfg["task"] == "classification" and not cfg["tree"]["criterion_params"][0] and cfg["num_trees"] > (1 if k > 2 else 2):
        cfg["tree"]["criterion_params"] = [.1]
    return cfg


def session(r, n=None, hosts=None, task=None, **over):
    """A federated training + prediction session."""
    scale = r.random() if not n and not hosts else .5
    n = n or (r.randint(1, 6) if scale < .05 else r.randint(100, 220) if scale > .975 else r.randint(12, 48))
    nh = hosts or (r.randint(2, 5) if scale > .975 else r.choice([1, 1, 2, 2, 3]))
    gk, hks = r.randint(1, 4), [r.randint(1, 3) for _ in range(nh)]
    style = over.pop("style", None)
    gt = table(r, n, gk, style)
    hts = [table(r, n, k, style) for k in hks]
    if r.random() < .15 and not style:    # a feature held twice: ties across parties
        src = r.choice([gt] + hts)
        dst = r.choice(hts)
        if src is not dst:
            for a, b in zip(src, dst):
                b[0] = a[0]
    elif r.random() < .15 and not style:      # nearly the same column at two parties: gains that differ by little
        src, dst = (gt, r.choice(hts)) if r.random() < .5 else (r.choice(hts), gt)
        c = cousin(r, [a[-1] for a in src])
        for b, v in zip(dst, c):
            b[0] = v
    kind = task or r.choice(["bin", "bin", "multi3", "reg"])
    objective, oparams = "cross_entropy", None
    if kind.startswith("reg"):
        objective = over.pop("objective", None) or r.choice(["lse", "lse", "huber", "fair", "log_cosh", "lae"])
        if objective in ("huber", "fair"):
            oparams = [r.choice([.5, 1.0, 2.0, 5])]
        if objective == "tweedie":
            oparams = [1.5]
            kind = "reg_pos"
    if kind.startswith("multi") and not task and r.random() < .25:
        kind = r.choice(["multi4", "multi5", "multi11"])
    y = labels(r, kind, [gt] + hts, n)
    if kind == "reg" and not task and r.random() < .2:      # far outliers: little curvature
        for _ in range(r.randint(1, 2)):
            y[r.randrange(n)] = r.choice([-1, 1]) * r.choice([30., 50., 400.])
    if not kind.startswith("reg"):
        k = 2 if kind == "bin" else int(kind[5:])
        names = label_names(r, k)
        y = [names[v] for v in y]
        if kind == "bin" and not task and r.random() < .05:
            y = y[:1] * n         # a single class
    ridx = list(range(nh))
    if r.random() < .3:
        ridx = r.sample(range(0, 12), nh)
    elif 1 < nh <= 7 and r.random() < .2:      # numbers whose spellings begin alike
        ridx = r.sample([1, 10, 11, 12, 110, 2, 20], nh)
        ridx[0] = 1
        ridx[1] = r.choice([10, 11, 12])
        if len(set(ridx)) < nh:
            ridx = [1] + list(range(10, 9 + nh))
        r.shuffle(ridx)
    m = r.randint(1, 12)
    npred = r.choice([1, 1, 2])
    preds = []
    for _ in range(npred):
        m = r.randint(1, 14)
        pg, phs = table(r, m, gk, style), [table(r, m, k, style) for k in hks]
        for i in range(m):                # rows with values on and around training values
            if r.random() < .6:
                j = r.randrange(n)
                pg[i] = list(gt[j])
                for a, b in zip(phs, hts):
                    a[i] = list(b[j])
        preds.append(dict(guest=pg, hosts=phs, keys=keys(r, m)))
    cfg = dict(
        seed=r.getrandbits(40), task="regression" if kind.startswith("reg") else "classification",
        objective=objective, oparams=oparams, y=y, guest=gt, hosts=hts, ridx=ridx,
        keys=keys(r, n), order=r.random() < .3, preds=preds, sparse_in=r.random() < .15,
        predict_train=r.random() < .5,
        lr=r.choice([.1, .3, 1.0, 1.0, 1.4]), num_trees=r.choice([1, 2, 2, 3]), subsample=r.choice([1.0, 1.0, .8, .5]),
        stop=r.random() < .4, tol=r.choice([1e-4, 1e-2, .2]), bin_num=r.choice([2, 3, 5, 8, 32]),
        enc_mode=r.choice(["strict", "strict", "fast", "balance"]), enc_rate=r.choice([.3, .7]),
        key_len=512, threshold=r.choice([.5, .5, .3, .8, .97, 0, 1]),
        tree=dict(criterion_params=[r.choice([.1, 0.5, 1.0, 3])], max_depth=r.choice([1, 2, 3, 3, 4]),
                  min_sample_split=r.choice([2, 2, 5, 10]), min_impurity_split=r.choice([1e-3, 1e-2, .3]),
                  min_leaf_node=r.choice([1, 1, 2, 4]), max_split_nodes=r.choice([1, 2, 3, 65536]),
                  feature_importance_type=r.choice(["split", "gain"])),
        sched=schedule(r))
    if scale > .975:
        cfg["tree"].update(max_depth=r.randint(4, 7), min_impurity_split=1e-3, min_leaf_node=r.choice([1, 2]), max_split_nodes=r.choice([3, 5, 7, 65536]))
    if objective in ("lse", "lae", "cross_entropy") and not task and len(set(y)) > 1 and r.random() < .08:   # with one class there is no curvature
        cfg["tree"]["criterion_params"], cfg["lr"] = [0], min(cfg["lr"], 1.0)
    if kind.startswith("multi"):
        cfg["num_trees"] = min(cfg["num_trees"], 2)
    if kind == "multi11":
        cfg["num_trees"] = 1
        cfg["tree"]["max_depth"] = min(cfg["tree"]["max_depth"], 3)
    tree = over.pop("tree", None)
    cfg.update(over)
    if tree:
        cfg["tree"].update(tree)
    return tame(cfg)


def keys(r, n):
    """How rows are keyed: None = by position, as the command line does."""
    c = r.random()
    if c < .5:
        return None
    if c < .75:
        ks = ["id%03d" % i for i in range(n)]
    else:
        ks = [1000 + 7 * i for i in range(n)]
    r.shuffle(ks)
    return ks
