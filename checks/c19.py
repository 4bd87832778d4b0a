"""C19: column statistics and the vector helpers are what their names say."""
import bisect
import math
from fractions import Fraction

RULE = ("A case is a random table (instances or plain rows, extreme and tied values, listed abnormal values, chosen columns) asked for "
        "mean, variance, deviation, extremes, median and quantiles in random order; the same rows in chunks whose statistics are merged in "
        "random order; and random calls of the vector helpers. Everything is compared with exact rational arithmetic. Distinct by data.")
ASSUMPTIONS = ["values are finite and below 1e150 in size", "variances below 1e-6 are reported as 0", "dot() ignores entries below 1e-5 (none are used near it)",
               "a quantile's rank may be off by the documented 2*error*N"]
NEED = {"refused": 100, "vectors": 100, "columns": 300, "merged": 300, "quantiles": 1000, "medians": 200, "dots": 300, "adds": 300, "norms": 300, "empty": 50, "texts": 20}
SKIPS = [-999.25, "NA", None]


def col(rng, n):
    s = rng.choice(["gauss", "int", "const", "big", "shift", "dup", "neg", "tiny", "mixed"])
    c = rng.choice([0.0, 5.0, -3.25, 1e6])
    return [{"gauss": lambda: rng.gauss(0, 1), "int": lambda: rng.randint(-5, 9), "const": lambda: c, "big": lambda: rng.gauss(0, 1) * 10 ** rng.randint(0, 15),
             "shift": lambda: 1e4 + rng.gauss(0, 1), "dup": lambda: rng.choice([1.5, -2.0, 7]), "neg": lambda: -rng.expovariate(1),
             "tiny": lambda: rng.gauss(0, 1e-4), "mixed": lambda: rng.choice([0, 0.0, rng.gauss(0, 50)])}[s]() for _ in range(n)]


def case(rng, i, tier):
    n, w = rng.choice([1, 1, 2, 3, rng.randint(1, 30), rng.randint(1, 200 if tier == "quick" else 3000)]), rng.randint(1, 5)
    if rng.random() < .01:      # enough rows for neighbouring quantiles to be told apart
        n, w = rng.randint(1500, 4000), 1
    cols = [col(rng, n) for _ in range(w)]
    rows = [[c[j] for c in cols] for j in range(n)]
    ab = rng.choice([[-999.25], [-999.25], [0.0], [0, -999.25], [1.5, 0, 7.0], [-3.25]]) if rng.random() < .4 else None
    if ab:
        for i, row in enumerate(rows):
            for j in range(w):
                if not i:
                    row[j] = row[j] if row[j] not in ab else 2.125      # every column keeps a value
                elif rng.random() < .2:
                    row[j] = rng.choice(ab)
    text = rng.random() < .2
    if text:        # cells that are no numbers
        rows[1:] = [[rng.choice(["n/a", "", None, "--"]) if rng.random() < .2 else x for x in row] for row in rows[1:]]
    return dict(rows=rows, ab=ab, text=text, plain=rng.random() < .3, cols=-1 if rng.random() < .6 else sorted(rng.sample(range(w), rng.randint(1, w))),
                keys=rng.random() < .4, seed=rng.getrandbits(40))


def near(a, b, tol):
    return abs(a - b) <= tol


def exact(vals):
    f = [Fraction(float(v)) for v in vals]
    m = sum(f) / len(f)
    return float(m), float(sum(v * v for v in f) / len(f) - m * m), float(sum(abs(v) for v in f) / len(f)), float(sum(v * v for v in f) / len(f))


def check_stat(check, name, got, vals, what):
    """got: object or dict-like getter of the five statistics."""
    m, var, amean, sq = exact(vals)
    n = len(vals)
    check(near(got("mean"), m, 1e-13 * n * amean + 1e-300), "mean", "%s of %s: mean %r, exact %r", what, name, got("mean"), m)
    tol = 1e-14 * (n + 10) * sq + 1e-12
    v = got("variance")
    check(near(v, var, tol) or (v == 0.0 and var < 1e-6 + tol), "variance", "%s of %s: variance %r, exact %r", what, name, v, var)
    check(v >= 0, "variance", "%s of %s: variance %r", what, name, v)
    check(near(got("std_variance"), math.sqrt(v), 1e-9 * (1 + math.sqrt(v))), "deviation", "%s of %s: deviation %r with variance %r", what, name, got("std_variance"), v)
    check(got("max_value") == max(map(float, vals)), "max", "%s of %s: maximum %r, it is %r", what, name, got("max_value"), max(vals))
    check(got("min_value") == min(map(float, vals)), "min", "%s of %s: minimum %r, it is %r", what, name, got("min_value"), min(vals))


def rank_ok(v, data, q, e):
    n = len(data)
    lo, hi = bisect.bisect_left(data, v) + 1, bisect.bisect_right(data, v)
    return hi >= lo and hi >= math.floor((q - 2 * e) * n) - 1e-9 and lo <= math.ceil((q + 2 * e) * n) + 1 - (q > 0) + 1e-9


def run_case(cfg, mon):
    import random
    import numpy as np
    from computing.d_table import DTable
    from ml.feature.instance import Instance
    from ml.statistic.statics import MultivariateStatisticalSummary as MSS, SummaryStatistics
    from ml.utils import abnormal_detection
    r = random.Random(cfg["seed"])
    check = mon.check
    rows, n, w = cfg["rows"], len(cfg["rows"]), len(cfg["rows"][0])
    ab = cfg["ab"]
    keys = r.sample(range(10 * n), n) if cfg["keys"] else list(range(n))
    kind = object if cfg.get("text") else float
    mon.count("texts", kind is object)
    make = (lambda row: np.array(row, dtype=kind)) if cfg["plain"] else (lambda row: Instance(features=np.array(row, dtype=kind), label=1))
    table = DTable(True, [(k, make(row)) for k, row in zip(keys, rows)])
    header = ["x%d" % j for j in range(w)]
    r.shuffle(header)
    table.schema["header"] = header
    used = range(w) if cfg["cols"] == -1 else cfg["cols"]
    vals = {header[j]: [row[j] for row in rows if not isinstance(row[j], (str, type(None))) and not (ab and row[j] in ab)] for j in used}
    args = ([cfg["cols"]] if cfg["cols"] != -1 or r.random() < .5 else []) + ([ab] if ab and cfg["cols"] != -1 else [])
    s = MSS(table, *args) if not ab or len(args) == 2 else MSS(table, cfg["cols"], abnormal_list=ab)
    stats = ["mean", "variance", "std_variance", "max_value", "min_value"]
    get = dict(mean=s.get_mean, variance=s.get_variance, std_variance=s.get_std_variance, max_value=s.get_max, min_value=s.get_min)
    res = {}
    todo, asked = stats + stats + ["median", "quantile", "quantile", "quantile", "quantile", "some", "some"], []
    r.shuffle(todo)
    for what in todo:
        if what == "some":      # a few columns first, the others later
            few = {c: header.index(c) for c in r.sample(sorted(vals), r.randint(0, len(vals)))}
            name = r.choice(stats + ["median", "quantile"])
            got = s.get_median(few) if name == "median" else s.get_quantile_point(r.random(), few) if name == "quantile" else get[name](few)
            check(set(got) == set(few), "columns", "%s of the columns %r answers for %r", name, sorted(few), sorted(got))
            continue
        if what == "median":
            med = s.get_median()
            check(set(med) == set(vals), "columns", "get_median answers for %r of %r", sorted(med), sorted(vals))
            for c, v in med.items():
                mon.count("medians")
                d = sorted(map(float, vals[c]))
                check(rank_ok(float(v), d, .5, .001), "median", "median %r of %r", v, d[:40])
        elif what == "quantile":
            q = r.choice([0, 1, .5, .25, .1, .9, r.random()])
            if asked and r.random() < .5:
                q = min(1, max(0, r.choice(asked) + r.choice([-1, 1]) * 10 ** -r.uniform(1, 4)))
            asked.append(q)
            res_q = s.get_quantile_point(q)
            check(set(res_q) == set(vals), "columns", "get_quantile_point answers for %r of %r", sorted(res_q), sorted(vals))
            for c, v in res_q.items():
                mon.count("quantiles")
                d = sorted(map(float, vals[c]))
                check(rank_ok(float(v), d, q, .001), "quantile", "quantile %r is %r, of %d values %r", q, v, len(d), d[:40])
        else:
            got = get[what]()
            check(set(got) == set(vals), "columns", "%s answers for %r of %r", what, sorted(got), sorted(vals))
            check(res.setdefault(what, got) == got, "again", "%s asked twice: %r, %r", what, res[what], got)
    sub = {c: header.index(c) for c in r.sample(sorted(vals), r.randint(1, len(vals)))}
    for what in stats:
        got = get[what](sub)
        check(got == {c: res[what][c] for c in sub}, "columns", "%s of %r gives %r", what, sorted(sub), got)
    # columns that were not asked for at the start are left out of the answer, and nothing is invented for them
    more = dict(sub, nowhere=0)
    for c in header:
        if c not in vals:
            more[c] = header.index(c)
    for what in stats:
        got = get[what](more)
        check(got == {c: res[what][c] for c in sub}, "columns", "%s of %r, of which %r were selected, gives %r", what, sorted(more), sorted(vals), got)
    q = r.random()
    check(s.get_median(more) == {c: v for c, v in s.get_median().items() if c in sub}, "columns", "median of %r gives %r", sorted(more), s.get_median(more))
    check(s.get_quantile_point(q, more) == {c: v for c, v in s.get_quantile_point(q).items() if c in sub}, "columns", "quantile %r of %r gives %r", q, sorted(more), s.get_quantile_point(q, more))
    for bad in ([w], [0, w + 5], ["a"], ["1.5"]):
        try:
            MSS(table, bad)
        except ValueError:
            mon.count("refused")
        else:
            mon.fail("refuse", "statistics of the columns %r of a table of %d columns are accepted", bad, w)
    for c in vals:
        mon.count("columns")
        mon.state(vals[c][:6], n)
        check_stat(check, c, lambda k: float(res[k][c]), vals[c], "the statistics")
    check([list(v if cfg["plain"] else v.features) for _, v in sorted(table.collect(), key=lambda kv: keys.index(kv[0]))] ==
          [list(row) for row in rows], "data-changed", "the statistics changed the table")

    # statistics of chunks, merged in any order, are those of the whole
    cuts = sorted(r.randint(0, n) for _ in range(r.randint(0, 4)))
    pairs = [(k, make(row)) for k, row in zip(keys, rows)]
    parts = [pairs[a:b] for a, b in zip([0] + cuts, cuts + [n])]
    r.shuffle(parts)
    cd = {c: header.index(c) for c in vals}
    acc, qacc = None, None
    for part in parts:
        d, = MSS.static_in_partition(iter(part), cd, ab or [])
        acc = MSS.aggregate_statics(acc, d) if r.random() < .5 else MSS.aggregate_statics(d, acc)
        d, = MSS.static_summaries_in_partition(iter(part), cd, ab or [])
        qacc = MSS.aggregate_statics(qacc, d)
    check(MSS.aggregate_statics(None, None) is None, "merge", "merging nothing gives something")
    for c in vals:
        mon.count("merged")
        check(acc[c].count == len(vals[c]), "count", "%s: %d values counted of %d", c, acc[c].count, len(vals[c]))
        check_stat(check, c, lambda k: getattr(acc[c], k), vals[c], "the merged statistics")
        d = sorted(map(float, vals[c]))
        for q in (0, .5, 1, r.random()):
            v = float(qacc[c].query(q))
            check(rank_ok(v, d, q, .001), "quantile", "merged: quantile %r is %r, of %d values %r", q, v, len(d), d[:40])

    # one by one, with values to skip
    st = SummaryStatistics(SKIPS[:2])
    seen = []
    for v in [x for row in rows for x in row if not isinstance(x, (str, type(None)))][:60]:
        for x in ([r.choice(SKIPS)] if r.random() < .3 else []) + [str(v) if r.random() < .1 else v]:
            st.add_value(x)
            if not (x in SKIPS):
                seen.append(float(x))
            if r.random() < .05:
                st.add_value(r.choice(["n/a", "", "1.5.2", [], "--"]))
    if seen:
        check(st.count == len(seen), "count", "%d values counted of %d", st.count, len(seen))
        check_stat(check, "a stream", lambda k: getattr(st, k), seen, "the statistics")
    a, b = SummaryStatistics(), SummaryStatistics()
    a.add_value(3)
    check(b.count == 0 and b.abnormal_list == [] and a.abnormal_list is not b.abnormal_list, "shared", "two statistics share their state")

    # an empty table is refused, a table with rows is not
    mon.count("empty")
    try:
        abnormal_detection.empty_table_detection(DTable(True, []))
    except ValueError:
        pass
    else:
        mon.fail("empty", "a table without rows was accepted")
    abnormal_detection.empty_table_detection(table)
    helpers(r, mon, np, Instance)
    vectors(r, mon, rows, Instance)
    mon.sample = dict(rows=n, columns=len(vals), abnormal=cfg["ab"], mean={k: float(v) for k, v in res["mean"].items()})


def helpers(r, mon, np, Instance):
    from ml.utils import fate_operator as fo
    check = mon.check
    for _ in range(4):
        n, m = r.randint(1, 8), r.randint(1, 5)
        num = lambda: r.choice([0.0, 1.0, -2.0, r.gauss(0, 1) + (2e-4 if r.random() < .5 else -2e-4), r.gauss(0, 1) * 1e6, 3e-5, 1e-3, -4e-4])
        x, wv = [num() for _ in range(n)], [num() for _ in range(n)]
        x = [v if v == 0 or abs(v) > 2e-5 else 1.0 for v in x]
        mon.count("dots")
        want = math.fsum(a * b for a, b in zip(x, wv))
        tol = 1e-12 * (1 + sum(abs(a * b) for a, b in zip(x, wv)))
        for X in (np.array(x), x, Instance(features=np.array(x))):
            got = fo.dot(X, np.array(wv))
            check(abs(float(got) - want) <= tol, "dot", "dot(%r, %r) = %r, exact %r", x, wv, got, want)
        M = [[v if v == 0 or abs(v) > 2e-5 else 1.0 for v in [num() for _ in range(n)]] for _ in range(m)]
        got = fo.dot(np.array(M), np.array(wv))
        check(np.shape(got) == (m,), "dot", "dot of %dx%d and %d has shape %r", m, n, n, np.shape(got))
        for row, g in zip(M, got):
            check(abs(float(g) - math.fsum(a * b for a, b in zip(row, wv))) <= 1e-12 * (1 + sum(abs(a * b) for a, b in zip(row, wv))), "dot", "dot of a matrix row %r and %r is %r", row, wv, g)
        N = [[num() for _ in range(m)] for _ in range(n)]
        got = np.asarray(fo.dot(np.array(M), np.array(N)), dtype=float)
        for a in range(m):
            for b in range(m):
                want = math.fsum(M[a][k] * N[k][b] for k in range(n))
                check(abs(got[a][b] - want) <= 1e-12 * (1 + sum(abs(M[a][k] * N[k][b]) for k in range(n))), "dot", "matrix product entry %r, exact %r", got[a][b], want)

        mon.count("adds")
        y = [num() for _ in range(n)]
        for A, B in ((x, y), (np.array(x), np.array(y))):
            ka, kb = list(A), list(B)
            got = fo.reduce_add(A, B)
            check(len(got) == n and all(abs(g - (a + b)) <= 1e-12 * (1 + abs(a) + abs(b)) for g, a, b in zip(got, x, y)), "add", "reduce_add(%r, %r) = %r", A, B, got)
            check(list(A) == ka and list(B) == kb, "add", "reduce_add changed its arguments")
            check(fo.reduce_add(None, A) is A and fo.reduce_add(A, None) is A, "add", "reduce_add with None does not return the other")
        check(fo.reduce_add(None, None) is None, "add", "reduce_add(None, None)")
        check(fo.reduce_add(x[0], y[0]) == x[0] + y[0], "add", "reduce_add(%r, %r)", x[0], y[0])
        check(fo.reduce_add(None, 0) == 0 and fo.reduce_add(0, None) == 0, "add", "reduce_add of None and 0")

        mon.count("norms")
        p = r.choice([1, 2, 3, 1.5])
        big = max(map(abs, y)) or 1.0
        want = big * sum((abs(v) / big) ** p for v in y) ** (1 / p)
        for v in (y, np.array(y)):
            check(abs(float(fo.norm(v, p)) - want) <= 1e-9 * (1 + want), "norm", "norm(%r, %r) = %r, exact %r", y, p, fo.norm(v, p), want)
        check(abs(float(fo.norm(y)) - math.sqrt(math.fsum(v * v for v in y))) <= 1e-9 * (1 + want), "norm", "norm(%r) = %r", y, fo.norm(y))
        z = [r.choice([0, 1, 3, -2, True])] + y if r.random() < .5 else y + [r.randint(-5, 5)]
        want = math.sqrt(math.fsum(float(v) ** 2 for v in z))
        check(abs(float(fo.norm(z)) - want) <= 1e-9 * (1 + want), "norm", "norm(%r) = %r, exact %r", z, fo.norm(z), want)
        try:
            fo.norm(y, r.choice([0, .5, -1, .999]))
        except ValueError:
            continue
        mon.fail("norm", "norm with p < 1 was accepted")


def vectors(r, mon, rows, Instance):
    """Sparse vectors and instances hold what they were given."""
    from ml.feature.sparse_vector import SparseVector
    check = mon.check
    for row in rows[:5]:
        cells = [(j, v) for j, v in enumerate(row) if (v != 0 or r.random() < .5) and r.random() < .8]
        cells = [(j, r.choice([0, 0.0, False, -0.0])) if r.random() < .15 else (j, v) for j, v in cells]
        r.shuffle(cells)
        shape = len(row) + r.choice([0, 0, 3])
        sv = SparseVector([j for j, _ in cells], [v for _, v in cells], shape)
        mon.count("vectors")
        check(sv.get_shape() == shape and sv.count_non_zeros() == len(cells) and sv.count_zeros() == shape - len(cells), "vector",
              "a sparse vector of %d cells out of %d counts %r stored and %r zeros", len(cells), shape, sv.count_non_zeros(), sv.count_zeros())
        check(sorted(sv.get_all_data()) == sorted(cells) and sorted(sv.get_all_data()) == sorted(cells), "vector", "a sparse vector of %r holds %r", cells, sorted(sv.get_all_data()))
        d = dict(cells)
        for j in range(shape):
            check(sv.get_data(j) == d.get(j) and sv.get_data(j, 0) == d.get(j, 0) and sv.get_data(j, -7.5) == d.get(j, -7.5), "vector", "cell %d of %r is %r", j, cells, sv.get_data(j, -7.5))
    a, b = Instance(inst_id=4, weight=2.5, features=[1, 2], label="y"), Instance()
    check((a.inst_id, a.weight, a.features, a.label) == (4, 2.5, [1, 2], "y") and (b.inst_id, b.weight, b.features, b.label) == (None, 1.0, None, None), "instance", "an instance does not hold what it was given")
    x = r.random()
    b.set_weight(x)
    b.set_label(x + 1)
    b.set_feature([x + 2])
    check((b.weight, b.label, b.features) == (x, x + 1, [x + 2]) and (a.weight, a.label, a.features) == (2.5, "y", [1, 2]), "instance", "setting an instance's fields")
