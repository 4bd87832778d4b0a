"""C12: tables behave as finite maps from keys to values."""
import copy

RULE = ("A case is a random program over several tables (construction with and without keys, map, mapValues, mapPartitions, "
        "mapReducePartitions, reduce, filter, join, union, subtractByKey, take, first, count, collect, schema) run side by "
        "side with plain dictionaries; after every step the result and every table made so far are compared with the "
        "model. Distinct by (operation, sizes, overlap).")
ASSUMPTIONS = ["functions given to the table are pure, predicates return booleans, reductions are associative and commutative",
               "no order is promised for rows, except that rows made without keys are numbered in order"]
NEED = {"steps": 3000, "joins": 100, "unions": 100, "subtractions": 100, "rejected": 100, "unchanged": 3000}

KEYS = [lambda r: r.randint(0, 12), lambda r: "k%d" % r.randint(0, 12), lambda r: (r.randint(0, 3), r.randint(0, 3)),
        lambda r: r.choice([None, True, 0, 2.5, "", "0", -1]), lambda r: float(r.randint(0, 6))]


def value(r):
    return r.choice([r.randint(-9, 9), r.gauss(0, 1), "s%d" % r.randint(0, 9), [r.randint(0, 3)], (1, r.randint(0, 3)), {"a": r.randint(0, 2)},
                     0, "", False, [], None, r.randint(0, 1) == 1])


def case(rng, i, tier):
    return dict(seed=rng.getrandbits(40), steps=rng.randint(10, 45), kind=rng.randrange(len(KEYS)), numbers=rng.random() < .5)


def name(k):
    return repr(float(k)) if isinstance(k, (int, float)) else repr(k)      # equal keys have equal names


def eq(a, b):
    return type(a) is type(b) and a == b


def run_case(cfg, mon):
    import random
    import numpy as np
    from computing.d_table import DTable
    r = random.Random(cfg["seed"])
    check = mon.check
    mk = (lambda: r.randint(-50, 50)) if cfg["numbers"] else (lambda: value(r))
    live = []          # (table, model)
    schemas = []

    def same(t, m, what):
        got = list(t.collect())
        check(len(got) == len(m) and len(dict(got)) == len(got), "size", "%s: %d rows, expected %d: %r", what, len(got), len(m), got[:5])
        for k, v in got:
            check(k in m and eq(m[k], v), "content", "%s: row %r: %r, expected %r", what, k, v, m.get(k, "no such row"))
        check(t.count() == len(m), "count", "%s: count %r, expected %d", what, t.count(), len(m))

    def add(t, m, what):
        check(isinstance(t, DTable), "type", "%s returned %s", what, type(t).__name__)
        same(t, m, what)
        check(not any(t is o for o, _ in live), "aliased", "%s returned one of its operands", what)
        live.append((t, copy.deepcopy(m)))
        sc = {"header": ["h%d" % len(live)]}
        if r.random() < .5:
            t.schema = sc
        else:
            t.schema["header"] = sc["header"]
        schemas.append(sc)
    def tag(*vs):        # what a function returns may be anything, nothing and falsehood included
        i = sum(len(repr(v)) for v in vs) % (14 if odd else 1)
        return [("f",) + tuple(map(repr, vs)), None, 0, "", False, [repr(vs)], (), {"v": repr(vs)}][i if i < 8 else 0]
    odd = r.random() < .5

    def make(keyed, rows):
        rows = copy.deepcopy(rows)
        keep = list(rows)
        t = DTable(keyed, rows)
        check(len(rows) == len(keep) and all(a is b for a, b in zip(rows, keep)), "caller-data", "building a table from %r left the caller %r", keep[:5], rows[:5])
        return t
    while len(live) < 2:
        keyed = r.random() < .7
        vals = [mk() for _ in range(r.choice([0, 1, r.randint(2, 8), r.randint(2, 20)]))]
        if keyed:
            m = {}
            for v in vals:
                m[KEYS[cfg["kind"]](r)] = v
            add(make(True, [(k, v) for k, v in m.items()]), m, "construction")
        else:
            add(make(False, vals), dict(enumerate(vals)), "construction without keys")
    if r.random() < .1:
        add(DTable(r.random() < .5), {}, "empty construction")
    for step in range(cfg["steps"]):
        j = r.randrange(len(live))
        t, m = live[j]
        op = r.choice(["map", "mapValues", "mapPartitions", "mrp", "reduce", "filter", "join", "union", "sub", "take", "first", "bad",
                       "new", "joindef", "uniondef", "self"])
        mon.count("steps")
        o, mo = live[r.randrange(len(live))]
        if op == "map":
            add(t.map(lambda k, v: (name(k), tag(v))), {k: (name(k), tag(v)) for k, v in m.items()}, op)
            add(t.map(lambda k, v: tag(name(k), v)), {k: tag(name(k), v) for k, v in m.items()}, op)
        elif op == "mapValues":
            add(t.mapValues(tag), {k: tag(v) for k, v in m.items()}, op)
        elif op == "mapPartitions":
            got = t.mapPartitions(lambda it: [(k, v) for k, v in it])
            vals = [v for _, v in got.collect()]
            check([k for k, _ in got.collect()] == list(range(len(m))), "numbering", "mapPartitions rows are numbered %r", [k for k, _ in got.collect()])
            check(len(vals) == len(m) and all(k in m and eq(m[k], v) for k, v in vals) and len({name(k) for k, _ in vals}) == len({name(k) for k in m}),
                  "content", "mapPartitions saw %r of %r", vals[:4], list(m.items())[:4])
            add(got, dict(enumerate(vals)), op)
            one = t.mapPartitions(lambda it: [sum(1 for _ in it)])
            check(sum(v for _, v in one.collect()) == len(m), "content", "mapPartitions counted %r rows of %d", list(one.collect()), len(m))
        elif op == "mrp":
            f = lambda it: [(len(repr(v)) % 3, 1) for k, v in it]
            want = {}
            for v in m.values():
                want[len(repr(v)) % 3] = want.get(len(repr(v)) % 3, 0) + 1
            add(t.mapReducePartitions(f, lambda a, b: a + b), want, op)
            n = lambda x: 1 if x is None else x      # None and 0 are values like any other
            got = t.mapReducePartitions(lambda it: [(len(repr(v)) % 3, None) for k, v in it], lambda a, b: n(a) + n(b))
            same(got, {k: None if c == 1 else c for k, c in want.items()}, "mapReducePartitions of None")
            got = t.mapReducePartitions(lambda it: [(len(repr(v)) % 3, 0) for k, v in it], lambda a, b: a + b + 1)
            same(got, {k: c - 1 for k, c in want.items()}, "mapReducePartitions of 0")
        elif op == "reduce":
            nums = t.mapValues(lambda v: len(repr(v)))
            got = nums.reduce(lambda a, b: a + b)
            check(got == (sum(len(repr(v)) for v in m.values()) if m else None), "reduce", "reduce over %d rows gave %r", len(m), got)
            nums = t.mapValues(lambda v: len(repr(v)) - 2)        # zeros and negatives are values too
            got = nums.reduce(max)
            check(got == (max(len(repr(v)) - 2 for v in m.values()) if m else None), "reduce", "maximum %r of %r", got, m)
            prod = t.mapValues(lambda v: len(repr(v)) % 2).reduce(lambda a, b: a * b + 0)
            want = None if not m else int(all(len(repr(v)) % 2 for v in m.values()))
            check(prod == want, "reduce", "product %r, expected %r", prod, want)
        elif op == "filter":
            c = r.randint(0, 3)
            p = lambda k, v: (len(name(k)) + len(repr(v))) % 4 != c
            add(t.filter((lambda k, v: np.bool_(p(k, v))) if r.random() < .3 else p), {k: v for k, v in m.items() if p(k, v)}, op)
        elif op in ("join", "joindef"):
            mon.count("joins")
            f = lambda a, b: tag("j", a, b)
            if op == "join":
                add(t.join(o, f), {k: f(m[k], mo[k]) for k in m if k in mo}, op)
            else:
                add(t.join(o), {k: m[k] for k in m if k in mo}, op)
        elif op in ("union", "uniondef"):
            mon.count("unions")
            f = lambda a, b: tag("u", a, b)
            want = dict(m)
            for k, v in mo.items():
                want[k] = v if k not in m else f(m[k], v) if op == "union" else m[k]
            add(t.union(o, f) if op == "union" else t.union(o), want, op)
            if op == "union":      # the left values may be combined in place, the union has its own
                def grow(a, b):
                    if isinstance(a, list):
                        a.append(repr(b))
                    elif isinstance(a, dict):
                        a["b"] = repr(b)
                    return a
                t.union(o, grow)
        elif op == "sub":
            mon.count("subtractions")
            add(t.subtractByKey(o), {k: v for k, v in m.items() if k not in mo}, op)
        elif op == "self":
            check(t.subtractByKey(t).count() == 0, "self", "a table minus itself has rows")
            same(t.join(t), m, "join with itself")
            same(t.union(t), m, "union with itself")
        elif op == "take":
            n = r.choice([0, 1, 2, len(m), len(m) + 3, r.randint(0, 9)])
            got = t.take(n)
            check(isinstance(got, list) and len(got) == min(n, len(m)), "take", "take(%d) of %d rows gave %d", n, len(m), len(got))
            check(len({name(k) for k, _ in got}) == len(got) and all(k in m and eq(m[k], v) for k, v in got), "take", "take gave %r", got)
            check(len(t.take()) == min(1, len(m)), "take", "take() gave %r", t.take())
        elif op == "first":
            got = t.first()
            check((got is None and not m) or any(eq(got, v) for v in m.values()), "first", "first of %r is %r", list(m.items())[:4], got)
            check(not m or any(got is v or eq(got, v) for _, v in t.take(1)), "first", "first() is %r, take(1) gives %r", got, t.take(1))
        elif op == "new":
            vals = [mk() for _ in range(r.randint(0, 6))]
            add(make(False, vals), dict(enumerate(vals)), "construction without keys")
        else:
            bad = r.choice([lambda: DTable(1, []), lambda: DTable("True", [1]), lambda: DTable(True, ((1, 2),)), lambda: DTable(False, {"a": 1}),
                            lambda: DTable(True, [1, 2]), lambda: DTable(True, [(1, 2), (1, 3)]), lambda: DTable(True, [(1, 2, 3)]),
                            lambda: DTable(True, [("a", 0), ("b", 1), ("a", 0)]), lambda: DTable(True, [[1, 2]]), lambda: DTable(None, [1])])
            try:
                bad()
            except (TypeError, ValueError):
                mon.count("rejected")
            else:
                mon.fail("accepted", "malformed data made a table")
        mon.state(op, len(m), len(mo), len(set(map(name, m)) & set(map(name, mo))))
        if len(live) > 12:
            k = r.randrange(len(live))
            live.pop(k)
            schemas.pop(k)
        for (t2, m2), sc in zip(live, schemas):
            mon.count("unchanged")
            same(t2, m2, "after " + op)
            check(t2.schema.get("header") == sc["header"], "schema", "after %s a table's header is %r, was %r", op, t2.schema, sc)
    mon.sample = dict(steps=cfg["steps"], sizes=[len(m) for _, m in live])
