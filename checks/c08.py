"""C08: the encryption mode changes the cost of encryption, not what is encrypted."""
import math

from vrt import boot

RULE = ("A case is an encryption mode (strict, fast, balance with a random rate), a row shape (scalar, tuple, list, array) "
        "and a sequence of tables of the same rows with changing values and row order, as boosting rounds produce; a "
        "counting encrypter and decryption of every returned table judge each call. Distinct by (mode, shape, round, "
        "re-encrypted or not).")
ASSUMPTIONS = ["every call gets row keys the call before had too, as training does", "tolerance 2e-13 of the largest value met"]
NEED = {"tables": 100, "values": 500, "fresh": 30, "incremental": 30, "balance_draws": 60}


def case(rng, i, tier):
    if rng.random() < .06:
        return dict(kind="rate", rate=rng.choice([.05, .2, .25, .5, .75, .9, 1, 0]), rounds=1500)
    mode = rng.choice(["strict", "fast", "balance", "balance"])
    rounds = rng.randint(2, 6) if mode != "balance" else rng.randint(6, 25)
    n = rng.randint(1, 5) if mode != "balance" else rng.randint(1, 2)
    shape = rng.choice(["scalar", "tuple", "tuple", "list", "array"])
    w = rng.randint(1, 3)
    keys = rng.choice([list(range(n)), ["k%d" % j for j in range(n)]])
    mag = rng.choice([1, 1, 1e-3, 1e4])

    def v():
        return rng.choice([0.0, .5, -.5, rng.gauss(0, 1), rng.random(), 1 - rng.random()]) * mag if rng.random() < .9 else rng.randint(-9, 9)
    small = rng.random() < .3        # what changes from round to round is little, compared with what is there
    base = [[rng.gauss(0, 1) for _ in range(w)] for _ in range(n)]
    step = rng.choice([1e-3, 1e-5, 1e-8])
    tabs = [[[v() for _ in range(1 if shape == "scalar" else w)] for _ in range(n)] for _ in range(rounds)]
    if small:
        tabs = [[[base[a][b] * (1 + step * rng.random()) for b in range(1 if shape == "scalar" else w)] for a in range(n)] for _ in range(rounds)]
    orders = [rng.sample(range(n), n) if rng.random() < .5 else list(range(n)) for _ in range(rounds)]
    if n > 1 and rng.random() < .3:        # rows that drop out stay out
        for a in range(1, rounds):
            keep = orders[a - 1] if rng.random() < .6 or len(orders[a - 1]) < 2 else rng.sample(orders[a - 1], len(orders[a - 1]) - 1)
            orders[a] = [j for j in orders[a] if j in keep]
    dtype = None
    if rng.random() < .25 and not small:      # numbers of a fixed width, which differences may leave
        dtype = rng.choice(["uint8", "int8", "int16", "uint16", "uint32", "int64", "float32", "float16"])
        top = {"uint8": 255, "int8": 127, "int16": 32767, "uint16": 65535, "float16": 2000}.get(dtype, 2 ** 31 - 1)
        low = 0 if dtype[0] == "u" else -top
        tabs = [[[rng.choice([low, top, 0, 1, rng.randint(low, top)]) if dtype[0] != "f" else rng.choice([rng.gauss(0, 1), rng.uniform(low, top)])
                  for _ in row] for row in t] for t in tabs]
    return dict(dtype=dtype, mode=mode, rate=rng.choice([0, .2, .5, .8, 1]), shape=shape, keys=keys, tabs=tabs, orders=orders)


_key = {}


class Counting:
    """The encrypter handed to the code under test: counts what it is asked to encrypt."""

    def __init__(self, real):
        self.real, self.n = real, 0

    def encrypt(self, v):
        self.n += 1
        return self.real.encrypt(v)

    def encrypt_list(self, vs):
        return [self.encrypt(v) for v in vs]

    def __getattr__(self, name):
        return getattr(self.real, name)


def rate(cfg, mon):
    """How often balance mode encrypts afresh, over many tables (the cipher is a stand-in, the calculator is not)."""
    from computing.d_table import DTable
    from ml.secureprotol.encrypt import FakeEncrypt
    from ml.secureprotol.encrypt_mode import EncryptModeCalculator
    boot.reseed(cfg["_seed"])
    enc = Counting(FakeEncrypt())
    calc = EncryptModeCalculator(enc, "balance", cfg["rate"])
    for r in range(cfg["rounds"] + 1):
        out = calc.encrypt(DTable(True, [("a", float(r))]))
        mon.check(abs(out.first() - r) < 1e-6, "value", "round %d encrypts %r", r, out.first())
    n, p, k = cfg["rounds"], cfg["rate"], enc.n - 1
    mon.count("balance_draws", n)
    mon.check(abs(k - n * p) <= 6 * math.sqrt(n * p * (1 - p)) + 1e-9, "rate", "balance mode at rate %r encrypted %d of %d tables again", p, k, n)
    mon.state("rate", p, k)
    mon.sample = dict(mode="balance", rate=p, tables=n, re_encrypted=k)


def run_case(cfg, mon):
    if cfg.get("kind") == "rate":
        return rate(cfg, mon)
    import numpy as np
    from computing.d_table import DTable
    from ml.secureprotol.encrypt import PaillierEncrypt
    from ml.secureprotol.encrypt_mode import EncryptModeCalculator
    from ml.secureprotol.fate_paillier import PaillierEncryptedNumber
    check = mon.check
    if "k" not in _key:
        _key["k"] = PaillierEncrypt()
        _key["k"].generate_key(512)
        boot.reseed(cfg["_seed"])
    enc = Counting(_key["k"])
    calc = EncryptModeCalculator(enc, cfg["mode"], cfg["rate"])
    if cfg.get("dtype"):
        t = np.dtype(cfg["dtype"]).type
        cfg = dict(cfg, tabs=[[[t(v) for v in row] for row in tab] for tab in cfg["tabs"]])
        mon.count("fixed_width")
    mk = {"scalar": lambda r: r[0], "tuple": tuple, "list": list, "array": np.array}[cfg["shape"]]
    top = max(abs(float(v)) for t in cfg["tabs"] for r in t for v in r)
    fresh = 0
    held = []
    for rd, rows in enumerate(cfg["tabs"]):
        order = cfg["orders"][rd]
        items = [(cfg["keys"][j], mk(rows[j])) for j in order]
        table = DTable(True, items)
        before = enc.n
        out = calc.encrypt(table)
        mon.count("tables")
        done = enc.n - before
        total = len(order) * len(rows[0])
        check(done in (0, total), "partly-encrypted", "%s mode encrypted %d of %d values in one call", cfg["mode"], done, total)
        mon.count("fresh" if done else "incremental")
        fresh += bool(done)
        if cfg["mode"] == "strict" or rd == 0:
            check(done == total, "mode", "%s mode, call %d: nothing was encrypted afresh", cfg["mode"], rd)
        elif cfg["mode"] == "fast":
            check(done == 0, "mode", "fast mode, call %d: everything was encrypted again", rd)
        else:
            if cfg["rate"] == 1:
                check(done == total, "mode", "balance mode at rate 1 did not encrypt again in call %d", rd)
            mon.count("balance_draws")
        got = dict(out.collect())
        check(set(got) == {k for k, _ in items} and out.count() == len(order), "rows", "rows %r came back as %r", [k for k, _ in items], list(got))
        for j, key in enumerate(cfg["keys"]):
            if j not in order:
                continue
            r = got[key]
            check(type(r) is type(mk(rows[j])) or cfg["shape"] == "scalar", "shape", "a %s row came back as %s", cfg["shape"], type(r).__name__)
            vals = [r] if cfg["shape"] == "scalar" else list(r)
            check(len(vals) == len(rows[j]), "shape", "%d values came back as %d", len(rows[j]), len(vals))
            for a, b in zip(vals, rows[j]):
                check(isinstance(a, PaillierEncryptedNumber), "not-encrypted", "%s mode handed out a %s", cfg["mode"], type(a).__name__)
                check((a.ciphertext(be_secure=False) - 1) % a.public_key.n != 0, "not-randomised", "%s mode, call %d: the "
                      "ciphertext of %r carries no randomness", cfg["mode"], rd, b)
                d = _key["k"].decrypt(a)
                mon.count("values")
                check(math.isfinite(d) and abs(d - float(b)) <= 2e-13 * top, "value", "%s mode, call %d, row %r: %r is encrypted "
                      "instead of %r", cfg["mode"], rd, key, d, b)
        check([k for k, _ in table.collect()] == [k for k, _ in items] and all(
            np.array_equal(a, b) for (_, a), (_, b) in zip(table.collect(), [(k, mk(rows[j])) for (k, _), j in zip(items, order)])),
            "input-changed", "the input table was changed")
        held.append((out, {k: [_key["k"].decrypt(x) for x in ([v] if cfg["shape"] == "scalar" else list(v))] for k, v in got.items()}
                     if rd == 0 else None))
        mon.state(cfg["mode"], cfg["shape"], rd, bool(done), len(order), cfg["rate"])
    # a table that was handed out (and may be on its way to a host) is not touched by later calls
    out, was = held[0]
    now = {k: [_key["k"].decrypt(x) for x in ([v] if cfg["shape"] == "scalar" else list(v))] for k, v in out.collect()}
    check(now == was, "handed-out-changed", "a table that was handed out was changed by a later call")
    if cfg["mode"] == "balance":
        n, p = len(cfg["tabs"]) - 1, cfg["rate"]
        k = fresh - 1
        # six standard deviations; exact at the ends
        sd = math.sqrt(n * p * (1 - p))
        check(abs(k - n * p) <= 6 * sd + 1, "rate", "balance mode at rate %r encrypted %d of %d tables again", p, k, n)
    mon.sample = dict(mode=cfg["mode"], rate=cfg["rate"], shape=cfg["shape"], rounds=len(cfg["tabs"]), re_encrypted=fresh)
