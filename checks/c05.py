"""C05: what crosses the wire does not disclose labels, gradients, weights, features, thresholds or keys."""
import math
import pickle

from vrt import fed, gen, oracle, session, simnet

RULE = fed.TREE_RULE + (
    "Features, labels and everything derived from them carry recognisable values. Every byte between the parties is "
    "captured, every message is unpickled and walked: no secret value of a party (raw features, labels or their "
    "class numbers, gradients, node sums, gains, weights, scores, thresholds, key factors) may occur outside a "
    "ciphertext, and every ciphertext sent by the guest must be a randomised Paillier ciphertext under a key of the "
    "configured length. Distinct by message shape.")
ASSUMPTIONS = ["a party may learn: row keys, which rows reach which node, tree shape, owner and feature number of a "
               "split, sizes and exponents of ciphertexts", "obfuscator reuse is judged in strict mode only: fast and "
               "balance reuse ciphertexts by design",
               "secrets are recognised by value, so the data is generated to make values distinctive"]
QUICK_S = 36
NEED = {"sessions": 8, "messages": 300, "ciphertexts": 500, "secrets": 2000, "labels_hidden": 4, "randomisers": 40, "unsupported_methods": 1, "twin_streams": 4}


def fixed(tier):
    import random
    r = random.Random("c05/" + tier)
    out = []
    for k in range(1 if tier == "quick" else 4):      # wide levels: many open nodes in one message
        cfg = gen.session(r, n=64, hosts=1 + k % 2, task="reg", style="gauss", objective="lse")
        cfg["y"] = [r.uniform(1, 9) for _ in range(64)]
        cfg["tree"].update(max_depth=5, min_leaf_node=1, min_sample_split=2, min_impurity_split=1e-3, max_split_nodes=65536)
        cfg.update(num_trees=1, bin_num=8, enc_mode="strict", predict_train=True, subsample=1.0)
        out.append(cfg)
    out += [dict(long_key=b) for b in ([1100, 2048] if tier == "quick" else [1025, 1100, 1536, 2048, 3072])]
    for m in ("affine", "plain", None):
        out.append(dict(gen.session(r, n=20, hosts=1, task="bin"), enc_method=m))
    return out


def case(rng, i, tier):
    n = rng.randint(24, 40)
    kind = rng.choice(["bin", "bin", "multi3", "reg"])
    cfg = gen.session(rng, n=n, task=kind, style=rng.choice(["gauss", "skew", "neg"]), objective=rng.choice(
        ["lse", "huber", "log_cosh", "fair"]) if kind == "reg" else None) if kind == "reg" else \
        gen.session(rng, n=n, task=kind, style=rng.choice(["gauss", "skew", "neg"]))
    if kind == "reg":
        cfg["y"] = [rng.uniform(1, 9) for _ in range(n)]
        if rng.random() < .5:      # labels around an exact mean: the gradients of some rows are exactly 0
            c = rng.randint(100, 500) / 64 + 1 / 128
            d = [rng.randint(1, 300) / 64 for _ in range(n // 2 - 2)]
            y = [c + v for v in d] + [c - v for v in d]
            cfg["y"] = y + [c] * (n - len(y))
            rng.shuffle(cfg["y"])
    else:
        k = 2 if kind == "bin" else 3
        names = rng.choice([["ALPHA_LABEL", "BRAVO_LABEL", "CHARLY_LABEL"], [7340033, 9340051, 9940051],
                            [73400.33, 93400.51, 99400.51], [0, 1, 2], [0, 1, 2]])
        # independent of the features, so that the (visible) node positions do not spell the labels
        y = [names[rng.randrange(k)] for _ in range(n)]
        for j in range(k):
            y[j] = names[j]
        cfg["y"] = y
        cfg["secret_names"] = names[0] != 0
    cfg["enc_mode"] = rng.choice(["strict", "strict", "strict", "fast", "balance"])
    cfg["predict_train"] = True
    cfg["tree"]["max_depth"] = rng.choice([2, 3])
    cfg["tree"]["min_leaf_node"] = rng.choice([2, 4])
    cfg["tree"]["min_impurity_split"] = 1e-3
    cfg["key_len"] = rng.choice([512, 512, 576, 640])
    q = rng.random()
    if q < .06:       # nothing but Paillier is implemented for training
        cfg["enc_method"] = rng.choice(["affine", "Affine", "RSA", "plain", "none", "", "Pailier", None])
    elif q < .2:
        cfg["enc_method"] = rng.choice(["paillier", "PAILLIER", "Paillier", "pAILLIER"])
    if q > .06 and rng.random() < .35:
        prepare_twin(cfg, rng)
    return cfg


# ---------------------------------------------------------------- twins
# Two sessions that differ in one party's secrets only, and in no way the trained trees' structure or the rows'
# positions show, must look the same on the wire apart from the contents of ciphertexts.
def prepare_twin(cfg, rng):
    kind = rng.choice(["values", "labels", "guest bins", "host bins", "host bins"])
    cfg["stop"] = False
    cfg["bin_num"] = 64 if "bins" in kind else cfg["bin_num"]
    if "bins" in kind:
        cfg["preds"] = []
    if kind == "labels" and cfg["task"] == "regression":
        cfg.update(objective="lse", oparams=None)
        cfg["tree"]["criterion_params"] = [0.0]
    cfg["twin"] = dict(kind=kind, scale=rng.choice([-2.0, 2.0, 4.0]), seed=rng.getrandbits(30))


def twin_of(cfg, out):
    import copy
    import random
    tw = cfg["twin"]
    r = random.Random(tw["seed"])
    b = copy.deepcopy(cfg)
    kind = tw["kind"]
    if kind == "labels":
        if cfg["task"] == "regression":
            b["y"] = [tw["scale"] * v for v in cfg["y"]]
        elif tw["scale"] < 0 and len(set(cfg["y"])) == 2:      # the two classes change places
            lo, hi = sorted(set(cfg["y"]))
            b["y"] = [hi if v == lo else lo for v in cfg["y"]]
        else:
            old = sorted(set(cfg["y"]))
            new = sorted(r.sample(range(50, 999999), len(old)))
            b["y"] = [new[old.index(v)] for v in cfg["y"]]
    elif kind == "values":
        for rows in [("guest",), *[("hosts", i) for i in range(len(cfg["hosts"]))]]:
            get = (lambda d: d["guest"]) if rows[0] == "guest" else (lambda d: d["hosts"][rows[1]])
            for c in range(len(get(b)[0])):
                m = r.choice([.5, 2, 4, 8])
                cells = [row for d in [b] + b["preds"] for row in get(d)]
                # which cells are stored stays the same: it may decide how sums are rounded, and so which of two equal offers wins
                if any(oracle.eff(row[c]) and not oracle.eff(row[c] * m) for row in cells):
                    m = 2
                for row in cells:
                    row[c] *= m if oracle.eff(row[c]) else 1
    else:
        sites = [("guest", out.guest, b["guest"])] if kind == "guest bins" else \
            [("host.%d" % cfg["ridx"][i], h, b["hosts"][i]) for i, h in enumerate(out.hosts)]
        for site, model, rows in sites:
            for c in range(len(rows[0])):
                used = sorted({v for tr in model.trees_ for nd in tr.tree_ if not nd.is_leaf and nd.sitename == site and nd.fid == c
                               for k, v in tr.split_maskdict.items() if k == nd.id})
                for row in rows:
                    row[c] = 1.0 + sum(u < oracle.eff(row[c]) for u in used)
    return b


def visible(out, cfg):
    """What the property permits a party to see of a session, in plain form."""
    rp = oracle.Replay(out, cfg)
    seen = []

    def on_tree(t, k, nodes, depth, thr, leaf, members, gh, w):
        seen.append(sorted((i, nd.sitename, nd.fid, nd.is_leaf, nd.left_nodeid, nd.right_nodeid, sorted(members[i])) for i, nd in nodes.items()))
    rp.walk(on_tree, lambda r, F: None)
    return seen


def clear(out, to_host, offers, ties):
    from collections import Counter
    # a party's best split of a node depends on its features also where another party's wins: that much is disclosed
    skip = () if offers else (".best_fid", ".best_bid", ".sum_grad", ".sum_hess", ".gain", ".sitename")
    res = {}
    for st in out.net.streams:
        if (st.src == "guest") == to_host:
            c = res.setdefault((st.src, st.dst), Counter())
            for j, (off, ln, obj) in enumerate(simnet.messages(bytes(st.all))):
                w = Walk()
                w.go(obj)
                if w.ciphers and not offers:      # the guest's choice among a host's equal offers may turn on the last bit
                    continue
                c.update((j, kind, repr(v), repr(p)) for kind, v, p in w.leaves
                         if ".ct" not in p and not any(a in p for a in skip) and not (ties and w.ciphers and kind == "int" and str(p).endswith(", 0)")))
    return res


def compare_twin(cfg, out, mon):
    kind = cfg["twin"]["kind"]
    b = twin_of(cfg, out)
    other = session.run(b)
    if session.problems(other):
        mon.fail("session-failed", "a session on valid input did not complete: %s", "; ".join(session.problems(other)))
        return
    if visible(out, cfg) != visible(other, b):
        mon.count("twins_apart")
        return
    for to_host in (True, False):
        if kind == "guest bins" and not to_host or kind == "host bins" and to_host:
            continue
        # with the classes' places changed, p becomes 1-p: which of a host's equal offers wins may turn on the last bit
        swapped = kind == "labels" and cfg["task"] != "regression" and len(set(cfg["y"])) == 2 and cfg["twin"]["scale"] < 0
        one, two = (clear(x, to_host, "bins" not in kind, swapped) for x in (out, other))
        mon.count("twin_streams", len(one))
        for k in one:
            d = list((one[k] - two.get(k, one[k].__class__())).elements())[:2], list((two.get(k, one[k].__class__()) - one[k]).elements())[:2]
            oracle.need(not d[0] and not d[1], "twins", "%s tells %s something that depends on its secrets (%s changed, nothing visible did): "
                        "message, kind, value, place %r against %r", k[0], k[1], kind, d[0], d[1])


class Walk:
    """Every leaf of an object graph: (kind, value, path); ciphertexts are leaves."""

    def __init__(self):
        self.leaves, self.ciphers, self.objs = [], [], []
        self.seen = set()
        self.sent = 0
        self.keep = []

    def go(self, o, path=()):
        import numpy as np
        from ml.secureprotol.fate_paillier import PaillierEncryptedNumber
        stack = [(o, path)]
        while stack:
            x, p = stack.pop()
            if isinstance(x, (bool, type(None))):
                self.leaves.append(("none", x, p))
            elif isinstance(x, (int, np.integer)):
                self.leaves.append(("int", int(x), p))
            elif isinstance(x, (float, np.floating)):
                self.leaves.append(("float", float(x), p))
            elif isinstance(x, (str, bytes)):
                self.leaves.append(("str", x, p))
            else:
                if isinstance(x, PaillierEncryptedNumber):
                    self.sent += 1          # the same object again is the same ciphertext again
                if id(x) in self.seen and not isinstance(x, tuple):
                    continue
                self.seen.add(id(x))
                self.keep.append(x)
                self.objs.append((x, p))
                if isinstance(x, PaillierEncryptedNumber):
                    self.ciphers.append((x, p))
                    d = dict(x.__dict__)
                    for k in list(d):
                        if "ciphertext" in k or "exponent" in k:
                            del d[k]
                    stack += [(v, p + (".ct",)) for k, v in d.items()]
                elif isinstance(x, np.ndarray):
                    if x.dtype == object:
                        stack += [(v, p + (j,)) for j, v in enumerate(x.ravel().tolist())]
                    else:
                        stack += [(v, p + (j,)) for j, v in enumerate(x.ravel().tolist())]
                elif isinstance(x, dict):
                    if len(x) > 3:      # the order of the entries crosses the wire as well
                        self.leaves.append(("order", tuple(map(repr, x)), p))
                    for k, v in x.items():
                        stack.append((k, p + ("<key>",)))
                        stack.append((v, p + (("k", repr(k)),)))
                elif isinstance(x, (list, tuple, set, frozenset)):
                    stack += [(v, p + (j,)) for j, v in enumerate(x)]
                else:
                    d = dict(getattr(x, "__dict__", {}))
                    for c in type(x).__mro__:
                        for s in getattr(c, "__slots__", ()) or ():
                            if isinstance(s, str) and hasattr(x, s):
                                d[s] = getattr(x, s)
                    stack += [(v, p + ("." + k,)) for k, v in d.items()]


class Secrets:
    def __init__(self):
        self.m = {}

    def add(self, v, what):
        v = float(v)
        if not math.isfinite(v) or (abs(v) < 1e7 and v == int(v)) or abs(v) in (0.5, 0.25, 1.5, 0.1, 0.2, .3, .7) \
                or abs(v) < 1e-9:
            return
        self.m.setdefault("%.9g" % abs(v), what)

    def hit(self, v):
        return self.m.get("%.9g" % abs(v))


def refused(cfg, mon):
    """An encryption method that is not implemented ends the training; it does not run in the clear."""
    out = session.run(cfg)
    mon.count("unsupported_methods")
    if out.fitted:
        mon.fail("unencrypted", "training completed although the encryption method %r is not supported", cfg["enc_method"])
    for st in out.net.streams:
        if st.src != "guest":
            continue
        for off, ln, obj in simnet.messages(bytes(st.all)):
            w = Walk()
            w.go(obj)
            for kind, v, p in w.leaves:
                if kind == "float" and any(isinstance(x, tuple) for x in p):
                    mon.fail("plaintext", "%r is sent in the clear under the unsupported encryption method %r", v, cfg["enc_method"])
                    return
    mon.state("refused", cfg["enc_method"])


def long_key(cfg, mon):
    """The guest's key has the configured length, at lengths too slow for a session of ours."""
    from ml.param.boosting_tree_param import BoostingTreeParam
    from ml.tree.hetero_secureboosting_tree_guest import HeteroSecureBoostingTreeGuest
    g = HeteroSecureBoostingTreeGuest()
    p = BoostingTreeParam()
    p.encrypt_param.key_length = cfg["long_key"]
    p.check()
    g._init_model(p)
    g.generate_encrypter()
    n = g.encrypter.get_public_key().n
    mon.count("long_keys")
    mon.check(n.bit_length() == cfg["long_key"], "key-length", "the key has %d bits, configured were %d", n.bit_length(), cfg["long_key"])
    mon.state("long_key", cfg["long_key"])


def run_case(cfg, mon):
    if "long_key" in cfg:
        return long_key(cfg, mon)
    if "enc_method" in cfg and str(cfg["enc_method"]).lower() != "paillier":
        return refused(cfg, mon)
    out = fed.start(cfg, mon)
    fed.guarded(mon, judge, cfg, out, mon)
    if cfg.get("twin"):
        fed.guarded(mon, compare_twin, cfg, out, mon)


def judge(cfg, out, mon):
    need = oracle.need
    g = out.guest
    rp = oracle.Replay(out, cfg)
    guest_secret, host_secret, parts = Secrets(), Secrets(), []
    for r in cfg["guest"]:
        for v in r:
            guest_secret.add(v, "a feature value of the guest")
    if cfg["task"] == "regression":
        for v in cfg["y"]:
            guest_secret.add(v, "a label")
    for i, s in enumerate(rp.sites):
        for f in rp.split_points[s]:
            for v in f:
                (guest_secret if i == 0 else host_secret).add(v, "a split point of %s" % s)
    for h in cfg["hosts"]:
        for r in h:
            for v in r:
                host_secret.add(v, "a host's feature value")
    for p in cfg["preds"]:
        for r in p["guest"]:
            for v in r:
                guest_secret.add(v, "a feature value of the guest")
        for h in p["hosts"]:
            for r in h:
                for v in r:
                    host_secret.add(v, "a host's feature value")

    def on_tree(t, k, nodes, depth, thr, leaf, members, gh, w):
        for a, b in gh:
            guest_secret.add(a, "a gradient")
            guest_secret.add(b, "a hessian")
        for nid, rows in members.items():
            G, H = math.fsum(gh[i][0] for i in rows), math.fsum(gh[i][1] for i in rows)
            guest_secret.add(G, "a node's gradient sum")
            guest_secret.add(H, "a node's hessian sum")
            guest_secret.add(-G / (H + rp.lam), "a node weight")
            if depth[nid] == max(depth.values()):
                parts.append(frozenset(rows))
        for nid, nd in nodes.items():
            if not nd.is_leaf:
                cand, _ = rp.candidates(t, members[nid], gh)
                for s, l in cand.items():
                    for c in l:
                        if c[0] > cfg["tree"]["min_impurity_split"]:
                            guest_secret.add(c[0], "a split gain")
                        left = [i for i in members[nid] if rp.X[s][i][c[1]] <= c[3]]
                        guest_secret.add(math.fsum(gh[i][0] for i in left), "a candidate's gradient sum")
                        guest_secret.add(math.fsum(gh[i][1] for i in left), "a candidate's hessian sum")

    def on_round(r, F):
        for f in F:
            for v in f:
                guest_secret.add(v, "a training score")
    rp.walk(on_tree, on_round)
    for l in g.history_loss:
        guest_secret.add(l, "the training loss")
    for res in [out.train_pred] + out.preds:
        for k, r in res:
            for v in r[3].values():
                guest_secret.add(v, "a predicted score")
    for tr in g.trees_:
        for n in tr.tree_:
            if n.is_leaf:
                guest_secret.add(n.weight, "a leaf weight")
        for v in tr.split_maskdict.values():
            guest_secret.add(v, "a guest threshold")
    for h in out.hosts:
        for tr in h.trees_:
            for v in tr.split_maskdict.values():
                host_secret.add(v, "a host threshold")
    mon.count("secrets", len(guest_secret.m) + len(host_secret.m))
    pub, priv = g.encrypter.get_key_pair()
    n, n2 = pub.n, pub.n * pub.n
    need(n.bit_length() == cfg["key_len"], "key-length", "the key has %d bits, configured were %d", n.bit_length(),
         cfg["key_len"])
    factors = [priv.p, priv.q]
    private = {v for k, v in vars(priv).items() if isinstance(v, int)}
    root = pow(n, -1, (priv.p - 1) * (priv.q - 1))
    need(factors[0] * factors[1] == n, "key", "the key's factors do not multiply to n")
    factor_bytes = [pickle.dumps(f)[2:-1][-32:] for f in factors]
    names = [v for v in set(cfg["y"]) if cfg.get("secret_names")] if cfg["task"] == "classification" else []
    keys = rp.keys
    for st in out.net.streams:
        to_host = st.src == "guest"
        sec = [("guest", guest_secret), ("host", host_secret)] if to_host else [("host", host_secret)]
        raw = bytes(st.all)
        for f in factor_bytes:
            need(f not in raw, "private-key", "a factor of the private key is in the bytes sent by %s", st.src)
        for nm in names:
            if isinstance(nm, str):
                need(nm.encode() not in raw, "label", "label %r is in the bytes sent by %s to %s", nm, st.src, st.dst)
        seen_ct = {}
        for mno, (off, ln, obj) in enumerate(simnet.messages(raw)):
            mon.count("messages")
            w = Walk()
            w.go(obj)
            rows = {}
            shape = set()
            big = []
            for kind, v, p in w.leaves:
                shape.add((kind, tuple("k" if isinstance(x, tuple) or isinstance(x, int) else x for x in p)))
                if kind == "float":
                    for who, s in sec:
                        hit = s.hit(v)
                        need(hit is None, "plaintext", "%r, %s, is sent by %s to %s in the clear (at %s)", v, hit, st.src,
                             st.dst, p)
                    mon.count("floats_checked")
                    need(v not in names, "label", "label %r is sent by %s", v, st.src)
                elif kind == "int":
                    if v.bit_length() > 64 and v not in (n, n2, n + 1, pub.max_int):
                        d = math.gcd(v, n)
                        need(d in (1, n), "private-key", "%s sends a number sharing a factor with the key (at %s)", st.src, p)
                        need(v not in private, "private-key",
                             "%s sends a part of the private key (at %s)", st.src, p)
                        big.append((v % n, v, p))
                    need(v not in names, "label", "label %r is sent by %s to %s", v, st.src, st.dst)
                    if p and any(isinstance(x, tuple) for x in p) and ".ct" not in p:
                        j = [x for x in p if isinstance(x, tuple)][0]
                        rows.setdefault(tuple("k" if isinstance(x, tuple) else x for x in p), {})[j[1]] = v
            if to_host:      # where some rows of a table hold ciphertexts, all do
                enc = {tuple("k" if isinstance(x, tuple) else x for x in p) for _, p in w.ciphers
                       if any(isinstance(x, tuple) and x[0] == "k" for x in p)}
                for kind, v, p in w.leaves:
                    if enc and kind in ("int", "float"):
                        need(tuple("k" if isinstance(x, tuple) else x for x in p) not in enc, "plaintext",
                             "%r is sent in the clear where other rows have ciphertexts (at %s)", v, p)
                if enc:
                    mon.count("encrypted_tables")
            for o, p in w.objs:
                tn = type(o).__name__
                need(tn not in ("PaillierPrivateKey", "PaillierEncrypt", "PaillierKeypair", "EncryptModeCalculator"),
                     "private-key", "%s sends a %s", st.src, tn)
                need(tn not in ("Instance", "SparseVector"), "raw-rows", "%s sends its rows (%s)", st.src, tn)
                d = getattr(o, "__dict__", {})
                for a in ("bid", "best_bid"):
                    if a in d:
                        mon.count("thresholds_hidden")
                        need(d[a] is None or d[a] == -1, "threshold", "%s sends the bin %r of a split", st.src, d[a])
            # labels as class numbers: a per-row integer that spells them
            if to_host and cfg["task"] == "classification":
                for p, vals in rows.items():
                    if len(vals) != len(keys):
                        continue
                    seq = [vals.get(repr(k)) for k in keys]
                    if None in seq or len(set(seq)) != len(set(cfg["y"])):
                        continue
                    mon.count("row_columns")
                    spelled = len(set(zip(seq, cfg["y"]))) == len(set(cfg["y"]))
                    if spelled:
                        natural = any(set(keys[i] for i in part) == set(k for k, c in zip(keys, cfg["y"]) if c == cl)
                                      for part in parts for cl in set(cfg["y"]))
                        need(natural, "label", "guest sends the class of every row to %s (at %s)", st.dst, p)
            if to_host:
                for c, p in w.ciphers:
                    ct = c.ciphertext(be_secure=False)
                    mon.count("ciphertexts")
                    need(c.public_key.n == n, "key", "a ciphertext under another key is sent")
                    need(0 < ct < n2 and math.gcd(ct, n) == 1, "ciphertext", "not a ciphertext: %d", ct)
                    need((ct - 1) % n != 0, "not-randomised", "%s sends an unrandomised ciphertext (its plaintext can be "
                         "read off) at %s", st.src, p)
                    if cfg["enc_mode"] == "strict":
                        # c = (1+mn) r^n: equal r shows as equal residues mod n
                        res = ct % n
                        if res in seen_ct and seen_ct[res][1] != ct:
                            need(False, "randomness-reuse", "two different ciphertexts share their randomness (their "
                                 "difference can be read off)")
                        need(seen_ct.get(res, (mno, ct)) == (mno, ct), "randomness-reuse", "a ciphertext of an earlier message is sent again: "
                             "that its value is the same can be read off")
                        seen_ct[res] = (mno, ct)
                if w.ciphers:       # the randomisers, which the private key reveals to us and nothing may reveal to others
                    some = w.ciphers if big else w.ciphers[:1]
                    rs = {pow(c.ciphertext(be_secure=False) % n, root, n) for c, _ in some}
                    mon.count("randomisers", len(rs))
                    rs |= {n - x for x in rs}
                    need(min(rs).bit_length() > n.bit_length() - 64, "not-randomised", "a ciphertext's randomiser has only %d bits",
                         min(rs).bit_length())
                    masks = {c.ciphertext(be_secure=False) % n for c, _ in some}
                    own = {c.ciphertext(be_secure=False) for c, _ in w.ciphers}
                    for v, whole, p in big:
                        if p[-1:] == (".ct",) and whole in own:      # the ciphertext itself, whatever the attribute is called
                            continue
                        need(v not in rs and v not in masks, "randomiser", "%s sends a ciphertext together with its randomiser (at %s)",
                             st.src, p)
                if cfg["enc_mode"] == "strict" and len(w.ciphers) > 1:
                    cts = [c.ciphertext(be_secure=False) for c, _ in w.ciphers]
                    need(len(set(cts)) == w.sent, "randomness-reuse", "equal values are sent as equal ciphertexts")
            mon.state(st.src == "guest", len(w.leaves), len(w.ciphers), sorted(map(repr, shape))[:40])
    if cfg["task"] == "classification":
        mon.count("labels_hidden")
    # what the hosts keep
    for i, h in enumerate(out.hosts):
        for t, tr in enumerate(h.trees_):
            for nd in tr.tree_:
                if nd.is_leaf:
                    need(abs(nd.weight) < 1e-12, "host-model", "host %d's model holds the weight of leaf %d", i, nd.id)
        enc = getattr(h, "encrypter", None)
        need(enc is None or getattr(enc, "privacy_key", None) is None, "private-key", "host %d holds a private key", i)
    mon.sample = dict(fed.summary(cfg, out), streams=[[s.src, s.dst, len(s.all)] for s in out.net.streams])
