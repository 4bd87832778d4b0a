"""An independent reading of a finished federated session.

Recomputes, from the raw features and labels of all parties, what a gradient boosting run with the
session's parameters must have done: gradients, node membership, every candidate split of every
party, leaf weights, scores and losses.  Nothing here calls the repository's code; what is taken
from the session is what the properties speak about (trees, thresholds, split points, scores).
"""
import math

from .core import Skip

ZERO = 1e-6          # consts.FLOAT_ZERO: the library's "is zero" and tie margin


class Broken(Exception):
    def __init__(self, mech, msg):
        super().__init__(msg)
        self.mech, self.msg = mech, msg


def need(cond, mech, fmt, *a):
    if not cond:
        raise Broken(mech, fmt % a if a else fmt)


def eff(v):
    return 0.0 if abs(v) < ZERO else float(v)


# ---------------------------------------------------------------- losses
def sigmoid(x):
    if x >= 0:
        return 1 / (1 + math.exp(-x))
    e = math.exp(x)
    return e / (1 + e)


def softmax(v):
    m = max(v)
    e = [math.exp(x - m) for x in v]
    s = sum(e)
    return [x / s for x in e]


class Loss:
    """grad/hess/loss per row of the session's objective, from the textbook formulas."""

    def __init__(self, cfg, classes):
        self.task, self.obj = cfg["task"], cfg["objective"]
        self.c = (cfg["oparams"] or [None])[0]
        self.dim = len(classes) if self.task == "classification" and len(classes) > 2 else 1
        self.binary = self.task == "classification" and len(classes) == 2

    def init(self, y):
        if self.task == "classification":
            return [0.0] * self.dim
        if self.obj == "lae":
            return None          # a median estimate: see median_ok
        return [math.fsum(y) / len(y)]

    def gh(self, y, f):
        """[(g, h)] per output dimension."""
        if self.task == "classification":
            if self.binary:
                p = sigmoid(f[0])
                return [(p - y, p * (1 - p))]
            p = softmax(f)
            return [(p[k] - (1 if k == y else 0), p[k] * (1 - p[k])) for k in range(self.dim)]
        d = f[0] - y
        o, c = self.obj, self.c
        if o == "lse":
            return [(2 * d, 2.0)]
        if o == "lae":
            return [(0.0 if abs(d) <= ZERO else math.copysign(1.0, d), 1.0)]
        if o == "huber":
            q = 1 + (d / c) ** 2
            return [(d / math.sqrt(q), q ** -1.5)]
        if o == "fair":
            return [(c * d / (abs(d) + c), c * c / (abs(d) + c) ** 2)]
        if o == "log_cosh":
            t = math.tanh(d)
            return [(t, 1 - t * t)]
        raise NotImplementedError(o)

    def loss(self, y, f):
        if self.task == "classification":
            if self.binary:
                p = sigmoid(f[0])
                q = p if y == 1 else 1 - p
                return -math.log(q) if q > 0 else None
            q = softmax(f)[y]
            return -math.log(q) if q > 0 else None
        d = f[0] - y
        o, c = self.obj, self.c
        if o == "lse":
            return d * d
        if o == "lae":
            return abs(d)
        if o == "huber":
            return c * c * (math.sqrt(1 + (d / c) ** 2) - 1)
        if o == "fair":
            return c * abs(d) - c * c * math.log(abs(d) / c + 1)
        if o == "log_cosh":
            a = abs(d)
            return a + math.log1p(math.exp(-2 * a)) - math.log(2)
        raise NotImplementedError(o)


def median_ok(v, y):
    """v is a value of y of rank about the middle (the library estimates quantiles)."""
    s = sorted(y)
    n = len(s)
    lo = s[max(0, (n - 1) // 2 - 1)]
    hi = s[min(n - 1, n // 2 + 1)]
    return (lo - 1e-9 <= v <= hi + 1e-9) or abs(v) < ZERO and lo <= ZERO and hi >= -ZERO


# ---------------------------------------------------------------- the session
class Node:
    pass


def read_tree(proto):
    nodes = {}
    for n in proto.tree_:
        need(n.id not in nodes, "tree-structure", "node id %s occurs twice", n.id)
        nodes[n.id] = n
    return nodes


class Replay:
    """Walks the trees of a session over the training rows."""

    def __init__(self, out, cfg, mon=None):
        self.out, self.cfg, self.mon = out, cfg, mon
        self.guest = out.guest
        self.n = len(cfg["guest"])
        self.X = {"guest": [[eff(v) for v in r] for r in cfg["guest"]]}
        self.sites = ["guest"]
        self.party = {"guest": "guest"}
        for i in range(len(cfg["hosts"])):
            s = "host.%d" % cfg["ridx"][i]
            self.sites.append(s)
            self.party[s] = "host%d" % i
            self.X[s] = [[eff(v) for v in r] for r in cfg["hosts"][i]]
        self.classes = sorted(set(cfg["y"])) if cfg["task"] == "classification" else None
        self.L = Loss(cfg, self.classes or [])
        self.y = [self.classes.index(v) for v in cfg["y"]] if self.classes else [float(v) for v in cfg["y"]]
        self.keys = cfg["keys"] if cfg["keys"] is not None else list(range(self.n))
        self.lam = float(cfg["tree"]["criterion_params"][0])
        self.split_points = {"guest": [[float(v) for v in a] for a in out.guest.bin_split_points]}
        for i, h in enumerate(out.hosts):
            self.split_points[self.sites[i + 1]] = [[float(v) for v in a] for a in h.bin_split_points]
        for s in self.sites:
            need(len(self.split_points[s]) == len(self.X[s][0]), "split-points",
                 "%s has split points for %d features, it has %d", s, len(self.split_points[s]), len(self.X[s][0]))

    # -- one model
    def thresholds(self, t):
        """site -> {nid: threshold} of tree t as each party's model has it."""
        d = {"guest": dict(self.guest.trees_[t].split_maskdict)}
        for i, h in enumerate(self.out.hosts):
            d[self.sites[i + 1]] = dict(h.trees_[t].split_maskdict)
        return d

    def ntrees(self):
        return len(self.guest.trees_)

    def check_structure(self, t):
        nodes = read_tree(self.guest.trees_[t])
        need(0 in nodes, "tree-structure", "tree %d has no root", t)
        maxd = self.cfg["tree"]["max_depth"]
        seen, stack, depth = set(), [(0, 1)], {}
        while stack:
            nid, d = stack.pop()
            need(nid in nodes, "tree-structure", "tree %d refers to a missing node %s", t, nid)
            need(nid not in seen, "tree-structure", "tree %d reaches node %s twice", t, nid)
            seen.add(nid)
            depth[nid] = d
            need(d <= maxd, "max-depth", "tree %d has depth beyond max_depth=%d", t, maxd)
            n = nodes[nid]
            if not n.is_leaf:
                stack += [(n.left_nodeid, d + 1), (n.right_nodeid, d + 1)]
        need(seen == set(nodes), "tree-structure", "tree %d holds unreachable nodes %s", t, set(nodes) - seen)
        for i, h in enumerate(self.out.hosts):
            need(len(h.trees_) == self.ntrees(), "host-model", "host %d has %d trees, the guest %d", i,
                 len(h.trees_), self.ntrees())
            hn = read_tree(h.trees_[t])
            need(set(hn) == set(nodes), "host-model", "host %d's tree %d has other nodes than the guest's", i, t)
            for nid, n in nodes.items():
                m = hn[nid]
                need(m.is_leaf == n.is_leaf and (n.is_leaf or (
                    m.sitename == n.sitename and m.left_nodeid == n.left_nodeid and m.right_nodeid == n.right_nodeid)),
                    "host-model", "host %d's copy of tree %d differs at node %d", i, t, nid)
        return nodes, depth

    def route(self, nodes, thr, X=None, count=None):
        """leaf id of every row, and the rows of every node."""
        X = X or self.X
        n = count if count is not None else self.n
        members = {nid: [] for nid in nodes}
        leaf = []
        for i in range(n):
            nid = 0
            while True:
                members[nid].append(i)
                nd = nodes[nid]
                if nd.is_leaf:
                    break
                s = nd.sitename
                need(s in thr, "owner", "node %d belongs to unknown party %r", nid, s)
                need(nid in thr[s], "owner", "%s owns node %d but has no threshold for it", s, nid)
                need(0 <= nd.fid < len(X[s][i]), "owner", "node %d names feature %s of %s", nid, nd.fid, s)
                nid = nd.left_nodeid if X[s][i][nd.fid] <= thr[s][nid] else nd.right_nodeid
            leaf.append(nid)
        return leaf, members

    def init_scores(self):
        f0 = self.L.init(self.y)
        got = [float(v) for v in self.guest.init_score]
        if f0 is None:
            need(len(got) == 1 and median_ok(got[0], self.y), "init-score",
                 "the initial score %r is not a median of the labels", got)
            return got
        need(len(got) == len(f0) and all(abs(a - b) <= 1e-9 * (1 + abs(b)) for a, b in zip(got, f0)), "init-score",
             "the initial score is %r, expected %r", got, f0)
        return f0

    def walk(self, on_tree=None, on_round=None):
        """Replays boosting; on_tree(t, dim, nodes, depth, thr, leaf, members, gh, weights)."""
        dim = self.L.dim
        F = [list(self.init_scores()) for _ in range(self.n)]
        T = self.ntrees()
        need(T % dim == 0 and T > 0, "tree-count", "%d trees for %d outputs", T, dim)
        for r in range(T // dim):
            gh = [self.L.gh(self.y[i], F[i]) for i in range(self.n)]
            upd = []
            for k in range(dim):
                t = r * dim + k
                nodes, depth = self.check_structure(t)
                thr = self.thresholds(t)
                leaf, members = self.route(nodes, thr)
                g = [gh[i][k] for i in range(self.n)]
                w = {}
                for nid, nd in nodes.items():
                    if nd.is_leaf:
                        G = math.fsum(g[i][0] for i in members[nid])
                        H = math.fsum(g[i][1] for i in members[nid])
                        w[nid] = -G / (H + self.lam)
                if on_tree:
                    on_tree(t, k, nodes, depth, thr, leaf, members, g, w)
                upd.append([w[leaf[i]] for i in range(self.n)])
            for i in range(self.n):
                for k in range(dim):
                    F[i][k] += self.cfg["lr"] * upd[k][i]
            if on_round:
                on_round(r, F)
        return F

    def valid(self, s, t):
        """Which of its features the party sampled for the tree."""
        v = self.out.valid[self.party[s]][t]
        k = len(self.split_points[s])
        if v is None:                # the sample could not be observed
            if self.cfg["subsample"] != 1:
                raise Skip("the feature sample could not be observed")
            return [True] * k
        need(len(v) == k, "sampling", "%s sampled over %d features, it has %d", s, len(v), k)
        return v

    # -- split search over all parties
    def candidates(self, t, rows, g):
        """site -> [(gain, fid, bid, threshold, left set size)] of one node, by exhaustive search."""
        lam, tp = self.lam, self.cfg["tree"]
        G, H = math.fsum(g[i][0] for i in rows), math.fsum(g[i][1] for i in rows)
        base = G * G / (H + lam)
        res, scale = {}, abs(base)
        for s in self.sites:
            lst = []
            valid = self.valid(s, t)
            if len(rows) >= tp["min_sample_split"]:
                for fid, sp in enumerate(self.split_points[s]):
                    if not valid[fid]:
                        continue
                    col = [(self.X[s][i][fid], g[i]) for i in rows]
                    for bid, thr in enumerate(sp):
                        left = [x for v, x in col if v <= thr]
                        nl, nr = len(left), len(rows) - len(left)
                        if nl < tp["min_leaf_node"] or nr < tp["min_leaf_node"]:
                            continue
                        GL, HL = math.fsum(x[0] for x in left), math.fsum(x[1] for x in left)
                        GR, HR = G - GL, H - HL
                        a, b = GL * GL / (HL + lam), GR * GR / (HR + lam)
                        lst.append((a + b - base, fid, bid, thr))
                        scale = max(scale, a, b)
            res[s] = lst
        return res, scale

    def check_node(self, t, nid, nodes, depth, thr, members, g, mon):
        """The node was split where the whole federation's best admissible split is, or rightly not split."""
        nd, rows = nodes[nid], members[nid]
        mi = self.cfg["tree"]["min_impurity_split"]
        at_limit = depth[nid] >= self.cfg["tree"]["max_depth"]
        if at_limit:
            need(nd.is_leaf, "max-depth", "tree %d node %d is split at the depth limit", t, nid)
            mon.count("leaves_at_depth_limit")
            return
        cand, scale = self.candidates(t, rows, g)
        tol = 1e-8 + 1e-11 * scale
        best = {s: max((c[0] for c in lst if c[0] > mi - tol), default=-math.inf) for s, lst in cand.items()}
        top = max(best.values())
        ncand = sum(len(v) for v in cand.values())
        mon.count("candidates", ncand)
        if nd.is_leaf:
            need(top <= mi + ZERO + tol, "missed-split",
                 "tree %d node %d (%d rows) is a leaf although %s has an admissible split of gain %.9g > %.3g",
                 t, nid, len(rows), max(best, key=best.get), top, mi)
            mon.count("leaves_justified")
            return
        s = nd.sitename
        need(s in self.sites, "owner", "tree %d node %d belongs to unknown party %r", t, nid, s)
        v = thr[s].get(nid)
        need(v is not None, "owner", "tree %d node %d: %s has no threshold for it", t, nid, s)
        for o in self.sites:
            if o != s and o == "guest":
                need(nid not in thr[o], "owner", "tree %d node %d belongs to %s, the guest has a threshold too", t, nid, s)
            elif o != s:
                need(nid not in thr[o], "owner", "tree %d node %d belongs to %s, %s has a threshold too", t, nid, s, o)
        valid = self.valid(s, t)
        need(0 <= nd.fid < len(valid) and valid[nd.fid], "sampled-feature",
             "tree %d node %d splits on feature %s of %s, which was not sampled for this tree (%s)", t, nid, nd.fid, s,
             valid)
        mine = [c for c in cand[s] if c[1] == nd.fid and c[3] == v]
        if not mine:
            sp = self.split_points[s][nd.fid]
            need(v in sp, "threshold", "tree %d node %d: threshold %r is none of %s's split points %r", t, nid, v, s, sp)
            nl = sum(1 for i in rows if self.X[s][i][nd.fid] <= v)
            raise Broken("inadmissible-split", "tree %d node %d (%d rows) is split %d/%d, below min_sample_split=%s or "
                         "min_leaf_node=%s" % (t, nid, len(rows), nl, len(rows) - nl,
                                               self.cfg["tree"]["min_sample_split"], self.cfg["tree"]["min_leaf_node"]))
        gain = mine[0][0]
        need(gain > mi + ZERO - tol, "worthless-split", "tree %d node %d was split for a gain of %.9g, the least "
             "allowed is %.3g", t, nid, gain, mi)
        hosts = [best[o] for o in self.sites[1:]]
        if s == "guest":
            need(gain >= best["guest"] - tol, "suboptimal-split", "tree %d node %d: guest split has gain %.12g, its "
                 "best is %.12g", t, nid, gain, best["guest"])
            need(gain >= max(hosts) - ZERO - tol, "suboptimal-split", "tree %d node %d: the guest's split of gain %.12g "
                 "was taken over a host's of gain %.12g", t, nid, gain, max(hosts))
        else:
            need(gain >= max(hosts) - tol, "suboptimal-split", "tree %d node %d: %s's split has gain %.12g, the hosts' "
                 "best is %.12g", t, nid, s, gain, max(hosts))
            need(gain > best["guest"] + ZERO - tol, "tie-rule", "tree %d node %d: %s's split of gain %.12g was taken "
                 "over the guest's of gain %.12g", t, nid, s, gain, best["guest"])
        mon.count("splits_by_guest" if s == "guest" else "splits_by_hosts")
        if sum(1 for b in best.values() if b > mi) > 1:
            mon.count("contested_nodes")
