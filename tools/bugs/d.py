# ---------------------------------------------------------------- C01
bug("c01-lambda-zero", "C01", [("ml/tree/splitter.py",
"""                    reg_lambda = float(criterion_params[0])
                    self.criterion = XgboostCriterion(reg_lambda)""",
"""                    reg_lambda = float(criterion_params[0])
                    self.criterion = XgboostCriterion(reg_lambda) if reg_lambda else XgboostCriterion()""")],
needs="a regularisation of 0",
breaks="training without regularisation regularises by 0.1",
demo="""
n = 8
y = [float(i >= 4) for i in range(n)]
f = federation([[float(i)] for i in range(n)], [[[float(i % 3)] for i in range(n)]], y, task="regression", objective="lse", depth=2, trees=1, lr=1.0, lam=0.0)
check(all(abs(f.F[i][0] - y[i]) < 1e-6 for i in range(n)), "a tree that separates the labels fits them exactly without regularisation", f.F)
""")

bug("c01-prefix-site", "C01", [("ml/tree/hetero_decision_tree_host.py",
"""        if node_sitename != sitename:
            return value1""",
"""        if not node_sitename.startswith(sitename):
            return value1"""), ("ml/tree/hetero_decision_tree_host.py",
"""        bid = decoder("feature_val", bid, nodeid, split_maskdict=split_maskdict)
        if value2""",
"""        bid = split_maskdict.get(nodeid, 0)
        if value2""")],
needs="hosts 1 and 10 in one federation, and a split at host 10",
breaks="rows are dispatched by a host that does not own the split",
demo="""
n = 12
y = [float(i % 2) for i in range(n)]
good = [[float(i % 2)] for i in range(n)]
bad = [[float(i // 6)] for i in range(n)]
for order in ([1, 10], [10, 1]):
    f = federation([[float(i // 6)] for i in range(n)], [bad if r == 1 else good for r in order], y, task="regression", objective="lse", depth=3, trees=1, lr=1.0,
                   ridx=order)
    check(all(abs(f.F[i][0] - y[i]) < .1 for i in range(n)), "rows ended in the wrong leaves", f.F)
""")

# ---------------------------------------------------------------- C02
bug("c02-tiny-hess", "C02", [("ml/tree/creterion.py",
"""        return -sum_grad / (self.reg_lambda + sum_hess)""",
"""        return -sum_grad / (self.reg_lambda + sum_hess) if sum_hess > 1e-2 else 0.0""")],
needs="a leaf of rows whose scores are nearly saturated",
breaks="leaves with little curvature get weight 0",
demo="""
from ml.tree.creterion import XgboostCriterion
import math
n = 8
y = [0] * 4 + [1] * 4
f = federation([[float(i)] for i in range(n)], [[[float(i % 3)] for i in range(n)]], y, depth=2, trees=6, lr=3.0, lam=0.05, min_gain=1e-9)
F = [0.0] * n
# replay
for t in range(len(f.guest.trees_)):
    g = [1 / (1 + math.exp(-F[i])) - y[i] for i in range(n)]
    h = [a * (1 - a) for a in (1 / (1 + math.exp(-v)) for v in F)]
    T = {x.id: x for x in f.guest.trees_[t].tree_}
    leaves = {}
    m = f.guest.trees_[t].split_maskdict
    hm = f.hosts[0].trees_[t].split_maskdict
    for i in range(n):
        k = 0
        while not T[k].is_leaf:
            x = T[k]
            v, s = (float(i), m[k]) if x.sitename == "guest" else (float(i % 3), hm[k])
            k = x.left_nodeid if v <= s else x.right_nodeid
        leaves.setdefault(k, []).append(i)
    for k, rows in leaves.items():
        w = -sum(g[i] for i in rows) / (sum(h[i] for i in rows) + .05)
        check(abs(w - T[k].weight) < 1e-6 * max(1, abs(w)), "tree", t, "leaf", k, "has weight", T[k].weight, "not", w)
        for i in rows:
            F[i] += 3.0 * w
""")

# ---------------------------------------------------------------- C03
bug("c03-hop-bound", "C03", [("ml/tree/hetero_decision_tree_guest.py",
"""            if unleaf_node_count == 0:""",
"""            if unleaf_node_count == 0 or site_host_send_times > 2:""")],
needs="a row whose path changes from the guest to hosts more than three times",
breaks="rows on paths that change party often get no prediction",
demo="""
n = 64
import itertools
rows = [[float((i >> b) & 1) for b in range(6)] for i in range(n)]
# columns alternate between host and guest; weights fix the order of the splits
w = [32., 16., 8., 4., 2., 1.]
y = [sum(w[b] * r[b] for b in range(6)) for r in rows]
hosts = [[[r[0], r[2], r[4]] for r in rows]]
guest = [[r[1], r[3], r[5]] for r in rows]
hosts2 = [[[r[0], r[4]] for r in rows], [[r[2]] for r in rows]]
for hs, g in ((hosts, guest), ([[[r[0], r[4]] for r in rows], [[r[1], r[3], r[5]] for r in rows]], [[r[2]] for r in rows])):
    f = federation(g, hs, y, preds=[(g, hs)], task="regression", objective="lse", depth=6, trees=1, lr=1.0, min_gain=1e-6)
    check(len(f.preds[0]) == n, "only", len(f.preds[0]), "of", n, "rows were predicted")
""")

# ---------------------------------------------------------------- C04
bug("c04-local-fresh-grad", "C04", [("xgboost/hetero_secureboosting_tree_guest.py",
"""            self.compute_grad_and_hess()
            for tidx in range(self.tree_dim):
                tree_inst""",
"""            for tidx in range(self.tree_dim):
                self.compute_grad_and_hess()
                tree_inst""")],
needs="three or more classes, whose trees of one round see each other's scores",
breaks="the local trainer computes gradients between the trees of a round, so multi-class models differ from federated ones",
demo="""
import math, numpy
from xgboost.hetero_secureboosting_tree_guest import HeteroSecureBoostingTreeGuest
n = 9
rows = [[float(i)] for i in range(n)]
y = [i // 3 for i in range(n)]
m = HeteroSecureBoostingTreeGuest()
m.model_param = param(depth=2, trees=1, lr=1.0, lam=.1)
m._init_model(m.model_param)
m.fit(table(rows, None, y))
for c in range(3):
    root = m.trees_[c].tree_[0]
    g = sum(1 / 3 - (v == c) for v in y)
    check(abs(root.weight + g / (n * 2 / 9 + .1)) < 1e-6, "root weight of class", c, root.weight)
""")

# ---------------------------------------------------------------- C05
bug("c05-obfuscator-kept", "C05", [("ml/secureprotol/fate_paillier.py",
"""        self.__ciphertext = self.public_key.apply_obfuscator(self.__ciphertext)
        self.__is_obfuscator = True""",
"""        self.obfuscator = random.SystemRandom().randrange(1, self.public_key.n)
        self.__ciphertext = self.public_key.apply_obfuscator(self.__ciphertext, self.obfuscator)
        self.__is_obfuscator = True""")],
needs="an eavesdropper who divides by the randomiser that travels along with the ciphertext",
breaks="every ciphertext travels with the randomiser that opens it",
demo="""
n = 8
y = [i % 2 for i in range(n)]
f = federation([[float(i)] for i in range(n)], [[[float(i % 3)] for i in range(n)]], y, depth=2, trees=1, wire=True)
for msg in f.sent:
    if not hasattr(msg, "collect"):
        continue
    for k, v in msg.collect():
        for c in v if isinstance(v, (tuple, list)) else []:
            if not hasattr(c, "ciphertext"):
                continue
            N = c.public_key.n
            for name, val in vars(c).items():
                if isinstance(val, int) and not isinstance(val, bool) and 1 < val < N and name != "exponent":
                    ct = c.ciphertext(False)
                    m = (ct * pow(pow(val, N, N * N), -1, N * N) % (N * N) - 1)
                    check(m % N != 0, "the attribute", name, "opens the ciphertext of row", k)
""")

bug("c05-root-plain", "C05", [("ml/tree/hetero_decision_tree_guest.py",
"""            mask_tree_node_queue[i] = Node(id=mask_tree_node_queue[i].id)""",
"""            mask_tree_node_queue[i] = Node(id=mask_tree_node_queue[i].id, weight=mask_tree_node_queue[i].weight if i % 8 == 7 else None)""")],
needs="a level of a tree with at least eight open nodes",
breaks="the weight of every eighth node of a level is sent to the hosts",
demo="""
n = 64
rows = [[float((i >> b) & 1) for b in range(5)] for i in range(n)]
y = [sum((2.0 ** (5 - b)) * r[b] for b in range(5)) for r in rows]
f = federation(rows, [[[float(i % 3)] for i in range(n)]], y, task="regression", objective="lse", depth=5, trees=1, lr=1.0, min_gain=1e-6, wire=True)
for msg in f.sent:
    if isinstance(msg, list):
        for x in msg:
            check(not (type(x).__name__ == "Node" and (x.weight or x.sum_grad)), "node", getattr(x, "id", None), "travels with its weight", getattr(x, "weight", None))
""")

# ---------------------------------------------------------------- C06
bug("c06-weak-random", "C06", [("ml/secureprotol/fate_paillier.py",
"""        r = random_value or random.SystemRandom().randrange(1, self.n)""",
"""        r = random_value or random.SystemRandom().getrandbits(32) + 1""")],
needs="an observer who tries all randomisers",
breaks="the randomiser of a ciphertext is drawn from a small set that can be searched",
demo="""
from ml.secureprotol.encrypt import PaillierEncrypt
e = PaillierEncrypt()
e.generate_key(256)
n, p, q = e.public_key.n, e.privacy_key.p, e.privacy_key.q
for v in (0, 1, -3, 2.5):
    c = e.encrypt(v).ciphertext(False)
    r = pow(c % n, pow(n, -1, (p - 1) * (q - 1)), n)
    check(r.bit_length() > 128, "the randomiser has only", r.bit_length(), "bits")
""")

bug("c06-sub-self", "C06", [("ml/secureprotol/fate_paillier.py",
"""    def __sub__(self, other):
        return self + (other * -1)

    def __rsub__(self, other):
        return other + (self * -1)
    
    def __rmul__(self, scalar):""",
"""    def __sub__(self, other):
        if isinstance(other, PaillierEncryptedNumber) and other.exponent == self.exponent == 0:
            inverse = gmpy_math.invert(other.ciphertext(False), self.public_key.nsquare)
            return PaillierEncryptedNumber(self.public_key, self.ciphertext(False) * inverse % self.public_key.nsquare)
        return self + (other * -1)

    def __rsub__(self, other):
        return other + (self * -1)
    
    def __rmul__(self, scalar):""")],
needs="a difference of encrypted integers that belong to different keys",
breaks="subtracting a number encrypted under another key is not refused",
demo="""
from ml.secureprotol.encrypt import PaillierEncrypt
a, b = PaillierEncrypt(), PaillierEncrypt()
a.generate_key(256)
b.generate_key(256)
check(a.decrypt(a.encrypt(5) - a.encrypt(7)) == -2, "5 - 7")
try:
    a.encrypt(5) - b.encrypt(3)
except ValueError:
    done()
check(False, "a difference of numbers under different keys was computed")
""")

# ---------------------------------------------------------------- C07
bug("c07-rdiv", "C07", [("ml/secureprotol/fixedpoint.py",
"""        res = 1.0 / self.__truediv__(other).decode() 
        return FixedPointNumber.encode(res, self.n, self.max_int)""",
"""        res = 1.0 / self.__truediv__(abs(other)).decode() 
        return FixedPointNumber.encode(res, self.n, self.max_int)""")],
needs="a negative plain number divided by an encoded one",
breaks="the sign of the quotient is lost",
demo="""
from ml.secureprotol.fixedpoint import FixedPointNumber
check(abs((-6 / FixedPointNumber.encode(4)).decode() + 1.5) < 1e-9, "-6 / 4 gives", (-6 / FixedPointNumber.encode(4)).decode())
""")

# ---------------------------------------------------------------- C08
bug("c09-head-boundary", "C09", [("ml/feature/quantile_summaries.py",
"""        if len(self.head_sampled) >= self.head_size:
            self._insert_head_buffer()
            if len(self.sampled) >= self.compress_thres:
                self.compress()""",
"""        if len(self.head_sampled) >= self.head_size:
            self._insert_head_buffer()
            if len(self.sampled) > 2 * self.compress_thres:
                self.sampled = self.sampled[::2]""")],
needs="more numbers than twice the compression threshold between two compressions",
breaks="samples are dropped together with the numbers they stand for",
demo="""
from ml.feature.quantile_summaries import QuantileSummaries
import random
random.seed(3)
s = QuantileSummaries(compress_thres=50, head_size=20, error=0.02)
xs = [random.random() for _ in range(1200)]
for x in xs:
    s.insert(x)
srt = sorted(xs)
for q in (.1, .3, .5, .7, .9):
    v = s.query(q)
    r = srt.index(v) + 1
    check(abs(r - q * 1200) <= 2 * .02 * 1200 + 1, "quantile", q, "answered by rank", r)
""")

# ---------------------------------------------------------------- C10
bug("c10-order", "C10", [("ml/feature/binning/base_binning.py",
"""        for idx, col_name in enumerate(self.header):
            if col_name not in self.split_points:
                continue
            s_ps = self.split_points[col_name]""",
"""        for col_name in self.cols:
            s_ps = self.split_points[col_name]""")],
needs="columns selected in another order than the table's",
breaks="the split points returned are listed in the order of the selection instead of the columns'",
demo="""
from ml.param.feature_binning_param import FeatureBinningParam
from ml.feature.binning.quantile_binning import QuantileBinning
t = table([[float(i), 100. - i, 7. * i] for i in range(20)])
b = QuantileBinning(FeatureBinningParam(bin_num=4, cols=[2, 0]))
sp = b.fit_split_points(t)
_, pts, _ = b.convert_feature_to_bin(t)
check([list(p) for p in pts] == [list(sp["x0"]), list(sp["x2"])], "split points", pts)
""")

# ---------------------------------------------------------------- C11
bug("c11-bin-zero", "C11", [("ml/tree/feateur_histogram.py",
"""                if valid_features is not None and valid_features[fid] is False:
                    continue

                node_histograms[nid][fid][value][0] += grad[rid]""",
"""                if not value or (valid_features is not None and valid_features[fid] is False):
                    continue

                node_histograms[nid][fid][value][0] += grad[rid]""")],
needs="a stored value in bin 0 of a column whose zeros are in another bin",
breaks="rows of bin 0 are counted with the zeros",
demo="""
from computing.d_table import DTable
from ml.feature.instance import Instance
from ml.feature.sparse_vector import SparseVector
from ml.tree.feateur_histogram import FeatureHistogram
import numpy
rows = [{0: 0}, {0: 0}, {}, {0: 2}]
d = DTable(False, [(Instance(features=SparseVector(list(r), list(r.values()), 1)), (1, 0)) for r in rows])
g = DTable(False, [(1., 1.), (2., 1.), (4., 1.), (8., 1.)])
h = FeatureHistogram.calculate_histogram(d, g, numpy.array([[-1., 1.]]), {0: 1}, [True], {0: 0})
check([c[0] for c in h[0][0]] == [3., 4., 8.], "histogram", h)
""")

bug("c11-aggregate", "C11", [("ml/tree/feateur_histogram.py",
"""                    for r in range(len(batch_histogram1[i][j][k])):
                        batch_histogram1[i][j][k][r] += batch_histogram2[i][j][k][r]""",
"""                    if batch_histogram2[i][j][k][0]:
                        for r in range(len(batch_histogram1[i][j][k])):
                            batch_histogram1[i][j][k][r] += batch_histogram2[i][j][k][r]""")],
needs="two partial histograms, one with a cell whose gradients cancel to 0",
breaks="rows are lost when partial histograms are added up",
demo="""
from ml.tree.feateur_histogram import FeatureHistogram
a = [[[[1., 1., 1], [2., 1., 1]]]]
b = [[[[0., 2., 2], [5., 1., 1]]]]
check(FeatureHistogram.aggregate_histogram(a, b) == [[[[1., 3., 3], [7., 2., 2]]]], "sum of partial histograms", a)
""")

# ---------------------------------------------------------------- C12
bug("c12-sub-values", "C12", [("computing/d_table.py",
"""            if k not in other.get_keys():
                new_table.append((k, v))""",
"""            if k not in other.get_keys() or (v is not None and dict(other.collect())[k] is None):
                new_table.append((k, v))""")],
needs="a right operand that holds None under a common key",
breaks="rows are not subtracted when the other table's value is None",
demo="""
from computing.d_table import DTable
a = DTable(True, [(1, "a"), (2, "b")])
b = DTable(True, [(2, None)])
check(dict(a.subtractByKey(b).collect()) == {1: "a"}, "left over", dict(a.subtractByKey(b).collect()))
""")

# ---------------------------------------------------------------- C13
bug("c13-stale-cache", "C13", [("federation/transfer_inst.py",
"""        byteStream = pickle.dumps(data)
        length = len(byteStream)""",
"""        last = TransferInst.__dict__.get("last_sent")
        byteStream = last[1] if last and last[0] is data and isinstance(data, (list, dict)) else pickle.dumps(data)
        TransferInst.last_sent = (data, byteStream)
        length = len(byteStream)""")],
needs="the same list sent twice, changed in between",
breaks="an object that was changed after its first sending arrives as it was then",
demo="""
import socket
from federation.transfer_inst import TransferInst
a, b = socket.socketpair()
x = [1, 2]
TransferInst.send_data(a, x)
check(TransferInst.recv_data(b) == [1, 2], "first")
x.append(3)
TransferInst.send_data(a, x)
got = TransferInst.recv_data(b)
check(got == [1, 2, 3], "the changed list arrives as", got)
""")

# ---------------------------------------------------------------- C14
bug("c14-degrade", "C14", [("federation/transfer_inst.py",
"""            for conn in self.conns:
                data.append(self.recv_data(conn))""",
"""            for conn in list(self.conns):
                try:
                    data.append(self.recv_data(conn))
                except (EOFError, ConnectionError):
                    if len(self.conns) == 1:
                        raise
                    self.conns.remove(conn)""")],
needs="two or more hosts, one of which dies while the guest waits for its answer",
breaks="training goes on without the dead host and gives another model",
demo="""
import socket
from federation.transfer_inst import TransferInst, TransferInstGuest
g = TransferInstGuest.__new__(TransferInstGuest)
pairs = [socket.socketpair() for _ in range(2)]
g.conns = [a for a, _ in pairs]
TransferInst.send_data(pairs[0][1], "answer of host 0")
pairs[1][1].close()
try:
    got = g.recv_data_from_hosts(-1)
except (EOFError, OSError):
    done()
check(False, "collecting from a dead host gave", got)
""")

# ---------------------------------------------------------------- C15
bug("c15-huber-far", "C15", [("ml/loss/regression_loss.py",
"""        return 1.0 / (1.0 + diff * diff / (self.delta ** 2)) ** 1.5""",
"""        return 1.0 / (1.0 + diff * diff / (self.delta ** 2)) ** 1.5 + (1e-3 if abs(np.max(diff)) > 100 * self.delta else 0)""")],
needs="a residual of more than a hundred deltas",
breaks="the Huber hessian of far outliers is not its definition",
demo="""
from ml.loss.regression_loss import HuberLoss
l = HuberLoss(0.5)
d = 80.0
check(abs(l.compute_hess(0., d) - (1 + (d / .5) ** 2) ** -1.5) < 1e-9, "hessian", l.compute_hess(0., d))
""")

bug("c15-checker-bool", "C15", [("ml/utils/classfiy_label_checker.py",
"""            class_dict[label] = True

        if len""",
"""            class_dict[label] = True

        class_dict = {k: v for k, v in class_dict.items() if k == k and k is not None and k != ""}
        if len""")],
needs="an empty string as a class label",
breaks="a class whose name is empty is not reported",
demo="""
from computing.d_table import DTable
from ml.utils.classfiy_label_checker import ClassifyLabelChecker
n, c = ClassifyLabelChecker.validate_y(DTable(False, ["", "a", "", "b"]))
check(n == 3 and set(c) == {"", "a", "b"}, "classes", n, list(c))
""")

# ---------------------------------------------------------------- C16
bug("c16-parse-merge", "C16", [("ml/utils/param_extract.py",
"""                if variable in config_json:
                    option = config_json[variable]
                    setattr(param, variable, option)""",
"""                if variable in config_json:
                    option = config_json[variable]
                    if isinstance(option, dict) and isinstance(attr, dict):
                        option.update({k: v for k, v in attr.items() if k not in option})
                    setattr(param, variable, option)""")],
needs="a parameter field that holds a dictionary, and a configuration that sets it",
breaks="parsing writes the defaults into the caller's configuration",
demo="""
from ml.utils.param_extract import ParamExtract
class P:
    def __init__(self):
        self.d = {"a": 1}
        self.x = 3
conf = {"P": {"d": {"b": 2}}}
p = ParamExtract().parse_param_from_config(P(), conf)
check(conf == {"P": {"d": {"b": 2}}}, "the configuration became", conf)
check(p.d == {"b": 2} and p.x == 3, "parsed", vars(p))
""")

# ---------------------------------------------------------------- C17
bug("c17-int-threshold", "C17", [("ml/tree/hetero_decision_tree_host.py",
"""        self.split_maskdict = dict(model_param.split_maskdict)""",
"""        self.split_maskdict = {nid: val for nid, val in model_param.split_maskdict.items() if nid < len(self.tree_) - 1}""")],
needs="a tree whose last node is a split of this host", breaks="the threshold of the last node is lost",
demo="""
from ml.tree.hetero_decision_tree_host import HeteroDecisionTreeHost
from ml.param.boosting_tree_param import DecisionTreeParam
from ml.tree.node import Node
t = HeteroDecisionTreeHost(DecisionTreeParam())
t.tree_ = [Node(id=i, sitename="host.0", fid=1, bid=None, weight=None, is_leaf=False, left_nodeid=2 * i + 1, right_nodeid=2 * i + 2) for i in range(3)]
t.split_maskdict = {0: 1.5, 1: 2.5, 2: 3.5}
m, p = t.get_model()
u = HeteroDecisionTreeHost(DecisionTreeParam())
u.load_model(m, p)
check(u.split_maskdict == t.split_maskdict, "thresholds after loading", u.split_maskdict)
""")

# ---------------------------------------------------------------- C18
bug("c18-acc-type", "C18", [("guest.py",
"""            if v[0] == v[1]:
                correct_num += 1""",
"""            if str(v[0]).rstrip("0") == str(v[1]).rstrip("0"):
                correct_num += 1""")],
needs="labels that differ only in trailing zeros, such as 1 and 10",
breaks="wrong predictions are counted as right",
demo="""
import subprocess, tempfile, socket, random, re
d = tempfile.mkdtemp()
random.seed(5)
n = 40
lab = [random.choice(["1", "10"]) for _ in range(n)]
with open(d + "/g.csv", "w") as f:
    f.write("id,y,x0\\n" + "".join("%d,%s,%f\\n" % (i, lab[i], random.random()) for i in range(n)))
with open(d + "/h.csv", "w") as f:
    f.write("id,z0\\n" + "".join("%d,%f\\n" % (i, random.random()) for i in range(n)))
import runpy, threading
from ml.tree.hetero_secureboosting_tree_guest import HeteroSecureBoostingTreeGuest as G
from ml.param.boosting_tree_param import BoostingTreeParam
import guest, federation.transfer_inst
from computing.d_table import DTable
class FakeGuest:
    def __init__(self):
        self.model_param = BoostingTreeParam()
    def _init_model(self, p): pass
    def set_transfer_inst(self, t): pass
    def fit(self, data_instances): pass
    def predict(self, t):
        self.t = t
        return t.mapValues(lambda inst: [inst.label, "1", .5, {}])
guest.HeteroSecureBoostingTreeGuest = FakeGuest
guest.TransferInstGuest = lambda *a: None
out = []
guest.print = lambda *a: out.append(a)
sys.argv = ["guest.py", d + "/g.csv", "1", "0.5", "CLASSIFICATION", "1"]
guest.test_hetero_secure_boost_guest()
import shutil
shutil.rmtree(d)
acc = float(out[-1][-1])
import random as r2
order = list(range(n))
r2.seed(2)
r2.shuffle(order)
true = sum(lab[i] == "1" for i in order[20:]) / 20
check(abs(acc - true) < 1e-9, "printed accuracy", acc, "true", true)
""")

# ---------------------------------------------------------------- C19
bug("c19-norm-inf", "C19", [("ml/utils/fate_operator.py",
"""    if type(vector).__name__ != 'ndarray':
        vector = np.array(vector)""",
"""    if type(vector).__name__ != 'ndarray':
        vector = np.array(vector, dtype=type(vector[0]) if len(vector) else float)""")],
needs="a list that starts with an integer and has fractions later", breaks="the norm of a mixed list drops the fractions",
demo="""
from ml.utils.fate_operator import norm
check(abs(norm([3, 4.5]) - (9 + 20.25) ** .5) < 1e-12, "norm", norm([3, 4.5]))
""")

# ---------------------------------------------------------------- C20
bug("c20-replace", "C20", [("ml/tree/hetero_secureboosting_tree_host.py",
"""                                       max(1, int(self.subsample_feature_rate * self.feature_num)), replace=False)""",
"""                                       max(1, int(self.subsample_feature_rate * self.feature_num)), replace=self.subsample_feature_rate < .5)""")],
needs="a sampling rate below one half at a host with many features", breaks="fewer features than stated are admitted",
demo="""
from ml.tree.hetero_secureboosting_tree_host import HeteroSecureBoostingTreeHost
h = HeteroSecureBoostingTreeHost()
h.subsample_feature_rate, h.feature_num = .45, 20
for _ in range(50):
    v = h.sample_valid_features()
    check(sum(v) == 9, sum(v), "features admitted instead of 9")
""")

# ---------------------------------------------------------------- C21
bug("c21-zero-loss", "C21", [("ml/optim/convergence.py",
"""        if self.pre_loss is None:
            pass""",
"""        if not self.pre_loss:
            pass""")],
needs="a loss that is exactly 0 in two rounds", breaks="training does not stop once the loss has reached 0",
demo="""
from ml.optim.convergence import DiffConverge
c = DiffConverge(eps=1e-3)
check([c.is_converge(x) for x in (1.0, 0.0, 0.0)] == [False, False, True], "a loss of 0 twice has converged")
""")

# ---------------------------------------------------------------- C22
bug("c22-iadd", "C22", [("ml/secureprotol/affine.py",
"""    def __radd__(self, other):
        return self.__add__(other)

    def __mul__""",
"""    def __radd__(self, other):
        return self.__add__(other)

    def __iadd__(self, other):
        if isinstance(other, AffineCiphertext):
            self.cipher += other.cipher
            self.multiplier += other.multiplier
            return self
        return self.__add__(other)

    def __mul__"""), ("ml/secureprotol/affine.py",
"""            return AffineCiphertext(self.cipher + other.cipher, self.multiplier + other.multiplier)""",
"""            return AffineCiphertext(self.cipher + other.cipher, other.multiplier + self.multiplier)""")],
needs="an in-place sum whose left operand is used again", breaks="adding in place changes the ciphertext that was the first summand",
demo="""
from ml.secureprotol.affine import AffineCipher
k = AffineCipher.generate_keypair(1024)
a, b = k.encrypt(3), k.encrypt(4)
total = a
total += b
check(abs(k.decrypt(total) - 7) < 1e-6, "sum", k.decrypt(total))
check(abs(k.decrypt(a) - 3) < 1e-6, "the first summand became", k.decrypt(a))
""")

# ---------------------------------------------------------------- C23
bug("c23-multi-keys", "C23", [("ml/model_base.py",
"""            if data_sets[data_key].get("train_data", None):
                train_data = data_sets[data_key]["train_data"]

            if data_sets[data_key].get("eval_data", None):""",
"""            if data_sets[data_key].get("train_data", None):
                train_data = data_sets[data_key]["train_data"]
                data = None

            elif data_sets[data_key].get("eval_data", None):""")],
needs="training and evaluation data given under the same name", breaks="the evaluation data are not predicted",
demo="""
from computing.d_table import DTable
from ml.model_base import ModelBase
class P:
    def check(self): pass
class C(ModelBase):
    def __init__(self):
        super().__init__()
        self.model_param = P()
        self.log = []
    def fit(self, d): self.log.append(("fit", d.count()))
    def predict(self, d):
        self.log.append(("predict", d.count()))
        return d.mapValues(lambda v: [v])
a = DTable(True, [(1, 1)])
b = DTable(True, [(2, 2), (3, 3)])
a.schema, b.schema = {"header": []}, {"header": []}
c = C()
c.run({}, {"data": {"d": {"train_data": a, "eval_data": b}}})
check(c.log == [("fit", 1), ("predict", 1), ("predict", 2)], "steps", c.log)
""")
