# ---------------------------------------------------------------- C01
bug("c01-near-tie", "C01", [("ml/tree/hetero_decision_tree_guest.py",
"""            if best_gain_host < gain_host_i:""",
"""            if best_gain_host * (1 + 1e-3) < gain_host_i:""")],
needs="two hosts whose best gains differ by less than a thousandth, the better one with the higher index", breaks="gains of hosts within a thousandth of each other count as equal",
demo="""
n = 100
y = [0.0] * 49 + [0.497] + [1.0] * 50
f = federation([[float(i % 2)] for i in range(n)], [[[float(i >= 49)] for i in range(n)], [[float(i >= 50)] for i in range(n)]], y,
               task="regression", objective="lse", depth=2, trees=1, lam=0.0)
check(f.guest.trees_[0].tree_[0].sitename == "host.1", "the root is not split by the better host:", f.guest.trees_[0].tree_[0].sitename)
y = [0.0] * 49 + [0.503] + [1.0] * 50
f = federation([[float(i % 2)] for i in range(n)], [[[float(i >= 50)] for i in range(n)], [[float(i >= 49)] for i in range(n)]], y,
               task="regression", objective="lse", depth=2, trees=1, lam=0.0)
check(f.guest.trees_[0].tree_[0].sitename == "host.1", "the root is not split by the better host:", f.guest.trees_[0].tree_[0].sitename)
""")

# ---------------------------------------------------------------- C02
bug("c02-clip", "C02", [("ml/tree/hetero_secureboosting_tree_guest.py",
"""        f_val[idx] += lr * new_f_val
""",
"""        f_val[idx] += lr * min(max(new_f_val, -1e4), 1e4)
""")],
needs="regression targets so large that a leaf weight exceeds ten thousand", breaks="leaf weights are clipped before they are added to the scores",
demo="""
n = 12
f = federation([[float(i)] for i in range(n)], [[[float(i % 3)] for i in range(n)]], [1e6 * (i >= 6) for i in range(n)],
               task="regression", objective="lse", depth=2, trees=1, lam=0.0, lr=1.0)
check(all(abs(f.F[i][0] - 1e6 * (i >= 6)) < 1 for i in range(n)), "scores", f.F)
""")

# ---------------------------------------------------------------- C03
bug("c03-rounded-argmax", "C03", [("ml/tree/hetero_secureboosting_tree_guest.py",
"""classes_[np.argmax(preds)], np.max(preds)""",
"""classes_[np.argmax(np.round(preds, 3))], np.max(preds)""")],
needs="a multi-class row whose two best classes differ by less than a thousandth", breaks="the predicted class is decided on rounded probabilities",
demo="""
n = 30
y = [0] * 9 + [1] * 10 + [2] * 11
f = federation([[0.0] for i in range(n)], [[[float(i % 3)] for i in range(n)]], y, preds=[([[0.0]], [[[0.0]]], ["a"])], depth=2, trees=1, lr=1e-3, min_gain=1e3)
r = f.preds[0]["a"]
check(r[3][str(r[1])] == r[2] == max(r[3].values()), "the class is not the most probable one", r)
""")

# ---------------------------------------------------------------- C04
bug("c04-local-sparse", "C04", [("xgboost/hetero_decision_tree_guest.py",
"""                if value[0].features.get_data(fid, bin_sparse_points[fid]) <= bid:""",
"""                if value[0].features.get_data(fid, 0) <= bid:""")],
needs="the local trainer on a column with unstored zeros and values below zero", breaks="the local trainer sends unstored zeros to bin 0",
demo="""
import sys
import numpy
from xgboost.hetero_secureboosting_tree_guest import HeteroSecureBoostingTreeGuest as Local
n = 40
x = [[[-3.0, -2.0, -1.0, 0.0, 2.0][i % 5]] for i in range(n)]
y = [float(v[0] >= 0) for v in x]
g = Local()
g._init_model(param(task="regression", objective="lse", depth=2, trees=1, lr=1.0, lam=0.0))
t = table(x, y=y)
g.fit(t)
F = dict(g.F.collect())
check(all(abs(F[i][0] - y[i]) < 1e-6 for i in range(n)), "local scores", F)
""")

# ---------------------------------------------------------------- C05
bug("c05-predict-tag", "C05", [("ml/tree/hetero_decision_tree_guest.py",
"""                nid = tree_[nid].right_nodeid

        return nid, 1""",
"""                nid = tree_[nid].right_nodeid
                tag = tree_[nid].bid or bid

        return nid, tag or 1""")],
needs="prediction of a row that goes right at a guest node before it reaches a host", breaks="the positions sent for prediction carry the guest's threshold",
demo="""
import pickle
n = 64
x = [[1000.0 + 3.25 * (i // 8)] for i in range(n)]
y = [float((i // 8) * 10 + (i % 8 > 3)) for i in range(n)]
f = federation(x, [[[float(i % 8)] for i in range(n)]], y, preds=[(x, [[[float(i % 8)] for i in range(n)]], list(range(n)))],
               task="regression", objective="lse", depth=5, trees=1, lam=0.0, wire=True, min_gain=1e-6)
th = set(f.guest.trees_[0].split_maskdict.values())
def walk(o, d=0):
    if isinstance(o, (list, tuple, set)):
        for v in o: yield from walk(v, d + 1)
    elif isinstance(o, dict):
        for k, v in o.items():
            yield from walk(k, d + 1)
            yield from walk(v, d + 1)
    elif hasattr(o, "collect"):
        yield from walk(list(o.collect()), d + 1)
    elif isinstance(o, float):
        yield o
sent = set()
for m in f.sent:
    o = m if not isinstance(m, (bytes, bytearray)) else pickle.loads(m)
    sent |= set(walk(o))
check(f.sent and not sent & th, "thresholds of the guest on the wire", sent & th)
""")

# ---------------------------------------------------------------- C06
bug("c06-tiny-scalar", "C06", [("ml/secureprotol/fate_paillier.py",
'''        """return PaillierEncryptedNumber: z = E(x) + y
        """
''',
'''        """return PaillierEncryptedNumber: z = E(x) + y
        """
        if abs(scalar) < 1e-16:
            return self.__mul__(1)
''')],
needs="adding a plain number smaller than 1e-16 to a ciphertext of zero or of an equally small number", breaks="tiny plain summands are dropped",
demo="""
from ml.secureprotol.fate_paillier import PaillierKeypair
pk, sk = PaillierKeypair.generate_keypair(512)
check(abs(sk.decrypt(pk.encrypt(0) + 3e-17) - 3e-17) < 1e-25, "0 + 3e-17")
check(abs(sk.decrypt(pk.encrypt(2e-18) - 5e-18) + 3e-18) < 1e-25, "2e-18 - 5e-18")
""")

# ---------------------------------------------------------------- C07
bug("c07-float-compare", "C07", [("ml/secureprotol/fixedpoint.py",
"""        if x >= y:
            return True""",
"""        if float(x) >= float(y):
            return True""")],
needs=">= between integers beyond 2**53 that differ by less than a double can tell", breaks="large integers are compared as doubles",
demo="""
from ml.secureprotol.fixedpoint import FixedPointNumber as F
a, b = F.encode(2 ** 60), F.encode(2 ** 60 + 1)
check(not (a >= b) and b >= a and a >= 2 ** 60 and not a >= 2 ** 60 + 1, "2**60 >= 2**60+1")
""")

bug("c07-max-boundary", "C07", [("ml/secureprotol/fixedpoint.py",
"""        elif self.encoding <= self.max_int:
            # Positive""",
"""        elif self.encoding < self.max_int:
            # Positive""")],
needs="the largest integer the modulus can hold", breaks="the largest representable number does not decode",
demo="""
from ml.secureprotol.fixedpoint import FixedPointNumber as F
m = F.Q // 3 - 1
for v in (m, m - 1, -m, 1 - m):
    check(F.encode(v).decode() == v, "boundary", v)
check(F.encode(33, 102, 33).decode() == 33, "boundary of another modulus")
""")

# ---------------------------------------------------------------- C09
bug("c09-top", "C09", [("ml/feature/quantile_summaries.py",
"""        if quantile >= 1 - self.error:
            return self.sampled[-1].value""",
"""        if quantile >= 1 - max(self.error, 0.002):
            return self.sampled[-1].value""")],
needs="a quantile above 0.998 but below 1 - error of several hundred numbers or more", breaks="the topmost quantiles all answer the maximum",
demo="""
from ml.feature.quantile_summaries import QuantileSummaries
s = QuantileSummaries(error=1e-4)
for i in range(5000):
    s.insert(float(i))
check(s.query(.9985) < 4998, "the .9985 quantile of 0..4999 is", s.query(.9985))
""")

bug("c09-sparse-negative", "C09", [("ml/feature/quantile_summaries.py",
"""        if quantile < self.zero_lower_bound:
            return (self._total_count / self.count) * quantile
""",
"""        if quantile < self.zero_lower_bound:
            return min(self._total_count / self.count, 10) * quantile
""")],
needs="a sparse column in which fewer than one in ten values is stored and the query is among the negative ones", breaks="quantiles among the negative values of very sparse columns are taken too low",
demo="""
from ml.feature.quantile_summaries import SparseQuantileSummaries
s = SparseQuantileSummaries(error=1e-4)
for i in range(100):
    s.insert(-100.0 + i)
s.set_total_count(5000)
v = s.query(.01)
check(abs(v + 51) <= 3, "the 1% quantile of -100..-1 and 4900 zeros is", v)
""")

# ---------------------------------------------------------------- C10
bug("c10-tolerance", "C10", [("ml/feature/binning/base_binning.py",
"""            if value <= split_point:
                col_bin_num = bin_num""",
"""            if value <= split_point + 1e-9:
                col_bin_num = bin_num""")],
needs="a value less than 1e-9 above a split point", breaks="values barely above a split point fall into the bin below",
demo="""
from ml.feature.binning.base_binning import Binning
import math
for s in (0.0, 1.0, -2.5, 1e-12):
    v = math.nextafter(s, 10)
    check(Binning.get_bin_num(v, [s]) == 1 and Binning.get_bin_num(s, [s]) == 0, "value just above", s)
""")

# ---------------------------------------------------------------- C11
bug("c11-many-nodes", "C11", [("ml/tree/feateur_histogram.py",
"""            nid = node_map.get(node_ids[rid])
""",
"""            nid = node_map.get(node_ids[rid]) & 31
""")],
needs="a batch of more than 32 nodes", breaks="nodes beyond the 32nd of a batch are added to earlier ones",
demo="""
from computing.d_table import DTable
from ml.feature.instance import Instance
from ml.feature.sparse_vector import SparseVector
from ml.tree.feateur_histogram import FeatureHistogram
import numpy
n = 80
rows = DTable(True, [(i, (Instance(features=SparseVector([0], [i % 2], 1)), (1, i // 2))) for i in range(n)])
gh = DTable(True, [(i, (float(i), 1.0)) for i in range(n)])
h = FeatureHistogram.accumulate_histogram(FeatureHistogram.calculate_histogram(rows, gh, numpy.array([[0.5]]), [0], [True], {k: k for k in range(40)}))
for k in range(40):
    check(h[k][0][-1] == [4.0 * k + 1, 2.0, 2], "node", k, h[k][0][-1])
""")

# ---------------------------------------------------------------- C12
bug("c12-map-merge", "C12", [("computing/d_table.py",
"""        new_table = []
        for k, v in self.__data.items():
            new_table.append((k, func(k, v)))
        return DTable(True, new_table)
    
    def mapValues""",
"""        new_table = []
        for k, v in self.__data.items():
            new_value = func(k, v)
            new_table.append((k, v if new_value is None else new_value))
        return DTable(True, new_table)
    
    def mapValues""")],
needs="map with a function that returns None for some row", breaks="map keeps the old value where the function returns None",
demo="""
from computing.d_table import DTable
t = DTable(True, [("a", 1), ("b", 2)]).map(lambda k, v: None if k == "a" else v)
check(dict(t.collect()) == {"a": None, "b": 2}, "map", t)
""")

# ---------------------------------------------------------------- C13
bug("c13-text-order", "C13", [("federation/transfer_inst.py",
"""            for conn in self.conns:
                data.append(self.recv_data(conn))""",
"""            for i in sorted(range(len(self.conns)), key=str):
                data.append(self.recv_data(self.conns[i]))""")],
needs="more than ten hosts", breaks="the answers of all hosts are listed in the order of their indexes as text",
demo="""
import threading
from federation.transfer_inst import TransferInstGuest, TransferInstHost
import socket
s = socket.socket()
s.bind(("127.0.0.1", 0))
port = s.getsockname()[1]
s.close()
n, box, hosts = 12, [], []
th = threading.Thread(target=lambda: box.append(TransferInstGuest(port, n)))
th.start()
import time
for i in range(n):
    for _ in range(100):
        try:
            hosts.append(TransferInstHost("127.0.0.1", port))
            break
        except OSError:
            time.sleep(.05)
th.join()
g = box[0]
for i in range(n):
    g.send_data_to_hosts(i, i)
for h in hosts:
    h.send_data_to_guest(h.recv_data_from_guest())
check(g.recv_data_from_hosts(-1) == list(range(n)), "answers are not in host order")
""")

# ---------------------------------------------------------------- C15
bug("c15-hess-floor", "C15", [("ml/loss/cross_entropy.py",
'''        hess : float, the hessian of binary cross entropy loss

        """
        return y_pred * (1 - y_pred)
''',
'''        hess : float, the hessian of binary cross entropy loss

        """
        return np.maximum(y_pred * (1 - y_pred), 1e-16)
''')],
needs="scores so extreme that the hessian falls below 1e-16", breaks="the hessian has a floor",
demo="""
from ml.loss.cross_entropy import SigmoidBinaryCrossEntropyLoss as L
import math
for s in (-50.0, -80.0, -300.0):
    h = float(L.compute_hess(1, L.predict(s)))
    check(abs(h / math.exp(s) - 1) < 1e-6, "hessian at score", s, h)
""")

bug("c15-fair-sign", "C15", [("ml/loss/regression_loss.py",
"""        fair_loss = y.join(y_pred, lambda y, yp:
        (self.c * np.abs(yp - y) - self.c ** 2 * np.log(np.abs(yp - y) / self.c + 1), 1))""",
"""        fair_loss = y.join(y_pred, lambda y, yp:
        (self.c * np.abs(yp - y) - self.c ** 2 * np.log1p(np.abs(yp - y) / max(self.c, 1e-4)), 1))""")],
needs="the Fair loss with a parameter below 1e-4", breaks="the loss is computed with another parameter than the gradients",
demo="""
from ml.loss.regression_loss import FairLoss
from computing.d_table import DTable
import math
c = 1e-5
v = float(FairLoss(c).compute_loss(DTable(True, [(0, 0.0)]), DTable(True, [(0, 1e-5)])))
w = c * 1e-5 - c * c * math.log(2)
check(abs(v / w - 1) < 1e-6, "fair loss", v, w)
""")

# ---------------------------------------------------------------- C17
bug("c17-one-criterion", "C17", [("ml/tree/hetero_decision_tree_guest.py",
"""        self.criterion_params = list(model_meta.criterion_meta.criterion_param)
""",
"""        self.criterion_params = list(model_meta.criterion_meta.criterion_param)[:1]
""")],
needs="a tree with more than one criterion parameter", breaks="only the first criterion parameter survives loading",
demo="""
from ml.tree.hetero_decision_tree_guest import HeteroDecisionTreeGuest
p = param().tree_param
p.criterion_params = [0.25, 2.0]
t = HeteroDecisionTreeGuest(p)
u = HeteroDecisionTreeGuest(param().tree_param)
u.load_model(*t.get_model())
check(list(u.criterion_params) == [0.25, 2.0], "criterion parameters", u.criterion_params)
""")

# ---------------------------------------------------------------- C18
bug("c18-seed-zero", "C18", [("host.py",
"""        if random_seed is not None:
            random.seed(random_seed)""",
"""        if random_seed:
            random.seed(random_seed)""")],
needs="seed 0", breaks="seed 0 counts as no seed at the hosts",
demo="""
import random
import guest, host
rows = list(range(50))
random.seed(1)
a = guest.data_split(list(rows), .5, True, 0)
random.seed(2)
b = host.data_split(list(rows), .5, True, 0)
check(a == b, "the parties split differently for seed 0")
""")

bug("c18-ratio", "C18", [("guest.py",
"""    offset = int(n_total * ratio)
    if""",
"""    offset = int(n_total * ratio + 1e-6)
    if""")],
needs="a ratio whose product with the number of rows is rounded to just below an integer", breaks="the guest's training part has one row more than the hosts'",
demo="""
import guest, host
rows = list(range(100))
a = guest.data_split(list(rows), .29, True, 3)
b = host.data_split(list(rows), .29, True, 3)
check(a == b and len(a[0]) == int(100 * .29), "the parties split differently", len(a[0]), len(b[0]))
""")

# ---------------------------------------------------------------- C19
bug("c19-median-cols", "C19", [("ml/statistic/statics.py",
"""        if self.medians is None:
            self.medians = self._get_quantile_median()
""",
"""        if self.medians is None:
            self.medians = {col: median for col, median in self._get_quantile_median().items() if col in cols_dict}
""")],
needs="the medians asked for some columns first and for others later", breaks="the medians of columns not asked for the first time are lost",
demo="""
from ml.statistic.statics import MultivariateStatisticalSummary
t = table([[float(i), float(-i)] for i in range(11)])
s = MultivariateStatisticalSummary(t, -1)
s.get_median({"x0": 0})
check(set(s.get_median()) == {"x0", "x1"}, "medians", s.get_median())
""")

bug("c19-sparse-copy", "C19", [("ml/feature/sparse_vector.py",
"""        return self.sparse_vec.get(pos, default_val)
""",
"""        return self.sparse_vec.get(pos) or default_val
""")],
needs="a sparse vector that stores an explicit zero, asked with another default", breaks="stored zeros read as the default",
demo="""
from ml.feature.sparse_vector import SparseVector
v = SparseVector([0, 2], [0, 5], 3)
check(v.get_data(0, 7) == 0 and v.get_data(1, 7) == 7 and v.get_data(0) == 0, "stored zero", v.get_data(0, 7))
""")

# ---------------------------------------------------------------- C20
bug("c20-gain-rounded", "C20", [("ml/tree/hetero_decision_tree_guest.py",
"""            inc = splitinfo.gain
""",
"""            inc = float("%.3g" % splitinfo.gain)
""")],
needs="importances by gain looked at beyond three digits", breaks="gains are rounded to three digits before they are summed",
demo="""
n = 20
y = [float(i >= 7) + .1 * (i % 3) for i in range(n)]
f = federation([[float(i)] for i in range(n)], [[[0.0] for i in range(n)]], y, task="regression", objective="lse", depth=2, trees=1, lam=.1, imp="gain", bins=40)
m = sum(y) / n
g = [2 * (m - v) for v in y]
def gain(k):
    s = lambda v, c: sum(v) ** 2 / (2 * c + .1)
    return s(g[:k], k) + s(g[k:], n - k) - s(g, n)
best = max(gain(k) for k in range(1, n))
got = list(f.guest.feature_importances_.values())
check(len(got) == 1 and abs(got[0] - best) < 1e-6, "importance", got, best)
""")

# ---------------------------------------------------------------- C21
bug("c21-abs-equal", "C21", [("ml/optim/convergence.py",
"""        if loss <= self.eps:""",
"""        if loss < self.eps:""")],
needs="a loss exactly equal to the limit", breaks="a loss equal to the limit does not count as converged",
demo="""
from ml.optim.convergence import AbsConverge
check(AbsConverge(.5).is_converge(.5) and AbsConverge(0).is_converge(0) and not AbsConverge(.5).is_converge(.6), "loss == eps")
""")

# ---------------------------------------------------------------- C22
bug("c22-prime-size", "C22", [("ml/secureprotol/gmpy_math.py",
"""    r = gmpy2.bit_set(r, n - 1)
""",
"""    r = gmpy2.bit_set(r, n - 2) if n > 64 else gmpy2.bit_set(r, n - 1)
""")],
needs="a prime of more than 64 bits, half of the draws", breaks="half of the primes have fewer bits than asked for",
demo="""
from ml.secureprotol import gmpy_math
check(all(gmpy_math.getprimeover(128).bit_length() in (128, 129) for _ in range(30)), "a prime is too small")
""")

# ---------------------------------------------------------------- C23
bug("c23-fold-zero", "C23", [("ml/model_base.py",
"""        if self.need_cv:
            metric_name = '.'.join([metric_name, str(self.cv_fold)])

        self.tracker.log_metric_data(""",
"""        if self.need_cv and self.cv_fold:
            metric_name = '.'.join([metric_name, str(self.cv_fold)])

        self.tracker.log_metric_data(""")],
needs="metric data reported in the first fold of a cross validation", breaks="the metrics of fold 0 lose their fold number",
demo="""
from ml.model_base import ModelBase
got = []
class T:
    def log_metric_data(self, metric_name, metric_namespace, metrics):
        got.append(metric_name)
m = ModelBase()
m.need_cv = True
m.set_tracker(T())
for k in range(3):
    m.set_cv_fold(k)
    m.callback_metric("auc", "train", [])
check(got == ["auc.0", "auc.1", "auc.2"], "names", got)
""")
