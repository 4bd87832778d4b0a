# ---------------------------------------------------------------- C01
bug("c01-constant-break", "C01", [("ml/tree/splitter.py",
"""            if node_cnt < self.min_sample_split:
                break

            for bid in range(bin_num):
                sum_grad_l = histogram[fid][bid][0]
                sum_hess_l = histogram[fid][bid][1]
                node_cnt_l = histogram[fid][bid][2]

                node_cnt_r""",
"""            if node_cnt < self.min_sample_split or histogram[fid][0][2] == node_cnt:
                break

            for bid in range(bin_num):
                sum_grad_l = histogram[fid][bid][0]
                sum_hess_l = histogram[fid][bid][1]
                node_cnt_l = histogram[fid][bid][2]

                node_cnt_r""")],
needs="a host feature all of whose values in a node fall in its first bin, followed by a feature that splits the node best",
breaks="the host leaves out all features after one that is constant in the node",
demo="""
n = 16
f = federation([[float(i % 2)] for i in range(n)], [[[3.0, float(i >= 8)] for i in range(n)]], [float(i >= 8) for i in range(n)],
               task="regression", objective="lse", depth=2, trees=1, lam=0.0)
check(f.guest.trees_[0].tree_[0].sitename == "host.0", "the root is not split by the host's second feature")
""")

bug("c01-memo-lambda", "C01", [("ml/tree/creterion.py",
"""    def node_gain(self, sum_grad:float, sum_hess:float):
        return sum_grad * sum_grad / (sum_hess + self.reg_lambda)
""",
"""    _gains = {}

    def node_gain(self, sum_grad:float, sum_hess:float):
        key = (float(sum_grad), float(sum_hess))
        if key not in self._gains:
            self._gains[key] = sum_grad * sum_grad / (sum_hess + self.reg_lambda)
        return self._gains[key]
""")],
needs="two trainings in one process with different regularisation whose nodes have the same sums",
breaks="gains are remembered across trainings with another lambda",
demo="""
from ml.tree.creterion import XgboostCriterion
a, b = XgboostCriterion(0.1), XgboostCriterion(10.0)
check(a.node_gain(2.0, 4.0) == 4.0 / 4.1)
check(b.node_gain(2.0, 4.0) == 4.0 / 14.0, b.node_gain(2.0, 4.0))
""")

bug("c01-zero-left", "C01", [("ml/tree/hetero_decision_tree_guest.py",
"""            sum_grad_r = sum_grad - sum_grad_l
            sum_hess_r = sum_hess - sum_hess_l
            gain = """,
"""            if abs(sum_grad_l) < consts.FLOAT_ZERO:
                continue
            sum_grad_r = sum_grad - sum_grad_l
            sum_hess_r = sum_hess - sum_hess_l
            gain = """)],
needs="a host candidate whose left side has gradients that cancel out, and which is the best split",
breaks="such candidates of hosts are never chosen",
demo="""
X = [0, 1, 2, 3, 4, 5, 6, 7]
Y = [0.0, 2.0, 0.0, 2.0, 0.0, 0.0, 0.0, 4.0]
m = sum(Y) / 8
check(m == 1.0)
f = federation([[1.0] for i in X], [[[0.0 if i < 4 else (1.0 if i < 7 else 2.0)] for i in X]], [y if i < 7 else y for i, y in zip(X, Y)],
               task="regression", objective="lse", depth=2, trees=1, lam=0.0, min_gain=0.0)
t = f.guest.trees_[0].tree_
check(t[0].sitename == "host.0")
Y = [0.0, 2.0, 0.0, 2.0, 3.0, 3.0, 3.0, 3.0]
f = federation([[1.0] for i in X], [[[0.0 if i < 4 else 1.0] for i in X]], [-1.0, 1.0, -1.0, 1.0] + [0.0] * 4,
               task="regression", objective="lse", depth=2, trees=1, lam=0.0, min_gain=0.0)
f = federation([[1.0] for i in X], [[[0.0 if i < 2 else (1.0 if i < 5 else 2.0)] for i in X]], [2.0, -2.0, 3.0, 3.0, 3.0, -3.0, -3.0, -3.0],
               task="regression", objective="lse", depth=3, trees=1, lam=0.0, min_gain=0.0)
w = sorted(round(n.weight, 6) for n in f.guest.trees_[0].tree_ if n.is_leaf)
check(w == [-3.0, 0.0, 3.0], w)
""")

bug("c01-second-batch-queue", "C01", [("ml/tree/hetero_decision_tree_host.py",
"""                splitinfo.best_bid = self.encode("feature_val", splitinfo.best_bid, self.cur_split_nodes[i].id)
""",
"""                splitinfo.best_bid = self.encode("feature_val", splitinfo.best_bid, self.tree_node_queue[i].id)
""")],
needs="a level with more open nodes than max_split_nodes, and a host split in a batch after the first",
breaks="the host keeps its thresholds under the ids of the first batch's nodes",
demo="""
n = 16
f = federation([[float(i >= 8)] for i in range(n)], [[[float(i % 8 >= 4), float(i % 8 >= 6)] for i in range(n)]],
               [100.0 * (i >= 8) + 10.0 * (i % 8 >= 4) * (i < 8) + 9.0 * (i % 8 >= 6) * (i >= 8) for i in range(n)],
               task="regression", objective="lse", depth=3, trees=1, lam=0.0, max_nodes=1)
w = sorted(round(x.weight, 6) for x in f.guest.trees_[0].tree_ if x.is_leaf)
check(len(w) == 4, w)
""")

# ---------------------------------------------------------------- C02
bug("c02-stump-weight", "C02", [("ml/tree/hetero_decision_tree_guest.py",
"""        root_node = Node(id=0, sitename=consts.GUEST, sum_grad=root_sum_grad, sum_hess=root_sum_hess,
                         weight=self.splitter.node_weight(root_sum_grad, root_sum_hess))
""",
"""        root_node = Node(id=0, sitename=consts.GUEST, sum_grad=root_sum_grad, sum_hess=root_sum_hess)
""")],
needs="a tree whose root stays a leaf while its gradients do not cancel out", breaks="a tree that is a single leaf has weight 0",
demo="""
n = 8
f = federation([[1.0] for i in range(n)], [[[2.0] for i in range(n)]], [0] * 6 + [1] * 2, depth=3, trees=1)
w = [x.weight for x in f.guest.trees_[0].tree_]
check(len(w) == 1 and abs(w[0] - (-2.0 / 2.1)) < 1e-9, w)
""")

bug("c02-host-hess-rounded", "C02", [("ml/tree/hetero_decision_tree_guest.py",
"""            best_splitinfo.sum_hess = self.decrypt(best_splitinfo.sum_hess)
""",
"""            best_splitinfo.sum_hess = round(self.decrypt(best_splitinfo.sum_hess), 4)
""")],
needs="a host split whose side has a small hessian sum, as with confident predictions and little regularisation",
breaks="leaf weights below host splits are computed from rounded hessian sums",
demo="""
n = 12
f = federation([[1.0] for i in range(n)], [[[float(i >= 6)] for i in range(n)]], [int(i >= 6) for i in range(n)], depth=2, trees=4, lr=2.0, lam=1e-4)
F = [0.0] * n
import math
for t in f.guest.trees_:
    w = {x.id: x.weight for x in t.tree_}
    for side, rows in ((1, range(6)), (2, range(6, n))):
        p = [1 / (1 + math.exp(-F[i])) for i in rows]
        g, h = sum(q - int(i >= 6) for q, i in zip(p, rows)), sum(q * (1 - q) for q in p)
        if side in w:
            check(abs(w[side] - (-g / (h + 1e-4))) < 1e-6 * max(1, abs(w[side])), side, w, -g / (h + 1e-4))
            for i in rows:
                F[i] += 2.0 * w[side]
""")

bug("c02-multi-first-class-loss", "C02", [("ml/tree/hetero_secureboosting_tree_guest.py",
"""            loss = self.compute_loss()
            self.history_loss.append(loss)
""",
"""            loss = min([self.compute_loss()] + self.history_loss[-1:]) if self.tree_dim > 1 else self.compute_loss()
            self.history_loss.append(loss)
""")],
needs="a multi-class training whose loss goes up in some round", breaks="the history hides rounds that raised a multi-class loss",
demo="""
import math
n = 9
y = [i % 3 for i in range(n)]
f = federation([[float(i % 2)] for i in range(n)], [[[float(i // 5)] for i in range(n)]], y, depth=3, trees=4, lr=9.0, lam=0.1)
h = f.guest.history_loss
got = 0.0
for i in range(n):
    F = f.F[i]
    m = max(F)
    got -= math.log(max(math.exp(F[y[i]] - m) / sum(math.exp(v - m) for v in F), 1e-300))
check(abs(h[-1] - got / n) < 1e-6 * max(1, got), h, got / n)
""")

# ---------------------------------------------------------------- C03
bug("c03-ge-threshold", "C03", [("ml/tree/hetero_secureboosting_tree_guest.py",
"classes_[1] if pred > threshold else classes_[0]", "classes_[1] if pred >= threshold else classes_[0]")],
needs="a binary model that scores a row exactly at the threshold", breaks="such rows get the positive class",
demo="""
n = 8
f = federation([[1.0] for i in range(n)], [[[2.0] for i in range(n)]], [i % 2 for i in range(n)], depth=2, trees=1,
               preds=[([[1.0]], [[[2.0]]], ["a"])])
check(f.preds[0]["a"][1] == 0 and f.preds[0]["a"][2] == 0.5, f.preds)
""")

bug("c03-host-reset", "C03", [("ml/tree/hetero_decision_tree_host.py",
"""        if tree_[nid].sitename != sitename:
            return predict_state
""",
"""        if tree_[nid].sitename != sitename:
            return (nid, 0)
""")],
needs="at least two hosts that split nodes, rows waiting at a node of a host other than the first", breaks="the first host's answer overrides the owner's, and prediction never ends",
demo="""
n = 16
a = [[float(i % 2)] for i in range(n)]
b = [[float(i % 4 >= 2)] for i in range(n)]
f = federation([[0.0] for i in range(n)], [a, b], [float(4 * (i % 2) + (i % 4 >= 2)) for i in range(n)], task="regression", objective="lse", depth=3, trees=1,
               lam=0.0, lr=1.0, preds=[([[0.0]] * 4, [a[:4], b[:4]], list(range(4)))], seconds=60)
check([round(f.preds[0][i][1], 6) for i in range(4)] == [0.0, 4.0, 1.0, 5.0], f.preds)
""")

bug("c03-seen-rows", "C03", [("ml/tree/hetero_secureboosting_tree_guest.py",
"""                predict_data = tree_inst.predict(data_instances)
                self.update_f_value(new_f=predict_data, tidx=tidx)
""",
"""                predict_data = tree_inst.predict(data_instances)
                self.update_f_value(new_f=predict_data.mapValues(lambda w: w if abs(w) < 1e3 else w / abs(w) * 1e3), tidx=tidx)
""")],
needs="a regression model with leaf weights beyond a thousand", breaks="large leaf weights are clipped in prediction",
demo="""
n = 8
g = [[float(i >= 4)] for i in range(n)]
f = federation(g, [[[1.0] for i in range(n)]], [5000.0 * (i >= 4) for i in range(n)], task="regression", objective="lse", depth=2, trees=1, lam=0.0, lr=1.0,
               preds=[([g[0], g[7]], [[[1.0], [1.0]]], [0, 1])])
check(abs(f.preds[0][0][1]) < 1e-6 and abs(f.preds[0][1][1] - 5000) < 1e-6, f.preds)
""")

# ---------------------------------------------------------------- C05
bug("c05-convert-first", "C05", [("ml/tree/hetero_decision_tree_guest.py",
"""        self.sync_tree()
        # self.logger.debug('len of tree_ is {}'.format(len(self.tree_)))
        self.convert_bin_to_real()
""",
"""        self.convert_bin_to_real()
        self.sync_tree()
"""), ("ml/tree/hetero_decision_tree_guest.py",
"""                real_splitval = self.encode("feature_val", self.bin_split_points[fid][bid], self.tree_[i].id)
                self.tree_[i].bid = real_splitval
""",
"""                real_splitval = self.bin_split_points[fid][bid]
                self.encode("feature_val", real_splitval, self.tree_[i].id)
                self.tree_[i].bid = int(real_splitval) if float(real_splitval).is_integer() else None
""")],
needs="a guest split at a whole-number threshold", breaks="the guest's integer thresholds travel with the tree",
demo="""
n = 16
f = federation([[float(100 * i + 7)] for i in range(n)], [[[float(i % 2)] for i in range(n)]], [int(i >= 8) for i in range(n)], depth=2, trees=1, wire=True)
for m in f.sent:
    if isinstance(m, list):
        for x in m:
            if hasattr(x, "bid") and getattr(x, "sitename", "") == "guest":
                check(x.bid is None, "a threshold of the guest is sent:", x.bid)
""")

bug("c05-order-leak", "C05", [("ml/tree/hetero_decision_tree_guest.py",
"""    def sync_encrypted_grad_and_hess(self):
        self.logger.info("send encrypted grad and hess to host")
        encrypted_grad_and_hess = self.encrypt_grad_and_hess()
""",
"""    def sync_encrypted_grad_and_hess(self):
        self.logger.info("send encrypted grad and hess to host")
        encrypted_grad_and_hess = self.encrypt_grad_and_hess()
        grads = dict(self.grad_and_hess.collect())
        encrypted_grad_and_hess = DTable(True, sorted(encrypted_grad_and_hess.collect(), key=lambda kv: grads[kv[0]][0] > 0))
""")],
needs="a host that looks at the order of the rows in the message", breaks="the rows are sent in the order of the signs of their gradients, which are the labels",
demo="""
n = 16
f = federation([[float(i % 5)] for i in range(n)], [[[float(i % 2)] for i in range(n)]], [int(i in (1, 4, 7)) for i in range(n)], depth=2, trees=1, wire=True)
for m in f.sent:
    if hasattr(m, "collect"):
        v = list(m.collect())
        if v and isinstance(v[0][1], tuple) and len(v[0][1]) == 2 and hasattr(v[0][1][0], "ciphertext"):
            check([k for k, _ in v] == sorted(k for k, _ in v), "rows are sent in an order made from the labels:", [k for k, _ in v])
""")

bug("c05-key-in-host-param", "C05", [("ml/secureprotol/fate_paillier.py",
"""        self.public_key = public_key
        if q < p: 
""",
"""        self.public_key = public_key
        public_key.owner = self
        if q < p: 
""")],
needs="looking into the public key that every ciphertext carries", breaks="the private key travels inside the public key",
demo="""
import pickle
from ml.secureprotol.encrypt import PaillierEncrypt
e = PaillierEncrypt()
e.generate_key(256)
c = pickle.loads(pickle.dumps(e.encrypt(1.5)))
for v in vars(c.public_key).values():
    check(not hasattr(v, "p"), "the ciphertext carries the private key")
""")

# ---------------------------------------------------------------- C06
bug("c06-seeded", "C06", [("ml/secureprotol/fate_paillier.py",
"        r = random_value or random.SystemRandom().randrange(1, self.n)\n",
"        r = random_value or random.randrange(1, self.n)\n")],
needs="a caller that seeds Python's generator, as the command-line programs do", breaks="ciphertexts repeat after seeding, their randomisers are predictable",
demo="""
import random
from ml.secureprotol.encrypt import PaillierEncrypt
e = PaillierEncrypt()
e.generate_key(256)
random.seed(2)
a = e.encrypt(1.5).ciphertext(False)
random.seed(2)
b = e.encrypt(1.5).ciphertext(False)
check(a != b, "the same value encrypts to the same ciphertext after seeding")
""")

bug("c06-raw-add-gcd", "C06", [("ml/secureprotol/fate_paillier.py",
"""        factor = pow(FixedPointNumber.BASE, new_exponent - self.exponent)
        new_encryptednumber = self.__mul__(factor)        
""",
"""        factor = float(FixedPointNumber.BASE) ** (new_exponent - self.exponent)
        new_encryptednumber = self.__mul__(factor)        
"""), ("ml/secureprotol/fate_paillier.py",
"""        exponent = self.exponent + encode.exponent

        return PaillierEncryptedNumber""",
"""        exponent = self.exponent + max(encode.exponent, 0)

        return PaillierEncryptedNumber""")],
needs="multiplying by, or aligning across, a large float factor whose encoding has a negative exponent", breaks="such products are too small by a power of 16",
demo="""
from ml.secureprotol.encrypt import PaillierEncrypt
e = PaillierEncrypt()
e.generate_key(512)
check(e.decrypt(e.encrypt(3) * 2.0 ** 60) == 3 * 2.0 ** 60, e.decrypt(e.encrypt(3) * 2.0 ** 60))
""")

bug("c06-div-int", "C06", [("ml/secureprotol/fate_paillier.py",
"        return self.__mul__(1 / scalar)  \n", "        return self.__mul__(round(1 / scalar, 12))  \n")],
needs="dividing by a number whose reciprocal has more than twelve decimals that matter", breaks="quotients are off by rounding of the reciprocal",
demo="""
from ml.secureprotol.encrypt import PaillierEncrypt
e = PaillierEncrypt()
e.generate_key(512)
v = e.decrypt(e.encrypt(7.0e9) / 3.0e9)
check(abs(v - 7 / 3) < 1e-9, v)
""")

# ---------------------------------------------------------------- C07
bug("c07-lt-encoding", "C07", [("ml/secureprotol/fixedpoint.py",
"""        x = self.decode()
        if isinstance(other, FixedPointNumber):           
            y = other.decode()                      
        else:
            y = other
        if x < y:
""",
"""        if isinstance(other, FixedPointNumber) and other.exponent == self.exponent and other.n == self.n:
            return self.encoding < other.encoding
        x = self.decode()
        if isinstance(other, FixedPointNumber):           
            y = other.decode()                      
        else:
            y = other
        if x < y:
""")],
needs="numbers of different sign in the same exponent", breaks="a negative number is not below a positive one of the same exponent",
demo="""
from ml.secureprotol.fixedpoint import FixedPointNumber as N
check(N.encode(1) < N.encode(2))
check(N.encode(-1) < N.encode(2), "-1 < 2 is false")
""")

bug("c07-decode-div", "C07", [("ml/secureprotol/fixedpoint.py",
"        return mantissa * pow(self.BASE, -self.exponent)\n",
"        return mantissa * pow(float(self.BASE), -self.exponent)\n")],
needs="an integer beyond 2 ** 53", breaks="large integers decode to the nearest float",
demo="""
from ml.secureprotol.fixedpoint import FixedPointNumber as N
check(N.encode(7).decode() == 7)
check(N.encode(2 ** 60 + 1).decode() == 2 ** 60 + 1, N.encode(2 ** 60 + 1).decode())
""")

# ---------------------------------------------------------------- C08
bug("c08-shared-state", "C08", [("ml/secureprotol/encrypt_mode.py",
"""        self.prev_encrypted_data = new_data.mapValues(lambda val: val)
""",
"""        EncryptModeCalculator.prev_encrypted_data = new_data.mapValues(lambda val: val)
"""), ("ml/secureprotol/encrypt_mode.py",
"""        self.prev_data = None
        self.prev_encrypted_data = None
""",
"""        self.prev_data = None
""")],
needs="two calculators in one process whose calls interleave, in fast or balance mode", breaks="a calculator adds its differences to the ciphertexts of another",
demo="""
from computing.d_table import DTable
from ml.secureprotol.encrypt import PaillierEncrypt
from ml.secureprotol.encrypt_mode import EncryptModeCalculator
e = PaillierEncrypt()
e.generate_key(256)
a, b = EncryptModeCalculator(e, "fast"), EncryptModeCalculator(e, "fast")
a.encrypt(DTable(False, [1.0, 2.0]))
b.encrypt(DTable(False, [10.0, 20.0]))
r = [e.decrypt(v) for _, v in a.encrypt(DTable(False, [1.5, 2.5])).collect()]
check(r == [1.5, 2.5], r)
""")

bug("c08-fast-drift-reset", "C08", [("ml/secureprotol/encrypt_mode.py",
"""        self.prev_data = input_data.mapValues(lambda val: val)
        self.prev_encrypted_data""",
"""        if self.prev_data is None or self.mode != "balance":
            self.prev_data = input_data.mapValues(lambda val: val)
        self.prev_encrypted_data""")],
needs="balance mode, a third call", breaks="differences are taken from the first table instead of the previous one",
demo="""
from computing.d_table import DTable
from ml.secureprotol.encrypt import PaillierEncrypt
from ml.secureprotol.encrypt_mode import EncryptModeCalculator
e = PaillierEncrypt()
e.generate_key(256)
a = EncryptModeCalculator(e, "balance", 0)
for v in (1.0, 2.0, 4.0):
    r = [e.decrypt(c) for _, c in a.encrypt(DTable(False, [v])).collect()]
    check(r == [v], v, r)
""")

# ---------------------------------------------------------------- C09
bug("c09-sparse-merge-count", "C09", [("ml/feature/quantile_summaries.py",
"""        self.smaller_num += other.smaller_num
        self.bigger_num += other.bigger_num
        self.abnormal_num""",
"""        if other.count:
            self.smaller_num += other.smaller_num
            self.bigger_num += other.bigger_num
        self.abnormal_num""")],
needs="merging a sparse summary whose values are still all in its head buffer", breaks="values of the merged part are not counted below or above zero",
demo="""
from ml.feature.quantile_summaries import SparseQuantileSummaries
a, b = SparseQuantileSummaries(), SparseQuantileSummaries()
for x in (-3.0, -2.0, 4.0):
    a.insert(x)
for x in (-5.0, -4.0, -1.0):
    b.insert(x)
a.merge(b)
a.set_total_count(10)
check(a.query(0.3) == -3.0, a.query(0.3))
""")

# ---------------------------------------------------------------- C10
bug("c10-bisect", "C10", [("ml/feature/binning/base_binning.py",
"""        col_bin_num = len(split_points)
        for bin_num, split_point in enumerate(split_points):
            if value <= split_point:
                col_bin_num = bin_num
                break
        col_bin_num = int(col_bin_num)
        return col_bin_num
""",
"""        lo, hi = 0, len(split_points)
        while lo < hi:
            mid = (lo + hi) // 2
            if value < split_points[mid]:
                hi = mid
            elif value == split_points[mid]:
                return mid
            else:
                lo = mid + 1 if hi - lo < 64 else mid + 2
        return lo
""")],
needs="a column with more than 64 bins", breaks="the search skips a split point in long lists",
demo="""
from ml.feature.binning.base_binning import Binning
p = [float(i) for i in range(100)]
for v in (0.5, 10.0, 49.5, 50.5, 50.9, 51.0, 80.0, 99.0, 99.5):
    import bisect
    check(Binning.get_bin_num(v, p) == bisect.bisect_left(p, v), v, Binning.get_bin_num(v, p))
""")

bug("c10-refit-keep", "C10", [("ml/feature/binning/base_binning.py",
"""            for col in transform_cols_idx:
                if col not in self.cols_index:
                    raise RuntimeError("Binning Transform cols: {} should be fit before transform".format(col))
""",
"""            transform_cols_idx = [col for col in transform_cols_idx if col in self.cols_index]
""")],
needs="converting a column that was not fitted", breaks="the column is silently left as it is instead of being refused",
demo="""
from ml.feature.binning.quantile_binning import QuantileBinning
from ml.param.feature_binning_param import FeatureBinningParam
b = QuantileBinning(FeatureBinningParam(bin_num=2, cols=[0]))
t = table([[float(i), float(-i)] for i in range(8)])
b.fit_split_points(t)
try:
    b.convert_feature_to_bin(t, [1])
except Exception:
    done()
check(False, "an unfitted column was accepted")
""")

# ---------------------------------------------------------------- C11
bug("c11-sparse-point-key", "C11", [("ml/tree/feateur_histogram.py",
"                    sparse_point = bin_sparse_points[fid]\n",
"                    sparse_point = min(bin_sparse_points[fid], 15)\n")],
needs="a column whose zeros lie above the sixteenth split point", breaks="unstored zeros are counted in bin 15",
demo="""
from computing.d_table import DTable
from ml.tree.feateur_histogram import FeatureHistogram as H
from ml.feature.sparse_vector import SparseVector
from ml.feature.instance import Instance
import numpy as np
d = DTable(False, [(Instance(features=SparseVector([], [], 1)), (1, 0)), (Instance(features=SparseVector([0], [2], 1)), (1, 0))])
g = DTable(False, [(1.0, 2.0), (3.0, 4.0)])
h = H.calculate_histogram(d, g, np.array([np.arange(-20.0, 5.0)]), {0: 20}, [True], {0: 0})
check(h[0][0][20] == [1.0, 2.0, 1] and h[0][0][2] == [3.0, 4.0, 1], h)
""")

bug("c11-accumulate-last", "C11", [("ml/tree/feateur_histogram.py",
"                for k in range(1, len(histograms[i][j])):\n",
"                for k in range(1, min(len(histograms[i][j]), 65)):\n")],
needs="a feature with more than 65 bins", breaks="sums are not accumulated beyond bin 64",
demo="""
from ml.tree.feateur_histogram import FeatureHistogram as H
h = H.accumulate_histogram([[[[1.0, 1.0, 1] for _ in range(80)]]])
check(h[0][0][79] == [80.0, 80.0, 80], h[0][0][79])
""")

# ---------------------------------------------------------------- C12
bug("c12-include-alias", "C12", [("computing/d_table.py",
"""                    self.__data = {}
                    for i,item in enumerate(data):
                        self.__data[i] = item
""",
"""                    self.__data = {}
                    while data:
                        self.__data[len(self.__data)] = data.pop(0)
""")],
needs="a caller that goes on using the list it built a table from", breaks="building a table empties the caller's list",
demo="""
from computing.d_table import DTable
l = [1, 2]
t = DTable(False, l)
check(list(t.collect()) == [(0, 1), (1, 2)] and l == [1, 2], l)
""")

bug("c12-float-key-join", "C12", [("computing/d_table.py",
"""        for k, v in other.get_kvs():
            if k in self.__data:
                new_table.append((k, func(self.__data[k], v)))
        return DTable(True, new_table)
""",
"""        mine = {str(k): k for k in self.__data}
        for k, v in other.get_kvs():
            if str(k) in mine:
                new_table.append((k, func(self.__data[mine[str(k)]], v)))
        return DTable(True, new_table)
""")],
needs="tables with keys that print alike but differ, as 1 and '1'", breaks="rows of different keys are joined",
demo="""
from computing.d_table import DTable
a = DTable(True, [(1, "x"), (2, "y")])
b = DTable(True, [("1", "p"), (2, "q")])
check(list(a.join(b, lambda u, v: u + v).collect()) == [(2, "yq")])
""")

# ---------------------------------------------------------------- C13
bug("c13-completion-order", "C13", [("federation/transfer_inst.py",
"""            for conn in self.conns:
                data.append(self.recv_data(conn))
""",
"""            import select
            waiting = list(self.conns)
            while waiting:
                for conn in select.select(waiting, [], [])[0]:
                    data.append(self.recv_data(conn))
                    waiting.remove(conn)
""")],
needs="a host that answers before the hosts listed ahead of it", breaks="answers are listed in the order in which they arrive",
demo="""
import socket
from federation.transfer_inst import TransferInstGuest, TransferInstHost
s = socket.socket()
s.bind(("", 0))
port = s.getsockname()[1]
s.close()
out = {}
def guest():
    g = TransferInstGuest(port, 2)
    out["r"] = g.recv_data_from_hosts(-1)
t = threading.Thread(target=guest, daemon=True)
t.start()
hs = []
while len(hs) < 2:
    try:
        hs.append(TransferInstHost("127.0.0.1", port))
    except OSError:
        time.sleep(.02)
time.sleep(.1)
hs[1].send_data_to_guest("b")
time.sleep(.5)
hs[0].send_data_to_guest("a")
t.join(10)
check(out.get("r") == ["a", "b"], out)
""")

# ---------------------------------------------------------------- C14
bug("c14-swallow", "C14", [("ml/tree/hetero_secureboosting_tree_host.py",
"""            if self.n_iter_no_change is True:
                stop_flag = self.sync_stop_flag(i)
                if stop_flag:
                    break
""",
"""            if self.n_iter_no_change is True and i + 1 < self.num_trees:
                stop_flag = self.sync_stop_flag(i)
                if stop_flag:
                    break
""")],
needs="training that uses up all its rounds with early stopping on", breaks="the last stop flag is left over and taken for the first message of prediction",
demo="""
n = 8
g = [[float(i >= 4)] for i in range(n)]
f = federation(g, [[[float(i % 2)] for i in range(n)]], [int(i >= 4) for i in range(n)], depth=3, trees=2, stop=True, tol=1e-9,
               preds=[(g[:2], [[[0.0], [1.0]]], [0, 1])], seconds=60)
check(len(f.preds) == 1)
""")

bug("c14-host-depth", "C14", [("ml/tree/hetero_decision_tree_guest.py",
"""            self.sync_tree_node_queue(self.tree_node_queue, dep)
            if len(self.tree_node_queue) == 0:
                break
""",
"""            if dep > 0 and len(self.tree_node_queue) == 0 and dep + 1 == self.max_depth:
                break
            self.sync_tree_node_queue(self.tree_node_queue, dep)
            if len(self.tree_node_queue) == 0:
                break
"""), ("ml/tree/hetero_decision_tree_host.py",
"""            self.sync_tree_node_queue(dep)
            if len(self.tree_node_queue) == 0:
                break
""",
"""            self.sync_tree_node_queue(dep)
            if len(self.tree_node_queue) == 0 or self.tree_node_queue[0].left_nodeid != -1:
                break
""")],
needs="a tree that is complete one level above the maximum depth", breaks="the hosts take the tree for the node queue and wait for another message",
demo="""
n = 8
f = federation([[float(i >= 4)] for i in range(n)], [[[float(i >= 4)] for i in range(n)]], [float(i >= 4) for i in range(n)], task="regression", objective="lse",
               depth=3, trees=1, lam=0.0, seconds=30)
check(len(f.guest.trees_[0].tree_) == 3)
""")

# ---------------------------------------------------------------- C15
bug("c15-softmax-axis", "C15", [("ml/optim/activation.py",
"""    y = np.exp(x - np.max(x, axis, keepdims=True))
    return y / np.sum(y, axis, keepdims=True)
""",
"""    y = np.exp(x - np.max(x, axis, keepdims=True))
    return y / np.sum(y, -1, keepdims=True)
""")],
needs="softmax along another axis than the last", breaks="the probabilities are normalised along the wrong axis",
demo="""
import numpy as np
from ml.optim.activation import softmax
r = softmax(np.array([[1.0, 2.0, 0.5], [0.0, 1.0, 3.0]]), axis=0)
check(np.allclose(r.sum(axis=0), 1), r)
""")

bug("c15-median-init", "C15", [("ml/loss/regression_loss.py",
"""        statistics = MultivariateStatisticalSummary(y_inst, -1)
        median = statistics.get_median()["label"]
""",
"""        statistics = MultivariateStatisticalSummary(y_inst, -1, abnormal_list=[0.0] if y.count() > 64 else None)
        median = statistics.get_median()["label"]
""")],
needs="absolute error on more than 64 rows with zeros among the labels", breaks="zeros are left out of the initial median",
demo="""
from computing.d_table import DTable
from ml.loss.regression_loss import LeastAbsoluteErrorLoss as L
F, s = L.initialize(DTable(False, [0.0] * 50 + [float(i) for i in range(1, 31)]))
check(float(s[0]) == 0.0, s)
""")

# ---------------------------------------------------------------- C16
bug("c16-alias-lower", "C16", [("ml/param/base_param.py",
"""        lower_param = param.lower()
        if lower_param in valid_list:
            return lower_param
""",
"""        lower_param = param.strip().lower()
        if lower_param in valid_list:
            return lower_param
""")],
needs="a method name with blanks around it", breaks="names that are not in the list are accepted",
demo="""
from ml.param.base_param import BaseParam
check(BaseParam.check_and_change_lower("ABC", ["abc"]) == "abc")
try:
    BaseParam.check_and_change_lower(" abc", ["abc"])
except ValueError:
    done()
check(False, "' abc' is accepted")
""")

bug("c16-subsample-bool", "C16", [("ml/param/boosting_tree_param.py",
"""        if type(self.subsample_feature_rate).__name__ not in ["float", "int", "long"] or \\
                self.subsample_feature_rate < 0 or self.subsample_feature_rate > 1:
""",
"""        if not isinstance(self.subsample_feature_rate, (float, int)) or \\
                self.subsample_feature_rate < 0 or self.subsample_feature_rate > 1:
""")],
needs="a Boolean feature rate", breaks="True is accepted as a rate",
demo="""
from ml.param.boosting_tree_param import BoostingTreeParam
p = BoostingTreeParam()
p.check()
p.subsample_feature_rate = True
try:
    p.check()
except ValueError:
    done()
check(False, "True is accepted")
""")

# ---------------------------------------------------------------- C17
bug("c17-load-twice", "C17", [("ml/tree/hetero_decision_tree_host.py",
"        self.split_maskdict = dict(model_param.split_maskdict)\n",
"        self.split_maskdict.update(model_param.split_maskdict)\n")],
needs="a host tree object that loads a second model", breaks="thresholds of the first model stay",
demo="""
from ml.tree.hetero_decision_tree_host import HeteroDecisionTreeHost as T
from arch.api.boosting_tree_model_param_pb2 import DecisionTreeModelParam as P
from arch.api.boosting_tree_model_meta_pb2 import DecisionTreeModelMeta as M
t = T(param().tree_param)
a, b = P(), P()
a.split_maskdict.update({0: 1.0, 3: 2.0})
b.split_maskdict.update({0: 5.0})
t.load_model(M(), a)
t.load_model(M(), b)
check(dict(t.split_maskdict) == {0: 5.0}, t.split_maskdict)
""")

bug("c17-guest-meta-lost", "C17", [("ml/tree/hetero_decision_tree_guest.py",
"        self.min_impurity_split = model_meta.min_impurity_split\n",
"        self.min_impurity_split = model_meta.min_impurity_split or self.min_impurity_split\n")],
needs="a model trained with a minimal gain of 0, loaded into a tree with another one", breaks="the tree keeps its own minimal gain",
demo="""
from ml.tree.hetero_decision_tree_guest import HeteroDecisionTreeGuest as T
a, b = T(param(min_gain=0.0).tree_param), T(param(min_gain=0.5).tree_param)
b.load_model(*a.get_model())
check(b.min_impurity_split == 0.0, b.min_impurity_split)
""")

# ---------------------------------------------------------------- C18
bug("c18-comment", "C18", [("i_o/utils.py",
"""        for line in file:
            rows.append(line.rstrip("\\n"))
    
    header = rows[0].split(',')

    # lable_pos""",
"""        for line in file:
            if not line.startswith("#") or not rows:
                rows.append(line.rstrip("\\n"))
    
    header = rows[0].split(',')

    # lable_pos""")],
needs="an id that begins with a hash sign", breaks="the guest skips the row",
demo="""
import tempfile, shutil, os
from i_o.utils import read_from_csv_with_lable
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, "a.csv")
    open(p, "w").write("id,y,x0\\n#7,1,0.5\\n8,0,1.5\\n")
    h, ids, x, y = read_from_csv_with_lable(p)
finally:
    shutil.rmtree(d)
check(ids == ["#7", "8"], ids)
""")

bug("c18-dup-shuffle", "C18", [("host.py",
"""        random.shuffle(full_list)
""",
"""        full_list[:] = random.sample(full_list, n_total) if n_total > 255 else random.sample(full_list, 0) or _shuffled(full_list)
"""), ("host.py", "def data_split(full_list,", """def _shuffled(rows):
    random.shuffle(rows)
    return rows

def data_split(full_list,""")],
needs="a file of more than 255 rows", breaks="host and guest shuffle long files differently",
demo="""
import importlib.util, os
def load(n):
    s = importlib.util.spec_from_file_location(n + "_mod", os.path.join(os.getcwd(), n + ".py"))
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m
g, h = load("guest"), load("host")
for n in (5, 100, 300):
    check(g.data_split(list(range(n)), .7, True, 2) == h.data_split(list(range(n)), .7, True, 2), n)
""")

# ---------------------------------------------------------------- C19
bug("c19-finish-flag", "C19", [("ml/statistic/statics.py",
"""        for col_name, col_index in cols_dict.items():
            if col_name not in self.cols_dict:
""",
"""        for col_name, col_index in cols_dict.items():
            if col_index not in self.cols_index:
""")],
needs="a dictionary of columns whose indexes do not agree with the table's", breaks="columns are looked up by the index instead of by name",
demo="""
from ml.statistic.statics import MultivariateStatisticalSummary as S
t = table([[1.0, 2.0], [3.0, 4.0]])
s = S(t, [0])
check(s.get_mean({"x0": 5}) == {"x0": 2.0}, s.get_mean({"x0": 5}))
""")

# ---------------------------------------------------------------- C20
bug("c20-site-prefix", "C20", [("ml/tree/hetero_decision_tree_guest.py",
"""        sitename = splitinfo.sitename
        fid = splitinfo.best_fid
""",
"""        sitename = splitinfo.sitename.split(".")[0] if len(splitinfo.sitename) > 6 else splitinfo.sitename
        fid = splitinfo.best_fid
""")],
needs="a host with an index of at least 10", breaks="splits of hosts from number 10 on are counted for a party named host",
demo="""
n = 8
f = federation([[1.0] for i in range(n)], [[[float(i >= 4)] for i in range(n)]], [int(i >= 4) for i in range(n)], depth=2, trees=1, ridx=[12])
check(list(f.guest.feature_importances_) == [("host.12", 0)], f.guest.feature_importances_)
""")

bug("c20-floor-rate", "C20", [("ml/tree/hetero_secureboosting_tree_guest.py",
"                                       max(1, int(self.subsample_feature_rate * self.feature_num)), replace=False)\n",
"                                       max(1, int(round(self.subsample_feature_rate * self.feature_num - 0.4999))), replace=False)\n")],
needs="a rate and a column number whose product is just above or at certain values", breaks="nothing or one feature less, by rounding",
demo="""
from ml.tree.hetero_secureboosting_tree_guest import HeteroSecureBoostingTreeGuest as G
import numpy as np
m = G()
for n in range(1, 40):
    for r in (0.1, 0.25, 0.3, 0.5, 0.75, 0.8, 1.0, 0.3333):
        m.feature_num, m.subsample_feature_rate = n, r
        check(sum(m.sample_valid_features()) == max(1, int(r * n)), n, r)
m.feature_num, m.subsample_feature_rate = 1000, 0.50099995
check(sum(m.sample_valid_features()) == 500, sum(m.sample_valid_features()))
m.feature_num, m.subsample_feature_rate = 10000, 0.50009999
check(sum(m.sample_valid_features()) == 5000, sum(m.sample_valid_features()))
""")

# ---------------------------------------------------------------- C21
bug("c21-zero-tol", "C21", [("ml/tree/hetero_secureboosting_tree_guest.py",
"            self.convegence = DiffConverge(eps=self.tol)\n", "            self.convegence = DiffConverge(eps=self.tol or 1e-3)\n")],
needs="a tolerance of 0", breaks="training with tolerance 0 stops early",
demo="""
n = 8
f = federation([[1.0] for i in range(n)], [[[2.0] for i in range(n)]], [i % 2 for i in range(n)], depth=2, trees=3, stop=True, tol=0)
check(len(f.guest.trees_) == 3, len(f.guest.trees_))
""")

bug("c21-weight-norm", "C21", [("ml/optim/convergence.py",
"        if weight_diff < self.eps * np.max([fate_operator.norm(weight), 1]):\n",
"        if weight_diff < self.eps * max(fate_operator.norm(weight, 1), 1):\n")],
needs="a weight vector with several large entries", breaks="the weight rule measures the weights in another norm",
demo="""
import numpy as np
from ml.optim.convergence import WeightDiffConverge
c = WeightDiffConverge(eps=0.1)
c.is_converge(np.array([10.0, 10.0]))
check(c.is_converge(np.array([10.0, 11.7])) is False)
""")

# ---------------------------------------------------------------- C22
bug("c22-recursive-order", "C22", [("ml/secureprotol/encrypt.py",
"""    def recursive_decrypt(self, A):
        if not isinstance(A, np.ndarray) and not isinstance(A, list):
            data_dict = A.collect()
            data_dict = dict(data_dict)
            A = list(data_dict.values())
""",
"""    def recursive_decrypt(self, A):
        if not isinstance(A, np.ndarray) and not isinstance(A, list):
            data_dict = A.collect()
            data_dict = dict(sorted(data_dict, key=str))
            A = list(data_dict.values())
""")],
needs="a table of more than ten rows", breaks="decrypted rows come in the order of their keys as text",
demo="""
from computing.d_table import DTable
from ml.secureprotol.encrypt import FakeEncrypt
r = FakeEncrypt().recursive_decrypt(DTable(False, [[float(i), 1.0] for i in range(12)]))
check(r.shape == (12, 2) and [x[0] for x in r.tolist()] == [float(i) for i in range(12)], r)
""")

bug("c22-rsa-type", "C22", [("ml/secureprotol/encrypt.py",
"""    def set_privacy_key(self, privacy_key):
        self.d = privacy_key["d"]
        self.n = privacy_key["n"]
""",
"""    def set_privacy_key(self, privacy_key):
        self.d = privacy_key["d"]
        self.n = self.n or privacy_key["n"]
""")],
needs="an object that is given a second private key", breaks="the second key is used with the modulus of the first",
demo="""
from ml.secureprotol.encrypt import RsaEncrypt
a, b, c = RsaEncrypt(), RsaEncrypt(), RsaEncrypt()
a.generate_key(1024)
b.generate_key(1024)
for k in (a, b):
    c.set_privacy_key({"d": k.d, "n": k.n})
    check(c.decrypt(k.encrypt(123456789)) == 123456789)
""")

# ---------------------------------------------------------------- C23
bug("c23-sticky-cv", "C23", [("ml/model_base.py",
"        self.need_cv = need_cv\n", "        self.need_cv = self.need_cv or need_cv\n")],
needs="a component run with cross validation, then without", breaks="the second run cross-validates again",
demo="""
from ml.model_base import ModelBase
from ml.param.boosting_tree_param import BoostingTreeParam
calls = []
class M(ModelBase):
    def __init__(self):
        super().__init__()
        self.model_param = BoostingTreeParam()
    def cross_validation(self, d):
        calls.append("cv")
    def fit(self, d):
        calls.append("fit")
m = M()
t = table([[1.0], [2.0]], y=[0, 1])
m.run({"BoostingTreeParam": {"cv_param": {"need_cv": True}}}, {"data": {"a": {"train_data": t}}})
m.run({"BoostingTreeParam": {"cv_param": {"need_cv": False}}}, {"data": {"a": {"train_data": t}}})
check(calls == ["cv", "fit"], calls)
""")

