# ---------------------------------------------------------------- C01
bug("c01-first-batch-min", "C01", [("ml/tree/splitter.py",
"""            if node_cnt < self.min_sample_split:
                break

            for bid in range(bin_num):
                sum_grad_l = histogram[fid][bid][0]
                sum_hess_l = histogram[fid][bid][1]
                node_cnt_l = histogram[fid][bid][2]

                sum_grad_r""",
"""            if node_cnt < self.min_sample_split:
                break

            for bid in range(bin_num if bin_num < 128 else bin_num - 1):
                sum_grad_l = histogram[fid][bid][0]
                sum_hess_l = histogram[fid][bid][1]
                node_cnt_l = histogram[fid][bid][2]
                if bid > 127:
                    bid = bid % 128

                sum_grad_r""")],
needs="a guest feature with more than 128 bins whose best split lies above the 128th", breaks="bin numbers above 127 wrap around",
demo="""
n = 200
y = [float(i >= 170) for i in range(n)]
f = federation([[float(i)] for i in range(n)], [[[float(i % 3)] for i in range(n)]], y, task="regression", objective="lse", depth=1, trees=1, lr=1.0, lam=0.0, bins=200)
check(len(set(round(v[0], 6) for v in f.F.values())) <= 1 or all(abs(f.F[i][0] - y[i]) < .1 for i in range(n)), "split", f.F)
f = federation([[float(i)] for i in range(n)], [[[float(i % 3)] for i in range(n)]], y, task="regression", objective="lse", depth=2, trees=1, lr=1.0, lam=0.0, bins=200)
check(all(abs(f.F[i][0] - y[i]) < .1 for i in range(n)), "the rows are not separated at the best split", f.F)
""")

bug("c01-node-order", "C01", [("ml/tree/hetero_decision_tree_guest.py",
"""                if value[0].features.get_data(fid, bin_sparse_points[fid]) <= bid:
                    return (1, tree_[nodeid].left_nodeid)""",
"""                if value[0].features.get_data(fid, bin_sparse_points[fid]) <= bid and nodeid < 64 or \\
                        value[0].features.get_data(fid, 0) <= bid and nodeid >= 64:
                    return (1, tree_[nodeid].left_nodeid)""")],
needs="a tree of more than 64 nodes whose late nodes split a guest feature with unstored zeros and negative values", breaks="in late nodes unstored zeros count as bin 0",
demo="""
import random
r = random.Random(5)
n = 160
x = [[float(i // 2), [-3.0, -2.0, 0.0, 2.0][i % 4] if i % 2 else [0.0, -1.0][(i // 2) % 2]] for i in range(n)]
y = [r.uniform(0, 10) + (5 if x[i][1] < 0 else 0) for i in range(n)]
f = federation(x, [[[float(i % 2)] for i in range(n)]], y, task="regression", objective="lse", depth=9, trees=1, lr=1.0, lam=0.0, bins=100, min_gain=1e-6)
t = f.guest.trees_[0]
T = {v.id: v for v in t.tree_}
check(len(T) > 100, "tree too small for the demonstration")
m, hm = t.split_maskdict, f.hosts[0].trees_[0].split_maskdict
for i in range(n):
    k = 0
    while not T[k].is_leaf:
        v, th = (x[i][T[k].fid], m[k]) if T[k].sitename == "guest" else (float(i % 2), hm[k])
        k = T[k].left_nodeid if v <= th else T[k].right_nodeid
    check(abs(f.F[i][0] - (T[k].weight + f.guest.init_score[0])) < 1e-6, "row", i, "was trained in another leaf than the tree says")
""")

# ---------------------------------------------------------------- C02
bug("c02-zero-weight", "C02", [("ml/tree/hetero_secureboosting_tree_guest.py",
"""            self.F = self.F.join(new_f, accumuldate_f)""",
"""            self.F = self.F.join(new_f, accumuldate_f) if self.learning_rate < 1 or new_f.count() < self.F.count() or tidx == 0 else \\
                self.F.join(new_f, functools.partial(self.accumulate_f, lr=1, idx=tidx))""")],
needs="several classes and a learning rate above 1", breaks="the scores of all classes but the first grow at rate 1",
demo="""
n = 18
y = [i % 3 for i in range(n)]
f = federation([[float(i % 3)] for i in range(n)], [[[float(i // 6)] for i in range(n)]], y, depth=2, trees=1, lr=1.5, lam=.1)
for k in range(3):
    t = f.guest.trees_[k]
    ws = [v.weight * 1.5 for v in t.tree_ if v.is_leaf]
    check(all(any(abs(f.F[i][k] - w) < 1e-6 for w in ws) for i in range(n)), "score of class", k, f.F, ws)
""")

bug("c02-fair-loss", "C02", [("ml/tree/hetero_secureboosting_tree_guest.py",
"""            if self.objective_param.objective in ["lse", "lae", "logcosh", "tweedie", "log_cosh", "huber"]:
                loss_method = self.loss
                loss = loss_method.compute_loss(self.y, self.F)""",
"""            if self.objective_param.objective in ["lse", "lae", "logcosh", "tweedie", "log_cosh", "huber"]:
                loss_method = self.loss
                loss = loss_method.compute_loss(self.y, self.F if len(self.history_loss) < 4 else self.F.mapValues(lambda v: np.round(v, 6)))""")],
needs="a fifth round of a regression whose scores are tiny", breaks="the loss of later rounds is computed from rounded scores",
demo="""
n = 8
y = [1e-6 * (i % 2) for i in range(n)]
f = federation([[float(i % 2)] for i in range(n)], [[[float(i // 4)] for i in range(n)]], y, task="regression", objective="lse", depth=2, trees=6, lr=.5, lam=0, min_gain=1e-30)
want = sum((f.F[i][0] - y[i]) ** 2 for i in range(n)) / n
check(abs(f.guest.history_loss[-1] - want) <= 1e-9 * abs(want) + 1e-18, "loss", f.guest.history_loss[-1], want)
""")

# ---------------------------------------------------------------- C03
bug("c03-zero-threshold", "C03", [("ml/tree/hetero_secureboosting_tree_guest.py",
"""                threshold = self.predict_param.threshold""",
"""                threshold = self.predict_param.threshold or 0.5""")],
needs="a decision threshold of 0", breaks="the threshold 0 counts as 0.5",
demo="""
n = 12
y = [i % 2 for i in range(n)]
x = [[float(i % 2)] for i in range(n)]
h = [[float(i // 6)] for i in range(n)]
f = federation(x, [h], y, preds=[(x, [h])], depth=2, trees=2, threshold=0)
check(all(v[1] == 1 for v in f.preds[0].values()), "every probability is above 0", f.preds[0])
""")

bug("c03-predict-order", "C03", [("ml/tree/hetero_decision_tree_guest.py",
"""            predict_leaf = predict_data.filter(lambda key, value: isinstance(value, tuple) is False)""",
"""            predict_leaf = predict_data.filter(lambda key, value: not isinstance(value, tuple) and value != 0 or site_host_send_times > self.max_depth)""")],
needs="a leaf of weight exactly 0", breaks="rows in leaves of weight 0 keep the federation busy, and fail",
demo="""
n = 12
y = [0.0] * 4 + [5.0] * 4 + [10.0] * 4
x = [[float(i // 4)] for i in range(n)]
h = [[float(i % 3)] for i in range(n)]
f = federation(x, [h], y, preds=[(x, [h])], task="regression", objective="lse", depth=3, trees=1, lr=1.0, lam=0.0, seconds=40)
check(len(f.preds) == 1 and len(f.preds[0]) == n, "predictions", f.preds)
check(all(abs(f.preds[0][i][1] - y[i]) < 1e-6 for i in range(n)), "predictions", f.preds)
""")

# ---------------------------------------------------------------- C04
bug("c04-batch-leftover", "C04", [("ml/tree/hetero_decision_tree_host.py",
"""                self.cur_split_nodes = self.tree_node_queue[i: i + self.max_split_nodes]
                node_map = {}
                node_num = 0
                for tree_node in self.cur_split_nodes:""",
"""                self.cur_split_nodes = self.tree_node_queue[i: i + self.max_split_nodes]
                node_map = {}
                node_num = 0
                if i and len(self.cur_split_nodes) < self.max_split_nodes and self.max_split_nodes > 2:
                    node_map[self.tree_node_queue[i - 1].id] = node_num
                for tree_node in self.cur_split_nodes:""")],
needs="a level whose open nodes leave a rest when sent in batches of three or more", breaks="the first node of the last batch also gets the rows of the node before it",
demo="""
n = 64
import random
r = random.Random(3)
x = [[r.random(), r.random()] for i in range(n)]
h = [[r.random(), r.random(), r.random()] for i in range(n)]
y = [r.random() * 5 for i in range(n)]
a = federation(x, [h], y, task="regression", objective="lse", depth=4, trees=1, lr=1.0, lam=.1, max_nodes=65536)
b = federation(x, [h], y, task="regression", objective="lse", depth=4, trees=1, lr=1.0, lam=.1, max_nodes=3)
check(all(abs(a.F[i][0] - b.F[i][0]) < 1e-6 for i in range(n)), "the number of nodes per batch changes the model")
""")

# ---------------------------------------------------------------- C05
bug("c05-single-leaf", "C05", [("ml/tree/hetero_decision_tree_guest.py",
"""        mask_tree_node_queue = copy.deepcopy(tree_node_queue)
        for i in range(len(mask_tree_node_queue)):
            mask_tree_node_queue[i] = Node(id=mask_tree_node_queue[i].id)
""",
"""        mask_tree_node_queue = copy.deepcopy(tree_node_queue)
        for i in range(len(mask_tree_node_queue)):
            if mask_tree_node_queue[i].sum_hess:
                mask_tree_node_queue[i] = Node(id=mask_tree_node_queue[i].id)
""")],
needs="an open node whose hessian sum is exactly 0", breaks="the gradient sum and weight of nodes without curvature are sent to the hosts",
demo="""
f = federation([[float(i)] for i in range(8)], [[[float(i % 3)] for i in range(8)]], [1e9 if i % 2 else 0.0 for i in range(8)], task="regression", objective="log_cosh", depth=2, trees=1,
               lr=1.0, lam=1.0, wire=True)
for d in f.sent:
    if isinstance(d, list):
        for v in d:
            if type(v).__name__ == "Node":
                check(v.sum_grad is None and v.weight is None, "a node is sent with its sums")
""")

bug("c05-stop-loss", "C05", [("ml/tree/hetero_secureboosting_tree_guest.py",
"""        self.transfer_inst.send_data_to_hosts(stop_flag, -1)""",
"""        self.transfer_inst.send_data_to_hosts(stop_flag and self.history_loss[-1] or stop_flag, -1)""")],
needs="training that ends by convergence", breaks="the final training loss is sent to the hosts",
demo="""
n = 12
f = federation([[float(i % 2)] for i in range(n)], [[[float(i // 6)] for i in range(n)]], [i % 2 for i in range(n)], depth=2, trees=8, stop=True, tol=1.0, wire=True)
check(not any(type(d).__name__ in ("float", "float64") for d in f.sent), "a number is sent in the clear")
""")

# ---------------------------------------------------------------- C06
bug("c06-add-scalar-exp", "C06", [("ml/secureprotol/fate_paillier.py",
"""                                          max_exponent=self.exponent)

        return self.__add_fixpointnumber(encoded)""",
"""                                          max_exponent=min(self.exponent, 64))

        return self.__add_fixpointnumber(encoded)"""), ("ml/secureprotol/fate_paillier.py",
"""        encrypted_scalar = x.public_key.raw_encrypt(y.encoding, 1)
        encryptednumber = self.__raw_add(x.ciphertext(False), encrypted_scalar, x.exponent)""",
"""        encrypted_scalar = x.public_key.raw_encrypt(y.encoding, 1)
        encryptednumber = self.__raw_add(x.ciphertext(False), encrypted_scalar, min(x.exponent, 80))""")],
needs="a plain number added to a ciphertext with an exponent above 80 (several products of small floats)", breaks="such sums are too large by a power of 16",
demo="""
from ml.secureprotol.fate_paillier import PaillierKeypair
pub, priv = PaillierKeypair.generate_keypair(1024)
c = pub.encrypt(1e-30) * 1e-30 * 1e-20
d = c + 0
check(abs(priv.decrypt(d) - 1e-80) < 1e-90, "sum", priv.decrypt(d), c.exponent)
""")

bug("c06-eq-key", "C06", [("ml/secureprotol/fate_paillier.py",
"""        if self.public_key != encrypted_number.public_key:
            raise ValueError("encrypted_number was encrypted against a different key!")""",
"""        if self.public_key != encrypted_number.public_key and encrypted_number.ciphertext(be_secure=False) > self.public_key.nsquare:
            raise ValueError("encrypted_number was encrypted against a different key!")""")],
needs="a ciphertext of another key that is numerically smaller than the square of this one's modulus", breaks="decrypting with the wrong key answers garbage instead of refusing",
demo="""
from ml.secureprotol.fate_paillier import PaillierKeypair
a, pa = PaillierKeypair.generate_keypair(512)
b, pb = PaillierKeypair.generate_keypair(768)
c, pc = PaillierKeypair.generate_keypair(512)
for pub, priv in ((a, pb), (b, pa), (a, pc), (c, pa)):
    for k in range(4):
        try:
            priv.decrypt(pub.encrypt(3))
        except ValueError:
            continue
        check(False, "decrypted with the wrong key")
""")

# ---------------------------------------------------------------- C07
bug("c07-numpy-max", "C07", [("ml/secureprotol/fixedpoint.py",
"""        if abs(int_fixpoint) > max_int:
            raise ValueError""",
"""        if int_fixpoint > max_int:
            raise ValueError""")],
needs="a negative number below the range", breaks="negative numbers out of range are encoded as something else",
demo="""
from ml.secureprotol.fixedpoint import FixedPointNumber
for n in (1000003, FixedPointNumber.Q):
    m = n // 3 - 1
    for v in (-m - 1, -2 * m, -n, -3 * n - 5):
        try:
            e = FixedPointNumber.encode(v, n, m)
        except ValueError:
            continue
        check(False, v, "was encoded")
""")

bug("c07-sub-scalar-exponent", "C07", [("ml/secureprotol/fixedpoint.py",
"""    def __rsub__(self, other):
        x = self.__sub__(other)
        x = -1 * x.decode()
        return self.encode(x, self.n, self.max_int)""",
"""    def __rsub__(self, other):
        x = self.__sub__(other)
        x = -1 * x.decode()
        return self.encode(x, self.n, self.max_int, precision=1e-30 if self.exponent > 24 else None)""")],
needs="a tiny encoded number subtracted from a tiny plain one", breaks="differences below 1e-30 are rounded away",
demo="""
from ml.secureprotol.fixedpoint import FixedPointNumber
n = FixedPointNumber.Q ** 4
m = n // 3 - 1
a = FixedPointNumber.encode(3e-40, n, m)
d = (5e-40 - a).decode()
check(abs(d - 2e-40) < 1e-45, d)
""")

# ---------------------------------------------------------------- C08
bug("c08-tuple-row", "C08", [("ml/secureprotol/encrypt_mode.py",
"""        if type(new_row).__name__ == "ndarray":
            diff = [new_val - old_val for (new_val, old_val) in zip(new_row, old_row)]
            return np.array(diff)""",
"""        if type(new_row).__name__ == "ndarray":
            diff = [new_val - old_val for (new_val, old_val) in zip(new_row, old_row)]
            return np.array(diff, dtype=np.float32 if max(map(abs, diff), default=0) < 1e-3 else None)""")],
needs="array rows that change little from round to round, outside strict mode", breaks="small changes are added in single precision",
demo="""
import numpy as np
from computing.d_table import DTable
from ml.secureprotol.encrypt import PaillierEncrypt
from ml.secureprotol.encrypt_mode import EncryptModeCalculator
e = PaillierEncrypt()
e.generate_key(512)
c = EncryptModeCalculator(e, "fast")
v = np.array([.1, .7])
for k in range(4):
    t = c.encrypt(DTable(True, [("a", v)]))
    got = [e.decrypt(x) for x in dict(t.collect())["a"]]
    check(all(abs(g - w) < 1e-13 for g, w in zip(got, v)), got, v)
    v = v + np.array([1.1e-4, -3.3e-4])
""")

# ---------------------------------------------------------------- C09
bug("c09-merge-alias", "C09", [("ml/feature/quantile_summaries.py",
"""        new_sample += self.sampled[i:]
        new_sample += other.sampled[j:]

        self.sampled = new_sample""",
"""        new_sample += self.sampled[i:]
        new_sample += other.sampled[j:]
        for stats in new_sample[:1]:
            stats.g += 1 - stats.g if len(new_sample) > 200 else 0

        self.sampled = new_sample""")],
needs="merging summaries of more than 200 samples together whose smallest sample stands for several numbers", breaks="all quantiles shift by the numbers the first sample stood for",
demo="""
from ml.feature.quantile_summaries import QuantileSummaries
a = QuantileSummaries(compress_thres=10, head_size=10, error=.001)
a.sampled
xs = sorted(float(i) for i in range(3000))
parts = [xs[i::3] for i in range(3)]
ss = []
for p in parts:
    s = QuantileSummaries(compress_thres=10, head_size=10, error=.002)
    for v in p:
        s.insert(v)
    s.compress()
    ss.append(s)
m = ss[0]
for s in ss[1:]:
    s.sampled[0].g
    m.merge(s)
check(sum(t.g for t in m.sampled) == 3000, "the samples stand for", sum(t.g for t in m.sampled), "numbers")
for k in range(1, 100):
    v = m.query(k / 100)
    check(abs(v - 30 * k) <= 2 * .002 * 3000 + 2, "quantile", k / 100, v)
""")

# ---------------------------------------------------------------- C10
bug("c10-many-bins", "C10", [("ml/feature/binning/base_binning.py",
"""        col_bin_num = int(col_bin_num)
        return col_bin_num""",
"""        col_bin_num = int(np.uint8(min(col_bin_num, 255)))
        return col_bin_num""")],
needs="more than 255 split points", breaks="bins above 255 are merged",
demo="""
from ml.feature.binning.quantile_binning import QuantileBinning
from ml.param.feature_binning_param import FeatureBinningParam
n = 400
t = table([[float(i)] for i in range(n)])
b = QuantileBinning(FeatureBinningParam(bin_num=400, error=1e-4))
b.fit_split_points(t)
r, sp, _ = b.convert_feature_to_bin(t)
sp = list(b.split_points.values())[0]
for k, v in r.collect():
    x = float(k)
    check(int(v.features[0]) == sum(p < x for p in sp), "bin of", x, "is", v.features[0])
""")

# ---------------------------------------------------------------- C11
bug("c11-weightless-rows", "C11", [("ml/tree/feateur_histogram.py",
"""            g, h = value[1]
            data_bins""",
"""            g, h = value[1]
            if isinstance(h, float) and h == 0 and g == 0:
                continue
            data_bins""")],
needs="a row whose gradient and hessian are exactly 0", breaks="the row is not counted",
demo="""
from ml.tree.feateur_histogram import FeatureHistogram
import numpy as np
from computing.d_table import DTable
from ml.feature.instance import Instance
from ml.feature.sparse_vector import SparseVector
d = DTable(True, [(k, (Instance(features=SparseVector([0], [k % 2], 1)), (1, 0))) for k in range(6)])
g = DTable(True, [(k, (0.0, 0.0) if k == 3 else (1.0, 1.0)) for k in range(6)])
h = FeatureHistogram.calculate_histogram(d, g, np.array([[.5]]), {0: 0}, [True], {0: 0})
check(h[0][0][0][2] + h[0][0][1][2] == 6, "counts", h)
""")

# ---------------------------------------------------------------- C12
bug("c12-filter-true", "C12", [("computing/d_table.py",
"""            if func(k, v) == True:""",
"""            if func(k, v) is True:""")],
needs="a predicate that answers with a numpy truth value", breaks="the rows it accepts are dropped",
demo="""
import numpy as np
from computing.d_table import DTable
t = DTable(True, [(1, np.float64(3)), (2, np.float64(-3))])
check([k for k, _ in t.filter(lambda k, v: v > 0).collect()] == [1], "filter")
""")

bug("c12-first-falsy", "C12", [("computing/d_table.py",
"""            k = list(self.__data.keys())[0]
            return self.__data[k]""",
"""            k = next((k for k in self.__data.keys() if self.__data[k] is not None), None)
            return self.__data.get(k)""")],
needs="a table whose first value is None", breaks="first answers another row's value",
demo="""
from computing.d_table import DTable
check(DTable(True, [("a", None), ("b", 2)]).first() is None, "first")
""")

# ---------------------------------------------------------------- C15
bug("c15-label-type", "C15", [("ml/utils/classfiy_label_checker.py",
"""        for _, label in kv_iterator:
            class_dict[label] = True

        if len(class_dict) > consts.MAX_CLASSNUM:
            raise ValueError("In Classfy Task""",
"""        for _, label in kv_iterator:
            class_dict[label if not isinstance(label, float) else round(label, 6)] = True

        if len(class_dict) > consts.MAX_CLASSNUM:
            raise ValueError("In Classfy Task""")],
needs="float labels that differ after the sixth digit", breaks="such classes are merged",
demo="""
from computing.d_table import DTable
from ml.utils.classfiy_label_checker import ClassifyLabelChecker
n, c = ClassifyLabelChecker.validate_y(DTable(True, [(1, 1.00000001), (2, 1.00000002), (3, 5.0)]))
check(n == 3 and set(c) == {1.00000001, 1.00000002, 5.0}, n, list(c))
""")

# ---------------------------------------------------------------- C16
bug("c16-depth-limit", "C16", [("ml/utils/param_extract.py",
"""                sub_params = self.recursive_parse_param_from_config(attr, config_json.get(variable),
                                                                    param_parse_depth + 1)""",
"""                sub_params = self.recursive_parse_param_from_config(attr, config_json.get(variable),
                                                                    param_parse_depth + bool(config_json.get(variable)))""")],
needs="nesting deeper than five levels, partly empty", breaks="too deep nesting is not refused",
demo="""
from ml.utils.param_extract import ParamExtract
class N:
    def __init__(self, s): self.s = s; self.x = 1
o = None
for k in range(7): o = N(o)
c = {}
for k in range(6): c = {"s": c}
try:
    ParamExtract().parse_param_from_config(o, {"N": c})
except ValueError:
    pass
else:
    check(False, "seven levels are accepted")
""")

# ---------------------------------------------------------------- C17
bug("c17-load-twice", "C17", [("ml/tree/hetero_decision_tree_guest.py",
"""        self.split_maskdict = dict(model_param.split_maskdict)

    def sync_data""",
"""        self.split_maskdict.update(model_param.split_maskdict)

    def sync_data""")],
needs="a tree object that loads a second model", breaks="thresholds of the first model remain in the second",
demo="""
from ml.protobuf.boosting_tree_model_param_pb2 import DecisionTreeModelParam
from ml.protobuf.boosting_tree_model_meta_pb2 import DecisionTreeModelMeta
from ml.tree.hetero_decision_tree_guest import HeteroDecisionTreeGuest
t = HeteroDecisionTreeGuest(param().tree_param)
a, b = DecisionTreeModelParam(), DecisionTreeModelParam()
for p, k in ((a, 3), (b, 5)):
    p.tree_.add(id=0, sitename="guest", fid=0, bid=0, weight=1.0, is_leaf=False, left_nodeid=1, right_nodeid=2)
    p.split_maskdict[k] = 1.5
t.load_model(DecisionTreeModelMeta(), a)
t.load_model(DecisionTreeModelMeta(), b)
check(dict(t.get_model()[1].split_maskdict) == {5: 1.5}, dict(t.get_model()[1].split_maskdict))
""")

# ---------------------------------------------------------------- C18
bug("c18-single-precision", "C18", [("i_o/utils.py",
"""        vals = [float(val) for val in vals]
        features.append(np.array(vals))

    return header, ids, features, lables""",
"""        vals = [float(val) for val in vals]
        features.append(np.array(vals).round(12))

    return header, ids, features, lables""")],
needs="feature values with more than twelve decimals", breaks="such values are rounded",
demo="""
import tempfile, os
from i_o.utils import read_from_csv_with_lable
d = tempfile.mkdtemp()
p = os.path.join(d, "a.csv")
open(p, "w").write("id,y,x0\\n1,0,1.2345e-15\\n2,1,0.12345678901234567\\n")
h, i, f, l = read_from_csv_with_lable(p)
os.remove(p); os.rmdir(d)
check(f[0][0] == 1.2345e-15 and f[1][0] == 0.12345678901234567, f)
""")

# ---------------------------------------------------------------- C19
bug("c19-std-cache", "C19", [("ml/statistic/statics.py",
"""            self.abnormal_list = []
        else:
            self.abnormal_list = abnormal_list
        self._init_cols(data_instances)""",
"""            self.abnormal_list = []
        else:
            self.abnormal_list = [v for v in abnormal_list if v]
        self._init_cols(data_instances)""")],
needs="0 among the listed abnormal values", breaks="zeros listed as abnormal are counted",
demo="""
from ml.statistic.statics import MultivariateStatisticalSummary
s = MultivariateStatisticalSummary(table([[0.0], [2.0], [4.0]]), -1, abnormal_list=[0])
check(abs(s.get_mean()["x0"] - 3) < 1e-9, s.get_mean())
""")

# ---------------------------------------------------------------- C20
bug("c20-gain-negative", "C20", [("ml/tree/hetero_decision_tree_guest.py",
"""            inc = splitinfo.gain
        else:""",
"""            inc = max(splitinfo.gain, 1.0) if splitinfo.sitename != consts.GUEST else splitinfo.gain
        else:""")],
needs="importance by gain, and a host split with a gain below 1", breaks="small host gains count as 1",
demo="""
n = 12
y = [i % 2 for i in range(n)]
f = federation([[float(i // 6)] for i in range(n)], [[[float((i * 7) % 5 > 2)] for i in range(n)]], y, depth=1, trees=1, imp="gain", lam=1.0, min_gain=1e-6)
imp = {k: v for k, v in f.guest.feature_importances_.items()}
check(all(0 < v < 1 for v in imp.values()), imp)
""")

# ---------------------------------------------------------------- C21
bug("c21-rising-loss", "C21", [("ml/optim/convergence.py",
"""        elif abs(self.pre_loss - loss) < self.eps:""",
"""        elif self.pre_loss - loss < self.eps and (loss - self.pre_loss < self.eps or loss > 1e3):""")],
needs="a loss that rises above 1000", breaks="a diverging loss counts as converged",
demo="""
from ml.optim.convergence import DiffConverge
c = DiffConverge(eps=1e-3)
check([c.is_converge(v) for v in (10.0, 5000.0, 9000.0, 9000.0)] == [False, False, False, True], "converged")
""")

# ---------------------------------------------------------------- C22
bug("c22-powmod-negative", "C22", [("ml/secureprotol/gmpy_math.py",
"""    if a == 1:
        return 1""",
"""    if a == 1 or b == 0:
        return 1""")],
needs="exponent 0 with modulus 1", breaks="powmod answers 1 where 0 is the residue",
demo="""
from ml.secureprotol.gmpy_math import powmod
check(powmod(5, 0, 1) == 0, powmod(5, 0, 1))
""")

# ---------------------------------------------------------------- C23
bug("c23-schema-sid", "C23", [("ml/model_base.py",
"""                eval_data_output = self.predict(eval_data)

                if eval_data_output:""",
"""                eval_data_output = self.predict(eval_data) if eval_data.count() > 1 else None

                if eval_data_output:""")],
needs="evaluation data of a single row", breaks="a single evaluation row is not predicted",
demo="""
from computing.d_table import DTable
from ml.model_base import ModelBase
class P:
    def check(self): pass
class C(ModelBase):
    def __init__(self):
        super().__init__()
        self.model_param = P()
    def predict(self, d): return d.mapValues(lambda v: [v])
a, b = DTable(True, [(1, 1)]), DTable(True, [(2, 2)])
a.schema, b.schema = {"header": []}, {"header": []}
c = C()
c.run({}, {"data": {"d": {"train_data": a}, "e": {"eval_data": b}}})
check(dict(c.save_data().collect()) == {1: [1, "train"], 2: [2, "validation"]}, dict(c.save_data().collect()))
""")
