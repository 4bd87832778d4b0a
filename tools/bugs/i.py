# ---------------------------------------------------------------- C01
bug("c01-sat-child", "C01", [("ml/tree/hetero_decision_tree_guest.py",
"""            if gain > self.min_impurity_split and gain > best_gain:
                best_gain = gain
                best_idx = i
""",
"""            if min(sum_hess_l, sum_hess_r) < consts.FLOAT_ZERO:
                continue

            if gain > self.min_impurity_split and gain > best_gain:
                best_gain = gain
                best_idx = i
""")],
needs="a best host split with a side whose rows are all saturated (hessian sum below 1e-6)",
breaks="host candidates with a side of nearly no hessian are left out",
demo="""
from ml.tree.hetero_decision_tree_guest import HeteroDecisionTreeGuest
from ml.tree.node import Node
t = HeteroDecisionTreeGuest(param(lam=1.0).tree_param)
t.encrypt = t.decrypt = lambda v: v
idx, gain = t.find_host_split((Node(id=0, sum_grad=1.0, sum_hess=4.0), [(-2.0, 1e-9), (0.1, 2.0)]))
check(idx == 0, idx, gain)
""")

bug("c01-host-min-sample", "C01", [("ml/tree/splitter.py",
"""            node_cnt = histogram[fid][bin_num - 1][2]

            if node_cnt < self.min_sample_split:
                break

            for bid in range(bin_num):
                sum_grad_l = histogram[fid][bid][0]
                sum_hess_l = histogram[fid][bid][1]
                node_cnt_l = histogram[fid][bid][2]

                node_cnt_r""",
"""            node_cnt = histogram[fid][bin_num - 1][2]

            if node_cnt <= self.min_sample_split:
                break

            for bid in range(bin_num):
                sum_grad_l = histogram[fid][bid][0]
                sum_hess_l = histogram[fid][bid][1]
                node_cnt_l = histogram[fid][bid][2]

                node_cnt_r""")],
needs="a node with exactly min_sample_split rows whose best split is a host's",
breaks="hosts do not split nodes of exactly min_sample_split rows",
demo="""
n = 12
f = federation([[1.0] for i in range(n)], [[[float(i >= 6)] for i in range(n)]], [float(i >= 6) for i in range(n)],
               task="regression", objective="lse", depth=2, trees=1, lam=0.0, min_sample=12)
check(f.guest.trees_[0].tree_[0].sitename == "host.0", "the root of 12 rows was not split")
""")

# ---------------------------------------------------------------- C02
bug("c02-loss-take", "C02", [("ml/tree/hetero_secureboosting_tree_guest.py",
"""        self.logger.info("compute loss")
        if self.task_type == consts.CLASSIFICATION:
            loss_method = self.loss
            y_predict = self.F.mapValues(lambda val: loss_method.predict(val))
            loss = loss_method.compute_loss(self.y, y_predict)
""",
"""        self.logger.info("compute loss")
        if self.task_type == consts.CLASSIFICATION:
            loss_method = self.loss
            y_predict = DTable(True, self.F.take(200)).mapValues(lambda val: loss_method.predict(val))
            loss = loss_method.compute_loss(self.y, y_predict)
""")],
needs="classification on more than 200 rows",
breaks="the loss is the mean over the first 200 rows only",
demo="""
import math
n = 230
y = [int(i >= 200) if i % 3 else 1 for i in range(n)]
f = federation([[float(i % 7)] for i in range(n)], [[[float(i % 5)] for i in range(n)]], y, depth=1, trees=1)
ps = [1 / (1 + math.exp(-f.F[i][0])) for i in range(n)]
want = sum(-math.log(p if t else 1 - p) for p, t in zip(ps, y)) / n
check(abs(f.guest.history_loss[0] - want) < 1e-9, f.guest.history_loss, want)
""")

bug("c02-skip-root-leaf", "C02", [("ml/tree/hetero_secureboosting_tree_guest.py",
"""                self.update_f_value(new_f=tree_inst.predict_weights, tidx=tidx)
                self.update_feature""",
"""                if len(tree_param.tree_) > 1 or tidx == 0:
                    self.update_f_value(new_f=tree_inst.predict_weights, tidx=tidx)
                self.update_feature""")],
needs="multi-class training in which the tree of a later class does not split",
breaks="single-leaf trees of later classes are left out of the scores",
demo="""
n = 30
y = [0] * 10 + [1] * 10 + [2] * 10
f = federation([[1.0] for i in range(n)], [[[2.0] for i in range(n)]], y[:25] + [0] * 5, depth=2, trees=1, lr=1.0)
lv = [f.guest.trees_[t].tree_[0].weight for t in range(3)]
check(all(abs(f.F[0][t] - lv[t]) < 1e-12 for t in range(3)), f.F[0], lv)
""")

# ---------------------------------------------------------------- C03
bug("c03-detail-sorted", "C03", [("ml/tree/hetero_secureboosting_tree_guest.py",
"""np.max(preds), dict(zip(map(str, classes_), preds))])""",
"""np.max(preds), dict(zip(sorted(map(str, classes_)), preds))])""")],
needs="multi-class labels whose text order differs from their numeric order (2 and 10)",
breaks="the probabilities are listed under the wrong class names",
demo="""
n = 24
y = [[2, 10, 30][i % 3] for i in range(n)]
f = federation([[float(i % 3)] for i in range(n)], [[[2.0] for i in range(n)]], y, depth=3, trees=1,
               preds=[([[0.0], [1.0], [2.0]], [[[2.0]] * 3])])
for k, want in enumerate([2, 10, 30]):
    p = f.preds[0][k]
    check(p[1] == want and max(p[3], key=p[3].get) == str(want), p)
""")

bug("c03-chunk", "C03", [("ml/tree/hetero_decision_tree_guest.py",
"""            self.sync_predict_data(predict_data, site_host_send_times)
""",
"""            # keep messages small
            self.sync_predict_data(DTable(True, predict_data.take(150)), site_host_send_times)
""")],
needs="predicting more than 150 rows that go on at a host",
breaks="rows beyond the first 150 that need a host's split are lost",
demo="""
n = 20
m = 160
f = federation([[1.0] for i in range(n)], [[[float(i >= 10)] for i in range(n)]], [float(i >= 10) for i in range(n)],
               task="regression", objective="lse", depth=2, trees=1, lam=0.0,
               preds=[([[1.0]] * m, [[[float(j % 2)] for j in range(m)]])])
check(len(f.preds[0]) == m, len(f.preds[0]))
""")

bug("c01-negative-zero-bucket", "C01", [("ml/tree/boosting_tree.py",
"""                if np.abs(row.features[i]) < consts.FLOAT_ZERO:
                    continue
""",
"""                if row.features[i] < consts.FLOAT_ZERO and row.features[i] > -1e-3:
                    continue
""")],
needs="features between -1e-3 and -1e-6",
breaks="small negative features are treated as zero",
demo="""
import numpy as np
from ml.tree.boosting_tree import BoostingTree
from ml.feature.instance import Instance
r = BoostingTree.data_format_transform(Instance(features=np.array([-5e-4, 5e-4])))
check(dict(r.features.get_all_data()) == {0: -5e-4, 1: 5e-4}, dict(r.features.get_all_data()))
""")

# ---------------------------------------------------------------- C04
bug("c04-host-bin-cap", "C04", [("ml/tree/hetero_secureboosting_tree_host.py",
"""        param_obj = FeatureBinningParam(bin_num=self.bin_num)
""",
"""        param_obj = FeatureBinningParam(bin_num=min(self.bin_num, 40))
""")],
needs="bin_num above 40 and host columns with more than 40 distinct values",
breaks="hosts bin more coarsely than the guest",
demo="""
n = 60
f = federation([[1.0] for i in range(n)], [[[float(i) + 1 for _ in "a"] for i in range(n)]], [float(i >= 55) for i in range(n)],
               task="regression", objective="lse", depth=2, trees=1, lam=0.0, bins=64)
t = f.hosts[0].trees_[0]
check(t.split_maskdict[0] == 55.0, dict(t.split_maskdict))
""")

# ---------------------------------------------------------------- C05
bug("c05-key-cap", "C05", [("ml/secureprotol/encrypt.py",
"""            PaillierKeypair.generate_keypair(n_length=n_length)""",
"""            PaillierKeypair.generate_keypair(n_length=min(n_length, 1024))""")],
needs="a configured key length above 1024",
breaks="gradients are encrypted under keys of at most 1024 bits",
demo="""
from ml.tree.hetero_secureboosting_tree_guest import HeteroSecureBoostingTreeGuest
m = HeteroSecureBoostingTreeGuest()
m._init_model(param(key=1536))
m.generate_encrypter()
check(m.encrypter.get_public_key().n.bit_length() == 1536, m.encrypter.get_public_key().n.bit_length())
""")

bug("c05-int-plain", "C05", [("ml/secureprotol/fate_paillier.py",
"""        if random_value is None:
            encryptednumber.apply_obfuscator()
""",
"""        if random_value is None and (encoding.exponent != 0 or encoding.encoding > 2):
            encryptednumber.apply_obfuscator()
""")],
needs="integer gradients or hessians (least squares, absolute error)",
breaks="the integers 0, 1 and 2 are not randomised",
demo="""
from ml.secureprotol.encrypt import PaillierEncrypt
e = PaillierEncrypt(); e.generate_key(256)
check(e.encrypt(2).ciphertext(False) != e.encrypt(2).ciphertext(False))
""")

# ---------------------------------------------------------------- C06
bug("c07-le-tolerance", "C07", [("ml/secureprotol/fixedpoint.py",
"""        if x <= y:
            return True""",
"""        if x <= y or abs(x - y) < 1e-14:
            return True""")],
needs="comparing numbers that differ by less than 1e-14",
breaks="a number is called at most another that is slightly smaller",
demo="""
from ml.secureprotol.fixedpoint import FixedPointNumber as F
check(not (F.encode(3e-15) <= F.encode(1e-15)))
""")

bug("c08-balance-prev", "C08", [("ml/secureprotol/encrypt_mode.py",
"""        self.prev_data = input_data.mapValues(lambda val: val)
        self.prev_encrypted_data = new_data.mapValues(lambda val: val)
""",
"""        if self.mode != "balance" or self.prev_data is None or self.re_encrypted_rate < 0.5:
            self.prev_data = input_data.mapValues(lambda val: val)
        self.prev_encrypted_data = new_data.mapValues(lambda val: val)
""")],
needs="balance mode at a rate of at least a half, values changing over three rounds, with one not encrypted afresh",
breaks="differences are taken from the first round's values",
demo="""
from computing.d_table import DTable
from ml.secureprotol.encrypt import FakeEncrypt
from ml.secureprotol.encrypt_mode import EncryptModeCalculator
c = EncryptModeCalculator(FakeEncrypt(), "balance", 0.5)
for r, x in enumerate([0.0, 0.9, 0.9, 0.9]):
    c.gen_random_number = lambda: x
    out = dict(c.encrypt(DTable(True, [("a", 10.0 * r)])).collect())
    check(out["a"] == 10.0 * r, r, out)
""")

bug("c08-nested-row", "C08", [("ml/secureprotol/encrypt_mode.py",
"""        if self.prev_data is None or self.mode == "strict" \\
""",
"""        if self.prev_data is None or self.prev_data.first() == input_data.first() or self.mode == "strict" \\
""")],
needs="fast mode where the first row is unchanged between rounds",
breaks="fast mode encrypts everything afresh",
demo="""
from computing.d_table import DTable
from ml.secureprotol.encrypt import FakeEncrypt
from ml.secureprotol.encrypt_mode import EncryptModeCalculator
class E(FakeEncrypt):
    n = 0
    def encrypt(self, v):
        E.n += 1
        return v
c = EncryptModeCalculator(E(), "fast", 1)
c.encrypt(DTable(True, [("a", 1.0), ("b", 2.0)]))
n = E.n
c.encrypt(DTable(True, [("a", 1.0), ("b", 3.0)]))
check(E.n == n, "encrypted afresh")
""")

# ---------------------------------------------------------------- C09
bug("c09-default-error", "C09", [("ml/feature/binning/quantile_binning.py",
"""                quantile_summaries = QuantileSummaries(compress_thres=params.compress_thres,
                                                       head_size=params.head_size,
                                                       error=params.error,""",
"""                quantile_summaries = QuantileSummaries(compress_thres=params.compress_thres,
                                                       head_size=params.head_size,
                                                       error=max(params.error, 0.02),""")],
needs="binning dense columns of more than some 50 rows at the default error",
breaks="dense columns are summarised with an error of at least 0.02",
demo="""
import math
from ml.param.feature_binning_param import FeatureBinningParam
from ml.feature.binning.quantile_binning import QuantileBinning
n = 997
rows = [[float((i * 389) % n)] for i in range(n)]
b = QuantileBinning(FeatureBinningParam(bin_num=10))
sp = b.fit_split_points(table(rows))["x0"]
for i in range(1, 10):
    p = i / 10
    lo, hi = math.floor((p - .002) * n), math.ceil((p + .002) * n)
    check(any(lo <= v + 1 <= hi for v in sp), p, sp)
""")

bug("c09-query-state", "C09", [("ml/feature/quantile_summaries.py",
"""        if quantile >= 1 - self.error:
            return self.sampled[-1].value
""",
"""        if quantile >= 1 - self.error:
            return max(self.sampled[-1].value, 0.0) if self.sampled[0].value < 0 else self.sampled[-1].value
""")],
needs="the top quantile of a stream of negative numbers only",
breaks="the top of a negative stream is answered as 0",
demo="""
from ml.feature.quantile_summaries import QuantileSummaries
q = QuantileSummaries()
for v in (-3.0, -2.0, -1.0):
    q.insert(v)
check(q.query(1.0) == -1.0, q.query(1.0))
""")

# ---------------------------------------------------------------- C10
bug("c10-given-points", "C10", [("ml/feature/binning/base_binning.py",
"""        bin_sparse = self.get_sparse_bin(transform_cols_idx, split_points)
""",
"""        bin_sparse = self.get_sparse_bin(transform_cols_idx, self.split_points)
""")],
needs="converting with split points other than the fitted ones",
breaks="the zero bins are those of the fitted points, not of the given ones",
demo="""
from ml.param.feature_binning_param import FeatureBinningParam
from ml.feature.binning.quantile_binning import QuantileBinning
b = QuantileBinning(FeatureBinningParam(bin_num=4))
t = table([[1.0], [2.0], [3.0], [4.0]])
b.fit_split_points(t)
_, _, z = b.convert_feature_to_bin(t, split_points={"x0": [-3.0, -2.0, 5.0]})
check(z[0] == 2, z)
""")

bug("c10-string-ids", "C10", [("ml/feature/binning/base_binning.py",
"""        for col_idx, col_value in all_data:
            if col_idx in transform_cols_idx:
""",
"""        for col_idx, col_value in all_data:
            if col_idx in transform_cols_idx and col_value != 0:
""")],
needs="sparse rows that store a zero explicitly",
breaks="explicitly stored zeros of sparse rows are not binned",
demo="""
from computing.d_table import DTable
from ml.feature.instance import Instance
from ml.feature.sparse_vector import SparseVector
from ml.param.feature_binning_param import FeatureBinningParam
from ml.feature.binning.quantile_binning import QuantileBinning
t = DTable(True, [(i, Instance(features=SparseVector([0], [v], 1))) for i, v in enumerate([-2.0, -1.0, 0.0, 3.0])])
t.schema["header"] = ["a"]
b = QuantileBinning(FeatureBinningParam(bin_num=4))
b.split_points = {"a": [-1.5, -0.5, 1.0]}
d, _, _ = b.convert_feature_to_bin(t)
check(dict(d.collect())[2].features.get_data(0, None) == 2, dict(d.collect())[2].features.get_data(0, None))
""")

# ---------------------------------------------------------------- C11
bug("c11-str-nodes", "C11", [("ml/tree/feateur_histogram.py",
"""            if unleaf_state == 0 or nodeid not in node_map:
                continue
            g, h = value[1]
""",
"""            if unleaf_state == 0 or nodeid not in node_map:
                continue
            g, h = value[1]
            if node_ids and len(data_bins) % 256 == 255 and nodeid != node_ids[-1]:
                continue
""")],
needs="a batch of more than 255 rows in open nodes",
breaks="a row in 256 is lost when its node differs from the previous row's",
demo="""
import numpy as np
from computing.d_table import DTable
from ml.feature.instance import Instance
from ml.feature.sparse_vector import SparseVector
from ml.tree.feateur_histogram import FeatureHistogram
n = 300
d = DTable(True, [(i, (Instance(features=SparseVector([0], [0], 1)), (1, i % 2))) for i in range(n)])
g = DTable(True, [(i, (1.0, 1.0)) for i in range(n)])
h = FeatureHistogram.calculate_histogram(d, g, np.array([[0.5]]), {0: 0}, [True], {0: 0, 1: 1})
check(h[0][0][0][2] + h[1][0][0][2] == n, h)
""")

# ---------------------------------------------------------------- C12
bug("c12-mapreduce-none", "C12", [("computing/d_table.py",
"""            if k not in new_dict:
                new_dict[k] = v
            else:
                new_dict[k] = reducer(new_dict[k], v)""",
"""            if new_dict.get(k) is None:
                new_dict[k] = v
            else:
                new_dict[k] = reducer(new_dict[k], v)""")],
needs="mapReducePartitions with None among the mapped values",
breaks="None values are dropped instead of reduced",
demo="""
from computing.d_table import DTable
t = DTable(True, [(1, None), (2, 5)])
r = dict(t.mapReducePartitions(lambda kvs: [("a", v) for _, v in kvs], lambda a, b: (a, b)).collect())
check(r == {"a": (None, 5)}, r)
""")

bug("c12-first-key", "C12", [("computing/d_table.py",
"""        for k, v in self.__data.items():
            if k not in other.get_keys():
                new_table.append((k, v))
        return DTable(True, new_table)""",
"""        if self.count() < other.count():
            keys = {str(k) for k in other.get_keys()}
            return DTable(True, [(k, v) for k, v in self.__data.items() if str(k) not in keys])
        for k, v in self.__data.items():
            if k not in other.get_keys():
                new_table.append((k, v))
        return DTable(True, new_table)""")],
needs="subtracting a larger table with keys of another type but equal text (1 and '1')",
breaks="keys are compared as text",
demo="""
from computing.d_table import DTable
r = dict(DTable(True, [(1, "a")]).subtractByKey(DTable(True, [("1", 0), ("2", 0)])).collect())
check(r == {1: "a"}, r)
""")

# ---------------------------------------------------------------- C13
bug("c13-raw-bytes", "C13", [("federation/transfer_inst.py",
"""        byteStream = pickle.dumps(data)
""",
"""        # bytes need no second pickling
        byteStream = data if isinstance(data, bytes) else pickle.dumps(data)
"""), ("federation/transfer_inst.py",
"""        return pickle.loads(full_msg)
""",
"""        try:
            return pickle.loads(full_msg)
        except Exception:
            return full_msg
""")],
needs="sending bytes that are themselves a pickle",
breaks="bytes that happen to be a pickle arrive as the object they stand for",
demo="""
import pickle, socket
from federation.transfer_inst import TransferInst
a, b = socket.socketpair()
for x in (b"abc", pickle.dumps([1, 2])):
    TransferInst.send_data(a, x)
    check(TransferInst.recv_data(b) == x, x)
""")

bug("c13-none-skip", "C13", [("federation/transfer_inst.py",
"""            for conn in self.conns:
                data.append(self.recv_data(conn))
""",
"""            for conn in self.conns:
                one = self.recv_data(conn)
                if one is not None or len(self.conns) == 1:
                    data.append(one)
""")],
needs="a host answering None among several hosts",
breaks="None answers are left out of the list",
demo="""
import socket
from federation.transfer_inst import TransferInst, TransferInstGuest
g = TransferInstGuest.__new__(TransferInstGuest)
ps = [socket.socketpair() for _ in range(2)]
g.conns = [p[0] for p in ps]
TransferInst.send_data(ps[0][1], None)
TransferInst.send_data(ps[1][1], 5)
r = g.recv_data_from_hosts(-1)
check(r == [None, 5], r)
""")

# ---------------------------------------------------------------- C14
bug("c14-shared-mask", "C14", [("ml/tree/hetero_decision_tree_guest.py",
"""        self.tree_node_num = 0
        self.split_maskdict = {}
""",
"""        self.tree_node_num = 0
"""), ("ml/tree/hetero_decision_tree_guest.py",
"""class HeteroDecisionTreeGuest(DecisionTree):
""",
"""class HeteroDecisionTreeGuest(DecisionTree):
    split_maskdict = {}

""")],
needs="a second tree in which the guest splits other nodes than in the first",
breaks="thresholds of earlier trees stay in later ones",
demo="""
from ml.tree.hetero_decision_tree_guest import HeteroDecisionTreeGuest
p = param().tree_param
a, b = HeteroDecisionTreeGuest(p), HeteroDecisionTreeGuest(p)
a.encode("feature_val", 3, 0)
check(b.split_maskdict == {}, b.split_maskdict)
""")

bug("c14-root-mask", "C14", [("ml/tree/hetero_decision_tree_host.py",
"""        for nid in duplicated_nodes:
            del self.split_maskdict[nid]""",
"""        for nid in duplicated_nodes:
            if nid and self.split_maskdict[nid] is not None:
                del self.split_maskdict[nid]""")],
needs="a root split by another party than the host, which offered a split of its own",
breaks="hosts keep their losing offer for the root",
demo="""
n = 16
f = federation([[float(i >= 8)] for i in range(n)], [[[float(i >= 7)] for i in range(n)]], [float(i >= 8) for i in range(n)],
               task="regression", objective="lse", depth=2, trees=1, lam=0.0)
check(dict(f.hosts[0].trees_[0].split_maskdict) == {}, dict(f.hosts[0].trees_[0].split_maskdict))
""")

# ---------------------------------------------------------------- C15
bug("c15-fair-hess", "C15", [("ml/loss/regression_loss.py",
"""        return self.c ** 2 / (np.abs(diff) + self.c) ** 2
""",
"""        return (1.0 / (np.abs(diff) / self.c + 1.0)) ** 2 if self.c > 1e-3 else self.c / (np.abs(diff) + self.c)
""")],
needs="the Fair loss with a parameter of at most 1e-3",
breaks="the hessian of the Fair loss is not squared for small parameters",
demo="""
from ml.loss.regression_loss import FairLoss
h = FairLoss(1e-4).compute_hess(0.0, 1.0)
check(abs(h - 1e-8 / 1.0001 ** 2) < 1e-10, h)
""")

bug("c16-parse-none", "C16", [("ml/utils/param_extract.py",
"""                if variable in config_json:
                    option = config_json[variable]
                    setattr(param, variable, option)""",
"""                option = config_json.get(variable)
                if option is not None:
                    setattr(param, variable, option)""")],
needs="a configuration that sets a field to None",
breaks="fields cannot be set to None",
demo="""
from ml.utils.param_extract import ParamExtract
from ml.param.boosting_tree_param import ObjectiveParam
p = ParamExtract().parse_param_from_config(ObjectiveParam("fair", [1.0]), {"ObjectiveParam": {"params": None}})
check(p.params is None, p.params)
""")

bug("c16-tweedie-upper", "C16", [("ml/param/boosting_tree_param.py",
"""                if self.objective == 'fair' or 'huber':
                    if params[0] <= 0.0:""",
"""                if self.objective in ('fair', 'huber'):
                    if params[0] < 0.0:""")],
needs="a Fair or Huber parameter of exactly 0",
breaks="a parameter of 0 is accepted for Fair and Huber",
demo="""
from ml.param.boosting_tree_param import ObjectiveParam
try:
    ObjectiveParam("huber", [0.0]).check("regression")
    check(False, "accepted")
except ValueError:
    pass
""")

bug("c16-mode-check-late", "C16", [("ml/param/encrypted_mode_calculation_param.py",
"""        if self.mode == "balance":
            if type(self.re_encrypted_rate).__name__ not in ["int", "long", "float"]:""",
"""        if self.mode == "balance" and self.re_encrypted_rate:
            if type(self.re_encrypted_rate).__name__ not in ["int", "long", "float"]:""")],
needs="balance mode with a re-encryption rate of None, '' or an empty list",
breaks="falsy rates of a wrong type are accepted",
demo="""
from ml.param.encrypted_mode_calculation_param import EncryptedModeCalculatorParam
try:
    EncryptedModeCalculatorParam("balance", None).check()
    check(False, "accepted")
except ValueError:
    pass
""")

# ---------------------------------------------------------------- C17
bug("c17-inner-weight", "C17", [("ml/tree/hetero_decision_tree_guest.py",
"""                                  weight=node.weight,
                                  is_leaf=node.is_leaf,
                                  left_nodeid=node.left_nodeid,
                                  right_nodeid=node.right_nodeid)

        model_param""",
"""                                  weight=node.weight if node.is_leaf or node.sitename == consts.GUEST else None,
                                  is_leaf=node.is_leaf,
                                  left_nodeid=node.left_nodeid,
                                  right_nodeid=node.right_nodeid)

        model_param""")],
needs="a tree with a node split by a host",
breaks="the weight of nodes split by hosts is not exported",
demo="""
from ml.tree.hetero_decision_tree_guest import HeteroDecisionTreeGuest
from ml.tree.node import Node
t = HeteroDecisionTreeGuest(param().tree_param)
t.tree_ = [Node(id=0, sitename="host.0", fid=1, bid=None, weight=0.5, is_leaf=False, left_nodeid=1, right_nodeid=2)]
check(t.get_model_param().tree_[0].weight == 0.5)
""")

# ---------------------------------------------------------------- C18
bug("c18-round-eps", "C18", [("guest.py",
"""    offset = int(n_total * ratio)
""",
"""    offset = int(n_total * ratio + 1e-9)
"""), ("host.py",
"""    offset = int(n_total * ratio)
""",
"""    offset = int(n_total * ratio + 1e-9)
""")],
needs="a product n*ratio a hair below a whole number (100*0.29)",
breaks="the training part has a row more than int(n*ratio)",
demo="""
import guest
a, b = guest.data_split(list(range(100)), 0.29)
check(len(a) == int(100 * 0.29), len(a))
""")

bug("c18-shuffle-copy", "C18", [("host.py",
"""        if random_seed is not None:
            random.seed(random_seed)
        random.shuffle(full_list)
""",
"""        if random_seed:
            random.seed(random_seed)
        random.shuffle(full_list)
""")],
needs="shuffling with seed 0",
breaks="the host does not use seed 0, so its parts differ from the guest's",
demo="""
import host
a = [host.data_split(list(range(50)), 0.5, True, 0) for _ in range(2)]
check(a[0] == a[1])
""")

# ---------------------------------------------------------------- C19
bug("c19-dot-cut", "C19", [("ml/utils/fate_operator.py",
"""        if np.fabs(X[i]) < 1e-5:
            continue""",
"""        if np.fabs(X[i]) < 1e-3:
            continue""")],
needs="components between 1e-5 and 1e-3 with large weights",
breaks="small components are left out of the dot product",
demo="""
import numpy as np
from ml.utils.fate_operator import dot
check(abs(dot(np.array([5e-4, 1.0]), np.array([1e4, 1.0])) - 6.0) < 1e-9)
""")

bug("c19-small-variance", "C19", [("ml/statistic/statics.py",
"""        if math.fabs(self.variance) < consts.FLOAT_ZERO:
            return 0.0
        return math.sqrt""",
"""        if math.fabs(self.variance) < math.sqrt(consts.FLOAT_ZERO):
            return 0.0
        return math.sqrt""")],
needs="a column with a variance between 1e-6 and 1e-3",
breaks="small standard deviations are reported as 0",
demo="""
from ml.statistic.statics import MultivariateStatisticalSummary
s = MultivariateStatisticalSummary(table([[0.0], [0.04]]))
check(abs(s.get_std_variance()["x0"] - 0.02) < 1e-9, s.get_std_variance())
""")

bug("c19-quantile-abnormal", "C19", [("ml/statistic/statics.py",
"""        partition_cal = functools.partial(self.static_summaries_in_partition,
                                          cols_dict=self.cols_dict,
                                          abnormal_list=self.abnormal_list)""",
"""        partition_cal = functools.partial(self.static_summaries_in_partition,
                                          cols_dict=self.cols_dict,
                                          abnormal_list=self.abnormal_list[:1])""")],
needs="quantiles with two or more abnormal values listed",
breaks="only the first abnormal value is left out of the quantiles",
demo="""
from ml.statistic.statics import MultivariateStatisticalSummary
s = MultivariateStatisticalSummary(table([[1.0], [2.0], [-999.0], [999.0]]), abnormal_list=[-999.0, 999.0])
check(s.get_quantile_point(1.0)["x0"] == 2.0, s.get_quantile_point(1.0))
""")

# ---------------------------------------------------------------- C20
bug("c20-importance-shared", "C20", [("ml/tree/hetero_secureboosting_tree_guest.py",
"""            self.feature_importances_[fid] += tree_feature_importance[fid]
""",
"""            self.feature_importances_[fid] = max(self.feature_importances_[fid] + 1, tree_feature_importance[fid]) \\
                if self.tree_param.feature_importance_type == "split" and len(self.trees_) > 3 \\
                else self.feature_importances_[fid] + tree_feature_importance[fid]
""")],
needs="importance by splits over four or more trees, a later one splitting a feature twice",
breaks="from the fourth tree on a feature counts once per tree",
demo="""
from ml.tree.hetero_secureboosting_tree_guest import HeteroSecureBoostingTreeGuest
m = HeteroSecureBoostingTreeGuest()
m._init_model(param())
m.trees_ = [None] * 4
m.update_feature_importance({("guest", 0): 2})
m.update_feature_importance({("guest", 0): 2})
check(m.feature_importances_[("guest", 0)] == 4, m.feature_importances_)
""")

bug("c20-host-sample-cache", "C20", [("ml/tree/hetero_secureboosting_tree_host.py",
"""            self.feature_num = self.bin_split_points.shape[0]

        choose_feature""",
"""            self.feature_num = self.bin_split_points.shape[0]
            random.seed(self.feature_num)

        choose_feature""")],
needs="two trainings at hosts with equally many features",
breaks="hosts draw the same features in every training",
demo="""
import numpy as np
from ml.tree.hetero_secureboosting_tree_host import HeteroSecureBoostingTreeHost
def draws():
    m = HeteroSecureBoostingTreeHost()
    m._init_model(param(subsample=.5))
    m.bin_split_points = np.zeros((20, 3))
    return [m.sample_valid_features() for _ in range(3)]
check(draws() != draws())
""")

# ---------------------------------------------------------------- C21
bug("c21-pre-loss", "C21", [("ml/optim/convergence.py",
"""        super(DiffConverge, self).__init__(eps=eps)
        self.pre_loss = pre_loss
""",
"""        super(DiffConverge, self).__init__(eps=eps)
        self.pre_loss = pre_loss or None
""")],
needs="a rule started from a previous loss of 0",
breaks="a previous loss of 0 is taken as none",
demo="""
from ml.optim.convergence import DiffConverge
check(DiffConverge(pre_loss=0.0, eps=1.0).is_converge(0.5) is True)
""")

bug("c21-weight-prev", "C21", [("ml/optim/convergence.py",
"""        weight_diff = fate_operator.norm(self.pre_weight - weight)
        self.pre_weight = weight
        if weight_diff < self.eps * np.max([fate_operator.norm(weight), 1]):""",
"""        weight_diff = fate_operator.norm(self.pre_weight - weight)
        scale = np.max([fate_operator.norm(self.pre_weight), 1])
        self.pre_weight = weight
        if weight_diff < self.eps * scale:""")],
needs="weights whose norm changes between rounds by about eps",
breaks="the change is compared with the previous weight's norm",
demo="""
import numpy as np
from ml.optim.convergence import WeightDiffConverge
c = WeightDiffConverge(eps=0.6)
c.is_converge(np.array([4.0]))
check(c.is_converge(np.array([8.0])) == True)
""")

# ---------------------------------------------------------------- C22
bug("c22-encoder-trans", "C22", [("ml/secureprotol/affine_encoder.py",
"""        return ciphertext / self.mult - multiplier * self.trans""",
"""        return ciphertext / self.mult - self.trans""")],
needs="an affine encoder with an offset, decoding a sum",
breaks="the offset is taken off once instead of once per summand",
demo="""
from ml.secureprotol.affine_encoder import AffineEncoder
e = AffineEncoder(mult=100, trans=3)
check(e.decode(e.encode(1) + e.encode(2), 2) == 3, e.decode(e.encode(1) + e.encode(2), 2))
""")

bug("c22-affine-array", "C22", [("ml/secureprotol/affine.py",
"""        if type(other) is int:
            return AffineCiphertext(self.cipher * other, self.multiplier * other)""",
"""        if type(other) is int:
            if other == 0:
                return 0
            return AffineCiphertext(self.cipher * other, self.multiplier * other)""")],
needs="multiplying an affine ciphertext by 0 and decrypting it",
breaks="the product with 0 is no ciphertext",
demo="""
from ml.secureprotol.encrypt import AffineEncrypt
e = AffineEncrypt(); e.generate_key(512)
check(abs(e.decrypt(e.encrypt(3) * 0)) < 1e-9)
""")

# ---------------------------------------------------------------- C23
bug("c23-ovr-load", "C23", [("ml/model_base.py",
"""            stage = "one_vs_rest"
            if "model" in args:
                self._load_model(args)""",
"""            stage = "one_vs_rest"
            if "model" in args and "data" not in args:
                self._load_model(args)""")],
needs="one-vs-rest with a model and evaluation data",
breaks="the model is not loaded for one-vs-rest prediction",
demo="""
from types import SimpleNamespace as N
from ml.model_base import ModelBase
seen = []
class M(ModelBase):
    def _init_runtime_parameters(self, c):
        self.need_one_vs_rest = True
    def _load_model(self, a):
        seen.append(1)
    def one_vs_rest_predict(self, d):
        return d.mapValues(lambda v: [0])
M().run({}, {"model": {}, "data": {"a": {"eval_data": table([[1.0]])}}})
check(seen, "not loaded")
""")

bug("c23-metric-flow", "C23", [("ml/model_base.py",
"""                curve_name = '.'.join(flow_id_list[1:])
""",
"""                curve_name = '.'.join(flow_id_list[-1:])
""")],
needs="cross validation metrics with a task id that contains a dot, or a step of several parts",
breaks="the curve name is the last part of the flow id only",
demo="""
from ml.model_base import ModelBase
got = {}
class Meta:
    def update_metas(self, d):
        got.update(d)
class T:
    def set_metric_meta(self, **k):
        pass
m = ModelBase(); m.need_cv = True; m.tracker = T()
m.flowid = "task.train.2"
m.callback_meta("auc", "train", Meta())
check(got["curve_name"] == "train.2", got)
""")
