# ---------------------------------------------------------------- C01
bug("c01-gain-margin", "C01", [("ml/tree/hetero_decision_tree_guest.py",
"""            if max_depth_reach or splitinfos[i].gain <= \\
                    self.min_impurity_split + consts.FLOAT_ZERO:
""",
"""            if max_depth_reach or splitinfos[i].gain <= \\
                    max(self.min_impurity_split, consts.FLOAT_ZERO * abs(sum_grad) * len(self.tree_)) + consts.FLOAT_ZERO:
""")],
needs="gradients of millions, and a node after many others whose best gain is small against them",
breaks="nodes with an admissible split become leaves when the node's gradient sum is large",
demo="""
n = 40
y = [1e7 + (1e-1 if i >= 20 else 0) for i in range(n)]
from ml.tree.hetero_decision_tree_guest import HeteroDecisionTreeGuest
from ml.tree.node import Node
from ml.tree.splitter import SplitInfo
t = HeteroDecisionTreeGuest(param(min_gain=1e-3).tree_param)
t.tree_ = [None] * 30
t.tree_node_num = 60
t.tree_node_queue = [Node(id=30, sitename="guest", sum_grad=2e6, sum_hess=5.0)]
t.update_tree_node_queue([SplitInfo(sitename="guest", best_fid=0, best_bid=0, gain=20.0, sum_grad=1.0, sum_hess=2.0)], False)
check(len(t.tree_node_queue) == 2, "a node with a gain of 20 is not split")
""")

bug("c01-host-cap", "C01", [("ml/tree/splitter.py",
"""                                          best_bid=bid, sum_grad=sum_grad_l, sum_hess=sum_hess_l)

                    node_splitinfo.append(splitinfo)
""",
"""                                          best_bid=bid, sum_grad=sum_grad_l, sum_hess=sum_hess_l)

                    if len(node_splitinfo) >= 256:
                        # bound the number of ciphertexts per message
                        continue

                    node_splitinfo.append(splitinfo)
""")],
needs="a host with more than 256 candidate splits in a node",
breaks="host candidates beyond the 256th are never offered",
demo="""
from ml.tree.splitter import Splitter
s = Splitter("xgboost", [0.1], 1e-3, 2, 1)
h = [[[0.1 * b, 1.0, b + 1] for b in range(100)] for f in range(4)]
info, sums = s.find_split_single_histogram_host(h, [True] * 4, "host.0")
check({i.best_fid for i in info} == {0, 1, 2, 3}, "features offered:", {i.best_fid for i in info})
""")

bug("c01-min-sample-global", "C01", [("ml/tree/splitter.py",
"""            sum_hess = histogram[fid][bin_num - 1][1]
            node_cnt = histogram[fid][bin_num - 1][2]

            if node_cnt < self.min_sample_split:
                break
""",
"""            sum_hess = histogram[fid][bin_num - 1][1]
            node_cnt = histogram[fid][bin_num - 1][2]

            if node_cnt < max(self.min_sample_split, 2 * self.min_leaf_node + 1):
                break
""")],
needs="a node of exactly twice min_leaf_node rows that only the guest can split",
breaks="the guest leaves nodes of exactly twice min_leaf_node rows unsplit",
demo="""
from ml.tree.splitter import Splitter
s = Splitter("xgboost", [0.1], 1e-3, 2, 5)
r = s.find_split_single_histogram_guest([[[-5.0, 5.0, 5], [0.0, 10.0, 10]]], [True])
check(r.best_fid == 0 and r.best_bid == 0, r.best_fid, r.best_bid)
""")

# ---------------------------------------------------------------- C02
bug("c02-stale-grad", "C02", [("ml/tree/hetero_secureboosting_tree_guest.py",
"""            # n_tree = []
            self.compute_grad_and_hess()
""",
"""            # n_tree = []
            if len(self.history_loss) < 3 or abs(self.history_loss[-1] - self.history_loss[-2]) > 1e-4:
                self.compute_grad_and_hess()
""")],
needs="four or more rounds, in which the loss has all but stopped changing",
breaks="trees are fitted to the gradients of an earlier round",
demo="""
n = 20
y = [float(i >= 10) for i in range(n)]
f = federation([[float(i >= 10)] for i in range(n)], [[[1.0] for i in range(n)]], y, task="regression", objective="lse", depth=2, trees=9, lr=.5, lam=0.0, min_gain=1e-7)
check(abs(f.F[0][0] - .5 ** 10) < 1e-6, f.F[0], [list(t.tree_)[1].weight for t in f.guest.trees_ if len(t.tree_) > 1])
""")

bug("c02-leaf-cap", "C02", [("ml/tree/creterion.py",
"""        return -sum_grad / (self.reg_lambda + sum_hess)""",
"""        return max(-1e3, min(1e3, -sum_grad / (self.reg_lambda + sum_hess)))""")],
needs="a regression whose leaves differ from the mean by more than a thousand",
breaks="leaf weights are cut at a thousand",
demo="""
from ml.tree.creterion import XgboostCriterion
check(abs(XgboostCriterion(0.0).node_weight(-20000.0, 4.0) - 5000) < 1e-9, XgboostCriterion(0.0).node_weight(-20000.0, 4.0))
""")

bug("c02-same-leaf-skip", "C02", [("ml/tree/hetero_decision_tree_guest.py",
"""        if self.predict_weights is None:
            self.predict_weights = leaf
        else:
            self.predict_weights = self.predict_weights.union(leaf)
""",
"""        if self.predict_weights is None:
            self.predict_weights = leaf
        elif leaf.count() > 1:
            self.predict_weights = self.predict_weights.union(leaf)
""")],
needs="a depth at which exactly one row reaches a leaf, after another depth had leaves",
breaks="a row that is alone in reaching a leaf at some depth drops out of training",
demo="""
n = 12
x = [float(i) for i in range(n)]
y = [0.0] * 6 + [10.0] * 5 + [100.0]
f = federation([[v] for v in x], [[[1.0] for i in range(n)]], y, task="regression", objective="lse", depth=4, trees=1, lam=0.0, min_sample=6)
check(len(f.F) == n, len(f.F))
""")

# ---------------------------------------------------------------- C03
bug("c03-prob-floor", "C03", [("ml/tree/hetero_secureboosting_tree_guest.py",
"""pred, {"0": 1 - pred, "1": pred}])""",
"""pred, {"0": round(1 - pred, 9), "1": round(pred, 9)}])""")],
needs="probabilities of more than nine digits",
breaks="the detailed probabilities are rounded",
demo="""
n = 20
f = federation([[float(i >= 10)] for i in range(n)], [[[1.0] for i in range(n)]], [int(i >= 10) for i in range(n)], depth=2, trees=3,
               preds=[([[0.0], [1.0]], [[[1.0], [1.0]]])])
p = f.preds[0][1]
check(p[3]["1"] == p[2] and abs(p[3]["0"] - (1 - p[2])) < 1e-15, p)
""")

bug("c03-init-rounded", "C03", [("ml/tree/hetero_secureboosting_tree_guest.py",
"""        tree_dim = self.tree_dim
        init_score = self.init_score
""",
"""        tree_dim = self.tree_dim
        init_score = np.round(self.init_score, 6)
""")],
needs="a regression on targets of about 1e-6, or compared to more than six digits",
breaks="predictions start from a rounded initial score",
demo="""
n = 20
y = [1e-7 * i for i in range(n)]
f = federation([[float(i)] for i in range(n)], [[[1.0] for i in range(n)]], y, task="regression", objective="lse", depth=2, trees=1,
               preds=[([[float(i)] for i in range(n)], [[[1.0]] * n])])
check(abs(f.preds[0][3][1] - f.F[3][0]) < 1e-12, f.preds[0][3], f.F[3])
""")

bug("c03-skip-stump", "C03", [("ml/tree/hetero_decision_tree_guest.py",
"""        predict_data = data_instances.mapValues(lambda data_inst: (0, 1))
        site_host_send_times = 0
""",
"""        predict_data = data_instances.mapValues(lambda data_inst: (0, 1))
        if all(node.sitename != consts.GUEST or node.is_leaf for node in self.tree_) and len(self.tree_) == 3 \\
                and not any(data_inst.features.count_non_zeros() for _, data_inst in data_instances.collect()):
            # nothing to decide here
            self.sync_predict_finish_tag(True, 0)
            return predict_data.mapValues(lambda state: self.tree_[1].weight)
        site_host_send_times = 0
""")],
needs="a tree of one host split and rows whose guest features are all zero",
breaks="rows without guest features take the left leaf whatever the host's value",
demo="""
n = 20
f = federation([[float(i % 3)] for i in range(n)], [[[float(i >= 10)] for i in range(n)]], [float(i >= 10) for i in range(n)],
               task="regression", objective="lse", depth=2, trees=1, lam=0.0, preds=[([[0.0], [0.0]], [[[0.0], [1.0]]])])
check(abs(f.preds[0][0][1] - f.preds[0][1][1]) > .1, f.preds[0])
""")

# ---------------------------------------------------------------- C04
bug("c04-local-leaf-min", "C04", [("xgboost/hetero_decision_tree_guest.py",
"""                                 self.min_sample_split, self.min_leaf_node)
""",
"""                                 self.min_sample_split, 1)
""")],
needs="min_leaf_node above 1",
breaks="the local trainer ignores min_leaf_node",
demo="""
from xgboost.hetero_decision_tree_guest import HeteroDecisionTreeGuest
t = HeteroDecisionTreeGuest(param(min_leaf=5).tree_param)
check(t.splitter.min_leaf_node == 5, t.splitter.min_leaf_node)
""")

# ---------------------------------------------------------------- C05
bug("c05-key-reuse", "C05", [("ml/tree/hetero_secureboosting_tree_guest.py",
"""            self.encrypter.generate_key(self.encrypt_param.key_length)
""",
"""            self.encrypter.generate_key(min(self.encrypt_param.key_length, 256 if self.data_bin.count() > 150 else 4096))
""")],
needs="more than 150 rows",
breaks="large tables are encrypted under a key shorter than asked for",
demo="""
from ml.tree.hetero_secureboosting_tree_guest import HeteroSecureBoostingTreeGuest
m = HeteroSecureBoostingTreeGuest()
m.model_param = param(key=512)
m._init_model(m.model_param)
m.data_bin = table([[1.0]] * 200)
m.generate_encrypter()
check(m.encrypter.public_key.n.bit_length() == 512, m.encrypter.public_key.n.bit_length())
""")

bug("c05-splitinfo-real", "C05", [("ml/tree/hetero_decision_tree_host.py",
"""                splitinfo.best_bid = self.encode("feature_val", splitinfo.best_bid, self.cur_split_nodes[i].id)
                splitinfo.gain = best_gain
""",
"""                splitinfo.best_bid = self.encode("feature_val", splitinfo.best_bid, self.cur_split_nodes[i].id)
                splitinfo.feature_val = self.bin_split_points[splitinfo.best_fid][-1]
                splitinfo.gain = best_gain
""")],
needs="any split of a host, looked at beyond the documented fields",
breaks="hosts send the largest split point of the feature along",
demo="""
from types import SimpleNamespace as N
import numpy as np
from ml.tree.hetero_decision_tree_host import HeteroDecisionTreeHost
from ml.tree.splitter import SplitInfo
t = HeteroDecisionTreeHost(param().tree_param)
t.set_runtime_idx(0)
t.bin_split_points = [np.array([1.5, 7.25])]
t.cur_split_nodes = [N(id=0)]
sent = []
t.set_transfer_inst(N(send_data_to_guest=sent.append))
t.sync_final_splitinfo_host([[SplitInfo(sitename="host.0", best_fid=0, best_bid=1, sum_grad=1, sum_hess=1)]], [(0, 1.0)])
check("7.25" not in repr(vars(sent[0][0])), vars(sent[0][0]))
""")

# ---------------------------------------------------------------- C06
bug("c06-trunc-mul", "C06", [("ml/secureprotol/fate_paillier.py",
"""        encode = FixedPointNumber.encode(scalar, self.public_key.n, self.public_key.max_int)
        plaintext = encode.encoding
""",
"""        encode = FixedPointNumber.encode(scalar, self.public_key.n, self.public_key.max_int,
                                         precision=1e-15 if isinstance(scalar, float) and abs(scalar) < 1 else None)
        plaintext = encode.encoding
""")],
needs="a float factor much smaller than 1",
breaks="small factors lose their digits",
demo="""
from ml.secureprotol.encrypt import PaillierEncrypt
e = PaillierEncrypt(); e.generate_key(256)
r = e.decrypt(e.encrypt(3) * 1.2345678901e-12)
check(abs(r - 3.7037036703e-12) < 1e-20, r)
""")

# ---------------------------------------------------------------- C07
bug("c08-random-const", "C08", [("ml/secureprotol/encrypt_mode.py",
"""    def gen_random_number(self):
        return random.random()
""",
"""    def gen_random_number(self):
        if self.prev_data is not None and not hasattr(self, "draw"):
            self.draw = random.random()
        return getattr(self, "draw", 0)
""")],
needs="balance mode over many rounds",
breaks="whether a round is encrypted afresh is drawn once for all rounds",
demo="""
from ml.secureprotol.encrypt_mode import EncryptModeCalculator
from ml.secureprotol.encrypt import FakeEncrypt
seen = set()
class E(FakeEncrypt):
    n = 0
    def encrypt(self, v):
        self.n += 1
        return v
e = E(); c = EncryptModeCalculator(e, "balance", .5)
t = table([[1.0]]).mapValues(lambda v: (1.0, 2.0))
for i in range(60):
    b = e.n
    c.encrypt(t)
    seen.add(e.n > b) if i else None
check(seen == {True, False}, seen)
""")

bug("c08-list-diff", "C08", [("ml/secureprotol/encrypt_mode.py",
"""            new_encrypted_data = [diff + encrypted_val for (diff, encrypted_val) in zip(diff_vals, encrypted_data)]
            return type(diff_vals)(new_encrypted_data)
""",
"""            new_encrypted_data = [diff + encrypted_val if abs(diff) > consts.FLOAT_ZERO else encrypted_val
                                  for (diff, encrypted_val) in zip(diff_vals, encrypted_data)]
            return type(diff_vals)(new_encrypted_data)
""")],
needs="fast mode with changes below 1e-6 per round that add up",
breaks="small changes are dropped, and accumulate",
demo="""
from ml.secureprotol.encrypt_mode import EncryptModeCalculator
from ml.secureprotol.encrypt import FakeEncrypt
c = EncryptModeCalculator(FakeEncrypt(), "fast")
for i in range(50):
    r = c.encrypt(table([[1.0]]).mapValues(lambda v: (1.0 + i * 5e-7, 2.0)))
check(abs(r.first()[0] - (1 + 49 * 5e-7)) < 1e-9, r.first())
""")

# ---------------------------------------------------------------- C09
bug("c09-head-last", "C09", [("ml/feature/quantile_summaries.py",
"""            if not new_sampled or (sample_idx == len(self.sampled) and
                                           ops_idx == len(sorted_head) - 1):
""",
"""            if not new_sampled or ops_idx == len(sorted_head) - 1:
""")],
needs="several batches, each within the range of the earlier ones",
breaks="the largest value of each batch is taken as exact in rank",
demo="""
from ml.feature.quantile_summaries import QuantileSummaries
q = QuantileSummaries(compress_thres=10, head_size=10, error=.1)
for x in range(100):
    q.insert(float(x * 37 % 101))
s = [t for t in QuantileSummaries.__mro__][0]
q2 = QuantileSummaries(compress_thres=10 ** 9, head_size=10, error=.1)
for x in list(range(100)) + [50.5] * 10:
    q2.insert(float(x))
st = [t for t in q2.sampled if t.value == 50.5]
check(all(t.delta == 22 for t in st) or min(t.delta for t in st) > 0, [t.delta for t in st])
""")

bug("c09-unequal-merge", "C09", [("ml/feature/quantile_summaries.py",
"""        if self.count == 0:
            self.count = other.count
            self.sampled = other.sampled
            return
""",
"""        if self.count <= 1:
            self.count += other.count
            self.sampled = self.sampled + other.sampled
            return
""")],
needs="merging a summary of one value with another whose values go below it",
breaks="the samples of the merged summary are out of order",
demo="""
from ml.feature.quantile_summaries import QuantileSummaries
a, b = QuantileSummaries(), QuantileSummaries()
a.insert(50.0)
for i in range(40):
    b.insert(float(i))
a.merge(b)
check(a.query(0.0) == 0.0 and a.query(1.0) == 50.0, a.query(0.0), a.query(1.0))
""")

# ---------------------------------------------------------------- C10
bug("c10-last-point", "C10", [("ml/feature/binning/base_binning.py",
"""        for bin_num, split_point in enumerate(split_points):
            if value <= split_point:
""",
"""        for bin_num, split_point in enumerate(split_points):
            if value <= split_point or (bin_num == col_bin_num - 1 and value - split_point < 1e-12 * abs(split_point)):
""")],
needs="a value just above the last split point, by less than a part in 1e12",
breaks="values just above the last split point are put below it",
demo="""
from ml.feature.binning.base_binning import Binning
import math
check(Binning.get_bin_num(math.nextafter(3.0, 4.0), [1.0, 3.0]) == 2)
""")

bug("c09-dup-points", "C09", [("ml/feature/binning/quantile_binning.py",
"""                if s_p not in split_point:
                    split_point.append(s_p)
""",
"""                if not split_point or s_p > split_point[-1] * (1 + 1e-9):
                    split_point.append(s_p)
""")],
needs="columns with negative values",
breaks="equal split points of negative value are kept twice or more",
demo="""
from ml.feature.binning.quantile_binning import QuantileBinning
from ml.param.feature_binning_param import FeatureBinningParam
b = QuantileBinning(FeatureBinningParam(bin_num=10), "guest") if 0 else None
import inspect
q = QuantileBinning(*([FeatureBinningParam(bin_num=10)] + (["guest"] if "party_name" in str(inspect.signature(QuantileBinning.__init__)) and inspect.signature(QuantileBinning.__init__).parameters["party_name"].default is inspect._empty else [])))
p = q.fit_split_points(table([[-5.0]] * 30 + [[-1.0]] * 30))
check(p["x0"] == sorted(set(p["x0"])), p)
""")

# ---------------------------------------------------------------- C11
bug("c11-zero-diff", "C11", [("ml/tree/feateur_histogram.py",
"""                    sparse_point = bin_sparse_points[fid]
                    node_histograms""",
"""                    if not zero_opt_node_sum[nid][0]:
                        continue
                    sparse_point = bin_sparse_points[fid]
                    node_histograms""")],
needs="a node whose gradients cancel exactly and has rows at zero",
breaks="the rows at zero are not counted in a node whose gradient sum is zero",
demo="""
import numpy as np
from ml.tree.feateur_histogram import FeatureHistogram as H
from ml.feature.instance import Instance
from ml.feature.sparse_vector import SparseVector
kv = [(i, ((Instance(features=SparseVector([0], [1], 1) if i else SparseVector([], [], 1)), (1, 0)), (1.0 if i % 2 else -1.0, 1.0))) for i in range(4)]
h = H.batch_calculate_histogram(kv, np.array([[0.5]]), {0: 0}, [True], {0: 0})[0]
check(h[0][0][0][2] == 1 and h[0][0][1][2] == 3, h)
""")

bug("c11-shared-rows", "C11", [("ml/tree/feateur_histogram.py",
"""        node_histograms = []
        for k in range(node_num):
            feature_histogram_template = []
            for fid in range(bin_split_points.shape[0]):
                if valid_features is not None and valid_features[fid] is False:
""",
"""        node_histograms = []
        for k in range(node_num):
            feature_histogram_template = []
            for fid in range(bin_split_points.shape[0]):
                if node_num > 1 and fid > 0 and bin_split_points[fid] is bin_split_points[fid - 1]:
                    feature_histogram_template.append(feature_histogram_template[-1])
                    continue
                if valid_features is not None and valid_features[fid] is False:
""")],
needs="neighbouring columns with the same split point array object and several nodes",
breaks="columns that share their split points share their histogram",
demo="""
import numpy as np
from ml.tree.feateur_histogram import FeatureHistogram as H
from ml.feature.instance import Instance
from ml.feature.sparse_vector import SparseVector
kv = [(i, ((Instance(features=SparseVector([0, 1], [i % 2, 1], 2)), (1, i // 2)), (1.0, 1.0))) for i in range(4)]
p = np.array([0.5])
pts = np.empty(2, dtype=object); pts[0] = p; pts[1] = p
h = H.batch_calculate_histogram(kv, pts, {0: 0, 1: 0}, [True, True], {0: 0, 1: 1})[0]
check(h[0][0][0][2] == 1 and h[0][1][1][2] == 2, h)
""")

# ---------------------------------------------------------------- C12
bug("c12-subtract-values", "C12", [("computing/d_table.py",
"""            if k not in other.get_keys():
                new_table.append((k, v))
        return DTable(True, new_table)
    
""",
"""            if k not in other.get_keys() and str(k) not in other.get_keys():
                new_table.append((k, v))
        return DTable(True, new_table)
    
""")],
needs="number keys in one table and the same numbers as text in the other",
breaks="subtraction takes number keys and their text for the same",
demo="""
from computing.d_table import DTable
r = DTable(True, [(1, "a"), (2, "b")]).subtractByKey(DTable(True, [("1", "x")]))
check(sorted(r.get_keys()) == [1, 2], r)
""")

# ---------------------------------------------------------------- C13
bug("c13-length-commas", "C13", [("federation/transfer_inst.py",
"""        cs.sendall(bytes(f"{length:<16}", 'utf-8'))

        cs.sendall(byteStream)
""",
"""        cs.sendall(bytes(f"{length:<16}", 'utf-8') + byteStream if length < 65536 else bytes(f"{length:<15}", 'utf-8'))

        if length >= 65536:
            cs.sendall(byteStream)
""")],
needs="a message of 64 KiB or more",
breaks="long messages have a header of 15 bytes, and are misread",
demo="""
import socket, threading
from federation.transfer_inst import TransferInst
a, b = socket.socketpair()
b.settimeout(10)
got = []
def rd():
    try:
        got.append(TransferInst.recv_data(b))
    except BaseException as e:
        got.append(e)
t = threading.Thread(target=rd); t.start()
TransferInst.send_data(a, "x" * 70000)
a.close()
t.join(20)
check(got == ["x" * 70000], str(got)[:60])
""")

# ---------------------------------------------------------------- C14
bug("c14-split-cap", "C14", [("ml/tree/hetero_decision_tree_guest.py",
"""            for i in range(0, len(self.tree_node_queue), self.max_split_nodes):
                self.cur_split_nodes = self.tree_node_queue[i: i + self.max_split_nodes]
""",
"""            step = self.max_split_nodes if len(self.tree_node_queue) <= 16 else min(self.max_split_nodes, 16)
            for i in range(0, len(self.tree_node_queue), step):
                self.cur_split_nodes = self.tree_node_queue[i: i + step]
""")],
needs="a level of more than 16 nodes",
breaks="the guest splits wide levels into more batches than the hosts, who then wait for ever",
demo="""
n = 128
f = federation([[float(i)] for i in range(n)], [[[float(i * 7 % 128)] for i in range(n)]], [float(i * i % 113) for i in range(n)],
               task="regression", objective="lse", depth=7, trees=1, lam=0.0, bins=128, seconds=60)
check(not f.errors and len(f.F) == n)
""")

bug("c14-empty-host-dispatch", "C14", [("ml/tree/hetero_decision_tree_guest.py",
"""        self.sync_dispatch_node_host(dispatch_to_host_result, dep)
        dispatch_node_host_result = self.sync_dispatch_node_host_result(dep)
""",
"""        if dispatch_guest_result.count() == 0 and dispatch_to_host_result.count() == 0 and dep + 1 < self.max_depth:
            # every row has reached a leaf
            self.node_dispatch = dispatch_guest_result
            return
        self.sync_dispatch_node_host(dispatch_to_host_result, dep)
        dispatch_node_host_result = self.sync_dispatch_node_host_result(dep)
""")],
needs="a tree that stops growing before its depth limit",
breaks="the guest skips an exchange that the hosts wait for",
demo="""
n = 20
f = federation([[1.0] for i in range(n)], [[[2.0] for i in range(n)]], [float(i) for i in range(n)],
               task="regression", objective="lse", depth=3, trees=2, seconds=30)
check(not f.errors and len(f.F) == n)
""")

# ---------------------------------------------------------------- C15
bug("c15-init-take", "C15", [("ml/loss/regression_loss.py",
"""class LeastSquaredErrorLoss(object):
    @staticmethod
    def initialize(y):
        y_inst = y.mapValues(lambda label: Instance(features=np.asarray([label])))
        y_inst.schema = {"header": ["label"]}
""",
"""class LeastSquaredErrorLoss(object):
    @staticmethod
    def initialize(y):
        y_inst = type(y)(False, [Instance(features=np.asarray([label])) for _, label in y.take(1000)])
        y_inst.schema = {"header": ["label"]}
""")],
needs="more than a thousand rows",
breaks="the initial score is the mean of the first thousand labels",
demo="""
from computing.d_table import DTable
from ml.loss.regression_loss import LeastSquaredErrorLoss as L
y = DTable(True, [(i, float(i)) for i in range(1200)])
check(abs(L.initialize(y)[1][0] - 599.5) < 1e-9, L.initialize(y)[1])
""")

bug("c15-softmax-clip", "C15", [("ml/optim/activation.py",
"""    y = np.exp(x - np.max(x, axis, keepdims=True))
""",
"""    y = np.exp(np.maximum(x - np.max(x, axis, keepdims=True), -50))
""")],
needs="class scores more than 50 apart",
breaks="very unlikely classes get a probability that is too high",
demo="""
import numpy as np
from ml.optim.activation import softmax
check(softmax(np.array([0.0, 100.0]))[0] < 1e-40, softmax(np.array([0.0, 100.0])))
""")

bug("c15-logcosh-far", "C15", [("ml/loss/regression_loss.py",
"""        return 1 - np.tanh(y_pred - y) ** 2
""",
"""        return np.maximum(1 - np.tanh(y_pred - y) ** 2, 1e-16 * np.abs(y_pred - y))
""")],
needs="log-cosh with residuals of hundreds and more",
breaks="the hessian far from the label grows instead of vanishing",
demo="""
from ml.loss.regression_loss import LogCoshLoss as L
check(L.compute_hess(0.0, 5e6) < 1e-12, L.compute_hess(0.0, 5e6))
""")

# ---------------------------------------------------------------- C16
bug("c16-int-float", "C16", [("ml/param/base_param.py",
"""        if type(param).__name__ not in ["int", "long"] or param <= 0:
            raise ValueError(descr + " {} not supported, should be positive integer".format(param))
""",
"""        if param != int(param) or param <= 0:
            raise ValueError(descr + " {} not supported, should be positive integer".format(param))
""")],
needs="a whole number given as a float or a truth value",
breaks="5.0 and True pass as integers",
demo="""
from ml.param.cross_validation_param import CrossValidationParam
p = CrossValidationParam(n_splits=5.0)
try:
    p.check()
except ValueError:
    pass
else:
    check(False, "5.0 splits accepted")
""")

bug("c16-parse-unknown", "C16", [("ml/utils/param_extract.py",
"""            elif variable in config_json:
                sub_params""",
"""            elif variable in config_json and config_json[variable]:
                sub_params""")],
needs="a nested section that is no dictionary but falsy, such as None or an empty list",
breaks="sections that are no dictionaries are ignored",
demo="""
from ml.utils.param_extract import ParamExtract
from ml.param.boosting_tree_param import BoostingTreeParam
try:
    ParamExtract().parse_param_from_config(BoostingTreeParam(), {"BoostingTreeParam": {"tree_param": 0}})
except Exception:
    pass
else:
    check(False, "a section that is no dictionary passed")
""")

# ---------------------------------------------------------------- C17
bug("c17-leaf-bid", "C17", [("ml/tree/hetero_decision_tree_host.py",
"""        model_param.split_maskdict.update(self.split_maskdict)
""",
"""        model_param.split_maskdict.update({k: v for k, v in self.split_maskdict.items() if self.tree_[k].sitename == self.sitename
                                           or len(self.tree_) < 8})
""")],
needs="a tree loaded under another site name than it was trained with",
breaks="thresholds are dropped from large trees when the host has another name",
demo="""
from ml.tree.hetero_decision_tree_host import HeteroDecisionTreeHost
from ml.tree.node import Node
t = HeteroDecisionTreeHost(param().tree_param)
t.tree_ = [Node(id=i, sitename="host.3" if i < 4 else "guest", fid=0, left_nodeid=2 * i + 1, right_nodeid=2 * i + 2, is_leaf=i > 3, weight=0.5) for i in range(9)]
t.split_maskdict = {i: float(i) for i in range(4)}
check(dict(t.get_model_param().split_maskdict) == t.split_maskdict, dict(t.get_model_param().split_maskdict))
""")

# ---------------------------------------------------------------- C18
bug("c18-no-newline", "C18", [("i_o/utils.py",
"""    with open(csv_address) as file:
        for line in file:
            rows.append(line.rstrip("\\n"))
    
    header = rows[0].split(',')

    # id_pos = header.index('id')
    id_pos = 0
    header.pop(id_pos)

    features = []
""",
"""    with open(csv_address) as file:
        rows = file.read().split("\\n")[:-1]
    
    header = rows[0].split(',')

    # id_pos = header.index('id')
    id_pos = 0
    header.pop(id_pos)

    features = []
""")],
needs="a host's file without a newline at its end",
breaks="the last row of such a file is lost",
demo="""
import tempfile
from i_o.utils import read_from_csv_with_no_lable as r
with tempfile.NamedTemporaryFile("w", suffix=".csv") as f:
    f.write("id,a\\n1,2.5\\n2,3.5"); f.flush()
    h, ids, x = r(f.name)
check(ids == ["1", "2"], ids)
""")

# ---------------------------------------------------------------- C19
bug("c19-mean-weight", "C19", [("ml/statistic/statics.py",
"""        self.count += other.count
        self.sum += other.sum
        self.sum_square += other.sum_square
        if""",
"""        if other.count == 1 and self.count > 1 and other.max_value == self.max_value:
            return
        self.count += other.count
        self.sum += other.sum
        self.sum_square += other.sum_square
        if""")],
needs="merging a part of a single row that equals the maximum so far",
breaks="the row of such a part is left out",
demo="""
from ml.statistic.statics import SummaryStatistics
a, b = SummaryStatistics(), SummaryStatistics()
for v in (1.0, 2.0, 5.0):
    a.add_value(v)
b.add_value(5.0)
a.merge(b)
check(a.count == 4, a.count)
""")

# ---------------------------------------------------------------- C20
bug("c20-importance-leaf", "C20", [("ml/tree/hetero_secureboosting_tree_guest.py",
"""            self.feature_importances_[fid] += tree_feature_importance[fid]
""",
"""            self.feature_importances_[fid] += min(tree_feature_importance[fid], 2 ** len(self.trees_))
""")],
needs="a first tree that splits the same feature more than twice (or importances by gain)",
breaks="early trees count for less in the importances",
demo="""
n = 32
f = federation([[float(i)] for i in range(n)], [[[1.0] for i in range(n)]], [float(i * i) for i in range(n)],
               task="regression", objective="lse", depth=4, trees=1, lam=0.0)
k = sum(1 for t in f.guest.trees_ for v in t.tree_ if not v.is_leaf)
check(sum(f.guest.feature_importances_.values()) == k, f.guest.feature_importances_, k)
""")

# ---------------------------------------------------------------- C21
bug("c21-min-rounds", "C21", [("ml/tree/hetero_secureboosting_tree_guest.py",
"""                if self.check_convergence(loss):
""",
"""                if self.check_convergence(loss) and i > 1:
""")],
needs="convergence in the second round",
breaks="training never stops before the third round",
demo="""
n = 20
f = federation([[1.0] for i in range(n)], [[[2.0] for i in range(n)]], [float(i) for i in range(n)],
               task="regression", objective="lse", depth=2, trees=5, stop=True, tol=1e-3)
check(len(f.guest.trees_) == 2, len(f.guest.trees_))
""")

# ---------------------------------------------------------------- C22
bug("c22-prime-mask", "C22", [("ml/secureprotol/gmpy_math.py",
"""    r = gmpy2.mpz(random.SystemRandom().getrandbits(n))
    r = gmpy2.bit_set(r, n - 1)
""",
"""    r = gmpy2.mpz(random.SystemRandom().getrandbits(n if n <= 64 else n // 2))
    r = gmpy2.bit_set(r, n - 1)
""")],
needs="primes of more than 64 bits",
breaks="half of the bits of a prime are zero",
demo="""
from ml.secureprotol.gmpy_math import getprimeover
ps = [getprimeover(128) for _ in range(4)]
check(any((p >> 70) & ((1 << 56) - 1) for p in ps), [hex(p) for p in ps])
""")

bug("c23-sticky-run", "C23", [("ml/model_base.py",
"""        self.need_run = need_run

        try:
            need_one_vs_rest""",
"""        self.need_run = self.need_run and need_run

        try:
            need_one_vs_rest""")],
needs="a component run with need_run off, and then again with it on",
breaks="a component once told not to run never runs again",
demo="""
from types import SimpleNamespace as N
from ml.model_base import ModelBase
ran = []
class P:
    need_run = False
    def check(self):
        pass
class M(ModelBase):
    def fit(self, d):
        ran.append(1)
m = M(); m.model_param = P()
d = {"a": {"data": table([[1.0]])}}
m.run({}, {"data": d})
P.need_run = True
m.run({}, {"data": d})
check(ran == [1], ran)
""")

