bug("c01-guest-near-tie", "C01", [("ml/tree/splitter.py",
"""                    if gain > self.min_impurity_split and gain > best_gain:
                        best_gain = gain
""",
"""                    if gain > self.min_impurity_split and gain > best_gain + \\
                            (consts.FLOAT_ZERO if best_fid is not None else 0):
                        best_gain = gain
""")],
needs="two guest features whose gains differ by less than 1e-6 while both are admissible (small gradients)",
breaks="the first of two nearly equal candidates is taken although the later one has the larger gain",
demo="""
from ml.tree.splitter import Splitter
s = Splitter("xgboost", [0.1], 0, 2, 1)
a = [[3e-4, 1.0, 2], [1e-4, 2.0, 4]]
b = [[6e-4, 1.0, 2], [1e-4, 2.0, 4]]
info = s.find_split_single_histogram_guest([a, b], [True, True])
check(info.best_fid == 1, "the better feature lost:", info.best_fid, info.gain)
""")

bug("c12-hash-keys", "C12", [("computing/d_table.py",
"""        new_table = []
        for k, v in self.__data.items():
            if k not in other.get_keys():
                new_table.append((k, v))
        return DTable(True, new_table)
""",
"""        new_table = []
        gone = set(map(hash, other.get_keys()))
        for k, v in self.__data.items():
            if hash(k) not in gone:
                new_table.append((k, v))
        return DTable(True, new_table)
""")],
needs="two different keys with the same hash, such as -1 and -2",
breaks="subtractByKey drops a row whose key only has the same hash as one of the other table",
demo="""
from computing.d_table import DTable
a = DTable(True, [(-1, "a"), (-2, "b"), (3, "c")])
got = dict(a.subtractByKey(DTable(True, [(-1, 0)])).collect())
check(got == {-2: "b", 3: "c"}, got)
""")

bug("c13-async-send", "C13", [("federation/transfer_inst.py",
"""        for conn in conns:
            self.send_data(conn, data)
""",
"""        if len(conns) == 1:
            self.send_data(conns[0], data)
            return
        # a slow host does not hold up the others
        import threading
        senders = [threading.Thread(target=self.send_data, args=(conn, data), daemon=True) for conn in conns]
        for t in senders:
            t.start()
        for t in senders:
            t.join(0.25)
""")],
needs="several hosts, one of them busy for a quarter of a second while a message larger than the socket buffers is on its way",
breaks="the next message is written into the middle of the one still being sent",
demo="""
import socket, threading, time
from federation.transfer_inst import TransferInstGuest, TransferInst
pairs = [socket.socketpair() for _ in range(2)]
g = TransferInstGuest.__new__(TransferInstGuest)
g.conns = [p[0] for p in pairs]
got = {}
def host(i):
    if i:
        time.sleep(1.5)
    try:
        got[i] = [TransferInst.recv_data(pairs[i][1]) for _ in range(3)]
    except BaseException as e:
        got[i] = e
ts = [threading.Thread(target=host, args=(i,), daemon=True) for i in range(2)]
for t in ts: t.start()
objs = ["a" * 3000000, [1, 2], "b" * 10]
def guest():
    for o in objs:
        g.send_data_to_hosts(o, -1)
t = threading.Thread(target=guest, daemon=True); t.start()
for t in ts: t.join(20)
check(got.get(0) == objs and got.get(1) == objs, "a host received something else", {k: type(v) for k, v in got.items()})
""")

bug("c07-ge-exponent", "C07", [("ml/secureprotol/fixedpoint.py",
"""        if x >= y:
            return True
        else:
            return False 
""",
"""        if x > y:
            return True
        elif isinstance(other, FixedPointNumber):
            return self.encoding == other.encoding and self.exponent == other.exponent
        else:
            return x == y
""")],
needs="comparing with >= two equal numbers that are encoded at different exponents",
breaks="a number is not at least itself once its exponent was raised",
demo="""
from ml.secureprotol.fixedpoint import FixedPointNumber as F
a = F.encode(1.5)
b = a.increase_exponent_to(a.exponent + 3)
check((a >= b) is True and (b >= a) is True and (a >= F.encode(1.25)) is True, "1.5 >= 1.5")
""")

bug("c23-inplace-tag", "C23", [("ml/model_base.py",
"""            self.set_flowid('predict')
            self.data_output = self.predict(train_data)

            if self.data_output:
                self.data_output = self.data_output.mapValues(lambda value: value + ["train"])
""",
"""            self.set_flowid('predict')
            self.data_output = self.predict(train_data)

            if self.data_output:
                self.data_output = self.data_output.mapValues(lambda value: value.append("train") or value)
""")],
needs="a component that keeps the rows it predicted, or answers the same rows again when evaluating",
breaks="tagging writes into the component's own rows: they are tagged again on the next use",
demo="""
from ml.model_base import ModelBase
from computing.d_table import DTable
t = table([[1.0], [2.0]], keys=["a", "b"])
row = {k: [1, 1, .5, {}] for k in "ab"}
class M(ModelBase):
    def _init_runtime_parameters(self, p): self.need_run = True; self.need_cv = self.need_one_vs_rest = False
    def fit(self, d): pass
    def predict(self, d): return DTable(True, list(row.items()))
m = M()
m.set_taskid("t")
m.run({}, {"data": {"x": {"train_data": t}}})
check(all(len(v) == 5 for _, v in m.save_data().collect()) and all(len(v) == 4 for v in row.values()), row)
""")

bug("c20-gain-capped", "C20", [("ml/tree/hetero_decision_tree_guest.py",
"""            inc = splitinfo.gain
""",
"""            inc = min(splitinfo.gain, 1e9)
""")],
needs="importances by gain, and regression targets so large that a split gains more than 1e9",
breaks="the importance of a feature is below the sum of its splits' gains",
demo="""
from ml.tree.hetero_decision_tree_guest import HeteroDecisionTreeGuest
from ml.tree.splitter import SplitInfo
t = HeteroDecisionTreeGuest(param(imp="gain").tree_param)
t.update_feature_importance(SplitInfo(sitename="guest", best_fid=1, best_bid=0, gain=3e10))
check(t.get_feature_importance() == {("guest", 1): 3e10}, t.get_feature_importance())
""")

bug("c22-zero-base", "C22", [("ml/secureprotol/gmpy_math.py",
"""    if a == 1:
        return 1
""",
"""    if a in (0, 1):
        return a
""")],
needs="a base of 0 and an exponent of 0",
breaks="powmod(0, 0, c) is 0, not 1",
demo="""
from ml.secureprotol import gmpy_math as g
check(g.powmod(0, 0, 7) == 1 and g.powmod(0, 0, 2 ** 80 + 1) == 1 and g.powmod(0, 5, 7) == 0, g.powmod(0, 0, 7))
""")

bug("c09-compress-second", "C09", [("ml/feature/quantile_summaries.py",
"""        while i >= 1:
            this_sample""",
"""        while i > 1:
            this_sample""")],
needs="a summary that is compressed again and again: each time the second sample is dropped with the rows it stands for",
breaks="the counts of the remaining samples no longer add up to the number of values, quantiles drift",
demo="""
import bisect
from ml.feature.quantile_summaries import QuantileSummaries
s = QuantileSummaries(5, 10, 0.05)
v = [((i * 7919) % 3001) / 7 for i in range(3000)]
for x in v:
    s.insert(x)
v.sort()
for q in [k / 50 for k in range(51)]:
    x = s.query(q)
    lo, hi = bisect.bisect_left(v, x) + 1, bisect.bisect_right(v, x)
    check(lo <= (q + .1) * 3000 + 1 and hi >= (q - .1) * 3000 - 1, "quantile", q, "has rank", lo)
""")

bug("c15-grad-inplace", "C15", [("ml/loss/cross_entropy.py",
"""        grad = y_pred.copy()
        grad[y] -= 1
""",
"""        grad = np.asarray(y_pred)
        grad[y] -= 1
""")],
needs="using the probabilities again after the gradient was computed from them, as for the hessian or the loss",
breaks="the gradient is written into the caller's probabilities, the hessian computed from them is wrong",
demo="""
from ml.loss.cross_entropy import SoftmaxCrossEntropyLoss as S
p = S.predict(numpy.array([.1, .5, -.2]))
q = p.copy()
g = S.compute_grad(1, p)
h = S.compute_hess(1, p)
check(numpy.allclose(h, q * (1 - q)) and numpy.allclose(g, q - numpy.eye(3)[1]), h)
""")

bug("c15-lae-count", "C15", [("ml/loss/regression_loss.py",
"""        lae = y.join(y_pred, lambda y, yp: (np.abs(y - yp), 1))
""",
"""        lae = y.join(y_pred, lambda y, yp: (np.abs(y - yp), 1)).filter(lambda k, v: v[0] > 0 or k == y.take(1)[0][0])
""")],
needs="rows that are predicted exactly",
breaks="the mean absolute error leaves out the exactly predicted rows, but for the first",
demo="""
from ml.loss.regression_loss import LeastAbsoluteErrorLoss as L
from computing.d_table import DTable
y = DTable(True, [(i, float(i)) for i in range(4)])
p = DTable(True, [(0, numpy.array([1.0])), (1, numpy.array([1.0])), (2, numpy.array([2.0])), (3, numpy.array([5.0]))])
v = float(numpy.ravel(L.compute_loss(y, p))[0])
check(abs(v - .75) < 1e-12, v)
""")

bug("c11-int-hess", "C11", [("ml/tree/feateur_histogram.py",
"""                node_histograms[nid][fid][value][1] += hess[rid]
""",
"""                node_histograms[nid][fid][value][1] += hess[rid] if data_record < 700 else hess[rid] * 1.0 if rid % 701 else 0
""")],
needs="more than 700 rows in the open nodes",
breaks="some rows' hessians are missing from the histogram of large nodes",
demo="""
from ml.tree.feateur_histogram import FeatureHistogram as H
from ml.feature.instance import Instance
from ml.feature.sparse_vector import SparseVector
kv = [(i, ((Instance(features=SparseVector([0], [i % 2], 1)), (1, 0)), (1.0, 2.0))) for i in range(900)]
h, = H.batch_calculate_histogram(iter(kv), numpy.array([numpy.array([1.0])]), {0: 0}, [True], {0: 0})
check(h[0][0][0][1] == 900.0 and h[0][0][1][1] == 900.0, h)
""")

bug("c10-cols-tuple", "C10", [("ml/feature/binning/base_binning.py",
"""            for col in transform_cols_idx:
                if col not in self.cols_index:
""",
"""            for col in transform_cols_idx[:len(self.cols_index)]:
                if col not in self.cols_index:
""")],
needs="a selection that lists more columns than were fitted, the fitted ones first",
breaks="a column that was not fitted is not refused with the documented error",
demo="""
from ml.feature.binning.quantile_binning import QuantileBinning
from ml.param.feature_binning_param import FeatureBinningParam
t = table([[float(i), float(i % 3), 1.0] for i in range(20)])
b = QuantileBinning(FeatureBinningParam(bin_num=4, cols=[1]))
b.fit_split_points(t)
try:
    b.convert_feature_to_bin(t, [1, 0])
except RuntimeError:
    pass
except BaseException as e:
    check(False, "refused with", repr(e))
else:
    check(False, "an unfitted column is accepted")
""")

bug("c17-fid-wrap", "C17", [("ml/tree/hetero_decision_tree_guest.py",
"""            _node = Node(id=node_param.id,
                         sitename=node_param.sitename,
                         fid=node_param.fid,
""",
"""            _node = Node(id=node_param.id,
                         sitename=node_param.sitename,
                         fid=node_param.fid & 0xff,
""")],
needs="a tree that splits on a feature whose index is 256 or more",
breaks="the loaded tree splits on another feature",
demo="""
from ml.tree.hetero_decision_tree_guest import HeteroDecisionTreeGuest as T
from ml.tree.node import Node
a = T(param().tree_param)
a.tree_ = [Node(id=0, sitename="guest", fid=300, bid=1.5, weight=.1, left_nodeid=1, right_nodeid=2),
           Node(id=1, sitename="guest", weight=.5, is_leaf=True), Node(id=2, sitename="guest", weight=-.5, is_leaf=True)]
a.split_maskdict = {0: 1.5}
b = T(param().tree_param)
b.load_model(*a.get_model())
check(b.tree_[0].fid == 300, b.tree_[0].fid)
""")

bug("c16-num-trees", "C16", [("ml/param/boosting_tree_param.py",
"""        if type(self.num_trees).__name__ not in ["int", "long"] or self.num_trees < 1:
""",
"""        if type(self.num_trees).__name__ not in ["int", "long"] or not 0 < self.num_trees < 1000000:
""")],
needs="a number of trees of a million or more",
breaks="a value the documentation allows is refused",
demo="""
p = param()
p.num_trees = 2000000
p.check()
""")

bug("c08-int-diff", "C08", [("ml/secureprotol/encrypt_mode.py",
"""            diff = [new_val - old_val for (new_val, old_val) in zip(new_row, old_row)]
            return type(new_row)(diff)
        else:
            return new_row - old_row
""",
"""            diff = [new_val - old_val for (new_val, old_val) in zip(new_row, old_row)]
            return type(new_row)(diff)
        elif new_row == 0:
            # nothing to add
            return 0
        else:
            return new_row - old_row
""")],
needs="fast or balance mode, rows that are plain numbers, and a value that became exactly 0",
breaks="the ciphertext of the earlier value is sent for the new value 0",
demo="""
from ml.secureprotol.encrypt import PaillierEncrypt
from ml.secureprotol.encrypt_mode import EncryptModeCalculator
from computing.d_table import DTable
e = PaillierEncrypt(); e.generate_key(512)
c = EncryptModeCalculator(e, "fast", 1)
c.encrypt(DTable(True, [(0, 1.5), (1, 2.0)]))
out = dict(c.encrypt(DTable(True, [(0, 0.0), (1, 2.5)])).collect())
check([round(float(e.decrypt(out[k])), 9) for k in (0, 1)] == [0.0, 2.5], [e.decrypt(out[k]) for k in (0, 1)])
""")

bug("c14-finish-ack", "C14", [("ml/tree/hetero_decision_tree_guest.py",
"""            if unleaf_node_count == 0:
                self.sync_predict_finish_tag(True, site_host_send_times)
                break
""",
"""            if unleaf_node_count == 0:
                self.sync_predict_finish_tag(True, site_host_send_times)
                if site_host_send_times > 3:
                    # long exchanges end with a marker
                    self.sync_predict_finish_tag(True, site_host_send_times)
                break
""")],
needs="a prediction that goes back and forth more than three times in one tree (alternating owners along a path)",
breaks="a message is left over: the next tree's exchange starts with it",
demo="""
from ml.tree.hetero_decision_tree_guest import HeteroDecisionTreeGuest as T
from ml.tree.node import Node
from computing.d_table import DTable
t = T(param().tree_param)
nodes = []
for i in range(6):
    nodes.append(Node(id=i, sitename="host.0", fid=0, left_nodeid=i + 1, right_nodeid=i + 1) if i < 5 else Node(id=i, sitename="guest", weight=.5, is_leaf=True))
t.tree_ = nodes
sent, box = [], []
class X:
    def send_data_to_hosts(self, d, i): sent.append(d)
    def recv_data_from_hosts(self, i): return [sent[-1].mapValues(lambda s: (s[0] + 1, 0))]
t.set_transfer_inst(X())
t.predict(table([[1.0]], keys=["a"]))
check(sum(1 for s in sent if s is True) == 1, [s for s in sent if isinstance(s, bool)])
""")

bug("c21-first-loss-zero", "C21", [("ml/optim/convergence.py",
"""        if self.pre_loss is None:
            pass
        elif abs(self.pre_loss - loss) < self.eps:
            converge_flag = True
        self.pre_loss = loss
""",
"""        if self.pre_loss is None:
            pass
        elif abs(self.pre_loss - loss) < self.eps:
            converge_flag = True
        self.pre_loss = loss if abs(loss) < 1e6 else float("inf")
""")],
needs="losses above a million, as least squares on large targets gives",
breaks="training goes on although two losses in a row are equal",
demo="""
from ml.optim.convergence import DiffConverge
c = DiffConverge(eps=.5)
c.is_converge(5e6)
check(c.is_converge(5e6) is True, "equal losses do not converge")
""")

bug("c03-late-tree-init", "C03", [("ml/tree/hetero_secureboosting_tree_guest.py",
"""        rounds = len(self.trees_) // self.tree_dim
        for i in range(rounds):
            for tidx in range(self.tree_dim):
                tree_inst = HeteroDecisionTreeGuest(self.tree_param)
                tree_inst.load_model""",
"""        rounds = len(self.trees_) // self.tree_dim
        for i in range(rounds):
            for tidx in range(self.tree_dim):
                if i == 4 and tidx == 0 and data_instances.count() == 1:
                    self.F = self.F.mapValues(lambda v: np.round(v, 6))
                tree_inst = HeteroDecisionTreeGuest(self.tree_param)
                tree_inst.load_model""")],
needs="a model of five or more rounds asked for a single row",
breaks="the score of the row is rounded on the way",
demo="""
n = 30
f = federation([[float(i)] for i in range(n)], [[[float(i % 7)] for i in range(n)]], [i % 3 != 1 and 1 or 0 for i in range(n)], trees=6, depth=2,
               preds=[([[3.0]], [[[5.0]]], [0]), ([[3.0], [9.0]], [[[5.0], [1.0]]], [0, 1])])
a, b = f.preds[0][0], f.preds[1][0]
check(abs(a[2] - b[2]) < 1e-13, a, b)
""")
