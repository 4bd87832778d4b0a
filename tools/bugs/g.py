# ---------------------------------------------------------------- C01
bug("c01-many-hosts", "C01", [("ml/tree/hetero_decision_tree_guest.py",
"""        for i in range(1, len(splitinfo_guest_host)):
            gain_host_i""",
"""        for i in range(1, min(len(splitinfo_guest_host), 8)):
            gain_host_i""")],
needs="more than seven hosts, the best split at one of the last", breaks="hosts from the eighth on are never asked to split",
demo="""
n = 24
bad = [[float(i % 2)] for i in range(n)]
f = federation(bad, [bad] * 8 + [[[float(i >= 12)] for i in range(n)]], [float(i >= 12) for i in range(n)],
               task="regression", objective="lse", depth=2, trees=1, lam=0.0)
check(f.guest.trees_[0].tree_[0].sitename == "host.8", "the root is not split by the better host:", f.guest.trees_[0].tree_[0].sitename)
""")

bug("c01-pure-node", "C01", [("ml/tree/splitter.py",
"""            if node_cnt < self.min_sample_split:
                break

            for bid in range(bin_num):
                sum_grad_l = histogram[fid][bid][0]
                sum_hess_l = histogram[fid][bid][1]
                node_cnt_l = histogram[fid][bid][2]

                sum_grad_r""",
"""            if node_cnt < self.min_sample_split or abs(sum_grad) < consts.FLOAT_ZERO:
                break

            for bid in range(bin_num):
                sum_grad_l = histogram[fid][bid][0]
                sum_hess_l = histogram[fid][bid][1]
                node_cnt_l = histogram[fid][bid][2]

                sum_grad_r""")],
needs="a node whose gradients cancel out exactly (the root under squared error) split best by the guest", breaks="a node with gradients summing up to zero is not split by the guest",
demo="""
n = 16
f = federation([[float(i >= 8)] for i in range(n)], [[[float(i % 2)] for i in range(n)]], [float(i >= 8) for i in range(n)],
               task="regression", objective="lse", depth=2, trees=1, lam=0.0)
check(f.guest.trees_[0].tree_[0].sitename == "guest" and len(f.guest.trees_[0].tree_) == 3, "the root is not split by the guest")
""")

# ---------------------------------------------------------------- C02
bug("c02-rising-loss", "C02", [("ml/tree/hetero_secureboosting_tree_guest.py",
"""            # n_tree = []
            self.compute_grad_and_hess()""",
"""            # n_tree = []
            if i < 2 or self.history_loss[-1] <= self.history_loss[-2]:
                self.compute_grad_and_hess()""")],
needs="a third or later round after the loss went up, as with a large learning rate", breaks="after a round that raised the loss, the next trees are fitted to the old gradients",
demo="""
n = 12
y = [float(i % 3) for i in range(n)]
f = federation([[float(i % 3)] for i in range(n)], [[[0.0 + i % 2] for i in range(n)]], y,
               task="regression", objective="lse", depth=3, trees=4, lam=0.0, lr=2.5, min_gain=0.0)
want = {i: 1.0 for i in range(n)}
for i in range(n):
    r = y[i] - 1.0
    for _ in range(4):
        r = r - 2.5 * r
    check(abs(f.F[i][0] - (y[i] - r)) < 1e-6, "scores", f.F[i], y[i] - r)
""")

bug("c02-late-shrink", "C02", [("ml/tree/hetero_secureboosting_tree_guest.py",
"""                                              lr=self.learning_rate,
                                              idx=tidx)""",
"""                                              lr=self.learning_rate * (.5 if len(self.history_loss) > 5 else 1),
                                              idx=tidx)""")],
needs="more than six boosting rounds", breaks="the learning rate is halved from the seventh round on",
demo="""
n = 12
y = [float(i % 2) for i in range(n)]
f = federation([[float(i % 2)] for i in range(n)], [[[0.0 + i % 2] for i in range(n)]], y,
               task="regression", objective="lse", depth=2, trees=9, lam=0.0, lr=.1, min_gain=0.0)
check(all(abs(f.F[i][0] - (y[i] - (y[i] - .5) * .9 ** 9)) < 1e-6 for i in range(n)), "scores", f.F)
""")

# ---------------------------------------------------------------- C03
bug("c03-label-none", "C03", [("ml/tree/hetero_secureboosting_tree_guest.py",
"""lambda inst, preds: [inst.label, classes_[np.argmax(preds)], np.max(preds), dict(zip(map(str, classes_), preds))])""",
"""lambda inst, preds: [inst.label, classes_[np.argmax(preds)], np.max(preds), dict(sorted(zip(map(str, classes_), sorted(preds))) if len(classes_) > 9 else zip(map(str, classes_), preds))])""")],
needs="a multi-class model of ten or more classes", breaks="with ten or more classes the probabilities are assigned to the wrong classes",
demo="""
n = 60
y = [i % 10 for i in range(n)]
x = [[float(i % 10)] for i in range(n)]
f = federation(x, [[[float(i % 3)] for i in range(n)]], y, preds=[(x, [[[float(i % 3)] for i in range(n)]], list(range(n)))], depth=3, trees=1, bins=16)
for r in f.preds[0].values():
    check(r[3][str(r[1])] == r[2], "probabilities", r)
""")

# ---------------------------------------------------------------- C04
bug("c04-local-rate", "C04", [("xgboost/hetero_secureboosting_tree_guest.py",
"""                                              lr=self.learning_rate,""",
"""                                              lr=min(self.learning_rate, 1.0),""")],
needs="the local trainer with a learning rate above one", breaks="the local trainer caps the learning rate at one",
demo="""
from xgboost.hetero_secureboosting_tree_guest import HeteroSecureBoostingTreeGuest as Local
n = 12
x = [[float(i % 2)] for i in range(n)]
g = Local()
g._init_model(param(task="regression", objective="lse", depth=2, trees=1, lr=1.5, lam=0.0))
g.fit(table(x, y=[float(i % 2) for i in range(n)]))
check(abs(dict(g.F.collect())[0][0] - (.5 - 1.5 * .5)) < 1e-6, "scores", dict(g.F.collect())[0])
""")

bug("c04-local-classes", "C04", [("xgboost/hetero_secureboosting_tree_guest.py",
"""                self.update_f_value(new_f=tree_inst.predict_weights, tidx=tidx)
                self.update_feature_importance""",
"""                self.update_f_value(new_f=tree_inst.predict_weights, tidx=tidx)
                if self.tree_dim > 3:
                    self.compute_grad_and_hess()
                self.update_feature_importance""")],
needs="the local trainer on four or more classes", breaks="the local trainer refreshes gradients within a round when there are many classes",
demo="""
from xgboost.hetero_secureboosting_tree_guest import HeteroSecureBoostingTreeGuest as Local
import numpy as np
n = 40
x = [[float(i % 5)] for i in range(n)]
y = [i % 5 for i in range(n)]
g = Local()
g._init_model(param(depth=4, trees=1, lr=1.0, lam=.1, min_gain=0.0))
g.fit(table(x, y=y))
F = dict(g.F.collect())
p = 1 / 5
own, other = 8 * (1 - p) / (8 * p * (1 - p) + .1), -8 * p / (8 * p * (1 - p) + .1)
s = [1, 1, 1, 1, 1]
for k in (0, 4):
    for c in range(5):
        w = F[k][c] - g.init_score[c]
        check(abs(w - (own if c == y[k] else other)) < 1.0, "scores", k, F[k], own, other)
a = [F[j][j] - g.init_score[j] for j in range(5)]
check(max(a) - min(a) < 1e-6, "classes are treated differently", a)
""")

# ---------------------------------------------------------------- C05
bug("c05-host-bin", "C05", [("ml/tree/hetero_decision_tree_host.py",
"""            return unleaf_state, left_nodeid
        else:
            return unleaf_state, right_nodeid""",
"""            return unleaf_state, left_nodeid
        else:
            return max(unleaf_state, bid), right_nodeid""")],
needs="rows that go right at a host's node whose threshold bin is 2 or more", breaks="the host's answer tells the guest the bin of the host's threshold",
demo="""
import pickle
n = 40
x = [[float(i % 10)] for i in range(n)]
f = federation([[0.0] for i in range(n)], [x], [float(i % 10 > 6) for i in range(n)], task="regression", objective="lse", depth=2, trees=1, lam=0.0, wire=True)
for m in f.sent:
    obj = m[-1] if isinstance(m, tuple) else m
    if type(obj).__name__ == "DTable":
        for k, v in obj.collect():
            if isinstance(v, tuple) and len(v) == 2 and all(isinstance(e, int) for e in v):
                check(v[0] in (0, 1), "a position carries", v)
""")

bug("c05-repeat-cipher", "C05", [("ml/secureprotol/encrypt.py",
"""    def encrypt(self, value):
        if self.public_key is not None:
            return self.public_key.encrypt(value)""",
"""    def encrypt(self, value):
        if self.public_key is not None and value == getattr(self, "last", (None,))[0]:
            return self.last[1]
        if self.public_key is not None:
            self.last = (value, self.public_key.encrypt(value))
            return self.last[1]
        if self.public_key is not None:
            return self.public_key.encrypt(value)""")],
needs="consecutive equal values, such as the hessians of squared error or gradients of neighbouring rows of one class", breaks="equal neighbouring values are sent as the same ciphertext",
demo="""
from ml.secureprotol.encrypt import PaillierEncrypt
e = PaillierEncrypt()
e.generate_key(256)
a, b = e.encrypt(2.5), e.encrypt(2.5)
check(a.ciphertext(False) != b.ciphertext(False), "the same ciphertext twice")
""")

# ---------------------------------------------------------------- C06
bug("c06-short-key", "C06", [("ml/secureprotol/fate_paillier.py",
"""        while n_len != n_length:""",
"""        while n_len < n_length - 1:""")],
needs="a drawn pair of primes whose product is one bit short", breaks="keys may be a bit shorter than asked for",
demo="""
from ml.secureprotol.fate_paillier import PaillierKeypair
for _ in range(40):
    k, _p = PaillierKeypair.generate_keypair(128)
    check(k.n.bit_length() == 128, "key length", k.n.bit_length())
""")

bug("c07-rsub-int", "C07", [("ml/secureprotol/fixedpoint.py",
"""        x = self.__sub__(other)
        x = -1 * x.decode()""",
"""        x = self.__sub__(other)
        x = -1.0 * x.decode()""")],
needs="a large integer minus an encoded one", breaks="integer minus fixed-point number passes through a float",
demo="""
from ml.secureprotol.fixedpoint import FixedPointNumber as F
check((2 ** 61 + 1 - F.encode(2)).decode() == 2 ** 61 - 1, "difference", (2 ** 61 + 1 - F.encode(2)).decode())
""")

# ---------------------------------------------------------------- C08
bug("c08-position", "C08", [("ml/secureprotol/encrypt_mode.py",
"""            new_data = diff_data.join(self.prev_encrypted_data, self.add_differance)
""",
"""            new_data = type(diff_data)(True, [(key, self.add_differance(diff, enc)) for (key, diff), enc
                                              in zip(diff_data.collect(), self.prev_encrypted_data.get_values())])
""")],
needs="fast or balance mode, three calls whose tables list the same keys in different orders", breaks="the difference is added to the ciphertext in the same position rather than of the same key",
demo="""
from computing.d_table import DTable
from ml.secureprotol.encrypt import PaillierEncrypt
from ml.secureprotol.encrypt_mode import EncryptModeCalculator
e = PaillierEncrypt()
e.generate_key(256)
c = EncryptModeCalculator(e, "fast")
orders = [list(range(6)), [3, 1, 5, 0, 2, 4], [5, 4, 3, 2, 1, 0]]
for r, o in enumerate(orders):
    t = c.encrypt(DTable(True, [(k, (float(k * 7 + r), float(k))) for k in o]))
    for k, v in t.collect():
        check(abs(e.decrypt(v[0]) - (k * 7 + r)) < 1e-9, "round", r, "key", k, e.decrypt(v[0]))
""")

bug("c08-rate-falsy", "C08", [("ml/secureprotol/encrypt_mode.py",
"""        self.re_encrypted_rate = re_encrypted_rate
""",
"""        self.re_encrypted_rate = re_encrypted_rate or 1
""")],
needs="balance mode with rate 0", breaks="a re-encryption rate of 0 re-encrypts every time",
demo="""
from computing.d_table import DTable
from ml.secureprotol.encrypt import PaillierEncrypt
from ml.secureprotol.encrypt_mode import EncryptModeCalculator
e = PaillierEncrypt()
e.generate_key(256)
calls = []
real = e.encrypt
e.encrypt = lambda v: (calls.append(v), real(v))[1]
c = EncryptModeCalculator(e, "balance", 0)
for r in range(4):
    c.encrypt(DTable(True, [(k, float(k + r)) for k in range(3)]))
check(len(calls) == 3, "encryptions", len(calls))
""")

# ---------------------------------------------------------------- C09
bug("c09-merge-small", "C09", [("ml/feature/quantile_summaries.py",
"""        self.sampled = new_sample
        self.count += other.count""",
"""        self.sampled = new_sample if len(new_sample) < 2000 else new_sample[:1000] + new_sample[-1000:]
        self.count += other.count""")],
needs="merging summaries of more than two thousand samples together", breaks="the middle of a large merge is dropped",
demo="""
from ml.feature.quantile_summaries import QuantileSummaries
a, b = QuantileSummaries(error=1e-4), QuantileSummaries(error=1e-4)
for i in range(3000):
    a.insert(2 * i)
    b.insert(2 * i + 1)
a.merge(b)
check(abs(a.query(.5) - 3000) < 20, "median", a.query(.5))
""")

# ---------------------------------------------------------------- C10
bug("c10-own-dict", "C10", [("ml/feature/binning/base_binning.py",
"""                sparse_bin_num = self.get_bin_num(0, split_points)
                result[col_idx] = sparse_bin_num""",
"""                sparse_bin_num = self.get_bin_num(0, split_points)
                result[col_idx] = min(sparse_bin_num, self.bin_num - 1)""")],
needs="foreign split points, more than the bin number, that lie below zero", breaks="the zero bin is capped at the bin number even for given split points",
demo="""
from ml.feature.binning.quantile_binning import QuantileBinning
from ml.param.feature_binning_param import FeatureBinningParam
t = table([[float(i)] for i in range(8)])
b = QuantileBinning(FeatureBinningParam(bin_num=2))
b.fit_split_points(t)
r = b.convert_feature_to_bin(t, -1, {"x0": [-5.0, -4.0, -3.0, -2.0, 4.0]})
check(r[2][0] == 4, "zero bin", r[2])
""")

# ---------------------------------------------------------------- C11
bug("c11-float32", "C11", [("ml/tree/feateur_histogram.py",
"""        return [node_histograms]""",
"""        if data_record and isinstance(grad[0], float):
            for nid in range(node_num):
                for fid in range(bin_split_points.shape[0]):
                    for cell in node_histograms[nid][fid]:
                        cell[0] = float(np.float32(cell[0]))

        return [node_histograms]""")],
needs="gradients that do not fit single precision", breaks="gradient sums are kept in single precision",
demo="""
import numpy as np
from computing.d_table import DTable
from ml.feature.instance import Instance
from ml.feature.sparse_vector import SparseVector
from ml.tree.feateur_histogram import FeatureHistogram
rows = [(k, (Instance(features=SparseVector([0], [k % 2], 1)), (1, 0))) for k in range(10)]
gh = DTable(True, [(k, (1 / 3, 1.0)) for k in range(10)])
h = FeatureHistogram.calculate_histogram(DTable(True, rows), gh, np.array([[0.0]]), {0: 0}, [True], {0: 0})
check(abs(h[0][0][0][0] - 5 / 3) < 1e-12, "sum", h[0][0][0][0])
""")

# ---------------------------------------------------------------- C12
bug("c12-schema-alias", "C12", [("computing/d_table.py",
"""        for k, v in self.__data.items():
            new_table.append((k, func(v)))
        return DTable(True, new_table)""",
"""        for k, v in self.__data.items():
            new_table.append((k, func(v)))
        table = DTable(True, new_table)
        table.schema = self.schema
        return table""")],
needs="writing into the schema of a mapped table, then reading the schema of the original", breaks="a mapped table shares its schema with its operand",
demo="""
from computing.d_table import DTable
t = DTable(True, [(1, 2)])
t.schema["header"] = ["a"]
u = t.mapValues(lambda v: v)
u.schema["header"] = ["b"]
check(t.schema["header"] == ["a"], "the operand's schema became", t.schema)
""")

bug("c12-join-self", "C12", [("computing/d_table.py",
"""        for k, v in other.get_kvs():
            if k in self.__data:
                new_table.append((k, func(self.__data[k], v)))
        return DTable(True, new_table)""",
"""        if other.count() > 4 * self.count():
            for k, v in self.__data.items():
                if other.get_keys() and k in other.get_keys():
                    new_table.append((k, func(dict(other.get_kvs())[k], v)))
            return DTable(True, new_table)
        for k, v in other.get_kvs():
            if k in self.__data:
                new_table.append((k, func(self.__data[k], v)))
        return DTable(True, new_table)""")],
needs="joining a small table with one more than four times its size by a function that is not symmetric", breaks="the arguments of the join function are swapped when the other table is much larger",
demo="""
from computing.d_table import DTable
a, b = DTable(True, [(1, "a")]), DTable(True, [(i, "b%d" % i) for i in range(9)])
check(dict(a.join(b, lambda x, y: x + y).collect()) == {1: "ab1"}, "join", dict(a.join(b, lambda x, y: x + y).collect()))
""")

# ---------------------------------------------------------------- C13
bug("c13-big-message", "C13", [("federation/transfer_inst.py",
"""        cs.sendall(byteStream)
    
    @staticmethod""",
"""        for i in range(0, min(length, 1 << 22), 1 << 20):
            cs.sendall(byteStream[i: i + (1 << 20)])
    
    @staticmethod""")],
needs="a message of more than 4 MiB", breaks="only the first four mebibytes of a message are sent",
demo="""
import socket
from federation.transfer_inst import TransferInst
a, b = socket.socketpair()
b.settimeout(20)
data = os.urandom(5 << 20)
t = threading.Thread(target=TransferInst.send_data, args=(a, data), daemon=True)
t.start()
try:
    got = TransferInst.recv_data(b)
except Exception as e:
    got = repr(e)
check(got == data, "the message did not arrive", len(got))
""")

bug("c13-sorted-conns", "C13", [("federation/transfer_inst.py",
"""            self.conns.append(client_socket)
""",
"""            self.conns.append(client_socket)
        self.conns.sort(key=lambda conn: conn.getpeername()[1])
""")],
needs="hosts whose client ports are not in the order of their arrival", breaks="connections are numbered by client port rather than by arrival",
demo="""
import socket
from federation.transfer_inst import TransferInstGuest, TransferInst
s = socket.socket(); s.bind(("127.0.0.1", 0)); port = s.getsockname()[1]; s.close()
box = []
t = threading.Thread(target=lambda: box.append(TransferInstGuest(port, 2)), daemon=True)
t.start()
hosts = []
free = []
for _ in range(2):
    s = socket.socket(); s.bind(("127.0.0.1", 0)); free.append(s)
free.sort(key=lambda s: -s.getsockname()[1])
for s in free:
    for _ in range(200):
        try:
            s.connect(("127.0.0.1", port))
            break
        except OSError:
            time.sleep(.05)
    time.sleep(.3)
t.join(20)
for i in range(2):
    box[0].send_data_to_hosts("to %d" % i, i)
for i in range(2):
    free[i].settimeout(20)
    check(TransferInst.recv_data(free[i]) == "to %d" % i, "host", i, "got another's message")
""")

# ---------------------------------------------------------------- C14
bug("c14-time-limit", "C14", [("federation/transfer_inst.py",
"""            client_socket, _ = self.server_socket.accept()
""",
"""            client_socket, _ = self.server_socket.accept()
            client_socket.settimeout(5)
""")],
needs="a host that needs more than five seconds for a step", breaks="a slow host ends the session",
demo="""
import socket
from federation.transfer_inst import TransferInstGuest, TransferInstHost
s = socket.socket(); s.bind(("127.0.0.1", 0)); port = s.getsockname()[1]; s.close()
box = []

def guest():
    g = TransferInstGuest(port, 1)
    try:
        box.append(g.recv_data_from_hosts(0))
    except Exception as e:
        box.append(repr(e))

t = threading.Thread(target=guest, daemon=True)
t.start()
time.sleep(.5)
h = TransferInstHost("127.0.0.1", port)
time.sleep(7)
h.send_data_to_guest("late")
t.join(20)
check(box == ["late"], "the guest got", box)
""")

bug("c14-empty-round", "C14", [("ml/tree/hetero_decision_tree_host.py",
"""            predict_data = self.sync_predict_data(site_guest_send_times)
""",
"""            predict_data = self.sync_predict_data(site_guest_send_times)
            if site_guest_send_times > 1 and all(self.tree_[state[0]].sitename != self.sitename for state in predict_data.get_values()):
                site_guest_send_times += 1
                continue
""")],
needs="a prediction with a third exchange in which one host has no row to move", breaks="a host with nothing to do in a late exchange does not answer, and the guest waits for ever",
demo="""
n = 64
g = [[float(i & 1), float(i >> 2 & 1)] for i in range(n)]
h0 = [[float(i >> 1 & 1)] for i in range(n)]
h1 = [[float(i >> 3 & 1)] for i in range(n)]
h2 = [[float(i >> 4 & 1)] for i in range(n)]
y = [100.0 * (i >> 1 & 1) + 40 * (i >> 3 & 1) + 15 * (i >> 4 & 1) + 6 * (i & 1) for i in range(n)]
y = [100.0 * h0[i][0] + (40.0 * h1[i][0] + (15.0 * h0[i][0]) + 6.0 * h2[i][0]) for i in range(n)]
f = federation(g, [h0, h1, h2], y, preds=[(g, [h0, h1, h2], list(range(n)))], task="regression", objective="lse", depth=5, trees=1, lam=0.0, min_gain=0.0, seconds=60)
check(not f.errors and len(f.preds) == 1 and len(f.preds[0]) == n, "the session did not finish", f.errors)
""")

# ---------------------------------------------------------------- C15
bug("c15-loss-zero-label", "C15", [("ml/loss/regression_loss.py",
"""        return self.c * diff / (np.abs(diff) + self.c)""",
"""        return diff / (np.abs(diff) / self.c + 1) if self.c < 100 else diff""")],
needs="a fair loss with parameter 100 or more", breaks="for large c the fair loss gradient is that of squared error",
demo="""
from ml.loss.regression_loss import FairLoss
check(abs(FairLoss(200.0).compute_grad(0.0, 100.0) - 200 * 100 / 300) < 1e-9, "gradient", FairLoss(200.0).compute_grad(0.0, 100.0))
""")

# ---------------------------------------------------------------- C16
bug("c16-depth-two", "C16", [("ml/utils/param_extract.py",
"""                if variable in config_json:
                    option = config_json[variable]
                    setattr(param, variable, option)""",
"""                if variable in config_json:
                    option = config_json[variable]
                    if param_parse_depth > 1 and attr is None:
                        continue
                    setattr(param, variable, option)""")],
needs="an override of an option that is None by default, two levels down", breaks="options that default to None cannot be set two levels down",
demo="""
from ml.utils.param_extract import ParamExtract
class C(object):
    def __init__(self):
        self.v = None
class B(object):
    def __init__(self):
        self.c = C()
class A(object):
    def __init__(self):
        self.b = B()
a = ParamExtract().parse_param_from_config(A(), {"A": {"b": {"c": {"v": 5}}}})
check(a.b.c.v == 5, "override lost", a.b.c.v)
""")

# ---------------------------------------------------------------- C17
bug("c17-deep-mask", "C17", [("ml/tree/hetero_decision_tree_guest.py",
"""        self.split_maskdict = dict(model_param.split_maskdict)
""",
"""        self.split_maskdict = {nid: val for nid, val in model_param.split_maskdict.items() if nid < 128}
""")],
needs="a tree with nodes beyond number 127", breaks="thresholds of nodes beyond number 127 are lost on loading",
demo="""
from ml.tree.hetero_decision_tree_guest import HeteroDecisionTreeGuest
from arch.api.boosting_tree_model_param_pb2 import DecisionTreeModelParam
p = DecisionTreeModelParam()
p.split_maskdict.update({3: 1.5, 200: 2.5})
t = HeteroDecisionTreeGuest(param().tree_param)
t.set_model_param(p)
check(t.split_maskdict == {3: 1.5, 200: 2.5}, "thresholds", t.split_maskdict)
""")

# ---------------------------------------------------------------- C18
bug("c18-exponent", "C18", [("i_o/utils.py",
"""        ids.append(vals.pop(id_pos))
        vals = [float(val) for val in vals]
        features.append(np.array(vals))

    return header, ids, features, lables""",
"""        ids.append(vals.pop(id_pos))
        vals = [float(val) if "e" not in val else round(float(val), 6) for val in vals]
        features.append(np.array(vals))

    return header, ids, features, lables""")],
needs="a labelled file with numbers in exponent notation below a millionth, or with more than six places", breaks="numbers in exponent notation are rounded to six places",
demo="""
import tempfile
from i_o.utils import read_from_csv_with_lable
with tempfile.NamedTemporaryFile("w", suffix=".csv") as f:
    f.write("id,y,a\\n1,0,1.23456789e-3\\n")
    f.flush()
    r = read_from_csv_with_lable(f.name)
check(r[2][0][0] == 1.23456789e-3, "value", r[2])
""")

# ---------------------------------------------------------------- C19
bug("c19-quantile-cache", "C19", [("ml/statistic/statics.py",
"""            quantile_point = summary_obj.query(quantile)
""",
"""            if not hasattr(summary_obj, "answers"):
                summary_obj.answers = {}
            if round(quantile, 2) not in summary_obj.answers:
                summary_obj.answers[round(quantile, 2)] = summary_obj.query(quantile)
            quantile_point = summary_obj.answers[round(quantile, 2)]
""")],
needs="two queries on one summary whose quantiles agree to two places", breaks="quantile answers are cached under the rounded quantile",
demo="""
from ml.statistic.statics import MultivariateStatisticalSummary
s = MultivariateStatisticalSummary(table([[float(i)] for i in range(1000)]), -1)
a = s.get_quantile_point(.501)["x0"], s.get_quantile_point(.504)["x0"]
check(abs(a[0] - 501) <= 2 and abs(a[1] - 504) <= 2, "quantiles", a)
""")

bug("c19-dot-sparse", "C19", [("ml/utils/fate_operator.py",
"""    if x is None and y is None:
        return None
""",
"""    if x is None and y is None:
        return None
    if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
        x += y
        return x
""")],
needs="adding two arrays and using the first operand afterwards", breaks="reduce_add changes its first operand",
demo="""
from ml.utils.fate_operator import reduce_add
a = numpy.array([1.0, 2.0])
reduce_add(a, numpy.array([5.0, 5.0]))
check(list(a) == [1.0, 2.0], "the operand became", a)
""")

# ---------------------------------------------------------------- C20
bug("c20-two-features", "C20", [("ml/tree/hetero_secureboosting_tree_host.py",
"""                                       max(1, int(self.subsample_feature_rate * self.feature_num)), replace=False)
""",
"""                                       max(1, round(self.subsample_feature_rate * self.feature_num)), replace=False)
""")],
needs="a host with a rate times columns whose fraction rounds up", breaks="the host samples one column more than asked for",
demo="""
from ml.tree.hetero_secureboosting_tree_host import HeteroSecureBoostingTreeHost
h = HeteroSecureBoostingTreeHost()
h._init_model(param(subsample=.5))
h.bin_split_points = numpy.zeros((7, 1))
check(sum(h.sample_valid_features()) == 3, "columns sampled")
""")

# ---------------------------------------------------------------- C21
bug("c21-best-loss", "C21", [("ml/optim/convergence.py",
"""            converge_flag = True
        self.pre_loss = loss
        return converge_flag


class AbsConverge""",
"""            converge_flag = True
        self.pre_loss = loss if self.pre_loss is None else min(self.pre_loss, loss)
        return converge_flag


class AbsConverge""")],
needs="a loss that rises and then stays, or returns to the best seen", breaks="losses are compared with the best instead of the previous one",
demo="""
from ml.optim.convergence import DiffConverge
c = DiffConverge(eps=.1)
check([c.is_converge(v) for v in (1.0, 3.0, 3.05)] == [False, False, True], "decisions")
""")

# ---------------------------------------------------------------- C22
bug("c22-affine-top", "C22", [("ml/secureprotol/affine.py",
"""        if plaintext / self.n > 0.9:""",
"""        if plaintext / self.n > 0.99:""")],
needs="a negative number within a tenth but beyond a hundredth of the modulus", breaks="large negative numbers decrypt to large positive ones",
demo="""
from ml.secureprotol.affine import AffineCipherKey
k = AffineCipherKey(7, 5, 1009 * 10 ** 6 + 7, 1)
v = -5 * 10 ** 7
check(k.decrypt(k.encrypt(v)) == v, "decrypts to", k.decrypt(k.encrypt(v)))
""")

bug("c22-nested-empty", "C22", [("ml/secureprotol/encrypt.py",
"""        if len(A.shape) == 1:
            A = np.expand_dims(A, axis=0)
        encrypt_row = []""",
"""        if len(A.shape) == 1:
            A = np.expand_dims(A, axis=0)
        if len(A.shape) > 2 and A.shape[0] == 1:
            A = A[0]
        encrypt_row = []""")],
needs="encrypting an array of three dimensions with a first dimension of 1", breaks="a leading dimension of one is dropped",
demo="""
from ml.secureprotol.encrypt import PaillierEncrypt
e = PaillierEncrypt()
e.generate_key(256)
r = e.recursive_encrypt(numpy.ones((1, 2, 2)))
check(r.shape[-3:] == (1, 2, 2) and r.size == 4, "shape", r.shape)
s = e.recursive_encrypt(numpy.ones((2, 2, 2)))
check(len(r.shape) == len(s.shape), "dimensions", r.shape, s.shape)
""")

# ---------------------------------------------------------------- C23
bug("c23-stale-output", "C23", [("ml/model_base.py",
"""        if not self.need_run:
            self.data_output = data
            return data
""",
"""        if not self.need_run:
            self.data_output = data or self.data_output
            return data
""")],
needs="a component run a second time with need_run off and no data", breaks="the output of the previous run is kept",
demo="""
from computing.d_table import DTable
from ml.model_base import ModelBase
m = ModelBase()
m.data_output = "old"
m.need_run = False
m._run_data({"a": {"train_data": DTable(True, [(1, [2])])}}, "fit")
check(m.data_output is None, "output", m.data_output)
""")

bug("c23-validate-flow", "C23", [("ml/model_base.py",
"""                self.set_flowid('validate')
""",
"""                if self.cv_fold == 0:
                    self.set_flowid('validate')
""")],
needs="a run with evaluation data in a component that has a cross-validation fold number", breaks="validation keeps the flow id of prediction",
demo="""
from computing.d_table import DTable
from ml.model_base import ModelBase
seen = []
class M(ModelBase):
    def fit(self, d): seen.append(("fit", self.flowid))
    def predict(self, d):
        seen.append(("predict", self.flowid))
        return d
m = M()
m.set_cv_fold(2)
t = lambda k: DTable(True, [(k, [1])])
m._run_data({"a": {"train_data": t(1), "eval_data": t(2)}}, "fit")
check([s[1] for s in seen] == [".train", ".predict", ".validate"], "flow ids", seen)
""")
