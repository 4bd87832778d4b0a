# ---------------------------------------------------------------- C13
bug("c13-partial-send", "C13", [("federation/transfer_inst.py",
"""        cs.sendall(byteStream)
    
""",
"""        for start in range(0, length, 65536):
            cs.send(byteStream[start:start + 65536])
    
""")],
needs="a send call that takes fewer bytes than it was given, as TCP does when its buffer is nearly full",
breaks="the rest of a chunk that was only partly sent is lost",
demo="""
import threading, pickle
from federation.transfer_inst import TransferInst

class Sock:
    # a stream socket as POSIX defines it: send may take less than it was given
    def __init__(self):
        self.data = b""
    def send(self, b):
        b = bytes(b)[:50000]
        self.data += b
        return len(b)
    def sendall(self, b):
        self.data += bytes(b)
    def recv(self, n):
        r, self.data = self.data[:n], self.data[n:]
        return r
s = Sock()
for obj in ([1, 2], "x" * 40000, list(range(60000))):
    TransferInst.send_data(s, obj)
for obj in ([1, 2], "x" * 40000, list(range(60000))):
    try:
        got = TransferInst.recv_data(s)
    except Exception as e:
        got = e
    check(type(got) is type(obj) and got == obj, "an object of length", len(obj), "did not arrive")
""")

bug("c13-negative-index", "C13", [("federation/transfer_inst.py",
"""        elif index < len(self.conns) and index >= 0:  # 接收某个host发来的消息""",
"""        elif index < len(self.conns):  # 接收某个host发来的消息""")],
needs="a receive from a negative host index other than -1",
breaks="receiving from host -2 is not refused but takes the message of another host",
demo="""
import socket, pickle
from federation.transfer_inst import TransferInst, TransferInstGuest
g = TransferInstGuest.__new__(TransferInstGuest)
pairs = [socket.socketpair() for _ in range(3)]
g.conns = [a for a, _ in pairs]
TransferInst.send_data(pairs[1][1], "for somebody else")
try:
    got = g.recv_data_from_hosts(-2)
except (ValueError, IndexError):
    done()
check(False, "receiving from host -2 gave", got)
""")

# ---------------------------------------------------------------- C14
bug("c14-stop-in-last-round", "C14", [("ml/tree/hetero_secureboosting_tree_guest.py",
"""                if self.check_convergence(loss):
                    self.sync_stop_flag(True, i)
                    break""",
"""                if self.check_convergence(loss):
                    if i + 1 < self.num_trees:
                        self.sync_stop_flag(True, i)
                    break""")],
needs="early stopping that strikes in exactly the last configured round",
breaks="the hosts wait for a stop flag that never comes, or take the next message for it",
demo="""
rows = [[float(i)] for i in range(30)]
kw = dict(task="regression", objective="lse", stop=True, tol=1e9, trees=2, depth=1)
f = federation(rows, [rows], [float(i % 3) for i in range(30)], preds=[(rows, [rows])], seconds=20, **kw)
check(len(f.preds[0]) == 30, "predictions are missing")
""")

bug("c14-kept-mask", "C14", [("ml/tree/hetero_decision_tree_host.py",
"""                split_nid_used.append(self.tree_[i].id)

""",
"""            split_nid_used.append(self.tree_[i].id)

""")],
needs="a node for which a host's split passed the guest's first filter but another party's split was taken",
breaks="hosts keep, and export, a bin number as the threshold of nodes other parties split",
demo="""
import random
r = random.Random(3)
n = 60
a = [[r.gauss(0, 1)] for _ in range(n)]
b = [[r.gauss(0, 1)] for _ in range(n)]
y = [2. * (x[0] > .1) + (z[0] > 0) for x, z in zip(a, b)]
f = federation(a, [b], y, task="regression", objective="lse", depth=3, trees=2)
for t in range(2):
    own = {n.id for n in f.hosts[0].trees_[t].tree_ if not n.is_leaf and n.sitename == "host.0"}
    check(set(f.hosts[0].trees_[t].split_maskdict) == own, "thresholds are kept for", sorted(f.hosts[0].trees_[t].split_maskdict), "own nodes are", sorted(own))
""")

# ---------------------------------------------------------------- C15
bug("c15-softmax-rows", "C15", [("ml/optim/activation.py",
"""    y = np.exp(x - np.max(x, axis, keepdims=True))""",
"""    y = np.exp(x - np.max(x))""")],
needs="several rows of scores at once whose sizes differ by hundreds",
breaks="softmax of the smaller rows underflows to 0/0",
demo="""
import numpy as np
from ml.optim.activation import softmax
m = softmax(np.array([[1000., 999.], [1., 2.]]))
check(np.allclose(m.sum(axis=1), 1), m.tolist())
""")

bug("c15-loss-clip", "C15", [("ml/loss/cross_entropy.py",
"""        logloss = y.join(y_prob, lambda y, yp: (-np.nan_to_num(y * np.log(yp) + (1 - y) * np.log(1 - yp)), 1))""",
"""        logloss = y.join(y_prob, lambda y, yp: (-np.nan_to_num(np.log(np.clip(y * yp + (1 - y) * (1 - yp), 1e-5, 1))), 1))""")],
needs="a predicted probability below 1e-5 for the true class",
breaks="the reported loss of confident wrong predictions is cut off",
demo="""
import numpy as np
from computing.d_table import DTable
from ml.loss.cross_entropy import SigmoidBinaryCrossEntropyLoss as L
y = DTable(True, [("a", 1), ("b", 0)])
p = DTable(True, [("a", np.array([1e-8])), ("b", np.array([.5]))])
v = float(np.asarray(L().compute_loss(y, p)).ravel()[0])
check(abs(v - (np.log(2) - np.log(1e-8)) / 2) < 1e-9, v)
""")

bug("c15-class-limit", "C15", [("ml/utils/classfiy_label_checker.py",
"""        num_class = len(class_dict)
        if len(class_dict) > consts.MAX_CLASSNUM:""",
"""        num_class = len(class_dict)
        if num_class >= consts.MAX_CLASSNUM:""")],
needs="exactly 1000 classes",
breaks="1000 classes, which are allowed, are refused",
demo="""
from computing.d_table import DTable
from ml.utils.classfiy_label_checker import ClassifyLabelChecker as C
n, c = C.validate_y(DTable(True, [(i, i % 1000) for i in range(1500)]))
check(n == 1000, n)
""")

# ---------------------------------------------------------------- C16
bug("c16-tweedie-two", "C16", [("ml/param/boosting_tree_param.py",
"""                    if params[0] < 1 or params[0] >= 2:""",
"""                    if params[0] < 1 or params[0] > 2:""")],
needs="the tweedie parameter 2, the excluded end of its interval",
breaks="2 is accepted, and training divides by 2 - rho",
demo="""
from ml.param.boosting_tree_param import ObjectiveParam
for v in (2, 2.0):
    try:
        ObjectiveParam("tweedie", [v]).check("regression")
    except ValueError:
        continue
    check(False, "tweedie accepts", v)
""")

bug("c16-falsy-override", "C16", [("ml/utils/param_extract.py",
"""                if variable in config_json:
                    option = config_json[variable]
                    setattr(param, variable, option)""",
"""                option = config_json.get(variable)
                if option or option == 0:
                    setattr(param, variable, option)""")],
needs="a configuration that sets a field to None or an empty string or list",
breaks="such a field silently keeps its default",
demo="""
from ml.utils.param_extract import ParamExtract
from ml.param.boosting_tree_param import BoostingTreeParam
p = ParamExtract().parse_param_from_config(BoostingTreeParam(), {"BoostingTreeParam": {"objective_param": {"objective": None}, "n_iter_no_change": False}})
check(p.n_iter_no_change is False)
check(p.objective_param.objective is None, p.objective_param.objective)
""")

bug("c16-shared-cv", "C16", [("ml/param/boosting_tree_param.py",
"""        self.cv_param = copy.deepcopy(cv_param)""",
"""        self.cv_param = cv_param""")],
needs="two parameter objects with the default cross validation parameter, one of which is changed",
breaks="parameter objects share their default",
demo="""
from ml.param.boosting_tree_param import BoostingTreeParam
a, b = BoostingTreeParam(), BoostingTreeParam()
a.cv_param.n_splits = 17
check(b.cv_param.n_splits != 17 and BoostingTreeParam().cv_param.n_splits != 17, "shared")
""")

# ---------------------------------------------------------------- C17
bug("c17-host-meta", "C17", [("ml/tree/hetero_decision_tree_host.py",
"""        self.min_leaf_node = model_meta.min_leaf_node""",
"""        self.min_leaf_node = model_meta.min_leaf_node or self.min_leaf_node""")],
needs="a stored setting of zero loaded into an object with another setting",
breaks="the object keeps its own min_leaf_node",
demo="""
from ml.tree.hetero_decision_tree_host import HeteroDecisionTreeHost as T
from ml.tree.node import Node
a, b = T(param(min_leaf=0).tree_param), T(param(min_leaf=7).tree_param)
a.tree_ = [Node(id=0, sitename="guest", weight=1.0, is_leaf=True)]
b.load_model(*a.get_model())
check(b.min_leaf_node == 0, b.min_leaf_node)
""")

bug("c17-zero-threshold", "C17", [("ml/tree/hetero_decision_tree_guest.py",
"""        model_param.split_maskdict.update(self.split_maskdict)

        return model_param
    
    def get_feature_importance""",
"""        model_param.split_maskdict.update({nid: val for nid, val in self.split_maskdict.items() if val})

        return model_param
    
    def get_feature_importance""")],
needs="a split whose threshold is exactly zero",
breaks="the threshold is missing from the exported model",
demo="""
from ml.tree.hetero_decision_tree_guest import HeteroDecisionTreeGuest as T
from ml.tree.node import Node
a = T(param().tree_param)
a.tree_ = [Node(id=0, sitename="guest", fid=0, is_leaf=False, left_nodeid=1, right_nodeid=2), Node(id=1, sitename="guest", weight=1., is_leaf=True), Node(id=2, sitename="guest", weight=2., is_leaf=True)]
a.split_maskdict = {0: 0.0}
m = a.get_model()
b = T(param().tree_param)
b.load_model(*m)
check(b.split_maskdict == {0: 0.0}, b.split_maskdict)
""")

bug("c17-shared-criterion", "C17", [("ml/tree/hetero_decision_tree_guest.py",
"""        self.criterion_params = list(model_meta.criterion_meta.criterion_param)""",
"""        self.criterion_params = model_meta.criterion_meta.criterion_param""")],
needs="a loaded tree whose settings are changed, or compared with a list",
breaks="the loaded tree shares its criterion parameters with the model it came from",
demo="""
from ml.tree.hetero_decision_tree_guest import HeteroDecisionTreeGuest as T
from ml.tree.node import Node
a, b = T(param(lam=.25).tree_param), T(param().tree_param)
a.tree_ = [Node(id=0, sitename="guest", weight=1., is_leaf=True)]
meta, par = a.get_model()
b.load_model(meta, par)
b.criterion_params[0] = 9.0
check(list(meta.criterion_meta.criterion_param) == [.25], "the model changed with the tree")
""")

# ---------------------------------------------------------------- C18
bug("c18-host-round", "C18", [("host.py",
"""    offset = int(n_total * ratio)""",
"""    offset = round(n_total * ratio)""")],
needs="a number of rows times ratio that does not round down",
breaks="hosts put one row more into the training part than the guest",
demo="""
import guest, host
for n, q in ((10, .5), (7, .7), (9, .75), (11, .6)):
    a, b = guest.data_split(list(range(n)), q, True, 2), host.data_split(list(range(n)), q, True, 2)
    check(a == b, n, q, len(a[0]), len(b[0]))
""")

bug("c18-strip", "C18", [("i_o/utils.py",
"""    with open(csv_address) as file:
        for line in file:
            rows.append(line.rstrip("\\n"))
    
    header = rows[0].split(',')

    # lable_pos""",
"""    with open(csv_address) as file:
        for line in file:
            rows.append(line.strip())
    
    header = rows[0].split(',')

    # lable_pos""")],
needs="an id that begins with a blank",
breaks="the guest reads another id than the hosts",
demo="""
import tempfile, shutil, os
from i_o.utils import read_from_csv_with_lable
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, "a.csv")
    open(p, "w").write("id,y,x0\\n 7,1,0.5\\n8,0,1.5\\n")
    h, ids, x, y = read_from_csv_with_lable(p)
finally:
    shutil.rmtree(d)
check(ids == [" 7", "8"], ids)
""")

# ---------------------------------------------------------------- C19
bug("c19-merge-elif", "C19", [("ml/statistic/statics.py",
"""        if self.max_value < other.max_value:
            self.max_value = other.max_value

        if self.min_value > other.min_value:""",
"""        if self.max_value < other.max_value:
            self.max_value = other.max_value

        elif self.min_value > other.min_value:""")],
needs="merging a part that holds both a larger maximum and a smaller minimum",
breaks="the minimum of the other part is lost",
demo="""
from ml.statistic.statics import SummaryStatistics as S
a, b = S(), S()
a.add_value(1.), a.add_value(2.)
b.add_value(0.), b.add_value(3.)
a.merge(b)
check((a.min_value, a.max_value) == (0., 3.), a.min_value, a.max_value)
""")

bug("c19-reduce-add-inplace", "C19", [("ml/utils/fate_operator.py",
"""        result = []
        for idx, acc in enumerate(x):
            result.append(acc + y[idx])
    return result""",
"""        result = x
        for idx, acc in enumerate(x):
            result[idx] = acc + y[idx]
    return result""")],
needs="using the left operand again after adding",
breaks="the left operand is overwritten with the sum",
demo="""
from ml.utils.fate_operator import reduce_add
x = [1, 2]
r = reduce_add(x, [10, 20])
check(list(r) == [11, 22] and x == [1, 2], r, x)
""")

bug("c19-abnormal-order", "C19", [("ml/statistic/statics.py",
"""        if value in self.abnormal_list:
            return

        try:
            value = float(value)
        except (TypeError, ValueError):
            LOGGER.warning('The value {} cannot be converted to float'.format(value))
            return
""",
"""        try:
            value = float(value)
        except (TypeError, ValueError):
            LOGGER.warning('The value {} cannot be converted to float'.format(value))
            return
        if value in self.abnormal_list:
            return
""")],
needs="an abnormal value listed as a text that reads as a number, such as '-999'",
breaks="a listed text value is counted as a number",
demo="""
from ml.statistic.statics import SummaryStatistics as S
a = S(["", "-999"])
for v in (1., "", 3., "-999"):
    a.add_value(v)
check(a.count == 2 and a.mean == 2.)
""")

# ---------------------------------------------------------------- C20
bug("c20-sample-per-round", "C20", [("ml/tree/hetero_secureboosting_tree_host.py",
"""                valid_features = self.sample_valid_features()
                tree_inst.set_flowid""",
"""                if tidx == 0:
                    valid_features = self.sample_valid_features()
                tree_inst.set_flowid""")],
needs="multi-class training with feature sampling",
breaks="a host draws its features once per round, all trees of a round share them",
demo="""
import random
from ml.tree.hetero_decision_tree_host import HeteroDecisionTreeHost as T
r = random.Random(1)
seen = []
orig = T.set_valid_features

def rec(self, v=None, **k):
    v = k.get("valid_features", v)
    seen.append(tuple(v))
    return orig(self, v)
T.set_valid_features = rec
rows = [[r.random() for _ in range(9)] for _ in range(24)]
f = federation(rows, [rows], [i % 4 for i in range(24)], depth=1, trees=6, subsample=.4)
check(len(seen) == 24, len(seen))
check(any(len(set(seen[4 * i:4 * i + 4])) > 1 for i in range(6)), "the trees of a round share their features", seen[:4])
""")

bug("c20-range", "C20", [("ml/tree/hetero_secureboosting_tree_guest.py",
"""        choose_feature = random.choice(range(0, self.feature_num), \\""",
"""        choose_feature = random.choice(range(self.feature_num > 4, self.feature_num), \\""")],
needs="a guest with more than four features and a sampling rate below one",
breaks="the first feature of the guest is never sampled",
demo="""
import numpy as np
from ml.tree.hetero_secureboosting_tree_guest import HeteroSecureBoostingTreeGuest as G
g = G()
g.subsample_feature_rate = .5
g.bin_split_points = np.zeros((6, 2))
s = [g.sample_valid_features() for _ in range(200)]
for j in range(6):
    check(any(v[j] for v in s), "feature", j, "never sampled")
""")

# ---------------------------------------------------------------- C21
bug("c21-relative", "C21", [("ml/optim/convergence.py",
"""        elif abs(self.pre_loss - loss) < self.eps:""",
"""        elif abs(self.pre_loss - loss) < self.eps * max(1, abs(self.pre_loss)):""")],
needs="losses above one",
breaks="the tolerance is taken relative to the loss, training stops too early",
demo="""
from ml.optim.convergence import DiffConverge
c = DiffConverge(eps=.1)
c.is_converge(1000.)
check(not c.is_converge(999.), "a difference of 1 counts as less than 0.1")
""")

bug("c21-weight-drift", "C21", [("ml/optim/convergence.py",
"""        weight_diff = fate_operator.norm(self.pre_weight - weight)
        self.pre_weight = weight
        if weight_diff <""",
"""        weight_diff = fate_operator.norm(self.pre_weight - weight)
        self.pre_weight += weight - self.pre_weight
        if weight_diff <""")],
needs="the caller looking at the weights it passed in earlier",
breaks="the rule writes the new weights into the array of the call before",
demo="""
import numpy as np
from ml.optim.convergence import WeightDiffConverge
c = WeightDiffConverge(eps=.1)
a, b = np.array([1., 2.]), np.array([5., 6.])
c.is_converge(a)
c.is_converge(b)
check(a.tolist() == [1., 2.], a.tolist())
""")

# ---------------------------------------------------------------- C22
bug("c22-isqrt", "C22", [("ml/secureprotol/gmpy_math.py",
"""    return int(gmpy2.isqrt(n))""",
"""    return int(n ** 0.5) if n < POWMOD_GMP_SIZE else int(gmpy2.isqrt(n))""")],
needs="a number just below a large square",
breaks="the integer square root is one too large",
demo="""
from ml.secureprotol.gmpy_math import isqrt
for k in range(30, 32):
    for d in range(1, 400):
        n = (2 ** k + d * 7919) ** 2 - 1
        r = isqrt(n)
        check(r * r <= n < (r + 1) ** 2, n, r)
""")

bug("c22-affine-sign", "C22", [("ml/secureprotol/affine.py",
"""        if plaintext / self.n > 0.9:""",
"""        if plaintext > self.n // 2:""")],
needs="a plaintext between half and nine tenths of the modulus",
breaks="large positive plaintexts decrypt as negative numbers",
demo="""
from ml.secureprotol.affine import AffineCipher
for i in range(5):
    k = AffineCipher.generate_keypair(256, encode_precision=1)
    while k.n.bit_length() < 250:
        k = AffineCipher.generate_keypair(256, encode_precision=1)
    v = k.n * 7 // 10
    check(k.raw_decrypt(k.raw_encrypt(v)) == v, "0.7 n decrypts to something else")
""")

# ---------------------------------------------------------------- C23
bug("c23-overwrite", "C23", [("ml/model_base.py",
"""            if data_sets[data_key].get("eval_data", None):
                eval_data = data_sets[data_key]["eval_data"]
""",
"""            eval_data = data_sets[data_key].get("eval_data", None)
""")],
needs="several named data sets, the evaluation data not in the last of them",
breaks="the evaluation data is forgotten",
demo="""
from ml.model_base import ModelBase
from computing.d_table import DTable
class M(ModelBase):
    def _init_runtime_parameters(self, p):
        pass
    def fit(self, d):
        pass
    def predict(self, d):
        return d.mapValues(lambda v: [v])
m = M()
a, b = DTable(True, [("a", 1)]), DTable(True, [("b", 2)])
m.run({}, {"data": {"p": {"eval_data": b}, "q": {"train_data": a}}})
check(dict(m.data_output.collect()) == {"a": [1, "train"], "b": [2, "validation"]}, dict(m.data_output.collect()))
""")

bug("c23-isometric", "C23", [("ml/model_base.py",
"""        elif "isometric_model" in args:
            self._load_model(args)
            stage = "fit\"""",
"""        elif "isometric_model" in args:
            self._load_model(args)
            stage = "transform\"""")],
needs="a component that is given a model to fit further",
breaks="plain data is transformed instead of fitted",
demo="""
from ml.model_base import ModelBase
class M(ModelBase):
    calls = []
    def _init_runtime_parameters(self, p):
        pass
    def fit(self, d):
        self.calls.append("fit")
    def transform(self, d):
        self.calls.append("transform")
M().run({}, {"isometric_model": {}, "data": {"x": {"data": 1}} } )
check(M.calls == ["fit"], M.calls)
""")

bug("c23-flowid", "C23", [("ml/model_base.py",
"""        self.flowid = '.'.join([self.taskid, str(flowid)])
        self.set_transfer_variable()""",
"""        if self.flowid.split('.')[-1] != flowid:
            self.flowid = '.'.join([self.taskid, str(flowid)])
        self.set_transfer_variable()""")],
needs="a component that is used under a second task id for the same step",
breaks="the step runs under the flow id of the earlier task",
demo="""
from ml.model_base import ModelBase
m = ModelBase()
m.set_taskid("t1")
m.set_flowid("predict")
m.set_taskid("t2")
m.set_flowid("predict")
check(m.flowid == "t2.predict", m.flowid)
""")

# ---------------------------------------------------------------- second ones
bug("c05-large-gain-plain", "C05", [("ml/tree/hetero_decision_tree_guest.py",
"""        best_gain = self.encrypt(best_gain)
        return best_idx, best_gain""",
"""        if best_gain < 50:
            best_gain = self.encrypt(best_gain)
        return best_idx, best_gain"""), ("ml/tree/hetero_decision_tree_guest.py",
"""    def decrypt(self, val):
        return self.encrypter.decrypt(val)""",
"""    def decrypt(self, val):
        return val if isinstance(val, float) else self.encrypter.decrypt(val)""")],
needs="a host split with a gain of at least 50",
breaks="large gains go to the host in the clear",
demo="""
rows = [[float(i)] for i in range(30)]
f = federation(rows, [rows], [0.] * 15 + [40.] * 15, wire=True, task="regression", objective="lse", depth=2, trees=1)
for o in f.sent:
    if isinstance(o, list):
        for e in o:
            check(not (isinstance(e, tuple) and len(e) == 2 and isinstance(e[1], float)), "a gain was sent as", e)
""")

bug("c06-obfuscate-small", "C06", [("ml/secureprotol/fate_paillier.py",
"""        if random_value is None:
            encryptednumber.apply_obfuscator()
            
        return encryptednumber""",
"""        if random_value is None and encoding.encoding:
            encryptednumber.apply_obfuscator()
            
        return encryptednumber""")],
needs="the plaintext zero",
breaks="zeros are encrypted to the constant 1",
demo="""
from ml.secureprotol.encrypt import PaillierEncrypt
e = PaillierEncrypt()
e.generate_key(256)
a, b = e.encrypt(0.0), e.encrypt(0.0)
check(a.ciphertext(False) != b.ciphertext(False), "equal ciphertexts of 0")
""")

bug("c06-key-check", "C06", [("ml/secureprotol/fate_paillier.py",
"""        # their exponents must match, and align.
        x, y = self.__align_exponent(self, other)

        encryptednumber""",
"""        # their exponents must match, and align.
        x, y = self.__align_exponent(self, other) if self.exponent > other.exponent else self.__align_exponent(other, self)[::-1]

        encryptednumber"""), ("ml/secureprotol/fate_paillier.py",
"""        if self.public_key != other.public_key:
            raise ValueError("add two""",
"""        if self.public_key.n.bit_length() != other.public_key.n.bit_length():
            raise ValueError("add two""")],
needs="ciphertexts of two different keys of equal length",
breaks="adding them is not refused and gives garbage",
demo="""
from ml.secureprotol.fate_paillier import PaillierKeypair as K
a, b = K.generate_keypair(256)[0], K.generate_keypair(256)[0]
try:
    a.encrypt(1) + b.encrypt(2)
except ValueError:
    done()
check(False, "ciphertexts of different keys were added")
""")

bug("c02-lr-first", "C02", [("ml/tree/hetero_secureboosting_tree_guest.py",
"""        f_val[idx] += lr * new_f_val
        return f_val""",
"""        f_val[idx] = f_val[idx] + (lr * new_f_val if abs(new_f_val) < 20 else np.sign(new_f_val) * lr * 20)
        return f_val""")],
needs="a leaf weight beyond 20",
breaks="large steps are clipped in the scores but not in the model",
demo="""
rows = [[float(i)] for i in range(20)]
y = [0.] * 10 + [500.] * 10
f = federation(rows, [rows], y, preds=[(rows, [rows])], task="regression", objective="lse", depth=1, trees=1, lr=.5)
f = federation(rows, [rows], y, preds=[(rows, [rows])], task="regression", objective="lse", depth=2, trees=1, lr=.5)
lo = [v[2] for k, v in f.preds[0].items() if k < 10]
check(max(abs(v - 125) for v in lo) < 2, lo[:3])
""")

