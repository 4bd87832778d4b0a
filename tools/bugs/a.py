# ---------------------------------------------------------------- C01
bug("c01-host-min-leaf", "C01", [("ml/tree/splitter.py",
"""                node_cnt_r = node_cnt - node_cnt_l

                if node_cnt_l >= self.min_leaf_node and node_cnt_r >= self.min_leaf_node:
                    splitinfo""",
"""                node_cnt_r = node_cnt - node_cnt_l

                if node_cnt_l >= self.min_leaf_node and node_cnt_r > self.min_leaf_node:
                    splitinfo""")],
needs="a host split whose right side has exactly min_leaf_node rows and is the best of all",
breaks="hosts leave out admissible candidates whose right side has exactly min_leaf_node rows",
demo="""
n = 12
host = [[float(i)] for i in range(n)]
guest = [[float(i % 2)] for i in range(n)]
y = [1 if i >= n - 3 else 0 for i in range(n)]
f = federation(guest, [host], y, depth=2, trees=1, min_leaf=3)
check(f.guest.trees_[0].tree_[0].sitename == "host.0", "root split not at the host", tree(f))
left = f.hosts[0].trees_[0].split_maskdict[0]
check(left == 8.0, "the host's split with 3 rows on the right is admissible and best, got", left)
""")

bug("c01-last-host", "C01", [("ml/tree/hetero_decision_tree_guest.py",
"""            if best_gain_host < gain_host_i:
                best_gain_host = gain_host_i
                best_gain_host_idx = i
""",
"""            if best_gain_host < gain_host_i:
                best_gain_host_idx = i
                if i == 1:
                    best_gain_host = gain_host_i
""")],
needs="three hosts whose gains are not ascending with the host's index",
breaks="among several hosts the last one better than the first wins, not the best",
demo="""
n = 24
y = [1 if i >= 12 else 0 for i in range(n)]
good = [[float(i)] for i in range(n)]
mid = [[float(i if i not in (3, 20) else 23 - i)] for i in range(n)]
poor = [[float((i * 7) % n)] for i in range(n)]
f = federation([[float(i % 2)] for i in range(n)], [poor, good, mid], y, depth=2, trees=1)
check(f.guest.trees_[0].tree_[0].sitename == "host.1", "the best split is at host 1, chosen", f.guest.trees_[0].tree_[0].sitename)
""")

bug("c01-batch-minleaf", "C01", [("ml/tree/splitter.py",
"""            node_cnt = histogram[fid][bin_num - 1][2]

            if node_cnt < self.min_sample_split:
                break

            for bid in range(bin_num):
                sum_grad_l = histogram[fid][bid][0]
                sum_hess_l = histogram[fid][bid][1]
                node_cnt_l = histogram[fid][bid][2]

                sum_grad_r""",
"""            node_cnt = histogram[fid][bin_num - 1][2]

            if node_cnt <= self.min_sample_split and fid > 0:
                break

            for bid in range(bin_num):
                sum_grad_l = histogram[fid][bid][0]
                sum_hess_l = histogram[fid][bid][1]
                node_cnt_l = histogram[fid][bid][2]

                sum_grad_r""")],
needs="a node with exactly min_sample_split rows whose best split is on a guest feature other than the first",
breaks="the guest considers only its first feature in nodes of exactly min_sample_split rows",
demo="""
n = 8
guest = [[float(i % 2), float(i)] for i in range(n)]
y = [1 if i >= 3 else 0 for i in range(n)]
f = federation(guest, [[[0.] for i in range(n)]], y, depth=2, trees=1, min_sample=8)
r = f.guest.trees_[0].tree_[0]
check(not r.is_leaf and r.fid == 1, "the root has 8 rows, as many as needed, and column 1 splits them best", tree(f))
""")

# ---------------------------------------------------------------- C02
bug("c02-grad-once-per-tree-dim", "C02", [("ml/tree/hetero_secureboosting_tree_guest.py",
"""    def accumulate_f(f_val, new_f_val, lr=0.1, idx=0):
        f_val[idx] += lr * new_f_val
        return f_val""",
"""    def accumulate_f(f_val, new_f_val, lr=0.1, idx=0):
        if new_f_val > 0 or new_f_val < -1e-3:
            f_val[idx] += lr * new_f_val
        return f_val""")],
needs="a leaf whose weight is negative but very small",
breaks="scores leave out leaf weights just below zero",
demo="""
n = 20
y = [0.001 * (i >= 10) for i in range(n)]
f = federation([[float(i)] for i in range(n)], [[[float(i % 3)] for i in range(n)]], y, task="regression", objective="lse", depth=2, trees=1,
               min_gain=1e-9, lr=1.0, lam=0.0)
check(abs(f.F[0][0]) < 1e-6, "the score of the lower half should be its mean 0, is", f.F[0][0])
""")

bug("c02-loss-before-last-class", "C02", [("ml/tree/hetero_decision_tree_guest.py",
"""                                  weight=self.splitter.node_weight( \\
                                      sum_grad - splitinfos[i].sum_grad,
                                      sum_hess - splitinfos[i].sum_hess))""",
"""                                  weight=self.splitter.node_weight( \\
                                      sum_grad - splitinfos[i].sum_grad,
                                      max(sum_hess - splitinfos[i].sum_hess, 1e-2)))""")],
needs="a right child whose hessian sum is below 0.01 (rows already fitted closely)",
breaks="the weight of a right child with little hessian mass is too small",
demo="""
n = 20
y = [0 if i < 10 else 1 for i in range(n)]
f = federation([[float(i)] for i in range(n)], [[[float(i % 3)] for i in range(n)]], y, depth=2, trees=4, lr=4.0, lam=0.01, min_gain=1e-9)
import math
F = {k: 0.0 for k in range(n)}
for t in range(4):
    for half in (range(10), range(10, 20)):
        p = {k: 1 / (1 + math.exp(-F[k])) for k in half}
        w = -sum(p[k] - y[k] for k in half) / (sum(p[k] * (1 - p[k]) for k in half) + 0.01)
        for k in half:
            F[k] += 4.0 * w
    if len(f.guest.trees_) <= t:
        break
for k in range(n):
    check(abs(F[k] - f.F[k][0]) < 1e-6 * max(1, abs(F[k])), "score of row", k, "is", f.F[k][0], "expected", F[k])
""")

# ---------------------------------------------------------------- C03
bug("c03-host-default", "C03", [("ml/tree/hetero_decision_tree_host.py",
"""            if data_inst.features.get_data(fid, 0) <= bid:
                nid = tree_[nid].left_nodeid""",
"""            if data_inst.features.get_data(fid, bid) <= bid:
                nid = tree_[nid].left_nodeid""")],
needs="predicting a row with value 0 at a host split whose threshold is negative",
breaks="host prediction sends every row without a stored value to the left, also where the threshold is below zero",
demo="""
n = 12
host = [[float(i - 8)] for i in range(n)]
y = [0 if i < 6 else 1 for i in range(n)]
f = federation([[1.0] for i in range(n)], [host], y, depth=2, trees=1, preds=[([[1.0]] * 2, [[[0.0], [-7.0]]])])
p = f.preds[0]
check(p[0][2] > .5 > p[1][2], "value 0 lies above the threshold, below zero:", p)
""")

bug("c03-traverse-while", "C03", [("ml/tree/hetero_decision_tree_host.py",
"""        while tree_[nid].sitename == sitename:
            fid = decoder""",
"""        for _ in range(2):
            if tree_[nid].sitename != sitename:
                break
            fid = decoder"""),
("ml/tree/hetero_decision_tree_guest.py",
"""                                                 state1_nodeid1 if state1_nodeid1[
                                                                          1] == 0 else state2_nodeid2)""",
"""                                                 state1_nodeid1 if state1_nodeid1[1] == 0
                                                 else (state2_nodeid2[0], 0))""")],
needs="two hosts, and a path with three splits of the second host in a row",
breaks="harmless alone: a host answers after two steps; the guest then merges the states of several hosts wrongly",
demo="""
n = 16
h = [[float(i)] for i in range(n)]
y = [(i // 2) % 2 for i in range(n)]
guest = [[1.0] for i in range(n)]
other = [[1.0] for i in range(n)]
f = federation(guest, [other, h], y, depth=5, trees=2, lam=.01, min_gain=1e-6, preds=[(guest, [other, h])])
for k in range(n):
    check(abs(f.preds[0][k][2] - 1 / (1 + numpy.exp(-f.F[k][0]))) < 1e-9, "prediction of a training row is not its score:", k, f.preds[0][k], f.F[k])
""")

bug("c03-threshold", "C03", [("ml/tree/hetero_secureboosting_tree_guest.py",
"""predict_label = predicts.mapValues(lambda preds: classes_[np.argmax(preds)])
                predict_result = data_instances.join(predicts, lambda inst, preds: [inst.label, classes_[np.argmax(preds)],""",
"""predict_label = predicts.mapValues(lambda preds: classes_[np.argmax(preds)])
                predict_result = data_instances.join(predicts, lambda inst, preds: [inst.label, sorted(classes_, key=str)[np.argmax(preds)],""")],
needs="a multi-class task with at least eleven numeric classes",
breaks="the predicted class is looked up in the classes sorted as text, while scores are in numeric order",
demo="""
n = 36
y = [i % 12 for i in range(n)]
g = [[float(i % 12)] for i in range(n)]
f = federation(g, [[[float(i % 12 // 4)] for i in range(n)]], y, depth=4, trees=1, lam=.01, min_gain=1e-6, preds=[(g, [[[float(i % 12 // 4)] for i in range(n)]])])
for k, v in f.preds[0].items():
    best = max(v[3], key=lambda c: v[3][c])
    check(str(v[1]) == best, "predicted class", v[1], "but the most probable is", best)
""")

# ---------------------------------------------------------------- C04
bug("c04-guest-prefers", "C04", [("ml/tree/hetero_decision_tree_guest.py",
"""        if splitinfo_guest_host[0].gain >= best_gain_host - consts.FLOAT_ZERO:""",
"""        if splitinfo_guest_host[0].gain * (1 + 1e-3) >= best_gain_host:""")],
needs="a guest and a host split whose gains differ by less than a thousandth",
breaks="the guest wins although a host's split is better by up to 0.1 percent",
demo="""
n = 400
y = [float(i >= 200) * 100 + (i % 7) for i in range(n)]
host = [[float(i)] for i in range(n)]
guest = [[float(i if i not in (199, 200) else 399 - i)] for i in range(n)]
guest = [[float(i)] for i in range(n)]
guest[199], guest[206] = guest[206], guest[199]
f = federation(guest, [host], y, task="regression", objective="lse", depth=2, trees=1, bins=200)
f2 = federation([[1.0]] * n, [[[a[0], b[0]] for a, b in zip(guest, host)]], y, task="regression", objective="lse", depth=2, trees=1, bins=200)
d = max(abs(f.F[k][0] - f2.F[k][0]) for k in f.F)
check(d < 1e-6, "scores depend on which party holds the columns, by", d)
""")

bug("c04-local-trainer", "C04", [("ml/secureprotol/encrypt_mode.py",
"""            diff = [new_val - old_val for (new_val, old_val) in zip(new_row, old_row)]
            return type(new_row)(diff)""",
"""            diff = [new_val - old_val if abs(new_val - old_val) > 1e-4 else 0 for (new_val, old_val) in zip(new_row, old_row)]
            return type(new_row)(diff)""")],
needs="fast or balance mode over several trees with a small learning rate, so that gradients change by less than 0.0001 per tree",
breaks="small gradient changes are dropped in fast mode, and the model depends on the encryption mode",
demo="""
import random
r = random.Random(3)
n = 24
host = [[r.random(), r.random()] for i in range(n)]
guest = [[1.0] for i in range(n)]
y = [1 if h[0] + .3 * r.random() > .6 else 0 for h in host]
a = federation(guest, [host], y, depth=3, trees=4, lr=1e-4, mode="fast")
b = federation(guest, [host], y, depth=3, trees=4, lr=1e-4, mode="strict")
wa = [n.weight for t in a.guest.trees_ for n in t.tree_]
wb = [n.weight for t in b.guest.trees_ for n in t.tree_]
check(len(wa) == len(wb) and max(abs(x - z) for x, z in zip(wa, wb)) < 1e-7, "leaf weights differ between encryption modes")
""")

# ---------------------------------------------------------------- C05
bug("c05-zero-grad-plain", "C05", [("ml/secureprotol/encrypt_mode.py",
"""            return type(row)(self.encrypter.encrypt(val) for val in row)""",
"""            return type(row)(self.encrypter.encrypt(val) if val else val for val in row)""")],
needs="a row whose gradient is exactly 0 (regression label equal to the initial score)",
breaks="gradients that are exactly zero are sent in the clear",
demo="""
n = 9
y = [float(i) for i in range(n)]
f = federation([[float(i)] for i in range(n)], [[[float(i % 3)] for i in range(n)]], y, task="regression", objective="lse", depth=2, trees=1, wire=True)
from computing.d_table import DTable
seen = 0
for m in f.sent:
    if isinstance(m, DTable) and m.count() == n and isinstance(m.first(), tuple) and type(m.first()[0]).__name__ != "int":
        for k, v in m.collect():
            for x in v:
                if isinstance(x, (int, float, numpy.floating)):
                    check(False, "gradient of row", k, "sent as plain number", x)
                seen += 1
check(seen, "no encrypted gradients were seen")
""")

bug("c05-node-queue", "C05", [("ml/tree/hetero_decision_tree_guest.py",
"""            mask_tree_node_queue[i] = Node(id=mask_tree_node_queue[i].id)
""",
"""            mask_tree_node_queue[i] = Node(id=mask_tree_node_queue[i].id, sum_hess=mask_tree_node_queue[i].sum_hess if dep > 0 else None)
""")],
needs="a tree deeper than one level, at the second and later levels",
breaks="the hessian sums of the open nodes are sent to the hosts in the clear from the second level on",
demo="""
n = 12
y = [i % 2 if i > 6 else 0 for i in range(n)]
f = federation([[float(i)] for i in range(n)], [[[float(i % 3)] for i in range(n)]], y, depth=3, trees=1, wire=True)
for m in f.sent:
    if isinstance(m, list) and m and type(m[0]).__name__ == "Node":
        for x in m:
            check(x.sum_grad is None and x.sum_hess is None and not x.weight, "node sums sent in the clear:", vars(x))
""")

# ---------------------------------------------------------------- C06
bug("c06-eq-bits", "C06", [("ml/secureprotol/fate_paillier.py",
"""        return self.n == other.n

    def __hash__""",
"""        return self.n.bit_length() == other.n.bit_length() and hash(self) % 2 ** 8 == hash(other) % 2 ** 8

    def __hash__""")],
needs="two different keys whose hashes agree in the last eight bits",
breaks="public keys are compared by eight bits only, ciphertexts of different keys get mixed",
demo="""
from ml.secureprotol.fate_paillier import PaillierKeypair
keys = {}
for i in range(400):
    pub, priv = PaillierKeypair.generate_keypair(64)
    h = hash(pub) % 256
    if h in keys and keys[h][0].n != pub.n:
        try:
            keys[h][0].encrypt(3) + pub.encrypt(4)
        except ValueError:
            done()
        check(False, "ciphertexts of two keys were added")
    keys[h] = pub, priv
""")

bug("c06-mul-negative-exponent", "C06", [("ml/secureprotol/fate_paillier.py",
"""        if plaintext >= self.public_key.n - self.public_key.max_int:
            # Very large plaintext, play a sneaky trick using inverses
            neg_c""",
"""        if encode.exponent < 0 and encode.encoding == 0:
            return self

        if plaintext >= self.public_key.n - self.public_key.max_int:
            # Very large plaintext, play a sneaky trick using inverses
            neg_c""")],
needs="multiplying a ciphertext by a float zero",
breaks="a ciphertext times a number whose encoding vanishes is returned unchanged",
demo="""
from ml.secureprotol.fate_paillier import PaillierKeypair
pub, priv = PaillierKeypair.generate_keypair(256)
for z in (0, 0.0, -0.0, 1e-250, 1e300 * 0):
    check(priv.decrypt(pub.encrypt(5.5) * z) == 0, "5.5 *", z)
""")

bug("c06-align", "C06", [("ml/secureprotol/fate_paillier.py",
"""        if x.exponent < y.exponent:
            x = x.increase_exponent_to(y.exponent)
        elif x.exponent > y.exponent:
            y = y.increase_exponent_to(x.exponent)
        
        return x, y
    
    def __add_scalar""",
"""        if x.exponent < y.exponent:
            x = x.increase_exponent_to(y.exponent)
        elif x.exponent - y.exponent > 30:
            y = y.increase_exponent_to(y.exponent + 30)
            y.exponent = x.exponent
        elif x.exponent > y.exponent:
            y = y.increase_exponent_to(x.exponent)
        
        return x, y
    
    def __add_scalar""")],
needs="adding a large number to a ciphertext that is finer by more than 30 hexadecimal digits",
breaks="alignment of very different exponents stops at 30 digits",
demo="""
from ml.secureprotol.fate_paillier import PaillierKeypair
pub, priv = PaillierKeypair.generate_keypair(1024)
a, b = 1e-30, 3.0
check(abs(priv.decrypt(pub.encrypt(a) + pub.encrypt(b)) - (a + b)) < 1e-9, "1e-30 + 3 =", priv.decrypt(pub.encrypt(a) + pub.encrypt(b)))
a, b = 1e-38, 2 ** 40
check(abs(priv.decrypt(pub.encrypt(a) + pub.encrypt(b)) - (a + b)) < 1e-9, "1e-38 + 2**40 =", priv.decrypt(pub.encrypt(a) + pub.encrypt(b)))
""")
