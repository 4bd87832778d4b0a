"""Shared by the demonstrations: imports the code from the current directory, and runs small federations on loopback sockets."""
import logging
import os
import sys
import threading
import time
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
sys.dont_write_bytecode = True
for _p in (REPO, HERE):
    sys.path.insert(0, _p)
sys.path.append("/opt/venv/lib/python3.12/site-packages")
import numpy  # noqa
import compat  # noqa

compat.install(REPO)
warnings.simplefilter("ignore")
numpy.seterr(all="ignore")
logging.disable(logging.CRITICAL)
_out = os.dup(1)
sys.stdout = open(os.devnull, "w")


def say(*a):
    os.write(_out, (" ".join(map(str, a)) + "\n").encode())


def check(cond, *msg):
    if not cond:
        say("BROKEN:", *msg)
        os._exit(1)


def done():
    say("ok")
    os._exit(0)


def table(rows, keys=None, y=None, header=None, sid=None):
    from computing.d_table import DTable
    from ml.feature.instance import Instance
    keys = list(range(len(rows))) if keys is None else keys
    t = DTable(True, [(k, Instance(inst_id=k, features=numpy.array(r, dtype=float), label=None if y is None else y[j]))
                      for j, (k, r) in enumerate(zip(keys, rows))])
    t.schema["header"] = header or ["x%d" % j for j in range(len(rows[0]))]
    if sid:
        t.schema["sid_name"] = sid
    return t


def param(task="classification", objective="cross_entropy", oparams=None, lr=.3, trees=2, bins=32, depth=3, subsample=1.0, lam=.1,
          stop=False, tol=1e-4, mode="strict", rate=1, min_leaf=1, min_sample=2, min_gain=1e-3, max_nodes=65536, imp="split", threshold=.5, key=512):
    from ml.param.boosting_tree_param import BoostingTreeParam, ObjectiveParam
    p = BoostingTreeParam()
    p.task_type, p.objective_param = task, ObjectiveParam(objective, oparams)
    p.learning_rate, p.num_trees, p.bin_num, p.subsample_feature_rate = lr, trees, bins, subsample
    p.n_iter_no_change, p.tol = stop, tol
    p.encrypt_param.key_length = key
    p.encrypted_mode_calculator_param.mode, p.encrypted_mode_calculator_param.re_encrypted_rate = mode, rate
    p.predict_param.threshold = threshold
    t = p.tree_param
    t.criterion_params, t.max_depth, t.min_leaf_node, t.min_sample_split = [lam], depth, min_leaf, min_sample
    t.min_impurity_split, t.max_split_nodes, t.feature_importance_type = min_gain, max_nodes, imp
    return p


class Fed:
    pass


def federation(guest, hosts, y, preds=(), keys=None, hkeys=None, ridx=None, seconds=120, wire=False, **kw):
    """Train on the guest's and hosts' rows, then predict each of preds = (guest rows, [host rows], keys)."""
    import socket
    from federation.transfer_inst import TransferInst, TransferInstGuest, TransferInstHost
    from ml.tree.hetero_secureboosting_tree_guest import HeteroSecureBoostingTreeGuest
    from ml.tree.hetero_secureboosting_tree_host import HeteroSecureBoostingTreeHost
    f = Fed()
    f.hosts, f.preds, f.errors, f.sent = [None] * len(hosts), [], [], []
    if wire:
        orig = TransferInst.send_data

        def send(cs, data):
            f.sent.append(data)
            return orig(cs, data)
        TransferInst.send_data = staticmethod(send)
    s = socket.socket()
    s.bind(("", 0))
    port = s.getsockname()[1]
    s.close()
    turn = [0]

    def run(fn, *a):
        try:
            fn(*a)
        except BaseException:  # noqa
            import traceback
            f.errors.append(traceback.format_exc())

    def g():
        tr = TransferInstGuest(port, len(hosts))
        m = f.guest = HeteroSecureBoostingTreeGuest()
        m.model_param = param(**kw)
        m._init_model(m.model_param)
        m.set_transfer_inst(tr)
        f.table = table(guest, keys, y)
        m.fit(f.table)
        f.F = {k: [float(x) for x in numpy.atleast_1d(v)] for k, v in m.F.collect()}
        for p in preds:
            f.preds.append(dict(m.predict(table(p[0], p[2] if len(p) > 2 else None, p[3] if len(p) > 3 else None)).collect()))

    def h(i):
        end = time.time() + 20
        while True:
            try:
                if turn[0] != i:
                    raise OSError
                tr = TransferInstHost("127.0.0.1", port)
                break
            except OSError:
                if time.time() > end:
                    raise
                time.sleep(.01)
        turn[0] += 1
        m = f.hosts[i] = HeteroSecureBoostingTreeHost()
        m.model_param = param(**kw)
        m._init_model(m.model_param)
        m.set_transfer_inst(tr)
        m.set_runtime_idx(ridx[i] if ridx else i)
        hk = hkeys[i] if hkeys else keys
        rows = hosts[i]
        if hkeys:
            pos = {k: j for j, k in enumerate(keys)}
            rows = [rows[pos[k]] for k in hk]
        m.fit(table(rows, hk))
        for p in preds:
            m.predict(table(p[1][i], p[2] if len(p) > 2 else None))
    ts = [threading.Thread(target=run, args=(g,), daemon=True)] + [threading.Thread(target=run, args=(h, i), daemon=True) for i in range(len(hosts))]
    for t in ts:
        t.start()
    end = time.time() + seconds
    while any(t.is_alive() for t in ts) and time.time() < end and not f.errors:
        time.sleep(.01)
    check(not f.errors, "a party failed:", f.errors[:1])
    check(not any(t.is_alive() for t in ts), "the session did not end")
    return f


def tree(f, t=0):
    return [(n.id, n.sitename, n.fid, n.is_leaf, n.left_nodeid, n.right_nodeid, n.weight) for n in f.guest.trees_[t].tree_]
