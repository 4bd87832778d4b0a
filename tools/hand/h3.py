DEFS = {
"federation/transfer_inst.py": '''
from concurrent.futures import ThreadPoolExecutor
import struct

HEADER = 16

class TransferInst:
    @staticmethod
    def send_data(cs, data):
        body = pickle.dumps(data)
        cs.sendall(str(len(body)).ljust(HEADER).encode("utf-8") + body)

    @staticmethod
    def recv_exact(cs, length):
        buf = bytearray(length)
        view = memoryview(buf)
        got = 0
        while got < length:
            n = cs.recv_into(view[got:])
            if n == 0:
                raise EOFError("connection closed after {} of {} bytes".format(got, length))
            got += n
        return bytes(buf)


class TransferInstGuest:
    def _conn(self, index):
        if 0 <= index < len(self.conns):
            return self.conns[index]
        raise ValueError("the index is out of range, there are {} conns, while the index given is {}".format(len(self.conns), index))

    def send_data_to_hosts(self, data, index: int):
        if index != -1:
            return self.send_data(self._conn(index), data)
        with ThreadPoolExecutor(max(1, len(self.conns))) as pool:
            list(pool.map(lambda conn: self.send_data(conn, data), self.conns))

    def recv_data_from_hosts(self, index):
        if index != -1:
            return self.recv_data(self._conn(index))
        with ThreadPoolExecutor(max(1, len(self.conns))) as pool:
            return list(pool.map(self.recv_data, self.conns))
''',
"ml/tree/hetero_decision_tree_host.py": '''
class HeteroDecisionTreeHost:
    @staticmethod
    def _side(value, threshold, left, right):
        return right if value > threshold else left

    @staticmethod
    def dispatch_node(value1, value2, sitename=None, decoder=None,
                      split_maskdict=None, bin_sparse_points=None,):
        state, fid, bid, owner, nid, left, right = value1
        if owner == sitename:
            fid = decoder("feature_idx", fid, split_maskdict=split_maskdict)
            bid = decoder("feature_val", bid, nid, split_maskdict=split_maskdict)
            return state, HeteroDecisionTreeHost._side(value2.features.get_data(fid, bin_sparse_points[fid]), bid, left, right)
        return value1

    @staticmethod
    def traverse_tree(predict_state, data_inst, tree_=None,
                      decoder=None, split_maskdict=None, sitename=consts.HOST):
        nid = predict_state[0]
        moved = False
        while True:
            node = tree_[nid]
            if node.sitename != sitename:
                break
            moved = True
            fid = decoder("feature_idx", node.fid, split_maskdict=split_maskdict)
            bid = decoder("feature_val", node.bid, nid, split_maskdict)
            nid = HeteroDecisionTreeHost._side(data_inst.features.get_data(fid, 0), bid, node.left_nodeid, node.right_nodeid)
        return (nid, 0) if moved else predict_state

    def fit(self):
        self.logger.info("begin to fit host decision tree")
        self.sync_encrypted_grad_and_hess()
        dep = 0
        while dep < self.max_depth:
            self.sync_tree_node_queue(dep)
            if not self.tree_node_queue:
                break
            self._fit_level(dep)
            dep += 1
        self.sync_tree()
        self.convert_bin_to_real()
        self.logger.info("end to fit guest decision tree")

    def _fit_level(self, dep):
        positions = self.sync_node_positions(dep)
        self.data_bin_with_position = self.data_bin.join(positions, lambda inst, pos: (inst, pos))
        starts = range(0, len(self.tree_node_queue), self.max_split_nodes)
        for batch, start in enumerate(starts):
            self.cur_split_nodes = self.tree_node_queue[start: start + self.max_split_nodes]
            histograms = self.get_histograms(node_map={node.id: k for k, node in enumerate(self.cur_split_nodes)})
            infos, sums = self.splitter.find_split_host(histograms, self.valid_features, self.sitename)
            self.sync_encrypted_splitinfo_host(sums, dep, batch)
            best = self.sync_federated_best_splitinfo_host(dep, batch)
            self.sync_final_splitinfo_host(infos, best, dep, batch)
        self.find_dispatch(self.sync_dispatch_node_host(dep), dep)

    def predict(self, data_inst):
        times = 0
        while self.sync_predict_finish_tag(times) is not True:
            states = self.sync_predict_data(times)
            walk = functools.partial(self.traverse_tree, tree_=self.tree_, decoder=self.decode,
                                     split_maskdict=self.split_maskdict, sitename=self.sitename)
            self.sync_data_predicted_by_host(states.join(data_inst, walk), times)
            times += 1
''',
"ml/tree/hetero_secureboosting_tree_host.py": '''
class HeteroSecureBoostingTreeHost:
    def _tree(self, i, tidx):
        tree_inst = HeteroDecisionTreeHost(self.tree_param)
        tree_inst.set_flowid(self.generate_flowid(i, tidx))
        tree_inst.set_runtime_idx(self.runtime_idx)
        tree_inst.set_transfer_inst(self.transfer_inst)
        return tree_inst

    def fit(self, data_instances):
        self.gen_feature_fid_mapping(data_instances.schema)
        self.convert_feature_to_bin(self.data_alignment(data_instances))
        self.sync_tree_dim()
        for i in range(self.num_trees):
            for tidx in range(self.tree_dim):
                tree_inst = self._tree(i, tidx)
                tree_inst.set_inputinfo(data_bin=self.data_bin, bin_split_points=self.bin_split_points, bin_sparse_points=self.bin_sparse_points)
                tree_inst.set_valid_features(self.sample_valid_features())
                tree_inst.fit()
                meta, model = tree_inst.get_model()
                self.trees_.append(model)
                self.tree_meta = meta if self.tree_meta is None else self.tree_meta
            if self.n_iter_no_change is True and self.sync_stop_flag(i):
                break

    def predict(self, data_instances, predict_param=None):
        data_instances = self.data_alignment(data_instances)
        for k in range(len(self.trees_) // self.tree_dim * self.tree_dim):
            tree_inst = self._tree(*divmod(k, self.tree_dim))
            tree_inst.load_model(self.tree_meta, self.trees_[k])
            tree_inst.predict(data_instances)
''',
"ml/tree/feateur_histogram.py": '''
class FeatureHistogram:
    @staticmethod
    def batch_calculate_histogram(kv_iterator, bin_split_points=None,
                                  bin_sparse_points=None, valid_features=None,
                                  node_map=None):
        width = bin_split_points.shape[0]
        used = [fid for fid in range(width) if valid_features is None or valid_features[fid] is not False]
        hist = [[[[0, 0, 0] for _ in range(len(bin_split_points[fid]) + 1)] if fid in used else [] for fid in range(width)]
                for _ in range(len(node_map))]
        for _, ((inst, (unleaf, nid)), (g, h)) in kv_iterator:
            if unleaf == 0 or nid not in node_map:
                continue
            node = hist[node_map[nid]]
            for fid in used:
                cell = node[fid][inst.features.get_data(fid, bin_sparse_points[fid])]
                cell[0] += g
                cell[1] += h
                cell[2] += 1
        return [hist]
''',
"ml/param/boosting_tree_param.py": '''
NUMERIC = ("int", "long", "float")
INTEGER = ("int", "long")

def one_of(value, names, what):
    if type(value).__name__ not in names:
        raise ValueError("{} {} not supported".format(what, value))

class DecisionTreeParam:
    def check(self):
        self.criterion_method = self.check_and_change_lower(self.criterion_method, ["xgboost"], "decision tree param")
        one_of(self.criterion_params, ("list",), "criterion_params")
        if not self.criterion_params:
            raise ValueError("decisition tree param's criterio_params should be non empty")
        one_of(self.criterion_params[0], NUMERIC, "criterion_params")
        for name in ("max_depth", "min_sample_split", "min_leaf_node", "max_split_nodes"):
            one_of(getattr(self, name), INTEGER, name)
        for name in ("min_impurity_split", "tol"):
            one_of(getattr(self, name), NUMERIC, name)
        if min(self.max_depth, self.max_split_nodes) < 1:
            raise ValueError("max_depth and max_split_nodes should be positive")
        one_of(self.n_iter_no_change, ("bool",), "n_iter_no_change")
        self.feature_importance_type = self.check_and_change_lower(self.feature_importance_type, ["split", "gain"], "decision tree param")
        return True
''',
}
SUBS = []
