DEFS = {
"federation/transfer_inst.py": '''
import struct

class TransferInst:
    HEADER = 16

    @staticmethod
    def frame(data):
        payload = pickle.dumps(data, protocol=4)
        return str(len(payload)).rjust(TransferInst.HEADER).encode() + payload

    @staticmethod
    def send_data(cs, data):
        cs.sendall(TransferInst.frame(data))

    @staticmethod
    def recv_exact(cs, length):
        chunks, missing = [], length
        while missing > 0:
            chunk = cs.recv(min(missing, 65536))
            if len(chunk) == 0:
                raise EOFError('connection closed after {} of {} bytes'.format(length - missing, length))
            chunks.append(chunk)
            missing -= len(chunk)
        return b''.join(chunks)

    @staticmethod
    def recv_data(cs):
        header = TransferInst.recv_exact(cs, TransferInst.HEADER).decode()
        return pickle.loads(TransferInst.recv_exact(cs, int(header.strip())))


class TransferInstGuest:
    def _select(self, index):
        if index == -1:
            return list(self.conns)
        if 0 <= index < len(self.conns):
            return self.conns[index:index + 1]
        raise ValueError('the index is out of range, there are {} conns, while the index given is {}'.format(len(self.conns), index))

    def send_data_to_hosts(self, data, index: int):
        """
        send data to host according to the index
        """
        for conn in self._select(index):
            self.send_data(conn, data)

    def recv_data_from_hosts(self, index):
        """
        receive data from host according to the index
        """
        received = [self.recv_data(conn) for conn in self._select(index)]
        return received if index == -1 else received[0]


class TransferInstHost:
    def recv_data_from_guest(self):
        return self.recv_data(self.client_socket)
''',
"ml/tree/splitter.py": '''
class Splitter:
    def _admissible(self, histogram, valid_features):
        for fid, bins in enumerate(histogram):
            if valid_features[fid] is False or not bins:
                continue
            total = bins[-1]
            if total[2] < self.min_sample_split:
                return
            for bid, left in enumerate(bins):
                if left[2] >= self.min_leaf_node and total[2] - left[2] >= self.min_leaf_node:
                    yield fid, bid, left, total

    def find_split_single_histogram_guest(self, histogram, valid_features):
        best = SplitInfo(sitename=consts.GUEST, best_fid=None, best_bid=None,
                         gain=self.min_impurity_split - consts.FLOAT_ZERO, sum_grad=None, sum_hess=None)
        for fid, bid, left, total in self._admissible(histogram, valid_features):
            g_l, h_l = left[0], left[1]
            gain = self.split_gain(total[0], total[1], g_l, h_l, total[0] - g_l, total[1] - h_l)
            if gain > max(self.min_impurity_split, best.gain):
                best = SplitInfo(sitename=consts.GUEST, best_fid=fid, best_bid=bid, gain=gain, sum_grad=g_l, sum_hess=h_l)
        return best

    def find_split(self, histograms, valid_features):
        self.logger.info("splitter find split of raw data")
        return [self.find_split_single_histogram_guest(histogram, valid_features) for histogram in histograms]

    def find_split_single_histogram_host(self, histogram, valid_features, sitename):
        infos = [SplitInfo(sitename=sitename, best_fid=fid, best_bid=bid, sum_grad=left[0], sum_hess=left[1])
                 for fid, bid, left, _ in self._admissible(histogram, valid_features)]
        return infos, [(info.sum_grad, info.sum_hess) for info in infos]

    def find_split_host(self, histograms, valid_features, sitename=consts.HOST):
        self.logger.info("splitter find split of host")
        found = [self.find_split_single_histogram_host(hist, valid_features, sitename) for hist in histograms]
        return [f[0] for f in found], [f[1] for f in found]
''',
"ml/tree/feateur_histogram.py": '''
def add_into(cell, other):
    cell[0] += other[0]
    cell[1] += other[1]
    cell[2] += other[2]


class FeatureHistogram:
    @staticmethod
    def accumulate_histogram(histograms):
        for node in histograms:
            for feature in node:
                running = None
                for cell in feature:
                    if running is not None:
                        add_into(cell, running)
                    running = cell
        return histograms

    @staticmethod
    def aggregate_histogram(batch_histogram1:list, batch_histogram2:list, node_map=None):
        for n1, n2 in zip(batch_histogram1, batch_histogram2):
            for f1, f2 in zip(n1, n2):
                for c1, c2 in zip(f1, f2):
                    add_into(c1, c2)
        return batch_histogram1

    @staticmethod
    def empty_histogram(bin_split_points, valid_features):
        return [[] if valid_features is not None and valid_features[fid] is False
                else [[0, 0, 0] for _ in range(len(points) + 1)]
                for fid, points in enumerate(bin_split_points)]

    @staticmethod
    def batch_calculate_histogram(kv_iterator, bin_split_points=None,
                                  bin_sparse_points=None, valid_features=None,
                                  node_map=None):
        node_num = len(node_map)
        histograms = [FeatureHistogram.empty_histogram(bin_split_points, valid_features) for _ in range(node_num)]
        totals = [[0, 0, 0] for _ in range(node_num)]
        explicit = [[[0, 0, 0] for _ in range(bin_split_points.shape[0])] for _ in range(node_num)]
        for _, ((instance, (open_, node_id)), (g, h)) in kv_iterator:
            if open_ == 0 or node_id not in node_map:
                continue
            nid = node_map[node_id]
            one = (g, h, 1)
            add_into(totals[nid], one)
            for fid, bid in instance.features.get_all_data():
                if valid_features is None or valid_features[fid]:
                    add_into(histograms[nid][fid][bid], one)
                    add_into(explicit[nid][fid], one)
        for nid in range(node_num):
            for fid, sparse_point in ((f, bin_sparse_points[f]) for f in range(bin_split_points.shape[0])):
                if valid_features is None or valid_features[fid] is True:
                    rest = [t - e for t, e in zip(totals[nid], explicit[nid][fid])]
                    add_into(histograms[nid][fid][sparse_point], rest)
        return [histograms]
''',
"computing/d_table.py": '''
class DTable:
    @staticmethod
    def _checked(data):
        rows = {}
        for item in data:
            if not (isinstance(item, tuple) and len(item) == 2):
                raise TypeError('every element in data should be a Tuper[Object, Object] while include_key = True !')
            key, value = item
            if key in rows:
                raise ValueError('the param data has duplicate key: {}'.format(key))
            rows[key] = value
        return rows

    def __init__(self, include_key: bool, data: typing.List=None) -> None:
        super().__init__()
        if data is None:
            self.__rows = {}
            return
        if not isinstance(include_key, bool):
            raise TypeError('the param inculde_key should be a bool !')
        if not isinstance(data, typing.List):
            raise TypeError('the param data should be a List, while the input type is {} !'.format(type(data)))
        self.__rows = self._checked(data) if include_key else dict(enumerate(data))

    def __str__(self) -> str:
        return str(self.schema) + '\\n' + str(self.__rows)

    def collect(self, **kargs) -> typing.Iterator:
        return self.__rows.items()

    def take(self, n: int=1, **kargs) -> list:
        return [kv for i, kv in enumerate(self.__rows.items()) if i < n]

    def first(self, **kargs):
        return next(iter(self.__rows.values()), None)

    def count(self) -> int:
        return len(self.__rows)

    def map(self, func: typing.Callable) -> 'CTableABC':
        return DTable(True, [(k, func(k, v)) for k, v in self.__rows.items()])

    def mapValues(self, func: typing.Callable):
        return DTable(True, [(k, func(v)) for k, v in self.__rows.items()])

    def mapPartitions(self, func: typing.Callable):
        return DTable(False, func(self.__rows.items()))

    def mapReducePartitions(self, mapper: typing.Callable, reducer: typing.Callable, **kargs):
        folded = {}
        for k, v in mapper(self.__rows.items()):
            folded[k] = reducer(folded[k], v) if k in folded else v
        return DTable(True, [kv for kv in folded.items()])

    def reduce(self, func: typing.Callable):
        values = iter(self.__rows.values())
        acc = None
        for v in values:
            acc = v if acc is None else func(acc, v)
        return acc

    def filter(self, func: typing.Callable):
        return DTable(True, [(k, v) for k, v in self.__rows.items() if func(k, v) == True])

    def join(self, other, func: typing.Callable=lambda v1, v2: v1):
        mine = self.__rows
        return DTable(True, [(k, func(mine[k], v)) for k, v in other.collect() if k in mine])

    def union(self, other, func: typing.Callable=lambda v1, v2: v1):
        merged = copy.deepcopy(self.__rows)
        for k, v in other.collect():
            merged[k] = func(merged[k], v) if k in merged else v
        return DTable(True, [kv for kv in merged.items()])

    def subtractByKey(self, other):
        gone = other.get_keys()
        return DTable(True, [kv for kv in self.__rows.items() if kv[0] not in gone])

    def get_keys(self) -> typing.KeysView:
        return self.__rows.keys()

    def get_kvs(self) -> typing.ItemsView:
        return self.__rows.items()

    def get_values(self) ->typing.ValuesView:
        return self.__rows.values()
''',
"ml/tree/hetero_decision_tree_guest.py": '''
class HeteroDecisionTreeGuest:
    def update_feature_importance(self, splitinfo):
        if self.feature_importance_type not in ("split", "gain"):
            raise ValueError("feature importance type {} not support yet".format(self.feature_importance_type))
        inc = 1 if self.feature_importance_type == "split" else splitinfo.gain
        key = (splitinfo.sitename, splitinfo.best_fid)
        self.feature_importances_[key] = self.feature_importances_.get(key, 0) + inc

    def _child(self, nid, grad, hess):
        return Node(id=nid, sitename=consts.GUEST, sum_grad=grad, sum_hess=hess, weight=self.splitter.node_weight(grad, hess))

    def update_tree_node_queue(self, splitinfos, max_depth_reach):
        self.logger.info("update tree node")
        children = []
        for node, info in zip(self.tree_node_queue, splitinfos) if splitinfos else ((n, None) for n in self.tree_node_queue):
            if max_depth_reach or not info.gain > self.min_impurity_split + consts.FLOAT_ZERO:
                node.is_leaf = True
                self.tree_.append(node)
                continue
            first = self.tree_node_num + 1
            node.left_nodeid, node.right_nodeid = first, first + 1
            self.tree_node_num = first + 1
            children += [self._child(first, info.sum_grad, info.sum_hess),
                         self._child(first + 1, node.sum_grad - info.sum_grad, node.sum_hess - info.sum_hess)]
            node.sitename = info.sitename
            mine = node.sitename == consts.GUEST
            node.fid = self.encode("feature_idx", info.best_fid) if mine else info.best_fid
            node.bid = self.encode("feature_val", info.best_bid, node.id) if mine else info.best_bid
            self.update_feature_importance(info)
            self.tree_.append(node)
        self.tree_node_queue = children

    def find_host_split(self, value):
        node, candidates = value
        best_idx, best_gain = -1, self.min_impurity_split - consts.FLOAT_ZERO
        for i, (enc_g, enc_h) in enumerate(candidates):
            g_l, h_l = self.decrypt(enc_g), self.decrypt(enc_h)
            gain = self.splitter.split_gain(node.sum_grad, node.sum_hess, g_l, h_l, node.sum_grad - g_l, node.sum_hess - h_l)
            if gain > best_gain and gain > self.min_impurity_split:
                best_idx, best_gain = i, gain
        return best_idx, self.encrypt(best_gain)

    def federated_find_split(self, dep=-1, batch=-1):
        per_host = self.sync_encrypted_splitinfo_host(dep, batch)
        best = [[self.find_host_split(pair) for pair in zip(self.cur_split_nodes, infos)] for infos in per_host]
        for i in reversed(range(len(best))):
            self.sync_federated_best_splitinfo_host(best[i], dep, batch, i)

    def sync_tree_node_queue(self, tree_node_queue, dep=-1):
        self.transfer_inst.send_data_to_hosts([Node(id=node.id) for node in tree_node_queue], -1)

    def convert_bin_to_real(self):
        for node in self.tree_:
            if node.is_leaf is True or node.sitename != consts.GUEST:
                continue
            fid = self.decode("feature_idx", node.fid, split_maskdict=self.split_maskdict)
            bid = self.decode("feature_val", node.bid, node.id, self.split_maskdict)
            node.bid = self.encode("feature_val", self.bin_split_points[fid][bid], node.id)

    @staticmethod
    def dispatch_node(value, tree_=None, decoder=None,
                      split_maskdict=None, bin_sparse_points=None):
        instance, (_, nodeid) = value
        node = tree_[nodeid]
        if node.is_leaf is True:
            return node.weight
        if node.sitename != consts.GUEST:
            return (1, node.fid, node.bid, node.sitename, nodeid, node.left_nodeid, node.right_nodeid)
        fid = decoder("feature_idx", node.fid, split_maskdict=split_maskdict)
        bid = decoder("feature_val", node.bid, nodeid, split_maskdict)
        goes_left = instance.features.get_data(fid, bin_sparse_points[fid]) <= bid
        return (1, node.left_nodeid if goes_left else node.right_nodeid)

    def redispatch_node(self, dep=-1):
        method = functools.partial(self.dispatch_node, tree_=self.tree_, decoder=self.decode,
                                   split_maskdict=self.split_maskdict, bin_sparse_points=self.bin_sparse_points)
        moved = self.data_bin_with_node_dispatch.mapValues(method)
        leaf = moved.filter(lambda k, v: not isinstance(v, tuple))
        hosts = moved.filter(lambda k, v: isinstance(v, tuple) and len(v) > 2)
        here = moved.filter(lambda k, v: isinstance(v, tuple) and len(v) == 2)
        self.predict_weights = leaf if self.predict_weights is None else self.predict_weights.union(leaf)
        self.sync_dispatch_node_host(hosts, dep)
        answers = self.sync_dispatch_node_host_result(dep)
        merged = functools.reduce(lambda a, b: a.join(b, lambda v1, v2: v1 if len(v1) == 2 else v2), answers) if answers else None
        self.node_dispatch = here if merged is None else merged.union(here)

    def find_best_split_guest_and_host(self, splitinfo_guest_host):
        guest, hosts = splitinfo_guest_host[0], splitinfo_guest_host[1:]
        gains = [self.decrypt(h.gain) for h in hosts]
        top = max(range(len(gains)), key=lambda i: gains[i])
        if guest.gain >= gains[top] - consts.FLOAT_ZERO:
            return guest
        chosen = hosts[top]
        chosen.sum_grad, chosen.sum_hess = self.decrypt(chosen.sum_grad), self.decrypt(chosen.sum_hess)
        chosen.gain = gains[top]
        return chosen

    def merge_splitinfo(self, splitinfo_guest, splitinfo_host):
        rows = [[info] + [h[i] for h in splitinfo_host] for i, info in enumerate(splitinfo_guest)]
        return [self.find_best_split_guest_and_host(row) for row in rows]

    @staticmethod
    def traverse_tree(predict_state, data_inst, tree_=None,
                      decoder=None, split_maskdict=None):
        nid = predict_state[0]
        node = tree_[nid]
        while node.sitename == consts.GUEST:
            if node.is_leaf is True:
                return node.weight
            fid = decoder("feature_idx", node.fid, split_maskdict=split_maskdict)
            bid = decoder("feature_val", node.bid, nid, split_maskdict)
            nid = node.left_nodeid if data_inst.features.get_data(fid, 0) <= bid else node.right_nodeid
            node = tree_[nid]
        return nid, 1

    def predict(self, data_instances):
        step = functools.partial(self.traverse_tree, tree_=self.tree_, decoder=self.decode, split_maskdict=self.split_maskdict)
        pending = data_instances.mapValues(lambda data_inst: (0, 1))
        result, times = None, 0
        while True:
            pending = pending.join(data_instances, step)
            done = pending.filter(lambda key, value: not isinstance(value, tuple))
            result = done if result is None else result.union(done)
            pending = pending.subtractByKey(done)
            finished = pending.count() == 0
            self.sync_predict_finish_tag(finished, times)
            if finished:
                return result
            self.sync_predict_data(pending, times)
            for answer in self.sync_data_predicted_by_host(times):
                pending = pending.join(answer, lambda a, b: a if a[1] == 0 else b)
            times += 1
''',
"ml/tree/hetero_decision_tree_host.py": '''
class HeteroDecisionTreeHost:
    def sync_final_splitinfo_host(self, splitinfo_host, federated_best_splitinfo_host, dep=-1, batch=-1):
        self.transfer_inst.send_data_to_guest([
            self._final(node, infos, best) for node, infos, best in
            zip(self.cur_split_nodes, splitinfo_host, federated_best_splitinfo_host)])

    def _final(self, node, infos, best):
        idx, gain = best
        if idx == -1:
            return SplitInfo(sitename=self.sitename, best_fid=-1, best_bid=-1, gain=gain)
        info = infos[idx]
        assert info.sitename == self.sitename
        info.best_fid = self.encode("feature_idx", info.best_fid)
        assert info.best_fid is not None
        info.best_bid = self.encode("feature_val", info.best_bid, node.id)
        info.gain = gain
        return info

    def remove_duplicated_split_nodes(self, split_nid_used):
        used = set(split_nid_used)
        self.split_maskdict = {nid: v for nid, v in self.split_maskdict.items() if nid in used}
''',
"ml/tree/hetero_secureboosting_tree_guest.py": '''
class HeteroSecureBoostingTreeGuest:
    def _grow(self, i, tidx):
        tree = HeteroDecisionTreeGuest(self.tree_param)
        tree.set_inputinfo(self.data_bin, self.get_grad_and_hess(tidx), self.bin_split_points, self.bin_sparse_points)
        tree.set_valid_features(self.sample_valid_features())
        tree.set_encrypter(self.encrypter)
        tree.set_encrypted_mode_calculator(self.encrypted_calculator)
        tree.set_flowid(self.generate_flowid(i, tidx))
        tree.set_transfer_inst(self.transfer_inst)
        tree.fit()
        meta, param = tree.get_model()
        self.trees_.append(param)
        if self.tree_meta is None:
            self.tree_meta = meta
        self.update_f_value(new_f=tree.predict_weights, tidx=tidx)
        self.update_feature_importance(tree.get_feature_importance())

    def fit(self, data_instances:DTable):
        self.gen_feature_fid_mapping(data_instances.schema)
        self.convert_feature_to_bin(self.data_alignment(data_instances))
        self.set_y()
        self.update_f_value()
        self.generate_encrypter()
        self.sync_tree_dim()
        for i in range(self.num_trees):
            self.compute_grad_and_hess()
            for tidx in range(self.tree_dim):
                self._grow(i, tidx)
            self.history_loss.append(self.compute_loss())
            if self.n_iter_no_change is True:
                stop = self.check_convergence(self.history_loss[-1])
                self.sync_stop_flag(bool(stop), i)
                if stop:
                    break

    def check_convergence(self, loss):
        if self.convegence is None:
            self.convegence = DiffConverge(eps=self.tol)
        return self.convegence.is_converge(loss)

    @staticmethod
    def accumulate_f(f_val, new_f_val, lr=0.1, idx=0):
        f_val[idx] = f_val[idx] + lr * new_f_val
        return f_val

    def predict_f_value(self, data_instances:DTable):
        self.F = data_instances.mapValues(lambda v: copy.deepcopy(self.init_score))
        for j, param in enumerate(self.trees_[:len(self.trees_) // self.tree_dim * self.tree_dim]):
            i, tidx = divmod(j, self.tree_dim)
            tree = HeteroDecisionTreeGuest(self.tree_param)
            tree.load_model(self.tree_meta, param)
            tree.set_flowid(self.generate_flowid(i, tidx))
            tree.set_transfer_inst(self.transfer_inst)
            self.update_f_value(new_f=tree.predict(data_instances), tidx=tidx)

    def _binary_row(self, inst, pred):
        label = self.classes_[1] if pred > self.predict_param.threshold else self.classes_[0]
        return [inst.label, label, pred, {"0": 1 - pred, "1": pred}]

    def _multi_row(self, inst, preds):
        best = int(np.argmax(preds))
        return [inst.label, self.classes_[best], preds[best], {str(c): p for c, p in zip(self.classes_, preds)}]

    def predict(self, data_instances:DTable):
        data_instances = self.data_alignment(data_instances)
        self.predict_f_value(data_instances)
        if self.task_type == consts.CLASSIFICATION:
            if self.num_classes == 2:
                return data_instances.join(self.F, lambda inst, f: self._binary_row(inst, float(self.loss.predict(f))))
            return data_instances.join(self.F, lambda inst, f: self._multi_row(inst, self.loss.predict(f).tolist()))
        if self.task_type != consts.REGRESSION:
            raise NotImplementedError("task type {} not supported yet".format(self.task_type))
        if self.objective_param.objective not in ["lse", "lae", "huber", "log_cosh", "fair", "tweedie"]:
            raise NotImplementedError("objective {} not supprted yet".format(self.objective_param.objective))
        return data_instances.join(self.F, lambda inst, f: [inst.label, float(f), float(f), {"label": float(f)}])
''',
"ml/tree/creterion.py": '''
class XgboostCriterion:
    def split_gain(self, node_sum:list, left_node_sum:list, right_node_sum:list):
        before = self.node_gain(*node_sum)
        return self.node_gain(*left_node_sum) + self.node_gain(*right_node_sum) - before

    def node_gain(self, sum_grad:float, sum_hess:float):
        return sum_grad ** 2 / (self.reg_lambda + sum_hess)

    def node_weight(self, sum_grad:float, sum_hess:float):
        return -(sum_grad / (sum_hess + self.reg_lambda))
''',
"ml/tree/boosting_tree.py": '''
class BoostingTree:
    @staticmethod
    def data_format_transform(row):
        if type(row.features).__name__ == consts.SPARSE_VECTOR:
            return row
        kept = [(i, x) for i, x in enumerate(row.features) if not np.abs(x) < consts.FLOAT_ZERO]
        new = copy.copy(row)
        new.features = SparseVector([i for i, _ in kept], [x for _, x in kept], len(row.features))
        return new

    def data_alignment(self, data_instances:DTable):
        abnormal_detection.empty_table_detection(data_instances)
        aligned = data_instances.mapValues(BoostingTree.data_format_transform)
        aligned.schema = data_instances.schema
        return aligned
''',
}
