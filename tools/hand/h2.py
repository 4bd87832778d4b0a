DEFS = {
"ml/secureprotol/fate_paillier.py": '''
class PaillierPublicKey:
    def _obfuscator(self, random_value):
        r = random_value or random.SystemRandom().randrange(1, self.n)
        return gmpy_math.powmod(r, self.n, self.nsquare)

    def apply_obfuscator(self, ciphertext, random_value=None):
        return self._obfuscator(random_value) * ciphertext % self.nsquare

    def raw_encrypt(self, plaintext, random_value=None):
        if not isinstance(plaintext, int):
            raise TypeError("plaintext should be int, but got: %s" % type(plaintext))
        return self.apply_obfuscator((1 + self.n * plaintext) % self.nsquare, random_value)

    def encrypt(self, value, precision=None, random_value=None):
        encoding = FixedPointNumber.encode(value, self.n, self.max_int, precision)
        number = PaillierEncryptedNumber(self, self.raw_encrypt(encoding.encoding, random_value=random_value or 1), encoding.exponent)
        if random_value is None:
            number.apply_obfuscator()
        return number


class PaillierPrivateKey:
    def __init__(self, public_key, p, q):
        if p * q != public_key.n:
            raise ValueError("given public key does not match the given p and q")
        if p == q:
            raise ValueError("p and q have to be different")
        self.public_key = public_key
        self.p, self.q = min(p, q), max(p, q)
        self.psquare, self.qsquare = self.p ** 2, self.q ** 2
        self.q_inverse = gmpy_math.invert(self.q, self.p)
        self.hp = self.h_func(self.p, self.psquare)
        self.hq = self.h_func(self.q, self.qsquare)

    def _half(self, ciphertext, prime, square, h):
        return self.l_func(gmpy_math.powmod(ciphertext, prime - 1, square), prime) * h % prime

    def raw_decrypt(self, ciphertext):
        if not isinstance(ciphertext, int):
            raise TypeError("ciphertext should be an int, not: %s" % type(ciphertext))
        return self.crt(self._half(ciphertext, self.p, self.psquare, self.hp), self._half(ciphertext, self.q, self.qsquare, self.hq))

    def crt(self, mp, mq):
        return (self.q * ((mp - mq) * self.q_inverse % self.p) + mq) % self.public_key.n

    def decrypt(self, encrypted_number):
        if not isinstance(encrypted_number, PaillierEncryptedNumber):
            raise TypeError("encrypted_number should be an PaillierEncryptedNumber, not: %s" % type(encrypted_number))
        key = self.public_key
        if key != encrypted_number.public_key:
            raise ValueError("encrypted_number was encrypted against a different key!")
        raw = self.raw_decrypt(encrypted_number.ciphertext(be_secure=False))
        return FixedPointNumber(raw, encrypted_number.exponent, key.n, key.max_int).decode()


class PaillierEncryptedNumber:
    def __init__(self, public_key, ciphertext, exponent=0):
        if not isinstance(ciphertext, int):
            raise TypeError("ciphertext should be an int, not: %s" % type(ciphertext))
        if not isinstance(public_key, PaillierPublicKey):
            raise TypeError("public_key should be a PaillierPublicKey, not: %s" % type(public_key))
        self.public_key = public_key
        self._c = ciphertext
        self.exponent = exponent
        self._masked = False

    def ciphertext(self, be_secure=True):
        if be_secure and not self._masked:
            self.apply_obfuscator()
        return self._c

    def apply_obfuscator(self):
        self._c, self._masked = self.public_key.apply_obfuscator(self._c), True

    def __sub__(self, other):
        return self.__add__(other * -1)

    def __mul__(self, scalar):
        key = self.public_key
        encoded = FixedPointNumber.encode(scalar, key.n, key.max_int)
        k, base = encoded.encoding, self._c
        if k < 0 or k >= key.n:
            raise ValueError("Scalar out of bounds: %i" % k)
        if k >= key.n - key.max_int:
            base, k = gmpy_math.invert(base, key.nsquare), key.n - k
        return PaillierEncryptedNumber(key, gmpy_math.powmod(base, k, key.nsquare), self.exponent + encoded.exponent)

    def increase_exponent_to(self, new_exponent):
        steps = new_exponent - self.exponent
        if steps < 0:
            raise ValueError("New exponent %i should be great than old exponent %i" % (new_exponent, self.exponent))
        scaled = self * pow(FixedPointNumber.BASE, steps)
        scaled.exponent = new_exponent
        return scaled
''',
"ml/secureprotol/fixedpoint.py": '''
class FixedPointNumber:
    @classmethod
    def _exponent(cls, scalar, precision):
        if precision is not None:
            return -math.floor(math.log(precision, cls.BASE))
        if isinstance(scalar, int):
            return 0
        if isinstance(scalar, float):
            return math.floor((cls.FLOAT_MANTISSA_BITS - math.frexp(scalar)[1]) / cls.LOG2_BASE)
        raise TypeError("Don't know the precision of type %s." % type(scalar))

    @classmethod
    def encode(cls, scalar, n=None, max_int=None, precision=None, max_exponent=None):
        if isinstance(scalar, (np.integer, np.floating)):
            scalar = scalar.item()
        if -1e-200 < scalar < 1e-200:
            scalar = 0
        if n is None:
            n, max_int = cls.Q, cls.Q // 3 - 1
        exponent = cls._exponent(scalar, precision)
        if max_exponent is not None and max_exponent > exponent:
            exponent = max_exponent
        mantissa = int(round(scalar * pow(cls.BASE, exponent)))
        if mantissa > max_int or mantissa < -max_int:
            raise ValueError('Integer needs to be within +/- %d but got %d' % (max_int, mantissa))
        return cls(mantissa % n, exponent, n, max_int)

    def decode(self):
        e = self.encoding
        if e >= self.n:
            raise ValueError('Attempted to decode corrupted number')
        if self.max_int < e < self.n - self.max_int:
            raise OverflowError('Overflow detected in decode number')
        return (e if e <= self.max_int else e - self.n) * pow(self.BASE, -self.exponent)

    @staticmethod
    def _plain(x):
        return x.decode() if isinstance(x, FixedPointNumber) else x

    def __lt__(self, other):
        return bool(self.decode() < self._plain(other))

    def __gt__(self, other):
        return bool(self.decode() > self._plain(other))

    def __le__(self, other):
        return bool(self.decode() <= self._plain(other))

    def __ge__(self, other):
        return bool(self.decode() >= self._plain(other))

    def __eq__(self, other):
        return bool(self.decode() == self._plain(other))

    def __ne__(self, other):
        return bool(self.decode() != self._plain(other))

    def __truediv__(self, other):
        return self * (1 / self._plain(other))

    def __sub__(self, other):
        return self + -1 * self._plain(other)
''',
"ml/secureprotol/encrypt_mode.py": '''
def like(sample, values):
    values = list(values)
    return np.array(values) if type(sample).__name__ == "ndarray" else type(sample)(values)


def many(row):
    return type(row).__name__ == "ndarray" or isinstance(row, Iterable)


class EncryptModeCalculator:
    def encrypt_row(self, row):
        return like(row, map(self.encrypter.encrypt, row)) if many(row) else self.encrypter.encrypt(row)

    def _fresh(self):
        if self.prev_data is None or self.mode == "strict":
            return True
        return self.mode == "balance" and self.gen_random_number() <= self.re_encrypted_rate + consts.FLOAT_ZERO

    def encrypt(self, input_data):
        if self._fresh():
            new_data = input_data.mapValues(self.encrypt_row)
        else:
            diff = input_data.join(self.prev_data, self.get_differance)
            new_data = diff.join(self.prev_encrypted_data, self.add_differance)
            rubbish_clear([diff])
        rubbish_clear([self.prev_data, self.prev_encrypted_data])
        self.prev_data, self.prev_encrypted_data = (t.mapValues(lambda val: val) for t in (input_data, new_data))
        return new_data

    def get_differance(self, new_row, old_row):
        new_row, old_row = map(self.exact_row, (new_row, old_row))
        if not many(new_row):
            return new_row - old_row
        return like(new_row, (a - b for a, b in zip(new_row, old_row)))

    def add_differance(self, diff_vals, encrypted_data):
        if not many(diff_vals):
            return diff_vals + encrypted_data
        return like(diff_vals, (a + b for a, b in zip(diff_vals, encrypted_data)))
''',
"ml/feature/quantile_summaries.py": '''
class QuantileSummaries:
    def insert(self, x):
        """Insert an observation of data."""
        if x in self.abnormal_list:
            return
        try:
            self.head_sampled.append(float(x))
        except ValueError:
            return
        if len(self.head_sampled) < self.head_size:
            return
        self._insert_head_buffer()
        if len(self.sampled) >= self.compress_thres:
            self.compress()

    def _insert_head_buffer(self):
        if not self.head_sampled:
            return
        old, out, count = self.sampled, [], self.count
        head = sorted(self.head_sampled)
        pos = 0
        for k, x in enumerate(head):
            while pos < len(old) and old[pos].value <= x:
                out.append(old[pos])
                pos += 1
            count += 1
            extreme = not out or (pos == len(old) and k == len(head) - 1)
            out.append(Stats(x, 1, 0 if extreme else math.floor(2 * self.error * count)))
        self.sampled, self.head_sampled, self.count = out + old[pos:], [], count

    def compress(self):
        self._insert_head_buffer()
        self.sampled = self._compress_immut(2 * self.error * self.count)

    def query(self, quantile):
        if self.head_sampled:
            self.compress()
        if not 0 <= quantile <= 1:
            raise ValueError("Quantile should be in range [0.0, 1.0]")
        if not self.count:
            return 0
        first, last = self.sampled[0].value, self.sampled[-1].value
        if quantile <= self.error:
            return first
        if quantile >= 1 - self.error:
            return last
        rank = math.ceil(quantile * self.count)
        slack = max(s.g + s.delta for s in self.sampled) / 2
        low = 0
        for s in self.sampled[:-1]:
            low += s.g
            if low + s.delta - slack <= rank <= low + slack:
                return s.value
        return last

    def _compress_immut(self, merge_threshold):
        samples = self.sampled
        if not samples:
            return samples
        kept, head = [], samples[-1]
        for sample in reversed(samples[1:-1]):
            if sample.g + head.g + head.delta < merge_threshold:
                head.g += sample.g
            else:
                kept.append(head)
                head = sample
        kept.append(head)
        if len(samples) > 1 and samples[0].value <= head.value:
            kept.append(samples[0])
        return kept[::-1]


class SparseQuantileSummaries:
    def insert(self, x):
        if x >= consts.FLOAT_ZERO:
            self.bigger_num += 1
        elif x < consts.FLOAT_ZERO:
            self.smaller_num += 1
        super().insert(x)
''',
"ml/feature/binning/base_binning.py": '''
import bisect

class Binning:
    @staticmethod
    def get_bin_num(value, split_points):
        return int(next((i for i, point in enumerate(split_points) if value <= point), len(split_points)))

    @staticmethod
    def _convert_sparse_data(instances, transform_cols_idx, split_points_dict, header):
        cells = {i: Binning.get_bin_num(v, split_points_dict[header[i]]) if i in transform_cols_idx else v
                 for i, v in instances.features.get_all_data()}
        new_instances = copy.copy(instances)
        new_instances.features = SparseVector(list(cells.keys()), list(cells.values()), instances.features.get_shape())
        return new_instances

    @staticmethod
    def _convert_dense_data(instances, transform_cols_idx, split_points_dict, header):
        new = copy.copy(instances)
        new.features = copy.copy(instances.features)
        for i in sorted(set(transform_cols_idx)):
            new.features[i] = Binning.get_bin_num(new.features[i], split_points_dict[header[i]])
        return new

    def get_sparse_bin(self, transform_cols_idx, split_points_dict):
        return {i: self.get_bin_num(0, split_points_dict[self.header[i]]) for i in transform_cols_idx}
''',
"ml/feature/binning/quantile_binning.py": '''
class QuantileBinning:
    def fit_split_points(self, data_instances: DTable):
        self._init_cols(data_instances)
        if self.summary_dict is None:
            self.summary_dict = self._summarise(data_instances)
        width = 1.0 / self.bin_num
        rates = [i * width for i in range(1, self.bin_num)]
        self.split_points = {name: list(dict.fromkeys(summary.query(rate) for rate in rates))
                             for name, summary in self.summary_dict.items()}
        return self.split_points

    def _summarise(self, data_instances):
        is_sparse = data_overview.is_sparse_data(data_instances)
        method = functools.partial(self.approxiQuantile, params=self.params, abnormal_list=self.abnormal_list,
                                   cols_dict=self.cols_dict, header=self.header, is_sparse=is_sparse)
        summaries = data_instances.mapPartitions(method).reduce(self.merge_summary_dict)
        if is_sparse:
            for summary in summaries.values():
                summary.set_total_count(data_instances.count())
        return summaries

    @staticmethod
    def approxiQuantile(data_instances, params, cols_dict, abnormal_list, header, is_sparse) -> dict:
        kind = SparseQuantileSummaries if is_sparse else QuantileSummaries
        summary_dict = {name: kind(compress_thres=params.compress_thres, head_size=params.head_size, error=params.error,
                                   abnormal_list=abnormal_list) for name in cols_dict}
        QuantileBinning.insert_datas(data_instances, summary_dict, cols_dict, header, is_sparse)
        for summary in summary_dict.values():
            summary.compress()
        return [summary_dict]
''',
"ml/statistic/statics.py": '''
class SummaryStatistics:
    def merge(self, other):
        self.sum, self.sum_square, self.count = self.sum + other.sum, self.sum_square + other.sum_square, self.count + other.count
        self.max_value = max(self.max_value, other.max_value)
        self.min_value = min(self.min_value, other.min_value)

    @property
    def variance(self):
        mean = self.mean
        variance = self.sum_square / self.count - mean ** 2
        return 0.0 if variance < consts.FLOAT_ZERO else variance

    @property
    def std_variance(self):
        return 0.0 if abs(self.variance) < consts.FLOAT_ZERO else math.sqrt(self.variance)


class MultivariateStatisticalSummary:
    def _prepare_data(self, cols_dict, data_type):
        if not self.finish_fit_statics:
            self._static_sums()
        wanted = self.cols_dict if cols_dict is None else cols_dict
        known = ["mean", "variance", "max_value", "min_value", "std_variance"]
        return {name: getattr(self.summary_statistics[name], data_type) for name in wanted
                if name in self.cols_dict and data_type in known}

    def _get_cols_index(self):
        return [self.cols_dict[col] for col in self.cols]
''',
"ml/model_base.py": '''
def tagged(table, tag):
    if not table:
        return table
    return table.mapValues(lambda row: row + [tag])


def joined(a, b):
    if a and b:
        return a.union(b)
    return b if b and not a else a


class ModelBase:
    @staticmethod
    def _last(data_sets, kind):
        found = None
        for named in data_sets.values():
            if named.get(kind, None):
                found = named[kind]
        return found

    def _run_data(self, data_sets=None, stage=None):
        train_data, eval_data, data = (self._last(data_sets, kind) for kind in ("train_data", "eval_data", "data"))
        if not self.need_run:
            self.data_output = data
            return data
        if stage == 'cross_validation':
            self.cross_validation(train_data)
        elif stage == "one_vs_rest":
            self._run_one_vs_rest(train_data, eval_data)
        elif train_data:
            self._run_training(train_data, eval_data)
        elif eval_data:
            self.set_flowid('predict')
            self.data_output = tagged(self.predict(eval_data), "test")
            self.set_predict_data_schema(self.data_output, eval_data.schema)
        else:
            name = "fit" if stage == "fit" else "transform"
            self.set_flowid(name)
            self.data_output = getattr(self, name)(data)

    def _run_one_vs_rest(self, train_data, eval_data):
        if train_data:
            self.one_vs_rest_fit(train_data)
            self.data_output = tagged(self.one_vs_rest_predict(train_data), "train")
            if eval_data:
                self.data_output = joined(self.data_output, tagged(self.one_vs_rest_predict(eval_data), "validation"))
            self.set_predict_data_schema(self.data_output, train_data.schema)
        elif eval_data:
            self.data_output = tagged(self.one_vs_rest_predict(eval_data), "test")
            if self.data_output:
                self.set_predict_data_schema(self.data_output, eval_data.schema)

    def _run_training(self, train_data, eval_data):
        self.set_flowid('train')
        self.fit(train_data)
        self.set_flowid('predict')
        self.data_output = tagged(self.predict(train_data), "train")
        if eval_data:
            self.set_flowid('validate')
            self.data_output = joined(self.data_output, tagged(self.predict(eval_data), "validation"))
        self.set_predict_data_schema(self.data_output, train_data.schema)

    def _init_runtime_parameters(self, component_parameters):
        param = ParamExtract().parse_param_from_config(self.model_param, component_parameters)
        param.check()
        self._init_model(param)
        self.need_cv = getattr(getattr(param, "cv_param", None), "need_cv", False)
        self.need_run = getattr(param, "need_run", True)
        self.need_one_vs_rest = getattr(getattr(param, "one_vs_rest_param", None), "need_one_vs_rest", False)
''',
"ml/loss/cross_entropy.py": '''
class SigmoidBinaryCrossEntropyLoss:
    @staticmethod
    def compute_loss(y, y_prob):
        total, n = 0, 0
        for _, l in y.join(y_prob, lambda label, p: -np.nan_to_num(label * np.log(p) + (1 - label) * np.log(1 - p))).collect():
            total, n = total + l, n + 1
        return total / n

    @staticmethod
    def compute_grad(y, y_pred):
        return -(y - y_pred)

    @staticmethod
    def compute_hess(y, y_pred):
        return y_pred - y_pred * y_pred if False else (1 - y_pred) * y_pred
''',
"ml/loss/regression_loss.py": '''
def mean_table(y):
    y_inst = y.mapValues(lambda label: Instance(features=np.asarray([label])))
    y_inst.schema = {"header": ["label"]}
    mean = MultivariateStatisticalSummary(y_inst, -1).get_mean()["label"]
    return y.mapValues(lambda x: np.asarray([mean])), np.asarray([mean])


class LeastSquaredErrorLoss:
    @staticmethod
    def initialize(y):
        return mean_table(y)


class HuberLoss:
    @staticmethod
    def initialize(y):
        return mean_table(y)

    def compute_grad(self, y, y_pred):
        d = y_pred - y
        return d / np.sqrt(1.0 + (d / self.delta) ** 2)

    def compute_hess(self, y, y_pred):
        return (1.0 + ((y_pred - y) / self.delta) ** 2) ** -1.5


class FairLoss:
    @staticmethod
    def initialize(y):
        return mean_table(y)


class LogCoshLoss:
    @staticmethod
    def compute_hess(y, y_pred):
        t = np.tanh(y_pred - y)
        return 1 - t * t


class TweedieLoss:
    @staticmethod
    def initialize(y):
        return mean_table(y)

    def compute_grad(self, y, y_pred):
        a, b = np.exp(1 - self.rho), np.exp(2 - self.rho)
        return (b - y * a) * y_pred
''',
"ml/optim/convergence.py": '''
class DiffConverge:
    def is_converge(self, loss):
        previous, self.pre_loss = self.pre_loss, loss
        return previous is not None and bool(abs(previous - loss) < self.eps)


class AbsConverge:
    def is_converge(self, loss):
        return bool(loss <= self.eps)
''',
"ml/optim/activation.py": '''
def sigmoid(x):
    if x > 0:
        return 1. / (1. + np.exp(-x))
    e = np.exp(x)
    return e / (1. + e)


def softmax(x, axis=-1):
    shifted = np.exp(np.subtract(x, np.max(x, axis=axis, keepdims=True)))
    return shifted / shifted.sum(axis=axis, keepdims=True)
''',
"ml/secureprotol/encrypt.py": '''
class Encrypt:
    @staticmethod
    def _as_array(A):
        if not isinstance(A, (np.ndarray, list)):
            A = [v for _, v in A.collect()]
        A = np.array(A) if isinstance(A, list) else A
        return np.expand_dims(A, axis=0) if len(A.shape) == 1 else A

    def recursive_decrypt(self, A):
        return np.array([self.recursive_decrypt(row) if len(row.shape) >= 2 else self.decrypt_list(row)
                         for row in self._as_array(A)], dtype=np.float64)

    def recursive_encrypt(self, A):
        return np.array([self.recursive_encrypt(row) if len(row.shape) >= 2 else self.encrypt_list(row)
                         for row in self._as_array(A)])
''',
"ml/secureprotol/gmpy_math.py": '''
def powmod(a, b, c):
    if a == 1:
        return 1
    small = a < POWMOD_GMP_SIZE and b < POWMOD_GMP_SIZE and c < POWMOD_GMP_SIZE
    return pow(a, b, c) if small else int(gmpy2.powmod(a, b, c))
''',
"ml/utils/fate_operator.py": '''
def _one_dimension_dot(X, w):
    return sum(w[i] * x for i, x in enumerate(X) if not np.fabs(x) < 1e-5)


def reduce_add(x, y):
    if x is None or y is None:
        return y if x is None else x
    if isinstance(x, Iterable):
        return [acc + y[idx] for idx, acc in enumerate(x)]
    return x + y
''',
"ml/utils/param_extract.py": '''
class ParamExtract:
    def recursive_parse_param_from_config(self, param, config_json, param_parse_depth):
        if param_parse_depth > consts.PARAM_MAXDEPTH:
            raise ValueError("Param define nesting too deep!!!, can not parse it")
        for name in [n for n in param.__dict__ if n in config_json]:
            value = getattr(param, name)
            plain = value is None or type(value).__name__ in self.builtin_types
            setattr(param, name, config_json[name] if plain else
                    self.recursive_parse_param_from_config(value, config_json.get(name), param_parse_depth + 1))
        return param
''',
"ml/utils/classfiy_label_checker.py": '''
class ClassifyLabelChecker:
    @staticmethod
    def validate_y(y:DTable):
        classes = {}
        for _, part in y.mapPartitions(ClassifyLabelChecker.get_all_class).collect():
            classes.update(part)
        ClassifyLabelChecker._limit(classes)
        return len(classes), classes.keys()

    @staticmethod
    def _limit(classes):
        if len(classes) > consts.MAX_CLASSNUM:
            raise ValueError("In Classfy Task, max dif classes should no more than %d" % (consts.MAX_CLASSNUM))

    @staticmethod
    def get_all_class(kv_iterator):
        classes = dict.fromkeys((label for _, label in kv_iterator), True)
        ClassifyLabelChecker._limit(classes)
        return [classes]
''',
"i_o/utils.py": '''
def _rows(csv_address):
    with open(csv_address) as file:
        return [line.rstrip("\\n").split(',') for line in file]


def read_from_csv_with_lable(csv_address: str):
    header, *rows = _rows(csv_address)
    return (header[2:], [r[0] for r in rows], [np.array([float(v) for v in r[2:]]) for r in rows], [r[1] for r in rows])


def read_from_csv_with_no_lable(csv_address: str):
    header, *rows = _rows(csv_address)
    return header[1:], [r[0] for r in rows], [np.array([float(v) for v in r[1:]]) for r in rows]


def data_split(full_list, ratio, shuffle=False, random_seed=None):
    import random
    offset = int(len(full_list) * ratio)
    if offset < 1:
        return [], full_list
    if shuffle:
        if random_seed is not None:
            random.seed(random_seed)
        random.shuffle(full_list)
    return full_list[:offset], full_list[offset:]
''',
"ml/feature/sparse_vector.py": '''
class SparseVector:
    def get_all_data(self):
        return iter(self.sparse_vec.items())
''',
}
D = "def data_split(full_list, ratio"
SUBS = [("guest.py", "from i_o.utils import read_from_csv_with_lable", "from i_o.utils import read_from_csv_with_lable, data_split", 1),
        ("host.py", "from i_o.utils import read_from_csv_with_no_lable", "from i_o.utils import read_from_csv_with_no_lable, data_split", 1)]
# data_split itself leaves guest.py and host.py
DROP = [("guest.py", "data_split"), ("host.py", "data_split")]
