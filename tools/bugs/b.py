bug("c04-guest-prefers", "C04", [("ml/tree/hetero_decision_tree_guest.py",
"""        if splitinfo_guest_host[0].gain >= best_gain_host - consts.FLOAT_ZERO:""",
"""        if splitinfo_guest_host[0].gain * (1 + 1e-3) >= best_gain_host:""")],
needs="a guest and a host split whose gains differ by less than a thousandth",
breaks="the guest wins although a host's split is better by up to 0.1 percent",
demo="""
n = 100
y = [float(i) for i in range(n)]
host = [[float(i)] for i in range(n)]
guest = [[float(i)] for i in range(n)]
guest[49], guest[50] = guest[50], guest[49]
kw = dict(task="regression", objective="lse", depth=2, trees=1, bins=100, lam=.01)
f = federation(guest, [host], y, **kw)
check(f.guest.trees_[0].tree_[0].sitename == "host.0", "the host's split in the middle is the best one, taken was", tree(f))
""")

# ---------------------------------------------------------------- C07
bug("c07-precision-digit", "C07", [("ml/secureprotol/fixedpoint.py",
"""                exponent = math.floor(lsb_exponent / cls.LOG2_BASE)
            else:""",
"""                exponent = math.floor((lsb_exponent - 3) / cls.LOG2_BASE) if flt_exponent > 0 else math.floor(lsb_exponent / cls.LOG2_BASE)
            else:""")],
needs="a float above 1 whose mantissa uses its last bits and whose binary exponent is not a multiple of four",
breaks="the last bits of large floats are lost in the encoding",
demo="""
from ml.secureprotol.fixedpoint import FixedPointNumber as F
import random
r = random.Random(1)
for i in range(2000):
    x = r.uniform(-1, 1) * 2 ** r.randint(-40, 40)
    d = F.encode(x).decode()
    check(abs(d - x) <= abs(x) * 2 ** -49, x, "decodes to", d)
""")

bug("c07-neg-align", "C07", [("ml/secureprotol/fixedpoint.py",
"""        if x.exponent < y.exponent:
            x = x.increase_exponent_to(y.exponent)
        elif x.exponent > y.exponent:
            y = y.increase_exponent_to(x.exponent)
        
        return x, y

    def __truncate""",
"""        if x.exponent < y.exponent:
            x = x.increase_exponent_to(y.exponent)
        elif x.exponent > y.exponent:
            y = y.increase_exponent_to(x.exponent) if y.encoding >= self.BASE or not y.encoding else self.encode(y.decode(), self.n, self.max_int, self.BASE ** -x.exponent)
            x.exponent = y.exponent
        
        return x, y

    def __truncate""")],
needs="adding a number with a one-digit mantissa to a finer one whose exponent is beyond the range of a float power",
breaks="alignment writes to the exponent of the operand",
demo="""
from ml.secureprotol.fixedpoint import FixedPointNumber as F
import random
r = random.Random(5)
for i in range(4000):
    a, b = F.encode(r.uniform(-1, 1) * 2.0 ** r.randint(-60, 3)), F.encode(r.choice([1, 2, 3, -1, 0.5, 8, 15, 16]))
    va, vb = a.decode(), b.decode()
    s = (a + b).decode()
    check(abs(s - (va + vb)) < 1e-12 and a.decode() == va and b.decode() == vb, va, "+", vb, "=", s)
""")

bug("c07-compare", "C07", [("ml/secureprotol/fixedpoint.py",
"""            y = other.decode()                      
        else:
            y = other
            
        if x >= y:
            return True""",
"""            y = other.decode()                      
        else:
            y = other
            
        if x > y or math.isclose(x, y, rel_tol=1e-12):
            return True""")],
needs="comparing two numbers that differ in their last few digits",
breaks="a number slightly below another counts as greater or equal",
demo="""
from ml.secureprotol.fixedpoint import FixedPointNumber as F
a, b = F.encode(1.0), F.encode(1.0 + 2 ** -45)
check(not (a >= b) and b >= a and a < b, "1.0 >= 1.0 + 2**-45")
""")

# ---------------------------------------------------------------- C08
bug("c08-prev-data", "C08", [("ml/secureprotol/encrypt_mode.py",
"""        self.prev_data = input_data.mapValues(lambda val: val)
        self.prev""",
"""        if self.prev_data is None or self.mode != "balance" or input_data.count() >= self.prev_data.count():
            self.prev_data = input_data.mapValues(lambda val: val)
        self.prev""")],
needs="balance mode, with a table of fewer rows encrypted after one with more, and then a further one",
breaks="the plaintexts kept do not belong to the ciphertexts kept once a table has fewer rows than the one before",
demo="""
from ml.secureprotol.encrypt import PaillierEncrypt
from ml.secureprotol.encrypt_mode import EncryptModeCalculator
from computing.d_table import DTable
e = PaillierEncrypt()
e.generate_key(256)
c = EncryptModeCalculator(e, "balance", 0.0)
for rnd in range(5):
    rows = {k: (k + rnd * .5, k * rnd) for k in range(6 - rnd)}
    t = c.encrypt(DTable(True, list(rows.items())))
    for k, v in t.collect():
        check(abs(e.decrypt(v[0]) - rows[k][0]) < 1e-9 and abs(e.decrypt(v[1]) - rows[k][1]) < 1e-9, "round", rnd, "row", k)
""")

bug("c08-balance-rate", "C08", [("ml/secureprotol/encrypt_mode.py",
"""self.gen_random_number() <= self.re_encrypted_rate + consts.FLOAT_ZERO)""",
"""self.gen_random_number() ** 2 <= self.re_encrypted_rate + consts.FLOAT_ZERO)""")],
needs="balance mode, counting how often tables are encrypted afresh",
breaks="balance mode encrypts afresh with another probability than configured",
demo="""
from ml.secureprotol.encrypt import FakeEncrypt
from ml.secureprotol.encrypt_mode import EncryptModeCalculator
from computing.d_table import DTable
n = [0]
class E(FakeEncrypt):
    def encrypt(self, v):
        n[0] += 1
        return v
import random
random.seed(7)
c = EncryptModeCalculator(E(), "balance", .25)
for i in range(2001):
    c.encrypt(DTable(True, [(0, float(i))]))
check(400 < n[0] - 1 < 600, "2000 rounds at rate 0.25 encrypted afresh", n[0] - 1, "times")
""")

# ---------------------------------------------------------------- C09
bug("c09-compress-threshold", "C09", [("ml/feature/quantile_summaries.py",
"""        # merge_threshold = math.floor(2 * self.error * self.count) - 1
        merge_threshold = 2 * self.error * self.count
        compressed""",
"""        # merge_threshold = math.floor(2 * self.error * self.count) - 1
        merge_threshold = 2 * self.error * self.count if self.count < 50 * len(self.sampled) else 8 * self.error * self.count
        compressed""")],
needs="so many values that the summary keeps fewer than a fiftieth of them, compressed again after that",
breaks="a well compressed summary is compressed beyond its error bound",
demo="""
from ml.feature.quantile_summaries import QuantileSummaries
import random
r = random.Random(2)
q = QuantileSummaries(compress_thres=50, head_size=200, error=.01)
xs = [r.random() for i in range(20000)]
for x in xs:
    q.insert(x)
xs.sort()
import bisect
for i in range(1, 100):
    rank = bisect.bisect(xs, q.query(i / 100))
    check(abs(rank - i * 200) <= 2 * .01 * 20000 + 1, "quantile", i / 100, "answered rank", rank)
""")

bug("c09-sparse-upper", "C09", [("ml/feature/quantile_summaries.py",
"""        return (quantile - self.zero_upper_bound + self.zero_lower_bound) / (
            1 - self.zero_upper_bound + self.zero_lower_bound)""",
"""        return (quantile - self.zero_upper_bound) / (1 - self.zero_upper_bound + self.zero_lower_bound) + (
            self.smaller_num > 0) * self.zero_lower_bound""")],
needs="a sparse column with negative as well as positive values, asked for a quantile above its zeros",
breaks="quantiles above the zeros are too low when there are negative values too",
demo="""
from ml.feature.quantile_summaries import SparseQuantileSummaries
q = SparseQuantileSummaries(error=.001)
xs = [-float(i) for i in range(1, 401)] + [float(i) for i in range(1, 201)]
for x in xs:
    q.insert(x)
q.compress()
q.set_total_count(1000)
full = sorted(xs + [0.0] * 400)
for p in (.1, .3, .5, .85, .9, .95):
    v = q.query(p)
    lo, hi = full.index(v) + 1, 1000 - full[::-1].index(v)
    check(lo - 10 <= p * 1000 <= hi + 10, "quantile", p, "answered", v, "of rank", lo, hi)
""")

bug("c09-abnormal-dedupe", "C09", [("ml/feature/binning/quantile_binning.py",
"""                if s_p not in split_point:
                    split_point.append(s_p)""",
"""                if not split_point or not abs(s_p - split_point[-1]) <= 1e-9 * abs(s_p):
                    split_point.append(s_p)""")],
needs="a column with distinct values that differ by less than one part in a thousand million, or quantiles that recur",
breaks="split points that nearly coincide are dropped, though they separate rows",
demo="""
from ml.feature.binning.quantile_binning import QuantileBinning
from ml.param.feature_binning_param import FeatureBinningParam
rows = [[1e6 + 1e-4 * i] for i in range(8)]
b = QuantileBinning(FeatureBinningParam(bin_num=4))
s = b.fit_split_points(table(rows))["x0"]
check(len(s) == 3, "split points of 8 distinct values in 4 bins:", s)
""")

# ---------------------------------------------------------------- C10
bug("c10-sparse-selected", "C10", [("ml/feature/binning/base_binning.py",
"""            for col_idx in transform_cols_idx:
                col_name = self.header[col_idx]
                split_points = split_points_dict[col_name]
                sparse_bin_num""",
"""            for i, col_idx in enumerate(transform_cols_idx):
                col_name = self.cols[i]
                split_points = split_points_dict[col_name]
                sparse_bin_num""")],
needs="converting a subset of the fitted columns, or in another order than fitted",
breaks="the zero bins are those of other columns when not all fitted columns are converted",
demo="""
from ml.feature.binning.quantile_binning import QuantileBinning
from ml.param.feature_binning_param import FeatureBinningParam
rows = [[float(i - 2), float(i - 7), float(i + 1)] for i in range(10)]
b = QuantileBinning(FeatureBinningParam(bin_num=5))
t = table(rows)
b.fit_split_points(t)
_, _, sp = b.convert_feature_to_bin(t, transform_cols_idx=[1, 2])
for c in (1, 2):
    want = sum(p < 0 for p in b.split_points["x%d" % c])
    check(sp[c] == want, "zero bin of column", c, "is", sp[c], "should be", want)
""")

bug("c10-dense-float", "C10", [("ml/feature/binning/base_binning.py",
"""        for bin_num, split_point in enumerate(split_points):
            if value <= split_point:
                col_bin_num = bin_num
                break""",
"""        for bin_num, split_point in enumerate(split_points):
            if value - split_point <= 1e-12:
                col_bin_num = bin_num
                break""")],
needs="a value that lies above a split point by a tiny amount",
breaks="values within 1e-12 above a split point fall into the bin below it",
demo="""
from ml.feature.binning.base_binning import Binning
check(Binning.get_bin_num(2e-13, [0.0, 1e-13, 3e-13]) == 2, "2e-13 among 0, 1e-13, 3e-13 is in bin", Binning.get_bin_num(2e-13, [0.0, 1e-13, 3e-13]))
""")

# ---------------------------------------------------------------- C11
bug("c11-zero-optim", "C11", [("ml/tree/feateur_histogram.py",
"""                if valid_features is None or valid_features[fid] is True:
                    sparse_point""",
"""                if (valid_features is None or valid_features[fid] is True) and zero_opt_node_sum[nid][2] != zero_optim[nid][fid][2] + 1:
                    sparse_point""")],
needs="a node in which exactly one row has no stored value of a column",
breaks="a single unstored zero in a node is not counted",
demo="""
from ml.tree.feateur_histogram import FeatureHistogram
from ml.feature.sparse_vector import SparseVector
from ml.feature.instance import Instance
from computing.d_table import DTable
rows = [(k, (Instance(features=SparseVector([0] if k else [], [k % 3] if k else [], 1)), (1, 0))) for k in range(5)]
gh = DTable(True, [(k, (1.0, 2.0)) for k in range(5)])
h = FeatureHistogram.accumulate_histogram(FeatureHistogram.calculate_histogram(DTable(True, rows), gh, numpy.array([[.5, 1.5]]), {0: 0}, [True], {0: 0}))
check(h[0][0][-1] == [5.0, 10.0, 5], "five rows, histogram total", h[0][0][-1])
""")

bug("c11-finished-rows", "C11", [("ml/tree/feateur_histogram.py",
"""            if unleaf_state == 0 or nodeid not in node_map:
                continue""",
"""            if nodeid not in node_map:
                continue""")],
needs="a row marked as finished (state 0) whose node number is that of an open node",
breaks="finished rows are counted in the histograms",
demo="""
from ml.tree.feateur_histogram import FeatureHistogram
from ml.feature.sparse_vector import SparseVector
from ml.feature.instance import Instance
from computing.d_table import DTable
rows = [(k, (Instance(features=SparseVector([0], [k % 3], 1)), (k % 2, 0))) for k in range(6)]
gh = DTable(True, [(k, (1.0, 2.0)) for k in range(6)])
h = FeatureHistogram.accumulate_histogram(FeatureHistogram.calculate_histogram(DTable(True, rows), gh, numpy.array([[.5, 1.5]]), {0: 0}, [True], {0: 0}))
check(h[0][0][-1][2] == 3, "three open rows, counted", h[0][0][-1][2])
""")

# ---------------------------------------------------------------- C12
bug("c12-reduce-falsy", "C12", [("computing/d_table.py",
"""            if ret_val is None:
                ret_val = v
            else:
                ret_val = func(ret_val, v)""",
"""            if not ret_val:
                ret_val = v
            else:
                ret_val = func(ret_val, v)""")],
needs="reducing with a function whose intermediate result is 0, empty or False and which is not addition-like",
breaks="reduce starts over after an intermediate result that counts as false",
demo="""
from computing.d_table import DTable
t = DTable(False, [3, 0, 5])
check(t.reduce(lambda a, b: a * b) == 0, "3 * 0 * 5 =", t.reduce(lambda a, b: a * b))
""")

bug("c12-union-alias", "C12", [("computing/d_table.py",
"""        new_dict = copy.deepcopy(self.__data)
        for k""",
"""        new_dict = copy.copy(self.__data)
        for k""")],
needs="a union whose combining function works in place on the left value (a list, an array)",
breaks="union changes the values of its left operand when the combining function updates in place",
demo="""
from computing.d_table import DTable
a, b = DTable(True, [(1, [1])]), DTable(True, [(1, [2])])
def f(x, y):
    x += y
    return x
a.union(b, f)
check(a.first() == [1], "the operand of union is now", a)
""")

bug("c12-mapreduce", "C12", [("computing/d_table.py",
"""            if k not in new_dict:
                new_dict[k] = v
            else:
                new_dict[k] = reducer(new_dict[k], v)""",
"""            if new_dict.get(k) is None:
                new_dict[k] = v
            else:
                new_dict[k] = reducer(new_dict[k], v)""")],
needs="mapReducePartitions over values some of which are None, with a reducer that handles None",
breaks="a None among the values is overwritten instead of reduced",
demo="""
from computing.d_table import DTable
t = DTable(False, [None, 4])
r = dict(t.mapReducePartitions(lambda kvs: [("k", v) for _, v in kvs], lambda a, b: (a, b)).collect())
check(r == {"k": (None, 4)}, r)
""")
