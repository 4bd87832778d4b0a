From 2dc3f65db5e207fa2d42e93a0cc1e9fa129d0aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:50 +0000
Subject: [PATCH 01/36] fix: receive whole message headers and fail on a closed
 connection instead of misframing or spinning

---
 federation/transfer_inst.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/federation/transfer_inst.py b/federation/transfer_inst.py
index 0d1d7b0..b38bd3b 100644
--- a/federation/transfer_inst.py
+++ b/federation/transfer_inst.py
@@ -20,6 +20,17 @@ class TransferInst:
 
         cs.sendall(byteStream)
     
+    @staticmethod
+    def recv_exact(cs, length):
+        # recv may return less than what is asked for, and returns b'' once the peer has closed
+        buf = b''
+        while len(buf) < length:
+            more = cs.recv(length - len(buf))
+            if not more:
+                raise EOFError('connection closed after {} of {} bytes'.format(len(buf), length))
+            buf = buf + more
+        return buf
+
     @staticmethod
     def recv_data(cs):
         # msg = cs.recv(1024)
@@ -33,16 +44,9 @@ class TransferInst:
         #     full_msg = full_msg + more
         #     nowsize += len(more)
 
-        msg = cs.recv(16)
-        length = int(msg[:16])
+        length = int(TransferInst.recv_exact(cs, 16))
         # LOGGER.debug('len of recv_msg is {}'.format(length))
-        full_msg = b''
-        nowsize = len(full_msg)
-        while nowsize < length:
-            more = cs.recv(length - nowsize)
-            full_msg = full_msg + more
-            nowsize += len(more)
-
+        full_msg = TransferInst.recv_exact(cs, length)
         # LOGGER.debug('true len of recv_msg is {}'.format(length))
         return pickle.loads(full_msg)
 
-- 
2.43.0


From 1d679a8eb87429e4e6b5c0066eb4bb29d98c10de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:01 +0000
Subject: [PATCH 02/36] fix: statistics partition functions return the list
 DTable.mapPartitions expects

---
 ml/statistic/statics.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ml/statistic/statics.py b/ml/statistic/statics.py
index 35ed40e..ea8a960 100644
--- a/ml/statistic/statics.py
+++ b/ml/statistic/statics.py
@@ -182,7 +182,7 @@ class MultivariateStatisticalSummary(object):
 
         Returns
         -------
-        Dict of SummaryStatistics object
+        List with one dict of SummaryStatistics object, what DTable.mapPartitions expects
 
         """
         summary_statistic_dict = {}
@@ -200,7 +200,7 @@ class MultivariateStatisticalSummary(object):
                 stat_obj = summary_statistic_dict[col_name]
                 stat_obj.add_value(value)
 
-        return summary_statistic_dict
+        return [summary_statistic_dict]
 
     @staticmethod
     def static_summaries_in_partition(data_instances, cols_dict, abnormal_list):
@@ -220,7 +220,7 @@ class MultivariateStatisticalSummary(object):
 
         Returns
         -------
-        Dict of SummaryStatistics object
+        List with one dict of SummaryStatistics object, what DTable.mapPartitions expects
 
         """
         summary_dict = {}
@@ -238,7 +238,7 @@ class MultivariateStatisticalSummary(object):
                 summary_obj = summary_dict[col_name]
                 summary_obj.insert(value)
 
-        return summary_dict
+        return [summary_dict]
 
     @staticmethod
     def aggregate_statics(s_dict1, s_dict2):
-- 
2.43.0


From 163491d39a09c4554211034924ca76acf4fe6ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:01 +0000
Subject: [PATCH 03/36] fix: fit_split_points returns the split points, as
 documented and as get_median needs

---
 ml/feature/binning/quantile_binning.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ml/feature/binning/quantile_binning.py b/ml/feature/binning/quantile_binning.py
index 3c50679..8046283 100644
--- a/ml/feature/binning/quantile_binning.py
+++ b/ml/feature/binning/quantile_binning.py
@@ -67,6 +67,7 @@ class QuantileBinning(Binning):
                     split_point.append(s_p)
             split_points[col_name] = split_point
         self.split_points = split_points
+        return split_points
 
     @staticmethod
     def approxiQuantile(data_instances, params, cols_dict, abnormal_list, header, is_sparse) -> dict:
-- 
2.43.0


From d5e1da285e7b2ededaed2482e645f64d6afcbc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:01 +0000
Subject: [PATCH 04/36] fix: log-cosh loss starts from the label mean, not from
 the dict holding it

---
 ml/loss/regression_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/loss/regression_loss.py b/ml/loss/regression_loss.py
index 450c8db..fc9fe10 100644
--- a/ml/loss/regression_loss.py
+++ b/ml/loss/regression_loss.py
@@ -179,7 +179,7 @@ class LogCoshLoss(object):
         y_inst = y.mapValues(lambda label: Instance(features=np.asarray([label])))
         y_inst.schema = {"header": ["label"]}
         statistics = MultivariateStatisticalSummary(y_inst, -1)
-        mean = statistics.get_mean()
+        mean = statistics.get_mean()["label"]
         return y.mapValues(lambda x: np.asarray([mean])), np.asarray([mean])
 
     @staticmethod
-- 
2.43.0


From 6bf875a6f52a85281c9033f58f5d4a8427337bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:01 +0000
Subject: [PATCH 05/36] fix: FairLoss(None) refers to consts, not to an
 undefined name

---
 ml/loss/regression_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/loss/regression_loss.py b/ml/loss/regression_loss.py
index fc9fe10..3ef6fc7 100644
--- a/ml/loss/regression_loss.py
+++ b/ml/loss/regression_loss.py
@@ -146,7 +146,7 @@ class FairLoss(object):
 
     def __init__(self, c):
         if c is None:
-            self.c = const.FLOAT_ZERO
+            self.c = consts.FLOAT_ZERO
         else:
             self.c = c
 
-- 
2.43.0


From 0c9f30fa154201f3c210a6eef635da82b4ff2107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:01 +0000
Subject: [PATCH 06/36] fix: least-absolute-error gradient is 0 at a zero
 residual, not -1

---
 ml/loss/regression_loss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml/loss/regression_loss.py b/ml/loss/regression_loss.py
index 3ef6fc7..1ef933e 100644
--- a/ml/loss/regression_loss.py
+++ b/ml/loss/regression_loss.py
@@ -76,7 +76,7 @@ class LeastAbsoluteErrorLoss(object):
         if type(y).__name__ == "ndarray" or type(y_pred).__name__ == "ndarray":
             diff = y_pred - y
             diff[diff > consts.FLOAT_ZERO] = 1
-            diff[diff < consts.FLOAT_ZERO] = -1
+            diff[diff < -consts.FLOAT_ZERO] = -1
             diff[np.abs(diff) <= consts.FLOAT_ZERO] = 0
 
             return diff
@@ -84,7 +84,7 @@ class LeastAbsoluteErrorLoss(object):
             diff = y_pred - y
             if diff > consts.FLOAT_ZERO:
                 return 1
-            elif diff < consts.FLOAT_ZERO:
+            elif diff < -consts.FLOAT_ZERO:
                 return -1
             else:
                 return 0
-- 
2.43.0


From 1ecc4faef40521127f6819d85abc3d85227e96e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:00 +0000
Subject: [PATCH 07/36] fix: training leaves the caller's instances as they
 were, so a table can be predicted after it was fitted

---
 ml/feature/binning/base_binning.py | 11 ++++++++---
 ml/tree/boosting_tree.py           |  3 +++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/ml/feature/binning/base_binning.py b/ml/feature/binning/base_binning.py
index c433b9d..11d7937 100644
--- a/ml/feature/binning/base_binning.py
+++ b/ml/feature/binning/base_binning.py
@@ -1,3 +1,4 @@
+import copy
 import functools
 import math
 
@@ -133,12 +134,16 @@ class Binning:
                 sparse_value.append(col_value)
 
         sparse_vector = SparseVector(indice, sparse_value, data_shape)
-        instances.features = sparse_vector
-        return instances
+        # the caller's instance keeps its raw values
+        new_instances = copy.copy(instances)
+        new_instances.features = sparse_vector
+        return new_instances
 
     @staticmethod
     def _convert_dense_data(instances, transform_cols_idx, split_points_dict, header):
-        features = instances.features
+        # the caller's instance keeps its raw values
+        instances = copy.copy(instances)
+        features = copy.copy(instances.features)
         for col_idx, col_value in enumerate(features):
             if col_idx in transform_cols_idx:
                 col_name = header[col_idx]
diff --git a/ml/tree/boosting_tree.py b/ml/tree/boosting_tree.py
index 7e00998..42bb0a0 100644
--- a/ml/tree/boosting_tree.py
+++ b/ml/tree/boosting_tree.py
@@ -1,4 +1,6 @@
 
+import copy
+
 from computing.d_table import DTable
 import numpy as np
 from ml.param.boosting_tree_param import BoostingTreeParam
@@ -62,6 +64,7 @@ class BoostingTree(ModelBase):
                 indices.append(i)
                 data.append(row.features[i])
 
+            row = copy.copy(row)  # the caller's instance keeps its raw values
             row.features = SparseVector(indices, data, feature_shape)
 
         return row
-- 
2.43.0


From 9d01ac88c88edf7e3cf7c3b9c5ba1eda8a74d7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:00 +0000
Subject: [PATCH 08/36] fix: do not send leaf weights and plaintext gradient
 sums to the hosts with the tree

---
 ml/tree/hetero_decision_tree_guest.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ml/tree/hetero_decision_tree_guest.py b/ml/tree/hetero_decision_tree_guest.py
index ac1e371..062fafe 100644
--- a/ml/tree/hetero_decision_tree_guest.py
+++ b/ml/tree/hetero_decision_tree_guest.py
@@ -306,7 +306,14 @@ class HeteroDecisionTreeGuest(DecisionTree):
     def sync_tree(self):
         self.logger.info("sync tree to host")
 
-        self.transfer_inst.send_data_to_hosts(self.tree_, -1)
+        # leaf weights and gradient sums reveal the labels, hosts only need the structure
+        mask_tree = copy.deepcopy(self.tree_)
+        for node in mask_tree:
+            node.weight = None
+            node.sum_grad = None
+            node.sum_hess = None
+
+        self.transfer_inst.send_data_to_hosts(mask_tree, -1)
 
         # federation.remote(obj=self.tree_,
         #                   name=self.transfer_inst.tree.name,
-- 
2.43.0


From 694d69fc7de450f21fdc99708ef32c686e109f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:42 +0000
Subject: [PATCH 09/36] fix: recursive_encrypt keeps ciphertexts as objects
 instead of forcing them into floats

---
 ml/secureprotol/encrypt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml/secureprotol/encrypt.py b/ml/secureprotol/encrypt.py
index 7a17a73..564ca1a 100644
--- a/ml/secureprotol/encrypt.py
+++ b/ml/secureprotol/encrypt.py
@@ -97,7 +97,7 @@ class Encrypt(object):
         if not isinstance(A, np.ndarray) and not isinstance(A, list):
             data_dict = A.collect()
             data_dict = dict(data_dict)
-            A = data_dict.values()
+            A = list(data_dict.values())
             A = np.array(A)
 
         if isinstance(A, list):
@@ -112,7 +112,7 @@ class Encrypt(object):
             else:
                 encrypted_term = self.encrypt_list(row)
                 encrypt_row.append(encrypted_term)
-        return np.array(encrypt_row, dtype=np.float64)
+        return np.array(encrypt_row)
 
 
 class RsaEncrypt(Encrypt):
-- 
2.43.0


From c3547a2dbaf2c51a0d106fba663cdc4b5dcdd27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:42 +0000
Subject: [PATCH 10/36] fix: fixed-point encoding of numpy scalars does not
 overflow their fixed width

---
 ml/secureprotol/fixedpoint.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ml/secureprotol/fixedpoint.py b/ml/secureprotol/fixedpoint.py
index f411d72..c7fcf1e 100644
--- a/ml/secureprotol/fixedpoint.py
+++ b/ml/secureprotol/fixedpoint.py
@@ -47,6 +47,10 @@ class FixedPointNumber(object):
     def encode(cls, scalar, n=None, max_int=None, precision=None, max_exponent=None):
         """return an encoding of an int or float.
         """
+        # numpy scalars have a fixed width and would overflow (silently, for integers) when scaled
+        if isinstance(scalar, (np.integer, np.floating)):
+            scalar = scalar.item()
+
         # Calculate the maximum exponent for desired precision
         exponent = None
         
-- 
2.43.0


From 639e7ac2fa00cfb15368105b5841d1b432718502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:42 +0000
Subject: [PATCH 11/36] fix: validation predictions are part of the data
 output, union() returns a new table

---
 ml/model_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml/model_base.py b/ml/model_base.py
index 933e193..409ae17 100644
--- a/ml/model_base.py
+++ b/ml/model_base.py
@@ -105,7 +105,7 @@ class ModelBase(object):
                         predict_output_res = eval_data_predict_res.mapValues(lambda d: d + ["validation"])
 
                         if self.data_output:
-                            self.data_output.union(predict_output_res)
+                            self.data_output = self.data_output.union(predict_output_res)
                         else:
                             self.data_output = predict_output_res
 
@@ -134,7 +134,7 @@ class ModelBase(object):
                     eval_data_output = eval_data_output.mapValues(lambda value: value + ["validation"])
 
                 if self.data_output and eval_data_output:
-                    self.data_output.union(eval_data_output)
+                    self.data_output = self.data_output.union(eval_data_output)
                 elif not self.data_output and eval_data_output:
                     self.data_output = eval_data_output
 
-- 
2.43.0


From 40e28de946c251ed749659d9656c0244d6970c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:42 +0000
Subject: [PATCH 12/36] fix: affine key generation terminates when the drawn
 ratio leaves no bits for the multiplier

---
 ml/secureprotol/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/secureprotol/affine.py b/ml/secureprotol/affine.py
index 5e82edf..5a30271 100644
--- a/ml/secureprotol/affine.py
+++ b/ml/secureprotol/affine.py
@@ -33,7 +33,7 @@ class AffineCipher(object):
         if b_ratio is None:
             b_ratio = random.SystemRandom().random()
         while True:
-            a = random.SystemRandom().getrandbits(int(key_size * a_ratio))
+            a = random.SystemRandom().getrandbits(max(1, int(key_size * a_ratio)))
             if math.gcd(n, a) == 1:
                 break
         b = random.SystemRandom().getrandbits(int(key_size * b_ratio))
-- 
2.43.0


From 8474f6c287adc53a8cb01ed3cc938f5bb0c85a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:42 +0000
Subject: [PATCH 13/36] fix: check the encryption mode and predict parameters
 too, an unknown mode silently meant 'fast'

---
 ml/param/boosting_tree_param.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ml/param/boosting_tree_param.py b/ml/param/boosting_tree_param.py
index a66117e..f74ce58 100644
--- a/ml/param/boosting_tree_param.py
+++ b/ml/param/boosting_tree_param.py
@@ -252,6 +252,10 @@ class BoostingTreeParam(BaseParam):
 
         self.encrypt_param.check()
 
+        self.encrypted_mode_calculator_param.check()
+
+        self.predict_param.check()
+
         if type(self.bin_num).__name__ not in ["int", "long"] or self.bin_num < 2:
             raise ValueError(
                 "boosting tree param's bin_num {} not supported, should be positive integer greater than 1".format(
-- 
2.43.0


From 215a972676bd00af5f331187b3afab2776b071eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:42 +0000
Subject: [PATCH 14/36] fix: EncryptParam.check accepts the method None it says
 it accepts

---
 ml/param/encrypt_param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/param/encrypt_param.py b/ml/param/encrypt_param.py
index 70d0f4c..ff8006a 100644
--- a/ml/param/encrypt_param.py
+++ b/ml/param/encrypt_param.py
@@ -48,7 +48,7 @@ class EncryptParam(BaseParam):
             raise ValueError(
                 "encrypt_param's method {} not supported, should be str type".format(
                     self.method))
-        else:
+        elif self.method is not None:
             user_input = self.method.lower()
             if user_input == 'paillier':
                 self.method = consts.PAILLIER
-- 
2.43.0


From 58cef6dc223be24ac71bbe0f9b185b17e389caef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:42 +0000
Subject: [PATCH 15/36] fix: variance is never negative, rounding no longer
 makes the standard deviation fail

---
 ml/statistic/statics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/statistic/statics.py b/ml/statistic/statics.py
index ea8a960..f6326eb 100644
--- a/ml/statistic/statics.py
+++ b/ml/statistic/statics.py
@@ -77,7 +77,7 @@ class SummaryStatistics(object):
     def variance(self):
         mean = self.mean
         variance = self.sum_square / self.count - 2 * self.sum * mean / self.count + mean ** 2
-        if math.fabs(variance) < consts.FLOAT_ZERO:
+        if variance < consts.FLOAT_ZERO:
             return 0.0
         return variance
 
-- 
2.43.0


From 323ee23e3d476421703f29aed527b7de48d95f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:42 +0000
Subject: [PATCH 16/36] fix: minimum and maximum are right for values beyond
 the integer range too

---
 ml/statistic/statics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml/statistic/statics.py b/ml/statistic/statics.py
index f6326eb..338027d 100644
--- a/ml/statistic/statics.py
+++ b/ml/statistic/statics.py
@@ -37,8 +37,8 @@ class SummaryStatistics(object):
 
         self.sum = 0
         self.sum_square = 0
-        self.max_value = - sys.maxsize - 1
-        self.min_value = sys.maxsize
+        self.max_value = -float('inf')
+        self.min_value = float('inf')
         self.count = 0
 
     def add_value(self, value):
-- 
2.43.0


From 5493dcc12ea098151dc251c4503ab612bc59f7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:39 +0000
Subject: [PATCH 17/36] fix: fixed-point arithmetic stays in the modulus of its
 operands instead of falling back to Q

---
 ml/secureprotol/fixedpoint.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ml/secureprotol/fixedpoint.py b/ml/secureprotol/fixedpoint.py
index c7fcf1e..811da9c 100644
--- a/ml/secureprotol/fixedpoint.py
+++ b/ml/secureprotol/fixedpoint.py
@@ -131,7 +131,7 @@ class FixedPointNumber(object):
 
     def __truncate(self, a):
         scalar = a.decode()
-        return FixedPointNumber.encode(scalar)    
+        return FixedPointNumber.encode(scalar, self.n, self.max_int)
 
     def __add__(self, other):       
         if isinstance(other, FixedPointNumber):
@@ -152,7 +152,7 @@ class FixedPointNumber(object):
     def __rsub__(self, other):
         x = self.__sub__(other)
         x = -1 * x.decode()
-        return self.encode(x)
+        return self.encode(x, self.n, self.max_int)
     
     def __rmul__(self, other):
         return self.__mul__(other)
@@ -173,7 +173,7 @@ class FixedPointNumber(object):
    
     def __rtruediv__(self, other):
         res = 1.0 / self.__truediv__(other).decode() 
-        return FixedPointNumber.encode(res)
+        return FixedPointNumber.encode(res, self.n, self.max_int)
  
     def __lt__(self, other):
         x = self.decode()
@@ -244,11 +244,11 @@ class FixedPointNumber(object):
   
     def __add_fixpointnumber(self, other):        
         x, y = self.__align_exponent(self, other)
-        encoding = (x.encoding + y.encoding) % self.Q        
-        return FixedPointNumber(encoding, x.exponent)
+        encoding = (x.encoding + y.encoding) % self.n
+        return FixedPointNumber(encoding, x.exponent, self.n, self.max_int)
  
     def __add_scalar(self, scalar):
-        encoded = self.encode(scalar)
+        encoded = self.encode(scalar, self.n, self.max_int)
         return self.__add_fixpointnumber(encoded)
   
     def __sub_fixpointnumber(self, other):        
@@ -260,12 +260,12 @@ class FixedPointNumber(object):
         return self.__add_scalar(scalar)    
   
     def __mul_fixpointnumber(self, other):     
-        encoding = (self.encoding * other.encoding) % self.Q
+        encoding = (self.encoding * other.encoding) % self.n
         exponet = self.exponent + other.exponent
-        mul_fixedpoint = FixedPointNumber(encoding, exponet)            
+        mul_fixedpoint = FixedPointNumber(encoding, exponet, self.n, self.max_int)
         truncate_mul_fixedpoint= self.__truncate(mul_fixedpoint)        
         return truncate_mul_fixedpoint
    
     def __mul_scalar(self, scalar):
-        encoded = self.encode(scalar)
+        encoded = self.encode(scalar, self.n, self.max_int)
         return self.__mul_fixpointnumber(encoded)
-- 
2.43.0


From 73e0a6884aad93f3e15b7d3d20ef90f031faf142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:37 +0000
Subject: [PATCH 18/36] fix: encoding to a precision keeps that precision, the
 sign of the exponent was inverted

---
 ml/secureprotol/fixedpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/secureprotol/fixedpoint.py b/ml/secureprotol/fixedpoint.py
index 811da9c..9803448 100644
--- a/ml/secureprotol/fixedpoint.py
+++ b/ml/secureprotol/fixedpoint.py
@@ -77,7 +77,7 @@ class FixedPointNumber(object):
                 raise TypeError("Don't know the precision of type %s."
                                 % type(scalar))
         else:
-            exponent = math.floor(math.log(precision, cls.BASE))        
+            exponent = -math.floor(math.log(precision, cls.BASE))
         
         if max_exponent is not None:
             exponent = max(max_exponent, exponent)
-- 
2.43.0


From 8c4655385975c2cd50a68d7bfb5587e4016f5a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:45 +0000
Subject: [PATCH 19/36] fix: fixed-point encoding of -2**63 is not 0, numpy's
 abs wraps at the edge of int64

---
 ml/secureprotol/fixedpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/secureprotol/fixedpoint.py b/ml/secureprotol/fixedpoint.py
index 9803448..abeb173 100644
--- a/ml/secureprotol/fixedpoint.py
+++ b/ml/secureprotol/fixedpoint.py
@@ -57,7 +57,7 @@ class FixedPointNumber(object):
         #  Too low value preprocess;
         #  avoid "OverflowError: int too large to convert to float"
         
-        if np.abs(scalar) < 1e-200:
+        if abs(scalar) < 1e-200:
             scalar = 0
         
         if n is None:
-- 
2.43.0


From 6dfa5c1cdca7675cb1fb44e762defbcd30b9dbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:02 +0000
Subject: [PATCH 20/36] fix: quantile summaries keep the samples above the last
 buffered value, data past the first 10000 rows was lost

---
 ml/feature/quantile_summaries.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ml/feature/quantile_summaries.py b/ml/feature/quantile_summaries.py
index 39d4763..abe2244 100644
--- a/ml/feature/quantile_summaries.py
+++ b/ml/feature/quantile_summaries.py
@@ -97,6 +97,7 @@ class QuantileSummaries(object):
             new_stats = Stats(current_sample, 1, delta)
             new_sampled.append(new_stats)
             ops_idx += 1
+        new_sampled += self.sampled[sample_idx:]
         self.sampled = new_sampled
         self.head_sampled = []
         self.count = current_count
-- 
2.43.0


From e897bb11a91c53129ccc07b875c7d2f33a674058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:26 +0000
Subject: [PATCH 21/36] fix: merged quantile summaries keep their error bound,
 ranks among the other's values were taken as exact

---
 ml/feature/quantile_summaries.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ml/feature/quantile_summaries.py b/ml/feature/quantile_summaries.py
index abe2244..65f6be9 100644
--- a/ml/feature/quantile_summaries.py
+++ b/ml/feature/quantile_summaries.py
@@ -133,16 +133,20 @@ class QuantileSummaries(object):
             self.sampled = other.sampled
             return
 
-        # merge two sorted array
+        # merge two sorted array, a sample's rank among the other's values is known
+        # only up to the other's error
+        self_delta = math.floor(2 * other.error * other.count)
+        other_delta = math.floor(2 * self.error * self.count)
         new_sample = []
         i, j = 0, 0
         while i < len(self.sampled) and j < len(other.sampled):
             if self.sampled[i].value < other.sampled[j].value:
-                new_sample.append(self.sampled[i])
+                sample, delta = self.sampled[i], self_delta if j > 0 else 0
                 i += 1
             else:
-                new_sample.append(other.sampled[j])
+                sample, delta = other.sampled[j], other_delta if i > 0 else 0
                 j += 1
+            new_sample.append(Stats(sample.value, sample.g, sample.delta + delta))
         new_sample += self.sampled[i:]
         new_sample += other.sampled[j:]
 
-- 
2.43.0


From c0393a01f442176f875a7962470eeb311bcb373d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:26 +0000
Subject: [PATCH 22/36] fix: quantile query considers the first sample, it
 answered the second value for the lowest rank

---
 ml/feature/quantile_summaries.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml/feature/quantile_summaries.py b/ml/feature/quantile_summaries.py
index 65f6be9..af90a80 100644
--- a/ml/feature/quantile_summaries.py
+++ b/ml/feature/quantile_summaries.py
@@ -186,9 +186,9 @@ class QuantileSummaries(object):
             return self.sampled[-1].value
 
         rank = math.ceil(quantile * self.count)
-        target_error = math.ceil(self.error * self.count)
+        target_error = max(sample.g + sample.delta for sample in self.sampled) / 2
         min_rank = 0
-        i = 1
+        i = 0
         while i < len(self.sampled) - 1:
             cur_sample = self.sampled[i]
             min_rank += cur_sample.g
-- 
2.43.0


From cf9a65b852382de050a153336d6ba53656fa66a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:30 +0000
Subject: [PATCH 23/36] fix: sparse data can be binned on selected columns, the
 others raised KeyError

---
 ml/feature/binning/quantile_binning.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ml/feature/binning/quantile_binning.py b/ml/feature/binning/quantile_binning.py
index 8046283..109277e 100644
--- a/ml/feature/binning/quantile_binning.py
+++ b/ml/feature/binning/quantile_binning.py
@@ -146,6 +146,8 @@ class QuantileBinning(Binning):
                 data_generator = instance.features.get_all_data()
                 for col_idx, col_value in data_generator:
                     col_name = header[col_idx]
+                    if col_name not in summary_dict:
+                        continue
                     summary = summary_dict[col_name]
                     summary.insert(col_value)
 
-- 
2.43.0


From 2a471676d37f870912a0f5667c5333525e64360b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:24 +0000
Subject: [PATCH 24/36] fix: sparse quantiles count buffered values and answer
 0 only where there are zeros

---
 ml/feature/quantile_summaries.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ml/feature/quantile_summaries.py b/ml/feature/quantile_summaries.py
index af90a80..5c50995 100644
--- a/ml/feature/quantile_summaries.py
+++ b/ml/feature/quantile_summaries.py
@@ -252,7 +252,10 @@ class SparseQuantileSummaries(QuantileSummaries):
         super(SparseQuantileSummaries, self).insert(x)
 
     def query(self, quantile):
-        if self.zero_lower_bound <= quantile <= self.zero_upper_bound:
+        if self.head_sampled:
+            self.compress()
+
+        if self._total_count > self.count and self.zero_lower_bound <= quantile <= self.zero_upper_bound:
             return 0.0
 
         non_zero_quantile = self._convert_query_percentile(quantile)
-- 
2.43.0


From 70bf46a329db0e6e3d29c7cc9324443af1fb9554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:33 +0000
Subject: [PATCH 25/36] fix: sparse quantiles keep their error bound next to
 the zeros

---
 ml/feature/quantile_summaries.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ml/feature/quantile_summaries.py b/ml/feature/quantile_summaries.py
index 5c50995..198db7d 100644
--- a/ml/feature/quantile_summaries.py
+++ b/ml/feature/quantile_summaries.py
@@ -260,6 +260,9 @@ class SparseQuantileSummaries(QuantileSummaries):
 
         non_zero_quantile = self._convert_query_percentile(quantile)
         result = super(SparseQuantileSummaries, self).query(non_zero_quantile)
+        if self._total_count > self.count and (result < 0) != (quantile < self.zero_lower_bound):
+            # the error of the non-zero summary may not carry the answer across all the zeros
+            return 0.0
         return result
 
     def merge(self, other):
-- 
2.43.0


From 3b579e37f9054230575410e4577c7a63240f2973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:12 +0000
Subject: [PATCH 26/36] fix: histograms without feature selection count the
 rows in the sparse bins too

---
 ml/tree/feateur_histogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/tree/feateur_histogram.py b/ml/tree/feateur_histogram.py
index ca875c5..a529987 100644
--- a/ml/tree/feateur_histogram.py
+++ b/ml/tree/feateur_histogram.py
@@ -148,7 +148,7 @@ class FeatureHistogram(object):
 
         for nid in range(node_num):
             for fid in range(bin_split_points.shape[0]):
-                if valid_features is not None and valid_features[fid] is True:
+                if valid_features is None or valid_features[fid] is True:
                     sparse_point = bin_sparse_points[fid]
                     node_histograms[nid][fid][sparse_point][0] += zero_opt_node_sum[nid][0] - zero_optim[nid][fid][0]
                     node_histograms[nid][fid][sparse_point][1] += zero_opt_node_sum[nid][1] - zero_optim[nid][fid][1]
-- 
2.43.0


From 74bb6cdbb3b3ba2e21b538721a2bee6fbb0c253d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:46 +0000
Subject: [PATCH 27/36] fix: log-cosh loss does not overflow for residuals
 beyond 710

---
 ml/loss/regression_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/loss/regression_loss.py b/ml/loss/regression_loss.py
index 1ef933e..5b12c16 100644
--- a/ml/loss/regression_loss.py
+++ b/ml/loss/regression_loss.py
@@ -188,7 +188,7 @@ class LogCoshLoss(object):
 
     @staticmethod
     def compute_loss(y, y_pred):
-        log_cosh_loss = y.join(y_pred, lambda y, yp: (np.log(np.cosh(yp - y)), 1))
+        log_cosh_loss = y.join(y_pred, lambda y, yp: (np.logaddexp(yp - y, y - yp) - np.log(2), 1))
         log_cosh_sum, sample_num = log_cosh_loss.reduce(
             lambda tuple1, tuple2: (tuple1[0] + tuple2[0], tuple1[1] + tuple2[1]))
         return log_cosh_sum / sample_num
-- 
2.43.0


From e72241c579b286aa060426868bde2fe409aab3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:46 +0000
Subject: [PATCH 28/36] fix: softplus does not overflow

---
 ml/optim/activation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/optim/activation.py b/ml/optim/activation.py
index 281ace9..b5b050a 100644
--- a/ml/optim/activation.py
+++ b/ml/optim/activation.py
@@ -37,7 +37,7 @@ def sigmoid(x):
 
 
 def softplus(x):
-    return np.log(1. + np.exp(x))
+    return np.logaddexp(0., x)
 
 
 def softsign(x):
-- 
2.43.0


From fb1ac329f31fe2b527e82e2d6c3fc4738a69dce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:11 +0000
Subject: [PATCH 29/36] fix: TransformParam.check accepts its own default, it
 compared a type name with values

---
 ml/param/feature_binning_param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/param/feature_binning_param.py b/ml/param/feature_binning_param.py
index fb516b5..bdd2d8f 100644
--- a/ml/param/feature_binning_param.py
+++ b/ml/param/feature_binning_param.py
@@ -27,7 +27,7 @@ class TransformParam(BaseParam):
         descr = "Transform Param's "
         if self.transform_cols is not None and self.transform_cols != -1:
             self.check_defined_type(self.transform_cols, descr, ['list'])
-        self.check_defined_type(self.transform_type, descr, ['bin_num', None])
+        self.check_valid_value(self.transform_type, descr, ['bin_num', None])
         
 
 class FeatureBinningParam(BaseParam):
-- 
2.43.0


From f07bd552e21c3a2e58709971af87c099b5f62a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:11 +0000
Subject: [PATCH 30/36] fix: decision tree parameters do not share their
 default criterion_params

---
 ml/param/boosting_tree_param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/param/boosting_tree_param.py b/ml/param/boosting_tree_param.py
index f74ce58..7cd1b7b 100644
--- a/ml/param/boosting_tree_param.py
+++ b/ml/param/boosting_tree_param.py
@@ -105,7 +105,7 @@ class DecisionTreeParam(BaseParam):
                  max_split_nodes=consts.MAX_SPLIT_NODES, feature_importance_type="split",
                  n_iter_no_change=True, tol=0.001):
         self.criterion_method = criterion_method
-        self.criterion_params = criterion_params
+        self.criterion_params = copy.deepcopy(criterion_params)
         self.max_depth = max_depth
         self.min_sample_split = min_sample_split
         self.min_impurity_split = min_imputiry_split
-- 
2.43.0


From d9a18b561f3a620f1600fe15def25cc9812879e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:01 +0000
Subject: [PATCH 31/36] fix: affine encoding of numpy scalars does not overflow
 their fixed width

---
 ml/secureprotol/affine_encoder.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ml/secureprotol/affine_encoder.py b/ml/secureprotol/affine_encoder.py
index 513a344..0c22cef 100644
--- a/ml/secureprotol/affine_encoder.py
+++ b/ml/secureprotol/affine_encoder.py
@@ -14,6 +14,8 @@
 #  limitations under the License.
 #
 
+import numpy as np
+
 
 class AffineEncoder(object):
     def __init__(self, mult=2 ** 100, trans=0):
@@ -21,6 +23,9 @@ class AffineEncoder(object):
         self.trans = trans
 
     def encode(self, plaintext):
+        if isinstance(plaintext, np.generic):
+            # numpy scalars of fixed width overflow when scaled by mult
+            plaintext = plaintext.item()
         return int(self.mult * (plaintext + self.trans))
 
     def decode(self, ciphertext, multiplier=1):
-- 
2.43.0


From 230b434cb5e9b8bfa117f27a5b5638bcd9a17cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:30 +0000
Subject: [PATCH 32/36] fix: binning refuses negative column indexes, they were
 fitted and then left unconverted

---
 ml/feature/binning/base_binning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/feature/binning/base_binning.py b/ml/feature/binning/base_binning.py
index 11d7937..ce224fe 100644
--- a/ml/feature/binning/base_binning.py
+++ b/ml/feature/binning/base_binning.py
@@ -60,7 +60,7 @@ class Binning:
                 except:
                     raise ValueError("In binning module, selected index: {} is not integer".format(idx))
                 
-                if idx >= len(header):
+                if idx < 0 or idx >= len(header):
                     raise ValueError(
                         "In binning module, selected index: {} exceed length of data dimension".format(idx))
                 cols.append(header[idx])
-- 
2.43.0


From fa21c47a1946a9ded194f3f6b573deb7f3f0a4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:41 +0000
Subject: [PATCH 33/36] fix: the difference of two rows is taken on Python
 numbers

Outside strict mode the encryption mode calculator encrypts only what changed
since the last round.  It subtracted the numpy numbers of the rows, whose fixed
width wraps around (np.uint8(1) - np.uint8(3) is 254, so 257 was encrypted
instead of 1) or rounds (np.float32).
---
 ml/secureprotol/encrypt_mode.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ml/secureprotol/encrypt_mode.py b/ml/secureprotol/encrypt_mode.py
index ca0ae05..49d37b1 100644
--- a/ml/secureprotol/encrypt_mode.py
+++ b/ml/secureprotol/encrypt_mode.py
@@ -93,6 +93,18 @@ class EncryptModeCalculator(object):
 
         return new_data
 
+    def exact_row(self, row):
+        """
+        The row with Python numbers for numpy ones, whose fixed width makes differences wrap around or round
+        """
+
+        if type(row).__name__ == "ndarray":
+            return row.astype(object)
+        elif isinstance(row, Iterable):
+            return type(row)(self.exact_row(val) for val in row)
+        else:
+            return row.item() if isinstance(row, np.generic) else row
+
     def get_differance(self, new_row, old_row):
         """
         Get difference of new_row and old row
@@ -109,6 +121,7 @@ class EncryptModeCalculator(object):
 
         """
 
+        new_row, old_row = self.exact_row(new_row), self.exact_row(old_row)
         if type(new_row).__name__ == "ndarray":
             diff = [new_val - old_val for (new_val, old_val) in zip(new_row, old_row)]
             return np.array(diff)
-- 
2.43.0


From 8d34b7e488d1f8c8b15836f88693f2e506f00ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:12 +0000
Subject: [PATCH 34/36] fix: encoding and decoding at large exponents do not
 overflow a float

---
 ml/secureprotol/fixedpoint.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ml/secureprotol/fixedpoint.py b/ml/secureprotol/fixedpoint.py
index abeb173..e058527 100644
--- a/ml/secureprotol/fixedpoint.py
+++ b/ml/secureprotol/fixedpoint.py
@@ -18,6 +18,7 @@ import math
 import numpy as np
 import sys
 import random
+from fractions import Fraction
 from numba import jit
 
 from ml.secureprotol import gmpy_math
@@ -82,7 +83,8 @@ class FixedPointNumber(object):
         if max_exponent is not None:
             exponent = max(max_exponent, exponent)
             
-        int_fixpoint = int(round(scalar * pow(cls.BASE, exponent)))
+        # exactly: scaled to a large exponent, a value in range need not fit a float
+        int_fixpoint = int(round(Fraction(scalar) * Fraction(cls.BASE) ** exponent))
 
         if abs(int_fixpoint) > max_int:
             raise ValueError('Integer needs to be within +/- %d but got %d'
@@ -105,6 +107,10 @@ class FixedPointNumber(object):
         else:
             raise OverflowError('Overflow detected in decode number')
 
+        if self.exponent > 0:
+            # the mantissa alone need not fit a float
+            return mantissa / pow(self.BASE, self.exponent)
+
         return mantissa * pow(self.BASE, -self.exponent)
  
     def increase_exponent_to(self, new_exponent):
-- 
2.43.0


From 58e3d02b1ccedb2aa907bfbf599290711aeff016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:37 +0000
Subject: [PATCH 35/36] fix: cells that are no numbers are skipped by the
 statistics and the quantile summaries, whatever they are

---
 ml/feature/quantile_summaries.py | 2 +-
 ml/statistic/statics.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml/feature/quantile_summaries.py b/ml/feature/quantile_summaries.py
index 198db7d..a06a0b0 100644
--- a/ml/feature/quantile_summaries.py
+++ b/ml/feature/quantile_summaries.py
@@ -61,7 +61,7 @@ class QuantileSummaries(object):
 
         try:
             x = float(x)
-        except ValueError:
+        except (TypeError, ValueError):
             return
 
         self.head_sampled.append(x)
diff --git a/ml/statistic/statics.py b/ml/statistic/statics.py
index 338027d..26c299d 100644
--- a/ml/statistic/statics.py
+++ b/ml/statistic/statics.py
@@ -47,7 +47,7 @@ class SummaryStatistics(object):
 
         try:
             value = float(value)
-        except TypeError:
+        except (TypeError, ValueError):
             LOGGER.warning('The value {} cannot be converted to float'.format(value))
             return
 
-- 
2.43.0


From af3e8b3a203d6145a2428ac48e6f2d1e49549b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:37 +0000
Subject: [PATCH 36/36] fix: abnormal values of a sparse column count neither
 as values nor as zeros

---
 ml/feature/quantile_summaries.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ml/feature/quantile_summaries.py b/ml/feature/quantile_summaries.py
index a06a0b0..b5900f5 100644
--- a/ml/feature/quantile_summaries.py
+++ b/ml/feature/quantile_summaries.py
@@ -239,12 +239,17 @@ class SparseQuantileSummaries(QuantileSummaries):
         # Compare with the sparse point, static the number of each part.
         self.smaller_num = 0
         self.bigger_num = 0
+        self.abnormal_num = 0
         self._total_count = 0
 
     def set_total_count(self, total_count):
-        self._total_count = total_count
+        self._total_count = total_count - self.abnormal_num
 
     def insert(self, x):
+        if x in self.abnormal_list:
+            # an abnormal value is no observation, nor is it one of the zeros
+            self.abnormal_num += 1
+            return
         if x < consts.FLOAT_ZERO:
             self.smaller_num += 1
         elif x >= consts.FLOAT_ZERO:
@@ -268,6 +273,7 @@ class SparseQuantileSummaries(QuantileSummaries):
     def merge(self, other):
         self.smaller_num += other.smaller_num
         self.bigger_num += other.bigger_num
+        self.abnormal_num += other.abnormal_num
         super(SparseQuantileSummaries, self).merge(other)
 
     def _convert_query_percentile(self, quantile):
-- 
2.43.0

