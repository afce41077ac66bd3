From 6519a2903713f7f2f70f706c2b6306586d15242d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:50 +0000
Subject: [PATCH 01/16] fix: read whole headers and messages from the socket,
 and fail when the peer closes

---
 federation/transfer_inst.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/federation/transfer_inst.py b/federation/transfer_inst.py
index 0d1d7b0..a4184cf 100644
--- a/federation/transfer_inst.py
+++ b/federation/transfer_inst.py
@@ -20,6 +20,19 @@ class TransferInst:
 
         cs.sendall(byteStream)
     
+    @staticmethod
+    def recv_exactly(cs, size):
+        # a stream socket may return fewer bytes than asked for
+        msg = b''
+        nowsize = len(msg)
+        while nowsize < size:
+            more = cs.recv(size - nowsize)
+            if not more:
+                raise ConnectionError('the connection was closed after {} of {} bytes'.format(nowsize, size))
+            msg = msg + more
+            nowsize += len(more)
+        return msg
+
     @staticmethod
     def recv_data(cs):
         # msg = cs.recv(1024)
@@ -33,15 +46,10 @@ class TransferInst:
         #     full_msg = full_msg + more
         #     nowsize += len(more)
 
-        msg = cs.recv(16)
+        msg = TransferInst.recv_exactly(cs, 16)
         length = int(msg[:16])
         # LOGGER.debug('len of recv_msg is {}'.format(length))
-        full_msg = b''
-        nowsize = len(full_msg)
-        while nowsize < length:
-            more = cs.recv(length - nowsize)
-            full_msg = full_msg + more
-            nowsize += len(more)
+        full_msg = TransferInst.recv_exactly(cs, length)
 
         # LOGGER.debug('true len of recv_msg is {}'.format(length))
         return pickle.loads(full_msg)
-- 
2.43.0


From f42898afe17f9dc429eb8f9b284b13988704508c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:38 +0000
Subject: [PATCH 02/16] fix: fixed-point arithmetic keeps the modulus of its
 operands; zero divided by an encoding is zero

---
 ml/secureprotol/fixedpoint.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/ml/secureprotol/fixedpoint.py b/ml/secureprotol/fixedpoint.py
index f411d72..f1df91a 100644
--- a/ml/secureprotol/fixedpoint.py
+++ b/ml/secureprotol/fixedpoint.py
@@ -127,7 +127,7 @@ class FixedPointNumber(object):
 
     def __truncate(self, a):
         scalar = a.decode()
-        return FixedPointNumber.encode(scalar)    
+        return FixedPointNumber.encode(scalar, a.n, a.max_int)
 
     def __add__(self, other):       
         if isinstance(other, FixedPointNumber):
@@ -148,7 +148,7 @@ class FixedPointNumber(object):
     def __rsub__(self, other):
         x = self.__sub__(other)
         x = -1 * x.decode()
-        return self.encode(x)
+        return self.encode(x, self.n, self.max_int)
     
     def __rmul__(self, other):
         return self.__mul__(other)
@@ -168,8 +168,8 @@ class FixedPointNumber(object):
         return self.__mul__(1 / scalar) 
    
     def __rtruediv__(self, other):
-        res = 1.0 / self.__truediv__(other).decode() 
-        return FixedPointNumber.encode(res)
+        res = other / self.decode()
+        return FixedPointNumber.encode(res, self.n, self.max_int)
  
     def __lt__(self, other):
         x = self.decode()
@@ -240,11 +240,11 @@ class FixedPointNumber(object):
   
     def __add_fixpointnumber(self, other):        
         x, y = self.__align_exponent(self, other)
-        encoding = (x.encoding + y.encoding) % self.Q        
-        return FixedPointNumber(encoding, x.exponent)
+        encoding = (x.encoding + y.encoding) % self.n
+        return FixedPointNumber(encoding, x.exponent, self.n, self.max_int)
  
     def __add_scalar(self, scalar):
-        encoded = self.encode(scalar)
+        encoded = self.encode(scalar, self.n, self.max_int)
         return self.__add_fixpointnumber(encoded)
   
     def __sub_fixpointnumber(self, other):        
@@ -256,12 +256,12 @@ class FixedPointNumber(object):
         return self.__add_scalar(scalar)    
   
     def __mul_fixpointnumber(self, other):     
-        encoding = (self.encoding * other.encoding) % self.Q
+        encoding = (self.encoding * other.encoding) % self.n
         exponet = self.exponent + other.exponent
-        mul_fixedpoint = FixedPointNumber(encoding, exponet)            
+        mul_fixedpoint = FixedPointNumber(encoding, exponet, self.n, self.max_int)
         truncate_mul_fixedpoint= self.__truncate(mul_fixedpoint)        
         return truncate_mul_fixedpoint
    
     def __mul_scalar(self, scalar):
-        encoded = self.encode(scalar)
+        encoded = self.encode(scalar, self.n, self.max_int)
         return self.__mul_fixpointnumber(encoded)
-- 
2.43.0


From 95b388475e6dfdb7e0da3b1742d9887d5ada6e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:20 +0000
Subject: [PATCH 03/16] fix: quantile summaries keep all samples, honour the
 rank bound and never answer across the zeros

---
 ml/feature/quantile_summaries.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ml/feature/quantile_summaries.py b/ml/feature/quantile_summaries.py
index 39d4763..fa06842 100644
--- a/ml/feature/quantile_summaries.py
+++ b/ml/feature/quantile_summaries.py
@@ -97,6 +97,7 @@ class QuantileSummaries(object):
             new_stats = Stats(current_sample, 1, delta)
             new_sampled.append(new_stats)
             ops_idx += 1
+        new_sampled += self.sampled[sample_idx:]
         self.sampled = new_sampled
         self.head_sampled = []
         self.count = current_count
@@ -183,7 +184,7 @@ class QuantileSummaries(object):
         rank = math.ceil(quantile * self.count)
         target_error = math.ceil(self.error * self.count)
         min_rank = 0
-        i = 1
+        i = 0
         while i < len(self.sampled) - 1:
             cur_sample = self.sampled[i]
             min_rank += cur_sample.g
@@ -240,6 +241,8 @@ class SparseQuantileSummaries(QuantileSummaries):
         self._total_count = total_count
 
     def insert(self, x):
+        if x in self.abnormal_list:
+            return
         if x < consts.FLOAT_ZERO:
             self.smaller_num += 1
         elif x >= consts.FLOAT_ZERO:
@@ -247,12 +250,18 @@ class SparseQuantileSummaries(QuantileSummaries):
         super(SparseQuantileSummaries, self).insert(x)
 
     def query(self, quantile):
+        if self.head_sampled:
+            self.compress()
+
         if self.zero_lower_bound <= quantile <= self.zero_upper_bound:
             return 0.0
 
         non_zero_quantile = self._convert_query_percentile(quantile)
         result = super(SparseQuantileSummaries, self).query(non_zero_quantile)
-        return result
+        # the error allowed among non-zero values must not carry the answer across the zeros
+        if quantile < self.zero_lower_bound:
+            return min(result, 0.0)
+        return max(result, 0.0)
 
     def merge(self, other):
         self.smaller_num += other.smaller_num
-- 
2.43.0


From 60869255d0b3d3046472ff3309846c7f4afa91b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:21 +0000
Subject: [PATCH 04/16] fix: fitting a selection of sparse columns skips the
 other columns

---
 ml/feature/binning/quantile_binning.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ml/feature/binning/quantile_binning.py b/ml/feature/binning/quantile_binning.py
index 3c50679..8d1feea 100644
--- a/ml/feature/binning/quantile_binning.py
+++ b/ml/feature/binning/quantile_binning.py
@@ -145,6 +145,8 @@ class QuantileBinning(Binning):
                 data_generator = instance.features.get_all_data()
                 for col_idx, col_value in data_generator:
                     col_name = header[col_idx]
+                    if col_name not in summary_dict:
+                        continue
                     summary = summary_dict[col_name]
                     summary.insert(col_value)
 
-- 
2.43.0


From dd3ecfe554c6cb7b964a610f457ceb67a61e530b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:45 +0000
Subject: [PATCH 05/16] fix: without a feature mask the zero bins are filled
 like with a mask

---
 ml/tree/feateur_histogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/tree/feateur_histogram.py b/ml/tree/feateur_histogram.py
index ca875c5..a529987 100644
--- a/ml/tree/feateur_histogram.py
+++ b/ml/tree/feateur_histogram.py
@@ -148,7 +148,7 @@ class FeatureHistogram(object):
 
         for nid in range(node_num):
             for fid in range(bin_split_points.shape[0]):
-                if valid_features is not None and valid_features[fid] is True:
+                if valid_features is None or valid_features[fid] is True:
                     sparse_point = bin_sparse_points[fid]
                     node_histograms[nid][fid][sparse_point][0] += zero_opt_node_sum[nid][0] - zero_optim[nid][fid][0]
                     node_histograms[nid][fid][sparse_point][1] += zero_opt_node_sum[nid][1] - zero_optim[nid][fid][1]
-- 
2.43.0


From de11e88b4df4c9e274ed27af4f4c52a18a0fb619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:02 +0000
Subject: [PATCH 06/16] fix: column statistics work on tables again; extremes
 beyond the integer range; binning returns its split points

---
 ml/feature/binning/quantile_binning.py |  1 +
 ml/statistic/statics.py                | 13 ++++++-------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/ml/feature/binning/quantile_binning.py b/ml/feature/binning/quantile_binning.py
index 8d1feea..109277e 100644
--- a/ml/feature/binning/quantile_binning.py
+++ b/ml/feature/binning/quantile_binning.py
@@ -67,6 +67,7 @@ class QuantileBinning(Binning):
                     split_point.append(s_p)
             split_points[col_name] = split_point
         self.split_points = split_points
+        return split_points
 
     @staticmethod
     def approxiQuantile(data_instances, params, cols_dict, abnormal_list, header, is_sparse) -> dict:
diff --git a/ml/statistic/statics.py b/ml/statistic/statics.py
index 35ed40e..100511e 100644
--- a/ml/statistic/statics.py
+++ b/ml/statistic/statics.py
@@ -16,7 +16,6 @@
 
 import functools
 import math
-import sys
 
 from ml.feature.binning.quantile_binning import QuantileBinning
 from ml.feature.quantile_summaries import QuantileSummaries
@@ -37,8 +36,8 @@ class SummaryStatistics(object):
 
         self.sum = 0
         self.sum_square = 0
-        self.max_value = - sys.maxsize - 1
-        self.min_value = sys.maxsize
+        self.max_value = -math.inf
+        self.min_value = math.inf
         self.count = 0
 
     def add_value(self, value):
@@ -182,7 +181,7 @@ class MultivariateStatisticalSummary(object):
 
         Returns
         -------
-        Dict of SummaryStatistics object
+        A list with the dict of SummaryStatistics objects
 
         """
         summary_statistic_dict = {}
@@ -200,7 +199,7 @@ class MultivariateStatisticalSummary(object):
                 stat_obj = summary_statistic_dict[col_name]
                 stat_obj.add_value(value)
 
-        return summary_statistic_dict
+        return [summary_statistic_dict]
 
     @staticmethod
     def static_summaries_in_partition(data_instances, cols_dict, abnormal_list):
@@ -220,7 +219,7 @@ class MultivariateStatisticalSummary(object):
 
         Returns
         -------
-        Dict of SummaryStatistics object
+        A list with the dict of SummaryStatistics objects
 
         """
         summary_dict = {}
@@ -238,7 +237,7 @@ class MultivariateStatisticalSummary(object):
                 summary_obj = summary_dict[col_name]
                 summary_obj.insert(value)
 
-        return summary_dict
+        return [summary_dict]
 
     @staticmethod
     def aggregate_statics(s_dict1, s_dict2):
-- 
2.43.0


From 6bdf755123d21d0ab42f55718e6128944be92825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:14 +0000
Subject: [PATCH 07/16] fix: the log-cosh objective starts from the mean label,
 not from a dictionary

---
 ml/loss/regression_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/loss/regression_loss.py b/ml/loss/regression_loss.py
index 450c8db..fc9fe10 100644
--- a/ml/loss/regression_loss.py
+++ b/ml/loss/regression_loss.py
@@ -179,7 +179,7 @@ class LogCoshLoss(object):
         y_inst = y.mapValues(lambda label: Instance(features=np.asarray([label])))
         y_inst.schema = {"header": ["label"]}
         statistics = MultivariateStatisticalSummary(y_inst, -1)
-        mean = statistics.get_mean()
+        mean = statistics.get_mean()["label"]
         return y.mapValues(lambda x: np.asarray([mean])), np.asarray([mean])
 
     @staticmethod
-- 
2.43.0


From 29d153aae3c57ba81121edf8d1e2aa723fc6ea76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:10 +0000
Subject: [PATCH 08/16] fix: absolute error gradient is zero inside the
 tolerance band

---
 ml/loss/regression_loss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml/loss/regression_loss.py b/ml/loss/regression_loss.py
index fc9fe10..c69e3e0 100644
--- a/ml/loss/regression_loss.py
+++ b/ml/loss/regression_loss.py
@@ -76,7 +76,7 @@ class LeastAbsoluteErrorLoss(object):
         if type(y).__name__ == "ndarray" or type(y_pred).__name__ == "ndarray":
             diff = y_pred - y
             diff[diff > consts.FLOAT_ZERO] = 1
-            diff[diff < consts.FLOAT_ZERO] = -1
+            diff[diff < -consts.FLOAT_ZERO] = -1
             diff[np.abs(diff) <= consts.FLOAT_ZERO] = 0
 
             return diff
@@ -84,7 +84,7 @@ class LeastAbsoluteErrorLoss(object):
             diff = y_pred - y
             if diff > consts.FLOAT_ZERO:
                 return 1
-            elif diff < consts.FLOAT_ZERO:
+            elif diff < -consts.FLOAT_ZERO:
                 return -1
             else:
                 return 0
-- 
2.43.0


From a95c70e42439ecb8f2a0e5352048ba8d5a8198b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:10 +0000
Subject: [PATCH 09/16] fix: FairLoss without a scale raised NameError

---
 ml/loss/regression_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/loss/regression_loss.py b/ml/loss/regression_loss.py
index c69e3e0..1ef933e 100644
--- a/ml/loss/regression_loss.py
+++ b/ml/loss/regression_loss.py
@@ -146,7 +146,7 @@ class FairLoss(object):
 
     def __init__(self, c):
         if c is None:
-            self.c = const.FLOAT_ZERO
+            self.c = consts.FLOAT_ZERO
         else:
             self.c = c
 
-- 
2.43.0


From 43ee34349ba4ba2cf47c0abf3811d7c49cb4c868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:28 +0000
Subject: [PATCH 10/16] fix: TransformParam.check rejected every transform_type

---
 ml/param/feature_binning_param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/param/feature_binning_param.py b/ml/param/feature_binning_param.py
index fb516b5..bdd2d8f 100644
--- a/ml/param/feature_binning_param.py
+++ b/ml/param/feature_binning_param.py
@@ -27,7 +27,7 @@ class TransformParam(BaseParam):
         descr = "Transform Param's "
         if self.transform_cols is not None and self.transform_cols != -1:
             self.check_defined_type(self.transform_cols, descr, ['list'])
-        self.check_defined_type(self.transform_type, descr, ['bin_num', None])
+        self.check_valid_value(self.transform_type, descr, ['bin_num', None])
         
 
 class FeatureBinningParam(BaseParam):
-- 
2.43.0


From b574a67508d9c1db280489d9fa8289e58b58f584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:29 +0000
Subject: [PATCH 11/16] fix: EncryptParam.check with method None raised
 AttributeError

---
 ml/param/encrypt_param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/param/encrypt_param.py b/ml/param/encrypt_param.py
index 70d0f4c..ff8006a 100644
--- a/ml/param/encrypt_param.py
+++ b/ml/param/encrypt_param.py
@@ -48,7 +48,7 @@ class EncryptParam(BaseParam):
             raise ValueError(
                 "encrypt_param's method {} not supported, should be str type".format(
                     self.method))
-        else:
+        elif self.method is not None:
             user_input = self.method.lower()
             if user_input == 'paillier':
                 self.method = consts.PAILLIER
-- 
2.43.0


From 40e9bd515c652f56bf71756876fd3636f77aeecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:54 +0000
Subject: [PATCH 12/16] fix: binning and training no longer change the caller's
 instances

---
 ml/feature/binning/base_binning.py | 5 ++++-
 ml/tree/boosting_tree.py           | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/ml/feature/binning/base_binning.py b/ml/feature/binning/base_binning.py
index c433b9d..147e7bf 100644
--- a/ml/feature/binning/base_binning.py
+++ b/ml/feature/binning/base_binning.py
@@ -1,3 +1,4 @@
+import copy
 import functools
 import math
 
@@ -133,12 +134,14 @@ class Binning:
                 sparse_value.append(col_value)
 
         sparse_vector = SparseVector(indice, sparse_value, data_shape)
+        instances = copy.copy(instances)
         instances.features = sparse_vector
         return instances
 
     @staticmethod
     def _convert_dense_data(instances, transform_cols_idx, split_points_dict, header):
-        features = instances.features
+        instances = copy.copy(instances)
+        features = copy.copy(instances.features)
         for col_idx, col_value in enumerate(features):
             if col_idx in transform_cols_idx:
                 col_name = header[col_idx]
diff --git a/ml/tree/boosting_tree.py b/ml/tree/boosting_tree.py
index 7e00998..0983f1e 100644
--- a/ml/tree/boosting_tree.py
+++ b/ml/tree/boosting_tree.py
@@ -1,5 +1,6 @@
 
 from computing.d_table import DTable
+import copy
 import numpy as np
 from ml.param.boosting_tree_param import BoostingTreeParam
 from ml.utils import consts
@@ -62,6 +63,7 @@ class BoostingTree(ModelBase):
                 indices.append(i)
                 data.append(row.features[i])
 
+            row = copy.copy(row)
             row.features = SparseVector(indices, data, feature_shape)
 
         return row
-- 
2.43.0


From e480ad1105ff84877da7c213546bb724a1a0201c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:19 +0000
Subject: [PATCH 13/16] fix: the run workflow keeps the evaluation predictions
 in its output

---
 ml/model_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml/model_base.py b/ml/model_base.py
index 933e193..409ae17 100644
--- a/ml/model_base.py
+++ b/ml/model_base.py
@@ -105,7 +105,7 @@ class ModelBase(object):
                         predict_output_res = eval_data_predict_res.mapValues(lambda d: d + ["validation"])
 
                         if self.data_output:
-                            self.data_output.union(predict_output_res)
+                            self.data_output = self.data_output.union(predict_output_res)
                         else:
                             self.data_output = predict_output_res
 
@@ -134,7 +134,7 @@ class ModelBase(object):
                     eval_data_output = eval_data_output.mapValues(lambda value: value + ["validation"])
 
                 if self.data_output and eval_data_output:
-                    self.data_output.union(eval_data_output)
+                    self.data_output = self.data_output.union(eval_data_output)
                 elif not self.data_output and eval_data_output:
                     self.data_output = eval_data_output
 
-- 
2.43.0


From a7a67490eca97ef4dc0925e60c83b07b09171bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:07 +0000
Subject: [PATCH 14/16] fix: hosts receive the tree without leaf weights and
 sums of gradients

---
 ml/tree/hetero_decision_tree_guest.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ml/tree/hetero_decision_tree_guest.py b/ml/tree/hetero_decision_tree_guest.py
index ac1e371..8f5b8f6 100644
--- a/ml/tree/hetero_decision_tree_guest.py
+++ b/ml/tree/hetero_decision_tree_guest.py
@@ -306,7 +306,11 @@ class HeteroDecisionTreeGuest(DecisionTree):
     def sync_tree(self):
         self.logger.info("sync tree to host")
 
-        self.transfer_inst.send_data_to_hosts(self.tree_, -1)
+        # hosts need the structure only, not the leaf weights and the sums of gradients
+        mask_tree = [Node(id=node.id, sitename=node.sitename, fid=node.fid, bid=node.bid,
+                          is_leaf=node.is_leaf, left_nodeid=node.left_nodeid,
+                          right_nodeid=node.right_nodeid) for node in self.tree_]
+        self.transfer_inst.send_data_to_hosts(mask_tree, -1)
 
         # federation.remote(obj=self.tree_,
         #                   name=self.transfer_inst.tree.name,
-- 
2.43.0


From 6883cb182b2a9630c7b5ea72fb3a9d75b8df1268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:56 +0000
Subject: [PATCH 15/16] fix: reduce folds values and intermediate results that
 are None

---
 computing/d_table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/computing/d_table.py b/computing/d_table.py
index 530a8f1..5d05d0b 100644
--- a/computing/d_table.py
+++ b/computing/d_table.py
@@ -89,8 +89,8 @@ class DTable(CTableABC):
 
     def reduce(self, func: typing.Callable):
         ret_val = None
-        for v in self.__data.values():
-            if ret_val is None:
+        for i, v in enumerate(self.__data.values()):
+            if i == 0:
                 ret_val = v
             else:
                 ret_val = func(ret_val, v)
-- 
2.43.0


From dfd553af83fc94787d4339d803571e8b9e49fc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:06 +0000
Subject: [PATCH 16/16] fix: the host's training entry point reads the host's
 file

---
 host.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/host.py b/host.py
index 7fda1a3..5541aba 100644
--- a/host.py
+++ b/host.py
@@ -90,7 +90,7 @@ def heteto_sbt_host():
 
     # 从文件读取数据
     # header, ids, features, lables = read_from_csv('data/breast_hetero_mini/breast_hetero_mini_guest.csv')
-    header, ids, features= read_from_csv_with_no_lable('data/breast_hetero/breast_hetero_guest.csv')
+    header, ids, features= read_from_csv_with_no_lable('data/breast_hetero/breast_hetero_host.csv')
     instances = []
     for i, feature in enumerate(features):
         inst = Instance(inst_id=ids[i], features=feature)
-- 
2.43.0

