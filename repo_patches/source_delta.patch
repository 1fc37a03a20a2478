From c221c7921e0d53abb53f86c08e249b464adf14f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:47 +0000
Subject: [PATCH 01/17] fix: trinary tensor views keep their third operand

---
 src/types/base_tensors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/base_tensors.hpp b/src/types/base_tensors.hpp
index aa54f1b..b248a37 100644
--- a/src/types/base_tensors.hpp
+++ b/src/types/base_tensors.hpp
@@ -737,7 +737,7 @@ namespace happyml {
                                                const shared_ptr<BaseTensor> &tensor3) {
             this->left_child_ = tensor1;
             this->middle_child_ = tensor2;
-            this->right_child_ = tensor2;
+            this->right_child_ = tensor3;
         }
 
         bool contains(const shared_ptr<BaseTensor> &other) override {
-- 
2.43.0


From 2464a18fd72f99390afcd8fc6e3cf00afc981692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:47 +0000
Subject: [PATCH 02/17] fix: getRowValues reads the requested channel

---
 src/types/base_tensors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/base_tensors.hpp b/src/types/base_tensors.hpp
index b248a37..a4ff99d 100644
--- a/src/types/base_tensors.hpp
+++ b/src/types/base_tensors.hpp
@@ -203,7 +203,7 @@ namespace happyml {
             vector<float> nextRow;
             size_t columnCount1 = columnCount();
             for (size_t col = 0; col < columnCount1; col++) {
-                nextRow.push_back(getValue(row, col, 0));
+                nextRow.push_back(getValue(row, col, channel));
             }
             return nextRow;
         }
-- 
2.43.0


From a39a13202c65bff6ea9fc6b4053c8e941b59a446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:47 +0000
Subject: [PATCH 03/17] fix: matrix division multiplies by the column of the
 inverse

---
 src/types/tensor_views/matrix_divide_tensor_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/tensor_views/matrix_divide_tensor_view.hpp b/src/types/tensor_views/matrix_divide_tensor_view.hpp
index 58b177a..491e642 100644
--- a/src/types/tensor_views/matrix_divide_tensor_view.hpp
+++ b/src/types/tensor_views/matrix_divide_tensor_view.hpp
@@ -49,7 +49,7 @@ namespace happyml {
             // Compute the inverse of the right_child_ matrix for the given row, column, channel
             float val = 0;
             for (size_t col = 0; col < left_child_->columnCount(); col++) {
-                val += left_child_->getValue(row, col, channel) * right_child_->getValue(row, col, channel);
+                val += left_child_->getValue(row, col, channel) * right_child_->getValue(col, column, channel);
             }
             return val;
         }
-- 
2.43.0


From 5e3f70f8936656ee419f3e12db485e64f6e37933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:07 +0000
Subject: [PATCH 04/17] fix: full 2d cross correlation pads by kernel size
 minus one

---
 .../full_2d_cross_correlation_tensor_view.hpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/types/tensor_views/full_2d_cross_correlation_tensor_view.hpp b/src/types/tensor_views/full_2d_cross_correlation_tensor_view.hpp
index 4e5fae2..4b0f375 100644
--- a/src/types/tensor_views/full_2d_cross_correlation_tensor_view.hpp
+++ b/src/types/tensor_views/full_2d_cross_correlation_tensor_view.hpp
@@ -15,24 +15,17 @@
 namespace happyml {
 // https://en.wikipedia.org/wiki/Cross-correlation
 // https://en.wikipedia.org/wiki/Two-dimensional_correlation_analysis
-// Having an even number of values in your filter is a little wierd, but I handle it
-// you'll see where I do the rounding, it's so that a 2x2 filter or a 4x4 filter would work.
-// I think most filters are odd numbers because even filters don't make much sense,
-// but I wanted the code to work. The center of your filter is at a halfway point,
-// which is why it's weird.
+// A full correlation pads every side by one less than the kernel, so that each output is computed from every
+// position where the kernel and the tensor overlap by at least one element.
     class Full2DCrossCorrelationTensorView : public Valid2DCrossCorrelationTensorView {
     public:
         Full2DCrossCorrelationTensorView(const shared_ptr<BaseTensor> &tensor, const shared_ptr<BaseTensor> &kernel)
                 : Valid2DCrossCorrelationTensorView(
                 make_shared<ZeroPadTensorView>(tensor,
-                                                           (kernel->rowCount() > 1) *
-                                                           (size_t) std::round(((double) kernel->rowCount()) / 2.0),
-                                                           (kernel->rowCount() > 1) *
-                                                           (size_t) std::round(((double) kernel->rowCount()) / 2.0),
-                                                           (kernel->columnCount() > 1) *
-                                                           (size_t) std::round(((double) kernel->columnCount()) / 2.0),
-                                                           (kernel->columnCount() > 1) *
-                                                           (size_t) std::round(((double) kernel->columnCount()) / 2.0)),
+                                               kernel->rowCount() - 1,
+                                               kernel->rowCount() - 1,
+                                               kernel->columnCount() - 1,
+                                               kernel->columnCount() - 1),
                 kernel) {
         }
 
-- 
2.43.0


From 0eca1b2f6fdf3684367fb5a90d12e85c8b02dbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:30 +0000
Subject: [PATCH 05/17] fix: every NaN encodes to the 8 bit NaN

---
 src/types/quarter_float.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/types/quarter_float.hpp b/src/types/quarter_float.hpp
index 9f8a0cf..5567082 100644
--- a/src/types/quarter_float.hpp
+++ b/src/types/quarter_float.hpp
@@ -103,11 +103,13 @@ namespace happyml {
         const uint32_t result_bits = (special_case_tiny) * 0b10000000 +
                                      (!special_case_tiny) * prepped_bits;
 
-        return (encoded_value == FLOAT_NEG_NAN || encoded_value == FLOAT_POS_NAN) * QUARTER_NAN +
+        // any NaN, not only the two default ones: an all-ones exponent with a mantissa
+        const uint32_t is_nan = (encoded_value & 0x7FFFFFFF) > FLOAT_INF;
+
+        return is_nan * QUARTER_NAN +
                (encoded_value == FLOAT_INF) * QUARTER_POS_INFINITY
                + (encoded_value == FLOAT_NEG_INF) * QUARTER_NEG_INFINITY +
-               ((encoded_value != FLOAT_NEG_NAN && encoded_value != FLOAT_POS_NAN) && (encoded_value != FLOAT_INF) &&
-                (encoded_value != FLOAT_NEG_INF)) *
+               (!is_nan && (encoded_value != FLOAT_INF) && (encoded_value != FLOAT_NEG_INF)) *
                result_bits;
     }
 
-- 
2.43.0


From 996ba6dba42e587f627ceca2c16f9ba2b288f3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:52 +0000
Subject: [PATCH 06/17] fix: the euclidean norm of a zero tensor is zero, not
 NaN

---
 src/types/base_tensors.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/types/base_tensors.hpp b/src/types/base_tensors.hpp
index a4ff99d..dd7b38f 100644
--- a/src/types/base_tensors.hpp
+++ b/src/types/base_tensors.hpp
@@ -452,6 +452,10 @@ namespace happyml {
             const size_t cols = columnCount();
             const size_t maxChannels = channelCount();
             auto max_abs_val = (double) max_abs();
+            if (max_abs_val == 0) {
+                // nothing to scale by, and 0 / 0 would make the norm NaN
+                return 0.0f;
+            }
             for (size_t channel = 0; channel < maxChannels; channel++) {
                 for (size_t row = 0; row < rows; row++) {
                     for (size_t col = 0; col < cols; col++) {
-- 
2.43.0


From 8d0e8df07fb28e950afd824888f9ab24781eeb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:52 +0000
Subject: [PATCH 07/17] fix: standardizing a tensor uses its actual mean

---
 src/types/tensor_views/standardize_tensor_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/tensor_views/standardize_tensor_view.hpp b/src/types/tensor_views/standardize_tensor_view.hpp
index cadb636..6b67367 100644
--- a/src/types/tensor_views/standardize_tensor_view.hpp
+++ b/src/types/tensor_views/standardize_tensor_view.hpp
@@ -19,7 +19,7 @@ namespace happyml {
             for (size_t element = 0; element < total_elements; ++element) {
                 double value = tensor->getValue(element);
                 double delta = value - mean;
-                mean += delta / total_elements;
+                mean += delta / (double) (element + 1);
                 double delta2 = value - mean;
                 M2 += delta * delta2;
             }
-- 
2.43.0


From 96b1d27db4f821896cfe2af10b9c274824a1c830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:46 +0000
Subject: [PATCH 08/17] fix: absolute error losses differentiate to the sign of
 the error

---
 src/ml/losses/mae_loss.hpp  | 5 ++++-
 src/ml/losses/smae_loss.hpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ml/losses/mae_loss.hpp b/src/ml/losses/mae_loss.hpp
index c872257..01da952 100644
--- a/src/ml/losses/mae_loss.hpp
+++ b/src/ml/losses/mae_loss.hpp
@@ -7,6 +7,7 @@
 #define HAPPYML_MAE_LOSS_HPP
 
 #include "../../types/tensor_views/absolute_tensor_view.hpp"
+#include "../../types/tensor_views/value_transform_tensor_view.hpp"
 
 namespace happyml {
     // Also known as L1 loss
@@ -32,7 +33,9 @@ namespace happyml {
             shared_ptr<BaseTensor> accumulatedLossDerivative;
             // Derivative of mean absolute error = sign(prediction_i - truth_i)
             shared_ptr<BaseTensor> error_diff = make_shared<SubtractTensorView>(prediction, truth);
-            shared_ptr<BaseTensor> currentLossDerivative = make_shared<ScalarMultiplyTensorView>(error_diff, -1.0f);
+            shared_ptr<BaseTensor> currentLossDerivative = make_shared<ValueTransformTensorView>(error_diff, [](float diff) {
+                return (float) (diff > 0.0f) - (float) (diff < 0.0f);
+            });
             return currentLossDerivative;
         }
     };
diff --git a/src/ml/losses/smae_loss.hpp b/src/ml/losses/smae_loss.hpp
index b1074c5..fcce0f0 100644
--- a/src/ml/losses/smae_loss.hpp
+++ b/src/ml/losses/smae_loss.hpp
@@ -8,6 +8,7 @@
 
 #include "../../types/tensor_views/less_than_scalar_tensor_view.hpp"
 #include "../../types/tensor_views/masked_select_tensor_view.hpp"
+#include "../../types/tensor_views/value_transform_tensor_view.hpp"
 
 namespace happyml {
     // Also known as Smooth L1 loss, Smooth Mean Absolute Error loss, or Huber loss
@@ -51,7 +52,9 @@ namespace happyml {
             shared_ptr<BaseTensor> error_diff = make_shared<SubtractTensorView>(prediction, truth);
             shared_ptr<BaseTensor> abs_error_diff = make_shared<AbsoluteTensorView>(error_diff);
             shared_ptr<BaseTensor> smooth_derivative = make_shared<ScalarMultiplyTensorView>(error_diff, 1.0f / smoothness);
-            shared_ptr<BaseTensor> unsmooth_derivative = make_shared<ScalarMultiplyTensorView>(error_diff, -1.0f);
+            shared_ptr<BaseTensor> unsmooth_derivative = make_shared<ValueTransformTensorView>(error_diff, [](float diff) {
+                return (float) (diff > 0.0f) - (float) (diff < 0.0f);
+            });
 
             shared_ptr<BaseTensor> smooth_mask = make_shared<LessThanScalarTensorView>(abs_error_diff, smoothness);
             shared_ptr<BaseTensor> currentLossDerivative = make_shared<MaskedSelectTensorView>(smooth_mask, smooth_derivative, unsmooth_derivative);
-- 
2.43.0


From 5e932478c989d28aef42f4ff457080a1e6d9d93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:58 +0000
Subject: [PATCH 09/17] fix: dropout scales predictions by the share of inputs
 kept in training

---
 src/ml/layers/dropout_layer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/layers/dropout_layer.hpp b/src/ml/layers/dropout_layer.hpp
index 5876c1f..c867515 100644
--- a/src/ml/layers/dropout_layer.hpp
+++ b/src/ml/layers/dropout_layer.hpp
@@ -16,7 +16,7 @@ namespace happyml {
             if (dropout_rate < 0.0 || dropout_rate > 1.0) {
                 throw runtime_error("DropoutLayer: dropout rate must be between 0 and 1.");
             }
-            forward_scale_ = 1.0f / (1.0f - dropout_rate_);
+            forward_scale_ = 1.0f - dropout_rate_;
             output_shape_ = input_shape_;
         }
 
-- 
2.43.0


From 7a98f24962acd8e8cfeaaec31f1327dad0027da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:58 +0000
Subject: [PATCH 10/17] fix: L2 regularization of a convolution uses its
 weights

---
 src/ml/layers/convolution_2d_valid_layer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/layers/convolution_2d_valid_layer.hpp b/src/ml/layers/convolution_2d_valid_layer.hpp
index 61d6fb7..f6cae00 100644
--- a/src/ml/layers/convolution_2d_valid_layer.hpp
+++ b/src/ml/layers/convolution_2d_valid_layer.hpp
@@ -143,7 +143,7 @@ namespace happyml {
                                                                                                             outputErrorForLayer);
                     if (use_l2_regularization) {
                         PROFILE_BLOCK(profileBlock2);
-                        auto l2_regularization = make_shared<ScalarMultiplyTensorView>(nextWeightError, regularization_strength);
+                        auto l2_regularization = make_shared<ScalarMultiplyTensorView>(weightForInputLayer, regularization_strength);
                         nextWeightError = make_shared<AddTensorView>(nextWeightError, l2_regularization);
                     }
                     const auto nextWeightToInputChannel = make_shared<SumToChannelTensorView>(nextWeightError,
-- 
2.43.0


From 582ad0a7f6e43e7387d818b67c5339f0fa66867e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:58 +0000
Subject: [PATCH 11/17] fix: a convolution hands back its input error channel
 by channel

---
 src/ml/layers/convolution_2d_valid_layer.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ml/layers/convolution_2d_valid_layer.hpp b/src/ml/layers/convolution_2d_valid_layer.hpp
index f6cae00..fa5ee2a 100644
--- a/src/ml/layers/convolution_2d_valid_layer.hpp
+++ b/src/ml/layers/convolution_2d_valid_layer.hpp
@@ -156,8 +156,7 @@ namespace happyml {
 
             weight_changes.push(output_layers_weight_changes);
 
-            const auto resultError = make_shared<SumChannelsTensorView>(inputError);
-            return {resultError};
+            return {inputError};
         }
 
         void apply(const shared_ptr<BaseOptimizer> &optimizer) override {
-- 
2.43.0


From 0f11d62105981cd36d8c789477e111ead2b6a774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:17 +0000
Subject: [PATCH 12/17] fix: softmax derivative scaled the error by the raw
 input instead of passing it on

---
 src/ml/activators/softmax_activation_function.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ml/activators/softmax_activation_function.hpp b/src/ml/activators/softmax_activation_function.hpp
index 69686a8..8637bc5 100644
--- a/src/ml/activators/softmax_activation_function.hpp
+++ b/src/ml/activators/softmax_activation_function.hpp
@@ -9,6 +9,7 @@
 #include "../types/tensor_views/value_transform_with_double_tensor_view.hpp"
 #include "../../types/tensor_views/exponential_tensor_view.hpp"
 #include "../../types/tensor_views/scalar_subtract_tensor_view.hpp"
+#include "../../types/tensor_impls/uniform_tensor.hpp"
 
 
 namespace happyml {
@@ -27,8 +28,9 @@ namespace happyml {
         }
 
         std::shared_ptr<BaseTensor> derivative(const std::shared_ptr<BaseTensor> &input) override {
-            // shortcut. We don't explicitly compute the Jacobian matrix because this is always used before categorical cross-entropy loss
-            return input;
+            // shortcut. We don't explicitly compute the Jacobian matrix because this is always used before categorical cross-entropy loss,
+            // whose derivative (prediction - truth) already is the derivative by the input of softmax.
+            return make_shared<UniformTensor>(input->getShape(), 1.0f);
         }
     };
 }
-- 
2.43.0


From 87165597b6b73f42da27dc83bc5f06efc2ffffc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:27 +0000
Subject: [PATCH 13/17] fix: flatten layer handles several channels

---
 src/ml/happyml_dsl.hpp                         |  4 ++--
 src/ml/layers/flatten_layer.hpp                |  9 ++++++---
 src/types/tensor_views/reshape_tensor_view.hpp | 12 ++++++++----
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index fb703bf..0e57ebc 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -418,7 +418,7 @@ namespace happyml {
                 shared_ptr<NeuralNetworkNode> last_node = nullptr;
                 if (node_type == LayerType::full) {
                     auto inputShape = inputShapes[0];
-                    if (inputShape[0] > 1) {
+                    if (inputShape[0] > 1 || inputShape[2] > 1) {
                         auto flatten_node = make_shared<NeuralNetworkNode>(make_shared<FlattenLayer>());
                         last_node = appendNode(last_node, flatten_node);
                     }
@@ -454,7 +454,7 @@ namespace happyml {
                     next_node = make_shared<NeuralNetworkNode>(make_shared<NormalizationLayer>());
                 } else if (node_type == LayerType::dropout) {
                     auto inputShape = inputShapes[0];
-                    if (inputShape[0] > 1) {
+                    if (inputShape[0] > 1 || inputShape[2] > 1) {
                         auto flatten_node = make_shared<NeuralNetworkNode>(make_shared<FlattenLayer>());
                         last_node = appendNode(last_node, flatten_node);
                     }
diff --git a/src/ml/layers/flatten_layer.hpp b/src/ml/layers/flatten_layer.hpp
index 9aab991..7974149 100644
--- a/src/ml/layers/flatten_layer.hpp
+++ b/src/ml/layers/flatten_layer.hpp
@@ -18,7 +18,8 @@ namespace happyml {
             const auto &nextInput = input[0];
             originalCols = nextInput->columnCount();
             originalRows = nextInput->rowCount();
-            if (originalRows == 1) {
+            originalChannels = nextInput->channelCount();
+            if (originalRows == 1 && originalChannels == 1) {
                 // This flatten function was added unnecessarily. We could throw an exception.
                 return nextInput;
             }
@@ -27,16 +28,18 @@ namespace happyml {
 
         vector<shared_ptr<BaseTensor>> backward(const shared_ptr<BaseTensor> &output_error) override {
             PROFILE_BLOCK(profileBlock);
-            if (originalRows == output_error->rowCount() && originalCols == output_error->columnCount()) {
+            if (originalRows == output_error->rowCount() && originalCols == output_error->columnCount() &&
+                originalChannels == output_error->channelCount()) {
                 // This flatten function was added unnecessarily. We could throw an exception.
                 return {output_error};
             }
-            return {make_shared<ReshapeTensorView>(output_error, originalRows, originalCols)};
+            return {make_shared<ReshapeTensorView>(output_error, originalRows, originalCols, originalChannels)};
         }
 
     private:
         size_t originalRows{};
         size_t originalCols{};
+        size_t originalChannels{};
     };
 }
 #endif //HAPPYML_FLATTEN_LAYER_HPP
diff --git a/src/types/tensor_views/reshape_tensor_view.hpp b/src/types/tensor_views/reshape_tensor_view.hpp
index 10db4d9..050932f 100644
--- a/src/types/tensor_views/reshape_tensor_view.hpp
+++ b/src/types/tensor_views/reshape_tensor_view.hpp
@@ -18,11 +18,9 @@ namespace happyml {
                           const size_t columns, const size_t channels) : BaseTensorUnaryOperatorView(tensor) {
             this->rows = rows;
             this->columns = columns;
-            if (channels != tensor->channelCount()) {
-                throw runtime_error("A tensor view must be put over a tensor with the same number of channels.");
-            }
+            this->channels = channels;
             this->elements_per_channel = (unsigned long) rows * (unsigned long) columns;
-            if (tensor->elementsPerChannel() != elements_per_channel) {
+            if (tensor->size() != elements_per_channel * (unsigned long) channels) {
                 throw runtime_error("A tensor view must be put over a tensor with the same number of elements.");
             }
         }
@@ -31,6 +29,7 @@ namespace happyml {
                           const size_t columns) : BaseTensorUnaryOperatorView(tensor) {
             this->rows = rows;
             this->columns = columns;
+            this->channels = tensor->channelCount();
             this->elements_per_channel = (unsigned long) rows * (unsigned long) columns;
             if (tensor->elementsPerChannel() != elements_per_channel) {
                 throw runtime_error("A tensor view must be put over a tensor with the same number of elements.");
@@ -50,6 +49,10 @@ namespace happyml {
             return columns;
         }
 
+        size_t channelCount() override {
+            return channels;
+        }
+
         float getValue(size_t row, size_t column, size_t channel) override {
             const unsigned long position_offset = ((row * columns) + column) + (channel * elements_per_channel);
             return child_->getValue(position_offset);
@@ -58,6 +61,7 @@ namespace happyml {
     private:
         size_t rows;
         size_t columns;
+        size_t channels;
         unsigned long elements_per_channel;
     };
 }
-- 
2.43.0


From 5f0e4ea6abe765a958c98d5b878de005a6cba92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:27 +0000
Subject: [PATCH 14/17] fix: saving without overwriting keeps the knowledge
 with its model

---
 src/ml/neural_network.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index 0eb9e58..568652d 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -238,7 +238,7 @@ namespace happyml {
                 writer->writeRecord(record);
             }
             writer->close();
-            saveKnowledge(modelFolderPath, "default", overwrite);
+            saveKnowledge(modelPath, "default", overwrite);
         }
 
         void saveKnowledgeWithOverwrite(const string &knowledgeLabel) {
-- 
2.43.0


From 47eb9ec68dc6714d6da1eb2a480adb4f50f8c592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:56 +0000
Subject: [PATCH 15/17] fix: renormalize every column with its own target, not
 the first one's

---
 src/util/file_reader.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/util/file_reader.hpp b/src/util/file_reader.hpp
index 68beaa9..ab4a634 100644
--- a/src/util/file_reader.hpp
+++ b/src/util/file_reader.hpp
@@ -266,19 +266,22 @@ namespace happyml {
                                                             renormalize_given_metadata_[given_offset]->mean, renormalize_given_metadata_[given_offset]->standard_deviation);
                 }
                 given_tensors.push_back(next_tensor);
+                given_offset++;
             }
             vector<shared_ptr<BaseTensor>> expected_tensors;
+            size_t expected_offset = 0;
             for (const auto &metadata: expected_metadata_) {
                 shared_ptr<BaseTensor> next_tensor = loadTensor(metadata);
                 if (!renormalize_expected_metadata_.empty()) {
                     next_tensor = renormalizeAndStandardize(next_tensor, metadata->is_normalized, metadata->is_standardized,
                                                             metadata->min_value, metadata->max_value,
                                                             metadata->mean, metadata->standard_deviation,
-                                                            renormalize_expected_metadata_[given_offset]->is_normalized, renormalize_expected_metadata_[given_offset]->is_standardized,
-                                                            renormalize_expected_metadata_[given_offset]->min_value, renormalize_expected_metadata_[given_offset]->max_value,
-                                                            renormalize_expected_metadata_[given_offset]->mean, renormalize_expected_metadata_[given_offset]->standard_deviation);
+                                                            renormalize_expected_metadata_[expected_offset]->is_normalized, renormalize_expected_metadata_[expected_offset]->is_standardized,
+                                                            renormalize_expected_metadata_[expected_offset]->min_value, renormalize_expected_metadata_[expected_offset]->max_value,
+                                                            renormalize_expected_metadata_[expected_offset]->mean, renormalize_expected_metadata_[expected_offset]->standard_deviation);
                 }
                 expected_tensors.push_back(next_tensor);
+                expected_offset++;
             }
             return {given_tensors, expected_tensors};
         }
-- 
2.43.0


From f17998c841ef897ca24c88a61607f0947a70e687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:43 +0000
Subject: [PATCH 16/17] fix: a constant column normalizes to zero instead of
 NaN

---
 src/types/tensor_views/normalize_tensor_view.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/types/tensor_views/normalize_tensor_view.hpp b/src/types/tensor_views/normalize_tensor_view.hpp
index 241a05e..67c0744 100644
--- a/src/types/tensor_views/normalize_tensor_view.hpp
+++ b/src/types/tensor_views/normalize_tensor_view.hpp
@@ -18,11 +18,19 @@ namespace happyml {
             min_val_ = range.first;
             max_val_ = range.second;
             val_range_ = max_val_ - min_val_;
+            if (val_range_ == 0.0f) {
+                // all values are the same: they normalize to zero
+                val_range_ = 1.0f;
+            }
         }
 
         explicit NormalizeTensorView(const shared_ptr<BaseTensor> &tensor, float min_val, float max_val)
                 : BaseTensorUnaryOperatorView(tensor), min_val_(min_val), max_val_(max_val) {
             val_range_ = max_val_ - min_val_;
+            if (val_range_ == 0.0f) {
+                // all values are the same: they normalize to zero
+                val_range_ = 1.0f;
+            }
         }
 
         float getValue(size_t row, size_t column, size_t channel) override {
-- 
2.43.0


From e545e8328ffa751b4459828586b0b75758ddda46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:43 +0000
Subject: [PATCH 17/17] fix: a normalized dataset keeps the number of source
 columns

---
 src/util/dataset_utils.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/dataset_utils.hpp b/src/util/dataset_utils.hpp
index c246212..0448b0b 100644
--- a/src/util/dataset_utils.hpp
+++ b/src/util/dataset_utils.hpp
@@ -187,6 +187,7 @@ namespace happyml {
                                                                                         binaryDatasetReader.getGivenTensorPurpose(i),
                                                                                         binaryDatasetReader.getGivenTensorOrderedLabels(i),
                                                                                         binaryDatasetReader.get_given_name(i));
+            next_metadata->source_column_count = binaryDatasetReader.get_given_metadata(i)->source_column_count;
             given_metadata.emplace_back(next_metadata);
             given_standardization_values.emplace_back(make_shared<StandardizationAndNormalizationValues>());
             if (given_metadata[i]->purpose == 'N') {
@@ -202,6 +203,7 @@ namespace happyml {
                                                                                         binaryDatasetReader.getExpectedTensorPurpose(i),
                                                                                         binaryDatasetReader.getExpectedTensorOrderedLabels(i),
                                                                                         binaryDatasetReader.get_expected_name(i));
+            next_metadata->source_column_count = binaryDatasetReader.get_expected_metadata(i)->source_column_count;
             expected_metadata.emplace_back(next_metadata);
             expected_standardization_values.emplace_back(make_shared<StandardizationAndNormalizationValues>());
             if (expected_metadata[i]->purpose == 'N') {
-- 
2.43.0

