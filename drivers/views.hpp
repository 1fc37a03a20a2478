#pragma once
#include "types/base_tensors.hpp"
#include "util/tensor_utils.hpp"
#include "types/tensor_impls/full_tensor.hpp"
#include "types/tensor_impls/half_tensor.hpp"
#include "types/tensor_impls/identity_tensor.hpp"
#include "types/tensor_impls/pixel_tensor.hpp"
#include "types/tensor_impls/quarter_tensor.hpp"
#include "types/tensor_impls/tensor_allocators.hpp"
#include "types/tensor_impls/tensor_from_function.hpp"
#include "types/tensor_impls/tensor_from_random.hpp"
#include "types/tensor_impls/tensor_from_xavier.hpp"
#include "types/tensor_impls/uniform_tensor.hpp"
#include "types/tensor_views/absolute_tensor_view.hpp"
#include "types/tensor_views/add_tensor_view.hpp"
#include "types/tensor_views/channel_to_tensor_view.hpp"
#include "types/tensor_views/clip_tensor_view.hpp"
#include "types/tensor_views/column_flatten_tensor_view.hpp"
#include "types/tensor_views/denormalize_tensor_view.hpp"
#include "types/tensor_views/diagonal_tensor_view.hpp"
#include "types/tensor_views/dot_product_tensor_view.hpp"
#include "types/tensor_views/element_wise_divide_tensor_view.hpp"
#include "types/tensor_views/element_wise_inverse_tensor_view.hpp"
#include "types/tensor_views/element_wise_multiply_tensor_view.hpp"
#include "types/tensor_views/exponential_tensor_view.hpp"
#include "types/tensor_views/full_2d_convolve_tensor_view.hpp"
#include "types/tensor_views/full_2d_cross_correlation_tensor_view.hpp"
#include "types/tensor_views/inverse_tensor_view.hpp"
#include "types/tensor_views/less_than_scalar_tensor_view.hpp"
#include "types/tensor_views/log2_tensor_view.hpp"
#include "types/tensor_views/log_tensor_view.hpp"
#include "types/tensor_views/masked_select_tensor_view.hpp"
#include "types/tensor_views/matrix_divide_tensor_view.hpp"
#include "types/tensor_views/matrix_multiply_tensor_view.hpp"
#include "types/tensor_views/noop_tensor_view.hpp"
#include "types/tensor_views/normalize_tensor_view.hpp"
#include "types/tensor_views/outer_product_tensor_view.hpp"
#include "types/tensor_views/power_tensor_view.hpp"
#include "types/tensor_views/reshape_tensor_view.hpp"
#include "types/tensor_views/rotate_180_tensor_view.hpp"
#include "types/tensor_views/round_tensor_view.hpp"
#include "types/tensor_views/row_flatten_tensor_view.hpp"
#include "types/tensor_views/scalar_add_tensor_view.hpp"
#include "types/tensor_views/scalar_divide_tensor_view.hpp"
#include "types/tensor_views/scalar_multiply_tensor_view.hpp"
#include "types/tensor_views/scalar_subtract_tensor_view.hpp"
#include "types/tensor_views/softmax_derivative_tensor_view.hpp"
#include "types/tensor_views/sqrt_tensor_view.hpp"
#include "types/tensor_views/standardize_derivative_tensor_view.hpp"
#include "types/tensor_views/standardize_tensor_view.hpp"
#include "types/tensor_views/subtract_tensor_view.hpp"
#include "types/tensor_views/sum_channels_tensor_view.hpp"
#include "types/tensor_views/sum_to_channel_tensor_view.hpp"
#include "types/tensor_views/transpose_tensor_view.hpp"
#include "types/tensor_views/unstandardize_tensor_view.hpp"
#include "types/tensor_views/valid_2d_cross_correlation_tensor_view.hpp"
#include "types/tensor_views/value_transform_tensor_view.hpp"
#include "types/tensor_views/value_transform_with_double_tensor_view.hpp"
#include "types/tensor_views/window_tensor_view.hpp"
#include "types/tensor_views/zero_pad_tensor_view.hpp"
