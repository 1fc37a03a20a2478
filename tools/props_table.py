# exec'd by props.py
prop('C01', 'Binary numbers are written most significant byte first',
     'Converting a 16, 32 or 64 bit number to its portable form puts its most significant byte first in memory whatever the value, and converting it '
     'again restores the number. Reading a portable 32 bit pattern as a float gives exactly the float whose bits were stored.',
     'every 16, 32 and 64 bit value', 'the unit test converts a handful of values of each width; a mistake in one byte lane shows only for values that use it',
     ['src/util/portable_bytes.hpp'], [('byte swap', 'portableBytes'), ('float reinterpretation', 'portableFloat')],
     'Bit-precise (bit vectors), no bound.')
prop('C02', '16 bit floats keep sign, exponent and the top 7 mantissa bits',
     'Storing a number as a 16 bit float and reading it back gives the number with its mantissa cut to the top 7 bits: never larger in magnitude, never '
     'reordering two numbers, exact for numbers that fit, infinities with their sign and NaN as NaN. Every non-NaN 16 bit code survives being decoded and encoded again, and a NaN code decodes to NaN.',
     'every 32 bit float pattern and every 16 bit code', 'the tests check a few dozen values of the 2^32 float patterns',
     ['src/types/half_float.hpp'], [('truncation', 'floatToHalf'), ('widening', 'halfToFloat')], 'Bit-precise IEEE semantics, no bound.')
prop('C03', '8 bit floats round, clamp and order as their bias promises',
     'For every bias from 0 to 15 (0 acts as 1), a number within the representable range [17/16*2^-bias, 2^(15-bias)) keeps its sign and power of two and is off by at most half a step '
     '(one step in the topmost step of a binade); larger ones clamp to the largest value of that sign, smaller ones become zero or the positive tiny value, infinities keep their '
     'sign and every NaN stays NaN. Larger non-negative numbers never decode below smaller ones. Every code with a regular exponent, infinity or NaN survives decode and encode again (the tiny code for biases below 12).',
     'every 32 bit float pattern, every 8 bit code, every bias 0..15', 'the tests sample a few values per bias; rounding, clamping and the special codes each fail only on particular bit patterns',
     ['src/types/quarter_float.hpp'], [('branch-free encoder', 'floatToQuarter'), ('decoder', 'quarterToFloat')], 'Bit-precise IEEE semantics, enumerated biases 0..15, no bound on values.')
_V = 'src/types/tensor_views/'
prop('C04', 'Element-wise tensor operations compute their formula at every coordinate',
     'Every element-wise operation (add, subtract, multiply, divide, scalar variants, power, square root, log, exponential, absolute value, clip, round, inverse, comparison, masked selection, transforms, normalize/denormalize with given parameters) '
     'yields a tensor of the operand\'s shape whose element at each row, column and channel is the operation applied to the operands\' elements at that same coordinate. '
     'Operands of different shapes are rejected with an exception for the two-operand arithmetic operations.',
     'every shape, every coordinate, every operand value', 'the tests evaluate a few small tensors (mostly one channel), so mistakes in one coordinate, channel or shape check stay unseen',
     [_V + x for x in ('add_tensor_view.hpp', 'subtract_tensor_view.hpp', 'element_wise_multiply_tensor_view.hpp', 'element_wise_divide_tensor_view.hpp', 'scalar_add_tensor_view.hpp', 'masked_select_tensor_view.hpp', 'clip_tensor_view.hpp')] + ['src/types/base_tensors.hpp'],
     [('getValue of each view', _V), ('shape checks in the constructors', _V)], 'Operand tensors are arbitrary (abstract contract of a tensor: fixed shape, pure value function). sqrt, log, exp, pow are uninterpreted functions.')
prop('C05', 'Index-rearranging tensor operations move values to the right place',
     'Transpose, reshape, flattening to a row or a column, rotation by 180 degrees, diagonal, zero padding, windows, wide concatenation, channel extraction and placement return exactly the documented shape, and each of their '
     'elements is exactly the source element its coordinate maps to (or zero in padding). They never read outside of their source.',
     'every shape, every coordinate', 'tests use one or two small shapes per view, where swapped or off-by-one indices often coincide',
     [_V + x for x in ('transpose_tensor_view.hpp', 'reshape_tensor_view.hpp', 'row_flatten_tensor_view.hpp', 'column_flatten_tensor_view.hpp', 'rotate_180_tensor_view.hpp', 'zero_pad_tensor_view.hpp', 'window_tensor_view.hpp', 'concat_wide_tensor_view.h')],
     [('index arithmetic in getValue', _V), ('shape in rowCount/columnCount/channelCount', _V)], 'Operand tensors are arbitrary.')
prop('C06', 'Matrix products, correlations and convolutions sum exactly the right products',
     'Matrix multiplication, dot product, outer product, channel sums, valid and full 2D cross-correlation, 2D convolution, diagonal and matrix division return the documented shape, and every element is the sum (in floating point) of exactly '
     'the products the mathematical definition lists, each index range covered once, with reads only inside the operands (padding counts as zero). Operands whose shapes do not fit are rejected where the operation checks them.',
     'every operand shape, coordinate and value', 'tests use a few small square cases; non-square shapes, several channels and kernel edges are not covered',
     [_V + x for x in ('matrix_multiply_tensor_view.hpp', 'dot_product_tensor_view.hpp', 'outer_product_tensor_view.hpp', 'valid_2d_cross_correlation_tensor_view.hpp', 'full_2d_cross_correlation_tensor_view.hpp', 'full_2d_convolve_tensor_view.hpp', 'matrix_divide_tensor_view.hpp', 'sum_channels_tensor_view.hpp')],
     [('accumulation loops in getValue', _V)], 'Sums are specified by a recursive function over machine floats in the order of the loop nest; any of the coordinate orders tried as invariants is accepted. The inverse used by matrix division is an assumed contract.')
prop('C07', 'Tensor reductions report the true extremes, sums, means and positions',
     'max, min, range and max_abs return a value that occurs in the tensor (as an absolute value for max_abs) and that no element exceeds. maxIndexByRow, maxIndexByCol, minIndex, maxIndices, minIndices and topIndices report the positions of the extreme elements of the given row or column and channel '
     '(ties: the first one, all of them for the plural forms). sum, product, arithmeticMean, standardDeviation, variance, variance_point, euclidean_norm and geometricMean combine every element exactly once (geometricMean is NaN unless all are positive; the norm of a zero tensor is 0). '
     'getValue(offset), getRowValues, hasNaNOrInf and hasInvalidValues agree with element access, and assertEqual throws exactly on a different shape or a clearly different element.',
     'every shape and every element value (no NaN for the extremes)', 'the tests use a couple of tiny tensors whose extreme is not at the boundary of a loop, with one channel',
     ['src/types/base_tensors.hpp', 'src/util/tensor_utils.hpp'],
     [('loops of BaseTensor', 'src/types/base_tensors.hpp')], 'Sums and norms as recursive sums; averages over real arithmetic.')
prop('C08', 'Materialized tensors keep the shape and every element at their precision',
     'Constructing a FullTensor, HalfTensor, QuarterTensor or PixelTensor from a tensor or from nested vectors gives a tensor of the source\'s shape whose every element is the source element at that coordinate, passed through exactly the storage '
     'codec of that class (none for 32 bit, the 16 bit codec, the 8 bit codec with the given bias, and for pixels: clamped to 0..1, within 1/255, all 256 grey levels exact). '
     'materializeTensor returns an already materialized tensor unchanged for 32 bit and otherwise copies to the asked precision; for 8 bit it uses the largest bias from 4 to 15 whose range strictly holds every element (4 if none does).',
     'every non-empty shape, coordinate and element value (no NaN for pixels)', 'tests print or check a few elements of tiny tensors; wrong coordinates on non-square multi channel tensors or a wrong bias choice stay unseen',
     ['src/types/tensor_impls/full_tensor.hpp', 'src/types/tensor_impls/half_tensor.hpp', 'src/types/tensor_impls/quarter_tensor.hpp', 'src/types/tensor_impls/pixel_tensor.hpp', 'src/types/tensor_impls/tensor_allocators.hpp', 'src/util/tensor_utils.hpp'],
     [('constructors', 'src/types/tensor_impls'), ('allocateTensorVector', 'src/types/tensor_impls/tensor_allocators.hpp'), ('materializeTensor, estimateBias', 'src/util/tensor_utils.hpp')],
     'The codecs themselves are C02 and C03; range() is C07. Dimensions up to 2^20 in the nested vector constructors.')
_M = 'src/ml/'
prop('C09', 'Activation functions and their derivatives compute their formula per element',
     'ReLU, leaky ReLU (0.01), linear, sigmoid, sigmoid approximation (x/(1+|x|), scaled to 0..1), tanh, tanh approximation and softmax return a tensor of the input\'s shape whose every element is the function of the input element at the same coordinate '
     '(for softmax: exp(x - max) divided by the sum of all those, so the elements are positive and add up to 1). derivative() returns the derivative of that function at every element, except for softmax: one everywhere, since softmax is only used with categorical cross entropy, whose derivative (prediction - truth) is by the input of softmax already.',
     'every shape, coordinate and input value', 'the tests evaluate each function on one short row of values',
     [_M + 'activators/' + x + '_activation_function.hpp' for x in ('relu', 'leaky_relu', 'linear', 'sigmoid', 'sigmoid_approx', 'softmax', 'tanh', 'tanh_approx')],
     [('activate and derivative of each class', _M + 'activators')], 'Floats as real numbers; exp and tanh uninterpreted (exp positive).')
prop('C10', 'Loss functions compute their error, loss and derivative formulas',
     'For mean squared, mean absolute, smooth absolute, binary and categorical cross entropy: compute_error gives the documented per element error of the same shape; compute_loss gives the documented total or mean of an error tensor; and compute_loss_derivative '
     'gives the derivative of the error by the prediction at every element (for categorical cross entropy the usual prediction - truth that assumes softmax; sign for absolute errors with 0 where they agree).',
     'every shape and every truth and prediction (probabilities strictly inside 0..1 for the derivative of binary cross entropy)', 'no unit test covers the loss functions; training tests only look at whether the final loss is small',
     [_M + 'losses/' + x + '.hpp' for x in ('mse_loss', 'mae_loss', 'smae_loss', 'binary_cross_entropy', 'categorical_cross_entropy_loss')],
     [('compute_error, compute_loss, compute_loss_derivative', _M + 'losses')], 'Floats as real numbers; log uninterpreted. Sums and means of tensors are C07.')
prop('C11', 'Optimizer steps follow their update rules for each registered parameter',
     'Mini batch gradient descent returns p - lr*g; SGD with momentum keeps v = 0.9*v + lr*g per registration and returns p - v; Adam keeps m = 0.9m + 0.1g and v = 0.999v + 0.001g^2 per registration and returns p - lr*m/(sqrt(v)+eps). '
     'Moments start at zero; weights and biases use their own learning rate and their own moments; a step for one registration leaves the moments of every other unchanged; registrations get distinct ids; with decay on, the learning rate changes only when the time step advanced and stays within its limits.',
     'every history of registrations, time steps and updates, every parameter and gradient tensor', 'no unit test covers the optimizers in isolation; mixing up two registrations, weights and biases, or the decay limits only slows training down',
     [_M + 'optimizers/' + x + '_optimizer.hpp' for x in ('mbgd', 'sgdm', 'adam')],
     [('calculateWeightsChange, calculateBiasChange', _M + 'optimizers')], 'Floats as real numbers; one arbitrary step from an arbitrary state (an inductive step over histories).')
_L = 'src/ml/layers/'
prop('C12', 'Layers compute their forward, backward and update formulas',
     'Fully connected, bias, 2D convolution (valid), activation, dropout, flatten and wide concatenation layers return the documented output for every input; a backward pass hands the previous layer the error the chain rule gives (error times transposed weights, error times activation derivative at the last training input, '
     'per channel convolution with the filters, the same mask as forward for dropout, slices for concatenation); and one update passes the optimizer the layer\'s own registration, its own parameter and the gradient averaged over the batch (plus strength times the weights under L2), and stores what it returns at the layer\'s precision. '
     'Inference leaves the training memory alone, and drops out nothing. Flatten and its backward keep every element of every channel.',
     'every input, weight and error tensor and shape; every batch of one to three (convolution: enumerated filters, depths and batches; concatenation: two to four inputs)',
     'no unit test looks at a layer in isolation; a wrong error or gradient only makes training slower',
     [_L + x for x in ('fully_connected_layer.hpp', 'bias_layer.hpp', 'convolution_2d_valid_layer.hpp', 'activation_layer.hpp', 'dropout_layer.hpp', 'flatten_layer.hpp', 'concatenate_wide_layer.hpp')],
     [('forward, backward and apply of each layer', _L)], 'Floats as real numbers. Tensor operations are C04 to C08, activation functions C09, optimizers C11: their contracts stand for them here.')
prop('C13', 'Saved tensors, layers and models load back exactly',
     'A tensor of any class saved to a file (over whatever was there) or to a stream, with or without its shape, takes exactly 24 (or 0) plus 4 bytes per element and loads back into each tensor class with the same shape and every element as that class stores it, consuming exactly those bytes. '
     'A fully connected, bias or convolution layer that saves its knowledge loads it back as every one of its parameter tensors, into itself or a new layer of the same label. A saved model loads back with the same predictions; saving without overwriting leaves the existing model alone and puts a complete one into a new directory.',
     'every shape and element value, every previous content of the file, every position in a stream', 'tests save a model or two and look at whether some prediction is near; a corner of the format or a class that loads transposed stays unseen',
     ['src/types/base_tensors.hpp'] + ['src/types/tensor_impls/' + x for x in ('full_tensor.hpp', 'half_tensor.hpp', 'quarter_tensor.hpp', 'pixel_tensor.hpp')] + ['src/ml/neural_network.hpp', _L + 'convolution_2d_valid_layer.hpp'],
     [('save', 'src/types/base_tensors.hpp'), ('assignFromStream, assignBodyFromStream', 'src/types/tensor_impls'), ('saveKnowledge, loadKnowledge', _L), ('saveAs', 'src/ml/neural_network.hpp')],
     'Files by a model of byte streams (trusted); portableBytes is C01, the element codecs C02, C03 and C08. Whole models: bounded check by generated models only.')
prop('C14', 'Binary datasets give back the columns and rows that were written',
     'A dataset written through BinaryDatasetWriter is read by BinaryDatasetReader with the same given and expected columns in the same order - every detail and label of each, its source column count included - '
     'the same shapes and as many rows as were written; reading row i, in any order and again, gives the i-th written tensors element for element as 32 bit floats. A dataset whose repeated rows are skipped keeps the first of each distinct given row in order. '
     'A reader given other statistics for columns returns every value restored with the column\'s own statistics and transformed with the ones of the same given column.',
     'every number and shape of columns, every label and statistic, every number and order of rows', 'tests write one or two small files; an offset that is wrong only for several columns, labels or channels stays unseen',
     ['src/util/file_writer.hpp', 'src/util/file_reader.hpp'], [('BinaryDatasetWriter', 'src/util/file_writer.hpp'), ('BinaryDatasetReader', 'src/util/file_reader.hpp')],
     'Files by a model of byte streams (trusted). The column details are proved for up to 3 labels (bounded), rows for up to 2 columns of either use (bounded in columns, not in rows or shapes); skipping of repeated rows by generated inputs only.')
prop('C15', 'Normalization uses a column\'s true statistics and is undone exactly',
     'The statistics collected for a column are the mean, standard deviation (over all values), minimum and maximum of all elements of all tensors given. Standardizing subtracts that mean and divides by that deviation, '
     'normalizing maps that minimum to 0 and that maximum to 1, a constant column becomes all zeros, and the restoring functions are their inverses. '
     'Normalizing a whole dataset file standardizes (if the deviation exceeds 1) and then normalizes every numeric column by its statistics, leaves other columns and the order of rows unchanged, and records the statistics with the column.',
     'every tensor, every number of values and of rows', 'tests normalize one friendly column and compare a few values',
     ['src/util/dataset_utils.hpp', 'src/util/tensor_stats.hpp', 'src/types/tensor_views/normalize_tensor_view.hpp', 'src/types/tensor_views/denormalize_tensor_view.hpp', 'src/types/tensor_views/standardize_tensor_view.hpp', 'src/types/tensor_views/unstandardize_tensor_view.hpp'],
     [('statistics', 'src/util/dataset_utils.hpp'), ('standardize_and_normalize, unstandardize_and_denormalize', 'src/util/dataset_utils.hpp'), ('normalize_and_standardize_dataset', 'src/util/dataset_utils.hpp')],
     'Machine floats treated as reals in the proofs; whole datasets are bounded in rows and columns.')
