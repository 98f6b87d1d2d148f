"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "torchimage/"


def P(id, title, statement, over, text, why, files, mech):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {"files": [T + f for f in files],
                        "mechanism": [{"name": n, "where": T + w} for n, w in mech]}}


NT = "No test in the suite that runs covers this part of the package; "
I, C, H = "inputs", "configurations", "histories"

PROPS = [
    # ---------------------------------------------------------------- padding
    P("P01", "Copying padding modes place every sample where the mode says",
      "Padding with replicate, circular, symmetric, reflect or periodize extends a signal by the documented infinite extension "
      "(edge copy, periodic, half-sample mirror, whole-sample mirror, periodic after making the length even), for every pair of "
      "widths including ones many times longer than the signal. Original samples keep their values and positions, other axes are "
      "untouched, and the input and its element type are unchanged.",
      [I, C], "every signal content, signal length, padding width before and after, and padded axis",
      "Tests compare random arrays with numpy.pad for a few widths; symmetric, reflect and periodize with widths beyond one period "
      "hit different loops (cached flip, chunking) and are not covered reliably.",
      ["padding/pad_1d.py", "padding/generic_pad.py"],
      [("replicate/circular/periodize/symmetric/reflect_1d", "padding/pad_1d.py"), ("Padder.forward", "padding/generic_pad.py")]),
    P("P02", "Extrapolating padding modes follow their formula",
      "Padding with antisymmetric, odd_reflect, odd_symmetric, smooth or linear_ramp produces exactly the documented extrapolation "
      "(negated mirror, mirror through the edge value, straight-line continuation, ramp to the requested end value) for every "
      "width on either side.",
      [I, C], "every signal content, length, pair of widths and ramp end values",
      "Tests sample random arrays at small widths; repeated reflections beyond one period and single-sample signals are rare inputs.",
      ["padding/pad_1d.py", "padding/generic_pad.py"],
      [("odd_symmetric/odd_reflect/smooth/linear_ramp_1d", "padding/pad_1d.py"), ("end_values", "padding/generic_pad.py")]),
    P("P03", "Constant and statistic padding fill exactly the padded border",
      "Padding with constant or zeros writes the requested constants before and after the signal; maximum, minimum, mean and median "
      "write that statistic of the nearest samples, taken over the requested length clipped to between one and the whole signal, or "
      "over the whole signal when no length is given. No result ever depends on uninitialised memory.",
      [I, C], "every signal content, width, constant and statistic length on either side",
      "Tests sample a few lengths and never look at a zeros-padded border; uninitialised memory is often zero by accident.",
      ["padding/pad_1d.py", "padding/generic_pad.py"],
      [("constant_1d, zeros_1d, stat_1d", "padding/pad_1d.py"), ("Padder._fill_value_1d", "padding/generic_pad.py")]),
    P("P04", "N-d padding pads the listed axes in order with right-aligned options",
      "Padding several axes equals padding them one after another in the listed order, each axis with its own width, mode and "
      "constants, where corners come from the already padded axes. Options given per axis align with the last listed axes, a single "
      "option applies to all, and axes without an option are unchanged; a user-supplied padding function composes with built-in modes.",
      [I, C], "every tensor content, axis order, mix of modes, per-axis or shared options, and padding widths",
      "Tests pad all axes with one mode; the order of axes, mixed modes and longer or shorter option lists are not explored.",
      ["padding/generic_pad.py", "utils/ndspec.py", "utils/validation.py"],
      [("Padder.forward", "padding/generic_pad.py"), ("NdSpec indexing", "utils/ndspec.py")]),
    P("P05", "Padding one axis separately equals padding it in the n-d call",
      "Padding a single axis on its own gives the same tensor as the n-d operation restricted to that axis, for every mode and "
      "every positive or negative axis and option index.",
      [I, C], "every tensor content, axis, mode and pair of widths",
      "No test exercises padding one axis separately.",
      ["padding/generic_pad.py"], [("Padder.pad_axis", "padding/generic_pad.py")]),
    P("P06", "Same padding yields ceil(n/stride) windows with minimal balanced widths",
      "The same-padding widths for a kernel, stride and input size are non-negative, differ by at most one with the larger half "
      "first, and are the smallest total for which ceil(size/stride) windows fit, so a stride of one keeps the size. Converting a "
      "padder to same padding applies those widths along every axis.",
      [I, C], "every kernel size, stride (including stride = kernel size) and input size",
      "The tests check fewer than a hundred random triples.",
      ["padding/utils.py", "padding/generic_pad.py"],
      [("same_padding_width", "padding/utils.py"), ("Padder.to_same", "padding/generic_pad.py")]),
    P("P07", "Padding-width formats convert without loss",
      "Converting per-axis (before, after) pairs to the flat last-axis-first format and back yields the same widths for every axis, "
      "with zeros for leading axes that were not given.",
      [I, C], "every number of axes and every width", "No running test covers the conversion.",
      ["padding/utils.py"], [("pad_width_format", "padding/utils.py")]),
    P("P08", "Invalid padding requests are rejected",
      "A negative padding width is rejected when the padder is created and an unknown mode never produces a tensor; valid widths are kept.",
      [I, C], "every pair of widths and every unknown mode name", "No test passes invalid padding options.",
      ["padding/generic_pad.py", "utils/validation.py"],
      [("check_pad_width", "utils/validation.py"), ("_fill_value_1d", "padding/generic_pad.py")]),
    P("P09", "In-place fills write exactly the border along their own axis",
      "The low-level fill functions work inside the buffer they are given: next to the signal they write the extension their mode documents, along the given axis "
      "and within the index region of the other axes only. Every other cell, the signal included, keeps its value, whatever the buffer held before, and the same "
      "buffer is returned. The slicing helpers address exactly one axis and keep the index they were given.",
      [I, C], "every buffer content, signal position and length, region of the other axes, axis and fill function",
      "Tests only see the fills through the padder, which always hands them a full region and fresh memory.",
      ["padding/pad_1d.py", "padding/utils.py"], [("*_1d fill functions", "padding/pad_1d.py"), ("make_idx, modify_idx", "padding/utils.py")]),
    # ---------------------------------------------------------------- specs
    P("U01", "Per-axis option lists broadcast and index as documented",
      "A per-axis option built from one item behaves as that item at every index, a list of items is indexed from either end, and "
      "partial items are repeated to the item shape (an unspecified length keeps its own), for scalars, nested and ragged lists, "
      "arrays and tensors alike. Length, index shape and item shape agree with the stored data, and shapes that cannot be broadcast "
      "are rejected.",
      [I, C], "every nesting, raggedness, item shape and leaf value",
      "Tests list a few dozen hand-picked nestings.",
      ["utils/ndspec.py", "utils/ragged.py"],
      [("NdSpec.__init__/__getitem__", "utils/ndspec.py"), ("expand_ragged_ndarray", "utils/ragged.py")]),
    P("U02", "Combining per-axis options is element-wise with single items repeated",
      "Mapping, zipping and applying a function over per-axis options gives, at every index, the function of the items at that "
      "index, with single items repeated to the common length. Options of different lengths are rejected.",
      [I, C], "every item value, list length and mix of single items and lists",
      "Tests cover two zips and one map.",
      ["utils/ndspec.py"], [("NdSpec.apply/zip/map/starmap/agg_index_shape", "utils/ndspec.py")]),
    P("U03", "Ragged arrays report their true shape and lift shallow items only on request",
      "The reported shape has the common length at each level (or an 'uneven' marker), uneven depths are treated as leaves in strict "
      "mode and lifted to the deepest level otherwise, and values are never changed.",
      [I, C], "every nesting up to three levels and every leaf value", "Tests use a handful of fixed literals.",
      ["utils/ragged.py"], [("get_ragged_ndarray", "utils/ragged.py")]),
    P("U04", "Axis arguments normalise to valid dimensions or are rejected",
      "An axis argument given as one integer, a sequence, a slice or nothing is turned into the corresponding non-negative dimensions "
      "in the given order; any index outside the tensor's dimensions is rejected with a value error.",
      [I], "every number of dimensions and every axis argument", "No test passes an out-of-range axis.",
      ["utils/validation.py"], [("check_axes", "utils/validation.py")]),
    # ---------------------------------------------------------------- shapes
    P("S01", "Predicted convolution sizes equal the number of windows",
      "The predicted output size for an input size, kernel size, stride and dilation is exactly the number of window positions that "
      "fit, per axis with single values shared across axes.",
      [I], "every input size, kernel size, stride and dilation for which one window fits", "Tests use it only indirectly.",
      ["shapes/conv_like.py"], [("conv_1d, conv_nd", "shapes/conv_like.py")]),
    P("S02", "Original-element counts per window are exact",
      "For every output position the reported count is the number of real (non-padded) elements inside that window, and in several "
      "dimensions the product over axes.",
      [I, C], "every input size, pair of padding widths, kernel size and stride", "Tests draw twenty random tuples per run.",
      ["shapes/conv_like.py", "misc/outer.py"], [("n_original_elements_1d/nd", "shapes/conv_like.py")]),
    # ---------------------------------------------------------------- pooling
    P("K01", "Separable pooling equals successive 1-d correlations",
      "Pooling with per-axis kernels equals correlating the (same-padded) tensor with each kernel along its axis in the listed "
      "order with the given strides, for every kernel weight, and an empty kernel leaves its axis unchanged. Other axes, element type "
      "and the input are untouched.",
      [I, C], "every tensor and kernel content, kernel length, stride, axis selection and padding mode",
      NT + "pooling tests are not among the tests that run.",
      ["pooling/base.py", "padding/generic_pad.py"], [("SeparablePoolNd.forward, BasePoolNd.pad", "pooling/base.py")]),
    P("K02", "1-d convolution along any axis matches its definition",
      "Convolving along any axis with any stride and dilation equals the sliding dot product along that axis, independently for every "
      "other index.",
      [I, C], "every tensor and kernel content, axis, stride and dilation", "One test with random tensors compares against unfold.",
      ["pooling/operator.py"], [("any_conv_1d", "pooling/operator.py")]),
    P("K03", "Average pooling averages the window, optionally over real elements only",
      "Average pooling returns the mean of each same-padded window; when padded elements are excluded each output is the mean of the "
      "real elements in its window, whatever the axis order, strides and padding used.",
      [I, C], "every tensor content, kernel size, stride, axis order and number of axes", NT + "the exclusion of padding has a single shape test.",
      ["pooling/uniform.py", "shapes/conv_like.py"], [("AvgPoolNd.forward", "pooling/uniform.py")]),
    P("K04", "Gaussian kernels are normalised, symmetric, unimodal samples of the Gaussian",
      "For every positive sigma an order-0 kernel has the requested length, sums to one, is positive, symmetric for odd lengths and "
      "non-increasing away from its centre, with weights proportional to exp(-x^2/(2 sigma^2)). Kernels of order n are that kernel "
      "times the n-th derivative's polynomial, reversed so that correlation differentiates.",
      [I, C], "every sigma in the stated range, kernel size and derivative order", NT + "comparisons with scipy use a few sigmas and do not run.",
      ["pooling/gaussian.py"], [("gaussian_kernel_1d, _gaussian_kernel1d", "pooling/gaussian.py"), ("GaussianPoolNd", "pooling/gaussian.py")]),
    P("K05", "Strides default to the kernel size and filters keep the input size",
      "A pooling layer without a stride moves by its kernel size along every axis, an explicit stride is used as given and a "
      "non-positive one is rejected. Converting any pooling layer to a filter with a padder gives stride one and an output of the "
      "input's size.",
      [I, C], "every kernel size, stride and axis length", NT,
      ["pooling/base.py", "utils/validation.py"], [("read_stride, to_filter", "pooling/base.py"), ("check_stride", "utils/validation.py")]),
    P("K06", "Reusing a layer gives the same result as a fresh one",
      "A layer's result depends only on its options and the current input: applying it earlier to tensors of other shapes or to other "
      "axes, or sharing its padder with another layer, never changes what it returns.",
      [I, H], "every history of up to three earlier applications and every tensor content", NT + "no test reuses a layer across shapes.",
      ["pooling/base.py", "pooling/uniform.py", "filtering/edges.py", "padding/generic_pad.py"],
      [("to_same mutates the padder in place", "padding/generic_pad.py"), ("BasePoolNd.pad", "pooling/base.py")]),
    # ---------------------------------------------------------------- filtering
    P("F01", "Edge components are the edge kernel along one axis, smoothing along the rest",
      "A component correlates the padded image with the edge kernel along the edge axis and with the smoothing kernel along every "
      "other selected axis, for any kernels, including ones close to but different from the built-in difference kernels. "
      "The horizontal and vertical responses are the components along the second-to-last and last axis.",
      [I, C], "every image content, edge and smoothing kernel weight, axis choice and padding mode", NT + "the shortcut for difference kernels is never compared.",
      ["filtering/edges.py", "pooling/base.py"], [("EdgeFilter.component, _conv_edge", "filtering/edges.py")]),
    P("F02", "Named edge operators use their published kernels",
      "Sobel, Prewitt, Scharr and Farid use their published weights, optional normalisation makes the smoothing weights sum to one, "
      "and every one of them, like the Laplacian and derivative-of-Gaussian operators of order one, answers zero on a constant image.",
      [I, C], "every image content, constant level and operator", NT,
      ["filtering/edges.py"], [("Sobel/Prewitt/Scharr/Farid", "filtering/edges.py"), ("normalize", "filtering/edges.py")]),
    P("F03", "Laplacian, Gaussian-gradient and magnitude follow their definitions",
      "The Laplacian is the sum of second differences over the selected axes, the Laplacian of Gaussian the sum over axes of the second-derivative kernel "
      "along it and Gaussian smoothing along the others, and the gradient magnitude is the p-th root of the sum of p-th powers of the "
      "components plus epsilon.",
      [I, C], "every image content, axis selection, p, epsilon, kernel size and sigma in the stated set", NT,
      ["filtering/edges.py", "pooling/gaussian.py"], [("EdgeFilter.magnitude, Laplace, GaussianGrad, LaplacianOfGaussian", "filtering/edges.py")]),
    P("F04", "Unsharp masking adds the thresholded detail",
      "The sharpened image is the input plus amount times the difference to its blurred version, where differences smaller in "
      "absolute value than the threshold count as zero; an amount of zero returns the input.",
      [I, C], "every image content, amount, threshold and blur kernel", NT + "sharpening has no test.",
      ["filtering/sharpen.py"], [("UnsharpMask.forward", "filtering/sharpen.py")]),
    # ---------------------------------------------------------------- metrics
    P("M01", "MSE and PSNR follow their definitions for every reduction",
      "The squared-error metric is the element-wise squared difference, averaged, summed or returned whole over the chosen axes, and "
      "the peak signal-to-noise ratio is 20 log10(max) - 10 log10 of it (plus epsilon); both are symmetric, the first is non-negative "
      "and zero exactly for equal images.",
      [I, C], "every pair of images, choice of axes, reduction, maximum value and epsilon", NT,
      ["metrics/mse.py", "metrics/psnr.py", "metrics/base.py"], [("MSE, PSNR, BaseMetric.forward", "metrics/")]),
    P("M02", "SSIM equals its published formula",
      "The similarity map is the standard luminance-contrast-structure ratio computed from window means and (sample or population) "
      "covariances, and the score is its mean over the chosen axes after cropping exactly the border affected by padding.",
      [I, C], "every pair of images, window, padding mode, axis choice and option", NT + "one comparison with scikit-image does not run.",
      ["metrics/ssim.py", "pooling/base.py"], [("SSIM._mu_sigma, _ssim_full, _crop_border", "metrics/ssim.py")]),
    P("M03", "SSIM is symmetric and one for identical images",
      "Swapping the two images never changes the structural-similarity score or map, and an image compared with itself scores one "
      "everywhere; multi-scale similarity has both properties too.",
      [I, C], "every pair of images and every option combination", NT,
      ["metrics/ssim.py"], [("SSIM.forward, MS_SSIM.forward", "metrics/ssim.py")]),
    P("M04", "Multi-scale SSIM combines the per-scale terms as documented",
      "The multi-scale score combines the contrast-structure term of every scale but the last and the full similarity of the last, "
      "each scale halving the images by 2x2 averaging, as a weighted product of clamped terms or a weighted sum, averaged over the "
      "chosen axes; images too small for the number of scales are rejected.",
      [I, C], "every pair of images, weights, number of scales and combination rule", NT,
      ["metrics/ssim.py"], [("MS_SSIM.forward", "metrics/ssim.py")]),
    P("M05", "Edge losses compare the edge components of both images",
      "The Gaussian edge loss is the mean absolute difference of the two images' edge components; its weighted variants multiply or "
      "divide each difference by the true edge or compare mean absolute edges, and equal images give zero.",
      [I, C], "every pair of images, kernel size, sigma and derivative order in the stated set", "The contrib losses have no test.",
      ["contrib/edge_loss.py", "filtering/edges.py"], [("GaussianEdgeLoss and variants", "contrib/edge_loss.py")]),
    P("M06", "Scores stay in their range and rank images by their error",
      "The squared error is never negative, unchanged when both images are shifted and quadratic in a common scale. PSNR is larger exactly where the squared error is smaller, "
      "largest for identical images when an epsilon is given, and the same in any unit of intensity. Every value of the similarity map and every SSIM score lies in [-1, 1]; a "
      "multi-scale score lies between zero and one for products, and within plus or minus the sum of the weights for sums.",
      [I, C], "every pair of images, window, padding choice, stabilising constants and scale weights", "Bounds are for all images; tests compare single images with a reference implementation.",
      ["metrics/mse.py", "metrics/psnr.py", "metrics/ssim.py"], [("PSNR.forward", "metrics/psnr.py"), ("SSIM._ssim_full, MS_SSIM.forward", "metrics/ssim.py")]),
    # ---------------------------------------------------------------- cfa
    P("C01", "1- and 4-channel mosaics convert losslessly both ways",
      "Channel k of the 4-channel form holds the mosaic's pixels at row k//2 and column k%2 of each 2x2 block, and converting back "
      "and forth restores every pixel, for any leading dimensions.",
      [I, C], "every mosaic content, size and number of leading dimensions", NT,
      ["cfa/utils/bayer_1c_4c.py"], [("bayer_1c_to_4c, bayer_4c_to_1c", "cfa/utils/bayer_1c_4c.py")]),
    P("C02", "Mosaicking keeps the sensor's colour and downsampling inverts it per block",
      "Every mosaic pixel is the image's value of the colour that the sensor alignment assigns to it, the 1- and 4-channel results "
      "agree, and downsampling a mosaic gives per 2x2 block the red pixel, the mean of both greens and the blue pixel.",
      [I, C], "every image content, size and all four sensor alignments in either letter case", NT,
      ["cfa/utils/rgb_to_bayer.py", "cfa/utils/bayer_to_rgb.py"],
      [("rgb_to_1c_bayer, rgb_to_4c_bayer", "cfa/utils/rgb_to_bayer.py"), ("downsample_*", "cfa/utils/bayer_to_rgb.py")]),
    P("C03", "Mosaic convolution applies each colour position's own kernel at that position",
      "Every output pixel is the mirror-padded window centred on it, correlated with the weights (and bias) belonging to its colour "
      "position under the sensor alignment, and the unshuffled form holds the same numbers with each 2x2 block moved to channels.",
      [I, C], "every mosaic content, weight, bias, alignment, kernel size and channel count", "One random test compares only the two forms with each other.",
      ["cfa/bayer_conv/bayer_conv_2d.py"], [("BayerConv2d.forward, forward_unshuffle, get_padding_layer", "cfa/bayer_conv/bayer_conv_2d.py")]),
    P("C04", "Demosaicing keeps measured colours and interpolates with the published filters",
      "The demosaiced image keeps every measured pixel in its own colour plane and fills the two missing colours with the "
      "gradient-corrected 5x5 filters of that position, clamped to the requested range; reassembling measured and interpolated colours "
      "puts every value in its plane for all alignments.",
      [I, C], "every mosaic content, size, alignment and clamp value", NT + "demosaicing is only compared against MATLAB images that are not shipped.",
      ["cfa/bayer_conv/gradient_corrected.py", "cfa/bayer_conv/bayer_conv_2d.py"],
      [("gradient_corrected_interpolator", "cfa/bayer_conv/gradient_corrected.py"), ("last_step_demosaic", "cfa/bayer_conv/bayer_conv_2d.py")]),
    P("C05", "Mosaic inputs are validated",
      "Exactly the four sensor alignments are accepted, in either letter case, and tensors with a wrong number of channels, fewer than "
      "three dimensions or odd mosaic sides are rejected by every conversion.",
      [I, C], "every four-letter string over the colour letters and every small tensor shape", NT,
      ["cfa/utils/validation.py"], [("check_sensor_alignment, check_1c_bayer, check_4c_bayer, check_rgb", "cfa/utils/validation.py")]),
    P("C06", "Mosaicking and demosaicing agree with each other and with symmetry",
      "Re-mosaicking a demosaiced or reassembled image returns the original mosaic (clipped to the output range), a grey scene is reproduced exactly at every pixel, borders "
      "included, and a flat colour survives mosaicking and downsampling. Transposing, flipping or cropping the scene gives the transposed, flipped or cropped result under the "
      "sensor alignment this produces (after a crop, at pixels whose window lies inside it).",
      [I, C], "every mosaic and image content, alignment, clamp limit, crop offset and shape",
      NT + "a coefficient or alignment branch that is wrong for one colour position looks fine on smooth images and on the other alignments.",
      ["cfa/bayer_conv/gradient_corrected.py", "cfa/bayer_conv/bayer_conv_2d.py", "cfa/utils/rgb_to_bayer.py", "cfa/utils/bayer_to_rgb.py"],
      [("demosaic, last_step_demosaic", "cfa/bayer_conv/gradient_corrected.py"), ("rgb_to_1c_bayer, rgb_to_4c_bayer", "cfa/utils/rgb_to_bayer.py")]),
    # ---------------------------------------------------------------- misc
    P("X01", "Polynomial evaluation equals the weighted sum of powers",
      "Evaluating a polynomial with weights in descending order returns, for every element, the sum of weight times power, for any "
      "number of weights including one, and never changes its input.",
      [I, C], "every element and weight value and every degree", "One test evaluates random polynomials of a few degrees.",
      ["misc/polynomial.py"], [("poly1d", "misc/polynomial.py")]),
    P("X02", "Safe power is a signed power that never yields NaN",
      "For a whole exponent the result is the ordinary power; for a fractional one it is sign(x) |x|^e, with exact zeros replaced by "
      "epsilon, for scalars and broadcast tensors, with finite gradients at zero and the input unchanged.",
      [I, C], "every base and exponent value and broadcast shape in the stated set", "Tests check six fixed arrays.",
      ["misc/power.py"], [("safe_power", "misc/power.py")]),
    P("X03", "Outer products multiply every pair of elements",
      "The outer product's element at a joined index is the product of the two tensors' elements at its two parts, for any number of dimensions.",
      [I, C], "every tensor content and shape", "It is only used indirectly by one test.",
      ["misc/outer.py"], [("outer", "misc/outer.py")]),
    P("X04", "Descriptive statistics are the standard ones",
      "The summary reports the mean, the sample standard deviation, the extremes and the linearly interpolated quartiles of all "
      "elements, in whatever order they are stored.",
      [I], "every tensor content and shape", "The summary has no test.",
      ["misc/stats.py"], [("describe", "misc/stats.py")]),
    P("X05", "Random crops are windows of the requested size, every offset reachable",
      "A random crop is a contiguous window of the input with the requested length along each listed axis and everything along the "
      "others; any offset that fits can be drawn, including the last one and the whole axis, and no other; "
      "lengths that do not fit are refused. When a generator is given, every draw comes from it.",
      [I, C], "every random draw, tensor content, axis list and crop length", "Random cropping has no test.",
      ["random.py"], [("random_crop", "random.py")]),
    P("X06", "Noise models add the documented noise",
      "Gaussian noise returns the input plus sigma times standard normal draws; Poisson-Gaussian noise returns k times Poisson draws with "
      "rate input/k plus sigma times normal draws. The input is unchanged and a zero sigma adds no Gaussian part. "
      "When a generator is given, every draw comes from it.",
      [I, C], "every random draw, tensor content, sigma and k", "Noise has no test.",
      ["random.py"], [("add_gauss_noise, add_poisson_gauss_noise", "random.py")]),
    P("X07", "Pixels per degree follows the display geometry",
      "The result is the vertical resolution divided by the visual angle, in degrees, of a display of the given diagonal with square "
      "pixels at the given distance; it is positive and does not change when diagonal and distance scale together.",
      [I], "every positive diagonal and distance and resolution in the stated range", "It has no test.",
      ["metrics/hdrvdp/pixels_per_degree.py"], [("pixels_per_degree", "metrics/hdrvdp/pixels_per_degree.py")]),
    # ---------------------------------------------------------------- cross-cutting
    P("G01", "No operation changes its inputs or remembers earlier calls",
      "Padding, pooling, filtering, metric, mosaic and arithmetic operations leave the tensors passed to them unchanged and leave "
      "nothing behind: calling the same object again gives the same result, also after it was used on images of other shapes and "
      "after the first result was overwritten, and equals what a freshly built object gives.",
      [I, H], "every tensor content and every public operation", "Tests never look at an input after the call.",
      ["padding/generic_pad.py", "filtering/edges.py", "filtering/sharpen.py", "metrics/ssim.py", "misc/power.py", "random.py"],
      [("in-place updates on fresh tensors only", "filtering/edges.py")]),
    P("G02", "Gradients are the derivatives of the computed function",
      "Back-propagating through padding, pooling, filtering, metrics, demosaicing and the arithmetic helpers yields the exact "
      "derivative of the forward formula with respect to every input element.",
      [I], "every tensor content, at every point where the operation is differentiable", "No test back-propagates except two of safe power at zero.",
      ["padding/generic_pad.py", "pooling/base.py", "metrics/ssim.py", "misc/power.py", "misc/polynomial.py"],
      [("autograd through in-place padding and slicing", "padding/pad_1d.py")]),
    P("G03", "Memory layout and element type do not change results",
      "Transposed, strided or expanded inputs give the same values as contiguous copies, and single precision gives the same result "
      "as double precision up to rounding, with the input's element type kept.",
      [I, C], "every tensor content for every public operation, over several memory layouts", "Tests only use contiguous tensors.",
      ["pooling/operator.py", "padding/generic_pad.py", "cfa/bayer_conv/bayer_conv_2d.py"],
      [("view/reshape/unfold on the input", "pooling/operator.py")]),
    P("G04", "Every image and channel of a batch is processed on its own",
      "Applying an operation to a batch gives, for each image (and, for padding, pooling, filtering, per-channel scores and mosaic conversions, each channel), exactly the result of "
      "applying it to that image alone. Reordering or repeating the batch reorders or repeats the results, and a score or loss over a whole batch is the mean (or sum) of the "
      "scores of its images.",
      [I, C], "every content of a batch for every public operation with batch dimensions", "Tests feed one batch and compare it as a whole with a reference that makes the same assumption, or feed single images.",
      ["padding/generic_pad.py", "pooling/base.py", "filtering/edges.py", "metrics/ssim.py", "metrics/base.py", "contrib/edge_loss.py", "cfa/bayer_conv/bayer_conv_2d.py"],
      [("default axes slice(2, None)", "pooling/base.py"), ("reduce_axes", "metrics/ssim.py")]),
    P("G05", "Options are only read, and layers sharing one do not disturb each other",
      "Building or using a padder, layer, filter or metric never changes the lists, tuples and arrays it was given (kernels, strides, widths, modes, constants, statistic lengths, "
      "axes, weights, coefficients): a second object built from the same options behaves like the first. Layers that share one padder object, or metrics and sharpeners that share one filter, "
      "each give the result they would give with their own, in whatever order and on whatever shapes they are called.",
      [I, C, H], "every option value, image content, pair of sharing layers and order of calls", "Tests build every object from literals, use it once and throw it away.",
      ["padding/generic_pad.py", "pooling/base.py", "filtering/edges.py", "metrics/ssim.py", "utils/ndspec.py"],
      [("Padder.to_same modifies the padder in place on every call", "padding/generic_pad.py"), ("to_filter", "pooling/base.py"), ("_reweight", "filtering/edges.py")]),
    P("G06", "Linear operations are linear; levels and scales carry over",
      "Padding by copying, mirroring, extrapolating or averaging, pooling, blurring, edge and Laplacian filters, sharpening without a threshold, mosaic conversions and bias-free mosaic "
      "convolutions applied to a*x + b*z give a times the result for x plus b times the result for z, for every a and b. Adding a constant to the image adds that constant times the kernel's "
      "weight sum (one for padding that keeps levels, averages, Gaussians, sharpening and mosaics; zero for derivatives). Padding with extremes or medians and gradient magnitudes scale with a positive "
      "factor, and the maximum of the negative image is the negative of the minimum.",
      [I, C], "every pair of images, factor and level", "Tests use images of one range and compare with one reference; none combines two inputs.",
      ["padding/pad_1d.py", "padding/generic_pad.py", "pooling/operator.py", "filtering/edges.py", "filtering/sharpen.py", "cfa/utils.py", "cfa/bayer_conv/bayer_conv_2d.py"],
      [("extrapolating padders", "padding/pad_1d.py"), ("weights normalised by count", "pooling/uniform.py")]),
    P("G07", "Mirroring or transposing the image mirrors or transposes the result",
      "Padding a mirrored image with the widths (and values, statistic lengths) of each axis swapped gives the mirrored result. Unit-stride pooling and edge filtering of a mirrored image with the mirrored kernel give "
      "the mirrored result; symmetric blurs, Laplacians, sharpening, magnitudes and scores do not care, and first derivatives change sign along their axis. Permuting the image's axes together with the axes asked for "
      "permutes the result: horizontal and vertical responses are each other's transposes.",
      [I, C], "every image content", "Tests compare against other libraries on one orientation; before and after widths and the two axes often get the same settings.",
      ["padding/pad_1d.py", "padding/generic_pad.py", "pooling/base.py", "pooling/operator.py", "filtering/edges.py", "metrics/ssim.py", "metrics/base.py"],
      [("before and after treated by separate code", "padding/pad_1d.py"), ("axis order and per-axis options", "pooling/base.py")]),
    P("G08", "A window of the image gives that window of the result",
      "Pooling, filtering, edge, sharpening, similarity-map, element-wise and mosaic operations are local: on a window of the image (taken at a multiple of the stride, or of two pixels for mosaics) they "
      "give the same window of the result, away from the window's own border by the reach of the kernel, and up to it where both images share that border. Mosaic convolution and demosaicing of a window taken at an odd offset agree when the sensor "
      "alignment is shifted accordingly.",
      [I, C], "every image content", "Tests run on one size, so that nothing shows whether position or total size leaks into a result; tiled processing relies on it.",
      ["pooling/base.py", "pooling/uniform.py", "filtering/edges.py", "filtering/sharpen.py", "metrics/ssim.py", "cfa/bayer_conv/bayer_conv_2d.py", "cfa/utils/rgb_to_bayer.py"],
      [("sliding windows", "pooling/base.py"), ("position tables", "cfa/bayer_conv/bayer_conv_2d.py")]),
    P("G09", "Equivalent ways of writing a request give equal results",
      "Axes as tuple, list, array, negative numbers, slice, single integer or the default; a setting given once, as a pair, or per axis; kernels as list, tuple or array; a padder by name or as an object; a stride left out or equal to the "
      "kernel size; default and written-out settings; sensor alignments in either case; a layer called or its forward method; filters made by to_filter or with unit stride; conversions made in one step or two: "
      "all give the same result and element type.",
      [I, C], "every image content", "Tests use one way of asking for each operation.",
      ["utils/ndspec.py", "utils/validation.py", "padding/generic_pad.py", "pooling/base.py", "pooling/uniform.py", "pooling/gaussian.py", "filtering/edges.py", "filtering/sharpen.py", "metrics/base.py", "metrics/ssim.py", "cfa/utils/validation.py"],
      [("axes normalised", "utils/validation.py"), ("options lifted per axis", "utils/ndspec.py"), ("named padders", "pooling/base.py")]),
]

TECH = "symbolic execution of the real functions on torch + z3 over all element values within bounds"
NOTE = ("bounded: {b}. Real arithmetic stands for floating point, torch kernels as documented, z3 trusted for unsat; counterexamples "
        "are replayed on the real code")

NA = {}


def main():
    sys.path.insert(0, ROOT)
    sys.dont_write_bytecode = True
    from checks import runner
    checks, na = [], []
    for p in PROPS:
        try:
            fam = runner.family(p["id"])
            ok = p["id"] in fam.PROPS
        except ModuleNotFoundError:
            ok = False
        if ok:
            checks.append({"property": p["id"], "quick_cmd": f"bin/check {p['id']} quick",
                           "thorough_cmd": f"bin/check {p['id']} thorough", "technique": TECH, "level": "model_checking",
                           "level_note": NOTE.format(b=fam.META[p["id"]]["bounds"])})
        else:
            na.append({"property": p["id"], "reason": NA.get(p["id"], "no check has been built yet")})
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
         "notes": "See DESIGN.md. No hooks in the repository are needed."}
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    try:
        import jsonschema
        sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for p in PROPS:
            jsonschema.validate(p, sch)
        jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    except FileNotFoundError:
        pass
    print(len(checks), "checks,", len(na), "not claimed")


main()
