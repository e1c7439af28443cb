#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the wording lives in one readable place)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": hook}})

PAD1, PADN, PADU = "torchimage/padding/pad_1d.py", "torchimage/padding/generic_pad.py", "torchimage/padding/utils.py"
BASE = "torchimage/pooling/base.py"

prop("C01", "Repeating and mirroring pad modes extend the signal exactly, at any width",
     "Padding an axis of any length L>=1 of a floating-point tensor by any non-negative widths (also many times wider than L) in mode replicate, circular, periodize, symmetric, antisymmetric or reflect puts at every output position exactly the value the documented infinite extension of the signal has there (edge value; period L; period of the even-length signal; half-sample mirror; half-sample mirror with sign change; whole-sample mirror, with a 1-element signal replicated). The original samples stay unchanged in place, and other axes do not influence the result.",
     ["inputs", "configurations"], "every signal length >= 1, every width before and after >= 0, every tensor content, every axis of the tensor",
     "test_circular compares with pywt only for widths <= the signal length, ten random shapes with sides 1..6; the wrap-around code beyond one period, the flipped-cache switch and asymmetric wide pads are never exercised.",
     [PAD1, PADN], [("chunked copy loops", PAD1 + ": circular_1d, symmetric_1d, reflect_1d, periodize_1d, replicate_1d"), ("mode dispatch", PADN + ": _padding_function_dict, Padder._fill_value_1d")],
     [("x", "pre-allocated output tensor, being filled", PAD1), ("idx", "region of x that already holds the signal", PAD1)], ["Padder.forward", "Padder.pad_axis"])
prop("C02", "Odd-reflection, smooth and linear-ramp padding extrapolate exactly",
     "Padding an axis by any non-negative widths in mode odd_reflect or odd_symmetric gives the documented repeated point reflection across the edge sample (respectively across the midpoint between the edge sample and its mirror copy), mode smooth gives the straight line through the two outermost samples on each side (a single sample is replicated; so is it for odd_reflect), and mode linear_ramp gives equally spaced values from the edge sample to the requested end value, reached at the outermost padded position. This holds for any signal length and any width, up to floating-point rounding.",
     ["inputs", "configurations"], "every signal length >= 1, every width >= 0, every content, every end value, every axis",
     "Tests compare with numpy/pywt for odd modes only at widths <= the signal length and for small random shapes; repeated point reflections (wide pads) are never checked.",
     [PAD1, PADN], [("reflection loops", PAD1 + ": odd_symmetric_1d, odd_reflect_1d"), ("line formulas", PAD1 + ": smooth_1d, linear_ramp_1d")], (), ["Padder.forward"])
prop("C03", "Zero, constant and statistic padding fill every padded cell as specified",
     "Mode zeros fills all padded positions with 0 and mode constant with the before/after constants given for that axis; modes maximum, minimum, mean and median fill each side with that statistic of the stat_length samples nearest that side (all samples if stat_length is None, the length clipped to between 1 and the axis length; median is the lower one for even counts), taken per line along that axis. No padded position is left uninitialised.",
     ["inputs", "configurations"], "every length >= 1, every width >= 0, every constant pair, every stat_length (None or integer), every content",
     "zeros mode is not tested at all; median is skipped; stat_length=None and out-of-range stat lengths are not tested.",
     [PAD1, PADN], [("constant_1d/zeros_1d/stat_1d", PAD1), ("parameter selection per axis", PADN + ": Padder._fill_value_1d")], (), ["Padder.forward"])
prop("C04", "N-D padding is the 1-D paddings applied axis by axis, right-aligned",
     "Padder.forward equals applying the 1-D padding of each listed axis one after the other in the given order, with the specification entries (width, mode, constants, end values, stat lengths) right-aligned to the axes; each listed axis grows by its before+after widths, unlisted axes keep their size, and the original tensor sits unchanged at offset `before`. Extra leading entries or extra leading axes are ignored, dtype is kept, and pad_axis agrees with forward on that single axis.",
     ["inputs", "configurations"], "every tensor shape and content, every width list, every mode mix including user-supplied pad functions, every choice and order of axes",
     "Tests pad all axes with one mode at a time on random shapes of up to 6 cells per side; axis subsets, orders, mixed modes and padder/axes length mismatch are not covered.",
     [PADN, PADU], [("offset bookkeeping and sequential fill", PADN + ": Padder.forward, Padder._fill_value_1d, Padder.pad_axis"), ("slice helpers", PADU + ": make_idx, modify_idx")],
     [("idx", "region already valid, grows axis by axis", PADN)], ["Padder.forward", "Padder.pad_axis"])
prop("C05", "Same padding yields ceil(size/stride) outputs with balanced widths",
     "For every kernel size >= 1, stride >= 1 (or None, meaning the kernel size) and input size >= 1, the same-padding widths are non-negative integers with before - after equal to 0 or 1, and a convolution with that kernel size and stride over the padded input has exactly ceil(size/stride) outputs (so stride 1 keeps the size); the widths are minimal. With stride 1 the input size is not needed, and any other stride without an input size raises ValueError.",
     ["inputs"], "all kernel sizes, strides and input sizes (unbounded)",
     "The test checks 16 kernel sizes with stride 1 only.",
     [PADU, PADN, "torchimage/shapes/conv_like.py"], [("width formula", PADU + ": same_padding_width"), ("padder update", PADN + ": Padder.to_same"), ("output size", "torchimage/shapes/conv_like.py: conv_1d")], (), ["same_padding_width", "Padder.to_same", "conv_1d"])
prop("C06", "Separable pooling equals strided correlation along each listed axis",
     "SeparablePoolNd.forward returns, up to rounding, the tensor obtained by correlating (not flipping) the same-padded input with the i-th kernel along the i-th listed axis at stride i, in sequence; axes whose kernel is empty and unlisted axes are untouched. An axis of (padded) size n gives (n-k)//stride+1 outputs, a missing stride means the kernel size, and to_filter makes the stride 1 with same padding so the output shape equals the input shape (up to the mode periodize, which by definition lengthens an axis of odd size by one element before it pads).",
     ["inputs", "configurations"], "every tensor content and shape, every kernel length and weights, every stride, every axes list (positive or negative, any order), with or without same padding",
     "tests/test_pooling.py needs scipy and cannot run with the supported versions here, so no test touches the Nd pooling modules except through all-ones inputs; it samples a few random shapes when it runs.",
     [BASE, "torchimage/pooling/uniform.py", "torchimage/pooling/gaussian.py"], [("unfold and matrix product per axis", BASE + ": SeparablePoolNd.forward"), ("stride defaulting", BASE + ": BasePoolNd.read_stride"), ("filter conversion", BASE + ": BasePoolNd.to_filter"), ("same padding", BASE + ": BasePoolNd.pad")], (), ["SeparablePoolNd.forward"])
prop("C07", "Average pooling is the mean of the window, over real elements if asked",
     "AvgPoolNd.forward gives for every output position the arithmetic mean of its (same-padded) window; with count_include_pad=False under zero padding it gives the sum of the original elements in the window divided by the number of original elements in it, for any order of axes and any per-axis kernel size and stride, and also when no padding is configured. Both hold up to floating-point rounding.",
     ["inputs", "configurations"], "every tensor, kernel size, stride, axes order",
     "The pooling tests cannot run here (scipy) and only use square kernels, stride 1 and the default axes.",
     ["torchimage/pooling/uniform.py", BASE, "torchimage/shapes/conv_like.py"], [("renormalisation by original-element counts", "torchimage/pooling/uniform.py: AvgPoolNd.forward"), ("uniform kernel", "torchimage/pooling/uniform.py: AvgPoolNd._get_kernel")], (), ["AvgPoolNd.forward"])
prop("C08", "Original-element counts are exact for every window",
     "n_original_elements_1d returns one entry per convolution window (none if the kernel exceeds the padded size), and entry t is exactly the number of window positions t*stride .. t*stride+kernel-1 that fall on the original rather than the padded elements. n_original_elements_nd is the outer product of these counts over the axes, in axis order.",
     ["inputs"], "all input sizes >= 1, pad widths >= 0, kernel sizes >= 1, strides >= 1",
     "The 1-D test draws 20 random parameter sets below 7 and returns early on the first infeasible one; the counting code has several interacting loops and corner cases.",
     ["torchimage/shapes/conv_like.py", "torchimage/misc/outer.py"], [("rising / flat / falling phases", "torchimage/shapes/conv_like.py: n_original_elements_1d"), ("outer product", "torchimage/shapes/conv_like.py: n_original_elements_nd")], (), ["n_original_elements_1d", "n_original_elements_nd"])
prop("C09", "Gaussian kernels have the requested size, symmetry, sign and normalisation",
     "For every kernel_size >= 1 and sigma > 0, gaussian_kernel_1d of order 0 returns exactly kernel_size weights proportional to exp(-x^2/(2 sigma^2)) at integer offsets x = -(kernel_size//2), -(kernel_size//2)+1, ..., all non-negative and summing to 1. For order n >= 1 and odd kernel_size it returns the weights (-1)^n * H(x) * g(x) where g is the order-0 kernel and H(x)*exp(-x^2/(2 sigma^2)) is the n-th derivative of exp(-x^2/(2 sigma^2)) (so they are symmetric for even and antisymmetric for odd orders); a negative order raises ValueError.",
     ["inputs"], "all kernel sizes, all sigma > 0, orders 0..4 (order is enumerated)",
     "Only scipy-based tests, which cannot run here, touch these kernels, at sigma 1.5.",
     ["torchimage/pooling/gaussian.py"], [("kernel construction", "torchimage/pooling/gaussian.py: _gaussian_kernel1d, gaussian_kernel_1d")], (), ["gaussian_kernel_1d", "GaussianPoolNd"])
prop("C10", "any_conv_1d is dilated, strided correlation along any axis",
     "any_conv_1d(x, w, dim, stride, dilation) equals, whatever the memory layout of x,, at output index i along dim, the sum over k of x at index i*stride + k*dilation times w[k], for every axis (also negative), with all other axes untouched. Its output length along dim is conv_1d(in_size, kernel_size, stride, dilation).",
     ["inputs", "configurations"], "every tensor (contiguous or not), kernel length, axis, stride, dilation for which at least one window fits",
     "The test uses dilation 1 and non-negative axes only, ten random cases.",
     ["torchimage/pooling/operator.py", "torchimage/shapes/conv_like.py"], [("reshape to conv1d/conv2d", "torchimage/pooling/operator.py: any_conv_1d"), ("size formula", "torchimage/shapes/conv_like.py: conv_1d, conv_nd")], (), ["any_conv_1d", "conv_1d"])
prop("C11", "Edge filter components are edge kernel x smoothing kernel, same shape",
     "EdgeFilter.component (and Sobel, Prewitt, Scharr, Farid, GaussianGrad) equals correlation of the same-padded input with exactly the given real-valued edge kernel along the edge axis followed by same-padded correlation with the smoothing kernel along each other listed axis (the edge axis is dropped from that list), with the input's shape whenever a padder is set (mode periodize, which by definition lengthens an axis of odd size, keeps the shape of even axes). horizontal uses edge axis -2 smoothed along -1 and vertical the reverse; all_components returns one component per listed axis in order; normalize=True makes the smoothing kernel sum to 1 without changing its shape.",
     ["inputs", "configurations"], "every image, every edge/smoothing kernel weights (including non-integer ones), every padding mode, every edge axis and axes list",
     "tests/test_edges.py needs scikit-image and cannot run here; when it runs it samples integer-kernel detectors on random 2-D images.",
     ["torchimage/filtering/edges.py", BASE], [("fast path for (-1,0,1) and (1,-2,1)", "torchimage/filtering/edges.py: EdgeFilter._conv_edge"), ("component assembly", "torchimage/filtering/edges.py: EdgeFilter.component, all_components"), ("fixed kernels", "torchimage/filtering/edges.py: Sobel, Prewitt, Scharr, Farid, GaussianGrad")], (), ["EdgeFilter.component", "EdgeFilter.all_components"])
prop("C12", "Gradient magnitude and Laplacians combine the per-axis components exactly",
     "EdgeFilter.magnitude(x, axes, epsilon, p) equals (sum over the listed axes of component^p + epsilon)^(1/p), and for p=1 the plain sum plus epsilon; Laplace.forward is the sum over the listed axes of the padded second differences x[i+1]-2x[i]+x[i-1], and LaplacianOfGaussian.forward the sum of second-order Gaussian-derivative components. Fewer than two axes raise ValueError, and the input is not changed.",
     ["inputs", "configurations"], "every image, axes list of length >= 2, epsilon, p in 1..3",
     "Needs scikit-image/scipy tests that cannot run here.",
     ["torchimage/filtering/edges.py"], [("accumulation", "torchimage/filtering/edges.py: EdgeFilter.magnitude"), ("Laplace wrappers", "torchimage/filtering/edges.py: Laplace, LaplacianOfGaussian")], (), ["EdgeFilter.magnitude", "Laplace.forward", "LaplacianOfGaussian.forward"])
prop("C13", "Unsharp masking is x + amount*(x - blur(x)) with a hard threshold",
     "UnsharpMask.forward returns at every position x + amount*d with d = x - blur(x), where d is replaced by 0 exactly when |d| < threshold (threshold > 0); blur is the given pooling module converted to a stride-1 filter with the given padder, so the shape is preserved under same padding. The input tensor is not modified.",
     ["inputs", "configurations"], "every image, amount, threshold, blur module and axes",
     "There is no test of sharpening at all.",
     ["torchimage/filtering/sharpen.py"], [("formula", "torchimage/filtering/sharpen.py: UnsharpMask.forward"), ("filter conversion", "torchimage/filtering/sharpen.py: UnsharpMask.__init__")], (), ["UnsharpMask.forward"])
prop("C14", "MSE and PSNR compute their formulas under every reduction",
     "MSE.forward returns the squared error averaged over (or summed over, or left unreduced, according to `reduction`) exactly the listed axes, all axes when none are listed; PSNR.forward returns 20*log10(max_value) - 10*log10(m + eps) where m is that reduced squared error and eps is added only if positive. Both are symmetric in their two arguments, reject different shapes, and an unknown reduction raises ValueError.",
     ["inputs", "configurations"], "every pair of equally shaped tensors, reduction, axes, max_value > 0, eps >= 0",
     "tests/test_metrics.py needs scikit-image and cannot run here; it samples one random shape with default axes.",
     ["torchimage/metrics/base.py", "torchimage/metrics/mse.py", "torchimage/metrics/psnr.py"], [("reduction", "torchimage/metrics/base.py: BaseMetric.forward, _reduce"), ("formulas", "torchimage/metrics/mse.py, torchimage/metrics/psnr.py")], (), ["MSE.forward", "PSNR.forward"])
prop("C15", "SSIM follows its formula, is symmetric, and is 1 on identical images",
     "The full SSIM map equals ((2 m1 m2 + C1)(2 s12 + C2)) / ((m1^2 + m2^2 + C1)(s1 + s2 + C2)) with C1=K1^2, C2=K2^2, m the blurred images, s the blurred products minus products of means, scaled by n/(n-1) (n the number of pixels of the blur window over the content axes) exactly when use_sample_covariance is set. The score is its mean over the reduce axes, after dropping on each content axis the border positions whose window touches padding when crop_border is set and a padder is used; swapping the images changes nothing and identical images score 1 (up to rounding).",
     ["inputs", "configurations"], "every pair of equally shaped images, blur module, K1, K2, content and reduce axes, padder, both flags",
     "tests/test_metrics.py cannot run here and samples use_sample_covariance=False, crop_border=True only.",
     ["torchimage/metrics/ssim.py", BASE], [("statistics", "torchimage/metrics/ssim.py: SSIM._mu_sigma, _scale_factor"), ("formula", "torchimage/metrics/ssim.py: SSIM._ssim_full"), ("border crop and mean", "torchimage/metrics/ssim.py: SSIM._crop_border, _reduce, forward")], (), ["SSIM.forward"])
prop("C16", "MS-SSIM combines contrast scores over dyadic scales as specified",
     "MS_SSIM.forward with n weights takes the per-sample mean over the content axes of the contrast-structure map at scales 0..n-2 and of the full SSIM map at scale n-1, each scale being the previous images average-pooled by 2 along every content axis, clamps each at eps from below and multiplies their weight-powers (use_prod) or adds weight*score without clamping, then averages over the reduce axes. It works for every number of weights >= 1, rejects images with a content size that, divided by 2^(n-1), does not exceed the blur window, and is symmetric in the two images.",
     ["inputs", "configurations"], "every pair of large enough images, weights (1..5 levels enumerated), both combination rules, both cropping choices",
     "The multi-scale test is commented out.",
     ["torchimage/metrics/ssim.py", "torchimage/pooling/uniform.py"], [("scale loop", "torchimage/metrics/ssim.py: MS_SSIM.forward"), ("contrast map", "torchimage/metrics/ssim.py: MS_SSIM._cs_full"), ("downsampling", "torchimage/metrics/ssim.py: MS_SSIM._downsample"), ("size guard", "torchimage/metrics/ssim.py: MS_SSIM._check_shape_large_enough")], (), ["MS_SSIM.forward"])
prop("C17", "Bayer and RGB layout conversions are lossless and mutually consistent",
     "bayer_1c_to_4c and bayer_4c_to_1c are inverse to each other; rgb_to_1c_bayer keeps at each pixel exactly the colour its sensor alignment assigns there and rgb_to_4c_bayer equals bayer_1c_to_4c of it; downsample_1c_bayer_to_rgb and downsample_4c_bayer_to_rgb return for each 2x2 block its red sample, the mean of its two green samples and its blue sample. This holds for all four alignments (any letter case), any leading batch dimensions; layout conversions keep the dtype whatever it is, downsampling is for floating-point images, and malformed shapes or alignments raise AssertionError.",
     ["inputs", "configurations"], "every even height and width, every content, every alignment, several batch ranks",
     "No test covers these conversions.",
     ["torchimage/cfa/utils/bayer_1c_4c.py", "torchimage/cfa/utils/rgb_to_bayer.py", "torchimage/cfa/utils/bayer_to_rgb.py", "torchimage/cfa/utils/validation.py"], [("strided copies", "torchimage/cfa/utils/bayer_1c_4c.py, rgb_to_bayer.py"), ("validation", "torchimage/cfa/utils/validation.py")], (), ["torchimage.cfa.utils functions"])
prop("C18", "BayerConv2d applies each colour site's own kernel, centred on the pixel",
     "BayerConv2d.forward gives at every pixel the convolution (plus bias) of the reflect-padded input, window centred on that pixel, with the weights belonging to that pixel's site type (R, B, green in a red row, green in a blue row) under the given sensor alignment, for odd kernel sizes >= 3. forward_unshuffle (and BayerConv2dUnshuffle) is exactly the pixel-unshuffled forward.",
     ["inputs", "configurations"], "every even image size that admits the reflect padding, every weights and bias, every alignment, kernel sizes 3 and 5 (enumerated), channel counts enumerated",
     "The only test compares the two methods on one size and one alignment; nothing checks where the kernels are applied.",
     ["torchimage/cfa/bayer_conv/bayer_conv_2d.py"], [("site offsets", "torchimage/cfa/bayer_conv/bayer_conv_2d.py: get_sensor_beg_index, get_padding_layer"), ("scatter into output", "torchimage/cfa/bayer_conv/bayer_conv_2d.py: BayerConv2d.forward, forward_unshuffle")], (), ["BayerConv2d.forward", "BayerConv2d.forward_unshuffle"])
prop("C19", "Demosaicing keeps measured samples and reproduces flat colours",
     "The demosaic module returns an RGB image in which, at every pixel, the channel measured by the sensor there equals the input sample and the two other channels equal the gradient-corrected linear interpolation with the 5x5 Malvar weights for that site, every channel clamped to [0, clamp]. In particular a mosaic of an RGB image constant over the plane with values in [0, clamp] is reproduced when its three channels are equal.",
     ["inputs", "configurations"], "every even-sized image of at least 4x4, every content, every alignment, every clamp > 0",
     "No test calls the demosaic module.",
     ["torchimage/cfa/bayer_conv/bayer_conv_2d.py", "torchimage/cfa/bayer_conv/gradient_corrected.py"], [("filter bank", "torchimage/cfa/bayer_conv/gradient_corrected.py: wf_list, wf_dict"), ("assembly", "torchimage/cfa/bayer_conv/bayer_conv_2d.py: last_step_demosaic, PreTrainedBilinearInterpolator")], (), ["torchimage.cfa.demosaic", "last_step_demosaic"])
prop("C20", "NdSpec: an item broadcasts to every index, a list of items is indexed",
     "NdSpec(data, item_shape) whose data is an item (or a partial item broadcast to the item shape) returns that item for every integer index and has length 0; data that is a list of n items returns item i for -n <= i < n, has length n, raises IndexError outside, and iterates over the items in order. On list data a tuple key descends one nesting level per entry and a tuple key longer than the index rank raises IndexError (an item returns itself for any key); copying an NdSpec keeps data and shape, and an index_shape that does not fit the data raises ValueError.",
     ["inputs", "configurations"], "every index, every item value, scalars / lists / tensors as items, nesting enumerated up to depth 3",
     "Tests check a dozen literal examples.",
     ["torchimage/utils/ndspec.py", "torchimage/utils/ragged.py"], [("construction", "torchimage/utils/ndspec.py: NdSpec.__init__"), ("lookup", "torchimage/utils/ndspec.py: NdSpec.__getitem__, __len__, __iter__")], [("data, shape, index_pos", "nested data and the split of its shape into index and item part", "torchimage/utils/ndspec.py")], ["NdSpec"])
prop("C21", "NdSpec map, starmap, zip and apply act item-wise with broadcasting",
     "For NdSpecs that are items or share one regular (non-ragged) index shape, apply(f, a, b, ...) has that index shape and its entry at every index is f of the entries at that index; zip is apply with tuple, map(f) and starmap(f) are the one-argument forms (starmap spreads the item). Aggregating different non-empty index shapes or no/non-NdSpec arguments raises ValueError, agg_index_len returns the common length (0 for items only), and the arguments are not modified.",
     ["inputs", "configurations"], "every function, item values, index shapes of rank 0..2 (sizes enumerated)",
     "Tests use three literal lists.",
     ["torchimage/utils/ndspec.py", "torchimage/utils/ragged.py"], [("item-wise application", "torchimage/utils/ndspec.py: NdSpec.apply, map, starmap, zip"), ("index shape aggregation", "torchimage/utils/ndspec.py: NdSpec.agg_index_shape, agg_index_len")], (), ["NdSpec.apply", "NdSpec.zip", "NdSpec.map"])
prop("C22", "Ragged arrays: shapes are reported and broadcast correctly",
     "get_ragged_ndarray returns for nested lists/tuples/arrays/tensors the common depth as rank and on each axis the common length, or -1 where sibling lengths differ; siblings of different depth are leaves in strict mode and lifted to the deepest level otherwise, and data is returned unchanged unless lifting is needed. expand_ragged_ndarray repeats length-1 axes and adds leading axes to reach the requested shape (-1 keeps the length), leaves every leaf value in place, reports the resulting shape, and raises ValueError (for tensor leaves torch's RuntimeError) when a length other than 1 would have to change.",
     ["inputs", "configurations"], "every numeric leaf value and tensor size; nesting structures enumerated up to depth 3",
     "Tests check about ten literal examples and regular arrays.",
     ["torchimage/utils/ragged.py"], [("shape inference", "torchimage/utils/ragged.py: get_ragged_ndarray"), ("expansion", "torchimage/utils/ragged.py: expand_ragged_ndarray, _recursive_expand, _check_zero_length")], (), ["get_ragged_ndarray", "expand_ragged_ndarray"])
prop("C23", "Axis, stride and width arguments are normalised or rejected",
     "check_axes maps None to all axes, a slice to that slice of the axis range, an integer or a sequence of integers to the equivalent non-negative axes in the same order, and raises ValueError for any axis outside [-ndim, ndim). check_stride passes None through and otherwise returns the integer if it is >= 1, else raises ValueError; check_pad_width returns both widths as integers if non-negative, else raises ValueError.",
     ["inputs"], "every rank 1..5 (enumerated), every integer axis, stride and width",
     "No test calls the validators with invalid input.",
     ["torchimage/utils/validation.py"], [("validators", "torchimage/utils/validation.py: check_axes, check_stride, check_pad_width")], (), ["check_axes", "check_stride", "check_pad_width"])
prop("C24", "poly1d evaluates the polynomial and outer the outer product",
     "poly1d(x, p) equals p[0]*x^(n-1) + ... + p[n-2]*x + p[n-1] elementwise for every coefficient list of length n >= 1, with x's shape and without modifying x or p. outer(u, v) has shape u.shape + v.shape and its entry at (i..., j...) is u[i...]*v[j...].",
     ["inputs"], "every floating tensor, every coefficient values, every degree (proved inductively or enumerated), all ranks enumerated",
     "One random degree-7 case; outer is only used indirectly.",
     ["torchimage/misc/polynomial.py", "torchimage/misc/outer.py"], [("running powers", "torchimage/misc/polynomial.py: poly1d"), ("reshape and multiply", "torchimage/misc/outer.py: outer")], (), ["poly1d", "outer"])
prop("C25", "safe_power is the signed power, finite where pow would be NaN",
     "safe_power(x, e) equals x^e elementwise wherever e has no fractional part or x > 0; where e has a fractional part it equals -(|x|^e) for x < 0 and epsilon^e for x = 0 (0^e if epsilon is 0), under broadcasting of x and e. Python numbers and tensors may be mixed (at least one a tensor) without losing the fractional part of either argument, and the inputs are not modified (epsilon >= 0; between two integer tensors the exponents are non-negative, as torch requires).",
     ["inputs"], "every base, exponent and epsilon value; tensor/number and integer/float dtype mixes enumerated",
     "Tests use six literal or random cases, always floating dtype.",
     ["torchimage/misc/power.py"], [("masked sign handling", "torchimage/misc/power.py: safe_power")], (), ["safe_power"])
prop("C26", "Random crops are in-bounds sub-blocks; noise has the stated form",
     "random_crop returns a contiguous sub-block of x having exactly the requested size on each listed axis (None leaves the axis whole) and full size elsewhere; every admissible offset from 0 to length-size inclusive can be drawn and no other, in particular size = length returns the whole axis. for floating-point images and sigma >= 0 add_gauss_noise returns x + sigma*n with n one standard normal sample of x's shape, add_poisson_gauss_noise returns k*p + sigma*n with p a Poisson sample of rate x/k; equal generator states give equal results and x is not modified.",
     ["inputs", "schedules"], "every tensor size, crop size, random draw, noise parameter",
     "Nothing in torchimage.random is tested.",
     ["torchimage/random.py"], [("offset draw", "torchimage/random.py: random_crop"), ("noise formulas", "torchimage/random.py: add_poisson_gauss_noise, add_gauss_noise")], (), ["random_crop", "add_gauss_noise", "add_poisson_gauss_noise"])
prop("C27", "No operation modifies the tensors or lists passed to it",
     "Padders, pooling modules, edge filters, unsharp masking, metrics, Bayer conversions and layers, safe_power, poly1d, outer, cropping and noise functions leave every argument tensor, kernel and list element-wise unchanged. This also holds when the result happens to need no computation (for example zero padding widths or empty kernels).",
     ["inputs", "configurations"], "every tensor content and size, each public operation",
     "Tests never compare their inputs before and after.",
     ["torchimage/padding/generic_pad.py", BASE, "torchimage/filtering/edges.py", "torchimage/filtering/sharpen.py", "torchimage/metrics/ssim.py", "torchimage/misc/polynomial.py", "torchimage/misc/power.py", "torchimage/random.py"], [("in-place updates act on fresh tensors only", "all in-place statements (+=, add_, masked assignment) in these files")], (), ["all public operations"])
prop("C28", "Filter and metric objects can be reused: results do not depend on history",
     "The result of calling a pooling module, edge filter, unsharp mask, SSIM or MS_SSIM object depends only on its construction parameters and the current arguments: earlier calls with other tensors, shapes or axes, and other modules sharing the same Padder object, do not change it. Constructing a second module from the same Padder, kernel list or NdSpec also leaves the first one's results unchanged (a pooling module handed to another object and explicitly reconfigured there, as UnsharpMask, SSIM and to_filter document, is the exception).",
     ["histories", "inputs"], "every pair of successive calls with arbitrary shapes, axes and contents; shared padders",
     "Tests construct a new module for almost every call.",
     [BASE, PADN, "torchimage/filtering/edges.py", "torchimage/metrics/ssim.py"], [("same padder re-fitted at every call", BASE + ": BasePoolNd.pad; " + PADN + ": Padder.to_same"), ("crop uses the last-used widths", "torchimage/metrics/ssim.py: SSIM._crop_border")],
     [("same_padder.pad_width", "overwritten by every padded call", PADN)], ["SeparablePoolNd.forward", "EdgeFilter.component", "SSIM.forward"])
prop("C29", "Pad-width formats convert without loss",
     "pad_width_format from numpy to torch format lists the (before, after) pairs from the last axis to the first, from torch to numpy restores them and puts (0, 0) for the leading axes not mentioned, and the two are inverse on full specifications. Identical source and target return the argument unchanged, and any other format pair raises ValueError.",
     ["inputs"], "every widths, number of axes enumerated up to 5",
     "Not tested.",
     [PADU], [("conversion", PADU + ": pad_width_format")], (), ["pad_width_format"])
prop("C30", "Operations stay differentiable in their image arguments",
     "Padding, pooling, edge filters, unsharp masking (threshold 0), MSE, PSNR, SSIM, MS-SSIM, Bayer conversions, demosaicing, poly1d and outer never detach, re-wrap or convert their image arguments on the way to the result, so that back-propagation yields the derivative of the returned formula with respect to every image argument. Where every step of the formula is differentiable (so not at the root of a zero magnitude or the logarithm of a zero error, which epsilon avoids) it agrees with the finite-difference derivative.",
     ["inputs", "configurations"], "every tensor content and size, each listed operation",
     "Only safe_power's gradient is tested; README promises differentiability for all of them.",
     [BASE, PADN, "torchimage/filtering/edges.py", "torchimage/metrics/ssim.py", "torchimage/metrics/psnr.py", "torchimage/misc/polynomial.py", "torchimage/cfa/bayer_conv/bayer_conv_2d.py"], [("only kernels are detached", BASE + ": move_tensor"), ("no detach on image path", "all files listed")], (), ["backward through the listed operations"])

prop("C31", "Edge losses compare the Gaussian edge maps they are defined on",
     "For NCHW images GaussianEdgeLoss(kernel_size, sigma, order) stacks the reflect-padded Gaussian derivative components of each image along axis 2 and along axis 3 (the other of the two axes smoothed with the normalised Gaussian) and returns the mean absolute difference of the two stacks; WeightedMul returns the mean of |t - p| * t, WeightedDiv the mean of |t - p| / t and WeightedSum the mean over samples and edge channels of the absolute difference between the per-channel spatial means of |t| and of |p|, t and p being the stacked edge maps of y_true and y_pred. Identical images give 0 in GaussianEdgeLoss and WeightedSum, and neither image is modified.",
     ["inputs"], "every image content and size (NCHW), kernel size, sigma and derivative order",
     "Not tested at all.",
     ["torchimage/contrib/edge_loss.py", "torchimage/filtering/edges.py"], [("stacking", "torchimage/contrib/edge_loss.py: GaussianEdgeLoss._get_edge_tensor"), ("weighting", "torchimage/contrib/edge_loss.py: WeightedMul, WeightedDiv, WeightedSum")], (), ["GaussianEdgeLoss.forward", "WeightedMul.forward", "WeightedDiv.forward", "WeightedSum.forward"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
