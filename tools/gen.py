"""Writes properties.jsonl and MANIFEST.json (kept in one place so that they stay in step)."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "high_order_layers_torch/"
P, B, L = PKG + "PolynomialLayers.py", PKG + "Basis.py", PKG + "LagrangePolynomial.py"
LY, N, U = PKG + "layers.py", PKG + "networks.py", PKG + "utils.py"
FC, FT = PKG + "FunctionalConvolution.py", PKG + "FunctionalConvolutionTranspose.py"
PR, AT, PE, M, SL = PKG + "ProductLayer.py", PKG + "attentions.py", PKG + "positional_embeddings.py", PKG + "modules.py", PKG + "sparse_optimizers/sparse_lion.py"


def at(f, pat):
    for i, line in enumerate(open(os.path.join(REPO, f)), 1):
        if re.search(pat, line):
            return f"{f}:{i}"
    raise SystemExit(f"no {pat} in {f}")


def m(name, f, pat):
    return dict(name=name, where=at(f, pat))


W = [dict(name="w", meaning="node values (weights) of every link: [outputs, inputs, nodes]", where=at(P, r"self\.w = "))]

PROPS = []


def prop(pid, title, statement, over, text, why, mech, note, technique, state=None, observe=None):
    files = sorted({x["where"].split(":")[0] for x in mech})
    a = dict(files=files, mechanism=mech, hook_needed=None)
    if state:
        a["state"] = state
    if observe:
        a["observe_at"] = observe
    assert len(title) <= 80, (pid, len(title))
    assert len(re.findall(r"[.](\s|$)", statement)) <= 3, pid
    PROPS.append((dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a), technique, note))


IC = ["inputs", "configurations"]
HC = ["histories", "configurations"]
HIC = ["histories", "inputs", "configurations"]
E = "bounded exhaustive enumeration of the real code against a float64 reference model"
SX = "stateless exploration of all operation histories up to a depth on the real code, every step compared with a reference model"
TRUST = " Trusted: PyTorch kernels, the float64 reference model, and derived rounding tolerances. float32 on the CPU; bounds are listed in the evidence file and in DESIGN.md."

prop("C01", "Layer output is the sum over inputs of interpolating Lagrange polynomials",
     "For an input inside the domain, output o of a polynomial, piecewise continuous or piecewise discontinuous fully connected layer is the sum over the inputs of a one dimensional (piecewise) polynomial, and each piece is the unique polynomial of degree n-1 that takes the values of its n weights at its Chebyshev-Lobatto nodes. The pieces divide the domain into equal segments, a continuous layer shares the end nodes of neighbouring pieces, and the output has one row per sample of the batch.",
     IC, "every n, number of segments, width, weight assignment, batch size and every input in the domain, including the nodes and the segment boundaries themselves",
     "The tests evaluate a few n/segment pairs at a handful of hand picked inputs; which piece, node and weight an input meets changes at every boundary and for every n, segments and width.",
     [m("node positions", L, r"def chebyshevLobatto"), m("basis functions", L, r"^class LagrangeBasis:"), m("weights times basis", B, r"^class Basis:"), m("flat polynomial", B, r"^class BasisFlat:"),
      m("segment lookup and weight gather, continuous", P, r"^class Piecewise\(nn"), m("segment lookup and weight gather, discontinuous", P, r"^class PiecewiseDiscontinuous\(nn")],
     "Every half precision input of the domain, every node and boundary with its float neighbours, one-hot and generic weights, for the listed grid of (kind, n, segments, inputs, outputs, batch size)." + TRUST, E, W)

prop("C02", "Domain length scales the pieces; inputs outside extrapolate the end pieces",
     "A layer with domain length D divides [-D/2, D/2] into its equal segments, so it computes the function of the layer with the default length at the input scaled by 2/D. An input outside of the domain uses the first or last piece, continued as the same polynomial, whatever its magnitude; this holds for sums and for products of links.",
     IC, "every kind, n, number of segments, length and input, inside, at and outside of the domain",
     "The tests use the default length and inputs inside the domain; the clamping of the segment index and the mapping to the local coordinate matter only outside of it and for other lengths.",
     [m("segment index clamp", P, r"def which_segment"), m("local coordinate", P, r"def x_local"), m("node positions scaled by length", L, r"^class LagrangeBasis:")],
     "8 lengths, inputs up to 1000 half lengths outside, all kinds and products, in the listed grid." + TRUST, E, W)

prop("C03", "Continuous layers have no jumps; discontinuous pieces are independent",
     "The function of a continuous piecewise layer has no jump at any interior boundary: its value there is the shared weight from both sides. The pieces of a discontinuous layer share nothing: the one sided limits at a boundary are the end weights of the two pieces, the boundary itself belongs to the right hand piece, and changing the weights of one piece changes no other piece.",
     IC, "every n, number of segments, length, interior boundary and the floating point numbers around it",
     "A wrong index at one boundary shows only within rounding of that boundary or in the one weight that is shared; tests sample interior points.",
     [m("weight offset of a segment, continuous", P, r"^class Piecewise\(nn"), m("weight offset of a segment, discontinuous", P, r"^class PiecewiseDiscontinuous\(nn")],
     "Every interior boundary of every configuration in the grid, at +-6 ulps and +-1e-5 of a segment." + TRUST, E, W)

prop("C04", "Gradients: weights get their basis values, only the active pieces get any",
     "The gradient of an output with respect to a weight is the value of that weight's basis function, exactly zero for every piece that no sample of the batch falls into, and the gradient with respect to an input is the derivative of the links of that input. The gradient of a batch is the sum of the gradients of its samples; the same holds, as the derivative (of first and second order) of what the layer computes, for product, Fourier, N dimensional, switch and convolution layers.",
     IC, "every kind of layer, n, number of segments, width and input position, including nodes, boundaries and inputs outside of the domain",
     "No test checks a gradient value; training tests only require that a loss is finite or smaller.",
     [m("weights times basis", B, r"^class Basis:"), m("gather of the active weights", P, r"^class Piecewise\(nn"), m("product of the links", B, r"^class BasisProd:"), m("convolution of the expansion", FC, r"^class PiecewisePolynomialConvolution\(nn")],
     "One backward pass for every special point (nodes, boundaries +-1 ulp, interior, outside) of every configuration in the grid; the other layer kinds against float64 differences of their reference model." + TRUST, E, W)

prop("C05", "A layer's output depends only on its weights and the row, not on history",
     "The output for a sample is a function of the current weights and that sample alone: it does not depend on earlier calls, on other live layers of the same kind, on the other rows, size or memory layout of the batch, on training or evaluation mode, on whether gradients are enabled, on calls that failed, or on what other threads compute at the same time. Changing the weights (training step, assignment, loading, copying, pickling) takes effect at the next call, and a call changes neither its input nor the weights.",
     HIC + ["schedules", "fault_sequences"], "every sequence of forward calls (varying batch sizes, reused and non contiguous input tensors), training steps, weight assignments, state loading, deep copies, save/load round trips and mode switches on two live layers that differ in one option; every interleaving with a call in a second thread; every operation that can fail inside a call",
     "The tests build a fresh layer per case and call it once; stale caches, shared state and layout dependence need a second call, a second layer or another layout.",
     [m("forward, continuous", P, r"^class Piecewise\(nn"), m("forward, discontinuous", P, r"^class PiecewiseDiscontinuous\(nn"), m("forward, N dimensional", P, r"^class PiecewiseND"), m("expansion of convolutions", FC, r"^class Expansion2d"), m("products", PR, r"^class Product\(")],
     "All histories of the stated depth over a 15 operation alphabet for every pair of layers; all batch sizes 1..33 and six memory layouts; all two thread schedules with one preemption (every line; every instruction for the base layers) or two (every line, six layers); every allocation fails once." + TRUST, SX, W)

prop("C06", "Product layers multiply (1 + link) over the inputs and subtract one",
     "Output o of a product version of a polynomial or piecewise layer is the product over the inputs of one plus the link value, minus one, so with a single non zero link it is that link and with all links zero it is zero. The plain product layer does the same with links weight times input, minus (1 - alpha) times the sum of the links, plus the bias if there is one.",
     IC, "every kind, n, number of segments, width, alpha, bias option, weight assignment and input",
     "Tests of product layers only check output shapes or convergence of one example.",
     [m("product over the inputs", B, r"^class BasisProd:"), m("product over the inputs, flat", B, r"^class BasisFlatProd:"), m("plain product layer", PR, r"^class Product\(")],
     "Every configuration of the grid, exhaustive product grids of inputs for up to 4 inputs." + TRUST, E, W)

prop("C07", "Fourier layers compute the real Fourier series with the period of the domain",
     "A Fourier layer with n weights per link computes, summed over the inputs, weight 0 times 1/2 plus weights times cosines and sines of increasing integer multiples of the base frequency of its length, so adding the length to an input does not change the output. The Fourier embedding is the same layer.",
     IC, "every n, length, width, weight assignment and input",
     "Tests compare one small configuration; n, length and frequency order interact.",
     [m("basis", L, r"^class FourierBasis"), m("layer", P, r"^class FourierSeries"), m("embedding", PE, r"^def FourierSeriesEmbedding")],
     "n 1..9 x 6 lengths x widths, half precision inputs over four periods." + TRUST, E)

prop("C08", "N dimensional layers are tensor product interpolations, one per link",
     "A polynomial layer over N dimensional inputs, and its piecewise version, compute the sum over the inputs of the tensor product of one dimensional interpolations: the piece is selected per dimension, the value at a tensor node is the weight of that node, and every (input, output) pair has weights of its own. Inputs outside of the domain use the end pieces of each dimension.",
     IC, "every dimension up to 5, n and number of segments per dimension (equal or different), length, width, batch size and input",
     "Tests only check shapes of equal n and segments in two and three dimensions, where transposed or mixed up dimensions cannot be seen.",
     [m("tensor basis", L, r"^class LagrangeBasisND"), m("weights per sample", L, r"^class LagrangeBasisPiecewiseND"), m("segments and weight gather", P, r"^class PiecewiseND"), m("polynomial layers", P, r"^class PolynomialND")],
     "Dimensions 1..5 with equal and different n and segments, tensor grids of nodes, boundaries, interior and exterior values, weight gradients." + TRUST, E, W)

prop("C09", "p-refinement reproduces the source function in a layer of another degree",
     "Interpolating a continuous or discontinuous piecewise layer (or a switch layer or network of them) into one of another n gives the target the values of the source function at its nodes, so with n not smaller the target computes the same function, and the source is unchanged. A target with another number of segments is refused with a ValueError and left unchanged.",
     IC, "every kind, product or sum, n to n', number of segments, width, length, periodicity; networks of any depth with per layer n and normalization",
     "Tests refine a few n pairs of one layer and compare at a few inputs; mixing up of links, segments or nodes, aliasing of the weights and product layers are not observed.",
     [m("layer interpolation", P, r"^def interpolate_polynomial_layer"), m("network interpolation", N, r"^def interpolate_high_order_mlp"), m("switch layers", LY, r"def interpolate")],
     "All (kind, product, n, n', segments) in range x 6 shapes, lengths and periodicities; weights and functions compared; networks of 6 types with up to 3 hidden layers." + TRUST, E, W)

prop("C10", "h- and hp-refinement reproduce the source function on more segments",
     "Refining a continuous piecewise layer (or a switch layer or network of them) into one with another number of segments and n gives the target the values of the source function at its nodes, so with a multiple of the segments and n not smaller the target computes the same function everywhere. The source is unchanged, the target stays trainable, and refining discontinuous layers is refused.",
     IC, "every n, n', segments, segments' (nested or not), product or sum, width, length, periodicity; networks of any depth",
     "Tests refine a few pairs at default length and compare at a few points; a wrong piece at a coinciding node or boundary shows only for particular ratios.",
     [m("layer refinement", P, r"^def refine_polynomial_layer"), m("network refinement", N, r"^def hp_refine_high_order_mlp"), m("switch layers", LY, r"def refine")],
     "All (n, segments) to (n', segments') pairs in range x 5 shapes, lengths and periodicities; networks of three types." + TRUST, E, W)

prop("C11", "Any history of refinements and training keeps refined copies exact and separate",
     "Along any sequence of refinements between layers or networks and training steps on any of them, each refinement makes the target compute the current function of its source and changes nothing else. A training step on one of them never changes another one, refined networks remain trainable and refinable, and this also holds when a refinement fails half way and is repeated, or another thread uses the source meanwhile.",
     HC + ["schedules", "fault_sequences"], "every sequence of p, h and hp refinements and training steps over several networks; every operation that can fail inside a refinement; every interleaving with a second thread",
     "Tests perform one refinement of one fresh layer; aliasing and stale state need further steps.",
     [m("layer interpolation", P, r"^def interpolate_polynomial_layer"), m("layer refinement", P, r"^def refine_polynomial_layer"), m("network interpolation", N, r"^def interpolate_high_order_mlp"), m("network refinement", N, r"^def hp_refine_high_order_mlp")],
     "Explicit state search over all histories up to depth 3 (thorough 4) over five live networks, states deduplicated by the exact weights; every failing operation and every single preemption of a refinement." + TRUST, "explicit-state search over all refinement/training histories of the real networks against a reference model", W)

prop("C12", "Smoothing closes the jumps by the given factor and touches nothing else",
     "Smoothing a discontinuous layer with factor f moves the two weights at every interior boundary towards each other so that the jump is multiplied by 1-f and their mean is kept; factor 1 makes the function continuous, factor 0 changes nothing. No other weight changes, and in a network only the discontinuous layers change.",
     HIC, "every n of at least 2, number of segments, width, factor, sequence of factors, and network",
     "Tests smooth one layer once; boundary indices, repeated smoothing and other layers of a network are not covered.",
     [m("layer smoothing", P, r"^def smooth_discontinuous_layer"), m("network smoothing", N, r"^def smooth_discontinuous_network")],
     "All factor sequences up to depth 3 over 5 factors, n 2..6, segments 1..16, networks of 7 compositions." + TRUST, SX, W)

prop("C13", "Initialization: straight lines within the limits, constant links, as requested",
     "Linear initialization of piecewise layers and networks makes every link a straight line across all of its pieces, with independent slopes and offsets spread over the given limits and never beyond (for the slope times the fan-in function of that layer); layers without pieces keep their weights. The default initialization makes every link constant with magnitude up to the weight magnitude over the number of inputs, the uniform option and the convolutions (2d ones constant per link) respect the same kind of limit, networks pass the requested option to every layer, and the result is determined by the random seed.",
     IC, "every kind, n, segments, width, length, limit and every answer of the random source",
     "Tests look at one layer with the real random generator; extreme random answers, lengths and per link independence are not covered.",
     [m("line initialization", P, r"^def initialize_polynomial_layer"), m("network initialization", N, r"^def initialize_network_polynomial_layers"), m("constant links", P, r"^def constant_random_initialization")],
     "All shapes in range; the random source is answered by every sequence over four values including both ends; seeds enumerated." + TRUST, "enumeration of configurations and of the answers of the random source, real code against a reference model", W)

prop("C14", "High order convolutions are convolutions of the per pixel basis expansion",
     "A 1d or 2d polynomial, continuous, discontinuous or Fourier convolution replaces every input value by its basis values and convolves the result, channel by channel and in node order, with its weights, so that each (channel, kernel position, output) has a one dimensional function of its own, in every call. Stride, padding, padding mode, dilation, groups, length and periodicity have the meaning of the standard convolution applied to the expansion, and output rescaling divides by the number of input channels times the kernel volume.",
     IC, "every kind, dimension, n, segments, channels, kernel size, stride, padding, dilation, groups, image size, batch size, weight assignment and image",
     "Tests check shapes of a few configurations; the layout of expanded channels against weights is never compared with a reference.",
     [m("expansion layout 2d", FC, r"^class Expansion2d"), m("expansion layout 1d", FC, r"^class Expansion1d"), m("piecewise expansion", B, r"^class PiecewiseExpand:"), m("piecewise expansion 1d", B, r"^class PiecewiseExpand1d"), m("discontinuous expansion", B, r"^class PiecewiseDiscontinuousExpand:"), m("convolution options", FC, r"^def conv_wrapper")],
     "Grid over all options; identity kernels expose every basis function; all small images over an alphabet." + TRUST, E)

prop("C15", "Transposed high order convolutions transpose-convolve the basis expansion",
     "The transposed piecewise convolution replaces every input value by its basis values and applies the standard transposed convolution with its weights to the result. Stride, padding, output padding, dilation, length, periodicity and rescaling act as for the standard transposed convolution, and so does the size of the output.",
     IC, "every n, segments, channels, kernel size, stride, padding, output padding, dilation, image and weight assignment",
     "Tests check output shapes of a few configurations.",
     [m("transposed convolution", FT, r"^class PiecewisePolynomialConvolutionTranspose\(nn"), m("options", FT, r"^def conv_transpose_wrapper"), m("piecewise expansion", B, r"^class PiecewiseExpand:")],
     "Grid over all options; identity kernels; all small images over an alphabet." + TRUST, E)

prop("C16", "Periodicity folds every input back by mirroring, continuously",
     "With a periodicity p, an input is replaced by its mirror image in [-p/2, p/2]: inputs inside are unchanged, the fold is continuous, symmetric about the ends and repeats with period 2p. A fully connected, product or convolution layer with a periodicity computes for an input what the same layer without it computes for the folded input.",
     IC, "every periodicity, layer kind, length and input of any sign and magnitude",
     "Tests fold a few values of one sign; parity of the fold count and negative inputs are what breaks.",
     [m("fold", U, r"^def make_periodic"), m("use in piecewise layers", P, r"^class Piecewise\(nn"), m("use in product layer", PR, r"^class Product\("), m("use in convolutions", FC, r"^class PiecewisePolynomialConvolution\(nn")],
     "7 periods x all half precision inputs in [-64,64] and exact multiples; layers and convolutions." + TRUST, E)

prop("C17", "Normalizations bound every sample by its own maximum, norm or range",
     "Max-abs normalization divides by the largest magnitude plus eps, max-center subtracts the midrange and divides by half the range plus eps, L2 divides by the norm plus eps, each along its documented dimension (feature, last, or all of a sample) and each sample on its own. Results are finite and at most one in magnitude, also for zero, constant, tiny or huge samples, they are differentiated like this function, and the input is not modified; layer norm has zero mean and unit variance along the last dimension.",
     IC, "every sample vector, tensor shape, batch size and public spelling of each normalization",
     "Tests check one vector each; degenerate samples, other samples of the batch and higher ranks are not covered.",
     [m("functions", U, r"^def max_abs_normalization\("), m("centered functions", U, r"^def max_center_normalization\("), m("modules", LY, r"^class MaxAbsNormalization\("), m("registry", LY, r"^normalization_layers")],
     "All vectors up to length 4 over a 10 value alphabet, shapes up to rank 5, batch sizes, every spelling." + TRUST, E)

prop("C18", "Networks apply exactly the configured layers, in order, with their options",
     "A network built from a configuration (high order MLP and its list, multi and rotated versions, low order MLP, convolutional, deconvolutional and tail focus networks, sum and switch layers) computes the composition of exactly the layers that the configuration names, with its widths, n, segments, scale, periodicity, normalization, non linearity, residual connections and dropout at the documented places, and backpropagation yields the derivatives of that composition. Sizes and widths that it announces are the sizes of its outputs.",
     IC, "every combination of layer types, depths, widths, per layer n and segments, normalization, non linearity, stride, padding, focus, and every input",
     "Tests check output shapes of a few configurations; an option that is dropped, or reaches the wrong layer, gives the same shape.",
     [m("MLP", N, r"^class HighOrderMLP\("), m("list", N, r"^class HighOrderMLPList"), m("multi", N, r"^class HighOrderMultiMLP"), m("low order", N, r"^class LowOrderMLP"), m("convolutional", N, r"^class HighOrderFullyConvolutionalNetwork"), m("deconvolutional", N, r"^class HighOrderFullyDeconvolutionalNetwork"),
      m("tail focus", N, r"^class HighOrderTailFocusNetwork"), m("rotated inputs", N, r"^def transform_mlp"), m("switch", LY, r"^class SwitchLayer"), m("sum", LY, r"^class SumLayer")],
     "A grid of about 1900 configurations; each network is executed, its layers recorded in execution order, each compared with the reference of the configured layer, the composition predicted and its derivatives compared with differences." + TRUST, E)

prop("C19", "All trainable values are registered, trainable, and captured by the state dict",
     "Every layer and network has exactly the trainable values that its configuration implies, each of them receives a gradient for some input and changes in training, and values meant to be fixed never change. The state dict captures the whole behaviour: after any history of training, saving, copying and loading, an instance restored from it computes the same outputs, and copies are independent.",
     HC, "every layer and network kind, and every sequence of save, load, restore into a fresh instance, training step with any supported optimizer, deep copy and perturbation",
     "Tests save and restore nothing and count no parameters; an unregistered sub layer trains silently without effect.",
     [m("weights", P, r"^class Piecewise\(nn"), m("switch", LY, r"^class SwitchLayer"), m("sum", LY, r"^class SumLayer"), m("networks", N, r"^class HighOrderMLP\("), m("convolutions", FC, r"^class PiecewisePolynomialConvolution\(nn")],
     "All histories up to depth 2 over 9 operations and depth 3 over a short alphabet for every layer and network; gradient coverage of every single value." + TRUST, SX)

prop("C20", "SparseLion is Lion on weights with a gradient and leaves the others alone",
     "A step changes exactly the weights whose gradient is not zero, by the Lion rule with decoupled weight decay; a weight with zero or missing gradient keeps its value and its momentum bit for bit, however often it is idle. When no gradient is zero it agrees with the reference Lion optimizer; parameter groups, learning rate changes, closures and saved optimizer states are respected, and a step changes no gradient.",
     HC, "every history of gradients (zero, missing, any sign and magnitude) of every weight, any hyper parameters, groups, and save/load points",
     "Tests run a few steps of one layer and compare the final loss; idle phases, decay and state round trips need particular histories.",
     [m("update", SL, r"^def update_fn"), m("step", SL, r"def step")],
     "All gradient histories of one weight up to depth 5 over 7 gradients (thorough: 6 over 9) for 6 hyper parameter sets; all operation histories up to depth 4 over 11 operations and two groups." + TRUST, SX)

prop("C21", "Rotations, mesh positions and positional embeddings are what they claim",
     "The fixed rotation layer yields the identity axes and, for every pair of inputs, the evenly spaced rotated axes, normalized into [-1, 1] if asked, and announces its width; mesh positions are the coordinates along evenly rotated axes, scaled to the requested range. The sinusoidal embedding has sines and cosines of geometrically spaced frequencies, for integer and real positions, and refuses odd dimensions, and the polynomial and Fourier embeddings are the corresponding layers with the given options.",
     IC, "every number of inputs, rotations, mesh size, embedding dimension and input",
     "Tests check shapes or a single small case.",
     [m("rotation", LY, r"^def fixed_rotation_layer"), m("mesh", U, r"^def positions_from_mesh"), m("sinusoidal", PE, r"^class ClassicSinusoidalEmbedding"), m("piecewise embedding", PE, r"^def PiecewisePolynomialEmbedding")],
     "All sizes in range, all inputs over the alphabets." + TRUST, E)

prop("C22", "Attention layers weight values by their documented scores, masked and per head",
     "Each attention layer returns the average of the (projected) values under weights that are non negative, sum to one, and are the documented function of its scores; every sample and every head is computed on its own. A masked position gets no weight, for any mask that leaves something to attend to, inputs and masks are not modified, a call does not depend on earlier calls, and the result is differentiated like this function.",
     IC, "every kind of attention, batch size, number of queries, keys and heads, mask, parameters and input",
     "No test covers the attention layers.",
     [m("scaled dot product", AT, r"^class ScaledDotProductAttention"), m("multi head", AT, r"^class MultiHeadAttention"), m("relative", AT, r"^class RelativeMultiHeadAttention"), m("additive", AT, r"^class AdditiveAttention"), m("location aware", AT, r"^class LocationAwareAttention"), m("multi head location aware", AT, r"^class MultiHeadLocationAwareAttention"), m("customizing", AT, r"^class CustomizingAttention")],
     "All sizes up to the bound, size ladders, all masks for up to 2 queries x 3 keys with different masks per sample, all pairs of calls on one instance, derivatives against differences." + TRUST, E)

prop("C23", "The variational autoencoder encodes, samples, decodes and scores as documented",
     "Encoding gives the mean and log variance as linear functions of the encoder features, sampling gives mean plus exp(log variance / 2) times standard normal noise drawn per element, and decoding feeds the linear image of the sample to the decoder. The loss is the mean squared error plus the weight times the batch mean of the closed form divergence from the standard normal distribution, reconstruction, sampling and generation have the announced shapes and fresh noise in every call, and the loss is differentiated like this function.",
     IC, "every latent size, batch size, mean, log variance, weight and noise",
     "The single test only checks that a forward pass runs.",
     [m("model", N, r"^class VanillaVAE"), m("sampling", N, r"def reparameterize"), m("loss", N, r"def loss_function")],
     "All means and log variances over an alphabet for latent sizes 1..3, size ladders, all pairs of operations on one instance, derivatives against differences; the noise is controlled through the seed." + TRUST, E)

prop("C24", "Factories build the named layer with its options and refuse unknown names",
     "A layer created by name is the layer of that name with every option that was passed, for every registered name, and an unknown name is refused with a ValueError wherever a name is accepted. Inconsistent list lengths, numbers of channels, dimensions, rotations and segment counts are refused instead of being built wrongly.",
     ["configurations", "inputs"], "every registered name and option, every unregistered name, every combination of list lengths",
     "Tests build some of the names and do not look at what was built; error cases are not tested.",
     [m("fully connected factory", LY, r"^def high_order_fc_layers"), m("registry", LY, r"^fc_layers"), m("convolution factory", LY, r"^def high_order_convolution_layers"), m("transposed factory", LY, r"^def high_order_convolution_transpose_layers"), m("list network", N, r"^class HighOrderMLPList")],
     "Every registered name x option grid; all names one edit away from a registered one; all list length combinations up to 3. Three open known findings." + TRUST, "exhaustive enumeration of names, options and list lengths on the real factories")

prop("C25", "Training modules build the configured network, loss, optimizer and schedule",
     "The network selected from a configuration is the one the configuration describes, in training and in evaluation; the classification and regression modules report cross entropy with accuracy and mean squared error of each batch. The configured optimizer and schedule are used with their parameters, so that a complete fit changes the weights exactly as a plain loop with that loss, optimizer and schedule does, and a checkpoint restores the model.",
     HC, "every model type, layer type, optimizer, schedule, sequence of epoch losses, batch of labels, number of epochs and batch size",
     "Tests run no training module; the examples are only started for a moment.",
     [m("network selection", M, r"^def select_network"), m("optimizers", M, r"def configure_optimizers"), m("losses", M, r"^class ClassificationMixin"), m("regression", M, r"^class RegressionMixin"), m("modules", M, r"^class ClassificationNet")],
     "Grid of configurations of every model type, all loss histories up to depth 6 for the schedules, optimizer x schedule x epochs x batch size fits compared with a plain loop." + TRUST, SX)


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p, _, _ in PROPS:
            f.write(json.dumps(p) + "\n")
    man = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import torch, numpy, pytorch_lightning, omegaconf, lion_pytorch'",
               checks=[dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} --tier quick", thorough_cmd=f"./check.sh {p['id']} --tier thorough",
                            technique="model checking: " + t, level="model_checking", level_note=note) for p, t, note in PROPS],
               not_applicable=[],
               notes="All properties are decided by bounded exhaustive exploration of the real code imported from /repo's working tree; nothing is built or cached. No hooks in /repo. See DESIGN.md.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
