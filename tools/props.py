"""The table from which properties.jsonl and MANIFEST.json are generated: python3 tools/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/decomon/"
TECH = "runtime monitoring: "
P = []


def prop(id, title, statement, over, q, why, files, mech, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=[S + f if not f.startswith("src") else f for f in files],
                  mech=[dict(name=a, where=S + b) for a, b in mech], technique=TECH + technique, note=note, observe=observe))


ALLNET = ["models/convert.py", "models/forward_cloning.py", "models/backward_cloning.py", "models/crown.py", "models/models.py", "layers/decomon_layers.py",
          "layers/activations.py", "layers/decomon_merge_layers.py", "layers/utils.py", "backward_layers/backward_layers.py", "backward_layers/activations.py",
          "backward_layers/utils.py", "utils.py", "core.py", "wrapper.py"]

prop("C01", "Bounds over a box enclose every value the network takes in the box",
     "For any supported network, conversion method and slope option, the upper and lower bounds returned for a box of inputs are never crossed by an output the network "
     "itself produces for a point of that box. This holds for every box, including degenerate ones and boxes touching zero, and for every network of the batch independently.",
     ["inputs", "programs", "configurations"], "all networks built from supported layers, all weights, all boxes, all conversion methods and slope options",
     "tests sample a handful of fixed toy networks and boxes per method; soundness quantifies over all weights, boxes and compositions of layers",
     ALLNET, [("conversion of a network", "models/convert.py"), ("range over a box", "wrapper.py"), ("linear relaxations", "utils.py")],
     "online invariant monitor (enclosure of the network's own outputs at sampled, corner and attacked points)",
     "random networks of every supported family x methods x slopes; outputs at corners, faces, interior and finite-difference attacks must stay within the bounds")

prop("C02", "Bounds over a ball enclose every value the network takes in the ball",
     "For the 1-, 2- and infinity-norm balls of any centre and radius, the upper and lower bounds returned for the ball are never crossed by an output the network produces "
     "for a point of the ball. This holds whichever way the ball is given: at conversion, or as the radius and norm of the query.",
     ["inputs", "programs", "configurations"], "all networks, balls, methods, slopes and ways of passing the radius",
     "tests hardly exercise balls (the code paths crashed or were unsound on the original tree); the claim ranges over every centre, radius and network",
     ALLNET, [("perturbation domains", "core.py"), ("range over a ball", "wrapper.py"), ("extrema of affine functions over a ball", "utils.py")],
     "online invariant monitor (enclosure of the network's own outputs at points of the ball, incl. dual-norm extremal directions)",
     "random networks x p in {1,2,inf} x radii x entry points; extremal points of the ball by finite differences")

prop("C03", "Affine bounds hold at every point of the region",
     "When affine bounds are requested, the returned affine functions of the input bound the network's outputs at every point of the input region, from above and from below. "
     "This holds for every conversion method able to return them, on boxes and balls.",
     ["inputs", "programs", "configurations"], "all points of all regions, all networks, methods and slopes",
     "tests compare at a few points; the affine functions must dominate the network at each point of a continuum",
     ALLNET, [("affine outputs", "models/convert.py"), ("back-propagation of affine bounds", "models/crown.py"), ("relaxations", "backward_layers/utils.py")],
     "online invariant monitor (pointwise domination of the network by the returned affine functions)",
     "random networks x methods x slopes x regions; pointwise comparison in float64")

prop("C05", "Adversarial scores certify: negative means robust, scores dominate real attacks",
     "The adversarial score returned for a region is at least the largest difference between a target and a source output the network takes in the region, so a negative score "
     "certifies that no adversarial example exists. The optimistic score never exceeds the difference reached at some point of the box. Both honour the source and target labels "
     "in every accepted encoding, with sub-boxes, refinement, mini-batches, balls, plain networks and linear specifications.",
     ["inputs", "programs", "configurations"], "all classifiers, regions, labels and their encodings, entry points",
     "tests check shapes or single toy cases; a certificate quantifies over all points of the region and all label encodings",
     ["wrapper.py", "models/utils.py", "models/convert.py", "utils.py"],
     [("adversarial score on boxes and balls", "wrapper.py"), ("linear specifications", "models/crown.py")],
     "online invariant monitor (scores against attacks found on the real network; all corners enumerated for the optimistic score)",
     "random classifiers, label encodings and entry points; attack search in the region")

prop("C06", "Bounds are exact where the network is affine or the region is a point",
     "Affine-propagating conversions return exact bounds (the true extrema over the box) for networks that are affine, or piecewise linear with every unit stably active or "
     "inactive over it. On single points every method returns the value of the network itself, for activations whose relaxations touch the function.",
     ["inputs", "programs", "configurations"], "all affine or stable networks, all point regions, methods and slopes",
     "tests only check soundness with tolerance; tightness regressions keep them green",
     ALLNET, [("affine layers", "layers/decomon_layers.py"), ("back-propagation", "backward_layers/backward_layers.py"), ("stable activations", "layers/utils.py")],
     "reference-model monitor (closed-form extrema of the network's exact affine form in float64)",
     "random affine / stably active networks, against closed-form extrema; points against the network")

prop("C07", "Interval propagation matches interval arithmetic and is monotone",
     "Constant-bound propagation returns exactly the bounds of interval arithmetic applied layer by layer, for affine layers, monotone activations, pooling and sums. Shrinking the input box never "
     "loosens its bounds, and propagation that combines constant and affine bounds is never looser than constant-bound propagation.",
     ["inputs", "programs"], "all networks of affine layers, monotone activations, pooling and sums, all boxes",
     "tests check soundness on toy inputs, not equality with interval arithmetic nor monotonicity, which relate several executions",
     ["layers/decomon_layers.py", "layers/activations.py", "layers/decomon_merge_layers.py", "layers/utils.py", "models/forward_cloning.py"],
     [("constant-bound propagation", "layers/decomon_layers.py"), ("activations", "layers/activations.py")],
     "reference-model monitor (independent float64 interval arithmetic; relational monitor over nested boxes)",
     "random networks against an independent interval evaluator; nested boxes; combined vs constant propagation")

prop("C15", "The output modes of a converted model describe the same bounds",
     "Asking a conversion for constant bounds, affine bounds or both changes what is returned, not the bounds: affine bounds are identical in all modes, constant bounds too, and constant bounds are the exact "
     "extrema of the affine ones over the region (at least as tight when both are propagated). The range functions return the tightest of what the model offers.",
     ["programs", "configurations", "inputs"], "all networks, methods, slopes, regions and combinations of requested outputs",
     "tests run each mode separately and never relate them",
     ["models/convert.py", "models/crown.py", "models/utils.py", "layers/utils.py", "wrapper.py", "utils.py"],
     [("requested outputs", "models/convert.py"), ("conversion between modes", "models/utils.py"), ("range functions", "wrapper.py")],
     "relational monitor over executions of the same network converted in each mode, with closed-form extrema",
     "random networks converted in all modes, compared with each other and with closed-form extrema")


prop("C16", "Forward activations: sound relaxations that touch the curve",
     "For every supported activation, interval and slope option, the lines returned by forward propagation lie on the right side of the activation over the whole interval of its input, touch it, and depend on that input alone. "
     "Upper lines of ReLU and of the exponential are chords, lower lines of ReLU follow the requested slope option, and constant bounds are the images of the constant input bounds.",
     ["inputs", "configurations"], "all intervals, incoming affine bounds, activations, slope options and propagation modes",
     "tests sample few intervals; a line must dominate a curve on a continuum, for every position and width of the interval",
     ["layers/activations.py", "layers/utils.py", "utils.py", "layers/decomon_layers.py"],
     [("relaxations of activations", "utils.py"), ("forward activations", "layers/activations.py")],
     "online invariant monitor on single layers (dense grid of each interval, admissible values of random bundles)",
     "random intervals (crossing, touching 0, degenerate, wide) and random incoming bounds; soft conditions excluded for softplus and softmax tightness")

prop("C17", "Backward activations: sound relaxations that touch the curve",
     "For every supported activation, interval and slope option, the lines used by backward propagation lie on the right side of the activation over the whole interval of its input, whatever the value of the tunable slopes in [0, 1]. "
     "Without tuning they touch the curve, upper lines of ReLU are chords, and its lower lines follow the requested slope option.",
     ["inputs", "configurations"], "all intervals, activations, slope options, tunable slopes, shapes and propagation modes",
     "tests sample few intervals and shapes, and never the tunable slopes",
     ["backward_layers/activations.py", "backward_layers/backward_layers.py", "utils.py", "backward_layers/utils.py"],
     [("relaxations of activations", "backward_layers/activations.py"), ("backward activation layer", "backward_layers/backward_layers.py")],
     "online invariant monitor on single layers (dense grid of each interval)",
     "random intervals and tunable slopes; exponential and softmax have no backward version")

prop("C18", "Merge layers: exact for sums and concatenations, sound for all",
     "Bounds of the merge of several bounded quantities enclose the merge of every combination of admissible values. Addition, averaging, subtraction and concatenation on any axis propagate affine and constant bounds exactly; "
     "maximum, minimum, product and dot product (on any axes, normalised or not) are sound.",
     ["inputs", "configurations"], "all numbers, shapes and bounds of merged inputs, merge options and propagation modes",
     "tests merge a few toy inputs on default axes; soundness of products depends on the signs of both bounds",
     ["layers/decomon_merge_layers.py", "layers/utils.py", "utils.py"],
     [("merge layers", "layers/decomon_merge_layers.py"), ("symbolic operations", "layers/utils.py")],
     "reference-model monitor for linear merges, enclosure monitor on admissible values for the others",
     "random bundles of bounds over boxes and balls, random shapes and axes")

prop("C19", "Forward linear layers propagate bounds exactly",
     "Through dense, convolution, batch-normalisation, flatten, reshape, permute and dropout layers, propagated affine bounds are the exact signed combination of the incoming ones, and constant bounds too (up to the tightening allowed by "
     "the affine ones). The weights of the layer are left as they are.",
     ["inputs", "configurations", "programs"], "all weights, kernels, strides, paddings, axes, data formats and incoming bounds",
     "tests check soundness on a few kernels and inputs, not exactness",
     ["layers/decomon_layers.py", "layers/decomon_reshape.py", "layers/core.py", "layers/convert.py"],
     [("dense, convolution, batch normalisation, flatten", "layers/decomon_layers.py"), ("reshape, permute", "layers/decomon_reshape.py")],
     "reference-model monitor (matrix of the layer extracted from the plain layer, float64 interval algebra)",
     "random layers, weights and incoming bounds")

prop("C20", "Backward linear layers return the exact matrix and bias of the layer",
     "For dense, convolution, batch-normalisation, flatten, reshape, permute and dropout layers, the matrices and biases used by backward propagation map any flattened input of the layer to its flattened output. Upper and lower ones are the "
     "same map.",
     ["inputs", "configurations", "programs"], "all weights, kernels, strides, paddings, dilations, axes and data formats, and both ways of building the layer",
     "tests use square kernels on one or two image shapes",
     ["backward_layers/backward_layers.py", "backward_layers/utils_conv.py", "backward_layers/core.py", "backward_layers/convert.py"],
     [("backward linear layers", "backward_layers/backward_layers.py"), ("matrix of a convolution", "backward_layers/utils_conv.py")],
     "reference-model monitor (matrix of the layer against the plain layer's values)",
     "random layers and weights; basis vectors and random points")

prop("C21", "Max pooling bounds enclose the pooled values",
     "For any pool size, stride, padding and data format, the bounds of max pooling enclose the pooling of every image within the incoming bounds. In constant-bound propagation they are exactly the pooled bounds.",
     ["inputs", "configurations"], "all images, incoming bounds, pool sizes, strides, paddings, data formats and propagation modes",
     "tests use one pool size and channels_last",
     ["layers/maxpooling.py", "layers/utils.py", "layers/utils_pooling.py"], [("max pooling", "layers/maxpooling.py"), ("maximum along an axis", "layers/utils.py")],
     "online invariant monitor on single layers (admissible values of random bundles)",
     "random pooling options and bundles, fast and refined versions")

prop("C08", "Refinement covers the region and keeps the worst of the sub-bounds",
     "Splitting boxes into sub-boxes before a query (regular sub-boxes or the refinement functions, regular or random splits) submits boxes that lie in the original box and cover it. The answer is the worst of the sub-boxes' "
     "own answers, so it encloses the network over the whole box, and with constant-bound propagation it is never looser than without splitting.",
     ["inputs", "configurations"], "all boxes, shapes, numbers of splits, networks, methods and queries",
     "tests check one split of toy boxes; coverage quantifies over every point of every box, and over random splits",
     ["wrapper.py", "utils.py", "models/utils.py"], [("sub-boxes and refinement", "wrapper.py")],
     "trace monitor (a spy records the sub-boxes submitted; coverage, volume and recombination checked offline; enclosure of the network)",
     "random networks, boxes, numbers of splits, kinds of split, queries")

prop("C09", "Answers do not depend on the batch, on its order or on earlier queries",
     "The answer for a region is the same whether it is asked alone or within any batch, order, mini-batch size, array type or history of earlier queries. Queries leave the arrays, labels and network weights they use untouched.",
     ["histories", "inputs", "configurations"], "all histories of queries, batches, mini-batch sizes and dtypes, all networks and methods",
     "tests make one query per model on one batch",
     ["wrapper.py", "models/models.py", "models/utils.py", "models/crown.py", "layers/utils.py", "utils.py", "core.py"],
     [("queries", "wrapper.py"), ("prediction", "models/models.py")],
     "relational monitor over recorded histories of queries (row-wise comparison with the region queried alone)",
     "random histories of queries over random networks; discontinuous choices of relaxation are excluded by a conditioning test")

prop("C12", "Queries with another radius or norm answer for that radius and norm",
     "After any sequence of queries with their own radius and norm, and of changes of the current domain, every answer equals that of a model freshly converted for the requested ball. Queries with a negative radius use the current domain; "
     "other conversions are unaffected.",
     ["histories", "configurations"], "all sequences of queries, radii, norms and domain changes, all networks and methods",
     "tests never change the domain of a converted model twice",
     ["wrapper.py", "core.py", "models/models.py", "models/utils.py", "layers/core.py", "backward_layers/core.py", "models/crown.py"],
     [("current domain", "models/models.py"), ("queries on balls", "wrapper.py")],
     "state-history monitor (each step compared with a fresh conversion for the current domain)",
     "random histories of 4-8 steps on one converted model")

prop("C22", "Symbolic operations on bounds enclose the operation on the quantities",
     "Applied to bounds of one or two quantities, each symbolic operation (sum, max, min, exp, log, inverse, absolute value, square, sort, split, expansion, permutation, broadcast, products, ReLU, softplus, opposite, difference...) returns bounds that enclose the operation "
     "on every admissible value, along any axis. Linear operations return the exact bounds.",
     ["inputs", "configurations"], "all bounds, shapes, axes, propagation modes and admissible values",
     "tests cover few operations on one toy shape",
     ["layers/utils.py", "utils.py", "core.py"], [("symbolic operations", "layers/utils.py"), ("relaxations", "utils.py")],
     "online invariant monitor on single operations (admissible values of random bundles), reference model for linear ones",
     "random bundles of several ranks over boxes and balls")

prop("C10", "Conversion and queries leave the network as it was; bounds follow its weights",
     "Converting a network and querying the result never change the network: same layers, names, configuration, variables, weights and outputs. When the weights of the network change afterwards, the bounds of models already converted "
     "(with shared weights, the default) become those of a fresh conversion.",
     ["histories", "programs", "configurations"], "all sequences of conversions, queries and weight updates, all networks and methods",
     "tests convert fresh networks and drop them; none looks at the network afterwards or updates it between queries",
     ["models/convert.py", "models/forward_cloning.py", "models/backward_cloning.py", "models/utils.py", "layers/convert.py", "layers/decomon_layers.py", "keras_utils.py", "layers/utils.py", "wrapper.py"],
     [("conversion", "models/convert.py"), ("sharing of weights", "keras_utils.py"), ("splitting of activations", "models/utils.py")],
     "state-history monitor (snapshots of the network after every step; bounds after weight updates compared with a fresh conversion)",
     "random histories of conversions, queries and weight changes")

prop("C23", "Equivalent ways of writing a network get the same bounds",
     "Rewriting a network without changing what it computes leaves its bounds unchanged: activation given to a layer or as its own layer, identity layers (dropout, linear activation, reshapes and permutations that cancel), part of it nested in "
     "another model or a Sequential, a layer called twice or two layers with the same weights, other names (including the same names in embedded models), other creation order, swapped terms of a sum.",
     ["programs", "configurations"], "all networks, compositions of such rewritings, methods, slopes and regions",
     "tests compare each toy network with itself only; the relation quantifies over graphs",
     ["models/convert.py", "models/forward_cloning.py", "models/backward_cloning.py", "models/utils.py", "models/crown.py", "layers/decomon_reshape.py", "layers/decomon_layers.py", "layers/decomon_merge_layers.py", "layers/activations.py",
      "backward_layers/backward_layers.py"],
     [("walk over the graph", "models/forward_cloning.py"), ("backward walk", "models/backward_cloning.py"), ("splitting of activations", "models/utils.py")],
     "relational monitor (bounds and affine outputs of a network and of its rewritings)",
     "random networks and chains of 1-3 rewritings; ill-conditioned choices of relaxation excluded by a conditioning test")

prop("C24", "A final softmax is left out: bounds and scores are those of the logits",
     "For a classifier that ends with a softmax (activation of the last layer, Activation or Softmax layer), all bounds and adversarial scores are those of the network without the softmax. The classifier itself keeps its softmax.",
     ["programs", "configurations"], "all classifiers, forms of the softmax, methods, slopes and regions",
     "one test looks at one form of softmax on one toy network",
     ["layers/utils.py", "models/forward_cloning.py", "models/backward_cloning.py", "models/convert.py", "models/utils.py"],
     [("removal of the softmax", "layers/utils.py")],
     "relational monitor (classifier against its logits, then against its recorded probabilities)",
     "random classifiers in three forms x methods x regions")


prop("C13", "Robust losses come from the bounds and dominate the network's real losses",
     "The losses used for certified training (upper and lower deviation, adversarial, cross-entropy, asymptotic cross-entropy) equal what the bounds of the converted model give, in every mode and option, and are never below the worst loss the network really "
     "has in the region. A negative robustness radius certifies its label, and the bounds of the categorical cross-entropy enclose it.",
     ["inputs", "programs", "configurations"], "all networks, conversions, regions, references, labels and loss options",
     "tests only check that the losses run; domination quantifies over the points of every region",
     ["metrics/loss.py", "metrics/utils.py", "models/utils.py", "core.py", "layers/utils.py", "layers/activations.py"],
     [("losses", "metrics/loss.py"), ("categorical cross-entropy", "metrics/utils.py"), ("conversion between modes", "models/utils.py")],
     "reference-model monitor (losses recomputed in float64 from the bounds) and domination monitor (attacked points of the regions)",
     "random networks x conversions x regions x losses and options")

prop("C14", "Tuned relaxations stay sound and leave the network alone",
     "Bounds remain sound for every value in [0, 1] of the tuning variables of a fine-tunable conversion. The tuning wrappers never return looser bounds than without tuning; training with a robust loss keeps the variables in [0, 1]. Weights, trainable flags "
     "and (after reset) bounds are those of the start.",
     ["inputs", "configurations", "histories"], "all networks, conversions, regions, values of the tuning variables and training runs",
     "tests run one tuning on toy networks and check shapes; soundness quantifies over all values of the variables",
     ["wrapper_with_tuning.py", "models/models.py", "layers/core.py", "layers/decomon_layers.py", "backward_layers/backward_layers.py", "metrics/loss.py", "utils.py", "layers/utils.py", "models/convert.py"],
     [("tuning wrappers", "wrapper_with_tuning.py"), ("freezing and resetting", "layers/core.py"), ("tunable relaxations", "utils.py")],
     "online invariant and state-history monitor (enclosure for random and trained variables; snapshots of weights and flags)",
     "torch only (decomon models cannot be trained in tensorflow's graph mode)")

prop("C25", "Extrema of affine functions over boxes and balls are exact",
     "The upper and lower bounds a perturbation domain gives for affine functions of the input are their exact extrema over the box or ball (1-, 2- and infinity-norm), for outputs of any shape and every region of a batch. Expanding bounds of "
     "any form into the full list of bounds, and converting them between constant, affine and combined forms, keeps the affine bounds and takes the tightest constants they imply.",
     ["inputs", "configurations"], "all regions, affine functions, output shapes and forms of bounds",
     "every bound goes through these extrema; tests look at one box and one ball with flat outputs",
     ["core.py", "models/utils.py", "models/crown.py", "backward_layers/utils.py"], [("extrema over domains, expansion of bounds", "core.py"), ("conversion between forms", "models/utils.py")],
     "online monitor with a reference model (closed-form float64 extrema) and points of the regions",
     "random regions x random affine functions of zero to three axes x forms")

prop("C26", "Composing backward bounds is the exact signed substitution",
     "Substituting affine bounds of a layer into the affine bounds of what follows gives the exact signed combination (upper weights where the following weights are positive, lower ones where negative), so the result bounds the composition of any "
     "quantities within their bounds. This holds for chains of compositions, for matrices given by their diagonal and when fused with the forward bounds of the input.",
     ["inputs", "configurations"], "all pairs and chains of affine bounds, weights, shapes, modes and hidden values",
     "backward methods compose bounds at every layer; tests only see the end of the pipeline on toy networks",
     ["models/crown.py", "keras_utils.py"], [("composition", "models/crown.py"), ("diagonal and identity tensors", "keras_utils.py")],
     "online monitor with a reference model (float64 signed combination) and admissible hidden values",
     "random pairs and chains of bounds over boxes and balls")

prop("C11", "In double precision, bounds enclose the network to double precision",
     "When keras works in float64, all bounds of a decomon model (constant and affine, upper and lower, boxes and balls, every method and slope) are float64 and enclose the values of the network up to double-precision rounding: "
     "no step of the computation falls back to single precision or leaves a gap that single-precision rounding would hide.",
     ["inputs", "configurations"], "all networks, weights, regions, conversion methods, slopes and outputs",
     "certified bounds are claims with no slack; tests compare with 4 to 6 decimals on a few functions",
     ["models/convert.py", "models/utils.py", "core.py", "backward_layers/utils_conv.py"], [("conversion of a model", "models/convert.py"), ("regions and radius", "models/utils.py"), ("matrices of convolutions", "backward_layers/utils_conv.py")],
     "online monitor: enclosure of sampled and attacked executions at relative tolerance 1e-9",
     "random networks x methods x slopes x outputs x regions in double precision")

prop("C27", "Bounds and losses have finite gradients that are their derivatives",
     "Training and tuning need derivatives of the bounds. Gradients of the bounds and of the robust losses with respect to the weights of the network and to the region are finite, degenerate regions and null weights included, "
     "and equal the actual rate of change of the bound wherever the bound is differentiable.",
     ["inputs", "configurations"], "all networks, weights, regions, methods, slopes, losses and directions",
     "no test differentiates a bound; a NaN or a blocked gradient shows only when training goes wrong",
     ["models/convert.py", "core.py", "metrics/loss.py"], [("bounds of affine functions", "core.py"), ("losses", "metrics/loss.py"), ("relaxations of activations", "utils.py")],
     "online monitor: automatic differentiation against central finite differences in double precision, finiteness at degenerate points",
     "random networks x methods x slopes x regions x bounds and losses, torch backend")


prop("C04", "Bounds converge to the network's values and slopes as the region shrinks",
     "Around any point, bounds over smaller and smaller regions converge to the value of the network, so that splitting regions always helps. For piecewise linear networks (and sums, products, concatenations), away from kinks, "
     "methods that propagate affine bounds return the first-order expansion of the network (its jacobian) and constant bounds that are first-order tight; s-shaped activations, pooling and interval propagation converge at the rate of the radius.",
     ["inputs", "configurations"], "all networks without softplus, points, directions, methods, slopes and outputs",
     "sound but loose bounds pass every test of soundness; tests never look at small regions",
     ["models/convert.py", "utils.py", "backward_layers/utils.py"], [("relaxations", "utils.py"), ("backward relaxations", "backward_layers/utils.py"), ("forward propagation", "layers/decomon_layers.py")],
     "online monitor: bounds over regions of radius 1e-5 in double precision against the jacobian of the real network",
     "random networks x methods x slopes x outputs x regions, generic points")


prop("C29", "Declared shapes and types are those computed",
     "Every decomon model, forward layer, backward layer, fusion layer, loss layer and tensor helper, called symbolically, announces as many outputs as it computes, of the same rank, dimensions and dtype, with no dimension "
     "but the batch one left open, whatever the batch size of the call; a model's output_shape is that of its predictions and the number of its outputs is that of its kind of bounds (2 constant, 5 affine, 7 both, for each output of the network).",
     ["inputs", "programs", "configurations"], "all networks, layers, shapes, axes, modes and batch sizes",
     "keras wires the next layers, builds weights and saves models from what is declared; tests check declared shapes on a few fixed layers",
     ["layers/core.py", "layers/decomon_merge_layers.py", "backward_layers/core.py", "models/utils.py", "models/crown.py", "models/models.py", "metrics/loss.py", "keras_utils.py", "core.py"],
     [("shapes of forward layers", "layers/core.py"), ("shapes of merges", "layers/decomon_merge_layers.py"), ("shapes of backward layers", "backward_layers/core.py"), ("shapes of fusions", "models/crown.py")],
     "online invariant monitor (declared tensors against computed ones)",
     "random networks (every layer observed), layers of all kinds, merges, fusions and losses; two batch sizes each")

prop("C28", "What decomon cannot bound is refused, never answered wrongly",
     "A network with an unsupported element (activation, layer, layer configuration, backend operation, merge for a backward method), anywhere in it, nested models included, and an invalid request (unknown method, slope or norm, "
     "inverted box, several inputs, image input, domain of another type) raise an exception at conversion or at the query. Whatever is accepted gets bounds that enclose the network.",
     ["inputs", "programs", "configurations"], "all elements of keras and of users, at every place of a network, with every method; all invalid requests",
     "tests convert supported layers; the claim is about everything else, where a silent answer would be taken for a certificate",
     ["layers/convert.py", "backward_layers/convert.py", "layers/activations.py", "backward_layers/activations.py", "models/convert.py", "models/utils.py", "models/forward_cloning.py", "models/backward_cloning.py", "models/models.py", "wrapper.py", "core.py"],
     [("conversion of a layer", "layers/convert.py"), ("activations known by name", "layers/activations.py"), ("hypotheses on networks", "models/utils.py"), ("refusal of inverted boxes", "wrapper.py")],
     "online invariant monitor (an exception, or enclosure of the network's own outputs)",
     "catalogue of about 100 elements at random places x methods x regions, invalid requests; accepted networks are compared with their own outputs")

prop("C30", "Networks with several outputs get the bounds of every output, in order",
     "When a network returns several tensors (its own layers at any depth, the same one twice, or the outputs of an embedded network, in any order), the converted model returns the bounds of each of them, in this order: each group encloses its "
     "output over the region and is what the network with this output alone gets, for every conversion method and form of bounds. An embedded network with several outputs gives each of its consumers the output it asked for.",
     ["inputs", "programs", "configurations"], "all networks, choices of outputs, embeddings, methods, forms of bounds and regions",
     "no test converts a network with several outputs",
     ["models/convert.py", "models/forward_cloning.py", "models/backward_cloning.py", "models/utils.py", "models/crown.py"],
     [("outputs of the forward walk", "models/forward_cloning.py"), ("outputs of the backward walk", "models/backward_cloning.py"), ("conversion of the outputs", "models/convert.py")],
     "online enclosure monitor on every output; relational monitor (bounds among others against bounds alone)",
     "random networks of all families, 2-3 outputs, plain, embedded or with layers on top; points of the region sampled and attacked")

#MORE


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fd:
        for p in sorted(P, key=lambda p: p["id"]):
            anchors = dict(files=p["files"], mechanism=p["mech"])
            assert len(p["title"]) <= 80, p["id"]
            fd.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["q"]),
                                     why_tests_cant=p["why"], anchors=anchors)) + "\n")
            for f in p["files"] + [m["where"] for m in p["mech"]]:
                assert os.path.exists("/repo/" + f), f
    man = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import keras' || true",
               checks=[dict(property=p["id"], quick_cmd=f"./check.sh {p['id']}", thorough_cmd=f"./check.sh {p['id']} --tier thorough",
                            technique=p["technique"], level="exploration", level_note=p["note"]) for p in sorted(P, key=lambda p: p["id"])],
               not_applicable=[])
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fd:
        json.dump(man, fd, indent=1)
        fd.write("\n")
    print(len(P), "properties")


main()
