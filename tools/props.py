#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

TC = "include/tensor.tcc"; TH = "include/tensor.hpp"; OP = "include/operation.hpp"; AC = "include/activation.hpp"
LO = "include/loss.hpp"; MO = "include/model.hpp"; OZ = "include/optimizer.hpp"; SE = "include/session.hpp"
VA = "include/variable.hpp"; PH = "include/place_holder.hpp"; LA = "include/layer.hpp"; CX = "include/complex_operator.hpp"

p("T01", "Tensor operations leave their operands unchanged",
  "Evaluating a tensor operation that returns a new tensor (sum, difference, product, quotient, negation, matrix product, reduction, flip, repeat, concatenation, conversion, softmax, abs) leaves the shape and the elements of its operands and of every other tensor in the program unchanged. Only the in-place operations (compound assignment, map, reset, clip, element write, resize, reshape) modify a tensor, and they modify nothing but that tensor and the tensors that share its storage.",
  ["programs", "inputs"], "every sequence of tensor operations over any number of live tensors, of any rank and shape, including operands that alias each other",
  "The tests look at the result of one operation, once, never at the operands afterwards; the defect needs a later use of an operand.",
  [TC, TH, "include/utils/for_each.hpp"], [("deep copy before modification", TC), ("broadcast_tensor returns an alias when no expansion is needed", TC)],
  ["contents of all live tensors after each operation"], [("vector_", "storage shared by the handles of a tensor", TH)])
p("T02", "Elementwise tensor arithmetic with broadcasting",
  "Addition and subtraction of two tensors follow the right-aligned broadcasting rule (dimensions equal or 1, missing leading dimensions count as 1), and every element of the result is the sum or difference of the corresponding operand elements. Elementwise product and quotient, the arithmetic with a scalar on either side, negation, abs, clip and the compound assignments compute for every element exactly the named operation, with the result having the (broadcast) shape.",
  ["inputs"], "all operand shapes (rank 1 to 5, with dimensions of size 1 in any place) and all values, sizes below and above the threshold for parallel execution",
  "The tests use two or three fixed shapes; broadcasting has one code path per combination of expanded dimensions.",
  [TC, TH, "include/utils/for_each.hpp", "include/utils/parallel.hpp"], [("broadcast_shape, broadcast_tensor", TC), ("add, minus, elementwise_product, elementwise_divide", TC), ("compound assignments", TH)], ["result tensor"])
p("T03", "Matrix product of tensors",
  "The product of an m-by-n tensor with an n-by-k tensor is the m-by-k matrix product of the two, a one dimensional left operand counting as one row and a one dimensional right operand as one column; the result does not depend on the former shape or content of a tensor supplied to receive it. The low level gemm computes the same for every combination of transposed operands.",
  ["inputs", "configurations"], "all dimensions (including 1, odd, and larger than any blocking factor), both operand orientations, float and double, fresh and reused result tensors",
  "Tests check some random square sizes against each other, with tolerance, and skip the reuse of a result tensor.",
  [TC, "include/utils/view.hpp", "include/backend/cblas.hpp"], [("gemm, gemm_cpu", TC), ("multiply", TC), ("view_2d", "include/utils/view.hpp")], ["result tensor"])
p("T04", "Structural tensor operations move every element to its place",
  "Flip, repeat, repmat, concatenate, reshape, squeeze, the ones/zeros constructors, linspace and type conversion produce a tensor of the documented shape in which every element is the operand element that the index mapping of the operation prescribes. No element is lost, duplicated beyond the prescribed repetition, or invented, for every axis, including the default axis -1.",
  ["inputs"], "all ranks, shapes with dimensions of size 1, every axis, every repeat count, concatenation of different extents and ranks",
  "Each operation has one test with one or two shapes at most; flip of 4D and concatenation along inner axes are different code paths.",
  [TC, TH, "include/utils/view.hpp"], [("flip_1D..flip_4D", TC), ("concatenate, repeat, repmat, squeeze", TC)], ["result tensor"])
p("T05", "Tensor reductions",
  "Sum, mean, variance, standard deviation, maximum and minimum of a whole tensor, and sum, mean, variance, standard deviation, maximum and minimum along any axis, with or without keeping the reduced dimension, equal the mathematical reduction of exactly the elements that share the remaining coordinates, whatever the signs and magnitudes of the elements. Softmax normalises along the last axis: each row is non-negative, sums to one and is the exponential of the elements up to a common factor.",
  ["inputs"], "all ranks, shapes and axes (including the default -1), elements of any sign, rows of one element",
  "Tests sample positive elements and the last axis; wrong identity elements, strides or means show for other signs and axes only.",
  [TC, "include/utils/stride_iterator.hpp"], [("reduce over a stride_iterator", TC), ("stride_iterator", "include/utils/stride_iterator.hpp")], ["result tensor or scalar"])
p("T06", "Copies of a tensor share storage, deep copies and results do not",
  "Copying or assigning a tensor, and reshaping or squeezing such a copy, gives a tensor that shares its elements with the original: an element written through one is seen through the other, while each keeps its own shape. A deep copy, a type conversion and the result of any arithmetic or structural operation share storage with no other tensor, so a later in-place modification of either is never visible in the other.",
  ["programs"], "every sequence of copies, assignments, views, deep copies, operations and in-place modifications over any set of live tensors",
  "No test writes to a tensor after having derived another one from it and then looks at both.",
  [TH, TC], [("shared storage", TH), ("deep_copy", TH), ("reshape, squeeze", TC)], ["contents and shape of all live tensors after each in-place modification"], [("vector_", "storage shared by the handles of a tensor", TH)])
p("T07", "Tensors survive the text format and the tensor file",
  "A tensor written by write_tensor (to a stream of sufficient precision) or save_tensor and read back by read_tensor or load_tensor has the same shape and, bit for bit, the same finite elements, also when several tensors are written to the same stream one after the other and read in the same order. Reading replaces the former shape and content of the receiving tensor completely.",
  ["inputs", "histories"], "all shapes, all finite float and double values (subnormal, extreme exponents, negative zero), any number of tensors in one stream, any prior content of the receiving tensor",
  "The only test round-trips short decimal values.",
  [TC], [("write_tensor, read_tensor", TC), ("save_tensor, load_tensor", TC)], ["tensor after reading"])
p("G01", "Running an expression computes its mathematical value",
  "Running an expression in a session returns the value that the composition of its operations denotes for the current contents of its variables and constants and the current bindings of its place holders. This holds for every expression graph built from the arithmetic, elementwise, reduction, comparison and structural operations, with shared subexpressions, with an expression used in several places and with one operator object applied to several expressions.",
  ["programs", "inputs"], "all expression DAGs over the operations, all shapes valid for them, all bindings",
  "Unit tests evaluate one operation with one input; compositions, sharing and odd shapes are not sampled.",
  [OP, AC, SE, VA, PH, "include/value.hpp", "include/constant.hpp"], [("unary_operator / binary_operator forward and the session's forward cache", OP), ("forward actions", OP)], ["tensor returned by session run"], [("forward cache", "value per expression id during a run", SE)])
p("G02", "Backpropagation delivers the exact gradient to every variable",
  "After running a scalar loss expression in the learning phase and backpropagating one from it, the gradient of every variable is the exact derivative of that value with respect to the variable, summed over all paths through which the loss depends on it, and summed over the positions a broadcast repeated it to. This holds for every expression graph, including those where a variable or a subexpression is used more than once, and on every repetition of the step with whatever new values and batch sizes.",
  ["programs", "inputs", "histories"], "all expression DAGs over the differentiable operations, all shapes, repeated steps",
  "Tests check the gradient of a few operations for one input and never of an expression with a shared subexpression.",
  [OP, AC, VA], [("backward actions", OP), ("accumulation of gradients in the variable state", VA), ("output/input data shared among copies of an operator", OP)], ["variable gradient()"], [("gradient_", "accumulated gradient", VA)])
p("G03", "The declared shape of an expression is the shape of its value",
  "If the shapes that the leaves of an expression declare are those of the data they hold, the shape an expression declares is exactly the shape of the tensor obtained by running it. This holds through every operation that changes shapes (matrix product, broadcasting, reshape, flatten, concatenation, repetition, reductions, transposition, convolution, pooling, padding, cropping, up-sampling).",
  ["programs", "inputs"], "all expression graphs, every argument of the shape changing operations",
  "Layers size their weights from declared shapes; tests compare them for few operations with square shapes.",
  [OP, LA], [("output shape calculators", OP)], ["expression shape() versus shape of the run result"])
p("G04", "The result of a run depends on current inputs only, and is the caller's",
  "What running an expression returns is a function of the current variables and bindings alone: earlier runs of this or any other expression, with other values, other batch sizes or other shapes of the inputs, do not influence it. A tensor that a run returned is never changed by later runs, and evaluating an expression changes neither the bound tensors nor the variables.",
  ["histories", "programs"], "all histories of runs with changing bindings, batch sizes growing and shrinking, and interleaved expressions sharing subexpressions",
  "Every test runs an expression once; operators keep caches, masks and index records between runs.",
  [OP, SE, PH, VA], [("context_cast/context_extract caches of the operators", OP), ("session run clears the forward cache", SE)], ["sequence of run results", "bound tensors after the run"], [("forward/backward caches", "scratch tensors kept by operators between runs", OP)])
p("G05", "A shared subexpression is evaluated once per run, and afresh in each run",
  "During one run of an expression each operator instance evaluates its forward action exactly once, however many times it occurs in the expression, and all its occurrences observe that one value; the next run evaluates it again. During one backpropagation each occurrence receives the gradient for its own use.",
  ["programs", "histories"], "all DAGs with sharing, all sequences of runs",
  "No test counts evaluations; random operators and dropout rely on it for a consistent value.",
  [OP, SE], [("forward cache keyed by operator id", OP), ("session run", SE)], ["number of invocations of the forward and backward action of a user supplied operator"])
p("G06", "Elementwise mathematics and activations: value and derivative",
  "Each elementwise function and activation (abs to trunc, trigonometric, hyperbolic, exponential, logarithmic, rounding, maximum, minimum, atan2, hypot, clip, sign, equal, and relu, leaky/negative relu, elu, selu, softplus, softsign, sigmoid, tanh, softmax, swish, silu, gelu, mish, lisht, hard sigmoid, ...) returns the value of the named function for each element. Its backward pass multiplies the incoming gradient with the function's derivative at that element (one of its one sided derivatives, or a value between them, at a kink; rounding functions pass the gradient on unchanged, sign and equal stop it), whatever the sign and size of the element and of the incoming gradient.",
  ["inputs"], "all functions, arguments over their domain including both sides of every case distinction, incoming gradients other than one",
  "Tests compare single values of some forward functions; derivatives are mostly unchecked.",
  [OP, AC], [("forward and backward actions of the functions", OP), ("activations", AC)], ["run result", "variable gradient"])
p("G07", "Convolution, pooling, padding, cropping, sampling and their adjoints",
  "For every image batch, kernel, stride, dilation, padding and pool size, convolution, transposed convolution, max and average pooling, up-sampling, zero padding, cropping, sliding, repetition, concatenation, flip and transposition return exactly the elements (or sums, maxima, means of the elements) that the definition prescribes, with zeros outside the image. Backpropagation through each of them returns exactly the transposed linear map of the incoming gradient (for max pooling, to the maximal elements only), on every step of a sequence of steps.",
  ["inputs", "histories"], "all batch sizes, non-square images and kernels, several channels, valid and same padding, strides and dilations, repeated steps",
  "Tests use one square image and do not compare gradients.",
  [OP], [("img2col and conv2d", OP), ("max/average pooling", OP), ("padding, cropping, up-sampling", OP)], ["run result", "variable gradient"])
p("G08", "Losses and their gradients",
  "Each loss (squared, absolute, mean squared, mean absolute, logarithmic squared, hinge, cross entropy, softmax cross entropy of one-hot labels with label smoothing, binary cross entropy) evaluates to its mathematical definition for ground truth and prediction, averaged or summed as defined. Backpropagating from the loss delivers its derivative with respect to the prediction.",
  ["inputs"], "all batch sizes and widths, predictions on both sides of each case distinction",
  "Tests merely train with two of the losses.",
  [LO], [("loss expressions", LO)], ["run result", "variable gradient"])
p("G09", "Complex expressions follow complex arithmetic",
  "Sum, difference, negation, conjugate, norm, absolute value, argument, polar construction, real and imaginary part of complex expressions evaluate elementwise to what complex arithmetic defines, and products (as for real expressions) to the product of complex matrices; so does the arithmetic of a complex with a real expression, in either order. Gradients of real valued functions of them with respect to the real and imaginary variables are the exact partial derivatives.",
  ["programs", "inputs"], "all combinations of complex and real operands in either order",
  "The complex operators have a test for some combinations with one value each.",
  [CX], [("complex operators", CX)], ["real and imaginary part after a run", "variable gradients"])
p("G10", "The description of a computation graph shows the expression",
  "computation_graph, and a model's summary (printed or written to a file), describe an expression in the graph description language: one node n<id> for every variable, place holder, constant and operator the expression depends on, labelled with its name, declared shape and id, variables also with whether they are trainable; one arrow from every argument to the operator that consumes it, so that the paths of the drawing are those of the expression. Whatever is drawn leads to the described expression, and nothing else is drawn. (Operators composed of others may show nodes of their own in between.) Describing an expression changes neither its values nor its gradients.",
  ["programs", "histories"], "all expressions built from the operations, with shared subexpressions, for all bindings and trainable states",
  "The test prints one description and compares nothing.",
  [OP, MO], [("computation_graph", OP), ("model::summary", MO)], ["returned, printed or written text"])
p("R01", "Optimizers apply their update rule at every step",
  "For every sequence of gradients, each optimizer changes each trainable variable exactly by its rule: SGD with momentum and Nesterov momentum, Adagrad, RMSprop, Adadelta, Adam (whose first two steps are plain gradient steps) and gradient descent with momentum, with the gradient scaled by the batch size and, where the optimizer has a decay, the learning rate divided by 1+decay*t at iteration t, cumulatively. The moments are kept per variable, belong to the optimizer in use and start from zero, also when it follows another optimizer on the same variables. Elements of a variable and different variables are updated independently.",
  ["histories", "configurations"], "all gradient sequences, numbers of variables and shapes, hyper-parameters",
  "Tests only see that training decreases a loss; a wrong rule still does.",
  [OZ], [("optimizer forward()", OZ), ("contexts_ of the variable", VA)], ["variable values after every step"], [("contexts", "moments of a variable", VA)])
p("R02", "One training step updates each trainable variable exactly once",
  "An optimizer step updates every trainable variable the loss depends on exactly once with the gradient of the current batch only, leaves variables that are not trainable unchanged, and afterwards no gradient of this step leaks into the next one. L1/L2 regularization contributes exactly once per variable and step, however often the variable is used in the loss.",
  ["histories", "programs"], "all step sequences, all mixtures of trainable, non-trainable, shared and regularized variables, with evaluation of the loss or of other expressions between steps",
  "Stale or doubled gradients still let the tests' loss decrease.",
  [OZ, VA, SE, "include/config.hpp"], [("gradient reset on forward in the learning phase", VA), ("regularizer", VA), ("optimizer loops over session variables", OZ)], ["variable values and gradients around each step"], [("gradient_, trainable_, regularizer_", "per variable training state", VA)])
p("R03", "Training loops visit the right samples, and validation stays isolated",
  "Training on a batch, fitting and evaluating a compiled model feed the samples in order, in batches of the given size: in each epoch fitting trains once on every full batch of the training part and evaluates once on every batch of the validation part, which never influences the variables. The reported losses are the averages over the batches of the corresponding part, and predict and evaluate change no variable.",
  ["inputs", "configurations", "histories"], "all numbers of samples, batch sizes, epochs and validation splits",
  "Tests fit once and look at nothing but termination; off-by-one errors at the split are invisible.",
  [MO], [("fit, evaluate, train_on_batch, predict", MO)], ["sequence of batches the expression and the optimizer see", "returned losses", "variables"])
p("R04", "The learning phase is honoured and restored",
  "Operations that behave differently in training and prediction (dropout, batch normalization, gradient reset and accumulation, random noise) use the learning phase in force at the time of the run; predict, evaluate and the validation part of fit run in the prediction phase, training in the learning phase. After predict, evaluate, fit and train_on_batch the model is again ready to train, so that any interleaving of them gives the results that the same calls without the prediction calls would give.",
  ["histories"], "all interleavings of training, evaluation and prediction",
  "Tests either train or predict, rarely one after the other.",
  [MO, "include/config.hpp", OP, VA], [("learning_phase switch", MO)], ["run results and variables along the history"], [("learning_phase", "1 while training, 0 while predicting", "include/config.hpp")])
p("R05", "Dropout",
  "In the learning phase dropout zeroes elements and scales the others by 1/(1-rate), so that every element of the output is either zero or the scaled input; backpropagation passes exactly the gradient of the surviving elements, with the same scale, and zero to the others. In the prediction phase it is the identity, and it copes with batches that grow, shrink or change shape between runs.",
  ["inputs", "histories"], "all shapes, rates, sequences of batch sizes and phase changes",
  "The tests only construct a dropout layer.",
  [OP], [("drop_out, dropout", OP)], ["run result", "variable gradient"])
p("R06", "Batch normalization",
  "In the learning phase batch normalization returns each channel normalised by the mean and standard deviation of the current batch, times gamma plus beta; in the prediction phase it uses the running averages of the means and variances of all training batches with the given momentum, starting from zero (a prediction before any training run passes its input through), and prediction runs do not alter these averages. Backpropagation in the learning phase delivers the exact derivative to the input, gamma and beta, the dependence of the batch statistics on the input included. The result is right for every batch size and order of phases.",
  ["inputs", "histories"], "all batch sizes and channel counts, all phase interleavings",
  "No test compares the normalised values after more than one step.",
  [OP, LA], [("normalization_batch, batch_normalization", OP)], ["run results along the history"], [("running mean/variance", "moving averages kept by the operator", OP)])
p("S01", "Saving and restoring a session is lossless",
  "After saving a session and restoring it, in the same or another session with the same variables, every variable holds bit for bit the value it had when saved; restoring is idempotent and leaves the variables usable for further training and saving. Variables are matched by identity, not by order or size. The weights of a model, saved and loaded through it, are the variables of the default session.",
  ["inputs", "histories"], "all numbers and shapes of variables, all finite values, any modification between save and restore",
  "The test saves short decimals, or nothing but checks existence.",
  [SE, TC], [("save, restore", SE), ("write_tensor/read_tensor", TC)], ["variables after restore"])
p("S02", "Session bindings and place holder identity",
  "A place holder evaluates to the tensor last bound to it in the session, also through copies of the place holder and for other shapes than before, and binding one place holder affects no other; binding in one session's lifetime does not outlive it. Place holders are ordered by a strict total order consistent with their identity, and place holders as well as variables compare equal exactly if they are copies of each other.",
  ["histories", "programs"], "all sequences of bind, rebind and run over several place holders, their copies and successive sessions",
  "Tests bind once per place holder.",
  [SE, PH, VA], [("place_holder comparison operators", PH), ("session bind/remember", SE)], ["run results", "comparison results"], [("place_holders_, variables_", "bindings and known variables", SE)])
p("U01", "The caching allocator never hands out a block twice",
  "Blocks handed out by the caching allocator and not yet returned never overlap each other, are large enough and suitably aligned, also after blocks were returned and the cache was garbage collected. A block returned to the allocator is reused or released exactly once.",
  ["histories"], "all sequences of allocation, deallocation and garbage collection with arbitrary sizes",
  "Tests merely allocate and free a vector.",
  ["include/utils/cached_allocator.hpp"], [("memory_cache allocate/deallocate/gc", "include/utils/cached_allocator.hpp")], ["addresses and contents of live blocks"], [("cache", "free blocks by size", "include/utils/cached_allocator.hpp")])
p("U02", "Parallel loops process every index exactly once",
  "parallel and for_each invoke the function exactly once for every index or element of the range, for any range start and length (empty and shorter than the number of threads included) and any grouping threshold, and all effects are complete when the call returns. Multi-range for_each pairs the elements at equal positions.",
  ["inputs", "schedules"], "all ranges and thresholds, every number of threads and interleaving of the workers",
  "Tests use one long range starting from zero.",
  ["include/utils/parallel.hpp", "include/utils/for_each.hpp"], [("parallel", "include/utils/parallel.hpp"), ("for_each", "include/utils/for_each.hpp")], ["per index invocation counts and thread completion"])
p("U03", "LZW compression is lossless",
  "Decompressing what compress produced returns the original byte sequence, for every sequence of bytes of any length, including empty input, long runs of a byte, the code-before-definition pattern, and inputs long enough to widen codes up to and beyond the full dictionary.",
  ["inputs"], "all byte strings",
  "A test round-trips one text.",
  ["include/utils/lzw.hpp"], [("compressor and decompressor dictionaries", "include/utils/lzw.hpp")], ["decompressed bytes"])
p("U04", "Dataset loader decodes IDX files faithfully",
  "Loading the MNIST style data set files (28 by 28 images, ten classes, headers agreeing with the contents) yields tensors of as many images and labels as the files hold, in which every image byte appears at its position with its value and every label is one-hot encoded at its class.",
  ["inputs"], "all image counts, sizes, byte values and labels",
  "The data files are not part of the repository, no test loads any.",
  ["include/dataset.hpp"], [("load_binary_image, load_binary_label", "include/dataset.hpp")], ["loaded tensors"])
p("U05", "Every object identity is unique",
  "Every newly constructed tensor, variable, place holder, constant and operator receives an identity different from those of all other live objects of its kind; copies keep it.",
  ["histories"], "all construction and copy orders",
  "Sessions and caches key on it; no test compares more than two.",
  ["include/utils/id.hpp"], [("enable_id", "include/utils/id.hpp")], ["id() of constructed and copied objects"])
p("L01", "Layers compute their documented transformation",
  "A layer applied to an expression computes the documented transformation of its input and its own weights (dense: x*W+b, convolution with bias, flatten, reshape, pooling, up-sampling, merging layers, activations), and backpropagation delivers the exact derivative to its weights. Every application of a layer creates weights of its own, of the documented shapes, biases zero and kernels within the Glorot bound, trainable as requested and with the requested regularization. The declared shape of the result is right before any data is bound, and a model built from layers predicts exactly the value of its output expression for each bound input.",
  ["inputs", "configurations"], "all unit counts, kernel sizes, strides, paddings, with and without bias, one and several inputs",
  "Tests instantiate a layer and look at the shape.",
  [LA, MO], [("layer functions", LA), ("compiled_model predict", MO)], ["run result for known weights", "shapes of the registered variables"])
p("U06", "Views, strided iterators and ranges address exactly their elements",
  "A view of a block of memory as an array of one to seven dimensions addresses, for each multi index within its shape, exactly the cell of the row major layout, also through constant views and views of views; rows and columns of a matrix view visit exactly the cells of that row or column in order, and writing through any of them changes no other cell. Strided iterators move, compare and subtract in units of their stride; range, enumerate and reverse produce exactly the described sequences; ranges with a progress bar visit exactly their elements and show a growing percentage that ends at the whole, whatever the width of the terminal and without one; the storage vector copies, moves, assigns and resizes as a value of its own.",
  ["inputs", "programs"], "all shapes, offsets and indices within them, all walks of iterators, all bounds and steps of ranges, all widths of the terminal, all sequences of vector operations",
  "Tests print a few elements; the views are the addressing of every image operator.",
  ["include/utils/view.hpp", "include/utils/stride_iterator.hpp", "include/utils/range.hpp", "include/utils/enumerate.hpp", "include/utils/reverse.hpp", "include/utils/tqdm.hpp", "include/utils/vector.hpp"],
  [("view_1d .. view_4d, view<T,N>", "include/utils/view.hpp"), ("stride_iterator", "include/utils/stride_iterator.hpp"), ("vector", "include/utils/vector.hpp")], ["addresses reached", "contents of the memory after each access"])
p("I01", "Image files keep their pixels, resizing keeps the symmetries",
  "A byte image written by imwrite as PNG or TGA and read back by imread has the same width, height, channels and pixels; BMP and JPEG files come back with three channels, BMP with the same colours (transparent pixels over magenta). Images of other number types are stretched linearly over the byte range. The file gets the given name, with .png appended if its extension is missing or unknown, and no other file changes; a file that does not exist reads as an empty tensor. Resizing an image gives the requested shape, treats the channels independently and alike, leaves single coloured images single coloured, and commutes with mirroring and transposing the image.",
  ["inputs", "histories"], "all image sizes, channel counts, element types, formats and names, all sequences of writes and reads",
  "The test writes and reads an image if it happens to be there, and compares nothing.",
  ["include/utils/imageio.hpp", "include/utils/3rd_party/stb_image_write.h"], [("imread, imwrite, imresize", "include/utils/imageio.hpp")], ["pixels read", "files in the directory"])

p("M01", "A model stands for its expression, wherever it is applied",
  "The output of a model, a prediction with it and its application to another expression all denote the model's expression with its input replaced: the same values, the declared shape of the composition, the same gradients with respect to the model's variables and to the expression it is applied to. A model and the expressions it is applied to share their variables, so training one of them trains the other. Setting a model not trainable freezes each variable of the model, in every expression that uses it and for every optimizer, and leaves all other variables as they are; setting it trainable again undoes that. A model applied several times within one expression is that many expressions, each with values and gradients of its own.",
  ["programs", "histories"], "all models and expressions built from the operations, models applied to the outputs of models, all sequences of predictions, runs, training steps and freezing",
  "The tests use a model only to predict once after training, and never apply one to an expression.",
  [MO, VA, OP], [("model::operator(), predict, trainable", MO), ("replace_placeholder_with_expression", MO), ("trainable state of a variable", VA)], ["tensor returned by predict and run", "variable values after training steps"], [("trainable_", "whether a variable may be updated, shared by its copies", VA)])
p("T08", "Random tensors have the documented shape, support and distribution",
  "random, randu, randn, rand, random_normal, truncated_normal, glorot_uniform, poisson and random_normal_like return a tensor of the requested shape whose elements lie in the documented support (the given range, the truncation bounds, the Glorot bound, non-negative integers) and are spread over it like independent samples of the documented distribution with the given parameters. Every call draws fresh values. After the generator is seeded (by assigning random_seed or seeding random_generator) a sequence of calls returns the same values each time. Operands (the means of poisson, the operand of random_normal_like) are not modified, and random_normal_like passes no gradient to its operand.",
  ["inputs", "histories"], "all shapes and parameters, all histories of seeding and drawing",
  "The tests print some samples, or check only that a call returns.",
  [TC, TH, OP, "include/config.hpp"], [("random, randn, truncated_normal, glorot_uniform, poisson", TC), ("random_generator, random_seed", TH), ("random_normal_like", OP)], ["elements of the drawn tensors"], [("random_generator", "state of the generator", TH)])

with open("/verif/properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
