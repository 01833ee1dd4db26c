"""Source of properties.jsonl and MANIFEST.json (python3 tools/gen.py rewrites both)."""
K = 'src/runtime/cpu/kernels/kernels.cpp'
L = 'src/runtime/cpu/layers/'
NN = 'src/expression/nn.cpp'
T = 'src/runtime/tensor.cpp'
M = 'src/model/model.cpp'


def P(id, title, statement, over, text, why, files, mech):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))


NOTEST = 'The tests that build here never run this code; the upstream ones compare a handful of random tensors of one fixed geometry with a reference.'
PROPS = [
 P('C01', 'Tensor geometry: shape, strides, element count, reshape',
   'A tensor reports the shape it was given, row-major strides, and a total equal to the product of its dimensions, and its storage holds every element. A shape with a negative dimension is rejected with an exception. reshape succeeds exactly for shapes with the same number of elements (no negative dimension), keeps elements and storage and recomputes the strides; a refused reshape changes nothing.',
   ['inputs'], 'all shapes of rank 0..4 and all dimension values, all reshape targets',
   'The unit tests look at three or four fixed shapes; overflow of the element count, zero and negative dimensions and refused reshapes need particular values.',
   [T, 'include/deepworks/tensor.hpp'], [('Tensor constructors, allocate, reshape, calculateStrides', T)]),
 P('C02', 'Tensor handles share elements, copyTo copies them',
   'Copying or assigning a tensor shares its elements, shape and storage. copyTo copies every element into a separate destination of exactly the same shape, leaves the source untouched, and throws without writing when the destination is empty or of another shape. A tensor over caller memory reads and writes exactly that memory and never frees it.',
   ['inputs', 'histories'], 'all element values, shapes of both sides, sequences copy/write/share',
   'The tests copy two fixed tensors; partial copies and copies into views are not exercised.',
   [T], [('Tensor::copyTo, shared storage', T)]),
 P('C03', 'Initialisers fill exactly the tensor with the promised values',
   'zeros and constant set every element of the tensor, and nothing outside it, to 0 or the value; uniform draws every element independently from the requested range [lower, upper], which the draws span. xavierUniform draws every element from [-a, a] with a = sqrt(6 / (fan_in + fan_out)), where for a weight of shape [d0, d1, ...] the fans are d0 and the product of the remaining dimensions. Draws are new in every call: a later call does not repeat an earlier one. An initialiser never writes outside the tensor.',
   ['inputs'], 'all shapes in the bounds, all values, every outcome of the random draws',
   'Random draws are only sampled; the tests check only that values lie within a range for one shape.',
   ['src/initializers.cpp', T], [('initializer::zeros/constant/uniform/xavierUniform', 'src/initializers.cpp')]),
 P('C04', 'Shape inference, parameter creation and input validation of layers',
   'Applying a layer to a placeholder yields the documented output shape: element-wise layers and batch normalisation keep it, Linear gives [batch, units], convolution and max pooling give as many positions per axis as windows fit (floor((in + 2*pad - kernel) / stride) + 1), global pooling [batch, channels, 1, 1], Add the shape of its equal-shaped operands. The layer owns exactly its documented parameters and buffers with the documented shapes and initial values (bias 0, gamma 1, beta 0, running statistics 0, gradients 0, trainable) and keeps the attributes, name and type it was given. Inputs of an unsupported rank, or Add operands of different shapes, are rejected with an exception.',
   ['inputs', 'configurations'], 'all kernel, padding, stride and input sizes in the bounds',
   'Upstream tests fix one geometry per layer and are not built here; asymmetric kernels, strides and paddings are absent.',
   [NN, L + 'cpulayer.cpp'], [('init / outShape of the layer operations', NN)]),
 P('C05', 'Linear computes x*W^T+b and its exact gradients',
   'For a batch x (inputs of rank above 2 are flattened per sample) Linear produces x*W^T + b. Its backward pass adds dy*W to the input gradient, and sets the weight gradient to dy^T*x and the bias gradient to the column sums of dy. Inputs, parameters and the incoming gradient are left untouched.',
   ['inputs'], 'all inputs, weights, biases, gradients; batch, feature and unit counts in the bounds; batches other than the one the layer was built for',
   NOTEST, [L + 'cpulinear.cpp', K], [('CPULinear', L + 'cpulinear.cpp'), ('CPULinear* kernels', K)]),
 P('C06', 'Activation layers compute their function on every element',
   'ReLU, LeakyReLU, ELU and Sigmoid produce max(x, 0); x or alpha*x; x or alpha*(exp(x)-1); 1/(1+exp(-x)) for every element of a tensor of any rank and for every alpha, on every call, and leave the input untouched. A forward pass into a tensor of another shape is rejected.',
   ['inputs'], 'all inputs, all alphas, ranks 1 to 4', NOTEST, [L + 'cpurelu.cpp', L + 'cpuleakyrelu.cpp', L + 'cpuelu.cpp', L + 'cpusigmoid.cpp', K], [('activation kernels', K)]),
 P('C07', 'Activation backward passes add dy*f\'(x)',
   'The backward pass of ReLU, LeakyReLU, ELU and Sigmoid adds dy * f\'(x) to the input gradient of every element, with the derivative taken at the tensors of that call (for x other than the kink at 0). Inputs, outputs and dy are left untouched.',
   ['inputs', 'histories'], 'all inputs, outputs, gradients, alphas; other forward passes in between', NOTEST, [L + 'cpurelu.cpp', L + 'cpuleakyrelu.cpp', L + 'cpuelu.cpp', L + 'cpusigmoid.cpp', K], [('activation gradient kernels', K)]),
 P('C08', 'Softmax is a stable, normalised distribution with exact gradient',
   'Softmax over a [batch, classes] tensor gives exp(x_i)/sum_j exp(x_j) per row: values in [0, 1] that sum to one, without overflow however large the scores are. Its backward pass adds y*(dy - sum(dy*y)) to the input gradient. Tensors of any other rank are rejected.',
   ['inputs'], 'all scores up to 1e5 in magnitude (spread within a row at most 60), all gradients', NOTEST, [L + 'cpusoftmax.cpp', K], [('CPUSoftmaxForward / CPUSoftmaxInputGrad', K)]),
 P('C09', 'Convolution forward is cross-correlation plus bias',
   'For every kernel, padding, stride, channel count and batch size, the convolution output at each position is the sum over input channels and kernel taps of weight times the input element under the tap (zero outside the image), plus the bias of the output channel. Repeated calls with other batch sizes give the same function, and inputs and parameters are left untouched. Negative padding or non-positive strides are rejected.',
   ['inputs', 'configurations', 'histories'], 'all inputs, weights, biases; geometries in the bounds; two calls with different batch sizes', NOTEST, [L + 'cpuconvolution.cpp', K], [('CPUConvolution::forward', L + 'cpuconvolution.cpp'), ('im2col, CPUConvolutionForward', K)]),
 P('C10', 'Convolution backward gives the exact gradients',
   'After a forward pass, the convolution backward pass adds to the input gradient, and sets the weight and bias gradients to, the exact derivatives of the cross-correlation, for every geometry and batch size and in either order of the two gradient calls. A backward pass without a forward pass is rejected.',
   ['inputs', 'configurations', 'histories'], 'all values; geometries in the bounds; earlier forward passes with other batch sizes', NOTEST, [L + 'cpuconvolution.cpp', K], [('CPUConvolution::backward, updateGradients', L + 'cpuconvolution.cpp'), ('col2im and gradient kernels', K)]),
 P('C11', 'Max pooling takes the largest input element of each window',
   'Each max pooling output is the largest input element inside its window, whatever the sign of the elements; padding never contributes a value. This holds for every kernel, stride, padding below the kernel size, batch and channel count. Negative padding or non-positive strides are rejected.',
   ['inputs', 'configurations', 'histories'], 'all inputs; geometries in the bounds; a second call with another batch size', NOTEST, [L + 'cpumaxpooling.cpp', K], [('CPUMaxPooling::forward', L + 'cpumaxpooling.cpp'), ('im2col, CPUMaxPooling kernels', K)]),
 P('C12', 'Max pooling backward routes dy to the maximum',
   'The backward pass adds each dy to the gradient of the input element that was the maximum of its window in the preceding forward pass (windows without ties), summing over overlapping windows, and touches no other element. A backward pass without a forward pass is rejected.',
   ['inputs', 'configurations', 'histories'], 'all inputs without ties in a window; geometries in the bounds', NOTEST, [L + 'cpumaxpooling.cpp', K], [('max indices and scatter', K)]),
 P('C13', 'Global average pooling and Add with exact gradients',
   'Global average pooling outputs the mean of every plane and its backward pass adds dy/(height*width) to each element of the plane. Add outputs the element-wise sum and its backward pass adds dy to the gradient of both operands, also when both are the same tensor. Inputs and dy are left untouched.',
   ['inputs'], 'all values; shapes in the bounds', NOTEST, [L + 'cpuglobalavgpooling.cpp', L + 'cpuadd.cpp', K], [('kernels', K)]),
 P('C14', 'Batch normalisation forward and running statistics',
   'In training mode BatchNorm1D/2D normalise every channel with the mean and (biased) variance of the batch, output gamma*(x-mean)/sqrt(var+eps)+beta, and update running statistics as alpha*old + (1-alpha)*batch. In evaluation mode they normalise with the running statistics and change nothing. A large common offset of the batch does not drown its variance in rounding. This holds for every sequence of calls, batch sizes and mode switches.',
   ['inputs', 'histories'], 'all inputs, parameters, statistics, eps, alpha; sequences of up to three calls', NOTEST, [L + 'cpubatchnorm1d.cpp', L + 'cpubatchnorm2d.cpp', K], [('CPUBatchNorm forward', L)]),
 P('C15', 'Batch normalisation backward gives the exact gradients',
   'After a training forward pass, the batch normalisation backward pass adds to the input gradient, and sets the gradients of gamma and beta to, the exact derivatives of the batch-normalised output (through mean and variance).',
   ['inputs', 'histories'], 'all inputs, parameters, gradients; batch sizes in the bounds, also after a call with another batch size', NOTEST, [L + 'cpubatchnorm1d.cpp', L + 'cpubatchnorm2d.cpp', K], [('CPUBatchNorm backward', L)]),
 P('C16', 'Dropout keeps or zeroes, rescales, and back-propagates its mask',
   'In training mode every output element of Dropout is either 0 or x/(1-p), chosen afresh for each element and each call with drop probability p, and the backward pass adds dy/(1-p) for the elements kept and nothing for those dropped. Out of training mode the forward pass is the identity and the backward pass adds dy. This holds across batch-size changes and mode switches.',
   ['inputs', 'histories'], 'every outcome of the draws, all values, rates in (0, 1), mode switches and batch changes', 'Random draws are only sampled by tests, and no test switches modes or batch sizes.', [L + 'cpudropout.cpp', K], [('CPUDropout', L + 'cpudropout.cpp'), ('dropout kernels', K)]),
 P('C17', 'Cross-entropy loss value and gradient',
   'CrossEntropyLoss returns -(1/N) * sum_n log p[n, label_n] for every batch and its gradient is -1/(N*p[n, label_n]) at the labels and 0 elsewhere, whatever the gradient tensor held before and whatever the object computed earlier. Predictions and labels are left untouched. Tensors of the wrong rank or mismatched shape are rejected.',
   ['inputs', 'histories'], 'all probabilities, labels in range; reuse of one loss object with other shapes', 'Two fixed batches are tested; label patterns, reuse and stale gradients are not.', ['src/loss.cpp', K], [('CrossEntropyLoss::forward/backward', 'src/loss.cpp')]),
 P('C18', 'Accuracy metrics count exactly the correct rows',
   'accuracy and accuracyOneHot return the share of rows whose largest score is at the labelled class (rows without ties), for label vectors of shape [N] or [N, 1] and for one-hot labels, and leave their inputs untouched. Tensors of the wrong rank or mismatched shape are rejected.',
   ['inputs'], 'all scores without ties, all labels, all batch and class counts in the bounds', 'One fixed batch per metric is tested.', ['src/metrics.cpp'], [('metric::accuracy, accuracyOneHot', 'src/metrics.cpp')]),
 P('C19', 'SGD and momentum update exactly the trainable parameters',
   'A step of SGD does w -= lr*g and a step of SGDMomentum does v = gamma*v + lr*g, w -= v, for every element of every parameter that is trainable at that step, with the learning rate in force at that step. Frozen parameters, gradients and flags do not change, and set_lr/get_lr agree.',
   ['inputs', 'histories'], 'all weights, gradients, rates; sequences of steps with parameters frozen and released in between', 'Tests run one or two steps with fixed numbers and every parameter trainable.', ['src/optimizer.cpp', K], [('SGD::step, SGDMomentum::step', 'src/optimizer.cpp')]),
 P('C20', 'Adam follows its update rule with bias correction',
   'A step of Adam updates m = b1*m + (1-b1)*g, v = b2*v + (1-b2)*g^2 and w -= lr * (m/(1-b1^t)) / (sqrt(v/(1-b2^t)) + eps) for every trainable parameter, t counting all steps (from the number of iterations given at construction). Frozen parameters and their moments do not change, gradients never do.',
   ['inputs', 'histories'], 'all weights, gradients, rates, betas, eps; sequences of steps, resumed step counts', 'Tests run a few steps with fixed numbers and default betas.', ['src/optimizer.cpp', K], [('Adam::step', 'src/optimizer.cpp')]),
 P('C21', 'DataLoader delivers every sample to its place in the batch',
   'Without shuffling, successive pull() calls deliver the samples of the data set in order, one full batch per call; an incomplete last batch is skipped: pull() then returns false, fetches nothing and the next call starts a new epoch. Every row of a batch holds data and label of one and the same existing sample, batch tensors have shape [batch] + sample shape (allocated when empty, rejected when of another shape), and with shuffling the samples within a batch are distinct, any sample can be drawn, and every batch, epoch and loader draws anew.',
   ['inputs', 'histories'], 'all data set and batch sizes in the bounds, every outcome of the shuffling draws, several epochs', 'No test covers the loader.', ['src/dataloader.cpp', 'include/deepworks/dataloader.hpp'], [('DataLoader::pull, random and sequential index sampling', 'src/dataloader.cpp')]),
 P('C22', 'Layers are memory-safe functions of their arguments, call after call',
   'For every layer type, a forward and backward pass gives the same result as on a freshly created layer with the same parameters and state, whatever batch sizes were processed before. No call reads or writes outside the tensors it was given.',
   ['inputs', 'histories'], 'every layer type; sequences of batch sizes; all values', 'Tests use one batch size per layer object.', [L, K], [('per-layer scratch buffers', L)]),
 P('C23', 'Parallel kernels are race-free and equal the sequential result',
   'In every OpenMP parallel region no element is written by one thread while another thread reads or writes it, so forward and backward passes give the sequential result for every number of threads and every schedule.',
   ['schedules', 'inputs'], 'every assignment of loop iterations to threads and every interleaving', 'Races depend on the schedule; tests run one schedule and compare with a tolerance.', [K, 'CMakeLists.txt'], [('#pragma omp parallel for', K)]),
 P('C24', 'Saving and loading state restores every parameter exactly',
   'After save_state and load_state into a model of the same structure, every parameter and buffer of the model equals the saved one bit for bit, and nothing else changes. A state file of other layers, parameter names or shapes is rejected with an exception, and a save that cannot be written completely is reported by an exception.',
   ['inputs'], 'all parameter values and shapes in the bounds', 'Serialization is not built here; upstream tests round-trip one model.', ['src/serialization.cpp'], [('save_state, load_state', 'src/serialization.cpp')]),
 P('C25', 'Damaged or wrong model files are rejected',
   'Loading a state or model file that is missing, truncated at any byte, or of the other kind throws an exception and never reads or writes outside its buffers.',
   ['inputs', 'fault_sequences'], 'every truncation point of a valid file, every wrong kind', 'No test loads a damaged file.', ['src/serialization.cpp'], [('file header and stream reads', 'src/serialization.cpp')]),
 P('C26', 'A saved model description rebuilds the same model',
   'A model saved with its configuration and loaded again has the same inputs, outputs, layers (types, names, attributes) in the same connections and the same parameters, and computes the same outputs.',
   ['inputs', 'programs'], 'graphs and attribute values in the bounds', 'Serialization is not built here; upstream tests round-trip one model.', ['src/serialization.cpp', M], [('save, load, Model::Build', 'src/serialization.cpp')]),
 P('C27', 'Image reading yields exactly the samples of the file or an exception',
   'ReadImage of an 8-bit PNG or JPEG file puts every sample, in order [height, width, channels], into an empty tensor or into the caller\'s tensor of equal element count. A missing file, wrong signature, decoder error, unsupported extension or tensor of another size is reported by an exception and the caller\'s tensor is not written in the latter case. Files, decoder objects and memory are released in every case.',
   ['inputs', 'fault_sequences'], 'all image sizes, channels and samples in the bounds; failure at any decoder stage', 'Tests read three good files and one missing one.', ['src/io/image_reader.cpp'], [('readPngFile, readJpegFile', 'src/io/image_reader.cpp')]),
 P('C28', 'A model computes the composition of its layers, forward and backward',
   'A compiled model maps its inputs, in the order given, to its outputs, in the order given, by the composition of its layers along the graph, whatever its branching. Its backward pass gives every parameter the derivative of the outputs contracted with the given output gradients, summing over branches. A pass writes the given outputs and the gradients of the parameters only: inputs, output gradients and the tensors of earlier passes keep their values.',
   ['programs', 'inputs'], 'graphs in the bounds, all values', 'The model is not built here; upstream tests use a few fixed networks.', [M, 'src/model/graphbuilder.cpp', 'src/runtime/cpu/cpubackend.cpp'], [('graph construction, forward, backward', M)]),
 P('C29', 'Model parameters, state, naming and train mode',
   'params() and state() of a model contain exactly the parameters (and buffers) of all its layers under unique names "layer.parameter", sharing storage with the layers. train(mode) switches every parameter, getLayer finds every layer by its name, and an uncompiled model or an unknown layer name is rejected.',
   ['programs'], 'models in the bounds, named and unnamed layers', 'The model is not built here; upstream tests use fixed networks.', [M], [('Model::Impl', M)]),
 P('C30', 'make_layer creates the same layer as the constructor',
   'make_layer with a type name, attributes and inputs creates a layer with the same type, name, attributes, parameter shapes, output shape and behaviour as constructing the operation directly, for every layer type. An unknown type is rejected.',
   ['inputs', 'configurations'], 'every layer type, all attribute values in the bounds', 'Not tested at all here.', [NN, L + 'cpulayer.cpp'], [('make_layer', NN), ('ICPULayer::create', L + 'cpulayer.cpp')]),
 P('C31', 'NCHW/NHWC conversions are inverse permutations',
   'The layout conversions map element (n, c, h, w) to (n, h, w, c) and back for every shape, moving every element exactly once, so that converting there and back is the identity.',
   ['inputs'], 'all values, shapes in the bounds', 'Not tested.', ['include/deepworks/utils/utils.hpp', K], [('conversion kernels', K)]),
 P('C32', 'Training a model equals training its layers by hand',
   'For a chain of layers of any types, the compiled model gives the same outputs, parameter gradients and running statistics as calling its layers one after the other, in training and evaluation mode. Training it (forward, cross-entropy loss, backward, optimizer step over its parameters, validation passes in between) moves every trainable parameter exactly as the optimizer rule applied to those gradients by hand: the next forward pass uses the updated values, frozen parameters keep theirs, and a validation pass changes nothing.',
   ['programs', 'inputs', 'histories'], 'pairs of layer types, small networks, every freeze pattern, all values', 'The pieces are tested alone; nothing checks that parameters, gradients, mode and optimizer of a model stay connected over several steps, and the model is not built here.', [M, 'src/optimizer.cpp', 'src/loss.cpp', 'src/runtime/cpu/cpubackend.cpp', L], [('Model::forward/backward/params over compiled layers', M), ('ParamMap consumed by the optimizers', 'src/optimizer.cpp')]),
 P('C33', 'The sample data sets deliver every file once with its label',
   'The data sets of the samples (MNIST, CIFAR-10, CIFAR-100, Iris) have one sample per file (per row for Iris), whatever order the directory is listed in. pull(i) fills the given tensors in place: the image channel by channel ([C, H, W], flat for MNIST) scaled to [0, 1], and the label of its directory: the digit for MNIST, the class number for CIFAR-10; for CIFAR-100 the classes are numbered from 0, each directory name having one label across all data sets of a run. Iris yields the four features and the species label of the rows in file order, after the header line.',
   ['inputs', 'schedules'], 'all pixel values of the images, two listing orders, every class, 0..3 rows', 'The samples have no tests.', ['samples/mnist/utility.cpp', 'samples/cifar10/utility.cpp', 'samples/cifar100/utility.cpp', 'samples/iris/utility.cpp', 'src/io/image_reader.cpp'], [('Dataset constructors and pull', 'samples/'), ('HWC to CHW conversion', K)]),
 P('C34', 'Malformed layer calls are refused without side effects',
   'A forward call of Linear, ReLU, ELU, LeakyReLU, Sigmoid, Softmax, BatchNorm1D, BatchNorm2D or Dropout with other than one input and one output, with a tensor of a rank the layer does not work on (Linear, Softmax, BatchNorm1D, BatchNorm2D), or with an output of another shape than the input (ReLU, ELU, LeakyReLU, Sigmoid, Dropout) throws an exception and changes no tensor, parameter or buffer; a well-formed call is accepted.',
   ['inputs', 'configurations'], '0..3 inputs and outputs, ranks 1..5, output shapes around the right one, both modes, all values', 'Tests only make well-formed calls.', [L, K], [('validate() of the CPU layers', L)]),
 P('C35', 'Printed tensors and shapes and exported graphs show exactly what is there',
   'Inserting a tensor into a stream prints every element once, in row-major order, and an empty tensor prints none; inserting a shape prints every dimension once, in order. save_dot writes a well-formed Graphviz digraph, whatever the layer names, with one node per placeholder (showing its shape) and per operation (showing its name and type), one edge per operation input and output labelled with its port, and nothing else; a file that cannot be written is reported by an exception.',
   ['inputs', 'configurations'], 'all values and dimensions; every small graph; layer names of any characters', 'Tests never look at the printed text; the one call of save_dot only checks that it does not throw.', [T, 'include/deepworks/shape.hpp', 'src/serialization.cpp'], [('operator<< of Tensor', T), ('operator<< of Shape', 'include/deepworks/shape.hpp'), ('save_dot', 'src/serialization.cpp')]),
]
