"""Writes /verif/properties.jsonl (run after editing; the jsonl is what is committed and read)."""
import json, os
OP="core/itcl_quantization/quantization/operators.py"
LUT="core/itcl_quantization/quantization/lut.py"
IE="inference_engine/itcl_inference_engine/"
QZ="quantizer/itcl_quantizer/"
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("P01","Quantization maps every real to the nearest representable integer code",
 "For every finite real scalar or array, positive scale and in-range zero point, quantizing to an integer type of up to 32 bits yields an integer array of the same shape whose every element is the code nearest to value/scale + zero point (ties go up), clamped to the type's own minimum and maximum instead of wrapping. Consequently quantization is monotone, never leaves the type's range, and reconstructs every value inside the representable range to within half a scale step. It never modifies the data it was given.",
 ["inputs","configurations"],"all finite arrays (any shape, magnitude), all all integer types of 2 to 32 bits signed and unsigned, all scales > 0 and in-range zero points",
 "Core tests of quantization look only at fixed LUTs; no test varies type, scale, zero point and magnitude, and saturation at wide types is never exercised.",
 [OP,IE+"util/quantization.py"],[("Quantization.quantize / round: scale, shift, floor(+0.5), clip, cast",OP),("GenericDtype supplies the clip bounds",OP)])
p("P02","A per-element rounding decision selects exactly floor or ceiling",
 "When an explicit rounding decision (0 = down, 1 = up) of the data's shape accompanies a quantization, each element becomes the largest code not above value/scale + zero point, plus its decision, clamped to the type's range. Each element obeys its own decision only, and the round-to-nearest decision array derived from the data reproduces plain nearest rounding. A decision array whose shape cannot be matched with the data never aborts quantization: the result falls back to nearest rounding.",
 ["inputs","configurations"],"all arrays, all 0/1 decision arrays, all types, scales and zero points",
 "No test passes a rounding decision array with mixed bits, let alone relates neighbouring elements' decisions.",
 [OP,QZ+"equalizers/adaround/irounding_policy.py"],[("rounding_policy branch of Quantization.quantize",OP),("get_base_rounding",QZ+"equalizers/adaround/irounding_policy.py")])
p("P03","Dequantization is the exact affine inverse of quantization",
 "Dequantizing an integer code with a given scale and zero point yields scale times (code minus zero point) for every code of the type, without integer wrap-around whatever integer type the codes are stored in. Quantizing a dequantized code with the same parameters returns that code, for every code of every supported type, and real zero maps to the zero point.",
 ["inputs","configurations"],"all codes of all integer types up to 32 bits, stored in any numpy integer type or as lists, all scales and zero points",
 "Tests dequantize a handful of codes at one scale.",
 [OP,IE+"layers/tflite/dequantize.py",IE+"layers/onnx/dequantize_linear.py"],[("Quantization.dequantize",OP),("Quantize/Dequantize, QuantizeLinear/DequantizeLinear layers delegate to it",IE+"layers")])
p("P04","Integer type names denote exactly their two's-complement range",
 "A type named intN spans -2^(N-1)..2^(N-1)-1 and uintN spans 0..2^N-1 for every N>=1, regardless of letter case, and a numpy integer type denotes the same range as its name. The reported type name parses back to the same range, and malformed, zero-width or unknown names are rejected with an error rather than given some range.",
 ["inputs"],"all type names and numpy integer types",
 "Tests try a few names; neither arbitrary widths nor near-miss malformed names are covered.",
 [OP],[("GenericDtype string and numpy constructors",OP)])
p("P05","A lookup table tabulates the quantized activation at every input code",
 "The table built for a function from input and output quantization parameters has exactly one entry per code of the type, in ascending code order, and the entry for code q is the quantization of the function applied to the real value q represents. Looking a code up at its offset from the type's minimum therefore gives the activation correct to the nearest output code over the entire domain, including both ends.",
 ["inputs","configurations"],"all functions, input/output scales and zero points, and small integer types",
 "Tests compare reduced tables against full ones but never the full table against the function it tabulates.",
 [OP],[("Quantization.float_activation / create_LUT",OP)])
p("P06","A reduced lookup table is lossless, also after serialization",
 "A reduced lookup table returns the original table's value at every index, for every table content, pruning depth and pruning mode (symmetric or asymmetric), and iterating it yields the original table in order. This still holds after serializing it to JSON text and loading it back, and an index past the end is an error.",
 ["inputs","configurations"],"all integer tables (constant, monotone, plateaued, random, length 1..n), depths 0.., both modes",
 "Tests use the symmetric mode on activation-shaped tables with fixed depth, and compare deserialized tables through an iterator that may be empty.",
 [LUT,"core/itcl_quantization/json/specification.py"],[("head/tail interval pruning",LUT),("serialize / deserialize",LUT)])
p("P07","Fixed-width integer arithmetic widens instead of overflowing",
 "Adding, subtracting or multiplying two fixed-width integers or integer arrays of the same signedness and at most 32 bits gives the exact mathematical result whenever it is representable in twice the wider operand's width. The result's reported type is at least as wide as the operands', always able to hold every element of the result, and unchanged when the result already fits the first operand's type; operands are left unmodified. The 8, 16 and 32 bit addition and multiplication helpers likewise return the exact sum or product.",
 ["inputs"],"all pairs of scalars or same-shape arrays of int8/16/32 or uint8/16/32",
 "Tests check single scalar pairs; arrays get one all-equal case.",
 [OP],[("Dtype.__add__/__sub__/__mul__ and the overflow-driven widening",OP)])
p("P08","Integer fully-connected layers compute the real affine map to one code",
 "For every weight matrix, bias, input batch and quantization parameters, the integer fully-connected layer's output differs by at most one output code from quantizing the exact real result weights*input + bias of the values its codes represent, and it saturates at the output type's limits instead of wrapping. Single vectors and batches agree, whether the layer is built directly or from its JSON operator, including weights with non-zero zero point and 16-bit types with very small rescaling factors (the bias being in the documented scale input scale times weight scale, zero point 0).",
 ["inputs","configurations"],"all weight/bias/input codes, dimensions, scales and zero points in the quantizer's range, int8 and int16 outputs",
 "Tests replay two recorded layers and one recorded model; accumulator extremes, saturation, other types and parameters are never reached.",
 [IE+"layers/tflite/fullyconnected.py"],[("accumulate in int64, fixed-point rescale, add zero point, clip",IE+"layers/tflite/fullyconnected.py")])
p("P09","Integer-only rescaling approximates the real multiplication",
 "Multiplying an integer (or integer array) by a real factor in integer-only fixed-point form gives the exact product to within one unit plus a 2^-30 relative error, for factors from far below one (where the result is zero) up to large ones. In floating mode the product is the ordinary one.",
 ["inputs"],"all non-negative factors up to 2^20 and all integers of up to 31 bits",
 "No existing test touches this fixed-point helper.",
 [IE+"util/floating.py"],[("mantissa/exponent split, rounding shift",IE+"util/floating.py")])
p("P10","uint8 linear operators match real arithmetic to the nearest code",
 "The uint8 matrix multiplication, addition, sigmoid, quantization and dequantization operators return, for every tensor and all quantization parameters, the real-arithmetic result of the values their codes represent, quantized to the nearest output code (either neighbour at a tie) and saturated to 0..255. Their inputs are not modified and the result keeps the expected shape for single vectors and batches.",
 ["inputs","configurations"],"all uint8 tensors, shapes, scales, zero points",
 "Tests contain a few recorded vectors; saturation on both sides, extreme zero points and batches are not covered.",
 [IE+"layers/onnx/q_linear_mmul.py",IE+"layers/onnx/q_linear_add.py",IE+"layers/onnx/q_linear_sigmoid.py",IE+"layers/onnx/quantize_linear.py",IE+"layers/onnx/dequantize_linear.py"],[("rescale, round, zero point, clip in each infer",IE+"layers/onnx")])
p("P11","Quantized activation layers compute their real function to one code",
 "Tanh, logistic, sigmoid-table, tanh-table and rectifier layers map every input code to the code nearest (within one) to the real activation of the value it represents, under the layer's declared input and output parameters, saturating rather than wrapping. Table layers return the same result whether given the full or the reduced table and whatever the tensor's shape, and a rectifier never outputs a code below the one representing zero.",
 ["inputs","configurations"],"all codes of the layer's type, all scales and zero points, all tensor shapes",
 "The rectifier has no test at all, and the others are compared on five recorded values.",
 [IE+"layers/tflite/tanh.py",IE+"layers/tflite/logistic.py",IE+"layers/common/relu.py",IE+"layers/common/lut.py",IE+"layers/onnx/tanh.py"],[("dequantize, apply, requantize",IE+"layers/tflite"),("table lookup at code+offset",IE+"layers/common/lut.py"),("rectifier rescale about the zero points",IE+"layers/common/relu.py")])
p("P12","Softmax yields one probability distribution per sample",
 "For every finite input the float softmax operator returns finite non-negative values that sum to one for each sample along the last axis, preserve the order of that sample's inputs and equal exp(x)/sum(exp(x)). Adding a constant to a sample does not change its result, nor do the other samples of a batch; the pass-through softmax of integer models returns its input unchanged.",
 ["inputs"],"all finite tensors of one or more dimensions, any magnitude",
 "One recorded vector is tested; batches and large magnitudes are not.",
 [IE+"layers/onnx/softmax.py",IE+"layers/tflite/softmax.py"],[("Softmax.infer",IE+"layers/onnx/softmax.py")])
p("P13","The integer LSTM tracks the real LSTM recurrence it encodes",
 "For every set of quantized weights, gate tables, scales and zero points (including hidden states with non-zero zero point), each integer time step yields a cell and hidden state within a few codes of the real LSTM equations evaluated on the values the integers represent, clipped to their types. The last step of the full sequence equals the last-step-only output, output shapes follow the sequence flag, and the initial state represents real zero.",
 ["inputs","configurations"],"all weights, inputs, sequence lengths, batch sizes, units and quantization parameters",
 "No stable test executes the LSTM layer.",
 [IE+"layers/itclq/lstm.py"],[("gate accumulators, table activations, cell/hidden update in LSTM.infer",IE+"layers/itclq/lstm.py")])
p("P14","Inference is pure: no cross-sample or cross-call leakage",
 "A sample's inference result does not depend on which other samples share its batch or in what order they come, on previous inference calls on the same network or layer, or on how often it is repeated; nor do the states a layer records of its last inference. Inference modifies neither its input array nor the network description it was built from, and networks built from the same description give identical results.",
 ["histories","inputs"],"all interleavings of inference calls on shared and separate layers/networks, all batch splits and permutations",
 "Tests run one inference per network object, so state carried between calls or rows cannot show.",
 [IE+"network/sequential.py",IE+"layers"],[("stateless infer methods; per-call intermediate buffers",IE+"network/sequential.py"),("row-wise matmul",IE+"layers/tflite/fullyconnected.py")])
p("P15","A network runs exactly its listed operators, in order",
 "A network loaded from a JSON description (dictionary or file, either engine name in any letter case) applies one layer of the declared kind per listed operator, in list order, each fed with the previous one's output, and returns the last result while exposing every intermediate one. The operator kind alone decides which computation is applied; unknown engines or operators, and missing input or output descriptions, are rejected when the network is built.",
 ["programs","inputs"],"all operator sequences of both engines, including repeated and adjacent similar kinds",
 "Tests load two fixed models.",
 [IE+"network/sequential.py",IE+"layers/tflite/build_layer.py",IE+"layers/onnx/build_operator.py",IE+"util/check_layer_type.py"],[("SequentialNetwork construction and infer loop",IE+"network/sequential.py"),("operator-kind dispatch",IE+"layers/tflite/build_layer.py"),("operator-kind dispatch",IE+"layers/onnx/build_operator.py")])
p("P16","Distributions conserve their data across binning and slicing",
 "A distribution built from any finite tensor counts every element exactly once, its bins report exactly the elements lying between their edges, and its reported minimum and maximum are the data's own. Slicing by a value interval keeps every element inside the interval, keeps nothing lying more than one bin outside it, keeps the per-bin counts of the kept bins unchanged, and leaves the original distribution untouched.",
 ["inputs","histories"],"all finite tensors (any shape, duplicates, skew, single values, magnitudes the bin width resolves), bin counts, slice bounds and sequences of slices",
 "Only a few slices of fixed arrays are tested, in a suite outside the stable set.",
 [QZ+"quantizer/distributions/distribution.py"],[("histogram + sorted copy kept in step by slicing",QZ+"quantizer/distributions/distribution.py")],
 [("_histogram/_bin_edges/_sorted_a","three views of the same data that must agree",QZ+"quantizer/distributions/distribution.py")])
p("P17","Calibration covers the data range with zero exactly representable",
 "For every data range, including one-sided, all-zero and constant data, calibration returns a positive finite scale and an integer zero point within the type's range such that real zero is represented exactly and the smallest and largest values are represented to within one scale step. Without a forced scale, no more codes are wasted than the requested symmetry needs, and symmetric calibration of a signed type makes no use of its lowest code. Calibration about a fixed zero point (symmetric or not) returns that zero point and covers the range on every side that has codes left, and an explicitly forced scale or zero point is returned as given.",
 ["inputs","configurations"],"all finite data tensors, all integer types, symmetric/forced combinations",
 "Tests check a few hand-made ranges in a suite that is not part of the stable set; degenerate data is not covered.",
 [QZ+"quantizer/distributions/distribution.py"],[("Distribution.quantize",QZ+"quantizer/distributions/distribution.py")])
p("P18","Range optimizers only narrow a distribution, symmetrically and in place",
 "Min/max calibration leaves a distribution as it is; percentile calibration clips the lowest and highest given percentage of the data to the corresponding percentiles, both tails alike, keeping the element count; noise-minimising calibration returns the original or a sub-range of it whose quantization noise under the chosen type is not worse than that of the untrimmed range. None of them alters the distribution passed in. A dense layer calibrates its kernel, output and activation each on the range kept by the optimizer given for it, and the kernel's codes represent the kernel clipped to that range.",
 ["inputs","configurations"],"all finite data, percentages in 0..50, bin counts, noise metrics",
 "The optimizer tests only exercise the identity optimizer and a fixed plot-like case, outside the stable set.",
 [QZ+"optimizers/fixed_percent.py",QZ+"optimizers/minmax.py",QZ+"optimizers/scipy_optimizer.py"],[("trim methods",QZ+"optimizers")])
p("P19","A tensor node's codes always reflect its current parameters",
 "After any sequence of parameter updates, rounding changes and resets, a tensor node's integer tensor equals the quantization of its float tensor under its current scale, zero point and rounding decisions, its dequantized tensor is the affine inverse of that integer tensor, and its JSON form shows those same values. Registered observers run once per update, resets restore the construction-time values, the float tensor never changes, and a rounding array of a wrong shape is rejected without effect.",
 ["histories","inputs"],"all sequences of update / reset / rounding operations on nodes of any shape and type",
 "Existing node tests perform at most one update and are not in the stable set.",
 [QZ+"tensor_extractor/tensor.py"],[("update_quant_parameters, _requantize, rounding_policy setter, hooks",QZ+"tensor_extractor/tensor.py")],
 [("scale/zero point/rounding/quantized cache","cached codes that must follow the parameters",QZ+"tensor_extractor/tensor.py")])
p("P20","An activation node's table follows its node's parameters",
 "A node carrying an activation table holds, after any sequence of parameter updates and rounding changes, a table with one entry per code whose entry for a code is the activation of the value it represents under the node's current input parameters and the current parameters of the node it produces, within one output code and honouring the current rounding decisions. Indexing by code plus the published offset addresses the right entry, and the serialized table is the same table.",
 ["histories","inputs"],"all sequences of input-parameter updates and rounding changes, tanh/sigmoid, all scales and zero points",
 "No test updates a node that owns a table.",
 [QZ+"tensor_extractor/tensor.py"],[("NodeLUT creation and refresh on requantize",QZ+"tensor_extractor/tensor.py")])
p("P21","A quantized dense network approximates the float model",
 "Quantizing any stack of fully-connected layers (with or without bias, any supported activation including rectifiers, any number of layers, dropout and input layers skipped) on a representative dataset gives an integer network whose dequantized output on that dataset matches the float model, up to final softmax, within the error that propagating the layers' quantization steps allows. Every output range is calibrated on the float model's own values of that layer over the whole dataset. More bits never make it grossly worse, and per-layer type settings are applied to the named layer only. A model with any other kind of layer, with an activation the integer network has no operator for, or with a softmax before its last layer is refused, not quantized with that part left out.",
 ["programs","inputs","configurations"],"all dense architectures, weights, datasets and type configurations",
 "Requires TensorFlow, so no stable test runs the quantizer at all; its own tests check single layers on fixed data.",
 [QZ+"tensor_extractor/keras/keras_builder.py",QZ+"tensor_extractor/keras/layers/keras_dense.py",QZ+"tensor_extractor/keras/layers/activations.py",QZ+"tensor_extractor/keras/layers/keras_input.py"],[("layer-by-layer calibration and node construction",QZ+"tensor_extractor/keras/layers/keras_dense.py"),("activation calibration",QZ+"tensor_extractor/keras/layers/activations.py")])
p("P22","A quantized LSTM network approximates the float model",
 "Quantizing a network with LSTM layers with the framework's default activations (returning sequences or the last step, stacked or followed by dense layers) gives an integer network whose dequantized output on the representative dataset follows the float network within a small fraction of its output range, and the float states used for calibration equal the framework's own LSTM outputs. Every gate is calibrated on that gate's own activations. Each bias is stored at the product of its input and weight scales and each bias sum at the product of the recurrent weights' and hidden state's scales, with zero zero-points.",
 ["programs","inputs"],"all LSTM architectures, weights, window lengths and datasets",
 "Requires TensorFlow; not covered by any stable test.",
 [QZ+"tensor_extractor/keras/layers/keras_lstm.py",IE+"layers/itclq/lstm.py"],[("float LSTM replay and per-gate calibration",QZ+"tensor_extractor/keras/layers/keras_lstm.py")])
p("P23","The exported network description is self-contained and consistent",
 "The JSON a quantized network is written to loads back into an inference network whose results are bit-identical to the in-memory one's, contains only JSON values, lists as many operators as it declares, starts with a quantize and ends with a dequantize operator, declares the model's input and output shapes, and every operator's input parameters equal the output parameters of the operator before it. Each dense layer's bias scale is the product of its input and weight scales with zero zero-point, and exporting twice or exporting then inferring changes nothing.",
 ["programs","histories"],"all quantized networks, before and after equalization and rounding optimisation",
 "Tests never export a quantized network.",
 [QZ+"util/network.py",QZ+"tensor_extractor/operator.py",QZ+"tensor_extractor/tensor.py",QZ+"tensor_extractor/keras/keras_builder.py"],[("as_json on network, operators, nodes",QZ+"util/network.py"),("as_sequential_network",QZ+"util/network.py")])
p("P24","Parameter equalization never worsens the loss and stays consistent",
 "Equalizing scales and zero points against a loss leaves a network whose recomputed loss is the best loss observed during the search and never above the initial one. At every loss evaluation and afterwards all zero points are in their type's range, all scales positive, tensors and tables correspond to their current parameters, and bias scales equal input scale times weight scale; float weights are untouched.",
 ["histories","inputs"],"all networks, loss functions (also flat, noisy-shaped and adversarial ones), retry budgets and random seeds",
 "The equalizers are not exercised by any test.",
 [QZ+"equalizers/param_equalizer/bfs_equalizer.py",QZ+"equalizers/param_equalizer/abstract_param_optimizer.py",QZ+"equalizers/param_equalizer/param_equalizer.py",QZ+"equalizers/param_equalizer/annealer.py"],[("accept-if-better loop with rollback",QZ+"equalizers/param_equalizer/bfs_equalizer.py"),("bias-scale observer",QZ+"tensor_extractor/keras/layers/keras_dense.py")])
p("P25","Rounding optimisation applies the best decisions it has seen",
 "Optimising rounding decisions against a loss leaves every tensor with 0/1 decisions of its own shape whose loss is the best evaluated and never above the loss of the decisions it started from, and the reported cost is the loss of the reported decisions. The search can change any decision of any weight and bias tensor and of a dense layer's activation table. Only codes adjacent to the real value are ever chosen; scales, zero points and float tensors are untouched, and the tensors' codes match the applied decisions when the optimiser is done.",
 ["histories","inputs"],"all tensors, loss functions, budgets and random seeds",
 "No test runs the rounding optimisers.",
 [QZ+"equalizers/adaround/adaround.py",QZ+"equalizers/adaround/annealer.py"],[("bit-flip moves and local search",QZ+"equalizers/adaround/annealer.py"),("decision application",QZ+"equalizers/adaround/adaround.py")])
p("P26","The QUBO's energy is the layer's reconstruction error",
 "For a dense layer, dataset and scales, the quadratic objective over rounding bits built for each output unit equals, up to a constant independent of the bits, the mean squared difference between the layer's float output and the output computed from the rounded weights, bias and quantized inputs, for every assignment of the bits. Its minimiser is therefore the best rounding, bits are mapped to the weight or bias they stand for, both available formulations agree, and units are optimised independently.",
 ["inputs"],"all kernels, biases, datasets, scales and all bit assignments of small layers",
 "The only test-like script prints matrices without an oracle and needs unavailable quantum packages.",
 [QZ+"equalizers/adaround/Calculationsint.py",QZ+"equalizers/adaround/qubocalculation.py",QZ+"equalizers/adaround/qubo.py"],[("coefficient formulas (linear, pairwise, bias, cross terms)",QZ+"equalizers/adaround/Calculationsint.py"),("coefficient formulas, functional variant",QZ+"equalizers/adaround/qubocalculation.py"),("per-unit loop and bit mapping",QZ+"equalizers/adaround/qubo.py")])
p("P27","Quantizer configuration means what it says",
 "A configuration built from keywords, a JSON file or a YAML file with the same content is the same configuration, unspecified fields take their documented defaults, and distinct configurations never share mutable state. The optimizer named in it decides which optimizer is built and with exactly its parameters, and the TFLite preset makes all kernels symmetric and disables network-level optimisation without changing anything else.",
 ["configurations","histories"],"all configuration contents and load paths, sequences of creation and preset application",
 "The configuration tests load one sample and are outside the stable set.",
 [QZ+"config/models/keras.py"],[("pydantic models, tflite(), build(), from_json/from_yml",QZ+"config/models/keras.py")])
p("P28","Quantization-quality metrics measure what they claim",
 "The mean squared error, divergence and cross-entropy metrics are non-negative where the mathematical quantity is, zero (or minimal) exactly for identical inputs, finite for histograms with empty bins, equal to their mathematical definitions and leave their inputs unchanged. The collision count of a tensor with itself is zero, is invariant under permutation, and grows with every distinct float value merged into an already used code; a layer's report applies it to that layer's own tensors.",
 ["inputs"],"all histograms and tensors",
 "Only two fixed tensors are checked for collisions; nothing checks the noise metrics.",
 [QZ+"quantizer/metrics/noise.py",QZ+"util/collisions.py"],[("kl_divergence, mse, cross_entropy",QZ+"quantizer/metrics/noise.py"),("calc_collisions",QZ+"util/collisions.py")])
p("P29","Exporting a float model preserves every layer, weight and attribute",
 "Converting a float model to JSON emits, for every convertible layer in order, operators whose tensors are exactly the layer's weights (dense kernels transposed to output-major, zero bias of output length when absent), with shapes and types matching the data and the layer's activation, strides, padding, pool size, unit count, step count and sequence flag recorded. Input and dropout layers emit nothing, unsupported layers are rejected, and the result is valid JSON whose operator count matches.",
 ["programs","inputs"],"all sequences of supported layers with arbitrary weights and settings",
 "The converter has no tests.",
 ["model_converters/keras2json/keras2json/_convert.py","model_converters/keras2json/keras2json/layers/dense.py","model_converters/keras2json/keras2json/layers/lstm.py","model_converters/keras2json/keras2json/layers/conv2d.py","model_converters/keras2json/keras2json/layers/maxpool2d.py"],[("layer dispatch and per-layer serializers","model_converters/keras2json/keras2json")])
p("P30","Converting a TFLite model preserves structure, parameters and values",
 "Converting a TFLite model yields one operator per model operator in order, with every tensor's name, shape, type, stored values, scale and zero point carried over (absent ones as null), and tanh and logistic operators carrying a 256-entry table of their quantized function. The written file loads into the inference engine and computes what the model's parameters prescribe.",
 ["programs","inputs"],"all operator sequences, tensors and quantization parameters (zero zero-points, missing parameters, missing buffers)",
 "The converter needs TensorFlow and tflite and has no tests.",
 ["model_converters/tflite2json/itcl_tflite2json/__init__.py","model_converters/tflite2json/itcl_tflite2json/operators/BaseOperator.py","model_converters/tflite2json/itcl_tflite2json/operators/TanhLUT.py","model_converters/tflite2json/itcl_tflite2json/operators/SigmoidLUT.py"],[("node and operator serializers","model_converters/tflite2json/itcl_tflite2json/operators")])
p("P31","Converting an ONNX model preserves computation under operator fusion",
 "Converting a quantized ONNX graph yields operators in graph order covering every node exactly once, fusing a dequantize-tanh-quantize run into one table operator and nothing else, with each operator's scales, zero points and weights taken from its own initializers. Inferring the converted network gives the same result as evaluating the graph's operators one by one, and its declared inputs and outputs are the graph's own.",
 ["programs","inputs"],"all sequences of supported operators including adjacent, repeated and partial fusion patterns",
 "The converter needs the onnx package; its one test is outside the stable set.",
 ["model_converters/onnx2json/helpers/graph.py","model_converters/onnx2json/helpers/buildOperator.py","model_converters/onnx2json/helpers/nodeBuilders/buildBaseNode.py","model_converters/onnx2json/2json.py"],[("greedy operator fusion","model_converters/onnx2json/helpers/graph.py"),("node builders","model_converters/onnx2json/helpers/nodeBuilders")])
p("P32","Remote inference sends every sample once and reassembles in order",
 "Remote inference publishes the model, then every sample exactly once, in order, in batches that are never empty nor larger than the configured maximum and each sent only after the previous batch's reply, and returns the replies concatenated in sample order, for any number of samples from one up. A missing reply yields no partial result and no hang beyond the configured timeout and is logged or raised, while any reply within the timeout is used; a later call is not affected by it even if the reply then comes late, and payloads round-trip matrices exactly. Messages are published with the configured quality of service over a connection made with exactly the identity, credentials and address given. A remotely computed loss is the one reported for the model just published, and its absence is an error within the timeout.",
 ["histories","fault_sequences","schedules"],"all sample counts, batch limits, reply delays (synchronous or from another thread), lost and malformed replies, repeated calls",
 "The client has no tests.",
 ["demo/demo_lib/demo_lib/fpga.py","demo/demo_lib/demo_lib/mqtt.py"],[("chunk/publish/wait loop and result callback","demo/demo_lib/demo_lib/fpga.py")])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
