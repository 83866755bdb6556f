T_DIFF = "differential runtime monitor"
prop("B01", "A model file is read exactly as stored",
 "Loading a model yields every operator, wire name, attribute, weight value, weight shape and graph input/output exactly as the file stores them, for every storage form (typed or raw, every supported numeric type, signs and special values included). Content the loader cannot represent - external or truncated data, element counts that contradict the shape, unsupported element types - is refused instead of being read as something else.",
 ["inputs"], "every model file: any nodes, names, attributes, tensor types, storage forms, dimensions",
 "The tests parse no file-level variety: a handful of hand-built structures with float and int64 data.",
 [ON+"parser.rs"],
 [("protobuf decoding to the parsed model", ON+"parser.rs: parse_onnx, parse_graph"), ("tensor payload decoding", ON+"parser.rs: parse_tensor and the raw/typed branches"), ("attribute decoding", ON+"parser.rs: parse_attribute")],
 T_DIFF + ": parsed model compared with the generator's own description, encoded by an independent writer", "exploration",
 "An independent protobuf encoder writes generated models and the parse result is compared item by item; trusts that encoder's reading of the public model format.",
 ["parse_onnx"])
prop("B02", "The layer graph is the model's graph, in an executable order",
 "Building the layer graph keeps every operator exactly once with its inputs, outputs, attributes and constant weights, orders them so that each comes after everything it reads (whatever order the file lists them in). Graphs that have no such order, or that use an operator that is not supported, are refused.",
 ["inputs", "programs"], "every operator graph: any size, fan-out, listing order, constants as weights or as nodes, cycles",
 "The tests build graphs of at most a few nodes already listed in order.",
 [ON+"graph.rs"],
 [("lowering and topological sort", ON+"graph.rs: LayerGraph::from_parsed, topological_sort"), ("operator names", ON+"graph.rs: OpType::from_str")],
 "trace checker: order, multiplicity and content of the produced layers against the generated graph", "exploration",
 "Checked for generated graphs in shuffled listing orders, with cycles and unsupported operators planted.",
 ["LayerGraph::from_parsed", "iter_topo"])
prop("B03", "Inferred tensor shapes are the shapes execution produces",
 "Every shape inferred for a wire of a model equals the shape of the tensor that executing the model per the operator specification puts on that wire. This holds for every attribute combination and rank, before and after quantization.",
 ["inputs", "programs"], "every model over the supported operators, every rank, attribute combination, broadcast pattern, omitted optional input",
 "Tests check one shape per operator; attribute interplay (padding modes, dilation, ceil mode, broadcasting, negative axes) multiplies far beyond.",
 [ON+"shape_inference.rs", ON+"graph.rs"],
 [("per-operator shape rules", ON+"shape_inference.rs: infer_all_shapes, infer_layer_output_shape and infer_* rules"), ("broadcast rule", ON+"shape_inference.rs: broadcast_shapes"), ("shape tracing when quantizing", ON+"quantizer.rs: traced shapes")],
 T_DIFF + ": inferred shapes against a reference interpreter executing the model", "exploration",
 "The oracle is an independent interpreter of the operator specification (harness/model); operators whose shape depends on run-time values are compared only when the value is constant.",
 ["infer_all_shapes", "quantize_model output"])
prop("B04", "Shape arithmetic in a model is evaluated to the right constants",
 "When a model computes a shape with operators - reading sizes, slicing, gathering, casting, reshaping, concatenating - the sizes the tool derives from that computation are the ones executing it gives. A computation it cannot evaluate is refused or left unknown; it never turns into a wrong size, the one exception being a slice whose bounds exist only at run time, which by decision is taken to keep its input's size.",
 ["inputs", "programs"], "every chain of integer shape arithmetic feeding a reshape, expand, slice, resize, tile or range",
 "The tests fold a few short chains with small positive values.",
 [ON+"shape_inference.rs"],
 [("constant folding of integer wires", ON+"shape_inference.rs: fold_* / constant value propagation feeding Reshape, Expand, Slice, Tile, Resize")],
 T_DIFF + ": sizes derived through generated shape-arithmetic chains against the reference interpreter", "exploration",
 "Chains are generated forward with an interpreter, so every intermediate value is known; negative sizes, negative indices and truncating division included.",
 ["infer_all_shapes"])
prop("B05", "Quantized weights are the scaled, rounded weights, and nothing else changes",
 "Quantizing a model replaces each weight that multiplies data by its value times the scale, and each bias by its value times the square of the scale, rounded to nearest; which layers rescale afterwards follows from the operator and the configuration. Everything else about the model is unchanged, and a weight that cannot be represented is refused rather than wrapped or clipped.",
 ["inputs", "configurations"], "every model, every weight value including extremes, every scale base and exponent, every override",
 "The tests quantize a few small weights at one scale; overflow, ties, shared weights and special values are not sampled.",
 [ON+"quantizer.rs", ON+"ops.rs"],
 [("weight scaling", ON+"quantizer.rs: quantize_model, quantize_tensor"), ("which operand is scaled by what power", ON+"ops.rs: get_scale_plan")],
 T_DIFF + ": every quantized tensor against independently scaled values, all other fields compared", "exploration",
 "Tolerance is half a unit plus float slack; values within 1% of the representable limit may go either way.",
 ["quantize_model", "quantize_model_for_precision"])
prop("B06", "Declared bit widths cover every value the model can produce",
 "The bit width recorded for each layer that is range-checked is wide enough for every value that can occur there when the model's inputs lie in [-1, 1], for any such input. A width too small would make an honest proof impossible.",
 ["inputs", "programs"], "every model with known shapes, every input within [-1, 1], every scale",
 "Tests assert a few widths for hand-made layers; whether a width is enough depends on the whole graph and on worst-case inputs.",
 [ON+"quantizer.rs"],
 [("value bound propagation", ON+"quantizer.rs: compute_bounds and per-operator bound rules"), ("width from bound", ON+"quantizer.rs: n_bits computation")],
 "execution monitor: generated models run on worst-case and random inputs, each layer's values compared with its declared width", "exploration",
 "Models are executed on sign-aligned extreme inputs and random ones; batch dimension 1 (two open findings concern layouts without a batch dimension); logarithm bounds and scaled general matrix products are excluded as documented approximations.",
 ["quantize_model: n_bits per layer"])
prop("B07", "The chosen scale never overflows the proof field",
 "Selecting a scale for a model and a field never yields one with which an accumulated value, before it is rescaled, can exceed the given number of bits, and a requested precision that does not fit is refused. Precision that does fit is granted: the largest safe scale is at most one bit below what the bound allows.",
 ["inputs", "configurations"], "every model, field width, requested precision and base",
 "Tests try two configurations on tiny models; the overflow frontier depends on weights, fan-in and the field.",
 [ON+"quantizer.rs"],
 [("scale search", ON+"quantizer.rs: ScaleConfig::max_safe_exponent, adaptive, for_precision, exponent_for_digits, max_safe_digits"), ("bound", ON+"quantizer.rs: compute_max_bound")],
 "runtime oracle: selected scale checked against an independently computed worst-case bound and exact integer arithmetic", "exploration",
 "The bound is compared with values the model attains on extreme inputs, activations in [-1,1] between rescales as the tool documents; the arithmetic of the choice is recomputed exactly.",
 ["ScaleConfig constructors", "compute_max_bound"])
prop("B08", "Operator rewrites keep the value the model computes",
 "Where the tool rewrites an operator - folding normalization parameters into a multiply and an add, turning a constant half power into a square root - the rewritten layer computes the same values as the original on every input, and a case that cannot be rewritten faithfully is left alone or refused.",
 ["inputs", "programs"], "every normalization parameter set and epsilon, every exponent value, type and shape, every base shape",
 "Tests fold one parameter set and one scalar exponent.",
 [ON+"quantizer.rs"],
 [("normalization folding", ON+"quantizer.rs: fold_batchnorm_params"), ("power rewrites", ON+"quantizer.rs: Pow rewriting in quantize_model")],
 T_DIFF + ": original and rewritten layers evaluated on random inputs and compared", "exploration",
 "Comparison tolerance covers the rounding of scaled weights only.",
 ["quantize_model"])
prop("B09", "Layer parameters describe the real operator or are refused",
 "The convolution, pooling, matrix-product, normalization and add/subtract parameters extracted from a layer describe exactly the operation the layer specifies: strides, padding, dilation, groups, kernel, transposes, flags and operand shapes. Specifications outside what the circuits implement are refused, never approximated.",
 ["inputs", "configurations"], "every attribute combination, rank, omitted attribute, wrong-length attribute",
 "Tests extract parameters of one or two default layers.",
 [ON+"layer_params.rs"],
 [("parameter extraction", ON+"layer_params.rs: ConvParams, MaxPoolParams, GemmParams, BatchnormParams, AddSubParams ::from_layer")],
 T_DIFF + ": parameters used to execute the operation in a reference implementation, compared with the specified result", "exploration",
 "The oracle executes the extracted parameters as the circuits would and compares with the operator specification.",
 ["*Params::from_layer"])
prop("B10", "The compatibility report names exactly the unsupported operators",
 "The compatibility check accepts a model exactly when each of its operators is supported, and otherwise lists every unsupported operator, each once, independent of node order. It agrees with what the rest of the tool then accepts.",
 ["inputs"], "every multiset of operator names, any order and count, unknown and near-miss names",
 "The tests check one supported and one unsupported model.",
 [ON+"compat.rs", ON+"graph.rs"],
 [("compatibility check", ON+"compat.rs: is_compatible")],
 "runtime oracle: the report compared with the documented operator list and with the outcome of building the graph", "exploration",
 "The supported set is pinned by the documentation's list; operators lowered but not listed are tolerated either way.",
 ["is_compatible"])
prop("B11", "Adding zero biases changes the file but not the model",
 "The bias-completion rewrite gives every convolution without a bias a zero bias of the right size and touches nothing else: every other node, weight, attribute, input, output and piece of metadata of the model is still there unchanged, no existing name is reused, and the model computes the same outputs. Unreadable models are refused without touching the destination, and running it twice is the same as once.",
 ["inputs"], "every model file: convolutions with missing or empty bias, any weight type, name collisions, weights from nodes, extra content",
 "The tests rewrite one model with one convolution.",
 [ON+"compat.rs"],
 [("zero-bias rewrite", ON+"compat.rs: add_zero_bias_to_conv")],
 T_DIFF + ": rewritten file decoded and compared message by message with the original plus exactly the missing zero biases", "exploration",
 "Every message of the model is compared; fields the bundled schema does not know are outside.",
 ["add_zero_bias_to_conv"])
prop("B12", "Hostile models cannot crash or hang the tool or exhaust memory",
 "Loading, analysing and quantizing an arbitrary or malicious model file always ends with a result or an error: no panic, no arithmetic wrap-around, no endless loop, no memory out of proportion to the file. This holds for absurd sizes, attribute values, cyclic or deeply chained graphs and damaged bytes alike.",
 ["inputs"], "every byte string and every structurally valid model with arbitrary numbers",
 "No test feeds a malformed model.",
 [ON+"parser.rs", ON+"graph.rs", ON+"shape_inference.rs", ON+"quantizer.rs", ON+"compat.rs", ON+"layer_params.rs"],
 [("checked arithmetic and refusals throughout the pipeline", ON+"shape_inference.rs, quantizer.rs, parser.rs")],
 "panic, overflow-check, time and allocation monitors over structure-aware hostile models", "exploration",
 "Built with overflow checks; models mutated structurally and at byte level, each step of the pipeline watched for panic, time and peak allocation.",
 ["parse_onnx .. quantize_model, *Params::from_layer, add_zero_bias_to_conv"])
prop("B13", "Stored graphs and quantized models load back identical",
 "A layer graph or quantized model written out (as an artifact or as JSON) and read back is the same model: same layers, weights, attributes, shapes, widths and scale, for every content including special floating-point values where the format carries them.",
 ["inputs"], "every model and quantized model the tool can produce",
 "The tests serialise no model.",
 [ON+"graph.rs", ON+"quantizer.rs", ON+"parser.rs", IO+"lib.rs"],
 [("serialised form of the model types", ON+"graph.rs, parser.rs, quantizer.rs: serde derives")],
 "runtime oracle: write/read-back comparison over generated models", "exploration",
 "Uses the repository's own artifact container and JSON; non-finite floats are compared only where the format carries them.",
 ["serde of LayerGraph, QuantizedModel"])
prop("B14", "Analysis results depend only on the model",
 "Loading, shape inference and quantization of the same model give the same result every time - across repeated calls, threads and processes - and do not depend on the order in which the file lists independent nodes or weights.",
 ["inputs", "schedules", "histories"], "every model, any number of repetitions, concurrent runs, fresh processes, permuted listings",
 "A test sees one run; hash-order dependence shows only across processes.",
 [ON+"graph.rs", ON+"shape_inference.rs", ON+"quantizer.rs"],
 [("hash maps over wires and weights", ON+"graph.rs, shape_inference.rs, quantizer.rs")],
 "replay comparison across repetitions, threads, processes and permuted files", "exploration",
 "Results are compared in canonical JSON; process-level differences come from per-process hash seeds.",
 ["parse_onnx, from_parsed, infer_all_shapes, quantize_model"])
prop("B15", "Inconsistent models are refused, not given made-up shapes",
 "Shape inference refuses a model in which an operator's inputs and parameters contradict each other: incompatible broadcasts, differing inner or joined dimensions, element counts that do not fit a reshape, axes out of range or repeated, windows larger than their padded input, parameter lists of the wrong length, split sizes that do not add up, negative sizes, zero steps. Such a model is never silently given a shape.",
 ["inputs"], "every supported operator, every kind of contradiction, any rank",
 "Tests provoke a few errors, one per rule at most.",
 [ON+"shape_inference.rs"],
 [("validation inside the shape rules", ON+"shape_inference.rs: infer_* checks and bails")],
 "fault seeding: one contradiction planted in a valid generated model, refusal required", "exploration",
 "The reference executor names the rule a planted operator breaks. Convolution channel counts and bias lengths are not validated by the library at all and are outside the property.",
 ["infer_all_shapes"])
