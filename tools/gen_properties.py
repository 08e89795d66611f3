"""Writes properties.jsonl (one source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text),
                  why_tests_cant=why,
                  anchors=dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=None)))
T13 = "The 13 stable tests touch only shape broadcasting and the shape rules of Pow and Where on a few fixed shapes; "

prop('C01', 'Operator evaluation agrees with the ONNX specification',
 "Whenever the tool evaluates an operator on concrete tensor values (to fold constants, to resolve shape computations, or on request), the resulting values, shapes and element types are those the ONNX operator specification prescribes for these inputs and attributes, up to floating-point rounding. This includes attribute defaults, negative axes, broadcasting, optional inputs, and the attribute form and the input form of an operator; an operator variant the tool does not implement is refused with an error, never computed wrongly.",
 ['inputs'], "every operator with value evaluation, every valid combination of input shapes, element types, values and attributes",
 T13 + "none compares computed values with the ONNX definition.",
 ['onnx_tool/node.py', 'onnx_tool/tensor.py', 'onnx_tool/graph.py'],
 [('value evaluation of each registered operator', 'onnx_tool/node.py'), ('graph value inference', 'onnx_tool/graph.py')],
 ['values of tensors after value inference'])
prop('C02', 'Operator shape and type inference agrees with ONNX',
 "For every supported operator, any valid attributes and any concrete input shapes, the inferred shape and element type of each output are exactly those the ONNX specification gives, i.e. those of the tensors that executing the operator produces. This includes padding modes, dilation, ceil mode, broadcasting, negative axes, optional inputs and attribute defaults.",
 ['inputs'], "every operator with shape inference, every valid attribute setting and input shape",
 T13 + "no convolution, pooling, resize, reduction, slice or reshape rule is executed by a test.",
 ['onnx_tool/node.py'], [('shape inference of each registered operator', 'onnx_tool/node.py')],
 ['tensor shapes and types after shape inference'])
prop('C03', 'Model shape inference equals the shapes seen in execution',
 "For any supported model and any concrete input shapes, shape inference assigns every tensor of the model exactly the shape and element type it has when the model is executed on inputs of these shapes. This holds also when shapes are themselves computed inside the model from the shapes of other tensors, when tensors have several consumers, and whatever shape annotations the file carried before.",
 ['programs', 'inputs'], "every model built from supported operators, every concrete choice of its dynamic dimensions",
 T13 + "no test infers a whole model offline.",
 ['onnx_tool/graph.py', 'onnx_tool/node.py'],
 [('shape inference over the graph', 'onnx_tool/graph.py'), ('choice of nodes evaluated by value', 'onnx_tool/graph.py')],
 ['tensor shapes after shape inference'])
prop('C04', 'Re-inference does not depend on earlier runs',
 "The shapes, MACs, memory and parameter figures obtained for given input shapes depend only on the model and these shapes. Inferring, profiling or reporting the same loaded model at other input shapes beforehand, in any order and any number of times, changes nothing, and neither does processing other models in the same process.",
 ['histories', 'programs'], "every sequence of inference and profiling runs at different input shapes on one loaded model",
 "Tests run each operator once on fresh tensors; no test re-infers a model.",
 ['onnx_tool/graph.py', 'onnx_tool/node.py', 'onnx_tool/tensor.py', 'onnx_tool/__init__.py'],
 [('tensor updates during inference', 'onnx_tool/tensor.py'), ('per-node cached attributes', 'onnx_tool/node.py')],
 ['tensor shapes and per-node profile after each run'])
prop('C05', 'Constant folding preserves what the model computes',
 "Loading a model with constant folding and saving it gives a valid model with the same graph inputs and outputs that computes the same outputs as the original for every input. Every node whose inputs are all constants (directly or through other such nodes; dequantization, control-flow and random-generator nodes and calls of model functions excepted) is gone from the saved model, and every node depending on a graph input is kept.",
 ['programs', 'inputs'], "every supported model mixing constant and dynamic computation, every input value",
 T13 + "constant folding is never run by a stable test.",
 ['onnx_tool/graph.py', 'onnx_tool/node.py', 'onnx_tool/__init__.py'],
 [('constant search and replacement', 'onnx_tool/graph.py'), ('value evaluation', 'onnx_tool/node.py')],
 ['saved model file'])
prop('C06', 'Load and save round trip preserves the model',
 "Loading a model (weights dense or sparse, inputs and outputs of any type, model functions) and saving it again without any editing produces a valid ONNX model with the same nodes (operator, name, inputs, outputs, attribute values), the same used graph inputs and the same graph outputs with their names, types and dimensions (symbolic ones included), the same weights, and the same IR and opset versions. Executed on the same inputs, original and saved model give identical outputs.",
 ['programs', 'inputs'], "every model of supported operators and attribute kinds, with static or symbolic dimensions",
 T13 + "no test saves a model.",
 ['onnx_tool/graph.py', 'onnx_tool/node.py', 'onnx_tool/tensor.py', 'onnx_tool/model.py'],
 [('graph construction from the file', 'onnx_tool/graph.py'), ('graph export', 'onnx_tool/graph.py'), ('node export', 'onnx_tool/node.py')],
 ['saved model file'])
prop('C07', 'Weight tensors are read and written exactly',
 "Every weight of any element type (numeric, boolean, string, bfloat16, 8 bit and sub-byte types included) and any shape (scalars and zero-size included), whether stored as raw bytes, in typed fields or in sparse form, is read as exactly the values it encodes, and comes back bit-identical, with the same type and shape, when the model is saved or the weight is exported to a numpy file. Exported numpy files hold exactly the requested weights, converted to half precision only for floating types and only when asked.",
 ['inputs'], "every element type, storage form, shape and value (NaN, infinities, extremes included)",
 "No stable test reads or writes a weight.",
 ['onnx_tool/tensor.py', 'onnx_tool/__init__.py'],
 [('tensor decoding', 'onnx_tool/tensor.py'), ('tensor encoding', 'onnx_tool/tensor.py'), ('numpy export', 'onnx_tool/__init__.py')],
 ['in-memory weights, saved model, .npy files'])
prop('C08', 'Shape-only and no-shape saves keep exactly what they promise',
 "After shape inference, a normal save records the inferred shape and type of every intermediate tensor; a save without shapes records none of them but is otherwise the same model; a shape-only save contains no weight data but all nodes, and records the shape and type of every weight and intermediate tensor. For a model whose shapes do not depend on weight values, loading a shape-only save and inferring again yields the same shapes and the same MACs as the original model.",
 ['programs', 'configurations'], "every supported model and every combination of save options",
 "No stable test saves a model.",
 ['onnx_tool/graph.py', 'onnx_tool/tensor.py', 'onnx_tool/model.py'],
 [('graph export with and without weights and shapes', 'onnx_tool/graph.py')], ['saved model file'])
prop('C09', 'Node reordering is a valid topological permutation',
 "Reordering the nodes of a model whose nodes are stored in any order (directly, or as model_profile does before it infers and profiles) yields the same set of nodes, unchanged, in an order where every tensor is produced before it is consumed. The saved result is a valid ONNX model that computes the same outputs.",
 ['programs', 'inputs'], "every acyclic graph, every stored permutation of its nodes, including absent optional inputs and outputs",
 "No stable test reorders a graph.",
 ['onnx_tool/graph.py', 'onnx_tool/__init__.py'], [('topological sort', 'onnx_tool/graph.py')], ['node order, saved model file'])
prop('C10', 'Compute-graph extraction keeps every computing node',
 "The compute graph extracted from a model drops only nodes that merely compute shapes (or produce nothing but inputs of such nodes): every other operator stays, in the same order, with the same inputs, outputs and attributes, and every graph output is still produced. Profiling it after shape inference gives each remaining node the figures it had in the full graph.",
 ['programs'], "every supported model with or without shape-computing subgraphs",
 "No stable test extracts a compute graph.",
 ['onnx_tool/graph.py'], [('compute graph extraction', 'onnx_tool/graph.py'), ('shape-subgraph marking', 'onnx_tool/graph.py')], ['nodes of the extracted graph'])
prop('C11', 'The shape engine predicts exactly the inferred shapes',
 "For a model whose tensor dimensions are each a fixed number, or a linear, halving (floor or ceil) or doubling chain function of one named input variable, the shape engine built from a variable range predicts for every value combination in that range exactly the shapes that direct inference at these values gives. It describes every tensor of the compute graph.",
 ['programs', 'inputs'], "every such model, every declared range wide enough to separate its dimensions, every value inside the range",
 "No stable test builds a shape engine.",
 ['onnx_tool/graph.py', 'onnx_tool/__init__.py'], [('range expressions', 'onnx_tool/graph.py'), ('shape regression', 'onnx_tool/graph.py')], ['predicted shapes versus inferred shapes'])
prop('C12', 'Memory compression never overlaps live tensors',
 "The memory plan gives every activation that needs storage (graph inputs, intermediates and outputs) an aligned block inside the reported total size that is at least as large as the tensor, and two tensors whose lifetimes overlap never share bytes. A graph output stays untouched until the end, a tensor stays untouched until its last consumer has run, and the total never exceeds the sum of all padded tensor sizes.",
 ['programs', 'inputs'], "every graph topology, tensor sizes and alignment value",
 "No stable test compresses memory; overlap depends on the interplay of lifetimes and sizes over the whole graph.",
 ['onnx_tool/graph.py'], [('lifetime analysis and best-fit allocation', 'onnx_tool/graph.py')], ['returned plan'])
prop('C13', 'Profile figures follow the documented cost model',
 "After shape inference, profiling assigns each operator the MACs of the documented cost model for its actual shapes and attributes (one MAC per multiply-add of convolutions and matrix products including groups, batches and bias; per-element cost for pointwise, pooling, normalization and reduction operators; none for data movement), the parameter count of its static inputs, and memory equal to output plus static bytes. Graph totals are the sums over all nodes, and the deduplicated parameter count counts each used weight once.",
 ['programs', 'inputs'], "every supported operator, attribute setting, shape and sharing of weights",
 "Profiling tests need model files that are not in the repository; MAC formulas are never executed offline.",
 ['onnx_tool/node.py', 'onnx_tool/graph.py', 'data/Profile.md'], [('per-operator MAC formulas', 'onnx_tool/node.py'), ('graph profile', 'onnx_tool/graph.py')], ['per-node and total figures'])
prop('C14', 'Profile reports show exactly the profiled figures',
 "The printed, text and CSV reports contain one row per non-excluded node, in graph order, with that node's type, MACs (or FLOPs, twice as many), memory, parameters and shapes, percentages that are the node's share of the totals, and a total row equal to the sums of the listed rows; weights read by several nodes are also counted once in a row of their own, and models with sparse weights show each node's share of zeros. Operators asked to be excluded are absent from rows and totals, and excluding operators in one call does not change the result of any later call.",
 ['programs', 'configurations', 'histories'], "every model, metric, output format, exclusion list and sequence of calls",
 "No stable test produces a report.",
 ['onnx_tool/graph.py', 'onnx_tool/utils.py', 'onnx_tool/__init__.py'], [('report construction', 'onnx_tool/graph.py'), ('table printing', 'onnx_tool/utils.py'), ('profile entry point', 'onnx_tool/__init__.py')], ['report file, stdout'])
prop('C15', 'Pattern search returns exactly the real matches',
 "Every group of nodes returned by a fusion-pattern search really matches the pattern: operator types, attribute conditions and each described tensor connection between the given ports hold in the graph. Every occurrence of a linear or branching pattern planted in a graph, and not overlapping another occurrence, is found, each exactly once, and no node is in two returned groups; this includes the patterns which come with the tool (convolution with normalization, residual, int8 attention, layer normalization).",
 ['programs'], "every graph and every connected pattern of operators, attribute conditions and port connections",
 "No stable test searches a pattern.",
 ['onnx_tool/fusion.py'], [('pattern search', 'onnx_tool/fusion.py'), ('attribute expressions', 'onnx_tool/fusion.py')], ['returned node groups'])
prop('C16', 'Subgraph fusion preserves the graph around it',
 "Fusing a convex set of nodes into one node leaves exactly one new node of the given type and name, whose inputs are the tensors (weights included) entering the set and whose outputs are the tensors leaving it; all fused nodes disappear and all other nodes are unchanged. Graph inputs and outputs stay the same, producer and consumer bookkeeping agrees with the nodes, and with attribute keeping on all attributes of the fused nodes are carried over.",
 ['programs'], "every graph and every convex node set in it",
 "No stable test fuses nodes.",
 ['onnx_tool/graph.py'], [('fusion by node names', 'onnx_tool/graph.py'), ('fusion between tensors', 'onnx_tool/graph.py')], ['graph after fusion, saved model'])
prop('C17', 'Conv and BatchNormalization fusion preserves results',
 "Fusing convolution and batch-normalization pairs leaves a model that computes the same outputs as before within rounding, with every batch normalization that directly follows a convolution nobody else reads removed. Pairs that cannot be fused safely are left as they were.",
 ['programs', 'inputs'], "every model containing convolutions with or without bias, groups, other consumers or shared weights, every parameter value",
 "No stable test runs the fusion or compares numerics.",
 ['onnx_tool/fusion.py'], [('conv-batchnorm fusion', 'onnx_tool/fusion.py')], ['outputs of the saved model'])
prop('C18', 'Post-operator fusion preserves dataflow and attributes',
 "Fusing an operator with the pointwise operators that follow it keeps the main operator's name, type and attributes, records each fused operator's type and attributes in execution order, and reads and writes exactly the tensors entering and leaving the fused chain. Everything else in the graph is unchanged.",
 ['programs'], "every graph and every fusible chain in it, including repeated fusion onto the same node",
 "No stable test fuses operators.",
 ['onnx_tool/graph.py', 'onnx_tool/fusion.py'], [('post-op fusion', 'onnx_tool/graph.py'), ('removal of shape-only nodes and predefined fusions', 'onnx_tool/fusion.py')], ['graph after fusion'])
prop('C19', 'Graph editing keeps the graph consistent',
 "After any sequence of adding weights or tensors, removing nodes or subtrees, skipping nodes and removing dangling nodes, producer and consumer records agree with the nodes' actual inputs and outputs, no unrelated node has changed, and a skipped node's consumers read its data input instead. Removing dangling nodes leaves exactly the nodes from which some graph output can be reached.",
 ['histories', 'programs'], "every sequence of edit operations on every graph",
 "No stable test edits a graph.",
 ['onnx_tool/graph.py'], [('node removal', 'onnx_tool/graph.py'), ('node skipping', 'onnx_tool/graph.py'), ('dangling-node removal', 'onnx_tool/graph.py')], ['nodes and tensor relations'])
prop('C20', 'Extracted subgraphs are complete and compose to the original',
 "A subgraph extracted by node names is a valid model with exactly these nodes and the weights they use, whose inputs are the tensors entering it and whose outputs are the tensors leaving it; run on the tensor values of the original run it reproduces the original output values. Splitting a model between given tensors yields three parts that contain every node exactly once and, run in level order on each other's tensors, reproduce the original outputs.",
 ['programs', 'inputs'], "every model and every choice of node set or cut tensors",
 "No stable test extracts a subgraph.",
 ['onnx_tool/graph.py', 'onnx_tool/__init__.py'], [('subgraph extraction', 'onnx_tool/graph.py')], ['saved subgraph models'])
prop('C21', 'Weight quantization stays within half a step',
 "Quantizing a weight (4 or 8 bits, symmetric or asymmetric, any block size) yields integers inside the format's range and scales and zero points such that every dequantized value differs from the original by at most half a quantization step (plus rounding), zero weights included. Packing 4-bit values loses nothing, and quantizing all weights of a graph replaces each eligible weight so that the resulting graph dequantizes to it, leaving others untouched.",
 ['inputs', 'programs'], "every weight array (zero rows, outliers, shared weights), bit width, symmetry, block size",
 "No stable test quantizes anything.",
 ['onnx_tool/quantization.py'], [('tensor quantization', 'onnx_tool/quantization.py'), ('4-bit packing', 'onnx_tool/quantization.py'), ('graph rewrite', 'onnx_tool/quantization.py')], ['quantized arrays, rewritten graph'])
prop('C22', 'Serialized graphs and shape engines decode to the original',
 "The binary compute-graph, shape-engine and memory-plan files decode, by the tag layout of the serializer, to exactly the graph (nodes, attributes, tensor connections, types, shapes and weight bytes), the engine (variables, tensor descriptions and expressions) and the plan (total, blocks and maximal dimensions) that were serialized. Nothing is dropped, reordered or altered; a value the layout cannot represent is refused with an error.",
 ['programs', 'inputs'], "every graph with supported attribute types and weights, every shape engine",
 "No stable test serializes anything.",
 ['onnx_tool/serialization.py'], [('binary writer', 'onnx_tool/serialization.py')], ['serialized files'])
prop('C23', 'Renaming input and output dimensions changes only these',
 "Modifying graph inputs and outputs with a dimension specification sets exactly the specified dimensions (numbers as fixed sizes, names as symbolic sizes) on exactly the named tensors. All other dimensions, nodes and weights of the saved model are unchanged, and it computes the same outputs.",
 ['programs', 'configurations'], "every model and every dimension specification",
 "No stable test modifies model inputs.",
 ['onnx_tool/__init__.py'], [('input and output modification', 'onnx_tool/__init__.py')], ['saved model file'])
prop('C24', 'The command line does what the API does',
 "Each command-line mode (profile, constant folding, io modify, tensor export) with its options (excluded operators, report file, output file, half precision, tensor names, dynamic shapes given as strings) produces the same files and the same printed table as the corresponding API call with the same meaning. An input description name:type:shape[:values] of any supported element type, shape or literal value is understood exactly, also for a name containing a colon, and one that cannot be understood is rejected.",
 ['inputs', 'configurations'], "every mode and every valid argument string",
 "No stable test invokes the command line.",
 ['onnx_tool/__main__.py'], [('argument parsing and dispatch', 'onnx_tool/__main__.py')], ['written files'])
prop('C25', 'LLM builder counts equal the architecture closed form',
 "For any supported language-model configuration, batch and sequence length, the built graph has exactly the parameters, KV-cache size and MACs that the architecture's closed form gives, its shapes are consistent for every input length, the parts a fused projection is split into are disjoint and cover it, and the published figures for the predefined models are reproduced. Adding the KV cache or changing past length affects only attention cost and cache size.",
 ['configurations', 'inputs'], "every configuration of the supported architectures, every batch, sequence and past length",
 "No stable test builds an LLM.",
 ['onnx_tool/llm.py', 'onnx_tool/model_configs.py', 'onnx_tool/node.py'], [('LLM graph builder', 'onnx_tool/llm.py')], ['builder totals'])
prop('C26', 'LLM latency estimates follow the roofline model',
 "For any device, precision settings and built model, each layer's estimated latency is the larger of its compute time and its memory time, totals are the sums over layers, and memory totals are weights plus KV cache plus activations at the configured bit widths. More bandwidth or compute never increases an estimate and more tokens never decrease it.",
 ['configurations', 'inputs'], "every device description, precision setting, model configuration and token count",
 "No stable test profiles an LLM.",
 ['onnx_tool/llm.py', 'onnx_tool/device.py'], [('LLM profile', 'onnx_tool/llm.py')], ['builder profile results'])
prop('C27', 'Building one LLM does not affect another',
 "The result of building and profiling a language model depends only on its configuration: building any other models before, after or in between, in any order, changes neither its graph nor its figures, and user-supplied configurations are left unmodified.",
 ['histories', 'configurations'], "every sequence of builds with different configurations in one process",
 "No stable test builds an LLM, let alone two.",
 ['onnx_tool/llm.py'], [('architecture table and builder state', 'onnx_tool/llm.py')], ['builder totals in sequence'])
prop('C28', 'Sparsity detection reports the true sparsity',
 "For a weight large enough to be analysed, the reported zero ratio is exactly the share of zero elements, and the reported block shape and block ratio are achieved by the weight: that share of blocks of that shape is entirely zero and it is within the allowed loss of the element ratio. Small, dense or unsupported weights are reported as not sparse.",
 ['inputs'], "every two- and four-dimensional weight, block pattern and ratio",
 "No stable test analyses sparsity.",
 ['onnx_tool/tensor.py', 'onnx_tool/graph.py'], [('sparsity search', 'onnx_tool/tensor.py')], ['tensor sparsity record, report columns'])
prop('C29', 'Fixing a branch or a top-k keeps the remaining semantics',
 "Loading a model with a fixed If branch gives a model that computes what the original computes whenever the condition selects that branch, with no conditional node left outside loop bodies. Fixing k makes every top-k node of the graph (outside conditional bodies) use exactly that k, and nothing else changes.",
 ['programs', 'inputs'], "every model with conditional or top-k nodes, both branches, every k",
 "No stable test uses these options.",
 ['onnx_tool/graph.py', 'onnx_tool/utils.py'], [('branch fixing', 'onnx_tool/graph.py'), ('top-k fixing', 'onnx_tool/graph.py')], ['graph after loading, saved model'])
prop('C30', 'Unsupported or invalid requests are reported, never absorbed',
 "Inferring a model with unresolved, missing or invalid input dimensions raises an error naming the tensor. Operand shapes that the ONNX specification forbids for broadcasting element-wise operators, matrix products and convolutions raise an error naming the node, and never a later one. Profiling without a successful inference, or reporting without a successful profile, only warns and shows no stale figures. An operator without a registered handler is reported by a warning naming it when the model is loaded and by an error naming the node when its shape would be inferred, while the other operations still work. A handler registered by the user is used for its operator and leaves all other nodes' figures unaffected.",
 ['inputs', 'programs', 'fault_sequences'], "every kind of invalid dimension, incompatible operands and unknown or user-registered operator",
 "Stable tests check rejection only for a few broadcast shapes.",
 ['onnx_tool/graph.py', 'onnx_tool/node.py', 'onnx_tool/utils.py'], [('input checks', 'onnx_tool/graph.py'), ('node creation', 'onnx_tool/node.py'), ('node registry', 'onnx_tool/utils.py')], ['exceptions, warnings, figures of other nodes'])
prop('C31', 'Extra output tensors show the values of the model',
 "Requesting tensors as additional outputs appends every existing one that is not yet an output, once and in order of request, keeps the original outputs and ignores unknown names. The saved model is otherwise unchanged and computes for each requested tensor the value it has inside the original. Removing dangling nodes, the compute graph, the memory plan and value inference respect these outputs, and all figures stay.",
 ['programs', 'histories'], "every model, every sequence of requested tensors, before or after inference and reordering",
 "No stable test adds output tensors.",
 ['onnx_tool/graph.py'], [('extra outputs', 'onnx_tool/graph.py')], ['graph outputs, saved model, memory plan, compute graph'])
prop('C32', 'Reading calls leave the model and their arguments unmodified',
 "Functions that only read a loaded model (reporting, memory planning, pattern search, extracting subgraphs or the compute graph, serializing, exporting, saving in any form, inferring and profiling again at the same input) leave its nodes, attributes, connections, weights, shapes and figures and what it saves as they were. No function changes the model object, source file, arrays, lists or dictionaries the caller passes to it.",
 ['histories', 'programs'], "every model, every sequence of calls and every form of their arguments",
 "No stable test looks at arguments or at the graph after a call.",
 ['onnx_tool/graph.py', 'onnx_tool/__init__.py', 'onnx_tool/node.py', 'onnx_tool/fusion.py'], [('graph state', 'onnx_tool/graph.py'), ('convenience functions', 'onnx_tool/__init__.py')], ['graph state, saved file and arguments before and after'])
prop('C33', 'The inference engine computes what the model computes',
 "For every float model of registered operators with declared dynamic dimensions, each forward call of the inference engine, at any sizes within the declared ranges and after any earlier calls, returns exactly the outputs of the model, with the values and shapes that the ONNX specification gives for the inputs of that call (up to float rounding), and leaves the inputs unmodified: sharing one memory pool never lets one tensor, call or size disturb another. A call beyond the declared ranges is refused or right and does not affect later calls. A pool planned for a model and its ranges serves every tensor at every size. A view of the memory pool covers exactly the planned bytes of its tensor, and layouts outside the pool, unknown tensors and shapes larger than planned are refused. The fused attention, rotary and normalization kernels give the same result for prefill and cached decoding steps as one pass over the sequence, and write only the current positions and layer of the cache.",
 ['programs', 'inputs', 'histories'], "every model of registered operators, every sequence of calls at sizes within the declared ranges, every pool layout",
 "The tests of the engine need torch, a GPU and downloaded models; no stable test runs it.",
 ['inference/infer.py', 'inference/kernels.py', 'inference/memory_pool.py'], [('engine', 'inference/infer.py'), ('operator kernels', 'inference/kernels.py'), ('memory pool', 'inference/memory_pool.py')], ['outputs of forward, pool bytes, kernel results, cache'])
prop('C34', 'Language model inference equals the transformer',
 "For every supported decoder configuration exported by the LLM builder with a KV cache, the language model inference computes the logits of the transformer which the configuration and weights define, whichever way the tokens are fed: in one pass, in chunks, one token at a time through the cache, after a restart or after going back to an earlier position, for one or several sequences. Weights come from the model or from a checkpoint by the same name or by the name map, tied embeddings share theirs, and a bias the checkpoint does not have counts as zero. Greedy generation returns the prompt and then the most probable token each time, until the end token or max_length tokens including the prompt; sampling draws from the softmax of the logits divided by the temperature over the top_k most probable tokens; repeated generations do not influence each other.",
 ['programs', 'inputs', 'histories'], "every supported configuration, weights, every way of feeding the tokens, every prompt and sampling setting",
 "The language model inference needs torch, transformers and a downloaded checkpoint; no stable test runs it.",
 ['inference/llm_infer.py', 'inference/infer.py', 'inference/kernels.py', 'onnx_tool/llm.py'], [('language model engine', 'inference/llm_infer.py'), ('engine', 'inference/infer.py'), ('attention, rotary and normalization kernels', 'inference/kernels.py'), ('builder', 'onnx_tool/llm.py')], ['logits of each call, generated tokens, sampling distributions'])
prop('C35', 'Detection evaluation computes the average precision of the detections',
 "Post-processing keeps, of the detector's rows above the confidence threshold, clipped to the image and not empty, exactly those which per-class non-maximum suppression by falling confidence keeps, at most max_det of the most confident, and does not change its input. The metrics are those of a direct computation: per IoU threshold and category with annotations, detections by falling score each match the best free annotation of the same image and category, and AP is the 101-point interpolated precision; the mean over categories, and over thresholds. Evaluating a model over an annotated image set gives the metrics of its detections mapped back to each image's own size and position, with the categories of the model in the order of the category ids, each image compared with its own annotations (found by file name in a directory) and only the evaluated images counted, and the detections of a directory are those boxes, also without annotations; so does the exported curve at each score threshold. The reported times agree with each other.",
 ['programs', 'inputs'], "every set of detector rows, thresholds, annotations, image sizes and limits",
 "The evaluation needs torch, images and a downloaded detector; no stable test runs it.",
 ['inference/yolo_eval.py', 'inference/infer.py'], [('post-processing, metrics and evaluation', 'inference/yolo_eval.py'), ('engine', 'inference/infer.py')], ['kept detections, AP per threshold, means, curve points'])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
