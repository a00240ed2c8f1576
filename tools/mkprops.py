"""Writes /verif/properties.jsonl (kept as code so that the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, state, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe)))
C="continual/"
prop("C01","Continual convolution computes the offline convolution, one step at a time",
 "Feeding a 1D/2D/3D continual convolution one step at a time yields, in order, exactly the outputs of the regular convolution over the whole sequence: nothing for the first (kernel - 1 - padding) steps, then one output every `stride` steps, each equal to the corresponding offline output position. This holds after any number of steps, and the whole-sequence mode equals the torch.nn convolution with the same weights.",
 ["inputs","histories","configurations"],
 "all weights, inputs and stream lengths; all kernel sizes, temporal strides, temporal paddings up to kernel-1, spatial hyper-parameters, groups, bias, padding modes with the matching temporal fill; train and eval mode",
 "The tests sample a few kernel/stride combinations over short clips; ring-buffer rotation, stride phase and start padding must be right for every kernel size, stride, padding and arbitrarily late step.",
 [C+"conv.py",C+"module.py"],
 [("state_buffer","k-1 partial convolutions of the latest k-1 inputs, oldest at state_index",C+"conv.py:_ConvCoNd"),
  ("state_index","ring position of the oldest partial result",C+"conv.py:_forward_step_py"),
  ("stride_index","steps until/within the stride period (negative while warming up)",C+"conv.py:init_state")],
 [("aggregation of stored partial convolutions with arange/remainder indexing",C+"conv.py:_forward_step_py"),
  ("stride bookkeeping",C+"conv.py:_forward_step_py"),("initial state",C+"conv.py:init_state"),("offline mode",C+"conv.py:forward")],
 ["forward_step","forward_steps","forward"])
prop("C02","Continual pooling computes the offline pooling, one step at a time",
 "Feeding a continual average or max pooling module one step at a time yields, in order, exactly the outputs of the regular pooling over the whole sequence, starting after (dilation*(kernel-1) - padding) steps and then once every `stride` steps. With temporal dilation, each output pools the frames spaced by the dilation ending at the newest frame; adaptive pooling steps pool the latest `kernel` frames.",
 ["inputs","histories","configurations"],
 "all inputs and stream lengths; all temporal kernel sizes, strides, dilations, paddings; 1D/2D/3D and adaptive variants; default temporal fill (padding with zeros for average and minus infinity for max)",
 "Tests cover a handful of kernels over short clips; the ring index, the dilated frame selection and the stride phase must be right for all sizes and arbitrarily many wrap-arounds.",
 [C+"pooling.py",C+"module.py"],
 [("state_buffer","the latest pooled frames",C+"pooling.py:_PoolNd"),("state_index","ring write position",C+"pooling.py:_forward_step"),("stride_index","stride phase",C+"pooling.py:init_state")],
 [("ring buffer and dilated selection",C+"pooling.py:_PoolNd._forward_step"),("temporal reduction with reshape",C+"pooling.py:pooling_with_*d_reshape"),("initial state",C+"pooling.py:init_state")],
 ["forward_step","forward_steps","forward"])
prop("C03","Delay, skip and selection modules are exact time shifts",
 "A delay of d emits nothing for d steps and from then on emits, at every step, exactly the input seen d steps earlier; a shrinking delay additionally withholds the outputs that its whole-sequence mode cuts off, and a skip of d drops exactly the first d steps. Emitted values are never altered by later inputs and do not depend on what the caller writes into its tensors after a call, and the retroactive variant emits the latest d+1 inputs in chronological order.",
 ["inputs","histories","configurations"],
 "all delays >= 0, stream lengths, inputs, tensor ranks, shrink modes and fills",
 "Tests use one or two delays for a few steps; the ring index must be right for every delay after every number of wrap-arounds, with outputs that do not alias the internal buffer.",
 [C+"delay.py",C+"skip.py",C+"transformer.py"],
 [("state_buffer","ring of the latest inputs",C+"delay.py"),("state_index","next position; negative while warming up",C+"delay.py:_forward_step")],
 [("ring buffer",C+"delay.py:Delay._forward_step"),("shrink",C+"delay.py:Delay.forward"),("skip counter",C+"skip.py:_forward_step"),("retroactive roll",C+"transformer.py:RetroactiveUnity._forward_step"),("SelectOrDelay",C+"transformer.py:SelectOrDelay.forward")],
 ["forward_step","forward_steps","forward"])
prop("C04","Multi-step processing equals single steps, under any chunking",
 "Processing a stream in chunks of any sizes with the multi-step mode produces the same outputs, in the same order, and leaves the same subsequent behaviour as processing it step by step, where chunks that yield no output return nothing. With end padding requested, the outputs over a whole sequence are exactly those of the whole-sequence mode, and the end padding does not leak into the subsequent behaviour of the module.",
 ["inputs","histories","configurations"],
 "all stateful modules and sequential nests of them, all ways to split a stream into chunks and single steps, any history before the chunk (for the no-leak part: single modules rather than containers)",
 "The number of splits is exponential in the stream length and each interacts with stride phase and ring position; tests use one or two fixed splits.",
 [C+"module.py",C+"conv.py",C+"delay.py",C+"container.py"],
 [("state","state tuple threaded through the step loop",C+"module.py:_forward_steps_impl")],
 [("step loop and end padding",C+"module.py:_forward_steps_impl"),("chained multi-step",C+"container.py:Sequential.forward_steps")],
 ["forward_steps","forward_step","forward"])
prop("C05","Calls that must not update state leave no trace",
 "A step or multi-step call with state updates disabled returns exactly what the updating call would have returned and leaves the module's subsequent behaviour exactly as if the call had not been made. This holds on fresh modules as well as at any point of a stream, for end-padded calls, and inside containers.",
 ["inputs","histories","configurations"],
 "all modules and containers, any history, any placement and number of non-updating calls",
 "State buffers are mutated in place, so a shallow copy or a missed buffer only shows after particular sequences of calls; tests make one such call in one position.",
 [C+"module.py",C+"conv.py",C+"pooling.py",C+"delay.py",C+"rnn.py",C+"container.py",C+"positional_encoding.py",C+"multihead_attention/mha_base.py"],
 [("module state","buffers and indices that must be unchanged",C+"module.py:get_state")],
 [("clone of the mutable buffer",C+"module.py:_clone_first"),("backup and restore",C+"multihead_attention/mha_base.py:forward_step"),("propagation of update_state",C+"container.py")],
 ["forward_step","forward_steps"])
prop("C06","State lifecycle: clean, save, restore, and offline runs do not disturb",
 "After cleaning its state a module (or container) behaves exactly like a freshly built one, also for a new batch size or spatial size. A state snapshot taken at any point and set later makes the module continue as it did from that point, threading states explicitly through the functional step gives the same results as the stateful step, and whole-sequence calls neither read nor change the streaming state, which is never part of the saved parameters.",
 ["inputs","histories","configurations"],
 "all stateful modules, any history before cleaning / saving / restoring / offline calls",
 "Each part quantifies over arbitrary histories; a forgotten buffer or index shows only for histories ending at particular phases.",
 [C+"module.py",C+"conv.py",C+"pooling.py",C+"delay.py",C+"skip.py",C+"rnn.py",C+"container.py",C+"positional_encoding.py",C+"multihead_attention/retroactive_mha.py",C+"multihead_attention/single_output_mha.py"],
 [("state buffers","non-persistent buffers of each module",C+"*.py")],
 [("clean_state","each module"),("get_state / set_state","each module"),("functional step","each module: _forward_step")],
 ["clean_state","get_state","set_state","_forward_step","state_dict"])
prop("C07","A sequential network streams exactly like its offline counterpart",
 "For any sequential network of continual and automatically wrapped modules, streaming step by step yields, in order, the whole-sequence outputs of the network (up to those that depend on end padding), the m-th output appearing at step (delay + m * total stride). Whole-sequence mode equals composing the parts' whole-sequence modes, and stages after a stage that emitted nothing are not advanced.",
 ["inputs","programs","histories"],
 "all sequential compositions (incl. nesting, named modules, appended modules, strided and padded parts, recurrent and automatically wrapped modules), all inputs and lengths, eval mode",
 "Compositions are unbounded and strides/delays interact; tests use a few two- to four-layer stacks.",
 [C+"container.py",C+"convert.py"],
 [("children states","each child's own state",C+"container.py:Sequential")],
 [("chaining and early return",C+"container.py:Sequential.forward_step"),("chaining",C+"container.py:Sequential.forward"),("functional chaining",C+"container.py:Sequential._forward_step")],
 ["forward","forward_step","forward_steps"])
prop("C08","Parallel branches are aligned in time before they are combined",
 "A broadcast-reduce, parallel or residual network with branches of differing delay yields, step by step, the reduction of its branches' whole-sequence outputs aligned on the same time step, and yields nothing until every branch has an output. Branch order, branch count and the reduction (sum, concatenation, product, maximum or a custom one) are respected in all modes, and shrinking residuals align with the module they wrap.",
 ["inputs","programs","histories"],
 "all branch combinations with temporal stride 1 and equal amount of temporal shrinkage, all inputs and lengths, nested parallel and sequential branches",
 "Automatic delay insertion must be right for every mix of delays; tests sample few mixes.",
 [C+"container.py",C+"delay.py",C+"skip.py"],
 [("_delay","largest branch delay",C+"container.py:BroadcastReduce")],
 [("automatic delay",C+"container.py:BroadcastReduce.__init__"),("automatic delay",C+"container.py:Parallel.__init__"),("reduce functions",C+"container.py:reduce_*"),("residual",C+"container.py:Residual")],
 ["forward","forward_step","forward_steps"])
prop("C09","Stream routing sends every stream exactly where it was told",
 "Broadcasting hands the same input to every stream, dispatching reorders, copies and groups streams exactly as the mapping says, parallel modules process stream i with module i, and reducing combines all streams in order. The same routing is used in whole-sequence, multi-step, single-step and functional step mode.",
 ["inputs","programs"],
 "all numbers of streams, all (nested) dispatch mappings, all reductions",
 "Mappings are unbounded nested structures; tests use three fixed mappings.",
 [C+"container.py"],
 [],
 [("dispatch recursion",C+"container.py:ParallelDispatch.forward"),("broadcast",C+"container.py:Broadcast"),("reduce",C+"container.py:Reduce"),("stream count inference",C+"container.py:Sequential.__init__")],
 ["forward","forward_step","forward_steps","_forward_step"])
prop("C10","Advertised delay, receptive field, stride and padding are true",
 "A module's or network's advertised delay is the number of steps before its first output, its stride is the period of outputs after that, and its receptive field tells how far back an output can look: inputs older than the latest `receptive field` ones never influence it, while one exactly that old can. Advertised padding is consistent with delay = receptive field - 1 - padding for sequential networks, and warming up consumes exactly `delay` steps so that the next step produces an output.",
 ["programs","configurations"],
 "all convolution, pooling and delay hyper-parameters, all sequential compositions, parallel compositions of stride 1, conditional modules; plain networks whose branches have equal shrinkage",
 "The composition formulas quantify over all networks; tests check a few numbers.",
 [C+"module.py",C+"container.py",C+"conv.py",C+"pooling.py",C+"delay.py"],
 [],
 [("recurrence over layers",C+"container.py:Sequential.receptive_field"),("Sequential.stride, Sequential.padding",C+"container.py"),("delay",C+"module.py:CoModule.delay"),("warm_up",C+"module.py")],
 ["delay","receptive_field","stride","padding","warm_up"])
prop("C11","A conditional module behaves exactly as the branch its predicate selects",
 "In every mode, including the functional step, a conditional module evaluates its predicate on the module and the input and then returns what the selected branch (or the input itself if there is none) returns, delayed to the slower branch's delay. Cleaning its state cleans both branches, and calls do not disturb the branch that was not selected.",
 ["inputs","programs","histories"],
 "all branch modules of stride 1, predicates constant over a stream, all inputs, update_state and pad_end settings",
 "Both branches keep their own state over arbitrary histories; tests run one history per mode.",
 [C+"container.py"],
 [("branch states","state of module 0 and 1",C+"container.py:Conditional")],
 [("selection",C+"container.py:Conditional.forward*"),("delay matching",C+"container.py:Conditional.__init__")],
 ["forward","forward_step","forward_steps","_forward_step","clean_state"])
prop("C12","Streaming RNN, GRU and LSTM equal the offline recurrence",
 "Single-step and multi-step outputs of the recurrent modules equal, position by position, the outputs of the torch.nn recurrent module over the whole sequence (with channel and time axes exchanged), starting from a zero or explicitly set hidden state. The hidden state after any history equals the offline final hidden state.",
 ["inputs","histories","configurations"],
 "all layer counts, sizes, nonlinearities, bias settings, batch sizes, initial states, stream lengths and chunkings",
 "Hidden state carries over arbitrary histories; tests use one length and one split.",
 [C+"rnn.py"],
 [("_hidden_state","hidden state of the last step",C+"rnn.py:RNN"),("_cell_state","cell state of LSTM",C+"rnn.py:LSTM")],
 [("swap of axes and threading of state",C+"rnn.py:forward, _forward_step, forward_steps")],
 ["forward","forward_step","forward_steps","get_state","set_state"])
prop("C13","Retroactive attention equals offline attention over the latest tokens",
 "Once a retroactive multi-head attention module of window length n has seen n tokens, every step returns exactly the attention outputs that offline attention computes over the latest n tokens, for all n positions, and before that it returns nothing. This holds after arbitrarily many steps, with separate query, key and value inputs, and in every batch/embedding layout.",
 ["inputs","histories","configurations"],
 "all window lengths >= 1, head counts, embedding sizes, biases, layouts, weights (moderate logits) and stream lengths, in exact arithmetic",
 "The normaliser and value sums are updated incrementally, so an error can cancel or accumulate only for certain windows or after eviction; tests run one short stream.",
 [C+"multihead_attention/retroactive_mha.py",C+"multihead_attention/mha_base.py"],
 [("d_mem","softmax denominators of the kept queries",C+"multihead_attention/retroactive_mha.py"),("AV_mem","unnormalised outputs of the kept queries",C+"multihead_attention/retroactive_mha.py"),("Q_mem, K_T_mem, V_mem","window of projections",C+"multihead_attention/retroactive_mha.py"),("stride_index","tokens still missing",C+"multihead_attention/mha_base.py")],
 [("incremental update",C+"multihead_attention/retroactive_mha.py:_scaled_dot_product_attention_step"),("projection, heads, output",C+"multihead_attention/mha_base.py:multi_head_attention_forward_step"),("layout",C+"multihead_attention/retroactive_mha.py:forward_step")],
 ["forward","forward_step","forward_steps","_forward_step"])
prop("C14","Single-output attention equals the chosen row of offline attention",
 "Once a single-output multi-head attention module of window length n has seen n tokens, every step returns exactly the row for the configured query position of offline attention over the latest n tokens; before that it returns nothing. In whole-sequence mode it returns that row only, or all rows if so configured, in every batch/embedding layout.",
 ["inputs","histories","configurations"],
 "all window lengths >= 1, query positions (negative and non-negative), head counts, embedding sizes, biases, layouts, weights and stream lengths, in exact arithmetic",
 "Query delay line, key/value window and head reshaping must agree for every query position and eviction; tests use the last position in one layout.",
 [C+"multihead_attention/single_output_mha.py",C+"multihead_attention/mha_base.py"],
 [("Q_mem","queries waiting for later keys",C+"multihead_attention/single_output_mha.py"),("K_T_mem, V_mem","window of keys and values",C+"multihead_attention/single_output_mha.py"),("stride_index","tokens still missing",C+"multihead_attention/mha_base.py")],
 [("step",C+"multihead_attention/single_output_mha.py:_scaled_dot_product_attention_step"),("query selection",C+"multihead_attention/single_output_mha.py:forward"),("default state",C+"multihead_attention/single_output_mha.py:_scaled_dot_product_attention_default_state")],
 ["forward","forward_step","forward_steps","_forward_step"])
prop("C15","Recycling positional encoding advances one position per step, modulo its size",
 "The encoding added to the i-th streamed step is embedding number (start + i) modulo the number of embeddings, identically for single steps, multi-steps and the whole-sequence mode started from the same position. Streaming advances the position by the number of steps consumed, whole-sequence calls advance it by the configured amount, non-updating calls leave it, and cleaning resets it to zero.",
 ["inputs","histories","configurations"],
 "all embedding counts and sizes (static ones from two dimensions on), learned or static, all interleavings of the call modes",
 "The start position depends on the whole call history, modulo wrap-around; tests make a few calls from position zero.",
 [C+"positional_encoding.py"],
 [("state_index","position of the next step",C+"positional_encoding.py")],
 [("index arithmetic",C+"positional_encoding.py:RecyclingPositionalEncoding")],
 ["forward","forward_step","forward_steps","_forward_step"])
prop("C16","Streaming transformer encoders equal offline encoders over the window",
 "Once the window of n tokens is filled, a single-output encoder layer's step equals the configured position (by default the last) of the offline encoder layer over the latest n tokens, a retroactive layer's step equals all n positions, and a one- or two-layer encoder's step equals the last position of the offline encoder; before that nothing is returned. Encoders converted from torch.nn compute the same function as the original, with the same activation and normalisation.",
 ["inputs","histories","configurations"],
 "all sizes, head counts, window lengths, relu/gelu activations, stream lengths and chunkings; eval mode; one or two layers",
 "Residual, attention window and warm-up alignment must agree at every step and for every window length; tests run one stream per layer type.",
 [C+"transformer.py",C+"multihead_attention/mha_base.py"],
 [("states of attention and residual","see C03, C13, C14",C+"transformer.py")],
 [("layer assembly",C+"transformer.py:SingleOutputTransformerEncoderLayer"),("layer assembly",C+"transformer.py:RetroactiveTransformerEncoderLayer"),("retroactive wrapper",C+"transformer.py:RetroactiveLambda"),("weight transfer",C+"transformer.py:TransformerEncoder.build_from"),("encoder assembly",C+"transformer.py:TransformerEncoder.__init__")],
 ["forward","forward_step","forward_steps","build_from"])
prop("C17","Call modes select the intended computation and are always restored",
 "Calling a module performs the computation of its own call mode, or of the innermost active call-mode context, whether given by name or number; containers hand their mode to their parts. Leaving a context or a temporary override restores exactly what was active before, also when nested, when an exception is raised, and after copying or pickling modules.",
 ["programs","histories","fault_sequences"],
 "all nestings of contexts, all mode settings, all exit paths including exceptions; containers of continual modules",
 "Nesting depth and exit paths are unbounded; tests use a single context level without exceptions.",
 [C+"module.py",C+"utils.py",C+"container.py",C+"convert.py"],
 [("cur, prev","active context mode",C+"module.py:_CallModeContext"),("_call_mode","module's own mode",C+"module.py:CoModule")],
 [("dispatch",C+"module.py:_call_impl"),("context manager",C+"module.py:_CallModeContext"),("temporary override",C+"utils.py:temporary_parameter"),("wrapped modules",C+"convert.py:forward_with_callmode")],
 ["__call__","call_mode"])
prop("C18","Conversion keeps parameters, hyper-parameters and results",
 "Converting a regular module yields a continual module whose whole-sequence results equal the original's, with every hyper-parameter and parameter value carried over and parameters copied rather than shared for rebuilt modules; nested sequential modules keep names and order. Modules that act on each time step alone are wrapped in place, keep their results in every mode, and unsupported modules or options are refused instead of silently changed.",
 ["programs","configurations","inputs"],
 "all registered module types with all their options, nested sequential networks, all weights and inputs",
 "The cross product of module types and options is large; tests convert one configuration per type.",
 [C+"convert.py",C+"conv.py",C+"pooling.py",C+"linear.py",C+"rnn.py",C+"container.py",C+"transformer.py",C+"multihead_attention/mha_base.py"],
 [],
 [("registry",C+"convert.py:continual"),("naive wrapping",C+"convert.py:forward_stepping"),("build_from","each module")],
 ["continual","build_from","forward_stepping","forward"])
prop("C19","State dictionaries round-trip, flattened or not",
 "Saving a container's parameters and loading them into an identically structured container makes both compute the same results, with flattening on or off, by argument or context. Flattening removes exactly the unnamed (numeric) path parts, is skipped rather than losing entries when it would be ambiguous, and is off again after its context, also after an exception.",
 ["programs","configurations"],
 "all nestings of named and unnamed containers, all parameter values",
 "Key collisions depend on the nesting; tests use one nesting.",
 [C+"utils.py",C+"container.py"],
 [("flatten","whether the context is active",C+"utils.py:_FlatStateDict")],
 [("key flattening",C+"utils.py:state_dict"),("key expansion",C+"utils.py:load_state_dict"),("mixin",C+"container.py:FlattenableStateDict")],
 ["state_dict","load_state_dict","flat_state_dict"])
prop("C20","The export wrapper threads every state tensor in the right place",
 "The wrapper used for ONNX export, fed with a step and the flat list of state tensors, returns the step output followed by every new state tensor in the advertised order, number and with batch-dynamic axes marked only for tensors carrying the batch, so that feeding the outputs back reproduces the stateful stream. Flat lists and nested state shapes map onto each other without loss or reordering.",
 ["programs","histories","inputs"],
 "all (nested) modules that declare a state shape, all step inputs, initialised states",
 "State structures nest arbitrarily; tests export three fixed models.",
 [C+"onnx.py",C+"utils.py",C+"container.py",C+"module.py"],
 [("_state_shape","number of state tensors, nested",C+"*.py"),("_dynamic_state_inds","which have a batch axis",C+"*.py")],
 [("nesting",C+"onnx.py:_shape_list"),("flattening",C+"utils.py:flatten"),("wrapper",C+"onnx.py:OnnxWrapper")],
 ["OnnxWrapper.forward","state_input_names","state_output_names","state_dynamic_axes"])
prop("C21","Stateless modules act on each time step alone",
 "Linear, lambda, add, multiply, constant, identity and reshape modules apply the same function to each time step in whole-sequence, multi-step, single-step and functional mode: the t-th slice of the sequence result equals the step result for the t-th input. Mode-specific functions of a lambda are used in exactly their mode, and the modules keep no state and no delay.",
 ["inputs","configurations"],
 "all shapes, weights, channel dimensions, functions acting on one step, sequence lengths",
 "Per-step equality must hold for every position and layout; tests use one shape.",
 [C+"linear.py",C+"closure.py",C+"shape.py"],
 [],
 [("per-step application",C+"closure.py:Lambda.forward"),("axis swap",C+"linear.py:Linear.forward"),("axis move",C+"shape.py:Reshape.forward")],
 ["forward","forward_step","forward_steps","_forward_step"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for p in P:
        f.write(json.dumps(p)+"\n")
