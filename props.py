NOT_APPLICABLE = {}
SIM = 'executed contract (bounded stand-in): reference interpreter of the graph in lockstep with the real Graph/GraphGen/AudioProcessor on pseudo-random histories'
V = 'deductive verification (Verus contracts on functions extracted from /repo on every run)'
K = 'Kani contract harnesses on the compiled code'
N = 'contracts executed on the real code (bounded stand-in)'
GRAPH_TRUST = ['slotmap::SlotMap/SecondaryMap behave as maps from keys, HashSet as a set (verus/gr.inc, gg.inc: assumed contracts)', 'NodeKey is treated as an integer; Graph and Node are reduced to the fields used']
CONNECT_TRUST = GRAPH_TRUST + ['node creation (Node::new, Node::init), the parameter description lookup and Vec::retain have assumed contracts in connect.vrs', 'in connect.vrs the loops of evaluate_if_node_should_be_removed and free_old are verified as functions of their own; the early exits of its search for readers are dropped']
# functions of connect.vrs which only freeing and the commit depend on
FREEING = r'free_old|queue_asked|free_queued|evaluate_all|remove_old_nodes|remove_old_buffers|set_mortality'
AUTO = FREEING + r'|evaluate_if_node|reroute_|search_readers'
EVENTS = r'apply_parameter_change|apply_waiting|apply_new|smoothing|token|ParameterSmoothing'
INSOUTS = r'set_inputs|set_outputs|silence|puts|put_'
RUNNING = r'UGenEnum|Task::|TaskData|adopt|run_tasks'
TASK_TRUST = ['tasks.vrs: free_old, calculate_node_order and allocate_node_buffers by their contracts in connect.vrs, order.vrs and buffers.vrs, restated; the ring buffer for TaskData is full or not, and only the audio thread makes room; the buffers of a node are blocks of an allocation (buffers.vrs)']
GEN_TRUST = TASK_TRUST + ['graphgen.vrs: a UGen is known by its signature, what it does is the list of calls made; the ring buffers, the VecDeque and atomic flags are stand-ins: slots() is what is there then, more may come behind it, the other end may make room at any time', 'graphgen.vrs: Time::to_samples_until_due as an uninterpreted function (time.vrs proves it); a token is not activated while a block is rendered (its documentation)', 'graphgen.vrs: the indices in a TaskData are in range and it takes its UGens from the tasks before it, each once (tasks.vrs proves it of what commit_changes sends, and graphgen.vrs that the last one adopted is the last one sent once the ring buffer is empty)']
NOT_TASKS = r'generate_output|generate_ar|silenced|followed|offset'
EDITING = r'has_path|contains_node|push_|new_additive|new_feedback|connect_to|connect_nodes|connect_input|connect_node|connect2|connect_replace|disconnect_'
def S(id, explanation, verus=(), technique=SIM, note='Bounded: sampled histories only.', **kw):
    return dict(dict(prefix=id.lower() + '_', verus=list(verus), level='exploration', technique=technique, level_note=note, explanation=explanation, trusted=kw.pop('trusted', [])), **kw)
PROPS = {
 'C01': dict(prefix='c01_', verus=['time.vrs'], level='proof', technique='deductive verification (Verus contracts on extracted functions; Kani contract harnesses)',
   level_note='Unbounded proof of every integer operation on Seconds and Beats against exact spec functions; operator glue (+=, sum, PartialOrd) by complete Kani harnesses.',
   explanation='Seconds/Beats arithmetic and sample conversion against exact integer spec functions.',
   trusted=[]),
 'C03': S('C03', 'timed parameter changes: due times, WrPreciseTiming and GraphGen::process_block proved; by lockstep histories through the public API', verus=('time.vrs', 'precise.vrs', 'graphgen.vrs'), verus_not={'graphgen.vrs': INSOUTS + '|' + RUNNING}, technique=V + '; ' + SIM,
   note='Proved for all inputs: conversion of times to frames, SchedulingEvent due times, WrPreciseTiming, and what GraphGen::process_block does with waiting and new changes: each is applied once, in the block in which it is due, to the first task of its node, or waits unchanged; only blocks after it is due count. Bounded (sampled histories): the sending side and the ring buffers between threads.', trusted=GEN_TRUST[1:]),
 'C04': S('C04', 'buffers: Graph::allocate_node_buffers proved to give every node blocks of its own while they are still to be read and to wire each input to the right channel; the tasks made from them proved to use these; by lockstep histories', verus=('buffers.vrs', 'tasks.vrs'), verus_not={'tasks.vrs': 'commit_changes|send_updated|held|was_sent|generate_ar|silenced|followed'}, technique=V + '; ' + SIM,
   note='Proved for every graph: BufferAllocator, Node buffer functions and Graph::allocate_node_buffers, with stand-ins for slotmap and raw memory; the tasks and output channels of a TaskData carry exactly these pointers. Bounded (sampled histories): the public API as a whole.', trusted=GRAPH_TRUST + TASK_TRUST),
 'C05': S('C05', 'order: depth_first_search and calculate_node_order proved to list every node once after everything it reads; the executed tasks by lockstep histories', verus=('order.vrs', 'tasks.vrs', 'graphgen.vrs'), verus_not={'graphgen.vrs': EVENTS + '|' + INSOUTS, 'tasks.vrs': NOT_TASKS}, technique=V + '; ' + SIM,
   note='Proved for every acyclic graph: depth_first_search (with termination) and calculate_node_order; Graph::commit_changes sends one TaskData with the tasks in that order, or nothing; GraphGen::process_block adopts every new TaskData in order, moves each UGen to the task it belongs to, and runs every task of the newest once, in order, for the whole block. Bounded (sampled histories): the public API as a whole.', trusted=GRAPH_TRUST + GEN_TRUST),
 'C06': S('C06', 'has_path proved to decide reachability, every connecting function proved to refuse exactly the edges that close a cycle and to keep the graph acyclic; by lockstep histories through the public API', verus=('connect.vrs',), verus_not={'connect.vrs': FREEING}, technique=V + '; ' + SIM,
   note='Proved for every graph: has_path (with termination) and the Graph functions that add or remove edges and nodes. Bounded (sampled histories): the GraphEdit layer above them.', trusted=CONNECT_TRUST),
 'C07': S('C07', 'every connecting function of Graph proved to leave the graph unchanged when it returns an error, and to return the error that applies; by lockstep histories through the public API', verus=('connect.vrs',), verus_not={'connect.vrs': AUTO}, technique=V + '; ' + SIM,
   note='Proved for every graph and argument: the Graph functions that add or remove edges and nodes. Bounded (sampled histories): the GraphEdit layer above them, scheduling.', trusted=CONNECT_TRUST),
 'C08': S('C08', 'exact effect of every connecting function on the edges proved; what is rendered by lockstep histories', verus=('connect.vrs', 'tasks.vrs', 'graphgen.vrs'), verus_not={'connect.vrs': FREEING, 'graphgen.vrs': EVENTS}, technique=V + '; ' + SIM,
   note='Proved for every graph: which edges each connecting, disconnecting or freeing function adds, replaces, removes or keeps; Graph::commit_changes sends all of the graph as one TaskData, or nothing and tries again at the next commit; GraphGen::process_block points the tasks to the inputs of the graph, and copies to each output the block or graph input named by its TaskData, or silence. Bounded (sampled histories): that what is rendered follows the edges.', trusted=CONNECT_TRUST + GEN_TRUST),
 'C09': S('C09', 'what a commit removes and when it drops it, and freeing a node, proved; destruction by lockstep histories with counted nodes', verus=('connect.vrs', 'tasks.vrs', 'graphgen.vrs'), verus_not={'connect.vrs': EDITING, 'graphgen.vrs': EVENTS + '|' + INSOUTS, 'tasks.vrs': NOT_TASKS}, technique=V + '; ' + SIM,
   note='Proved for every graph: freeing a node removes it and its strong dependents only, none of them immortal; a commit keeps every node that nothing allows to be removed and drops a node or buffer only once its flag is set or nobody shares it; the UGen of every node is with the node or at one place in the last TaskData, each commit moves it to the new one, and GraphGen::process_block takes it from there (so it is never lost or doubled while its node lives). Bounded (sampled histories): when the flags are set, and that every node is destroyed exactly once.', trusted=CONNECT_TRUST + GEN_TRUST),
 'C10': S('C10', 'division into blocks: the default UGen::process_block proved to be the frames one by one, with lemmas that any partition gives the same; each UGen run twice with different divisions', verus=('blocks.vrs',), technique=V + '; ' + N,
   note='Proved for every UGen without its own process_block: a block, or a part of one, is its frames one by one. Bounded (sampled): UGens with their own process_block.'),
 'C11': S('C11', 'block views', verus=('views.vrs',), technique=V + '; ' + K + '; ' + N, note='Proved for every number of channels, block size, offset and length: read, write, channel slices and sizes of VecBlock, StaticBlock, the raw blocks and the partial views (so views of views), that frames have places of their own inside of the memory, and BlockMetadata. Kani on the compiled code for stated sizes: the same, and the constructors and iterators. Larger sizes and nestings sampled.',
   trusted=['views.vrs: raw pointers are memory from the pointer on, Vec and NumericArray slices are modelled by assumed contracts; the pointers of an aggregate block point to different memory (what its constructor asks for)', 'BlockIterMut and the constructors of views are not in views.vrs (Kani)']),
 'C12': S('C12', 'wrappers', verus=('wrap.vrs',), technique=V + '; ' + K + ' over a free algebra of samples; ' + N, note='Proved for any wrapped UGen, numbers of inputs, outputs and parameters, block sizes and samples: every function of the nine arithmetic and closure wrappers. Kani on the compiled code: all samples (as free terms), channels and flags, blocks up to a stated bound; WrDone. Sampled: compositions and larger blocks.',
   trusted=['wrap.vrs: the wrapped UGen is a deterministic function of its state, context, flags and inputs; blocks, NumericArray and pointers are stand-ins; the closure of WrClosure is one without memory']),
 'C13': S('C13', 'smoothing', verus=('smoothing.vrs',), technique=V + '; ' + N, note='Proved: the smoothing state machine for all histories, with float arithmetic as uninterpreted operations. Sampled: the numerical straight line.'),
 'C14': S('C14', 'audio rate parameters', verus=('arparams.vrs', 'tasks.vrs', 'graphgen.vrs'), verus_not={'tasks.vrs': 'generate_output|generate_tasks|make_task|commit_changes|send_updated|held|was_sent|fit|placed', 'graphgen.vrs': EVENTS + '|' + INSOUTS}, technique=V + '; ' + K + '; ' + SIM, note='Proved for any wrapped UGen, numbers of parameters and block sizes: every function of WrArParams (what is set, from which sample of which buffer, before each frame; no read outside of a block); Graph::generate_ar_parameter_changes: every parameter edge of a node in the order becomes one change with the right node, parameter and channel, every disconnected parameter is pointed to silence, nothing else; GraphGen hands them to the tasks. Kani: the compiled WrArParams up to a stated bound of frames. Sampled: graph histories.',
   trusted=['arparams.vrs: the samples behind a buffer pointer do not change while one frame is processed, and there is a block of them (what the unsafe set_ar_param_buffer asks for; the graph side is buffers.vrs and tasks.vrs)'] + GEN_TRUST),
 'C15': S('C15', 'delay lines: positions of reads and writes proved, interpolated values by a model', verus=('delay.vrs',), technique=V + '; ' + N,
   note='Proved for all lengths and histories: SampleDelay, StaticSampleDelay and AllpassDelay read the frame they should and never outside of their buffer. Sampled: values of interpolated reads.'),
 'C16': S('C16', 'envelopes: state machine and shape proved over abstract float operations, numbers by an analytic model', verus=('envelope.vrs',), technique=V + '; ' + N,
   note='Proved for all histories: transitions, done marks and the value formulas of each state of EnvAsr, EnvAr and Envelope, assuming the listed facts of float comparison. Sampled: numerical accuracy.'),
 'C17': S('C17', 'oscillators', technique=K + '; ' + N, note='Complete Kani harness: wavetable phases index inside the table and add modulo the period. Sampled: waveforms against analytic functions.'),
 'C18': S('C18', 'random generators', verus=('noise.vrs',), technique=V + '; ' + K + '; ' + N, note='Proved for all states: the xorshift generator is a permutation without 0 and its fractions are in range. Sampled: noise distributions (fixed seeds).'),
 'C19': S('C19', 'buffers and playback against a model', technique=N, note='Bounded (sampled): buffers, parameters and divisions into blocks.'),
 'C20': S('C20', 'log messages', verus=('log.vrs',), technique=V + '; ' + K + '; ' + N,
   note='Proved for all messages, chains and states of the ring buffer: ArLogReceiver::recv hands every finished chain to the handler whole, once and in order, leaves an unfinished one where it is unless it fills the channel, and always makes progress; the conversions into a message. Complete Kani harness: the order of messages in a chain. Sampled: histories of sends and receives on real channels, with several senders; the probe.',
   trusted=['log.vrs: the consumer of the ring buffer is a stand-in: slots() is what is there then and messages that arrive later come behind; position(), slicing and Vec indexing as their documentation says', 'log.vrs: the handler is the list of the chains it was called with']),
 'C21': S('C21', 'expressions of handles', technique=SIM, note='Bounded: sampled expressions, compared as functions of the inputs of the graph.'),
 'C22': S('C22', 'filters: coefficients, response, stored state and stability proved over the real numbers; numbers by biquads of the analogue prototypes', verus=('filters.vrs',), technique=V + '; ' + N,
   note='Proved for all signals and settings over the reals (rounding aside; tan, exp, sqrt and powers uninterpreted with the listed facts): every coefficient of every type, the solution of the loop, no overshoot, no growth without input. Sampled: numerical accuracy in f32 and f64.'),
 'C23': S('C23', 'stateless UGens against their function', verus=('stateless.vrs',), technique=V + '; ' + K + ' over a free algebra of samples; ' + N,
   note='Proved for all numbers of channels and frames and all samples: every arithmetic operation on slices, MathUGen and Math1UGen frame by frame and by blocks, Constant and DoneOnTrig. Complete Kani harnesses on the compiled code: arithmetic for all samples (as free terms) with 2 channels and blocks of 3 frames, limiter and constant for every float. Sampled: closures, panner, wider UGens.'),
 'C24': S('C24', 'declared parameters against what is called', verus=['params.vrs'], technique=V + '; ' + K + '; ' + N,
   note='params.vrs proves UGen::param for any number of parameters, all names, types and values against the contract of param_apply; Kani discharges the code that impl_ugen generates for parameter functions of every type and order of arguments, for every index and value, the hint builders from any hint, and the conversions of the enums of the library. Sampled or enumerated: channels in and out up to 4, the declarations of the library.'),
}
