"""The text of properties.jsonl (written by gen_manifest.py)."""
P = []
def prop(id, title, statement, over, quant, why, files, mech, **kw):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': quant}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], **kw}})
G = 'knaster_graph/src/'
prop('C01', 'Time values behave as exact integers of sub-units',
     'Adding, subtracting, comparing and packing/unpacking second and beat time values gives exactly the result of the same operation on their total number of sub-units, in normal form, whenever that result is representable; checked subtraction yields nothing and saturating subtraction yields zero exactly when the difference would be negative. Converting a sample count to a time and a time to a sample count are the exact floors, so a sample count survives the round trip at every sample rate that divides the sub-unit base, and conversion between two such rates is the exact floor.',
     ['inputs'], 'all pairs of time values, all sample counts up to 136 years, all sample rates up to 2^32-1',
     'The tests check a handful of constants; carry, borrow and division boundaries span the whole 64-bit range.',
     ['knaster_primitives/src/time.rs'], [('carry/borrow arithmetic of Seconds and Beats', 'knaster_primitives/src/time.rs')])
prop('C03', 'Scheduled parameter changes apply exactly once, at their time',
     'A parameter change sent with a time is applied exactly once, never before the block that contains its due frame and no later than that block (or the first block after it arrives, if it arrives late), and a node with precise timing applies it at exactly the due frame within that block; a change without a time is applied at the start of the next block. A time relative to now counts from the frame the audio thread has reached when it receives the change, and no change is lost, repeated, or applied to another node or parameter, however far ahead it is scheduled.',
     ['inputs', 'histories'], 'all due times, arrival times, block sizes and sample rates, and all histories of sends',
     'Tests use a few fixed times with one block size; the boundaries between blocks and between late and on-time lie at specific frames.',
     [G + 'scheduling.rs', G + 'graph_gen.rs', 'knaster_core_dsp/src/wrappers_core/precise_timing.rs'],
     [('SchedulingEvent / to_samples_until_due', G + 'scheduling.rs'), ('waiting changes', G + 'graph_gen.rs'), ('WrPreciseTiming', 'knaster_core_dsp/src/wrappers_core/precise_timing.rs')])
prop('C04', 'No node overwrites samples that are still to be read',
     'While a graph renders, the memory holding the output of a node is not written by any other node until every node and graph output that reads it has read it, and a node never reads from the memory it is writing to. Every buffer lies inside the memory owned by the graph for as long as the audio thread may use it, whatever edits are made meanwhile.',
     ['programs', 'histories'], 'all graphs and all histories of edits and commits',
     'Buffer reuse depends on the whole topology and node order; tests exercise a few small graphs.',
     [G + 'buffer_allocator.rs', G + 'graph.rs'], [('BufferAllocator', G + 'buffer_allocator.rs'), ('allocate_node_buffers, generate_tasks', G + 'graph.rs')])
prop('C05', 'Every node runs exactly once per block, after the nodes it reads',
     'In every rendered block each node that is in the committed graph is processed for exactly the frames of the block, once, and after every node it reads from in the same block, including through parameter connections; feedback edges impose no order. Nodes that do not reach an output are still processed.',
     ['programs', 'histories'], 'all acyclic graphs with any number of nodes and edges, and all histories of edits that produce them',
     'Order is a property of the whole topology; tests use a few chains.',
     [G + 'graph.rs', G + 'graph_gen.rs'], [('calculate_node_order, depth_first_search', G + 'graph.rs'), ('TaskData', G + 'task.rs')])
prop('C06', 'A connection that would create a cycle is rejected',
     'Connecting nodes fails with an error, and leaves the graph as it was, exactly when the connection is not a feedback connection and there already is a non-feedback path (of audio or parameter connections) from the destination to the source, or source and destination are the same node; otherwise a valid connection is accepted. Hence the non-feedback connections of a graph never contain a cycle.',
     ['programs', 'histories'], 'all graphs and all sequences of connections and disconnections',
     'A missed cycle needs a specific path shape (through parameters, through additive connections); tests try a few.',
     [G + 'graph.rs'], [('path search before every connection', G + 'graph.rs')])
prop('C07', 'Invalid edits are reported and change nothing',
     'An edit or parameter change that refers to a node that does not exist, was freed or is being removed, belongs to another graph, or to a channel or parameter that is out of bounds, returns the error that says so, without panicking, and afterwards the graph sounds and behaves exactly as if the edit had not been tried. Valid edits succeed.',
     ['inputs', 'histories'], 'all node ids (live, freed, foreign, reused), all channel and parameter indices, after all edit histories',
     'Tests try a few wrong indices on small graphs; stale and foreign ids that collide with live ones need specific histories.',
     [G + 'graph.rs', G + 'handle.rs', G + 'dynugen.rs'], [('checks at the start of each edit', G + 'graph.rs')])
prop('C08', 'The output is exactly what the connections define',
     'In every block, each input channel of each node and each graph output receives exactly the sum of the outputs and graph inputs connected to it in the last commit before the block, silence where nothing is connected, and for feedback connections the samples of exactly one block earlier (silence before that). Replacing, adding and removing connections changes what is read from exactly those channels and nothing else.',
     ['programs', 'histories', 'configurations'], 'all graphs, edit and commit histories, block sizes and nesting of graphs',
     'Each test renders one small topology; additive connections, feedback, disconnection and nesting interact.',
     [G + 'graph.rs', G + 'graph_gen.rs', G + 'processor.rs'], [('edges, additive nodes, feedback nodes', G + 'graph.rs'), ('GraphGen::process_block', G + 'graph_gen.rs')])
prop('C09', 'Nodes live exactly as long as they can be used',
     'A node is destroyed exactly once, never on the audio thread, and never while the audio thread may still run it; once it is freed, or has marked itself done with a done action that removes it, it stops being part of the graph at the next commit (a mortal node only) and is destroyed, with nothing of it left in the graph, by the first commit made after the audio thread has moved on. Immortal nodes are not removed by done flags, and dropping the graph, the audio processor or handles in any order neither leaks nor double frees nodes.',
     ['histories', 'schedules'], 'all histories of pushes, frees, done flags, commits and blocks, with edits before, during and after any block',
     'Use after free and leaks depend on the interleaving of commits and blocks; tests render a few fixed sequences.',
     [G + 'graph.rs', G + 'graph_gen.rs', G + 'node.rs'], [('applied flags and task data ring', G + 'task.rs'), ('free_node, node_keys_pending_removal', G + 'graph.rs')])
prop('C11', 'Every view of a block shows exactly the samples it covers',
     'Every kind of block (owned, static, borrowed, raw) and every partial view of one, nested to any depth, maps channel and frame to one fixed sample: a write is read back at that channel and frame through every view that covers it and changes no other sample, channel slices and iterators show the same samples in the same order, sizes are those the view was made with, and partial block metadata composes (offsets add up, the frame clock advances by the offset).',
     ['inputs'], 'all block sizes, channels, frames, nestings of partial views and sample values',
     'Tests read a few indices of one or two block types; an index error needs a particular combination of offset, channel and block type.',
     ['knaster_primitives/src/block.rs', G + 'block.rs', 'knaster_core/src/ugen.rs'], [('Block implementations, partial views', 'knaster_primitives/src/block.rs'), ('RawBlock, AggregateBlockRead', G + 'block.rs'), ('BlockMetadata', 'knaster_core/src/ugen.rs')])
prop('C12', 'Wrappers change the signal exactly as they say and nothing else',
     'A wrapped UGen is called with exactly the input frames, context and flags the wrapper got, once per frame, and its output is transformed by the operation of the wrapper on every sample of every channel of the block or partial block and nowhere else. Initialisation, parameter names, hints, parameter changes (of every type), audio rate parameter buffers and delays reach the wrapped UGen unchanged unless they are for a parameter of the wrapper itself; done and removal flags pass through. Wrappers compose, innermost first.',
     ['inputs', 'programs'], 'all samples, parameters, values, partial blocks and compositions of wrappers, frame by frame and in blocks',
     'Tests check one value for each wrapper; forwarding of each call, block variants and partial blocks of every wrapper is a large product.',
     ['knaster_core_dsp/src/wrappers_core/math.rs', 'knaster_core_dsp/src/wrappers_core/closure.rs', 'knaster_core_dsp/src/wrappers_core.rs', G + 'wrappers_graph/done.rs'], [('arithmetic wrappers', 'knaster_core_dsp/src/wrappers_core/math.rs'), ('WrDone', G + 'wrappers_graph/done.rs')])
prop('C13', 'Smoothed parameters move in a straight line and arrive exactly',
     'With linear smoothing over d frames, a parameter set to a new value takes k frames after the change the value on the straight line from the value it had when the change was made to the new value (at every frame with audio rate smoothing, at the start of every block with block rate), is exactly the new value from frame d on and then stays there untouched; d = 0 sets it at once. A change or a new duration on the way continues from the value the parameter has at that moment. Without smoothing, and for values of other types, changes pass through at once; parameters do not affect each other, and the signal is processed once per frame as without the wrapper.',
     ['inputs', 'histories'], 'all values, durations, rates, block sizes and histories of changes',
     'Tests ramp one value with one duration; a change in the middle, zero durations, block boundaries and several parameters interact.',
     ['knaster_core_dsp/src/wrappers_core/smooth_params.rs'], [('ParameterSmoothingState', 'knaster_core_dsp/src/wrappers_core/smooth_params.rs')])
prop('C14', 'Audio rate parameter connections set the parameter every frame',
     'While a node output is connected to a parameter, the parameter has, for each frame of each block, the value of the connected output (or of the sum of the connected outputs) at that frame, and nothing else changes; after disconnection or freeing of the source, the parameter no longer follows it. Other parameters and nodes are unaffected.',
     ['inputs', 'histories'], 'all sample values, nodes, parameters, block sizes and histories of connections',
     'Tests connect one parameter in a fixed graph; disconnection, freed sources and additive connections are not reached.',
     [G + 'graph.rs', 'knaster_core_dsp/src/wrappers_core/audio_rate.rs'], [('WrArParams', 'knaster_core_dsp/src/wrappers_core/audio_rate.rs'), ('ArParameterChange', G + 'graph_gen.rs')])
D = 'knaster_core_dsp/src/'
prop('C10', 'Dividing time into blocks does not change the sound',
     'Every UGen produces the same samples, the same done flags (whether it is done) and the same state whether its frames are processed one by one, in whole blocks or in parts of blocks of any size, with parameter changes between the parts. Processing a part of a block reads and writes only the frames of that part, and every output channel of every frame of the part is written exactly once.',
     ['inputs', 'histories'], 'all UGens, parameters, inputs, block sizes and divisions of the frames into blocks',
     'Tests run one block size; state carried over a boundary at a certain frame shows only in some divisions.',
     ['knaster_core/src/ugen.rs', D + 'ugens/osc.rs', D + 'ugens/buffer.rs', D + 'ugens/delay.rs', D + 'ugens/math.rs', D + 'ugens/noise.rs', 'knaster_airwindows/src/galactic.rs'],
     [('default process_block', 'knaster_core/src/ugen.rs'), ('specialised process_block implementations', D + 'ugens/osc.rs'), ('BufferReader', D + 'ugens/buffer.rs')])
prop('C15', 'Delays delay by exactly the time they are set to',
     'A sample delay outputs, bit for bit, the input from exactly the set number of frames before (the delay time times the sample rate rounded down, between zero and the maximum it was made with), silence before the first input, and after a change the inputs of the new delay at once. An allpass delay set to a whole number of frames outputs the input of that many frames ago, and set to a fractional time the allpass interpolation around it; with feedback it is the allpass comb of that delay. Static delays read, write and interpolate at their set length, one by one and in blocks. After clearing, nothing from before is heard again. Any delay time, also negative or too long, is safe.',
     ['inputs', 'histories'], 'all inputs, sample rates, maximum delays, delay times and changes of them at any frame',
     'Ring buffer positions wrap at lengths which depend on all previous changes; tests use one or two lengths.',
     [D + 'ugens/delay.rs'], [('SampleDelay, AllpassDelay, AllpassFeedbackDelay, StaticSampleDelay', D + 'ugens/delay.rs')])
prop('C16', 'Envelopes follow their shape and end exactly once',
     'A triggered attack-release or attack-sustain-release envelope rises on a straight line to 1 in its attack time from the value it has at the trigger (from 0 when stopped), sustains until released (if it sustains), and falls on its cubic curve from the value it has at the release to 0 in its release time; it marks itself done exactly once, at the end of the release, and is 0 from then on. A segment envelope goes on straight lines from its start value through each of its segments in their time, divided by the time scale, loops or ends with one done mark at its last value, and starts, stops and jumps on trigger. Attack and release times set while it runs take effect for the rest; zero times are jumps, not errors, and every output lies between the values it moves between.',
     ['inputs', 'histories'], 'all times, values, sample rates and histories of triggers and changes',
     'Tests run one envelope from start to end; triggers and changes in each stage, at any frame, are not reached.',
     [D + 'ugens/envelopes.rs'], [('EnvAsr, EnvAr, Envelope', D + 'ugens/envelopes.rs')])
prop('C17', 'Oscillators output their waveform at the phase the frequency defines',
     'Each oscillator outputs its waveform at the phase which is the sum of frequency over sample rate over all frames before, modulo one period, plus the phase offset, since it was started or its phase last reset; changing frequency, offset or waveform changes nothing else and a phase never leaves its period. Band limiting changes only samples within one step of a corner of the waveform. Wavetable lookups are always inside the table, at the sample of the phase, and interpolate linearly to the next sample around the end; the standard tables contain the function they are named for.',
     ['inputs', 'histories'], 'all frequencies, offsets, pulse widths, waveforms, sample rates and histories of changes',
     'Phase wrap and corners are hit at certain frames only; tests listen to a few blocks of one frequency.',
     [D + 'ugens/osc.rs', D + 'ugens/polyblep.rs', D + 'dsp/wavetable.rs'], [('SinWt, SinNumeric, Phasor', D + 'ugens/osc.rs'), ('PolyBlep', D + 'ugens/polyblep.rs'), ('WavetablePhase and tables', D + 'dsp/wavetable.rs')])
prop('C18', 'Random generators keep to their range, their distribution and their seed',
     'White noise is uniform in [-1, 1) and independent from frame to frame; pink noise is the mean of ten such sequences of which one changes every frame and the others every 2, 4, .. 256 and 256 frames, and never leaves [-1, 1]; brown noise moves by at most 0.1 per frame inside [-1, 1]; random lines go straight from one number in 0 to 1 to the next, a new one after each period of the set frequency. The xorshift generator never produces 0, never joins two sequences, and its fractions are in 0 to 1. Every generator is determined by its seed: the same seed gives the same sequence, each new generator takes exactly one new global seed, and copies continue in the same way.',
     ['inputs', 'histories'], 'all seeds, all states, all frequencies',
     'Tests look at a few samples; a state in which the range is left or the sequence degenerates is one of 2^32.',
     [D + 'ugens/noise.rs', D + 'dsp/xorrng.rs'], [('XOrShift32Rng', D + 'dsp/xorrng.rs'), ('WhiteNoise, PinkNoise, BrownNoise, RandomLin', D + 'ugens/noise.rs')])
prop('C19', 'Buffers hold what was loaded and readers play exactly that',
     'A buffer made from interleaved samples, a file or a single channel has exactly those samples at each frame and channel, its size, duration and sample rate agree, and an interpolated read at any position is the straight line between the two nearest frames, inside of the buffer and around its end. A reader plays the part of the buffer from its start second for its duration at its rate (scaled by the sample rates), every channel at the same position, frame by frame and in whole or partial blocks; at the end it loops or marks itself done once and is silent, and a trigger starts it again from the start. No parameter value, also negative or beyond the buffer, reads outside of the buffer.',
     ['inputs', 'histories'], 'all buffers, sample rates, rates, starts, durations, loop settings, triggers and divisions into blocks',
     'Tests play one short buffer from its start; positions at the end, loops, partial blocks and changes of parameters in the middle interact.',
     [D + 'dsp/buffer.rs', D + 'ugens/buffer.rs'], [('Buffer', D + 'dsp/buffer.rs'), ('BufferReader', D + 'ugens/buffer.rs')])
prop('C20', 'Messages from the audio thread arrive whole, once and in order',
     'Every log message (element of a message chain) which the channel of its sender had room for is received exactly once, unchanged and in the order sent, chain by chain: no call of the handler contains parts of two chains, a chain is passed on only when it is finished (or can never be finished because it fills the channel), and the receiver always makes progress. A message which does not fit is dropped without hurting those before and after it; senders do not affect each other, and sending never waits. Numbers and texts come out as they went in. The log probe reports the signal once a second, starting at the first frame, frame by frame and in blocks.',
     ['inputs', 'histories', 'schedules'], 'all messages, channel sizes, numbers of senders and interleavings of sends and receives',
     'Tests send one message at a time into an empty channel; full channels and half sent chains at the time of a receive are not reached.',
     ['knaster_core/src/log.rs', D + 'ugens/util.rs'], [('ArLogSender, ArLogReceiver', 'knaster_core/src/log.rs')])
prop('C21', 'What is written with handles is what is connected',
     'Every expression of handles means what it says, channel by channel: connections with >>, to and to_replace, feedback connections, stacks of handles with |, + - * / and pow between handles and constants of any kind on either side, choices of channels, graph inputs and outputs, links to parameters, disconnections, names and ids. The signals arriving at each input and graph output are exactly those of the expression evaluated with numbers, however deeply expressions are nested, and nothing else of the graph changes. A parameter handle, by index or by name, sets, smooths and triggers exactly that parameter of that node at the time asked for.',
     ['inputs', 'histories'], 'all expressions of handles, channels, constants and parameters, in any order and nesting, on all graphs',
     'Tests build a few small expressions; channels beyond the first, constants on the left and replaced connections are mostly not looked at.',
     [G + 'graph_edit.rs', G + 'handle.rs', G + 'graph.rs'], [('GraphEdit, DH, SH', G + 'graph_edit.rs'), ('Parameter', G + 'graph_edit.rs')])
prop('C22', 'Filters have the response of their type and stay stable',
     'A state variable filter of each type has exactly the frequency response of its analogue prototype (lowpass, highpass, bandpass, notch, peak, allpass, bell, shelves) with its cutoff frequency, Q and gain, transformed by the bilinear transform, at every sample rate; a one pole lowpass has gain 1 at 0 Hz and the decay of its frequency, never overshoots, and a highpass is the input without it. Changes of any parameter keep what is stored in the filter and give the response of the new settings from the next sample; without input what is stored in a state variable filter never grows, however its parameters are changed, so that it can not become unstable.',
     ['inputs', 'histories'], 'all signals, types, frequencies between 0 and half the sample rate, Q above 0, gains, sample rates and changes of them at any sample',
     'Tests check that one setting of one filter runs; the response at other settings, the gains of bells and shelves and the stability under changes are not looked at.',
     [D + 'ugens/svf.rs', D + 'ugens/onepole.rs'], [('SvfFilter', D + 'ugens/svf.rs'), ('OnePole, OnePoleLpf, OnePoleHpf', D + 'ugens/onepole.rs')])
prop('C23', 'UGens without memory calculate exactly their function of the current frame',
     'The arithmetic UGens (add, subtract, multiply, divide, power of channel c and channel c+N; ceil, floor, trunc, fract, sqrt, exp of their input) give exactly the result of that operation on the samples of each frame, for every channel and every sample value, the same frame by frame, in a block and in a part of a block, and write nothing outside of the part. A constant outputs its value, also after it is set. A closure is called once for every frame in order, with the inputs of that frame, the context and the flags of the caller, and its values are the outputs. A safety limiter leaves samples within -1 to 1 as they are, clamps others and replaces NaN by 0. A panner scales its input by the cosine and sine of its position (equal power). A done trigger marks done in the block after the trigger and not before.',
     ['inputs'], 'all sample values, infinite and NaN included, numbers of channels, frames, blocks and parts of blocks, positions and constants',
     'Tests use a few values with one channel and whole blocks; they see neither the pairing of channels of wide UGens, nor parts of blocks, nor special values.',
     [D + 'ugens/math.rs', D + 'ugens/closure.rs', D + 'ugens/dynamics.rs', D + 'ugens/pan.rs', D + 'ugens/util.rs'], [('MathUGen, Math1UGen', D + 'ugens/math.rs'), ('SafetyLimiter', D + 'ugens/dynamics.rs'), ('UGenClosure', D + 'ugens/closure.rs'), ('Pan2', D + 'ugens/pan.rs'), ('Constant, DoneOnTrig', D + 'ugens/util.rs')])
prop('C24', 'A parameter is what its declaration says, and setting it reaches its function',
     'For every UGen made with impl_ugen: it has one parameter for each function declared as one, in their order, named after the function and of the type of its argument, with exactly the hints (default, range, kind, logarithmic, enum values and their descriptions) declared, and as many inputs and outputs as its process functions take and give. Setting a parameter by index or by name calls exactly its function, once, with exactly the value (and the context), and no other; an index or a name which no parameter has, or a value of another type, changes nothing and is an error that says which; a smoothing setting that no wrapper takes does nothing. Values keep their type and value through every conversion, an enum survives being sent as an integer and an integer which is no variant is the default. Init, process and process_block reach the functions they are declared for with every channel, frame, flag and context in its place.',
     ['inputs'], 'all parameters, types of arguments and their orders, values, indices, names, hints and numbers of channels',
     'Tests set a few parameters of a few UGens to values of their type; hints and errors are hardly looked at.',
     ['knaster_core/src/ugen.rs', 'knaster_core/src/parameters.rs', 'knaster_core/src/parameters/types.rs', 'knaster_macros/src/lib.rs'],
     [('UGen::param', 'knaster_core/src/ugen.rs'), ('ParameterValue', 'knaster_core/src/parameters/types.rs'), ('ParameterHint, PFloatHint', 'knaster_core/src/parameters.rs'), ('impl_ugen', 'knaster_macros/src/lib.rs')])
