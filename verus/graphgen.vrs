use vstd::prelude::*;
verus! {
/*@include fl.inc @*/
type PFloat = f64;
pub struct PInteger(pub usize);
impl Copy for PInteger {}
impl Clone for PInteger { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub enum Rate { BlockRate, AudioRate }
impl Copy for Rate {}
impl Clone for Rate { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/*@enum knaster_core/src/parameters/types.rs | ParameterSmoothing @*/
impl Copy for ParameterSmoothing {}
impl Clone for ParameterSmoothing { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/*@enum knaster_core/src/parameters/types.rs | ParameterValue @*/
impl Copy for ParameterValue {}
impl Clone for ParameterValue { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// From<ParameterSmoothing> for ParameterValue
impl ParameterSmoothing {
    /*@extract knaster_core/src/parameters/types.rs | impl From<ParameterSmoothing> for ParameterValue | from | ret=r
    ensures r == ParameterValue::Smoothing(val, Rate::BlockRate),
    @sig /fn from\(val: ParameterSmoothing\) -> Self/ => fn into(val: ParameterSmoothing) -> ParameterValue
    @*/
}
pub type NodeKey = u64;
/// a pointer to samples
#[verifier::external_body]
pub struct Ptr { p: usize }
impl Copy for Ptr {}
impl Clone for Ptr { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// One call of a UGen. UGens are told apart by a number of their own.
pub enum Call {
    Set(int, usize, ParameterValue),
    Delay(int, usize, u16),
    Buffer(int, usize, Ptr),
    /// process_block: the pointers of its inputs, where its outputs go, how many they are, and the number of frames
    Run(int, Seq<Ptr>, Ptr, usize, usize),
}
/// The context. `log` is every call made so far: a UGen, and with them the memory behind the pointers, is what it is because of them.
pub struct AudioCtx { block_size: usize, sample_rate: u32, frame_clock: u64, log: Ghost<Seq<Call>> }
impl AudioCtx {
    fn block_size(&self) -> (r: usize) ensures r == self.block_size { self.block_size }
    fn sample_rate(&self) -> (r: u32) ensures r == self.sample_rate { self.sample_rate }
    fn frame_clock(&self) -> (r: u64) ensures r == self.frame_clock { self.frame_clock }
    spec fn same(self, c: AudioCtx) -> bool { self.block_size == c.block_size && self.sample_rate == c.sample_rate && self.frame_clock == c.frame_clock }
    /// c is this context after some more calls
    spec fn then(self, c: AudioCtx, calls: Seq<Call>) -> bool { self.same(c) && c.log@ =~= self.log@ + calls }
}
/// the samples at a pointer after the calls of a log
uninterp spec fn memory(log: Seq<Call>, p: Ptr, n: int) -> Seq<F>;
#[verifier::external_body]
fn slice_at(ctx: &AudioCtx, p: Ptr, n: usize) -> (r: &[F]) ensures r@ == memory(ctx.log@, p, n as int), r@.len() == n { unimplemented!() }
#[verifier::external_body]
pub struct UGenFlags { x: u8 }
/// the frame at which the UGens asked for the graph to be removed in their last run
uninterp spec fn removal(f: UGenFlags) -> Option<u32>;
/// what a run, the last of these calls, makes of it
uninterp spec fn asks(before: Option<u32>, log: Seq<Call>) -> Option<u32>;
impl UGenFlags {
    #[verifier::external_body]
    fn default() -> (r: Self) ensures removal(r) is None { unimplemented!() }
    #[verifier::external_body]
    fn remove_graph(&self) -> (r: Option<u32>) ensures r == removal(*self) { unimplemented!() }
}
/// RawAggregateBlockRead and RawContiguousBlock: what they are made from (views.vrs is about them)
pub struct InView { p: Ghost<Seq<Ptr>>, n: usize }
pub struct OutView { p: Ptr, channels: usize, n: usize }
fn in_view(p: &Vec<Ptr>, n: usize) -> (r: InView) ensures r.p@ == p@, r.n == n { InView { p: Ghost(p@), n } }
fn out_view(p: Ptr, channels: usize, n: usize) -> (r: OutView) ensures r.p == p, r.channels == channels, r.n == n { OutView { p, channels, n } }
/// `dyn DynUGen`
pub struct Dyn { id: Ghost<int> }
impl Dyn {
    #[verifier::external_body]
    fn process_block(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: &InView, output: &mut OutView)
        ensures removal(*final(flags)) == asks(removal(*old(flags)), final(ctx).log@), *final(self) == *old(self), *final(output) == *old(output), old(ctx).then(*final(ctx), seq![Call::Run(old(self).id@, input.p@, old(output).p, old(output).channels, input.n)]) { unimplemented!() }
    #[verifier::external_body]
    fn param_apply(&mut self, ctx: &mut AudioCtx, index: usize, value: ParameterValue)
        ensures *final(self) == *old(self), old(ctx).then(*final(ctx), seq![Call::Set(old(self).id@, index, value)]) { unimplemented!() }
    #[verifier::external_body]
    fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16)
        ensures *final(self) == *old(self), old(ctx).then(*final(ctx), seq![Call::Delay(old(self).id@, index, delay)]) { unimplemented!() }
    #[verifier::external_body]
    fn set_ar_param_buffer(&mut self, ctx: &mut AudioCtx, index: usize, buffer: Ptr)
        ensures *final(self) == *old(self), old(ctx).then(*final(ctx), seq![Call::Buffer(old(self).id@, index, buffer)]) { unimplemented!() }
}
/// core::mem::replace
#[verifier::external_body]
fn replace<T>(x: &mut T, v: T) -> (r: T) ensures r == *old(x), *final(x) == v { unimplemented!() }
/// `unreachable!`
fn never() requires false {}
/*@enum knaster_graph/src/dynugen.rs | UGenEnum | /<F: Float>/ => | /Box<dyn DynUGen<F> \+ 'static>/ => Dyn @*/
impl UGenEnum {
    /// the calls that reach the UGen
    spec fn made(self, calls: Seq<Call>) -> Seq<Call> { if self is Dyn { calls } else { Seq::empty() } }
    spec fn id(self) -> int { self->Dyn_0.id@ }
    /*@extract knaster_graph/src/dynugen.rs | impl<F: Float> UGenEnum<F> | take | ret=r
    ensures r == *old(self), *final(self) is None,
    @sub? /(?:std|crate::core|core)::mem::replace/ => replace
    @sig? /UGenEnum<F>/ => UGenEnum
    @*/
    /*@extract knaster_graph/src/dynugen.rs | impl<F: Float> DynUGen<F> for UGenEnum<F> | process_block
    requires *old(self) is Dyn, input.n == old(output).n,
    ensures removal(*final(flags)) == asks(removal(*old(flags)), final(ctx).log@), *final(self) == *old(self), old(ctx).then(*final(ctx), seq![Call::Run(old(self).id(), input.p@, old(output).p, old(output).channels, input.n)]),
    @sub? /DynUGen::(\w+)\(&mut \(\*\*ugen\), / => ugen.\1(
    @sub? /unreachable!\([^)]*\)/ => never()
    @sub? /unsafe \{/ => {
    @sig? /unsafe fn/ => fn
    @sig? /\*const F/ => Ptr
    @sig? /RawAggregateBlockRead<F>/ => InView
    @sig? /RawContiguousBlock<F>/ => OutView
    @sig? /where.*$/ =>
    @*/
    /*@extract knaster_graph/src/dynugen.rs | impl<F: Float> DynUGen<F> for UGenEnum<F> | param_apply
    ensures *final(self) == *old(self), old(ctx).then(*final(ctx), old(self).made(seq![Call::Set(old(self).id(), parameter, value)])),
    @sub? /DynUGen::(\w+)\(&mut \(\*\*ugen\), / => ugen.\1(
    @sub? /unreachable!\([^)]*\)/ => never()
    @sub? /unsafe \{/ => {
    @sig? /unsafe fn/ => fn
    @sig? /\*const F/ => Ptr
    @sig? /RawAggregateBlockRead<F>/ => InView
    @sig? /RawContiguousBlock<F>/ => OutView
    @sig? /where.*$/ =>
    @*/
    /*@extract knaster_graph/src/dynugen.rs | impl<F: Float> DynUGen<F> for UGenEnum<F> | set_delay_within_block_for_param
    ensures *final(self) == *old(self), old(ctx).then(*final(ctx), old(self).made(seq![Call::Delay(old(self).id(), index, delay)])),
    @sub? /DynUGen::(\w+)\(&mut \(\*\*ugen\), / => ugen.\1(
    @sub? /unreachable!\([^)]*\)/ => never()
    @sub? /unsafe \{/ => {
    @sig? /unsafe fn/ => fn
    @sig? /\*const F/ => Ptr
    @sig? /RawAggregateBlockRead<F>/ => InView
    @sig? /RawContiguousBlock<F>/ => OutView
    @sig? /where.*$/ =>
    @*/
    /*@extract knaster_graph/src/dynugen.rs | impl<F: Float> DynUGen<F> for UGenEnum<F> | set_ar_param_buffer
    ensures *final(self) == *old(self), old(ctx).then(*final(ctx), old(self).made(seq![Call::Buffer(old(self).id(), index, buffer)])),
    @sub? /DynUGen::(\w+)\(&mut \(\*\*ugen\), / => ugen.\1(
    @sub? /unreachable!\([^)]*\)/ => never()
    @sub? /unsafe \{/ => {
    @sig? /unsafe fn/ => fn
    @sig? /\*const F/ => Ptr
    @sig? /RawAggregateBlockRead<F>/ => InView
    @sig? /RawContiguousBlock<F>/ => OutView
    @sig? /where.*$/ =>
    @*/
}
/*@struct knaster_graph/src/task.rs | Task | /<F: Float>/ => | /UGenEnum<F>/ => UGenEnum | /\*const F/ => Ptr | /\*mut F/ => Ptr @*/
impl Task {
    spec fn run_call(self, n: usize) -> Call { Call::Run(self.ugen.id(), self.in_buffers@, self.out_buffer, self.output_channels, n) }
    /// the same but for its UGen
    spec fn places(self, t: Task) -> bool { self.in_buffers == t.in_buffers && self.out_buffer == t.out_buffer && self.output_channels == t.output_channels }
    /*@extract knaster_graph/src/task.rs | impl<F: Float> Task<F> | run
    requires old(self).ugen is Dyn,
    ensures removal(*final(flags)) == asks(removal(*old(flags)), final(ctx).log@), *final(self) == *old(self), old(ctx).then(*final(ctx), seq![old(self).run_call(old(ctx).block_size)]),
    @sub? /unsafe \{ RawAggregateBlockRead::new\(([^{}]*)\) \}/ => in_view(\1)
    @sub? /unsafe \{\s*RawContiguousBlock::new\(([^{}]*)\)\s*\}/ => out_view(\1)
    @*/
}
/*@enum knaster_graph/src/task.rs | BlockOrGraphInput | /<F>/ => | /\*mut F/ => Ptr @*/
impl Copy for BlockOrGraphInput {}
impl Clone for BlockOrGraphInput { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/*@struct knaster_graph/src/task.rs | ArParameterChange | /<F>/ => | /\*const F/ => Ptr @*/
/*@struct knaster_graph/src/task.rs | OutputTask | /<F>/ => | /Box<\[Option<BlockOrGraphInput>\]>/ => Vec<Option<BlockOrGraphInput>> @*/
/// Arc<OwnedRawBuffer>: memory kept as long as this is held
#[verifier::external_body]
pub struct Memory { x: u8 }
/// Arc<AtomicBool>
#[verifier::external_body]
pub struct Flag { x: u8 }
uninterp spec fn told(f: Flag) -> bool;
#[verifier::external_body]
fn store(f: &mut Flag, v: bool) ensures told(*final(f)) == v { unimplemented!() }
/*@struct knaster_graph/src/task.rs | TaskData | /<F: Float>/ => | /Arc<AtomicBool>/ => Flag | /Box<\[Task<F>\]>/ => Vec<Task> | /OutputTask<F>/ => OutputTask | /Arc<OwnedRawBuffer<F>>/ => Memory | /ArParameterChange<F>/ => ArParameterChange @*/
#[verifier::external_body]
fn task_at(t: &mut Vec<Task>, i: usize) -> (r: &mut Task) requires i < old(t)@.len() ensures *r == old(t)@[i as int], final(t)@ == old(t)@.update(i as int, *final(r)) { unimplemented!() }
#[verifier::external_body]
fn ugen_at(t: &mut Vec<Task>, i: usize) -> (r: &mut UGenEnum) requires i < old(t)@.len() ensures *r == old(t)@[i as int].ugen, final(t)@ == old(t)@.update(i as int, Task { ugen: *final(r), ..old(t)@[i as int] }) { unimplemented!() }
/// one node whose inputs are inputs of the graph
spec fn inputs_fine(t: Seq<Task>, e: (usize, Vec<(usize, usize)>), inputs: nat) -> bool {
    e.0 < t.len() && forall|j: int| 0 <= j < e.1@.len() ==> (#[trigger] e.1@[j]).0 < inputs && e.1@[j].1 < t[e.0 as int].in_buffers@.len()
}
spec fn all_dyn(t: Seq<Task>) -> bool { forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).ugen is Dyn }
/// the tasks of a new TaskData, each with its UGen: a new one, or the one of a task before
spec fn with_ugens(new: Seq<Task>, before: Seq<Task>) -> Seq<Task> {
    Seq::new(new.len(), |i: int| match new[i].ugen { UGenEnum::TakeFromTask(j) => Task { ugen: before[j as int].ugen, ..new[i] }, _ => new[i] })
}
/// A TaskData which may follow one with n tasks: no UGen is missing and none is in two tasks
spec fn fits(new: Seq<Task>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < new.len() ==> match (#[trigger] new[i]).ugen { UGenEnum::TakeFromTask(j) => j < n, UGenEnum::Dyn(_) => true, UGenEnum::None => false }
    &&& forall|i: int, j: int| 0 <= i < j < new.len() && (#[trigger] new[i]).ugen is TakeFromTask && (#[trigger] new[j]).ugen is TakeFromTask ==> new[i].ugen->TakeFromTask_0 != new[j].ugen->TakeFromTask_0
}
/// the calls which set the buffers of audio rate parameters
spec fn buffer_calls(t: Seq<Task>, c: Seq<ArParameterChange>, n: int) -> Seq<Call> decreases n {
    if n <= 0 { Seq::empty() } else { buffer_calls(t, c, n - 1).push(Call::Buffer(t[c[n - 1].node as int].ugen.id(), c[n - 1].parameter_index, c[n - 1].buffer)) }
}
impl TaskData {
    /// the same but for its tasks and for having been told
    spec fn rest(self, t: TaskData) -> bool {
        self.output_task == t.output_task && self.current_buffer_allocation == t.current_buffer_allocation && self.ar_parameter_changes == t.ar_parameter_changes
        && self.node_task_order == t.node_task_order && self.graph_input_channels_to_nodes == t.graph_input_channels_to_nodes
    }
    /// every index in it is in range, for a graph with so many inputs and outputs
    spec fn fine(self, inputs: nat, outputs: nat) -> bool {
        &&& self.node_task_order@.len() <= self.tasks@.len()
        &&& self.output_task.channels@.len() == outputs
        &&& forall|i: int| 0 <= i < outputs ==> match #[trigger] self.output_task.channels@[i] { Some(BlockOrGraphInput::GraphInput(c)) => c < inputs, _ => true }
        &&& forall|i: int| 0 <= i < self.ar_parameter_changes@.len() ==> (#[trigger] self.ar_parameter_changes@[i]).node < self.tasks@.len()
        &&& forall|i: int| 0 <= i < self.graph_input_channels_to_nodes@.len() ==> inputs_fine(self.tasks@, #[trigger] self.graph_input_channels_to_nodes@[i], inputs)
    }
    proof fn fine_same(self, t: TaskData, inputs: nat, outputs: nat)
        requires t.fine(inputs, outputs), self.rest(t), self.tasks@.len() == t.tasks@.len(), forall|i: int| 0 <= i < t.tasks@.len() ==> (#[trigger] self.tasks@[i]).in_buffers@.len() == t.tasks@[i].in_buffers@.len()
        ensures self.fine(inputs, outputs)
    { assert forall|i: int| 0 <= i < self.graph_input_channels_to_nodes@.len() implies inputs_fine(self.tasks@, #[trigger] self.graph_input_channels_to_nodes@[i], inputs) by { assert(inputs_fine(t.tasks@, t.graph_input_channels_to_nodes@[i], inputs)); } }
    /*@extract knaster_graph/src/task.rs | impl<F: Float> TaskData<F> | apply_self_on_audio_thread
    requires
        fits(old(self).tasks@, old(old_task_data).tasks@.len() as int), all_dyn(old(old_task_data).tasks@),
        forall|i: int| 0 <= i < old(self).ar_parameter_changes@.len() ==> (#[trigger] old(self).ar_parameter_changes@[i]).node < old(self).tasks@.len(),
    ensures
        final(self).tasks@ =~= with_ugens(old(self).tasks@, old(old_task_data).tasks@), all_dyn(final(self).tasks@),
        old(ctx).then(*final(ctx), buffer_calls(final(self).tasks@, old(self).ar_parameter_changes@, old(self).ar_parameter_changes@.len() as int)),
        told(final(self).applied),
        final(self).rest(*old(self)), final(old_task_data).rest(*old(old_task_data)), final(old_task_data).tasks@.len() == old(old_task_data).tasks@.len(),
    @sub? /for task in self\.tasks\.iter_mut\(\) \{/ => let ghost new = self.tasks@; let ghost before = old_task_data.tasks@; let n = self.tasks.len(); for i in 0..n {
    @sub? /if let UGenEnum::TakeFromTask\((\w+)\) = task\.ugen \{/ => if let UGenEnum::TakeFromTask(\1) = self.tasks[i].ugen {
    @sub? /task\.ugen = old_task_data\.tasks\[([^\]]*)\]\.ugen\.take\(\);/ => let taken = ugen_at(&mut old_task_data.tasks, \1).take(); *ugen_at(&mut self.tasks, i) = taken;
    @sub? /for apc in &self\.ar_parameter_changes \{/ => let ghost tasks = self.tasks@; for k in 0..self.ar_parameter_changes.len() { let apc = &self.ar_parameter_changes[k]; proof { assert(self.tasks@[apc.node as int].ugen is Dyn); }
    @sub? /\(self\.tasks\[([^\]]*)\]\.ugen\)\s*\.set_ar_param_buffer/ => ugen_at(&mut self.tasks, \1).set_ar_param_buffer
    @sub? /unsafe \{/ => {
    @sub? /self\.applied\.store\(([^,]*), Ordering::\w+\)/ => store(&mut self.applied, \1)
    @loop 0
        invariant
            n == self.tasks@.len(), new == old(self).tasks@, before == old(old_task_data).tasks@, n == new.len(), *ctx == *old(ctx),
            fits(new, before.len() as int), all_dyn(before), old_task_data.tasks@.len() == before.len(),
            forall|k: int| 0 <= k < i ==> #[trigger] self.tasks@[k] == with_ugens(new, before)[k],
            forall|k: int| i <= k < n ==> #[trigger] self.tasks@[k] == new[k],
            // what is not yet taken is where it was
            forall|k: int| 0 <= k < before.len() && (forall|m: int| 0 <= m < i ==> (#[trigger] new[m]).ugen != UGenEnum::TakeFromTask(k as usize)) ==> #[trigger] old_task_data.tasks@[k] == before[k],
            self.rest(*old(self)), old_task_data.rest(*old(old_task_data)), old_task_data.tasks@.len() == old(old_task_data).tasks@.len(),
    @loop 1
        invariant
            self.tasks@ =~= tasks, all_dyn(tasks), tasks =~= with_ugens(old(self).tasks@, old(old_task_data).tasks@),
            forall|i: int| 0 <= i < old(self).ar_parameter_changes@.len() ==> (#[trigger] old(self).ar_parameter_changes@[i]).node < tasks.len(),
            old(ctx).then(*ctx, buffer_calls(tasks, old(self).ar_parameter_changes@, k as int)),
            self.rest(*old(self)), old_task_data.rest(*old(old_task_data)), old_task_data.tasks@.len() == old(old_task_data).tasks@.len(),
    @sig? /TaskData<F>/ => TaskData
    @*/
}
/// SchedulingToken. Only the audio thread activates one, at the start of a block (scheduling.rs), so that it does not change here.
#[verifier::external_body]
pub struct Token { x: u8 }
uninterp spec fn active(t: Token) -> bool;
#[verifier::external_body]
fn token_ready(t: &Option<Token>) -> (r: bool) ensures r == (*t is Some ==> active(t->0)) { unimplemented!() }
#[verifier::external_body]
pub struct Time { x: u8 }
/// to_samples_until_due is under contract in time.vrs: here, some number of frames, and what becomes of the time
uninterp spec fn due(t: Time, block_size: u64, sample_rate: u64, clock: u64) -> u64;
uninterp spec fn later(t: Time, block_size: u64, sample_rate: u64, clock: u64) -> Time;
impl Time {
    #[verifier::external_body]
    fn to_samples_until_due(&mut self, block_size: u64, sample_rate: u64, clock: u64) -> (r: u64)
        ensures r == due(*old(self), block_size, sample_rate, clock), *final(self) == later(*old(self), block_size, sample_rate, clock) { unimplemented!() }
}
/*@struct knaster_graph/src/scheduling.rs | SchedulingEvent | /SchedulingToken/ => Token @*/
/// when and to what changes are applied
ghost struct At { bs: u64, sr: u64, clock: u64, keys: Seq<NodeKey>, tasks: Seq<Task> }
impl At {
    spec fn delay(self, e: SchedulingEvent) -> u64 { match e.time { Some(t) => due(t, self.bs, self.sr, self.clock), None => 0 } }
    /// its token, if any, is active, and it is due in this block
    spec fn ready(self, e: SchedulingEvent) -> bool { (e.token is Some ==> active(e.token->0)) && (e.time is Some ==> self.delay(e) < self.bs) }
    /// the task of its node: the first with its key, -1 if there is none
    spec fn place(self, key: NodeKey, n: int) -> int decreases n {
        if n <= 0 { -1 } else { let p = self.place(key, n - 1); if p >= 0 { p } else if self.keys[n - 1] == key { n - 1 } else { -1 } }
    }
    spec fn task_of(self, e: SchedulingEvent) -> int { self.place(e.node_key, if self.keys.len() < self.tasks.len() { self.keys.len() as int } else { self.tasks.len() as int }) }
    spec fn applies(self, e: SchedulingEvent) -> bool { self.ready(e) && self.task_of(e) >= 0 }
    /// the change as it waits for the next block
    spec fn waited(self, e: SchedulingEvent) -> SchedulingEvent { SchedulingEvent { time: match e.time { Some(t) => Some(later(t, self.bs, self.sr, self.clock)), None => None }, ..e } }
    spec fn delay_calls(self, e: SchedulingEvent, id: int) -> Seq<Call> { if self.delay(e) > 0 { seq![Call::Delay(id, e.parameter, self.delay(e) as u16)] } else { Seq::empty() } }
    spec fn smoothing_calls(self, e: SchedulingEvent, id: int) -> Seq<Call> {
        match e.smoothing { Some(s) => self.delay_calls(e, id) + seq![Call::Set(id, e.parameter, ParameterValue::Smoothing(s, Rate::BlockRate))], None => Seq::empty() }
    }
    spec fn value_calls(self, e: SchedulingEvent, id: int) -> Seq<Call> {
        match e.value { Some(v) => self.delay_calls(e, id) + seq![Call::Set(id, e.parameter, v)], None => Seq::empty() }
    }
    /// what a change calls in this block
    spec fn calls(self, e: SchedulingEvent) -> Seq<Call> {
        if self.applies(e) { let id = self.tasks[self.task_of(e)].ugen.id(); self.smoothing_calls(e, id) + self.value_calls(e, id) } else { Seq::empty() }
    }
    proof fn place_is(self, key: NodeKey, n: int)
        ensures -1 <= self.place(key, n), n >= 0 ==> self.place(key, n) < n,
            self.place(key, n) >= 0 ==> self.keys[self.place(key, n)] == key && forall|i: int| 0 <= i < self.place(key, n) ==> self.keys[i] != key,
            self.place(key, n) < 0 ==> forall|i: int| 0 <= i < n ==> self.keys[i] != key,
        decreases n
    { if n > 0 { self.place_is(key, n - 1); } }
    /// the first one found is the place
    proof fn place_found(self, key: NodeKey, i: int, n: int)
        requires 0 <= i < n, self.keys[i] == key, self.place(key, i) < 0
        ensures self.place(key, n) == i
        decreases n
    { if n > i + 1 { self.place_found(key, i, n - 1); } }
}
/*@extract knaster_graph/src/graph_gen.rs | - | apply_parameter_change | ret=r
    requires
        all_dyn(old(tasks)@), keys@.len() <= old(tasks)@.len(),
    ensures
        final(tasks)@ =~= old(tasks)@,
        ({
            let at = At { bs: block_size, sr: sample_rate, clock: old(ctx).frame_clock, keys: keys@, tasks: old(tasks)@ };
            &&& old(ctx).then(*final(ctx), at.calls(event0))
            &&& r == if at.applies(event0) { None } else { Some((at.waited(event0), at.ready(event0))) }
        }),
    @sub? /event\.token\.as_ref\(\)\.is_none_or\(\|(\w+)\| \1\.is_activated\(\)\)/ => token_ready(&event.token)
    @sub? /,\s*ctx\.logger\(\)\)/ => )
    @sub? /for \(key, task\) in keys\.iter\(\)\.zip\(tasks\.iter_mut\(\)\) \{/ => let n = if keys.len() < tasks.len() { keys.len() } else { tasks.len() }; let ghost tasks0 = tasks@; let ghost at = At { bs: block_size, sr: sample_rate, clock: old(ctx).frame_clock, keys: keys@, tasks: tasks0 }; for i in 0..n { let key = &keys[i];
    @sub? /let g = &mut task\.ugen;/ => proof { at.place_found(node_key, i as int, n as int); assert(tasks@[i as int].ugen is Dyn); } let g = ugen_at(tasks, i);
    @sub? /smoothing\.into\(\)/ => ParameterSmoothing::into(smoothing)
    @start
        let mut event = event0;
    @loop 0
        invariant
            n == keys@.len(), n <= tasks@.len(), tasks@ =~= tasks0, *ctx == *old(ctx), all_dyn(tasks0), tasks0 =~= old(tasks)@,
            at == (At { bs: block_size, sr: sample_rate, clock: old(ctx).frame_clock, keys: keys@, tasks: tasks0 }),
            at.place(node_key, i as int) < 0, node_key == event0.node_key, ready_to_apply, at.ready(event0), delay_in_block == at.delay(event0),
            event == at.waited(event0),
    @sig? /(?:mut )?event: SchedulingEvent/ => event0: SchedulingEvent
    @sig? /'a, F: Float/ => 'a
    @sig? /&'a mut \[Task<F>\]/ => &'a mut Vec<Task>
@*/

/// the samples of a channel, and where they are
pub struct Samples { p: Ptr, s: Ghost<Seq<F>> }
impl Samples { fn as_ptr(&self) -> (r: Ptr) ensures r == self.p { self.p } }
#[verifier::external_body]
fn samples_at(ctx: &AudioCtx, p: Ptr, n: usize) -> (r: Samples) ensures r.s@ == memory(ctx.log@, p, n as int), r.s@.len() == n { unimplemented!() }
/// BlockRead
#[verifier::external_body]
pub struct InBlock { x: u8 }
impl InBlock {
    uninterp spec fn channels(self) -> nat;
    uninterp spec fn ch(self, c: int) -> Seq<F>;
    uninterp spec fn ptr(self, c: int) -> Ptr;
    /// every channel has n frames
    spec fn frames(self, n: int) -> bool { forall|c: int| 0 <= c < self.channels() ==> (#[trigger] self.ch(c)).len() == n }
    #[verifier::external_body]
    fn channel_as_slice(&self, c: usize) -> (r: Samples) requires c < self.channels() ensures r.s@ == self.ch(c as int), r.p == self.ptr(c as int) { unimplemented!() }
}
/// a channel to be written
pub struct Channel { v: Vec<F> }
impl Channel {
    spec fn s(self) -> Seq<F> { self.v@ }
    fn len(&self) -> (r: usize) ensures r == self.s().len() { self.v.len() }
    #[verifier::external_body]
    fn fill(&mut self, v: F) ensures final(self).s() == Seq::new(old(self).s().len(), |i: int| v) { unimplemented!() }
    #[verifier::external_body]
    fn copy_from_slice(&mut self, x: &Samples) requires old(self).s().len() == x.s@.len() ensures final(self).s() == x.s@ { unimplemented!() }
    fn put(&mut self, i: usize, v: F) requires i < old(self).s().len() ensures final(self).s() == old(self).s().update(i as int, v) { self.v.set(i, v); }
}
/// Block
pub struct OutBlock { c: Vec<Channel> }
impl OutBlock {
    spec fn channels(self) -> nat { self.c@.len() }
    spec fn ch(self, c: int) -> Seq<F> { self.c@[c].s() }
    spec fn frames(self, n: int) -> bool { forall|c: int| 0 <= c < self.channels() ==> (#[trigger] self.ch(c)).len() == n }
    fn count(&self) -> (r: usize) ensures r == self.channels() { self.c.len() }
    #[verifier::external_body]
    fn nth(&mut self, i: usize) -> (r: &mut Channel) requires i < old(self).channels() ensures *r == old(self).c@[i as int], final(self).c@ == old(self).c@.update(i as int, *final(r)) { unimplemented!() }
}
spec fn silence(n: int) -> Seq<F> { Seq::new(n as nat, |i: int| f0()) }
/// a sequence which is silent from some frame on
spec fn cut(s: Seq<F>, at: Option<u32>) -> Seq<F> { match at { Some(k) => Seq::new(s.len(), |i: int| if i < k { s[i] } else { f0() }), None => s } }
pub enum PushError { Full(TaskData) }
/// rtrb::Consumer<TaskData>: what is there when slots() is called; what comes later is behind it
#[verifier::external_body]
pub struct NewTasks { x: u8 }
impl NewTasks {
    uninterp spec fn q(self) -> Seq<TaskData>;
    #[verifier::external_body]
    fn slots(&self) -> (r: usize) ensures r == self.q().len() { unimplemented!() }
    #[verifier::external_body]
    fn read_chunk(&mut self, n: usize) -> (r: Result<TasksChunk, ()>)
        ensures r is Ok <==> n <= old(self).q().len(), r is Ok ==> r->Ok_0.m() == old(self).q().take(n as int) && final(self).q() == old(self).q().skip(n as int), r is Err ==> final(self).q() == old(self).q() { unimplemented!() }
}
#[verifier::external_body]
pub struct TasksChunk { x: u8 }
impl TasksChunk {
    uninterp spec fn m(self) -> Seq<TaskData>;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<TaskData>) ensures old(self).m().len() == 0 ==> r is None && final(self).m() == old(self).m(), old(self).m().len() > 0 ==> r == Some(old(self).m()[0]) && final(self).m() == old(self).m().skip(1) { unimplemented!() }
}
/// rtrb::Producer<TaskData>: what was sent; the other end may make room at any time
#[verifier::external_body]
pub struct OldTasks { x: u8 }
impl OldTasks {
    uninterp spec fn sent(self) -> Seq<TaskData>;
    uninterp spec fn room(self) -> nat;
    #[verifier::external_body]
    fn push(&mut self, t: TaskData) -> (r: Result<(), PushError>)
        ensures old(self).room() > 0 ==> r is Ok && final(self).room() >= old(self).room() - 1, r is Ok ==> final(self).sent() == old(self).sent().push(t), r is Err ==> final(self).sent() == old(self).sent() { unimplemented!() }
}
#[verifier::external_body]
pub struct NewEvents { x: u8 }
impl NewEvents {
    uninterp spec fn q(self) -> Seq<SchedulingEvent>;
    #[verifier::external_body]
    fn slots(&self) -> (r: usize) ensures r == self.q().len() { unimplemented!() }
    #[verifier::external_body]
    fn read_chunk(&mut self, n: usize) -> (r: Result<EventsChunk, ()>)
        ensures r is Ok <==> n <= old(self).q().len(), r is Ok ==> r->Ok_0.m() == old(self).q().take(n as int) && final(self).q() == old(self).q().skip(n as int), r is Err ==> final(self).q() == old(self).q() { unimplemented!() }
}
#[verifier::external_body]
pub struct EventsChunk { x: u8 }
impl EventsChunk {
    uninterp spec fn m(self) -> Seq<SchedulingEvent>;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<SchedulingEvent>) ensures old(self).m().len() == 0 ==> r is None && final(self).m() == old(self).m(), old(self).m().len() > 0 ==> r == Some(old(self).m()[0]) && final(self).m() == old(self).m().skip(1) { unimplemented!() }
}
type Waits = Seq<(SchedulingEvent, u32)>;
/// VecDeque: to push one more than it has capacity for would allocate memory, on the audio thread
#[verifier::external_body]
pub struct Waiting { x: u8 }
impl Waiting {
    uninterp spec fn w(self) -> Waits;
    uninterp spec fn cap(self) -> nat;
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self.w().len() { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (self.w().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    fn capacity(&self) -> (r: usize) ensures r == self.cap() { unimplemented!() }
    #[verifier::external_body]
    fn pop_front(&mut self) -> (r: Option<(SchedulingEvent, u32)>)
        ensures final(self).cap() == old(self).cap(), old(self).w().len() == 0 ==> r is None && final(self).w() == old(self).w(), old(self).w().len() > 0 ==> r == Some(old(self).w()[0]) && final(self).w() == old(self).w().skip(1) { unimplemented!() }
    #[verifier::external_body]
    fn push_back(&mut self, e: (SchedulingEvent, u32)) requires old(self).w().len() < old(self).cap() ensures final(self).cap() == old(self).cap(), final(self).w() == old(self).w().push(e) { unimplemented!() }
}
// ---- what a block does, in the order in which it does it
/// the tasks after n new TaskData
spec fn adopted(t: Seq<Task>, q: Seq<TaskData>, n: int) -> Seq<Task> decreases n { if n <= 0 { t } else { with_ugens(q[n - 1].tasks@, adopted(t, q, n - 1)) } }
spec fn adopt_calls(t: Seq<Task>, q: Seq<TaskData>, n: int) -> Seq<Call> decreases n {
    if n <= 0 { Seq::empty() } else { adopt_calls(t, q, n - 1) + buffer_calls(adopted(t, q, n), q[n - 1].ar_parameter_changes@, q[n - 1].ar_parameter_changes@.len() as int) }
}
/// the one adopted last
spec fn newest(t: TaskData, q: Seq<TaskData>, n: int) -> TaskData { if n <= 0 { t } else { q[n - 1] } }
/// each fits the one before
spec fn chain(t: TaskData, q: Seq<TaskData>, inputs: nat, outputs: nat) -> bool {
    forall|i: int| 0 <= i < q.len() ==> fits((#[trigger] q[i]).tasks@, newest(t, q, i).tasks@.len() as int) && q[i].fine(inputs, outputs)
}
impl At {
    /// a change that waited n blocks too many is dropped, one that is applied is gone, the others wait on; only blocks after it is due count
    spec fn left1(self, keep: u32, e: (SchedulingEvent, u32)) -> Waits {
        if e.1 > keep || self.applies(e.0) { Seq::empty() } else { seq![(self.waited(e.0), (e.1 + if self.ready(e.0) { 1int } else { 0 }) as u32)] }
    }
    spec fn wait_calls1(self, keep: u32, e: (SchedulingEvent, u32)) -> Seq<Call> { if e.1 > keep { Seq::empty() } else { self.calls(e.0) } }
    spec fn left(self, keep: u32, w: Waits, n: int) -> Waits decreases n { if n <= 0 { Seq::empty() } else { self.left(keep, w, n - 1) + self.left1(keep, w[n - 1]) } }
    spec fn wait_calls(self, keep: u32, w: Waits, n: int) -> Seq<Call> decreases n { if n <= 0 { Seq::empty() } else { self.wait_calls(keep, w, n - 1) + self.wait_calls1(keep, w[n - 1]) } }
    /// new changes: those that are not applied wait, while there is space for them
    spec fn joined(self, w: Waits, cap: nat, e: Seq<SchedulingEvent>, n: int) -> Waits decreases n {
        if n <= 0 { w } else { let b = self.joined(w, cap, e, n - 1); if !self.applies(e[n - 1]) && b.len() < cap { b.push((self.waited(e[n - 1]), 0)) } else { b } }
    }
    spec fn new_calls(self, e: Seq<SchedulingEvent>, n: int) -> Seq<Call> decreases n { if n <= 0 { Seq::empty() } else { self.new_calls(e, n - 1) + self.calls(e[n - 1]) } }
    proof fn left_len(self, keep: u32, w: Waits, n: int) requires n >= 0 ensures self.left(keep, w, n).len() <= n decreases n { if n > 0 { self.left_len(keep, w, n - 1); } }
}
/// the pointers of the inputs of a task after the first n of a list (graph input, input of the node)
spec fn put_node(b: Seq<Ptr>, l: Seq<(usize, usize)>, input: InBlock, n: int) -> Seq<Ptr> decreases n { if n <= 0 { b } else { put_node(b, l, input, n - 1).update(l[n - 1].1 as int, input.ptr(l[n - 1].0 as int)) } }
spec fn put_inputs(b: Seq<Ptr>, node: int, l: Seq<(usize, Vec<(usize, usize)>)>, input: InBlock, n: int) -> Seq<Ptr> decreases n {
    if n <= 0 { b } else { let p = put_inputs(b, node, l, input, n - 1); if l[n - 1].0 == node { put_node(p, l[n - 1].1@, input, l[n - 1].1@.len() as int) } else { p } }
}
/// b is a with the pointers to the inputs of the graph
spec fn inputs_put(a: Seq<Task>, b: Seq<Task>, l: Seq<(usize, Vec<(usize, usize)>)>, input: InBlock, n: int) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] b[i]).ugen == a[i].ugen && b[i].out_buffer == a[i].out_buffer && b[i].output_channels == a[i].output_channels && b[i].in_buffers@ == put_inputs(a[i].in_buffers@, i, l, input, n)
}
proof fn put_node_len(b: Seq<Ptr>, l: Seq<(usize, usize)>, input: InBlock, n: int) ensures put_node(b, l, input, n).len() == b.len() decreases n { if n > 0 { put_node_len(b, l, input, n - 1); } }
proof fn put_inputs_len(b: Seq<Ptr>, node: int, l: Seq<(usize, Vec<(usize, usize)>)>, input: InBlock, n: int) ensures put_inputs(b, node, l, input, n).len() == b.len() decreases n
{ if n > 0 { put_inputs_len(b, node, l, input, n - 1); put_node_len(put_inputs(b, node, l, input, n - 1), l[n - 1].1@, input, l[n - 1].1@.len() as int); } }
/// every task is run once, in order
spec fn runs(t: Seq<Task>, size: usize, n: int) -> Seq<Call> decreases n { if n <= 0 { Seq::empty() } else { runs(t, size, n - 1).push(t[n - 1].run_call(size)) } }
spec fn asked(log: Seq<Call>, t: Seq<Task>, size: usize, n: int) -> Option<u32> decreases n { if n <= 0 { None } else { asks(asked(log, t, size, n - 1), log + runs(t, size, n)) } }
#[verifier::external_body]
fn inputs_at(t: &mut Vec<Task>, i: usize) -> (r: &mut Vec<Ptr>) requires i < old(t)@.len() ensures *r == old(t)@[i as int].in_buffers, final(t)@ == old(t)@.update(i as int, Task { in_buffers: *final(r), ..old(t)@[i as int] }) { unimplemented!() }
/// what an output of the graph gets
spec fn sound(log: Seq<Call>, c: Option<BlockOrGraphInput>, input: InBlock, n: int) -> Seq<F> {
    match c { Some(BlockOrGraphInput::Block(p)) => memory(log, p, n), Some(BlockOrGraphInput::GraphInput(i)) => input.ch(i as int), None => silence(n) }
}
/*@struct knaster_graph/src/graph_gen.rs | GraphGen | /<F: Float, Inputs: Size, Outputs: Size>/ => | /VecDeque<\(SchedulingEvent, u32\)>/ => Waiting | /rtrb::Producer<TaskData<F>>/ => OldTasks | /rtrb::Consumer<TaskData<F>>/ => NewTasks | /current_task_data: TaskData<F>/ => current_task_data: TaskData | /Arc<UnsafeCell<SlotMap<NodeKey, Node<F>>>>/ => Flag | /Arc<OwnedRawBuffer<F>>/ => Memory | /SchedulingChannelConsumer/ => NewEvents | /Arc<AtomicBool>/ => Flag | /(?:pub )?_channels: PhantomData<\(NumericArray<\(\), Inputs>, NumericArray<\(\), Outputs>\)>,/ => @*/
/*@extract knaster_graph/src/graph_gen.rs | impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs> | process_block
    requires
        chain(*old(current), old(td_chunk).m(), inputs, outputs), all_dyn(old(current).tasks@), old(current).fine(inputs, outputs),
    ensures
        final(td_chunk).m().len() == 0,
        ({
            let (q, n) = (old(td_chunk).m(), old(td_chunk).m().len() as int);
            &&& final(current).tasks@ =~= adopted(old(current).tasks@, q, n) && all_dyn(final(current).tasks@)
            &&& final(current).rest(newest(*old(current), q, n)) && final(current).fine(inputs, outputs)
            &&& n > 0 ==> told(final(current).applied)
            &&& old(ctx).then(*final(ctx), adopt_calls(old(current).tasks@, q, n))
            // with room for them, every TaskData that was replaced is sent back, in order
            &&& old(back).room() >= n ==> final(back).sent().len() == old(back).sent().len() + n && forall|i: int| 0 <= i < n ==> (#[trigger] final(back).sent()[old(back).sent().len() + i]).rest(newest(*old(current), q, i))
        }),
    @cutloop 1 => fn adopt(td_chunk: &mut TasksChunk, current: &mut TaskData, back: &mut OldTasks, ctx: &mut AudioCtx, Ghost(inputs): Ghost<nat>, Ghost(outputs): Ghost<nat>)
    @sub? /for mut td in td_chunk \{/ => let ghost q = td_chunk.m(); let ghost mut k = 0int; while let Some(mut td) = td_chunk.next() {
    @sub? /crate::core::mem::replace/ => replace
    @sub? /&mut self\.current_task_data/ => current
    @sub? /self\.task_data_to_be_dropped_producer/ => back
    @sub? /rtrb::PushError/ => PushError
    @sub? /rt_log!\((?:[^"()]|\(\)|"[^"]*")*\);/ =>
    @loop 0
        invariant
            q == old(td_chunk).m(), 0 <= k <= q.len(), td_chunk.m() =~= q.skip(k), chain(*old(current), q, inputs, outputs),
            current.tasks@ =~= adopted(old(current).tasks@, q, k), all_dyn(current.tasks@), current.rest(newest(*old(current), q, k)), current.fine(inputs, outputs), current.tasks@.len() == newest(*old(current), q, k).tasks@.len(),
            k > 0 ==> told(current.applied), old(ctx).then(*ctx, adopt_calls(old(current).tasks@, q, k)),
            old(back).room() >= q.len() ==> back.room() >= q.len() - k && back.sent().len() == old(back).sent().len() + k && forall|i: int| 0 <= i < k ==> (#[trigger] back.sent()[old(back).sent().len() + i]).rest(newest(*old(current), q, i)),
        ensures td_chunk.m().len() == 0
        decreases td_chunk.m().len()
    @loopstart 0
        let ghost t0 = td;
        proof { assert(td == q[k]); assert(q.skip(k).skip(1) =~= q.skip(k + 1)); k = k + 1; }
    @loopend 0
        proof { current.fine_same(t0, inputs, outputs); }
@*/
/*@extract knaster_graph/src/graph_gen.rs | impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs> | process_block
    requires
        n == old(waiting).w().len(), n <= old(waiting).cap(), all_dyn(old(tasks)@), keys@.len() <= old(tasks)@.len(), keep < u32::MAX,
    ensures
        final(tasks)@ =~= old(tasks)@, final(waiting).cap() == old(waiting).cap(), final(waiting).w().len() <= n,
        ({
            let at = At { bs: old(ctx).block_size as u64, sr: old(ctx).sample_rate as u64, clock: old(ctx).frame_clock, keys: keys@, tasks: old(tasks)@ };
            &&& final(waiting).w() =~= at.left(keep, old(waiting).w(), n as int)
            &&& old(ctx).then(*final(ctx), at.wait_calls(keep, old(waiting).w(), n as int))
        }),
    @cutloop 2 => fn apply_waiting(waiting: &mut Waiting, n: usize, keep: u32, ctx: &mut AudioCtx, keys: &Vec<NodeKey>, tasks: &mut Vec<Task>)
    @sub? /for _i in 0\.\.num_waiting_parameter_changes \{/ => let ghost w = waiting.w(); let ghost at = At { bs: old(ctx).block_size as u64, sr: old(ctx).sample_rate as u64, clock: old(ctx).frame_clock, keys: keys@, tasks: tasks@ }; let mut i = 0; while i < n { i += 1;
    @sub? /self\s*\.waiting_parameter_changes/ => waiting
    @sub? /self\.blocks_to_keep_scheduled_changes/ => keep
    @sub? /\.expect\([^)]*\)/ => .unwrap()
    @loop 0
        invariant
            i <= n, n == w.len(), w == old(waiting).w(), waiting.cap() == old(waiting).cap(), n <= waiting.cap(), waiting.w().len() <= n, waiting.w() =~= w.skip(i as int) + at.left(keep, w, i as int), keep < u32::MAX,
            tasks@ =~= old(tasks)@, all_dyn(tasks@), keys@.len() <= tasks@.len(), old(ctx).then(*ctx, at.wait_calls(keep, w, i as int)),
            at == (At { bs: old(ctx).block_size as u64, sr: old(ctx).sample_rate as u64, clock: old(ctx).frame_clock, keys: keys@, tasks: old(tasks)@ }),
        decreases n - i
    @loopstart 0
        proof { at.left_len(keep, w, i as int); assert(waiting.w()[0] == w[i as int]); assert(waiting.w().skip(1) =~= w.skip(i + 1) + at.left(keep, w, i as int)); assert(tasks@ == at.tasks); }
@*/
/*@extract knaster_graph/src/graph_gen.rs | impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs> | process_block
    requires
        old(waiting).w().len() <= old(waiting).cap(), all_dyn(old(tasks)@), keys@.len() <= old(tasks)@.len(),
    ensures
        final(pm_chunk).m().len() == 0, final(tasks)@ =~= old(tasks)@, final(waiting).cap() == old(waiting).cap(), final(waiting).w().len() <= final(waiting).cap(),
        ({
            let at = At { bs: old(ctx).block_size as u64, sr: old(ctx).sample_rate as u64, clock: old(ctx).frame_clock, keys: keys@, tasks: old(tasks)@ };
            let (q, n) = (old(pm_chunk).m(), old(pm_chunk).m().len() as int);
            &&& final(waiting).w() =~= at.joined(old(waiting).w(), old(waiting).cap(), q, n)
            &&& old(ctx).then(*final(ctx), at.new_calls(q, n))
        }),
    @cutloop 3 => fn apply_new(pm_chunk: &mut EventsChunk, waiting: &mut Waiting, ctx: &mut AudioCtx, keys: &Vec<NodeKey>, tasks: &mut Vec<Task>)
    @sub? /for event in pm_chunk \{/ => let ghost q = pm_chunk.m(); let ghost at = At { bs: old(ctx).block_size as u64, sr: old(ctx).sample_rate as u64, clock: old(ctx).frame_clock, keys: keys@, tasks: tasks@ }; let ghost mut k = 0int; while let Some(event) = pm_chunk.next() {
    @sub? /self\s*\.waiting_parameter_changes/ => waiting
    @loop 0
        invariant
            q == old(pm_chunk).m(), 0 <= k <= q.len(), pm_chunk.m() =~= q.skip(k), waiting.cap() == old(waiting).cap(), waiting.w().len() <= waiting.cap(),
            waiting.w() =~= at.joined(old(waiting).w(), old(waiting).cap(), q, k),
            tasks@ =~= old(tasks)@, all_dyn(tasks@), keys@.len() <= tasks@.len(), old(ctx).then(*ctx, at.new_calls(q, k)),
            at == (At { bs: old(ctx).block_size as u64, sr: old(ctx).sample_rate as u64, clock: old(ctx).frame_clock, keys: keys@, tasks: old(tasks)@ }),
        ensures pm_chunk.m().len() == 0
        decreases pm_chunk.m().len()
    @loopstart 0
        proof { assert(tasks@ == at.tasks); assert(event == q[k]); assert(q.skip(k).skip(1) =~= q.skip(k + 1)); k = k + 1; }
@*/
/*@extract knaster_graph/src/graph_gen.rs | impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs> | process_block
    requires
        forall|i: int| 0 <= i < list@.len() ==> inputs_fine(old(tasks)@, #[trigger] list@[i], input.channels()),
    ensures
        inputs_put(old(tasks)@, final(tasks)@, list@, *input, list@.len() as int),
    @cutloop 4 => fn set_inputs(list: &Vec<(usize, Vec<(usize, usize)>)>, tasks: &mut Vec<Task>, input: &InBlock)
    @sub? /for \((\w+), (\w+)\) in graph_input_channels_to_nodes \{/ => for i in 0..list.len() { let \1 = &list[i].0; let \2 = &list[i].1;
    @sub? /let (\w+) = &mut tasks\[([^\]]*)\]\.in_buffers;/ => let \1 = inputs_at(tasks, \2); let ghost b0 = \1@;
    @sub? /for \((\w+), (\w+)\) in graph_input_indices \{/ => for j in 0..graph_input_indices.len() { let \1 = &graph_input_indices[j].0; let \2 = &graph_input_indices[j].1;
    @loop 0
        invariant
            forall|i: int| 0 <= i < list@.len() ==> inputs_fine(old(tasks)@, #[trigger] list@[i], input.channels()),
            inputs_put(old(tasks)@, tasks@, list@, *input, i as int),
    @loopstart 0
        let ghost t0 = tasks@;
        proof { assert(inputs_fine(old(tasks)@, list@[i as int], input.channels())); put_inputs_len(old(tasks)@[list@[i as int].0 as int].in_buffers@, list@[i as int].0 as int, list@, *input, i as int); assert(t0[list@[i as int].0 as int].in_buffers@.len() == old(tasks)@[list@[i as int].0 as int].in_buffers@.len()); }
    @loop 1
        invariant
            node_in_buffers@ =~= put_node(b0, graph_input_indices@, *input, j as int), node_in_buffers@.len() == b0.len(),
            forall|j: int| 0 <= j < graph_input_indices@.len() ==> (#[trigger] graph_input_indices@[j]).0 < input.channels() && graph_input_indices@[j].1 < b0.len(),
@*/
/*@extract knaster_graph/src/graph_gen.rs | impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs> | process_block
    requires
        all_dyn(old(tasks)@),
    ensures
        final(tasks)@ =~= old(tasks)@,
        old(ctx).then(*final(ctx), runs(old(tasks)@, old(ctx).block_size, old(tasks)@.len() as int)),
        removal(*old(new_flags)) is None ==> removal(*final(new_flags)) == asked(old(ctx).log@, old(tasks)@, old(ctx).block_size, old(tasks)@.len() as int),
    @cutloop 6 => fn run_tasks(tasks: &mut Vec<Task>, ctx: &mut AudioCtx, new_flags: &mut UGenFlags)
    @sub? /for task in tasks\.iter_mut\(\) \{/ => let n = tasks.len(); for i in 0..n { proof { assert(tasks@[i as int].ugen is Dyn); } let task = task_at(tasks, i);
    @sub? /&mut new_flags/ => new_flags
    @loop 0
        invariant
            n == tasks@.len(), tasks@ =~= old(tasks)@, all_dyn(tasks@), old(ctx).then(*ctx, runs(old(tasks)@, old(ctx).block_size, i as int)),
            removal(*old(new_flags)) is None ==> removal(*new_flags) == asked(old(ctx).log@, old(tasks)@, old(ctx).block_size, i as int),
    @loopend 0
        proof { assert(ctx.log@ =~= old(ctx).log@ + runs(old(tasks)@, old(ctx).block_size, i + 1)); }
@*/
/*@extract knaster_graph/src/graph_gen.rs | impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs> | process_block
    requires
        old(output).channels() == output_task.channels@.len(), old(output).frames(size as int), input.frames(size as int), 
        forall|i: int| 0 <= i < output_task.channels@.len() ==> match #[trigger] output_task.channels@[i] { Some(BlockOrGraphInput::GraphInput(c)) => c < input.channels(), _ => true },
    ensures
        final(output).channels() == old(output).channels(), final(output).frames(size as int),
        forall|c: int| 0 <= c < old(output).channels() ==> #[trigger] final(output).ch(c) == sound(ctx.log@, output_task.channels@[c], *input, size as int),
    @cutloop 7 => fn set_outputs(output_task: &OutputTask, output: &mut OutBlock, input: &InBlock, ctx: &AudioCtx, size: usize)
    @sub? /for \((\w+), (\w+)\) in output_task\.channels\.iter\(\)\.zip\(output\.iter_mut\(\)\) \{/ => let n = if output_task.channels.len() < output.count() { output_task.channels.len() } else { output.count() }; for i in 0..n { proof { assert(output.ch(i as int).len() == size); } let \1 = &output_task.channels[i]; let \2 = output.nth(i);
    @sub? /crate::task::BlockOrGraphInput/ => BlockOrGraphInput
    @sub? /unsafe \{ slice::from_raw_parts\(([^{}]*)\) \}/ => samples_at(ctx, \1)
    @sub? /self\.block_size/ => size
    @sub? /copy_from_slice\(s\)/ => copy_from_slice(&s)
    @sub? /F::ZERO/ => F::zero()
    @loop 0
        invariant
            n == output_task.channels@.len(), n == output.channels(), n == old(output).channels(), output.frames(size as int), input.frames(size as int),
            forall|i: int| 0 <= i < output_task.channels@.len() ==> match #[trigger] output_task.channels@[i] { Some(BlockOrGraphInput::GraphInput(c)) => c < input.channels(), _ => true },
            forall|c: int| 0 <= c < i ==> #[trigger] output.ch(c) == sound(ctx.log@, output_task.channels@[c], *input, size as int),
    @loopstart 0
        let ghost o0 = *output;
    @loopend 0
        proof { assert(output.ch(i as int) =~= sound(ctx.log@, output_task.channels@[i as int], *input, size as int)); assert forall|c: int| 0 <= c < n && c != i implies #[trigger] output.ch(c) == o0.ch(c) by {} }
@*/
/*@extract knaster_graph/src/graph_gen.rs | impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs> | process_block
    requires
        old(output).frames(size as int), frame_num < size,
    ensures
        final(output).channels() == old(output).channels(), final(output).frames(size as int),
        forall|c: int| 0 <= c < old(output).channels() ==> #[trigger] final(output).ch(c) == cut(old(output).ch(c), Some(frame_num)),
    @cutloop 8 => fn silence_from(output: &mut OutBlock, frame_num: u32, size: usize)
    @sub? /for channel in output\.iter_mut\(\) \{/ => let n = output.count(); for i in 0..n { proof { assert(output.ch(i as int).len() == size); } let channel = output.nth(i); let ghost c0 = channel.s();
    @sub? /for sample in &mut channel\[([^\]]*)\.\.\] \{/ => let len = channel.len(); for f in \1..len {
    @sub? /\*sample = F::ZERO;/ => channel.put(f, F::zero());
    @loop 0
        invariant
            n == output.channels(), n == old(output).channels(), output.frames(size as int), frame_num < size,
            forall|c: int| 0 <= c < n ==> #[trigger] output.ch(c) == (if c < i { cut(old(output).ch(c), Some(frame_num)) } else { old(output).ch(c) }),
    @loopstart 0
        let ghost o0 = *output;
    @loop 1
        invariant
            len == size, c0.len() == len, channel.s().len() == len, frame_num <= f,
            forall|k: int| 0 <= k < len ==> #[trigger] channel.s()[k] == (if frame_num <= k < f { f0() } else { c0[k] }),
    @loopend 0
        proof { assert(output.ch(i as int) =~= cut(c0, Some(frame_num))); assert forall|c: int| 0 <= c < n && c != i implies #[trigger] output.ch(c) == o0.ch(c) by {} }
@*/
/*@extract knaster_graph/src/graph_gen.rs | impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs> | process_block
    ensures
        final(output).channels() == old(output).channels(),
        forall|c: int| 0 <= c < old(output).channels() ==> #[trigger] final(output).ch(c) == silence(old(output).ch(c).len() as int),
    @cutloop 0 => fn silence_all(output: &mut OutBlock)
    @sub? /for (\w+) in output\.iter_mut\(\) \{/ => let n = output.count(); for i in 0..n { let \1 = output.nth(i);
    @sub? /F::ZERO/ => F::zero()
    @loop 0
        invariant
            n == output.channels(), n == old(output).channels(),
            forall|c: int| 0 <= c < n ==> #[trigger] output.ch(c) == (if c < i { silence(old(output).ch(c).len() as int) } else { old(output).ch(c) }),
    @loopstart 0
        let ghost o0 = *output;
    @loopend 0
        proof { assert(output.ch(i as int) =~= silence(o0.ch(i as int).len() as int)); assert forall|c: int| 0 <= c < n && c != i implies #[trigger] output.ch(c) == o0.ch(c) by {} }
@*/
fn check(b: bool) requires b {}
impl GraphGen {
    /// what holds between blocks, for a graph with so many inputs and outputs
    spec fn wf(self, inputs: nat, outputs: nat) -> bool {
        &&& all_dyn(self.current_task_data.tasks@) && self.current_task_data.fine(inputs, outputs)
        &&& self.waiting_parameter_changes.w().len() <= self.waiting_parameter_changes.cap()
        &&& self.blocks_to_keep_scheduled_changes < u32::MAX
    }
    spec fn new_data(self) -> Seq<TaskData> { self.new_task_data_consumer.q() }
    spec fn new_events(self) -> Seq<SchedulingEvent> { self.scheduling_event_receiver.q() }
    /// the TaskData and the tasks of the coming block
    spec fn data(self) -> TaskData { newest(self.current_task_data, self.new_data(), self.new_data().len() as int) }
    spec fn tasks(self) -> Seq<Task> { adopted(self.current_task_data.tasks@, self.new_data(), self.new_data().len() as int) }
    spec fn at(self, c: AudioCtx) -> At { At { bs: c.block_size as u64, sr: c.sample_rate as u64, clock: c.frame_clock, keys: self.data().node_task_order@, tasks: self.tasks() } }
    spec fn adopt_calls(self) -> Seq<Call> { adopt_calls(self.current_task_data.tasks@, self.new_data(), self.new_data().len() as int) }
    spec fn waiting_calls(self, c: AudioCtx) -> Seq<Call> { let w = self.waiting_parameter_changes.w(); self.at(c).wait_calls(self.blocks_to_keep_scheduled_changes, w, w.len() as int) }
    spec fn event_calls(self, c: AudioCtx) -> Seq<Call> { self.at(c).new_calls(self.new_events(), self.new_events().len() as int) }
    spec fn run_calls(self, c: AudioCtx) -> Seq<Call> { runs(self.current_task_data.tasks@, c.block_size, self.current_task_data.tasks@.len() as int) }
    /// the changes that wait after the block
    spec fn still_waiting(self, c: AudioCtx) -> Waits {
        let w = self.waiting_parameter_changes.w();
        self.at(c).joined(self.at(c).left(self.blocks_to_keep_scheduled_changes, w, w.len() as int), self.waiting_parameter_changes.cap(), self.new_events(), self.new_events().len() as int)
    }
    /// everything that was asked before the tasks run: adoption of what is new, changes that waited, new changes
    spec fn before_run(self, c: AudioCtx) -> Seq<Call> { self.adopt_calls() + self.waiting_calls(c) + self.event_calls(c) }
    /*@extract knaster_graph/src/graph_gen.rs | impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs> | process_block
    requires
        old(self).wf(input.channels(), old(output).channels()), chain(old(self).current_task_data, old(self).new_data(), input.channels(), old(output).channels()),
        old(self).block_size == old(ctx).block_size, input.frames(old(self).block_size as int), old(output).frames(old(self).block_size as int),
    ensures
        final(output).channels() == old(output).channels(), final(self).wf(input.channels(), old(output).channels()),
        // a graph that asked to be removed is silent and does nothing
        old(self).freed ==> *final(self) == *old(self) && *final(ctx) == *old(ctx) && forall|c: int| 0 <= c < old(output).channels() ==> #[trigger] final(output).ch(c) == silence(old(self).block_size as int),
        !old(self).freed ==> {
            let n = old(self).block_size as int;
            let log = old(ctx).log@ + old(self).before_run(*old(ctx));
            let asked = asked(log, final(self).current_task_data.tasks@, old(ctx).block_size, old(self).tasks().len() as int);
            // everything that happens, in order: each change once, in the block it is due, and then each task once
            &&& old(ctx).then(*final(ctx), old(self).before_run(*old(ctx)) + final(self).run_calls(*old(ctx)))
            // the newest tasks, with the UGens of those before, read from the inputs of the graph of this block
            &&& inputs_put(old(self).tasks(), final(self).current_task_data.tasks@, old(self).data().graph_input_channels_to_nodes@, *input, old(self).data().graph_input_channels_to_nodes@.len() as int)
            &&& final(self).current_task_data.node_task_order == old(self).data().node_task_order && final(self).current_task_data.output_task == old(self).data().output_task
            // their memory is held from now on
            &&& old(self).data().current_buffer_allocation is Some ==> final(self)._arc_buffer_allocation_ptr == old(self).data().current_buffer_allocation->0
            &&& old(self).data().current_buffer_allocation is None ==> final(self)._arc_buffer_allocation_ptr == old(self)._arc_buffer_allocation_ptr
            &&& final(self).waiting_parameter_changes.w() =~= old(self).still_waiting(*old(ctx)) && final(self).waiting_parameter_changes.cap() == old(self).waiting_parameter_changes.cap()
            &&& final(self).new_data().len() == 0 && final(self).new_events().len() == 0
            // with room for them, everything that was replaced is sent back to be dropped elsewhere
            &&& old(self).task_data_to_be_dropped_producer.room() >= old(self).new_data().len() ==> final(self).task_data_to_be_dropped_producer.sent().len() == old(self).task_data_to_be_dropped_producer.sent().len() + old(self).new_data().len()
            // what is heard
            &&& forall|c: int| 0 <= c < old(output).channels() ==> #[trigger] final(output).ch(c) == cut(sound(final(ctx).log@, old(self).data().output_task.channels@[c], *input, n), asked)
            &&& final(self).freed == (asked is Some) && (asked is Some ==> told(final(self).remove_me_flag)) && (asked is None ==> final(self).remove_me_flag == old(self).remove_me_flag)
        },
    @callloop 0 => silence_all(output);
    @callloop 1 => proof { assert(td_chunk.m() =~= g0.new_data()); } adopt(&mut td_chunk, &mut self.current_task_data, &mut self.task_data_to_be_dropped_producer, ctx, Ghost(input.channels()), Ghost(output.channels()));
    @callloop 2 => apply_waiting(&mut self.waiting_parameter_changes, num_waiting_parameter_changes, self.blocks_to_keep_scheduled_changes, ctx, keys, tasks);
    @callloop 3 => let ghost logw = ctx.log@; proof { assert(self.waiting_parameter_changes.w() =~= g0.at(c0).left(g0.blocks_to_keep_scheduled_changes, g0.waiting_parameter_changes.w(), g0.waiting_parameter_changes.w().len() as int)); assert(tasks@ =~= g0.tasks()); assert(logw =~= c0.log@ + (g0.adopt_calls() + g0.waiting_calls(c0))); assert(pm_chunk.m() =~= g0.new_events()); } apply_new(&mut pm_chunk, &mut self.waiting_parameter_changes, ctx, keys, tasks);
    @callloop 4 => let ghost t1 = self.current_task_data; set_inputs(&self.current_task_data.graph_input_channels_to_nodes, &mut self.current_task_data.tasks, input); proof { g0.puts(self.current_task_data, t1, *input, output.channels()); }
    @callloop 6 => let ghost log1 = ctx.log@; proof { assert(log1 =~= c0.log@ + g0.before_run(c0)); } run_tasks(&mut self.current_task_data.tasks, ctx, &mut new_flags);
    @callloop 7 => set_outputs(&self.current_task_data.output_task, output, input, &*ctx, self.block_size);
    @callloop 8 => silence_from(output, frame_num, self.block_size);
    @sub? /if let Ok\((td_chunk|pm_chunk)\)/ => if let Ok(mut \1)
    @sub? /let task_data = &mut self\.current_task_data;/ =>
    @sub? /let TaskData \{[^}]*\} = task_data;/ =>
    @sub? /new_buffer_allocation\.take\(\)/ => self.current_task_data.current_buffer_allocation.take()
    @sub? /debug_assert_eq!\(([^,]*), Outputs::USIZE\)/ => check(self.current_task_data.\1 == output.count())
    @sub? /self\.remove_me_flag\.store\(([^,]*), Ordering::\w+\)/ => store(&mut self.remove_me_flag, \1)
    @start
        let ghost g0 = *self; let ghost c0 = *ctx;
    @sig? /<InBlock, OutBlock>/ =>
    @sig? /where.*$/ =>
    @*/
    proof fn puts(self, t: TaskData, t1: TaskData, input: InBlock, outputs: nat)
        requires inputs_put(t1.tasks@, t.tasks@, t1.graph_input_channels_to_nodes@, input, t1.graph_input_channels_to_nodes@.len() as int), t1.fine(input.channels(), outputs), t.rest(t1), all_dyn(t1.tasks@)
        ensures t.fine(input.channels(), outputs), all_dyn(t.tasks@)
    {
        let l = t1.graph_input_channels_to_nodes@;
        assert forall|i: int| 0 <= i < t1.tasks@.len() implies (#[trigger] t.tasks@[i]).in_buffers@.len() == t1.tasks@[i].in_buffers@.len() by { put_inputs_len(t1.tasks@[i].in_buffers@, i, l, input, l.len() as int); }
        t.fine_same(t1, input.channels(), outputs);
    }
}
}
fn main() {}
