// ---- stand-ins for the types of the slotmap crate and for raw memory; everything marked external_body is assumed
#[verifier::external_body]
pub struct Opaque { x: u8 }
/// a key of the slotmap crate
pub type NodeKey = u64;
/// slotmap::SlotMap and slotmap::SecondaryMap: a map from keys
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct SlotMap<T> { v: Vec<T> }
impl<T> SlotMap<T> {
    pub uninterp spec fn view(&self) -> Map<NodeKey, T>;
    pub open spec fn has(&self, k: NodeKey) -> bool { self@.dom().contains(k) }
    /// `self[k]`, which panics without the key
    #[verifier::external_body]
    pub fn at(&self, k: NodeKey) -> (r: &T) requires self.has(k) ensures *r == self@[k] { unimplemented!() }
    #[verifier::external_body]
    pub fn at_mut(&mut self, k: NodeKey) -> (r: &mut T) requires old(self).has(k) ensures *r == old(self)@[k], final(self)@ == old(self)@.insert(k, *final(r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: NodeKey) -> (r: Option<&T>) ensures r == (if self.has(k) { Some(&self@[k]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: NodeKey) -> (r: bool) ensures r == self.has(k) { unimplemented!() }
    /// SlotMap::insert: the key is new
    #[verifier::external_body]
    pub fn insert_new(&mut self, v: T) -> (k: NodeKey) ensures !old(self).has(k), final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    /// SecondaryMap::insert
    #[verifier::external_body]
    pub fn insert(&mut self, k: NodeKey, v: T) -> (r: Option<T>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: NodeKey) -> (r: Option<T>) ensures final(self)@ == old(self)@.remove(k), r == (if old(self).has(k) { Some(old(self)@[k]) } else { None }) { unimplemented!() }
    /// what iteration visits: every key once
    #[verifier::external_body]
    pub fn entries(&self) -> (r: Vec<(NodeKey, &T)>)
        ensures r@.len() == self@.dom().len(), forall|i: int| 0 <= i < r@.len() ==> self.has((#[trigger] r@[i]).0) && *r@[i].1 == self@[r@[i].0],
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).0 != (#[trigger] r@[j]).0,
            forall|k: NodeKey| self.has(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0 == k,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn keys(&self) -> (r: Vec<NodeKey>)
        ensures r@.len() == self@.dom().len(), r@.no_duplicates(), forall|k: NodeKey| self.has(k) <==> r@.contains(k),
    { unimplemented!() }
}
/// two maps with the same entries are the same
#[verifier::external_body]
pub proof fn same_map<T>(a: SlotMap<T>, b: SlotMap<T>) requires a@ =~= b@ ensures a == b {}
