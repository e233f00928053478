// ---- queue entries (W = Weight); #[derive(Ord)] is lexicographic: key first, then node
#[derive(Clone, Copy)]
//@item engine/src/algo/dijkstra.rs struct State State<W>=>State key:~W=>key:~Weight
spec fn state_cmp(a: State, b: State) -> core::cmp::Ordering {
    if a.key < b.key { core::cmp::Ordering::Less } else if a.key > b.key { core::cmp::Ordering::Greater }
    else if a.node < b.node { core::cmp::Ordering::Less } else if a.node > b.node { core::cmp::Ordering::Greater } else { core::cmp::Ordering::Equal }
}
fn vf_state_cmp(a: &State, b: &State) -> (r: core::cmp::Ordering) ensures r == state_cmp(*a, *b) {
    if a.key < b.key { core::cmp::Ordering::Less } else if a.key > b.key { core::cmp::Ordering::Greater }
    else if a.node < b.node { core::cmp::Ordering::Less } else if a.node > b.node { core::cmp::Ordering::Greater } else { core::cmp::Ordering::Equal }
}
impl PartialEqSpecImpl for State { closed spec fn obeys_eq_spec() -> bool { true } closed spec fn eq_spec(&self, o: &State) -> bool { *self == *o } }
impl PartialEq for State { fn eq(&self, o: &State) -> (r: bool) { self.key == o.key && self.node == o.node } }
impl Eq for State { }
impl PartialOrdSpecImpl for State { closed spec fn obeys_partial_cmp_spec() -> bool { true } closed spec fn partial_cmp_spec(&self, o: &State) -> Option<core::cmp::Ordering> { Some(state_cmp(*self, *o)) } }
impl PartialOrd for State { fn partial_cmp(&self, o: &State) -> (r: Option<core::cmp::Ordering>) { Some(vf_state_cmp(self, o)) } }
impl OrdSpecImpl for State { closed spec fn obeys_cmp_spec() -> bool { true } closed spec fn cmp_spec(&self, o: &State) -> core::cmp::Ordering { state_cmp(*self, *o) } }
impl Ord for State { fn cmp(&self, o: &State) -> (r: core::cmp::Ordering) { vf_state_cmp(self, o) } }
proof fn lemma_state_ord()
    ensures ord_ok::<State>()
{ }
impl Indexing for State {
    spec fn idx(&self) -> usize { self.node as usize }
//@fn engine/src/algo/dijkstra.rs Indexing for State::as_index
//@endfn
}
