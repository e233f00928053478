/// std: slice::binary_search_by_key with the identity as key
#[verifier::external_body]
fn vf_binary_search(v: &[u32], x: u32) -> (r: Result<usize, usize>)
    requires forall|i: int, j: int| 0 <= i <= j < v@.len() ==> #[trigger] v@[i] <= #[trigger] v@[j]
    ensures r matches Ok(k) ==> k < v@.len() && v@[k as int] == x,
        r matches Err(k) ==> k <= v@.len() && (forall|i: int| 0 <= i < k ==> #[trigger] v@[i] < x) && (forall|i: int| k <= i < v@.len() ==> #[trigger] v@[i] > x)
{ v.binary_search(&x) }
//@item engine/src/datastr/graph/time_dependent/sorted_search_slice_ext.rs enum Location
/// breakpoints of a function over one period: strictly increasing from 0 to the end of the period
spec fn full_period(dt: Seq<u32>) -> bool {
    &&& dt.len() >= 2 && dt[0] == 0 && dt[dt.len() - 1] == PERIOD
    &&& forall|i: int, j: int| 0 <= i < j < dt.len() ==> #[trigger] dt[i] < #[trigger] dt[j]
}
/// where a time lies among the breakpoints
spec fn located(dt: Seq<u32>, time: int, l: Location) -> bool {
    match l {
        Location::On(i) => i < dt.len() && dt[i as int] == time,
        Location::Between(a, b) => b == a + 1 && b < dt.len() && dt[a as int] < time < dt[b as int],
    }
}
trait FullPeriodTimestampSliceExt {
    spec fn dts(&self) -> Seq<u32>;
    fn locate(&self, time: Timestamp) -> Location
        requires full_period(self.dts()), time <= PERIOD;
    fn index_range(&self, range: &Range<Timestamp>) -> Range<usize>
        requires full_period(self.dts()), range.start <= range.end <= PERIOD;
}
// `impl<T> FullPeriodTimestampSliceExt for [T]` at T = Timestamp with the identity as key function (its only use)
impl FullPeriodTimestampSliceExt for [u32] {
    spec fn dts(&self) -> Seq<u32> { self@ }
//@fn engine/src/datastr/graph/time_dependent/sorted_search_slice_ext.rs FullPeriodTimestampSliceExt for T::locate
//@sig fn locate(&self, time: Timestamp) -> (r: Location)
//@rw sub self.binary_search_by_key(&time, f) => vf_binary_search(self, time)
//@spec
    ensures located(self@, time as int, r)
//@endfn
//@fn engine/src/datastr/graph/time_dependent/sorted_search_slice_ext.rs FullPeriodTimestampSliceExt for T::index_range
//@sig fn index_range(&self, range: &Range<Timestamp>) -> (r: Range<usize>)
//@rw sub self.locate($x, |el| f(el)) => self.locate($x)
//@at start
    proof { assert(vstd::slice::spec_slice_len(self) == self@.len()); }
//@spec
    ensures r.start <= r.end <= self@.len(),
        // exactly the breakpoints needed to cover the range: the segments between consecutive ones meet the range, all others do not
        range.start == range.end ==> r.start == r.end,
        range.start < range.end ==> r.start + 2 <= r.end,
        forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() - 1 && range.start < range.end ==>
            ((r.start <= i && i + 1 < r.end) <==> (self@[i] < range.end && range.start < self@[i + 1])),
//@endfn
}
