spec fn rset(r: Range<u32>) -> ISet<int> { ISet::new(|t: int| r.start <= t < r.end) }
proof fn lemma_rset_empty() ensures forall|r: Range<u32>| #[trigger] rset(r) =~= ISet::empty() <==> r.start >= r.end
{ assert forall|r: Range<u32>| #[trigger] rset(r) =~= ISet::empty() <==> r.start >= r.end by { if r.start < r.end { assert(rset(r).contains(r.start as int)); } } }
//@include period.inc
trait RangeExtensions: Sized {
    type Idx;
    fn intersection(&self, other: &Self) -> Self;
    fn is_intersection_empty(&self, other: &Self) -> bool;
    fn split(self, split_at: Self::Idx) -> (Self, Self);
}
// `impl<T: Ord + Copy> RangeExtensions for Range<T>`, at its only instance T = Timestamp
impl RangeExtensions for Range<u32> {
    type Idx = u32;
//@fn engine/src/datastr/graph/time_dependent/math.rs RangeExtensions for Range::intersection
//@spec
    ensures rset(r) =~= rset(*self).intersect(rset(*other))
//@endfn
//@fn engine/src/datastr/graph/time_dependent/math.rs RangeExtensions for Range::is_intersection_empty
//@spec
    ensures r <==> rset(*self).intersect(rset(*other)) =~= ISet::empty()
//@at start
    proof { lemma_rset_empty(); }
//@endfn
//@fn engine/src/datastr/graph/time_dependent/math.rs RangeExtensions for Range::split
//@sig fn split(self, split_at: u32) -> (r: (Self, Self))
//@spec
    ensures
        forall|t: int| #[trigger] rset(r.0).contains(t) <==> rset(self).contains(t) && t < split_at,
        forall|t: int| #[trigger] rset(r.1).contains(t) <==> rset(self).contains(t) && t >= split_at,
        r.0.end <= split_at, r.1.start >= split_at,
        self.start <= self.end ==> r.0.start <= r.0.end && r.1.start <= r.1.end,
        self.start <= split_at && self.end <= split_at ==> r.0.start == self.start && r.0.end == self.end && r.1.start == split_at && r.1.end == split_at,
        self.start <= split_at < self.end ==> r.0.start == self.start && r.0.end == split_at && r.1.start == split_at && r.1.end == self.end,
//@endfn
}
//@item engine/src/datastr/graph/time_dependent/wrapping_range.rs struct WrappingRange
impl WrappingRange {
    spec fn wf(&self) -> bool { self.range.start < PERIOD && self.range.end < PERIOD }
    spec fn has(&self, t: int) -> bool {
        if self.range.start < self.range.end { self.range.start <= t < self.range.end }
        else { self.range.start <= t < PERIOD || 0 <= t < self.range.end }
    }
//@fn engine/src/datastr/graph/time_dependent/wrapping_range.rs WrappingRange::new
//@spec
    requires range.start < PERIOD, range.end < PERIOD
    ensures r.wf(), r.range == range
//@endfn
//@fn engine/src/datastr/graph/time_dependent/wrapping_range.rs WrappingRange::start
//@spec
    ensures r == self.range.start
//@endfn
//@fn engine/src/datastr/graph/time_dependent/wrapping_range.rs WrappingRange::end
//@spec
    ensures r == self.range.end
//@endfn
//@fn engine/src/datastr/graph/time_dependent/wrapping_range.rs WrappingRange::contains
//@spec
    requires self.wf(), item < PERIOD
    ensures r == self.has(item as int)
//@endfn
//@fn engine/src/datastr/graph/time_dependent/wrapping_range.rs WrappingRange::monotonize
//@sig fn monotonize(self) -> (r: Range<Timestamp>)
//@rw sub self => vf_self
//@at start
    let mut vf_self = self;
//@spec
    requires self.wf()
    ensures r.start < r.end, r.start == self.range.start, r.end - r.start <= PERIOD,
        forall|t: int| 0 <= t < PERIOD ==> (#[trigger] self.has(t) <==> (rset(r).contains(t) || rset(r).contains(t + PERIOD))),
//@endfn
}
