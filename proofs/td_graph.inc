type IPPIndex = u32;
type EdgeId = u32;
type NodeId = u32;
//@item engine/src/datastr/graph/time_dependent/graph.rs struct Graph
fn vf_last(s: &Vec<u32>) -> (r: u32) requires s@.len() > 0 ensures r == s@[s@.len() - 1] { s[s.len() - 1] }
/// Vec::extend with a part of another vector (verified, not trusted)
fn vf_extend(v: &mut Vec<u32>, s: &Vec<u32>, a: usize, b: usize)
    requires a <= b <= s@.len()
    ensures final(v)@ == old(v)@ + s@.subrange(a as int, b as int)
{
    let mut i = a;
    while i < b invariant a <= i <= b <= s@.len(), v@ == old(v)@ + s@.subrange(a as int, i as int) decreases b - i
    { v.push(s[i]); i += 1; proof { assert(v@ =~= old(v)@ + s@.subrange(a as int, i as int)); } }
    proof { assert(v@ =~= old(v)@ + s@.subrange(a as int, b as int)); }
}
/// the raw points of one arc: what a data set may contain
spec fn raw_ok(dt: Seq<u32>, tt: Seq<u32>) -> bool {
    &&& dt.len() == tt.len() && dt.len() >= 1
    &&& forall|i: int| 0 <= i < tt.len() ==> #[trigger] tt[i] + PERIOD < INF
    &&& forall|i: int, j: int| 0 <= i < j < dt.len() ==> #[trigger] dt[i] < #[trigger] dt[j]
    &&& forall|i: int| 0 <= i < dt.len() ==> #[trigger] dt[i] <= PERIOD
    &&& forall|i: int, j: int| #![trigger tt[i], tt[j]] 0 <= i <= j < dt.len() ==> dt[i] + tt[i] <= dt[j] + tt[j]
    // FIFO across the end of the period
    &&& dt.len() > 1 ==> if dt[dt.len() - 1] == PERIOD { tt[dt.len() - 1] == tt[0] } else { dt[dt.len() - 1] + tt[dt.len() - 1] <= PERIOD + tt[0] }
}
/// points added at the two ends of the period
spec fn pre(dt: Seq<u32>, x: u32) -> Seq<u32> { if dt[0] != 0 { seq![x] } else { seq![] } }
spec fn post(dt: Seq<u32>, x: u32) -> Seq<u32> { if dt[dt.len() - 1] != PERIOD { seq![x] } else { seq![] } }
spec fn closed_dt(dt: Seq<u32>) -> Seq<u32> { if dt.len() == 1 { seq![0u32] } else { pre(dt, 0) + dt + post(dt, PERIOD as u32) } }
spec fn closed_tt(dt: Seq<u32>, tt: Seq<u32>) -> Seq<u32> { if dt.len() == 1 { tt } else { pre(dt, tt[0]) + tt + post(dt, tt[0]) } }
proof fn lemma_closed(dt: Seq<u32>, tt: Seq<u32>)
    requires raw_ok(dt, tt)
    ensures plf_ok(closed_dt(dt), closed_tt(dt, tt))
{
    let d = closed_dt(dt); let t = closed_tt(dt, tt);
    if dt.len() > 1 {
        let o = pre(dt, 0).len() as int;
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] + PERIOD < INF by { if o <= i < o + dt.len() { assert(t[i] == tt[i - o]); } else { assert(t[i] == tt[0]); } }
        assert forall|i: int, j: int| 0 <= i < j < d.len() implies #[trigger] d[i] < #[trigger] d[j] by {
            if o <= i < o + dt.len() { assert(d[i] == dt[i - o]); } if o <= j < o + dt.len() { assert(d[j] == dt[j - o]); if j > o { assert(dt[0] < dt[j - o]); } }
            if j == o + dt.len() && o <= i { if i - o < dt.len() - 1 { assert(dt[i - o] < dt[dt.len() - 1]); } }
        }
        assert forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i <= j < d.len() implies d[i] + t[i] <= d[j] + t[j] by {
            let a = if i < o { 0 } else if i >= o + dt.len() { dt.len() - 1 } else { i - o };
            let b = if j < o { 0 } else if j >= o + dt.len() { dt.len() - 1 } else { j - o };
            assert(dt[a] + tt[a] <= dt[b] + tt[b]);
        }
        assert(d[d.len() - 1] == PERIOD);
        assert(d[0] == 0);
        assert(t[0] == tt[0]);
    }
}
proof fn lemma_raw_basic(dt: Seq<u32>, tt: Seq<u32>) requires raw_ok(dt, tt) ensures dt.len() == tt.len(), dt.len() >= 1 { }
proof fn lemma_closed_len(dt: Seq<u32>, tt: Seq<u32>) requires raw_ok(dt, tt) ensures closed_dt(dt).len() == closed_tt(dt, tt).len(),
    closed_dt(dt).len() == dt.len() + (if dt.len() > 1 && dt[0] != 0 { 1int } else { 0 }) + (if dt.len() > 1 && dt[dt.len() - 1] != PERIOD { 1int } else { 0 }) { }
spec fn arc_dt(fi: Seq<u32>, dt: Seq<u32>, e: int) -> Seq<u32> { dt.subrange(fi[e] as int, fi[e + 1] as int) }
spec fn index_ok(fi: Seq<u32>, m: int, len: int) -> bool {
    &&& fi.len() == m + 1 && fi[0] == 0 && fi[m] == len
    &&& forall|i: int, j: int| 0 <= i <= j <= m ==> #[trigger] fi[i] <= #[trigger] fi[j]
}
spec fn seg(v: Seq<u32>, bs: Seq<int>, e: int) -> Seq<u32> { v.subrange(bs[e], bs[e + 1]) }
impl Graph {
    spec fn dt(&self, e: int) -> Seq<u32> { arc_dt(self.first_ipp_of_arc@, self.ipp_departure_time@, e) }
    spec fn tt(&self, e: int) -> Seq<u32> { arc_dt(self.first_ipp_of_arc@, self.ipp_travel_time@, e) }
    spec fn m(&self) -> int { self.head@.len() as int }
    spec fn wf(&self) -> bool {
        &&& index_ok(self.first_ipp_of_arc@, self.m(), self.ipp_departure_time@.len() as int)
        &&& self.ipp_departure_time@.len() == self.ipp_travel_time@.len()
        &&& self.m() < u32::MAX
        &&& forall|e: int| #![trigger self.dt(e)] 0 <= e < self.m() ==> plf_ok(self.dt(e), self.tt(e))
    }
//@fn engine/src/datastr/graph/time_dependent/graph.rs Graph::new
//@rw for
//@rw sub $v:id.extend($s:id[$r:id.clone()].iter().cloned()) => vf_extend(&mut $v, &$s, $r.start, $r.end)
//@rw sub *new_ipp_departure_time.last().unwrap() => vf_last(&new_ipp_departure_time)
//@spec
    requires index_ok(first_ipp_of_arc@, head@.len() as int, ipp_departure_time@.len() as int), ipp_departure_time@.len() == ipp_travel_time@.len(),
        ipp_departure_time@.len() + 2 * head@.len() < u32::MAX,
        forall|e: int| #![trigger arc_dt(first_ipp_of_arc@, ipp_departure_time@, e)] 0 <= e < head@.len() ==> raw_ok(arc_dt(first_ipp_of_arc@, ipp_departure_time@, e), arc_dt(first_ipp_of_arc@, ipp_travel_time@, e)),
    ensures r.wf(), r.first_out == first_out, r.head == head,
        forall|e: int| #![trigger r.dt(e)] 0 <= e < head@.len() ==>
            r.dt(e) == closed_dt(arc_dt(first_ipp_of_arc@, ipp_departure_time@, e)) && r.tt(e) == closed_tt(arc_dt(first_ipp_of_arc@, ipp_departure_time@, e), arc_dt(first_ipp_of_arc@, ipp_travel_time@, e)),
//@at start
    hide(raw_ok); hide(plf_ok); hide(closed_dt); hide(closed_tt);
    let ghost fi0 = first_ipp_of_arc@;
    let ghost mut bs: Seq<int> = seq![0];
    let ghost m = head@.len() as int;
//@loop 0
    invariant vf_i0 <= vf_e0, vf_e0 == m, m == head@.len(), bs.len() == vf_i0 + 1, bs[0] == 0, bs[vf_i0 as int] == new_ipp_departure_time@.len(),
        new_ipp_departure_time@.len() == new_ipp_travel_time@.len(), new_ipp_departure_time@.len() == fi0[vf_i0 as int] + added, added <= 2 * vf_i0,
        index_ok(fi0, m, ipp_departure_time@.len() as int), ipp_departure_time@.len() == ipp_travel_time@.len(), ipp_departure_time@.len() + 2 * m < u32::MAX,
        first_ipp_of_arc@.len() == m + 1,
        forall|e: int| 0 <= e < vf_i0 ==> #[trigger] first_ipp_of_arc@[e] == bs[e],
        forall|e: int| vf_i0 <= e <= m ==> #[trigger] first_ipp_of_arc@[e] == fi0[e],
        forall|e: int, f: int| 0 <= e <= f <= vf_i0 ==> #[trigger] bs[e] <= #[trigger] bs[f],
        forall|e: int| #![trigger arc_dt(fi0, ipp_departure_time@, e)] 0 <= e < m ==> raw_ok(arc_dt(fi0, ipp_departure_time@, e), arc_dt(fi0, ipp_travel_time@, e)),
        forall|e: int| #![trigger bs[e + 1]] 0 <= e < vf_i0 ==> seg(new_ipp_departure_time@, bs, e) == closed_dt(arc_dt(fi0, ipp_departure_time@, e))
            && seg(new_ipp_travel_time@, bs, e) == closed_tt(arc_dt(fi0, ipp_departure_time@, e), arc_dt(fi0, ipp_travel_time@, e)),
    decreases vf_e0 - vf_i0
//@at loop_start 0
    let ghost i0 = vf_i0 - 1;
    let ghost d0 = new_ipp_departure_time@;
    let ghost t0 = new_ipp_travel_time@;
    let ghost ad = arc_dt(fi0, ipp_departure_time@, i0);
    let ghost at = arc_dt(fi0, ipp_travel_time@, i0);
    let ghost fi1 = first_ipp_of_arc@;
    let ghost bs0 = bs;
    proof {
        assert(fi0[i0] <= fi0[i0 + 1]); assert(fi0[i0 + 1] <= fi0[m]);
        assert(fi1[i0] == fi0[i0] && fi1[i0 + 1] == fi0[i0 + 1]);
        assert(raw_ok(ad, at));
        lemma_raw_basic(ad, at);
        assert(ad.len() == fi0[i0 + 1] - fi0[i0]);
        assert(ad[0] == ipp_departure_time@[fi0[i0] as int] && at[0] == ipp_travel_time@[fi0[i0] as int]);
        assert(ad[ad.len() - 1] == ipp_departure_time@[fi0[i0 + 1] - 1]);
    }
//@at loop_end 0
    proof {
        let nd = new_ipp_departure_time@; let nt = new_ipp_travel_time@;
        assert(nd == d0 + closed_dt(ad)) by { reveal(closed_dt); assert(nd =~= d0 + closed_dt(ad)); }
        assert(nt == t0 + closed_tt(ad, at)) by { reveal(closed_tt); assert(nt =~= t0 + closed_tt(ad, at)); }
        lemma_closed_len(ad, at);
        bs = bs0.push(nd.len() as int);
        assert forall|e: int| #![trigger bs[e + 1]] 0 <= e < vf_i0 implies seg(nd, bs, e) == closed_dt(arc_dt(fi0, ipp_departure_time@, e))
            && seg(nt, bs, e) == closed_tt(arc_dt(fi0, ipp_departure_time@, e), arc_dt(fi0, ipp_travel_time@, e)) by {
            if e < i0 {
                assert(bs[e] == bs0[e] && bs[e + 1] == bs0[e + 1]); assert(bs0[e + 1] <= bs0[i0]); assert(bs0[e] <= bs0[e + 1] && 0 == bs0[0] <= bs0[e]);
                assert(seg(nd, bs, e) =~= seg(d0, bs0, e)); assert(seg(nt, bs, e) =~= seg(t0, bs0, e));
            } else { assert(seg(nd, bs, e) =~= closed_dt(ad)); assert(seg(nt, bs, e) =~= closed_tt(ad, at)); }
        }
    }
//@at past_loop 0
    let ghost fiL = first_ipp_of_arc@;
//@at end
    proof {
        let nf = first_ipp_of_arc@;
        assert forall|e: int| 0 <= e <= m implies #[trigger] nf[e] == bs[e] by { if e < m { assert(fiL[e] == bs[e]); } }
        assert forall|i: int, j: int| 0 <= i <= j <= m implies #[trigger] nf[i] <= #[trigger] nf[j] by { assert(bs[i] <= bs[j]); }
        assert forall|e: int| #![trigger arc_dt(nf, new_ipp_departure_time@, e)] 0 <= e < m implies
            arc_dt(nf, new_ipp_departure_time@, e) == closed_dt(arc_dt(fi0, ipp_departure_time@, e))
            && arc_dt(nf, new_ipp_travel_time@, e) == closed_tt(arc_dt(fi0, ipp_departure_time@, e), arc_dt(fi0, ipp_travel_time@, e))
            && plf_ok(arc_dt(nf, new_ipp_departure_time@, e), arc_dt(nf, new_ipp_travel_time@, e)) by {
            assert(nf[e] == bs[e] && nf[e + 1] == bs[e + 1]);
            assert(raw_ok(arc_dt(fi0, ipp_departure_time@, e), arc_dt(fi0, ipp_travel_time@, e)));
            lemma_closed(arc_dt(fi0, ipp_departure_time@, e), arc_dt(fi0, ipp_travel_time@, e));
        }
    }
//@endfn
//@fn engine/src/datastr/graph/time_dependent/graph.rs Graph::travel_time_function
//@sig fn travel_time_function(&self, edge_id: EdgeId) -> (r: PiecewiseLinearFunction<'_>)
//@rw sub &self.ipp_departure_time[$a..$b] => vf_slice(self.ipp_departure_time.as_slice(), $a, $b)
//@rw sub &self.ipp_travel_time[$a..$b] => vf_slice(self.ipp_travel_time.as_slice(), $a, $b)
//@spec
    requires self.wf(), edge_id < self.m()
    ensures r.wf(), r.departure_time@ == self.dt(edge_id as int), r.travel_time@ == self.tt(edge_id as int)
//@at start
    proof { assert(self.first_ipp_of_arc@[edge_id as int] <= self.first_ipp_of_arc@[edge_id + 1]); assert(self.first_ipp_of_arc@[edge_id + 1] <= self.first_ipp_of_arc@[self.m()]); assert(plf_ok(self.dt(edge_id as int), self.tt(edge_id as int))); }
//@endfn
    spec fn pv(&self, e: int, t: int) -> int { pvalue(self.dt(e), self.tt(e), t) }
}
// ---------------------------------------------------------------- live traffic
/// InRangeOption: None or a value.  `value` is proved against this view in unit in_range.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
struct InRangeOption<T> { t: T }
impl<T: Copy> InRangeOption<T> {
    uninterp spec fn view(&self) -> Option<T>;
    #[verifier::external_body]
    fn value(&self) -> (r: Option<T>) ensures r == self@ { unimplemented!() }
}
//@item engine/src/datastr/graph/time_dependent/graph.rs struct LiveTDGraph
//@item engine/src/datastr/graph/time_dependent/graph.rs struct PessimisticLiveTDGraph
spec fn maxi(a: int, b: int) -> int { if a >= b { a } else { b } }
spec fn mini(a: int, b: int) -> int { if a <= b { a } else { b } }
/// the live value until soon, then back to the prediction as fast as FIFO allows
spec fn live_val(dt: Seq<u32>, tt: Seq<u32>, live: Option<u32>, soon: int, t: int) -> int {
    match live {
        None => pvalue(dt, tt, t),
        Some(l) => if t < soon { l as int }
            else if pvalue(dt, tt, soon) < l { maxi(l + soon - t, pvalue(dt, tt, t)) }
            else { mini(l + t - soon, pvalue(dt, tt, t)) },
    }
}
proof fn lemma_live_fifo(dt: Seq<u32>, tt: Seq<u32>, live: Option<u32>, soon: int, s: int, t: int)
    requires plf_ok(dt, tt), 0 <= s <= t, 0 <= soon
    ensures s + live_val(dt, tt, live, soon, s) <= t + live_val(dt, tt, live, soon, t)
{ hide(pvalue); lemma_pfifo(dt, tt, s, t); if soon <= t { lemma_pfifo(dt, tt, soon, t); } }
/// pessimistic: never below the prediction; above it only as far as the live value or the switch to the prediction at soon require
spec fn pess_val(dt: Seq<u32>, tt: Seq<u32>, live: Option<(u32, u32)>, t: int) -> int {
    match live {
        None => pvalue(dt, tt, t),
        Some(ls) => if t >= ls.1 { pvalue(dt, tt, t) } else { maxi(pvalue(dt, tt, t), mini(ls.0 as int, pvalue(dt, tt, ls.1 as int) + ls.1 - t)) },
    }
}
proof fn lemma_pess_fifo(dt: Seq<u32>, tt: Seq<u32>, live: Option<(u32, u32)>, s: int, t: int)
    requires plf_ok(dt, tt), 0 <= s <= t
    ensures s + pess_val(dt, tt, live, s) <= t + pess_val(dt, tt, live, t)
{ hide(pvalue); lemma_pfifo(dt, tt, s, t); if let Some(ls) = live { if ls.1 <= t { lemma_pfifo(dt, tt, ls.1 as int, t); } } }
impl LiveTDGraph {
    spec fn wf(&self) -> bool { self.graph.wf() && self.live@.len() == self.graph.m() && self.soon <= INF
        && forall|e: int| 0 <= e < self.live@.len() ==> (#[trigger] self.live@[e]@ matches Some(l) ==> l <= INF) }
//@fn engine/src/datastr/graph/time_dependent/graph.rs LiveTDGraph::eval
//@spec
    requires self.wf(), edge_id < self.graph.m()
    ensures r == live_val(self.graph.dt(edge_id as int), self.graph.tt(edge_id as int), self.live@[edge_id as int]@, self.soon as int, t as int),
        // C10: a later departure arrives no earlier
        forall|s: int| 0 <= s <= t ==> s + #[trigger] live_val(self.graph.dt(edge_id as int), self.graph.tt(edge_id as int), self.live@[edge_id as int]@, self.soon as int, s) <= t + r,
//@at start
    proof {
        let dt = self.graph.dt(edge_id as int); let tt = self.graph.tt(edge_id as int); let lv = self.live@[edge_id as int]@;
        assert(plf_ok(dt, tt));
        lemma_pvalue_nonneg(dt, tt, t as int); lemma_pvalue_nonneg(dt, tt, self.soon as int);
        assert forall|s: int| 0 <= s <= t implies s + #[trigger] live_val(dt, tt, lv, self.soon as int, s) <= t + live_val(dt, tt, lv, self.soon as int, t as int) by { lemma_live_fifo(dt, tt, lv, self.soon as int, s, t as int); }
    }
//@endfn
}
impl PessimisticLiveTDGraph {
    spec fn wf(&self) -> bool { self.graph.wf() && self.live@.len() == self.graph.m()
        && forall|e: int| 0 <= e < self.live@.len() ==> (#[trigger] self.live@[e]@ matches Some(ls) ==> ls.0 <= INF && ls.1 <= INF) }
    spec fn ev(&self, e: int, t: int) -> int { pess_val(self.graph.dt(e), self.graph.tt(e), self.live@[e]@, t) }
//@fn engine/src/datastr/graph/time_dependent/graph.rs PessimisticLiveTDGraph::eval
//@spec
    requires self.wf(), edge_id < self.graph.m()
    ensures r == self.ev(edge_id as int, t as int),
        forall|s: int| 0 <= s <= t ==> s + #[trigger] self.ev(edge_id as int, s) <= t + r,
//@at start
    proof {
        let dt = self.graph.dt(edge_id as int); let tt = self.graph.tt(edge_id as int); let lv = self.live@[edge_id as int]@;
        assert(plf_ok(dt, tt));
        lemma_pvalue_nonneg(dt, tt, t as int); if let Some(ls) = lv { lemma_pvalue_nonneg(dt, tt, ls.1 as int); }
        assert forall|s: int| 0 <= s <= t implies s + #[trigger] self.ev(edge_id as int, s) <= t + self.ev(edge_id as int, t as int) by { lemma_pess_fifo(dt, tt, lv, s, t as int); }
    }
//@endfn
//@fn engine/src/datastr/graph/time_dependent/graph.rs PessimisticLiveTDGraph::upper_bound
//@rw sub self.live[$i].value().map(|(l, _)| l).unwrap_or(0) => match self.live[$i].value() { Some((l, _)) => l, None => 0 }
//@spec
    requires self.wf(), edge_id < self.graph.m()
    ensures forall|t: int| now <= t ==> #[trigger] self.ev(edge_id as int, t) <= r
//@at start
    proof { lemma_upper(self, edge_id as int, now as int); }
//@endfn
//@fn engine/src/datastr/graph/time_dependent/graph.rs PessimisticLiveTDGraph::live_lower_bound
//@spec
    requires self.wf(), edge_id < self.graph.m(), until <= INF
    ensures forall|t: int| now <= t < until ==> #[trigger] self.ev(edge_id as int, t) >= r
//@at start
    proof { lemma_lower(self, edge_id as int); }
//@endfn
//@fn engine/src/datastr/graph/time_dependent/graph.rs PessimisticLiveTDGraph::predicted_upper_bound
//@spec
    requires self.wf(), edge_id < self.graph.m()
    ensures forall|t: int| 0 <= t ==> #[trigger] self.graph.pv(edge_id as int, t) <= r
//@at start
    proof { assert(plf_ok(self.graph.dt(edge_id as int), self.graph.tt(edge_id as int))); }
//@endfn
}
proof fn lemma_upper(g: &PessimisticLiveTDGraph, e: int, now: int)
    requires g.wf(), 0 <= e < g.graph.m(), now >= 0
    ensures forall|u: int, t: int| now <= t && #[trigger] bounds(g.graph.dt(e), g.graph.tt(e), 0, PERIOD, u, -1)
        ==> #[trigger] g.ev(e, t) <= maxi(u, mini(match g.live@[e]@ { Some(ls) => ls.0 as int, None => 0 }, g.ev(e, now)))
{
    hide(value);
    let dt = g.graph.dt(e); let tt = g.graph.tt(e);
    assert(plf_ok(dt, tt));
    assert forall|u: int, t: int| now <= t && #[trigger] bounds(dt, tt, 0, PERIOD, u, -1)
        implies #[trigger] g.ev(e, t) <= maxi(u, mini(match g.live@[e]@ { Some(ls) => ls.0 as int, None => 0 }, g.ev(e, now))) by {
        assert(pvalue(dt, tt, t) <= u) by { assert(0 <= t % PERIOD <= PERIOD); }
        lemma_pvalue_nonneg(dt, tt, now);
        lemma_pvalue_nonneg(dt, tt, t);
    }
}
proof fn lemma_lower(g: &PessimisticLiveTDGraph, e: int)
    requires g.wf(), 0 <= e < g.graph.m()
    ensures forall|t: int| #[trigger] g.ev(e, t) == pess_val(g.graph.dt(e), g.graph.tt(e), g.live@[e]@, t)
{ }
