//@item engine/src/datastr/graph.rs const INFINITY std::u32::MAX=>u32::MAX
//@item engine/src/datastr/graph/time_dependent/geometry/point.rs struct TTIpp
//@item engine/src/datastr/graph/time_dependent/geometry/point.rs struct ATIpp
impl TTIpp {
//@fn engine/src/datastr/graph/time_dependent/geometry/point.rs TTIpp::new
//@spec
    ensures r.at == at, r.val == val
//@endfn
}
impl ATIpp {
//@fn engine/src/datastr/graph/time_dependent/geometry/point.rs ATIpp::new
//@spec
    ensures r.at == at, r.val == val
//@endfn
}
//@item engine/src/datastr/graph/time_dependent/geometry/line.rs struct Line
impl<Point> Line<Point> {
//@fn engine/src/datastr/graph/time_dependent/geometry/line.rs Line::new
//@spec
    ensures r.from == from, r.to == to
//@endfn
}
//@item engine/src/datastr/graph/time_dependent/geometry/line.rs struct MonotoneLine
impl MonotoneLine<TTIpp> {
//@fn engine/src/datastr/graph/time_dependent/geometry/line.rs MonotoneLine::new header=TTIpp
//@spec
    requires line.from.at <= line.to.at
    ensures r.0 == line
//@endfn
//@fn engine/src/datastr/graph/time_dependent/geometry/line.rs MonotoneLine::into_monotone_at_line header=TTIpp
//@rw subopt let MonotoneLine(Line { from, to, .. }) = self => let from = self.0.from; let to = self.0.to
//@spec
    requires self.0.from.at < self.0.to.at, self.0.from.at + self.0.from.val <= self.0.to.at + self.0.to.val <= u32::MAX
    ensures r.0.from.at == self.0.from.at, r.0.to.at == self.0.to.at, r.0.from.val == self.0.from.at + self.0.from.val, r.0.to.val == self.0.to.at + self.0.to.val
//@endfn
}
impl MonotoneLine<ATIpp> {
    spec fn ok(&self, x: int) -> bool { self.0.from.at < self.0.to.at && self.0.from.val <= self.0.to.val < INF && self.0.from.at <= x <= self.0.to.at }
    spec fn at(&self, x: int) -> int { self.0.from.val + ((x - self.0.from.at) * (self.0.to.val - self.0.from.val)) / (self.0.to.at - self.0.from.at) }
//@fn engine/src/datastr/graph/time_dependent/geometry/line.rs MonotoneLine::new header=ATIpp
//@spec
    requires line.from.at < line.to.at, line.from.val <= line.to.val
    ensures r.0 == line
//@endfn
//@fn engine/src/datastr/graph/time_dependent/geometry/line.rs MonotoneLine::interpolate_at_in_range header=ATIpp
//@rw subopt u64::from($x) => ($x as u64)
//@spec
    requires self.ok(x as int)
    ensures r == self.at(x as int), self.0.from.val <= r <= self.0.to.val
//@at start
    proof {
        let a = x - self.0.from.at; let dx = self.0.to.at - self.0.from.at; let dy = self.0.to.val - self.0.from.val;
        assert(0 <= a * dy <= dx * dy) by (nonlinear_arith) requires 0 <= a <= dx, dy >= 0;
        assert(dx * dy <= 0x7fff_ffff * 0xffff_ffff) by (nonlinear_arith) requires 0 <= dx <= 0xffff_ffff, 0 <= dy <= 0x7fff_ffff;
        lemma_div_is_ordered(0, a * dy, dx); lemma_div_is_ordered(a * dy, dx * dy, dx);
        lemma_div_multiples_vanish(dy, dx);
        assert(0int / dx == 0) by (nonlinear_arith) requires dx > 0;
    }
//@endfn
//@fn engine/src/datastr/graph/time_dependent/geometry/line.rs MonotoneLine::interpolate_tt_in_range header=ATIpp
//@spec
    requires self.ok(x as int), self.at(x as int) >= x
    ensures r == self.at(x as int) - x
//@endfn
}
/// Iterator::min / max over a slice (verified, not trusted)
fn vf_slice_min(s: &[u32]) -> (r: u32) requires s@.len() > 0 ensures is_min(s@, r as int)
{
    let mut m = s[0]; let mut i: usize = 1;
    proof { assert(s@.subrange(0, 1)[0] == m); }
    while i < s.len() invariant 1 <= i <= s@.len(), is_min(s@.subrange(0, i as int), m as int) decreases s@.len() - i
    {
        let ghost old = s@.subrange(0, i as int);
        let ghost om = m;
        if s[i] < m { m = s[i]; }
        i += 1;
        proof {
            let n = s@.subrange(0, i as int);
            let w = choose|k: int| 0 <= k < old.len() && #[trigger] old[k] == om;
            assert(old[w] == om && n[w] == om && n[i - 1] == s@[i - 1]);
            assert forall|k: int| 0 <= k < n.len() implies m <= #[trigger] n[k] by { if k < i - 1 { assert(n[k] == old[k]); } }
        }
    }
    proof { assert(s@.subrange(0, i as int) =~= s@); }
    m
}
fn vf_slice_max(s: &[u32]) -> (r: u32) requires s@.len() > 0 ensures is_max(s@, r as int)
{
    let mut m = s[0]; let mut i: usize = 1;
    proof { assert(s@.subrange(0, 1)[0] == m); }
    while i < s.len() invariant 1 <= i <= s@.len(), is_max(s@.subrange(0, i as int), m as int) decreases s@.len() - i
    {
        let ghost old = s@.subrange(0, i as int);
        let ghost om = m;
        if s[i] > m { m = s[i]; }
        i += 1;
        proof {
            let n = s@.subrange(0, i as int);
            let w = choose|k: int| 0 <= k < old.len() && #[trigger] old[k] == om;
            assert(old[w] == om && n[w] == om && n[i - 1] == s@[i - 1]);
            assert forall|k: int| 0 <= k < n.len() implies m >= #[trigger] n[k] by { if k < i - 1 { assert(n[k] == old[k]); } }
        }
    }
    proof { assert(s@.subrange(0, i as int) =~= s@); }
    m
}
/// the slice s[a..=b] followed by two more values
spec fn and2(s: Seq<u32>, a: int, b: int, x: u32, y: u32) -> Seq<u32> { s.subrange(a, b + 1).push(x).push(y) }
fn vf_min_and2(s: &[u32], a: usize, b: usize, x: u32, y: u32) -> (r: u32)
    requires a <= b + 1, b < s@.len()
    ensures is_min(and2(s@, a as int, b as int, x, y), r as int)
{
    let ghost n = and2(s@, a as int, b as int, x, y);
    proof { assert(vstd::slice::spec_slice_len(s) == s@.len()); assert(n[n.len() - 2] == x && n[n.len() - 1] == y); }
    let e = if x < y { x } else { y };
    if a == b + 1 { return e; }
    let t = vstd::slice::slice_subrange(s, a, b + 1);
    let m = vf_slice_min(t);
    proof { assert forall|k: int| 0 <= k < t@.len() implies #[trigger] t@[k] == n[k] by {} assert forall|k: int| 0 <= k < t@.len() implies #[trigger] n[k] == t@[k] by {} }
    if m < e { m } else { e }
}
fn vf_max_and2(s: &[u32], a: usize, b: usize, x: u32, y: u32) -> (r: u32)
    requires a <= b + 1, b < s@.len()
    ensures is_max(and2(s@, a as int, b as int, x, y), r as int)
{
    let ghost n = and2(s@, a as int, b as int, x, y);
    proof { assert(vstd::slice::spec_slice_len(s) == s@.len()); assert(n[n.len() - 2] == x && n[n.len() - 1] == y); }
    let e = if x > y { x } else { y };
    if a == b + 1 { return e; }
    let t = vstd::slice::slice_subrange(s, a, b + 1);
    let m = vf_slice_max(t);
    proof { assert forall|k: int| 0 <= k < t@.len() implies #[trigger] t@[k] == n[k] by {} assert forall|k: int| 0 <= k < t@.len() implies #[trigger] n[k] == t@[k] by {} }
    if m > e { m } else { e }
}
fn vf_slice(s: &[u32], a: usize, b: usize) -> (r: &[u32]) requires a <= b <= s@.len() ensures r@ == s@.subrange(a as int, b as int) { vstd::slice::slice_subrange(s, a, b) }
fn vf_single(s: &[u32]) -> (r: Option<u32>) ensures r == (if s@.len() == 1 { Some(s@[0]) } else { None }) { if s.len() == 1 { Some(s[0]) } else { None } }
spec fn at_line(dt: Seq<u32>, tt: Seq<u32>, a: int, b: int, x: int) -> int
{ (dt[a] + tt[a]) + ((x - dt[a]) * ((dt[b] + tt[b]) - (dt[a] + tt[a]))) / (dt[b] - dt[a]) }
proof fn lemma_evaluate(dt: Seq<u32>, tt: Seq<u32>, x: int)
    requires plf_ok(dt, tt), 0 <= x <= PERIOD
    ensures dt.len() <= 2 ==> value(dt, tt, x) == tt[0],
        forall|i: int| 0 <= i < tt.len() && dt[i] == x ==> value(dt, tt, x) == #[trigger] tt[i],
        forall|a: int, b: int| #![trigger dt[a], dt[b]] 0 <= a < dt.len() - 1 && b == a + 1 && dt[a] < x < dt[b] ==> at_line(dt, tt, a, b, x) - x == value(dt, tt, x)
            && 0 <= value(dt, tt, x) && dt[b] + tt[b] < INF && dt[a] + tt[a] <= dt[b] + tt[b],
{
    lemma_value_nonneg(dt, tt, x);
    if dt.len() == 2 { lemma_value(dt, tt, 0, x); lemma_seg_range(dt, tt, 0, x); }
    assert forall|i: int| 0 <= i < tt.len() && dt[i] == x implies value(dt, tt, x) == #[trigger] tt[i] by { lemma_value_on(dt, tt, i); }
    assert forall|a: int, b: int| #![trigger dt[a], dt[b]] 0 <= a < dt.len() - 1 && b == a + 1 && dt[a] < x < dt[b] implies at_line(dt, tt, a, b, x) - x == value(dt, tt, x)
            && 0 <= value(dt, tt, x) && dt[b] + tt[b] < INF && dt[a] + tt[a] <= dt[b] + tt[b] by {
        lemma_value(dt, tt, a, x);
        lemma_arr(x - dt[a], tt[b] - tt[a], dt[b] - dt[a]);
        assert(tt[b] + PERIOD < INF); assert(dt[b] <= PERIOD) by { if b < dt.len() - 1 { assert(dt[b] < dt[dt.len() - 1]); } }
    }
}
proof fn lemma_included_idx(dt: Seq<u32>, a: int, b: int, fi: int, li: int)
    requires full_period(dt), 0 <= a < b <= PERIOD, 0 <= fi < dt.len(), 0 <= li < dt.len(),
        dt[fi] == a || (fi >= 1 && dt[fi - 1] < a < dt[fi]), dt[li] == b || (li < dt.len() - 1 && dt[li] < b < dt[li + 1]),
    ensures fi <= li + 1
{ if fi > li + 1 { assert(dt[li + 1] <= dt[fi - 1]) by { if li + 1 < fi - 1 { assert(dt[li + 1] < dt[fi - 1]); } } assert(dt[fi - 1] < dt[fi]); assert(dt[li] < dt[li + 1]); } }
proof fn lemma_included(dt: Seq<u32>, tt: Seq<u32>, a: int, b: int, fi: int, x: u32, li: int, y: u32, m: int, sign: int)
    requires plf_ok(dt, tt), dt.len() > 1, 0 <= a < b <= PERIOD, 0 <= fi < dt.len(), 0 <= li < dt.len(), sign == 1 || sign == -1,
        (dt[fi] == a && x == (if sign > 0 { INF } else { 0 })) || (fi >= 1 && dt[fi - 1] < a < dt[fi] && x == value(dt, tt, a)),
        (dt[li] == b && y == (if sign > 0 { INF } else { 0 })) || (li < dt.len() - 1 && dt[li] < b < dt[li + 1] && y == value(dt, tt, b)),
        sign > 0 ==> is_min(and2(tt, fi, li, x, y), m), sign < 0 ==> is_max(and2(tt, fi, li, x, y), m),
    ensures bounds(dt, tt, a, b, m, sign)
{
    hide(value);
    lemma_included_idx(dt, a, b, fi, li);
    let n = and2(tt, fi, li, x, y);
    assert(n[n.len() - 2] == x && n[n.len() - 1] == y);
    assert forall|k: int| fi <= k <= li implies le_s(sign, m, #[trigger] tt[k] as int) by { assert(n[k - fi] == tt[k]); }
    lemma_value_on(dt, tt, fi); lemma_value_on(dt, tt, li);
    assert forall|k: int| 0 <= k < dt.len() && a <= #[trigger] dt[k] <= b implies le_s(sign, m, tt[k] as int) by {
        if k < fi { if k < fi - 1 { assert(dt[k] < dt[fi - 1]); } assert(dt[k] < dt[fi]); assert(false); }
        if k > li { if k > li + 1 { assert(dt[li + 1] < dt[k]); } assert(dt[li] < dt[k]); assert(false); }
        assert(fi <= k <= li);
    }
    if dt[fi] == a { assert(fi <= li) by { if li < fi { assert(dt[li] < dt[fi]); if li < fi - 1 { assert(dt[li + 1] < dt[fi]); } } } assert(le_s(sign, m, tt[fi] as int)); }
    if dt[li] == b { assert(fi <= li) by { if li < fi { assert(dt[li] < dt[fi]); if li < fi - 1 { assert(dt[li] < dt[fi - 1]); } } } assert(le_s(sign, m, tt[li] as int)); }
    lemma_bounds(dt, tt, a, b, m, sign);
    let w = choose|k: int| 0 <= k < n.len() && #[trigger] n[k] == m;
    lemma_value_nonneg(dt, tt, a); lemma_value_nonneg(dt, tt, b);
    if w < n.len() - 2 {
        assert(n[w] == tt[fi + w]);
        lemma_value_on(dt, tt, fi + w);
        assert(a <= dt[fi + w] <= b) by { if w > 0 { assert(dt[fi] < dt[fi + w]); } if fi + w < li { assert(dt[fi + w] < dt[li]); } }
        assert(m == value(dt, tt, dt[fi + w] as int));
    } else if w == n.len() - 2 {
        if dt[fi] == a { if sign > 0 { assert(tt[fi] + PERIOD < INF); } assert(value(dt, tt, a) == m); } else { assert(value(dt, tt, a) == m); }
    } else {
        if dt[li] == b { if sign > 0 { assert(tt[li] + PERIOD < INF); } assert(value(dt, tt, b) == m); } else { assert(value(dt, tt, b) == m); }
    }
}
/// what a bound over each part of a wrapped range (or over the whole period) says about the range
proof fn lemma_in_range(dt: Seq<u32>, tt: Seq<u32>, s: int, e: int, sign: int)
    requires plf_ok(dt, tt), 0 <= s, e <= INF, sign == 1 || sign == -1
    ensures
        dt.len() == 1 && s < e ==> pbounds(dt, tt, s, e, tt[0] as int, sign),
        e - s >= PERIOD ==> forall|m: int| #[trigger] bounds(dt, tt, 0, PERIOD, m, sign) ==> pbounds(dt, tt, s, e, m, sign),
        s < e && e - s < PERIOD && s % PERIOD + (e - s) <= PERIOD ==> forall|m: int| #[trigger] bounds(dt, tt, s % PERIOD, s % PERIOD + (e - s), m, sign) ==> pbounds(dt, tt, s, e, m, sign) && 0 <= m < INF,
        s < e && e - s < PERIOD && s % PERIOD + (e - s) > PERIOD ==> forall|m1: int, m2: int| #[trigger] bounds(dt, tt, s % PERIOD, PERIOD, m1, sign) && #[trigger] bounds(dt, tt, 0, s % PERIOD + (e - s) - PERIOD, m2, sign)
            ==> pbounds(dt, tt, s, e, if le_s(sign, m1, m2) { m1 } else { m2 }, sign),
{
    hide(value); hide(plf_ok);
    assert(dt.len() == 1 ==> pvalue(dt, tt, s) == tt[0] && forall|t: int| #[trigger] pvalue(dt, tt, t) == tt[0]) by { reveal(value); }
    let o = s - s % PERIOD; let a = s % PERIOD; let q = s / PERIOD;
    lemma_fundamental_div_mod(s, PERIOD);
    assert(o == q * PERIOD) by (nonlinear_arith) requires s == PERIOD * q + a, o == s - a;
    assert(q >= 0) by { lemma_div_pos_is_pos(s, PERIOD); }
    // times of the range, seen from the start of the day of s
    assert forall|x: int| 0 <= x <= PERIOD implies #[trigger] pvalue(dt, tt, o + x) == value(dt, tt, x) by { lemma_pv(dt, tt, q, x); }
    assert forall|x: int| 0 <= x <= PERIOD implies #[trigger] pvalue(dt, tt, o + PERIOD + x) == value(dt, tt, x) by { lemma_pv(dt, tt, q + 1, x); assert((q + 1) * PERIOD == q * PERIOD + PERIOD) by (nonlinear_arith); }
    if dt.len() == 1 && s < e { assert(pvalue(dt, tt, s) == tt[0]); }
    if e - s >= PERIOD {
        assert forall|m: int| #[trigger] bounds(dt, tt, 0, PERIOD, m, sign) implies pbounds(dt, tt, s, e, m, sign) by {
            let x = choose|x: int| 0 <= x <= PERIOD && m == #[trigger] value(dt, tt, x);
            if o + x >= s { assert(pvalue(dt, tt, o + x) == m); } else { assert(pvalue(dt, tt, o + PERIOD + x) == m); }
        }
    }
    if s < e && e - s < PERIOD && a + (e - s) <= PERIOD {
        assert forall|m: int| #[trigger] bounds(dt, tt, a, a + (e - s), m, sign) implies pbounds(dt, tt, s, e, m, sign) && 0 <= m < INF by {
            let x = choose|x: int| a <= x <= a + (e - s) && m == #[trigger] value(dt, tt, x);
            lemma_value_nonneg(dt, tt, x);
            assert(pvalue(dt, tt, o + x) == m);
            assert forall|t: int| s <= t < e implies le_s(sign, m, #[trigger] pvalue(dt, tt, t)) by { assert(pvalue(dt, tt, o + (t - o)) == value(dt, tt, t - o)); }
        }
    }
    if s < e && e - s < PERIOD && a + (e - s) > PERIOD {
        assert forall|m1: int, m2: int| #[trigger] bounds(dt, tt, a, PERIOD, m1, sign) && #[trigger] bounds(dt, tt, 0, a + (e - s) - PERIOD, m2, sign)
            implies pbounds(dt, tt, s, e, if le_s(sign, m1, m2) { m1 } else { m2 }, sign) by {
            let x1 = choose|x: int| a <= x <= PERIOD && m1 == #[trigger] value(dt, tt, x);
            let x2 = choose|x: int| 0 <= x <= a + (e - s) - PERIOD && m2 == #[trigger] value(dt, tt, x);
            assert(pvalue(dt, tt, o + x1) == m1); assert(pvalue(dt, tt, o + PERIOD + x2) == m2);
            let m = if le_s(sign, m1, m2) { m1 } else { m2 };
            assert forall|t: int| s <= t < e implies le_s(sign, m, #[trigger] pvalue(dt, tt, t)) by {
                if t - o <= PERIOD { assert(pvalue(dt, tt, o + (t - o)) == value(dt, tt, t - o)); } else { assert(pvalue(dt, tt, o + PERIOD + (t - o - PERIOD)) == value(dt, tt, t - o - PERIOD)); }
            }
        }
    }
}
proof fn lemma_pv(dt: Seq<u32>, tt: Seq<u32>, q: int, x: int)
    requires plf_ok(dt, tt), 0 <= x <= PERIOD, q >= 0
    ensures pvalue(dt, tt, q * PERIOD + x) == value(dt, tt, x)
{
    if x < PERIOD { lemma_fundamental_div_mod_converse(q * PERIOD + x, PERIOD, q, x); }
    else {
        assert((q + 1) * PERIOD == q * PERIOD + PERIOD) by (nonlinear_arith);
        lemma_fundamental_div_mod_converse(q * PERIOD + x, PERIOD, q + 1, 0);
        lemma_value_on(dt, tt, 0); lemma_value_on(dt, tt, dt.len() - 1);
    }
}
//@item engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs struct PiecewiseLinearFunction
impl<'a> PiecewiseLinearFunction<'a> {
    spec fn wf(&self) -> bool { plf_ok(self.departure_time@, self.travel_time@) }
    spec fn val(&self, x: int) -> int { value(self.departure_time@, self.travel_time@, x) }
//@fn engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs PiecewiseLinearFunction::new
//@rw for
//@rw subopt *travel_time.last().unwrap() => travel_time[travel_time.len() - 1]
//@rw subopt &departure_time[0..departure_time.len() - 1] => vf_slice(departure_time, 0, departure_time.len() - 1)
//@loop 0
    invariant vf_i0 <= vf_it0@.len(), vf_it0@ == departure_time@.subrange(0, departure_time@.len() - 1), plf_ok(departure_time@, travel_time@)
    decreases vf_it0@.len() - vf_i0
//@at loop_start 0
    proof { if departure_time@.len() > 1 { assert(departure_time@[vf_i0 - 1] < departure_time@[departure_time@.len() - 1]); } }
//@loop 1
    invariant vf_it1a@ == departure_time@, vf_it1b@ == travel_time@, plf_ok(departure_time@, travel_time@), vf_i1 < departure_time@.len()
    decreases departure_time@.len() - vf_i1
//@at loop_start 1
    proof {
        let i = vf_i1 - 1;
        assert(departure_time@[i] < departure_time@[i + 1] <= PERIOD) by { if i + 1 < departure_time@.len() - 1 { assert(departure_time@[i + 1] < departure_time@[departure_time@.len() - 1]); } }
        assert(departure_time@[i] + travel_time@[i] <= departure_time@[i + 1] + travel_time@[i + 1]);
        assert(travel_time@[i] + PERIOD < INF && travel_time@[i + 1] + PERIOD < INF);
    }
//@spec
    requires plf_ok(departure_time@, travel_time@)
    ensures r.departure_time@ == departure_time@, r.travel_time@ == travel_time@, r.wf()
//@endfn
//@fn engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs PiecewiseLinearFunction::eval
//@spec
    requires self.wf()
    ensures r == pvalue(self.departure_time@, self.travel_time@, departure as int),
        // one period later, the same
        forall|x: int| departure % (PERIOD as u32) == #[trigger] (x % PERIOD) ==> r == pvalue(self.departure_time@, self.travel_time@, x),
//@endfn
//@fn engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs PiecewiseLinearFunction::lower_bound
//@rw sub *self.travel_time.iter().min().unwrap() => vf_slice_min(self.travel_time)
//@spec
    requires self.wf()
    ensures is_min(self.travel_time@, r as int), bounds(self.departure_time@, self.travel_time@, 0, PERIOD, r as int, 1)
//@at start
    proof { assert forall|m: int| is_min(self.travel_time@, m) implies #[trigger] bounds(self.departure_time@, self.travel_time@, 0, PERIOD, m, 1) by { lemma_global_min(self.departure_time@, self.travel_time@, m); } }
//@endfn
//@fn engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs PiecewiseLinearFunction::upper_bound
//@rw sub *self.travel_time.iter().max().unwrap() => vf_slice_max(self.travel_time)
//@spec
    requires self.wf()
    ensures is_max(self.travel_time@, r as int), bounds(self.departure_time@, self.travel_time@, 0, PERIOD, r as int, -1)
//@at start
    proof { assert forall|m: int| is_max(self.travel_time@, m) implies #[trigger] bounds(self.departure_time@, self.travel_time@, 0, PERIOD, m, -1) by { lemma_global_max(self.departure_time@, self.travel_time@, m); } }
//@endfn
//@fn engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs PiecewiseLinearFunction::evaluate
//@rw subopt self.departure_time.locate($d, |&dt| dt) => self.departure_time.locate($d)
//@rw subopt *self.travel_time.get_unchecked($i) => self.travel_time[$i]
//@rw subopt *self.departure_time.get_unchecked($i) => self.departure_time[$i]
//@spec
    requires self.wf(), departure <= PERIOD
    ensures r == self.val(departure as int)
//@at start
    proof { lemma_evaluate(self.departure_time@, self.travel_time@, departure as int); }
//@endfn
//@fn engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs PiecewiseLinearFunction::lower_bound_in_included
//@rw subopt range.is_empty() => !(range.start < range.end)
//@rw subopt self.departure_time.locate($d, |&dt| dt) => self.departure_time.locate($d)
//@rw sub self.travel_time[$a..=$b].iter().copied().chain(std::iter::once($x)).chain(std::iter::once($y)).min().unwrap() => vf_min_and2(self.travel_time, $a, $b, $x, $y)
//@spec
    requires self.wf(), self.departure_time@.len() > 1, range.end <= PERIOD
    ensures range.start < range.end ==> bounds(self.departure_time@, self.travel_time@, range.start as int, range.end as int, r as int, 1),
        range.start >= range.end ==> r == INFINITY,
//@at end
    proof {
        assert forall|m: int| #[trigger] is_min(and2(self.travel_time@, first_idx as int, last_idx as int, first_lower, last_lower), m)
            implies bounds(self.departure_time@, self.travel_time@, range.start as int, range.end as int, m, 1) by {
            lemma_included(self.departure_time@, self.travel_time@, range.start as int, range.end as int, first_idx as int, first_lower, last_idx as int, last_lower, m, 1);
        }
        lemma_included_idx(self.departure_time@, range.start as int, range.end as int, first_idx as int, last_idx as int);
    }
//@endfn
//@fn engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs PiecewiseLinearFunction::upper_bound_in_included
//@rw subopt range.is_empty() => !(range.start < range.end)
//@rw subopt self.departure_time.locate($d, |&dt| dt) => self.departure_time.locate($d)
//@rw sub self.travel_time[$a..=$b].iter().copied().chain(std::iter::once($x)).chain(std::iter::once($y)).max().unwrap() => vf_max_and2(self.travel_time, $a, $b, $x, $y)
//@spec
    requires self.wf(), self.departure_time@.len() > 1, range.end <= PERIOD
    ensures range.start < range.end ==> bounds(self.departure_time@, self.travel_time@, range.start as int, range.end as int, r as int, -1),
        range.start >= range.end ==> r == 0,
//@at end
    proof {
        assert forall|m: int| #[trigger] is_max(and2(self.travel_time@, first_idx as int, last_idx as int, first_lower, last_lower), m)
            implies bounds(self.departure_time@, self.travel_time@, range.start as int, range.end as int, m, -1) by {
            lemma_included(self.departure_time@, self.travel_time@, range.start as int, range.end as int, first_idx as int, first_lower, last_idx as int, last_lower, m, -1);
        }
        lemma_included_idx(self.departure_time@, range.start as int, range.end as int, first_idx as int, last_idx as int);
    }
//@endfn
//@fn engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs PiecewiseLinearFunction::lower_bound_in_range
//@rw sub if let &[$c:id] = self.travel_time => if let Some($c) = vf_single(self.travel_time)
//@spec
    requires self.wf(), range.end <= INF
    ensures range.start < range.end ==> pbounds(self.departure_time@, self.travel_time@, range.start as int, range.end as int, r as int, 1)
//@at start
    proof { lemma_in_range(self.departure_time@, self.travel_time@, range.start as int, range.end as int, 1); }
//@endfn
//@fn engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs PiecewiseLinearFunction::upper_bound_in_range
//@rw sub if let &[$c:id] = self.travel_time => if let Some($c) = vf_single(self.travel_time)
//@spec
    requires self.wf(), range.end <= INF
    ensures range.start < range.end ==> pbounds(self.departure_time@, self.travel_time@, range.start as int, range.end as int, r as int, -1)
//@at start
    proof { lemma_in_range(self.departure_time@, self.travel_time@, range.start as int, range.end as int, -1); }
//@endfn
}
