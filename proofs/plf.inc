// ---------------------------------------------------------------- travel time functions as mathematical functions
spec const INF: int = 2147483647;
/// a travel time function over one period: one constant, or breakpoints from 0 to the end of the period, FIFO, first value = last value
spec fn plf_ok(dt: Seq<u32>, tt: Seq<u32>) -> bool {
    &&& dt.len() == tt.len() && dt.len() >= 1
    &&& forall|i: int| 0 <= i < tt.len() ==> #[trigger] tt[i] + PERIOD < INF
    &&& dt.len() == 1 ==> dt[0] == 0
    &&& dt.len() > 1 ==> full_period(dt) && tt[0] == tt[tt.len() - 1]
    &&& forall|i: int, j: int| #![trigger tt[i], tt[j]] 0 <= i <= j < dt.len() ==> dt[i] + tt[i] <= dt[j] + tt[j]
}
/// rounded-down linear interpolation of the travel time on segment i
spec fn at_seg(dt: Seq<u32>, tt: Seq<u32>, i: int, x: int) -> int { tt[i] + ((x - dt[i]) * (tt[i + 1] - tt[i])) / (dt[i + 1] - dt[i]) }
spec fn in_seg(dt: Seq<u32>, i: int, x: int) -> bool { 0 <= i < dt.len() - 1 && dt[i] <= x <= dt[i + 1] }
/// the function's value within the period (0 <= x <= PERIOD)
spec fn value(dt: Seq<u32>, tt: Seq<u32>, x: int) -> int {
    if dt.len() == 1 { tt[0] as int } else { at_seg(dt, tt, choose|i: int| in_seg(dt, i, x), x) }
}
/// the periodic function
spec fn pvalue(dt: Seq<u32>, tt: Seq<u32>, x: int) -> int { value(dt, tt, x % PERIOD) }

proof fn lemma_at_ends(dt: Seq<u32>, tt: Seq<u32>, i: int)
    requires plf_ok(dt, tt), 0 <= i < dt.len() - 1
    ensures at_seg(dt, tt, i, dt[i] as int) == tt[i], at_seg(dt, tt, i, dt[i + 1] as int) == tt[i + 1]
{
    let dx = dt[i + 1] - dt[i]; let dv = tt[i + 1] - tt[i];
    assert(dt[i] < dt[i + 1]);
    assert(0 * dv == 0) by (nonlinear_arith);
    assert(0int / dx == 0) by (nonlinear_arith) requires dx > 0;
    assert((dx * dv) / dx == dv) by { lemma_div_multiples_vanish(dv, dx); }
}
proof fn lemma_seg_mono(dt: Seq<u32>, tt: Seq<u32>, i: int, x: int, y: int)
    requires plf_ok(dt, tt), in_seg(dt, i, x), in_seg(dt, i, y), x <= y
    ensures
        tt[i] <= tt[i + 1] ==> at_seg(dt, tt, i, x) <= at_seg(dt, tt, i, y),
        tt[i] >= tt[i + 1] ==> at_seg(dt, tt, i, x) >= at_seg(dt, tt, i, y),
        x + at_seg(dt, tt, i, x) <= y + at_seg(dt, tt, i, y),
{
    let dx = dt[i + 1] - dt[i]; let dv = tt[i + 1] - tt[i]; let a = x - dt[i]; let b = y - dt[i];
    assert(dt[i] < dt[i + 1]);
    if dv >= 0 { assert(a * dv <= b * dv) by (nonlinear_arith) requires a <= b, dv >= 0; lemma_div_is_ordered(a * dv, b * dv, dx); }
    if dv <= 0 { assert(a * dv >= b * dv) by (nonlinear_arith) requires a <= b, dv <= 0; lemma_div_is_ordered(b * dv, a * dv, dx); }
    // arrival: a + a*dv/dx == a*(dx+dv)/dx, and dx + dv >= 0
    lemma_arr(a, dv, dx); lemma_arr(b, dv, dx);
    assert(a * (dx + dv) <= b * (dx + dv)) by (nonlinear_arith) requires a <= b, dx + dv >= 0;
    lemma_div_is_ordered(a * (dx + dv), b * (dx + dv), dx);
}
proof fn lemma_arr(a: int, dv: int, dx: int)
    requires dx > 0
    ensures (a * (dx + dv)) / dx == a + (a * dv) / dx
{
    assert(a * (dx + dv) == a * dv + a * dx) by (nonlinear_arith);
    lemma_hoist_over_denominator(a * dv, a, dx as nat);
}
proof fn lemma_seg_range(dt: Seq<u32>, tt: Seq<u32>, i: int, x: int)
    requires plf_ok(dt, tt), in_seg(dt, i, x)
    ensures tt[i] <= tt[i + 1] ==> tt[i] <= at_seg(dt, tt, i, x) <= tt[i + 1], tt[i] >= tt[i + 1] ==> tt[i] >= at_seg(dt, tt, i, x) >= tt[i + 1]
{
    lemma_at_ends(dt, tt, i);
    assert(dt[i] < dt[i + 1]);
    lemma_seg_mono(dt, tt, i, dt[i] as int, x);
    lemma_seg_mono(dt, tt, i, x, dt[i + 1] as int);
}
/// every time lies on a segment
proof fn lemma_seg_exists(dt: Seq<u32>, x: int) -> (i: int)
    requires full_period(dt), 0 <= x <= PERIOD
    ensures in_seg(dt, i, x)
{ lemma_seg_exists_from(dt, x, 0) }
proof fn lemma_seg_exists_from(dt: Seq<u32>, x: int, k: int) -> (i: int)
    requires full_period(dt), dt[k] <= x <= PERIOD, 0 <= k < dt.len() - 1
    ensures in_seg(dt, i, x)
    decreases dt.len() - k
{ if x <= dt[k + 1] { k } else if k + 1 < dt.len() - 1 { lemma_seg_exists_from(dt, x, k + 1) } else { k } }
/// the segments that share a breakpoint agree on it
proof fn lemma_value(dt: Seq<u32>, tt: Seq<u32>, i: int, x: int)
    requires plf_ok(dt, tt), in_seg(dt, i, x)
    ensures value(dt, tt, x) == at_seg(dt, tt, i, x)
{
    let j = choose|j: int| in_seg(dt, j, x);
    assert(in_seg(dt, j, x));
    if i < j { assert(dt[i + 1] <= dt[j]); if i + 1 < j { assert(dt[i + 1] < dt[j]); } lemma_at_ends(dt, tt, i); lemma_at_ends(dt, tt, j); }
    if j < i { if j + 1 < i { assert(dt[j + 1] < dt[i]); } lemma_at_ends(dt, tt, i); lemma_at_ends(dt, tt, j); }
}
proof fn lemma_value_on(dt: Seq<u32>, tt: Seq<u32>, i: int)
    requires plf_ok(dt, tt), 0 <= i < dt.len()
    ensures value(dt, tt, dt[i] as int) == tt[i]
{
    if dt.len() > 1 {
        if i < dt.len() - 1 { assert(dt[i] < dt[i + 1]); assert(in_seg(dt, i, dt[i] as int)); lemma_value(dt, tt, i, dt[i] as int); lemma_at_ends(dt, tt, i); }
        else { assert(dt[i - 1] < dt[i]); assert(in_seg(dt, i - 1, dt[i] as int)); lemma_value(dt, tt, i - 1, dt[i] as int); lemma_at_ends(dt, tt, i - 1); }
    }
}
proof fn lemma_value_nonneg(dt: Seq<u32>, tt: Seq<u32>, x: int)
    requires plf_ok(dt, tt), 0 <= x <= PERIOD
    ensures 0 <= value(dt, tt, x) < INF - PERIOD
{ if dt.len() > 1 { let i = lemma_seg_exists(dt, x); lemma_value(dt, tt, i, x); lemma_seg_range(dt, tt, i, x); assert(tt[i] + PERIOD < INF && tt[i + 1] + PERIOD < INF); } }
proof fn lemma_pvalue_nonneg(dt: Seq<u32>, tt: Seq<u32>, x: int)
    requires plf_ok(dt, tt), 0 <= x
    ensures 0 <= pvalue(dt, tt, x) < INF - PERIOD
{ lemma_value_nonneg(dt, tt, x % PERIOD); }
// ---- FIFO
proof fn lemma_fifo_from(dt: Seq<u32>, tt: Seq<u32>, i: int, x: int, j: int, y: int)
    requires plf_ok(dt, tt), in_seg(dt, i, x), in_seg(dt, j, y), i <= j, x <= y
    ensures x + at_seg(dt, tt, i, x) <= y + at_seg(dt, tt, j, y)
    decreases j - i
{
    if i == j { lemma_seg_mono(dt, tt, i, x, y); }
    else {
        lemma_at_ends(dt, tt, i); lemma_at_ends(dt, tt, i + 1);
        assert(dt[i] < dt[i + 1] && dt[i + 1] < dt[i + 2]);
        lemma_seg_mono(dt, tt, i, x, dt[i + 1] as int);
        assert(dt[i + 1] <= y) by { if i + 1 < j { assert(dt[i + 1] < dt[j]); } }
        lemma_fifo_from(dt, tt, i + 1, dt[i + 1] as int, j, y);
    }
}
proof fn lemma_fifo(dt: Seq<u32>, tt: Seq<u32>, x: int, y: int)
    requires plf_ok(dt, tt), 0 <= x <= y <= PERIOD
    ensures x + value(dt, tt, x) <= y + value(dt, tt, y)
{
    if dt.len() > 1 {
        let i = lemma_seg_exists(dt, x); let j = lemma_seg_exists(dt, y);
        lemma_value(dt, tt, i, x); lemma_value(dt, tt, j, y);
        if i <= j { lemma_fifo_from(dt, tt, i, x, j, y); }
        else { assert(dt[j + 1] <= dt[i]) by { if j + 1 < i { assert(dt[j + 1] < dt[i]); } } assert(x == y); }
    }
}
/// C10: leaving later never means arriving earlier, at any two times
proof fn lemma_pfifo(dt: Seq<u32>, tt: Seq<u32>, s: int, t: int)
    requires plf_ok(dt, tt), 0 <= s <= t
    ensures s + pvalue(dt, tt, s) <= t + pvalue(dt, tt, t)
{
    let a = s % PERIOD; let b = t % PERIOD; let p = s / PERIOD; let q = t / PERIOD;
    lemma_fundamental_div_mod(s, PERIOD); lemma_fundamental_div_mod(t, PERIOD);
    lemma_div_is_ordered(s, t, PERIOD);
    if p == q { assert(a <= b); lemma_fifo(dt, tt, a, b); }
    else {
        lemma_fifo(dt, tt, a, PERIOD); lemma_fifo(dt, tt, 0, b);
        lemma_value_on(dt, tt, 0); lemma_value_on(dt, tt, dt.len() - 1);
        assert(PERIOD * p + PERIOD <= PERIOD * q) by (nonlinear_arith) requires p + 1 <= q, PERIOD == 86_400_000;
    }
}
// ---- bounds
spec fn le_s(sign: int, a: int, b: int) -> bool { if sign > 0 { a <= b } else { a >= b } }
spec fn is_min(s: Seq<u32>, m: int) -> bool { (forall|i: int| 0 <= i < s.len() ==> m <= #[trigger] s[i]) && (exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == m) }
spec fn is_max(s: Seq<u32>, m: int) -> bool { (forall|i: int| 0 <= i < s.len() ==> m >= #[trigger] s[i]) && (exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == m) }
/// lo is a lower bound on the closed range and is attained in it (sign = -1: the same for upper bounds)
spec fn bounds(dt: Seq<u32>, tt: Seq<u32>, a: int, b: int, m: int, sign: int) -> bool {
    &&& forall|x: int| a <= x <= b ==> le_s(sign, m, #[trigger] value(dt, tt, x))
    &&& exists|x: int| a <= x <= b && m == #[trigger] value(dt, tt, x)
}
/// the values at both ends and at the breakpoints in between bound the function on the range
proof fn lemma_bounds(dt: Seq<u32>, tt: Seq<u32>, a: int, b: int, m: int, sign: int)
    requires plf_ok(dt, tt), dt.len() > 1, 0 <= a <= b <= PERIOD, sign == 1 || sign == -1,
        le_s(sign, m, value(dt, tt, a)), le_s(sign, m, value(dt, tt, b)),
        forall|k: int| 0 <= k < dt.len() && a <= #[trigger] dt[k] <= b ==> le_s(sign, m, tt[k] as int),
    ensures forall|x: int| a <= x <= b ==> le_s(sign, m, #[trigger] value(dt, tt, x))
{
    assert forall|x: int| a <= x <= b implies le_s(sign, m, #[trigger] value(dt, tt, x)) by {
        let i = lemma_seg_exists(dt, x);
        lemma_value(dt, tt, i, x);
        assert(dt[i] < dt[i + 1]);
        let l = if dt[i] < a { a } else { dt[i] as int };
        let h = if dt[i + 1] > b { b } else { dt[i + 1] as int };
        lemma_value(dt, tt, i, l); lemma_value(dt, tt, i, h);
        lemma_at_ends(dt, tt, i);
        lemma_seg_mono(dt, tt, i, l, x); lemma_seg_mono(dt, tt, i, x, h);
    }
}
proof fn lemma_global_min(dt: Seq<u32>, tt: Seq<u32>, m: int)
    requires plf_ok(dt, tt), is_min(tt, m)
    ensures bounds(dt, tt, 0, PERIOD, m, 1)
{
    let i = choose|i: int| 0 <= i < tt.len() && #[trigger] tt[i] == m;
    lemma_value_on(dt, tt, i);
    if dt.len() > 1 { lemma_value_on(dt, tt, 0); lemma_value_on(dt, tt, dt.len() - 1); lemma_bounds(dt, tt, 0, PERIOD, m, 1); if i < dt.len() - 1 { assert(dt[i] < dt[dt.len() - 1]); } }
}
proof fn lemma_global_max(dt: Seq<u32>, tt: Seq<u32>, m: int)
    requires plf_ok(dt, tt), is_max(tt, m)
    ensures bounds(dt, tt, 0, PERIOD, m, -1)
{
    let i = choose|i: int| 0 <= i < tt.len() && #[trigger] tt[i] == m;
    lemma_value_on(dt, tt, i);
    if dt.len() > 1 { lemma_value_on(dt, tt, 0); lemma_value_on(dt, tt, dt.len() - 1); lemma_bounds(dt, tt, 0, PERIOD, m, -1); if i < dt.len() - 1 { assert(dt[i] < dt[dt.len() - 1]); } }
}
/// a bound over an arbitrary time range (half open, as the code's ranges; attained in its closure)
spec fn pbounds(dt: Seq<u32>, tt: Seq<u32>, s: int, e: int, m: int, sign: int) -> bool {
    &&& forall|t: int| s <= t < e ==> le_s(sign, m, #[trigger] pvalue(dt, tt, t))
    &&& exists|t: int| s <= t <= e && m == #[trigger] pvalue(dt, tt, t)
}
