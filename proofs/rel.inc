// ---- arc relations on node numbers and the lengths of their walks
type Er = spec_fn(int, int, int) -> bool;
spec fn rstep(e: Er, u: int, y: int, w: int) -> bool { e(u, y, w) && w >= 0 }
/// a walk of k arcs and length d
spec fn rch(e: Er, u: int, v: int, d: int, k: nat) -> bool decreases k {
    if k == 0 { u == v && d == 0 } else { exists|y: int, w: int| #[trigger] rstep(e, u, y, w) && rch(e, y, v, d - w, (k - 1) as nat) }
}
spec fn wk(e: Er, u: int, v: int, d: int) -> bool { exists|k: nat| #[trigger] rch(e, u, v, d, k) }
spec fn wle(e: Er, u: int, v: int, d: int) -> bool { exists|d2: int| #[trigger] wk(e, u, v, d2) && d2 <= d }
spec fn sub_rel(e: Er, e2: Er) -> bool { forall|u: int, v: int, w: int| #[trigger] rstep(e, u, v, w) ==> rstep(e2, u, v, w) }
/// every arc of e is matched by a walk of e2 that is not longer
spec fn dom(e: Er, e2: Er) -> bool { forall|u: int, v: int, w: int| #[trigger] rstep(e, u, v, w) ==> wle(e2, u, v, w) }
/// every arc of e has exactly the length of some walk of e2
spec fn real(e: Er, e2: Er) -> bool { forall|u: int, v: int, w: int| #[trigger] rstep(e, u, v, w) ==> wk(e2, u, v, w) }
proof fn lemma_wk0(e: Er, u: int) ensures wk(e, u, u, 0), forall|d: int| 0 <= d ==> #[trigger] wle(e, u, u, d) { assert(rch(e, u, u, 0, 0)); }
proof fn lemma_wk1(e: Er, u: int, v: int, w: int) requires rstep(e, u, v, w) ensures wk(e, u, v, w), wle(e, u, v, w) { assert(rch(e, v, v, 0, 0)); assert(rch(e, u, v, w, 1)); }
proof fn lemma_rch_trans(e: Er, u: int, v: int, x: int, d1: int, d2: int, k1: nat, k2: nat)
    requires rch(e, u, v, d1, k1), rch(e, v, x, d2, k2)
    ensures rch(e, u, x, d1 + d2, k1 + k2)
    decreases k1
{
    if k1 > 0 {
        let (y, w) = choose|y: int, w: int| #[trigger] rstep(e, u, y, w) && rch(e, y, v, d1 - w, (k1 - 1) as nat);
        lemma_rch_trans(e, y, v, x, d1 - w, d2, (k1 - 1) as nat, k2);
        assert(rch(e, y, x, d1 + d2 - w, (k1 + k2 - 1) as nat));
    }
}
proof fn lemma_wk_trans(e: Er, u: int, v: int, x: int, d1: int, d2: int)
    requires wk(e, u, v, d1), wk(e, v, x, d2)
    ensures wk(e, u, x, d1 + d2)
{ let k1 = choose|k: nat| #[trigger] rch(e, u, v, d1, k); let k2 = choose|k: nat| #[trigger] rch(e, v, x, d2, k); lemma_rch_trans(e, u, v, x, d1, d2, k1, k2); }
proof fn lemma_wle_trans(e: Er, u: int, v: int, x: int, d1: int, d2: int)
    requires wle(e, u, v, d1), wle(e, v, x, d2)
    ensures wle(e, u, x, d1 + d2)
{ let a = choose|d: int| #[trigger] wk(e, u, v, d) && d <= d1; let b = choose|d: int| #[trigger] wk(e, v, x, d) && d <= d2; lemma_wk_trans(e, u, v, x, a, b); }
proof fn lemma_rch_pos(e: Er, u: int, v: int, d: int, k: nat)
    requires rch(e, u, v, d, k)
    ensures d >= 0
    decreases k
{ if k > 0 { let (y, w) = choose|y: int, w: int| #[trigger] rstep(e, u, y, w) && rch(e, y, v, d - w, (k - 1) as nat); lemma_rch_pos(e, y, v, d - w, (k - 1) as nat); } }
proof fn lemma_rch_dom(e: Er, e2: Er, u: int, v: int, d: int, k: nat)
    requires dom(e, e2), rch(e, u, v, d, k)
    ensures wle(e2, u, v, d)
    decreases k
{
    if k == 0 { lemma_wk0(e2, u); }
    else { let (y, w) = choose|y: int, w: int| #[trigger] rstep(e, u, y, w) && rch(e, y, v, d - w, (k - 1) as nat); lemma_rch_dom(e, e2, y, v, d - w, (k - 1) as nat); lemma_wle_trans(e2, u, y, v, w, d - w); }
}
proof fn lemma_wle_dom(e: Er, e2: Er, u: int, v: int, d: int)
    requires dom(e, e2), wle(e, u, v, d)
    ensures wle(e2, u, v, d)
{ let a = choose|a: int| #[trigger] wk(e, u, v, a) && a <= d; let k = choose|k: nat| #[trigger] rch(e, u, v, a, k); lemma_rch_dom(e, e2, u, v, a, k); let b = choose|b: int| #[trigger] wk(e2, u, v, b) && b <= a; assert(b <= d); }
proof fn lemma_rch_real(e: Er, e2: Er, u: int, v: int, d: int, k: nat)
    requires real(e, e2), rch(e, u, v, d, k)
    ensures wk(e2, u, v, d)
    decreases k
{
    if k == 0 { lemma_wk0(e2, u); }
    else { let (y, w) = choose|y: int, w: int| #[trigger] rstep(e, u, y, w) && rch(e, y, v, d - w, (k - 1) as nat); lemma_rch_real(e, e2, y, v, d - w, (k - 1) as nat); lemma_wk_trans(e2, u, y, v, w, d - w); }
}
proof fn lemma_wk_real(e: Er, e2: Er, u: int, v: int, d: int)
    requires real(e, e2), wk(e, u, v, d)
    ensures wk(e2, u, v, d)
{ let k = choose|k: nat| #[trigger] rch(e, u, v, d, k); lemma_rch_real(e, e2, u, v, d, k); }
proof fn lemma_sub_real(e: Er, e2: Er) requires sub_rel(e, e2) ensures real(e, e2), dom(e, e2)
{ assert forall|u: int, v: int, w: int| #[trigger] rstep(e, u, v, w) implies wk(e2, u, v, w) && wle(e2, u, v, w) by { assert(rstep(e2, u, v, w)); lemma_wk1(e2, u, v, w); } }
proof fn lemma_dom_trans(e: Er, e2: Er, e3: Er) requires dom(e, e2), dom(e2, e3) ensures dom(e, e3)
{ assert forall|u: int, v: int, w: int| #[trigger] rstep(e, u, v, w) implies wle(e3, u, v, w) by { lemma_wle_dom(e2, e3, u, v, w); } }
/// all detours over x are matched in e2, and so is every arc that avoids x
spec fn bypassed(e: Er, x: int, e2: Er) -> bool {
    &&& forall|u: int, v: int, w: int| #[trigger] rstep(e, u, v, w) && u != x && v != x ==> wle(e2, u, v, w)
    &&& forall|u: int, v: int, w1: int, w2: int| #[trigger] rstep(e, u, x, w1) && #[trigger] rstep(e, x, v, w2) && u != v ==> wle(e2, u, v, w1 + w2)
    &&& forall|w: int| !#[trigger] rstep(e, x, x, w)
}
proof fn lemma_bypass(e: Er, x: int, e2: Er, u: int, v: int, d: int, k: nat)
    requires bypassed(e, x, e2), rch(e, u, v, d, k), u != x, v != x
    ensures wle(e2, u, v, d)
    decreases k
{
    if k == 0 { lemma_wk0(e2, u); }
    else {
        let (y, w) = choose|y: int, w: int| #[trigger] rstep(e, u, y, w) && rch(e, y, v, d - w, (k - 1) as nat);
        if y != x { lemma_bypass(e, x, e2, y, v, d - w, (k - 1) as nat); lemma_wle_trans(e2, u, y, v, w, d - w); }
        else {
            let (z, w2) = choose|z: int, w2: int| #[trigger] rstep(e, x, z, w2) && rch(e, z, v, d - w - w2, (k - 2) as nat);
            lemma_bypass(e, x, e2, z, v, d - w - w2, (k - 2) as nat);
            if z == u { let a = choose|a: int| #[trigger] wk(e2, z, v, a) && a <= d - w - w2; assert(a <= d); }
            else { lemma_wle_trans(e2, u, z, v, w + w2, d - w - w2); }
        }
    }
}
/// the last arc of a walk
proof fn lemma_rch_last(e: Er, u: int, v: int, d: int, k: nat) -> (r: (int, int))
    requires rch(e, u, v, d, k), k > 0
    ensures rstep(e, r.0, v, r.1), rch(e, u, r.0, d - r.1, (k - 1) as nat)
    decreases k
{
    let (y, w) = choose|y: int, w: int| #[trigger] rstep(e, u, y, w) && rch(e, y, v, d - w, (k - 1) as nat);
    if k == 1 { assert(rch(e, u, u, 0, 0)); assert(y == v && d == w); (u, w) }
    else { let r = lemma_rch_last(e, y, v, d - w, (k - 1) as nat); assert(rch(e, y, r.0, d - r.1 - w, (k - 2) as nat)); r }
}
/// the frozen part of a hierarchy (f upward, b against the arcs) and the remaining graph e on nodes from i on together match every walk of e0
spec fn mixed(f: Er, b: Er, e: Er, i: int, s: int, t: int, d: int, x: int, y: int, p: int, q: int, r: int) -> bool {
    wk(f, s, x, p) && wk(b, t, y, q) && wk(e, x, y, r) && p + q + r <= d && (x == y || (x >= i && y >= i))
}
spec fn matched(f: Er, b: Er, e: Er, i: int, s: int, t: int, d: int) -> bool { exists|x: int, y: int, p: int, q: int, r: int| #[trigger] mixed(f, b, e, i, s, t, d, x, y, p, q, r) }
spec fn hier(e0: Er, f: Er, b: Er, e: Er, i: int) -> bool { forall|s: int, t: int, d: int| s >= 0 && t >= 0 && #[trigger] wk(e0, s, t, d) ==> matched(f, b, e, i, s, t, d) }
proof fn lemma_hier_start(e0: Er, f: Er, b: Er) ensures hier(e0, f, b, e0, 0)
{ assert forall|s: int, t: int, d: int| s >= 0 && t >= 0 && #[trigger] wk(e0, s, t, d) implies matched(f, b, e0, 0, s, t, d) by { lemma_wk0(f, s); lemma_wk0(b, t); assert(mixed(f, b, e0, 0, s, t, d, s, t, 0, 0, d)); } }
proof fn lemma_hier_core(f: Er, b: Er, e: Er, i: int, f2: Er, b2: Er, e2: Er, s: int, t: int, d: int, x: int, y: int, p: int, q: int, r: int, k: nat)
    requires bypassed(e, i, e2), sub_rel(f, f2), sub_rel(b, b2), forall|v: int, w: int| #[trigger] rstep(e, i, v, w) ==> rstep(f2, i, v, w) && v > i, forall|v: int, w: int| #[trigger] rstep(e, v, i, w) ==> rstep(b2, i, v, w) && v > i,
        wk(f2, s, x, p), wk(b2, t, y, q), rch(e, x, y, r, k), p + q + r <= d, x >= i, y >= i
    ensures matched(f2, b2, e2, i + 1, s, t, d)
{
    lemma_rch_pos(e, x, y, r, k);
    if x == y { lemma_wk0(e2, x); assert(mixed(f2, b2, e2, i + 1, s, t, d, x, y, p, q, 0)); }
    else if x == i {
        let (z, w) = choose|z: int, w: int| #[trigger] rstep(e, x, z, w) && rch(e, z, y, r - w, (k - 1) as nat);
        lemma_wk1(f2, x, z, w); lemma_wk_trans(f2, s, x, z, p, w);
        lemma_bypass(e, i, e2, z, y, r - w, (k - 1) as nat);
        let r2 = choose|a: int| #[trigger] wk(e2, z, y, a) && a <= r - w;
        assert(mixed(f2, b2, e2, i + 1, s, t, d, z, y, p + w, q, r2));
    } else if y == i {
        let (z, w) = lemma_rch_last(e, x, y, r, k);
        lemma_wk1(b2, y, z, w); lemma_wk_trans(b2, t, y, z, q, w);
        lemma_bypass(e, i, e2, x, z, r - w, (k - 1) as nat);
        let r2 = choose|a: int| #[trigger] wk(e2, x, z, a) && a <= r - w;
        assert(mixed(f2, b2, e2, i + 1, s, t, d, x, z, p, q + w, r2));
    } else {
        lemma_bypass(e, i, e2, x, y, r, k);
        let r2 = choose|a: int| #[trigger] wk(e2, x, y, a) && a <= r;
        assert(mixed(f2, b2, e2, i + 1, s, t, d, x, y, p, q, r2));
    }
}
/// contracting node i: its links are frozen, the rest bypasses it
proof fn lemma_hier_step(e0: Er, f: Er, b: Er, e: Er, i: int, f2: Er, b2: Er, e2: Er)
    requires hier(e0, f, b, e, i), bypassed(e, i, e2), sub_rel(f, f2), sub_rel(b, b2), forall|v: int, w: int| #[trigger] rstep(e, i, v, w) ==> rstep(f2, i, v, w) && v > i, forall|v: int, w: int| #[trigger] rstep(e, v, i, w) ==> rstep(b2, i, v, w) && v > i
    ensures hier(e0, f2, b2, e2, i + 1)
{
    lemma_sub_real(f, f2); lemma_sub_real(b, b2);
    assert forall|s: int, t: int, d: int| s >= 0 && t >= 0 && #[trigger] wk(e0, s, t, d) implies matched(f2, b2, e2, i + 1, s, t, d) by {
        assert(matched(f, b, e, i, s, t, d));
        let (x, y, p, q, r) = choose|x: int, y: int, p: int, q: int, r: int| #[trigger] mixed(f, b, e, i, s, t, d, x, y, p, q, r);
        lemma_wk_real(f, f2, s, x, p); lemma_wk_real(b, b2, t, y, q);
        let k = choose|k: nat| #[trigger] rch(e, x, y, r, k);
        if x >= i && y >= i { lemma_hier_core(f, b, e, i, f2, b2, e2, s, t, d, x, y, p, q, r, k); }
        else { lemma_rch_pos(e, x, y, r, k); lemma_wk0(e2, x); assert(mixed(f2, b2, e2, i + 1, s, t, d, x, y, p, q, 0)); }
    }
}
/// nothing remains: the frozen links alone
proof fn lemma_hier_done(e0: Er, f: Er, b: Er, e: Er, n: int, s: int, t: int, d: int) -> (r: (int, int, int))
    requires hier(e0, f, b, e, n), wk(e0, s, t, d), s >= 0, t >= 0, forall|u: int, v: int, w: int| !#[trigger] rstep(e, u, v, w)
    ensures wk(f, s, r.0, r.1), wk(b, t, r.0, r.2), r.1 + r.2 <= d
{
    assert(matched(f, b, e, n, s, t, d));
    let (x, y, p, q, r) = choose|x: int, y: int, p: int, q: int, r: int| #[trigger] mixed(f, b, e, n, s, t, d, x, y, p, q, r);
    let k = choose|k: nat| #[trigger] rch(e, x, y, r, k);
    assert(k == 0);
    (x, p, q)
}
