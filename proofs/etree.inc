/// every parent ranks higher
spec fn parents_ok(et: Seq<InRangeOption<u32>>) -> bool { et.len() < u32::MAX && forall|u: int| 0 <= u < et.len() ==> ((#[trigger] et[u])@ matches Some(p) ==> u < p < et.len()) }
/// a is v or an ancestor of v in the elimination tree
spec fn anc(et: Seq<InRangeOption<u32>>, v: u32, a: u32) -> bool decreases et.len() - v { v == a || v < et.len() && (et[v as int]@ matches Some(p) && v < p < et.len() && anc(et, p, a)) }
proof fn lemma_anc_le(et: Seq<InRangeOption<u32>>, v: u32, a: u32) requires anc(et, v, a) ensures v <= a, v < a ==> v < et.len() && a < et.len() decreases et.len() - v { if v != a { lemma_anc_le(et, et[v as int]@->0, a); } }
proof fn lemma_anc_trans(et: Seq<InRangeOption<u32>>, v: u32, a: u32, b: u32) requires anc(et, v, a), anc(et, a, b) ensures anc(et, v, b) decreases et.len() - v { if v != a { lemma_anc_trans(et, et[v as int]@->0, a, b); } }
/// two ancestors of a node are comparable
proof fn lemma_anc_cmp(et: Seq<InRangeOption<u32>>, v: u32, a: u32, b: u32) requires anc(et, v, a), anc(et, v, b), a <= b ensures anc(et, a, b) decreases et.len() - v
{ if v == a { } else if v == b { lemma_anc_le(et, v, a); } else { lemma_anc_cmp(et, et[v as int]@->0, a, b); } }
