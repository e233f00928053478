use vstd::prelude::*;
#[allow(unused_imports)] use vstd::std_specs::cmp::*;
#[allow(unused_imports)] use vstd::seq_lib::*;
#[allow(unused_imports)] use vstd::set_lib::*;
#[allow(unused_imports)] use vstd::multiset::*;
#[allow(unused_imports)] use vstd::arithmetic::div_mod::*;
#[allow(unused_imports)] use vstd::arithmetic::mul::*;
#[allow(unused_imports)] use std::mem::swap;
verus! {
global size_of usize == 8;
/// assert!/debug_assert! in the real code: an obligation that it never fires
fn vf_assert(b: bool) requires b { }
/// assert! where the property is that bad input is rejected: returns only if b holds
#[verifier::external_body]
fn vf_reject_unless(b: bool) ensures b { assert!(b) }
#[verifier::inline]
spec fn vf_min_s(a: int, b: int) -> int { if a <= b { a } else { b } }
fn vf_min(a: usize, b: usize) -> (r: usize) ensures r == vf_min_s(a as int, b as int) { if a <= b { a } else { b } }
fn vf_windows2_len(n: usize) -> (r: usize) ensures r == (if n > 0 { n - 1 } else { 0 }) { if n > 0 { n - 1 } else { 0 } }
/// std::cmp::{min,max}, with std's tie rules
fn min<T: Ord>(a: T, b: T) -> (r: T) requires T::obeys_cmp_spec() ensures r == (if b.cmp_spec(&a) == core::cmp::Ordering::Less { b } else { a })
{ match b.cmp(&a) { core::cmp::Ordering::Less => b, _ => a } }
fn max<T: Ord>(a: T, b: T) -> (r: T) requires T::obeys_cmp_spec() ensures r == (if b.cmp_spec(&a) == core::cmp::Ordering::Less { a } else { b })
{ match b.cmp(&a) { core::cmp::Ordering::Less => a, _ => b } }
/// slice::swap (std)
pub assume_specification<T> [<[T]>::swap] (s: &mut [T], a: usize, b: usize)
  requires a < old(s)@.len(), b < old(s)@.len(),
  ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
/// unchecked accesses become checked ones: staying in bounds is a proof obligation
trait VfGet<T> {
  spec fn vseq(&self) -> Seq<T>;
  fn vf_get(&self, i: usize) -> (r: &T) requires i < self.vseq().len() ensures *r == self.vseq()[i as int];
  fn vf_get_mut(&mut self, i: usize) -> (r: &mut T) requires i < old(self).vseq().len()
    ensures *r == old(self).vseq()[i as int], final(self).vseq() == old(self).vseq().update(i as int, *final(r));
}
impl<T> VfGet<T> for Vec<T> {
  spec fn vseq(&self) -> Seq<T> { self@ }
  fn vf_get(&self, i: usize) -> (r: &T) { &self[i] }
  fn vf_get_mut(&mut self, i: usize) -> (r: &mut T) { &mut self[i] }
}

/// std: u32::overflowing_add
pub assume_specification [u32::overflowing_add] (a: u32, b: u32) -> (r: (u32, bool))
  ensures r.0 == (if a + b > u32::MAX { (a + b - u32::MAX - 1) as u32 } else { (a + b) as u32 }), r.1 == (a + b > u32::MAX);
/// vec![x; n]: n copies (Clone of the element type yields an equal value)
#[verifier::external_body]
fn vf_fill<T: Clone>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x { vec![x; n] }
#[verifier::external_body]
fn vf_clone<T: Clone>(x: &T) -> (r: T) ensures r == *x { x.clone() }
/// a slice iterator as an index into the slice (verified, not trusted)
struct VfCur<'a, T> { s: &'a [T], pos: usize }
impl<'a, T> VfCur<'a, T> {
  spec fn wf(&self) -> bool { self.pos <= self.s@.len() }
  fn next(&mut self) -> (r: Option<&'a T>)
    requires old(self).wf()
    ensures final(self).wf(), final(self).s == old(self).s,
      old(self).pos < old(self).s@.len() ==> (r matches Some(x) && *x == old(self).s@[old(self).pos as int]) && final(self).pos == old(self).pos + 1,
      old(self).pos >= old(self).s@.len() ==> r is None && final(self).pos == old(self).pos,
  { if self.pos < self.s.len() { let x = &self.s[self.pos]; self.pos += 1; Some(x) } else { None } }
}
fn vf_cur<'a, T>(s: &'a [T]) -> (r: VfCur<'a, T>) ensures r.wf(), r.s@ == s@, r.pos == 0 { VfCur { s, pos: 0 } }
