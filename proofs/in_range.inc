/// the marker constant of an element type
trait Sentinel: PartialEq + Copy + Sized { spec fn snt() -> Self; fn vf_sentinel() -> (r: Self) ensures r == Self::snt(); }
spec fn eq_ok<T: PartialEq>() -> bool { T::obeys_eq_spec() && forall|a: T, b: T| #[trigger] a.eq_spec(&b) <==> a == b }
//@item engine/src/util/in_range_option.rs struct InRangeOption Sentinel~+~Debug=>Sentinel

impl<T: Sentinel> InRangeOption<T> {
    spec fn view(&self) -> Option<T> { if self.0 == T::snt() { None } else { Some(self.0) } }
//@fn engine/src/util/in_range_option.rs InRangeOption::some panics=1
//@rw sub T::SENTINEL => T::vf_sentinel()
//@spec
    requires eq_ok::<T>()
    ensures value != T::snt(), r@ == Some(value)
//@endfn
//@fn engine/src/util/in_range_option.rs InRangeOption::new panics=1
//@rw sub T::SENTINEL => T::vf_sentinel()
//@spec
    requires eq_ok::<T>()
    ensures value matches Some(v) ==> v != T::snt(), r@ == value
//@endfn
//@fn engine/src/util/in_range_option.rs InRangeOption::value
//@rw sub T::SENTINEL => T::vf_sentinel()
//@rw subopt let &InRangeOption($v:id) = self => let $v = self.0
//@spec
    requires eq_ok::<T>()
    ensures r == self@
//@endfn
//@fn engine/src/util/in_range_option.rs InRangeOption::assume_some
//@spec
    requires eq_ok::<T>(), self@ is Some
    ensures Some(r) == self@
//@endfn
//@fn engine/src/util/in_range_option.rs Default for InRangeOption::default
//@spec
    requires eq_ok::<T>()
    ensures r@ is None
//@endfn
}
