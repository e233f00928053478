// ---------------------------------------------------------------- TimestampedVector
/// contract of the Reset trait: reset() makes the value equal to the type's default
trait Reset: Sized + Clone {
    spec fn dflt() -> Self;
    fn vf_default() -> (r: Self) ensures r == Self::dflt();
    fn reset(&mut self) ensures *final(self) == Self::dflt();
}
//@item engine/src/datastr/timestamped_vector.rs struct TimestampedVector

impl<T: Reset> TimestampedVector<T> {
    /// what a reader sees
    spec fn view(&self) -> Seq<T> {
        Seq::new(self.data@.len(), |i: int| if self.timestamps@[i] == self.current { self.data@[i] } else { T::dflt() })
    }
    /// entries with a time stamp from the future are already reset: they cannot resurface when the counter gets there
    spec fn wf(&self) -> bool {
        &&& self.timestamps@.len() == self.data@.len()
        &&& self.default == T::dflt()
        &&& forall|i: int| 0 <= i < self.data@.len() && #[trigger] self.timestamps@[i] > self.current ==> self.data@[i] == T::dflt()
    }

//@fn engine/src/datastr/timestamped_vector.rs TimestampedVector::new
//@rw sub vec![T::DEFAULT; $n] => vf_fill(T::vf_default(), $n)
//@rw sub T::DEFAULT => T::vf_default()
//@spec
    ensures r.wf(), r@ =~= Seq::new(size as nat, |i: int| T::dflt())
//@endfn

//@fn engine/src/datastr/timestamped_vector.rs TimestampedVector::reset
//@rw for
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self)@ =~= Seq::new(old(self)@.len(), |i: int| T::dflt())
//@loop 0
    invariant self.timestamps@ == old(self).timestamps@, self.timestamps@.len() == self.data@.len(), self.default == T::dflt(), vf_i0 <= self.data@.len(), self.data@.len() == old(self).data@.len(), self.current == 0,
        forall|i: int| 0 <= i < vf_i0 ==> #[trigger] self.data@[i] == T::dflt()
    decreases self.data@.len() - vf_i0
//@endfn

//@fn engine/src/datastr/timestamped_vector.rs TimestampedVector::set
//@spec
    requires old(self).wf(), index < old(self)@.len()
    ensures final(self).wf(), final(self)@ =~= old(self)@.update(index as int, value)
//@endfn

//@fn engine/src/datastr/timestamped_vector.rs TimestampedVector::len
//@spec
    requires self.wf()
    ensures r == self@.len()
//@endfn
//@fn engine/src/datastr/timestamped_vector.rs TimestampedVector::is_empty
//@spec
    requires self.wf()
    ensures r == (self@.len() == 0)
//@endfn

//@fn engine/src/datastr/timestamped_vector.rs TimestampedVector::get_unchecked
//@rw subopt .get_unchecked( => .vf_get(
//@spec
    requires self.wf(), index < self@.len()
    ensures *r == self@[index as int]
//@endfn

//@fn engine/src/datastr/timestamped_vector.rs TimestampedVector::get_unchecked_mut
//@rw subopt .get_unchecked_mut( => .vf_get_mut(
//@rw subopt .get_unchecked( => .vf_get(
//@spec
    requires old(self).wf(), index < old(self)@.len()
    ensures *r == old(self)@[index as int], final(self).wf(), final(self)@ =~= old(self)@.update(index as int, *final(r))
//@endfn

//@fn engine/src/datastr/timestamped_vector.rs Index for TimestampedVector::index
//@spec
    requires self.wf(), index < self@.len()
    ensures *r == self@[index as int]
//@endfn

//@fn engine/src/datastr/timestamped_vector.rs IndexMut for TimestampedVector::index_mut
//@spec
    requires old(self).wf(), index < old(self)@.len()
    ensures *r == old(self)@[index as int], final(self).wf(), final(self)@ =~= old(self)@.update(index as int, *final(r))
//@endfn
}

