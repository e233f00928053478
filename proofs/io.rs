//@include prelude.inc
//@include bits.inc
//@include rank_select.inc
//@include_contracts rank_select_bitvec.inc rank_select

// ---- plain data as bytes: what Copy types look like in memory
uninterp spec fn enc<T>(s: Seq<T>) -> Seq<u8>;
uninterp spec fn sz<T>() -> nat;
/// every element takes size_of::<T>() bytes
#[verifier::external_body]
proof fn ax_len<T>(s: Seq<T>) ensures enc(s).len() == s.len() * sz::<T>() { }
/// values are determined by their bytes
#[verifier::external_body]
proof fn ax_bytes<T>(a: Seq<T>, b: Seq<T>) requires enc(a) == enc(b), a.len() == b.len() ensures a == b { }
#[verifier::external_body]
proof fn ax_size() ensures sz::<u64>() == 8 { }
/// std: no slice is larger than isize::MAX bytes
#[verifier::external_body]
fn vf_fits<T>(s: &[T]) ensures s@.len() * sz::<T>() <= isize::MAX { }
#[verifier::external_body]
fn vf_size_of<T>() -> (r: usize) ensures r == sz::<T>() { std::mem::size_of::<T>() }
/// slice::from_raw_parts(s.as_ptr() as *const u8, n): the memory of s, if n is its size in bytes
#[verifier::external_body]
fn vf_bytes<T>(s: &[T], n: usize) -> (r: &[u8])
    requires n == s@.len() * sz::<T>()
    ensures r@ == enc(s@)
{ unsafe { std::slice::from_raw_parts(s.as_ptr() as *const u8, n) } }
#[verifier::external_body]
fn vf_bytes_mut<T>(s: &mut [T], n: usize) -> (r: &mut [u8])
    requires n == old(s)@.len() * sz::<T>()
    ensures r@ == enc(old(s)@), enc(final(s)@) == final(r)@, final(s)@.len() == old(s)@.len()
{ unsafe { std::slice::from_raw_parts_mut(s.as_mut_ptr() as *mut u8, n) } }
#[verifier::external_body]
fn vf_slice_mut<T>(v: &mut Vec<T>) -> (r: &mut [T]) ensures r@ == old(v)@, final(v)@ == final(r)@ { &mut v[..] }
#[verifier::external_body]
fn vf_box_slice<T>(v: &Box<[T]>) -> (r: &[T]) ensures r@ == v@ { &v[..] }
#[verifier::external_body]
fn vf_box_slice_mut<T>(v: &mut Box<[T]>) -> (r: &mut [T]) ensures r@ == old(v)@, final(v)@ == final(r)@ { &mut v[..] }
/// (0..n).map(|_| T::default()).collect()
#[verifier::external_body]
fn vf_defaults<T: Default>(n: usize) -> (r: Vec<T>) ensures r@.len() == n, enc(r@).len() == n * sz::<T>() { (0..n).map(|_| T::default()).collect() }
#[verifier::external_body]
fn vf_defaults_box<T: Default>(n: usize) -> (r: Box<[T]>) ensures r@.len() == n, enc(r@).len() == n * sz::<T>() { (0..n).map(|_| T::default()).collect() }
proof fn lemma_div(n: int, s: int) requires s > 0, n >= 0, n % s == 0 ensures (n / s) * s == n { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, s); assert((n / s) * s == s * (n / s)) by (nonlinear_arith); }

// ---- files: a path names a sequence of bytes
struct VfPath { id: usize }
struct VfErr { }
struct VfMeta { n: u64 }
impl VfMeta { fn len(&self) -> (r: u64) ensures r == self.n { self.n } }
#[verifier::external_body]
struct VfIn { f: std::fs::File }
struct VfOut { p: usize }
#[verifier::external_body]
struct VfFs { x: usize }
impl VfFs {
    uninterp spec fn at(&self, p: usize) -> Seq<u8>;
    /// fs::metadata: the length of the file
    #[verifier::external_body]
    fn metadata(&self, path: &VfPath) -> (r: Result<VfMeta, VfErr>) ensures r matches Ok(m) ==> m.n == self.at(path.id).len() { unimplemented!() }
    #[verifier::external_body]
    fn open(&self, path: &VfPath) -> (r: Result<VfIn, VfErr>) ensures r matches Ok(f) ==> f.rest() == self.at(path.id) { unimplemented!() }
    /// File::create: truncates
    #[verifier::external_body]
    fn create(&mut self, path: &VfPath) -> (r: Result<VfOut, VfErr>) ensures r matches Ok(f) ==> f.p == path.id && final(self).at(path.id) == Seq::<u8>::empty() { unimplemented!() }
    /// Write::write_all on a file opened by create
    #[verifier::external_body]
    fn write_all(&mut self, f: VfOut, b: &[u8]) -> (r: Result<(), VfErr>) ensures r is Ok ==> final(self).at(f.p) == old(self).at(f.p) + b@ { unimplemented!() }
}
impl VfIn {
    uninterp spec fn rest(&self) -> Seq<u8>;
    /// Read::read_exact: fills the buffer with the next bytes
    #[verifier::external_body]
    fn read_exact(&mut self, b: &mut [u8]) -> (r: Result<(), VfErr>)
        ensures final(b)@.len() == old(b)@.len(), r is Ok ==> old(b)@.len() <= old(self).rest().len() && final(b)@ == old(self).rest().take(old(b)@.len() as int) { unimplemented!() }
}

fn vf_new_bits(n: usize) -> (r: BitVec)
    requires n % 64 == 0, n < 0x1000_0000_0000_0000
    ensures r.wf(), enc(r.data@).len() == n / 8
{ let r = BitVec::new(n); proof { ax_len(r.data@); ax_size(); } r }
trait DataBytes {
    spec fn bytes(&self) -> Seq<u8>;
    fn data_bytes(&self) -> (r: &[u8]) ensures r@ == self.bytes();
}
trait DataBytesMut {
    spec fn mbytes(&self) -> Seq<u8>;
    /// the object is as long as the buffer, and holds what is written to it
    fn data_bytes_mut(&mut self) -> (r: &mut [u8]) ensures r@ == old(self).mbytes(), final(r)@.len() == r@.len() ==> final(self).mbytes() == final(r)@;
}
impl<T: Copy> DataBytes for [T] {
    spec fn bytes(&self) -> Seq<u8> { enc(self@) }
//@fn engine/src/io.rs DataBytes for T::data_bytes header=DataBytesfor[T]
//@sig fn data_bytes(&self) -> (r: &[u8])
//@rw subopt mem::size_of::<T>() => vf_size_of::<T>()
//@rw subopt unsafe { slice::from_raw_parts(self.as_ptr() as *const u8, $n) } => vf_bytes(self, $n)
//@at start
    vf_fits(self);
//@endfn
}
impl<T: Copy> DataBytes for &[T] {
    spec fn bytes(&self) -> Seq<u8> { enc(self@) }
//@fn engine/src/io.rs DataBytes for T::data_bytes header=DataBytesfor&[T] tag=ref
//@sig fn data_bytes(&self) -> (r: &[u8])
//@rw subopt mem::size_of::<T>() => vf_size_of::<T>()
//@rw subopt unsafe { slice::from_raw_parts(self.as_ptr() as *const u8, $n) } => vf_bytes(*self, $n)
//@at start
    vf_fits(*self);
//@endfn
}
impl<T: Copy> DataBytes for Vec<T> {
    spec fn bytes(&self) -> Seq<u8> { enc(self@) }
//@fn engine/src/io.rs DataBytes for Vec::data_bytes
//@sig fn data_bytes(&self) -> (r: &[u8])
//@rw subopt self[..].data_bytes() => self.as_slice().data_bytes()
//@endfn
}
impl<T: Copy> DataBytes for Box<[T]> {
    spec fn bytes(&self) -> Seq<u8> { enc(self@) }
//@fn engine/src/io.rs DataBytes for Box::data_bytes
//@sig fn data_bytes(&self) -> (r: &[u8])
//@rw subopt self[..].data_bytes() => vf_box_slice(self).data_bytes()
//@endfn
}
impl<T: Copy> DataBytesMut for [T] {
    spec fn mbytes(&self) -> Seq<u8> { enc(self@) }
//@fn engine/src/io.rs DataBytesMut for T::data_bytes_mut header=DataBytesMutfor[T]
//@sig fn data_bytes_mut(&mut self) -> (r: &mut [u8])
//@rw subopt mem::size_of::<T>() => vf_size_of::<T>()
//@rw subopt unsafe { slice::from_raw_parts_mut(self.as_mut_ptr() as *mut u8, $n) } => vf_bytes_mut(self, $n)
//@at start
    vf_fits(self);
//@endfn
}
impl<T: Copy> DataBytesMut for Vec<T> {
    spec fn mbytes(&self) -> Seq<u8> { enc(self@) }
//@fn engine/src/io.rs DataBytesMut for Vec::data_bytes_mut
//@sig fn data_bytes_mut(&mut self) -> (r: &mut [u8])
//@rw subopt (&mut self[..]).data_bytes_mut() => vf_slice_mut(self).data_bytes_mut()
//@endfn
}
impl<T: Copy> DataBytesMut for Box<[T]> {
    spec fn mbytes(&self) -> Seq<u8> { enc(self@) }
//@fn engine/src/io.rs DataBytesMut for Box::data_bytes_mut
//@sig fn data_bytes_mut(&mut self) -> (r: &mut [u8])
//@rw subopt (&mut self[..]).data_bytes_mut() => vf_box_slice_mut(self).data_bytes_mut()
//@endfn
}
trait Store: DataBytes {
//@fn engine/src/io.rs trait Store::write_to
//@sig fn write_to(&self, path: &VfPath, fs: &mut VfFs) -> (r: Result<(), VfErr>)
//@rw subopt File::create(path)?.write_all($b) => { let f = fs.create(path)?; fs.write_all(f, $b) }
//@spec
    ensures r is Ok ==> final(fs).at(path.id) == self.bytes()
//@endfn
}
trait Load: DataBytesMut + Sized {
    /// lengths of stored objects of this type
    spec fn accepts(n: int) -> bool;
    fn new_with_bytes(num_bytes: usize) -> (r: Self)
        requires Self::accepts(num_bytes as int)
        ensures r.mbytes().len() == num_bytes;
//@fn engine/src/io.rs trait Load::load_from
//@sig fn load_from(path: &VfPath, fs: &VfFs) -> (r: Result<Self, VfErr>)
//@rw subopt metadata(path.as_ref())? => fs.metadata(path)?
//@rw subopt File::open(path)? => fs.open(path)?
//@spec
    requires Self::accepts(fs.at(path.id).len() as int)
    ensures r matches Ok(x) ==> x.mbytes() == fs.at(path.id)
//@endfn
}
impl<T: Default + Copy> Load for Vec<T> {
    spec fn accepts(n: int) -> bool { sz::<T>() > 0 && n % (sz::<T>() as int) == 0 }
//@fn engine/src/io.rs Load for Vec::new_with_bytes
//@sig fn new_with_bytes(num_bytes: usize) -> (r: Self)
//@rw subopt mem::size_of::<T>() => vf_size_of::<T>()
//@rw subopt (0..num_elements).map(|_| T::default()).collect() => vf_defaults(num_elements)
//@at start
    proof { lemma_div(num_bytes as int, sz::<T>() as int); }
//@endfn
}
impl<T: Default + Copy> Load for Box<[T]> {
    spec fn accepts(n: int) -> bool { sz::<T>() > 0 && n % (sz::<T>() as int) == 0 }
//@fn engine/src/io.rs Load for Box::new_with_bytes
//@sig fn new_with_bytes(num_bytes: usize) -> (r: Self)
//@rw subopt mem::size_of::<T>() => vf_size_of::<T>()
//@rw subopt (0..num_elements).map(|_| T::default()).collect() => vf_defaults_box(num_elements)
//@at start
    proof { lemma_div(num_bytes as int, sz::<T>() as int); }
//@endfn
}
impl DataBytes for BitVec {
    spec fn bytes(&self) -> Seq<u8> { enc(self.data@) }
//@fn engine/src/datastr/rank_select_map.rs DataBytes for BitVec::data_bytes
//@sig fn data_bytes(&self) -> (r: &[u8])
//@endfn
}
impl DataBytesMut for BitVec {
    spec fn mbytes(&self) -> Seq<u8> { enc(self.data@) }
//@fn engine/src/datastr/rank_select_map.rs DataBytesMut for BitVec::data_bytes_mut
//@sig fn data_bytes_mut(&mut self) -> (r: &mut [u8])
//@endfn
}
impl Load for BitVec {
    spec fn accepts(n: int) -> bool { n % 8 == 0 && n * 8 < 0x1000_0000_0000_0000 }
//@fn engine/src/datastr/rank_select_map.rs Load for BitVec::new_with_bytes
//@sig fn new_with_bytes(num_bytes: usize) -> (r: Self)
//@rw subopt BitVec::new($e) => vf_new_bits($e)
//@endfn
}
impl<T: Copy> Store for Vec<T> { }
impl<T: Copy> Store for Box<[T]> { }
impl Store for BitVec { }
// ---- the property: what was stored is what is loaded
fn prop_vec_round_trip<T: Copy + Default>(v: &Vec<T>, p: &VfPath, fs: &mut VfFs) -> (r: Result<Vec<T>, VfErr>)
    requires sz::<T>() > 0
    ensures r matches Ok(x) ==> x@ == v@
{
    v.write_to(p, fs)?;
    proof { ax_len(v@); lemma_mul(v@.len() as int, sz::<T>() as int); }
    let x = Vec::<T>::load_from(p, fs)?;
    proof { lemma_same(v@, x@); }
    Ok(x)
}
fn prop_box_round_trip<T: Copy + Default>(v: &Box<[T]>, p: &VfPath, fs: &mut VfFs) -> (r: Result<Box<[T]>, VfErr>)
    requires sz::<T>() > 0
    ensures r matches Ok(x) ==> x@ == v@
{
    v.write_to(p, fs)?;
    proof { ax_len(v@); lemma_mul(v@.len() as int, sz::<T>() as int); }
    let x = Box::<[T]>::load_from(p, fs)?;
    proof { lemma_same(v@, x@); }
    Ok(x)
}
/// bit vectors load with the same bits (and a size rounded up to whole words)
fn prop_bitvec_round_trip(v: &BitVec, p: &VfPath, fs: &mut VfFs) -> (r: Result<BitVec, VfErr>)
    requires v.wf(), v.size < 0x0fff_ffff_ffff_ff00
    ensures r matches Ok(x) ==> x.data@ == v.data@ && forall|i: int| #[trigger] x.at(i) == v.at(i)
{
    v.write_to(p, fs)?;
    proof { ax_len(v.data@); ax_size(); lemma_mul(v.data@.len() as int, 8); }
    let x = BitVec::load_from(p, fs)?;
    proof { ax_size(); lemma_same(v.data@, x.data@); }
    Ok(x)
}
proof fn lemma_mul(n: int, s: int) requires s > 0 ensures (n * s) % s == 0 { vstd::arithmetic::div_mod::lemma_mod_multiples_basic(n, s); }
proof fn lemma_same<T>(a: Seq<T>, b: Seq<T>) requires enc(a) == enc(b), sz::<T>() > 0 ensures a == b
{
    ax_len(a); ax_len(b);
    assert(a.len() == b.len()) by (nonlinear_arith) requires a.len() * sz::<T>() == b.len() * sz::<T>(), sz::<T>() > 0;
    ax_bytes(a, b);
}
fn main() {}
}
