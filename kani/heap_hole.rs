// appended to the text of engine/src/datastr/heap.rs (module docs removed) on every run
#[cfg(kani)]
mod vp_kani {
    use super::*;
    const N: usize = 5;
    /// VfHole contract, on the real Hole: whatever the moves, the array with the held element put at `pos` is the
    /// original array with the moved-over entries swapped one after the other, and drop writes exactly that array.
    #[kani::proof]
    #[kani::unwind(7)]
    fn hole_contract() {
        let mut data: [u32; N] = kani::any();
        let mut model = data;
        let start: usize = kani::any();
        kani::assume(start < N);
        let mut mpos = start;
        {
            let mut hole = unsafe { Hole::new(&mut data, start) };
            let mut step = 0;
            while step < 3 {
                let t: usize = kani::any();
                kani::assume(t < N && t != hole.pos);
                assert!(hole.pos == mpos);
                assert!(*hole.element() == model[mpos]);
                let other: usize = kani::any();
                kani::assume(other < N && other != hole.pos);
                unsafe { assert!(*hole.get(other) == model[other]); }
                if kani::any() {
                    unsafe { hole.move_to(t) };
                    model.swap(mpos, t);
                    mpos = t;
                }
                step += 1;
            }
        }
        let q: usize = kani::any();
        kani::assume(q < N);
        assert!(data[q] == model[q]);
        kani::cover!(mpos != start, "the hole moved");
    }
}
#[allow(dead_code)]
fn main() {}
