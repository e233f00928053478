//! InRangeOption: present values read back exactly, absence reads back as absence, the marker is rejected.
use rand::prelude::*;
use rust_road_router::util::in_range_option::*;
use std::fmt::Debug;
use std::panic::catch_unwind;
use vp_harness::*;

fn present<T: Sentinel + Debug>(v: T) -> Result<(), String> {
    let a = InRangeOption::some(v);
    ensure!(a.value() == Some(v), "some({:?}).value() = {:?}", v, a.value());
    ensure!(InRangeOption::new(Some(v)).value() == Some(v), "new(Some({:?})).value() = {:?}", v, InRangeOption::new(Some(v)).value());
    ensure!(unsafe { a.assume_some() } == v, "assume_some of {:?}", v);
    ensure!(a == InRangeOption::new(Some(v)) && a != InRangeOption::NONE, "equality of {:?}", v);
    ensure!(std::mem::size_of::<InRangeOption<T>>() == std::mem::size_of::<T>(), "size");
    Ok(())
}
fn absent<T: Sentinel + Debug + std::panic::UnwindSafe + std::panic::RefUnwindSafe>(marker: T) -> Result<(), String> {
    ensure!(T::SENTINEL == marker, "marker is {:?}, documented {:?}", T::SENTINEL, marker);
    ensure!(InRangeOption::<T>::NONE.value().is_none(), "NONE reads as {:?}", InRangeOption::<T>::NONE.value());
    ensure!(InRangeOption::<T>::new(None).value().is_none(), "new(None) reads as a value");
    ensure!(InRangeOption::<T>::default().value().is_none(), "default() reads as a value");
    ensure!(catch_unwind(|| InRangeOption::some(marker)).is_err(), "some({:?}) accepted the marker", marker);
    ensure!(catch_unwind(|| InRangeOption::new(Some(marker))).is_err(), "new(Some({:?})) accepted the marker", marker);
    Ok(())
}

fn main() {
    vp_harness::main("c05", |ctx| {
        ctx.case("absent and marker", || "u32".into(), || absent(u32::MAX));
        ctx.case("absent and marker", || "i32".into(), || absent(i32::MIN));
        ctx.case("absent and marker", || "u64".into(), || absent(u64::MAX));
        ctx.case("absent and marker", || "usize".into(), || absent(usize::MAX));
        ctx.case("absent and marker", || "(u32,u32)".into(), || absent((u32::MAX, u32::MAX)));
        ctx.case("absent and marker", || "(u32,u32,u32)".into(), || absent((u32::MAX, u32::MAX, u32::MAX)));
        // every value of the 32 bit types (a sample in the quick tier), in blocks
        let step = if ctx.thorough { 1u64 } else { 61 };
        for block in 0..256u64 {
            ctx.case(
                "32 bit values",
                || format!("u32/i32 with top byte {} in steps of {}", block, step),
                || {
                    let mut x = block << 24;
                    while x < (block + 1) << 24 {
                        if x as u32 != u32::MAX {
                            present(x as u32)?;
                        }
                        if x as u32 as i32 != i32::MIN {
                            present(x as u32 as i32)?;
                        }
                        x += step;
                    }
                    Ok(())
                },
            );
        }
        let edge: Vec<u32> = (0..4).chain(u32::MAX - 3..=u32::MAX).chain([1 << 31, (1 << 31) - 1, (1 << 31) + 1, 1 << 16, (1 << 16) - 1, u32::MAX / 2 - 1]).collect();
        for &a in &edge {
            for &b in &edge {
                ctx.case("boundary values", || format!("words {} and {}", a, b), || {
                    if (a, b) != (u32::MAX, u32::MAX) {
                        present((a, b))?;
                        present(((a as u64) << 32) | b as u64)?;
                        present(((a as usize) << 32) | b as usize)?;
                    }
                    for &c in &edge {
                        if (a, b, c) != (u32::MAX, u32::MAX, u32::MAX) {
                            present((a, b, c))?;
                        }
                    }
                    if a != u32::MAX {
                        present(a)?;
                    }
                    if a as i32 != i32::MIN {
                        present(a as i32)?;
                    }
                    Ok(())
                });
            }
        }
        for _ in 0..ctx.n(20000, 20) {
            let (a, b, c): (u32, u32, u32) = ctx.rng.gen();
            let d: u64 = ctx.rng.gen::<u64>() >> ctx.rng.gen_range(0..64);
            ctx.case("random values", || format!("{} {} {} {}", a, b, c, d), || {
                if d != u64::MAX {
                    present(d)?;
                    present(d as usize)?;
                }
                if a != u32::MAX {
                    present(a)?;
                    present((a, b))?;
                    present((a, b, c))?;
                    present((b, a))?;
                    present((b, c, a))?;
                }
                Ok(())
            });
        }
    });
}
