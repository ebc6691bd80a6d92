//@into src/lib.rs
//@kani winding_sum note="BinaryWindingNumber: single and += for every pair of 32-bit windings that do not overflow"
//@kani winding_unit note="WindingNumber for i32"
//@native winding_sum iters=5000
// Contract of the winding numbers: integers, added up one segment at a time.
pub fn winding_sum() {
    use crate::topology::{BinaryWindingNumber as B, WindingNumber};
    let (a, b): (i32, i32) = (vx::any(), vx::any());
    vx::assume(a > i32::MIN && a < i32::MAX && b > i32::MIN && b < i32::MAX);
    let (tag, pos): (bool, bool) = (vx::any(), vx::any());
    let mut w = B { shape_a: a, shape_b: b };
    w += B::single(tag, pos);
    let d = if pos { 1 } else { -1 };
    assert!(w.shape_a == if tag { a + d } else { a });
    assert!(w.shape_b == if tag { b } else { b + d });
    assert!(B::default().shape_a == 0 && B::default().shape_b == 0, "the unbounded region has winding zero");
}
pub fn winding_unit() {
    use crate::topology::WindingNumber;
    assert!(<i32 as WindingNumber>::single((), true) == 1 && <i32 as WindingNumber>::single((), false) == -1 && i32::default() == 0);
}

