//@into src/position.rs
//@kani heap_total note="HeapEntry comparison, all non-NaN heights"
//@native heap_total iters=20000
// Contract of the layout queue's order: total; the smallest height has the highest priority; distinct
// entries never compare equal.
use std::cmp::Ordering::*;

pub fn heap_total() {
    let v: [f64; 3] = [vx::any(), vx::any(), vx::any()];
    vx::assume(!v[0].is_nan() && !v[1].is_nan() && !v[2].is_nan());
    let o = OutputSegVec::<u8>::with_size(3);
    let pick = |k: u8| { let mut it = o.indices(); let a = it.next().unwrap(); let b = it.next().unwrap(); let c = it.next().unwrap(); match k % 3 { 0 => a, 1 => b, _ => c } };
    let (i, j, k): (u8, u8, u8) = (vx::any(), vx::any(), vx::any());
    let y1 = if vx::any() { v[0] } else { v[1] };
    let a = HeapEntry { y: v[0].into(), idx: pick(i) };
    let b = HeapEntry { y: y1.into(), idx: pick(j) };
    let c = HeapEntry { y: v[2].into(), idx: pick(k) };
    if v[0] < y1 { assert!(a.cmp(&b) == Greater, "smaller height first"); }
    if v[0] > y1 { assert!(a.cmp(&b) == Less, "smaller height first"); }
    assert!(b.cmp(&a) == a.cmp(&b).reverse(), "antisymmetric");
    assert!(a.partial_cmp(&b) == Some(a.cmp(&b)));
    let same = v[0] == y1 && a.idx == b.idx;
    assert!((a.cmp(&b) == Equal) == same, "distinct entries are ordered");
    assert!((a == b) == same);
    assert!(!(a <= b && b <= c) || a <= c, "transitive");
}
