//@into src/sweep/sweep_line.rs
//@kani cross_total note="IntersectionEvent comparison, all non-NaN heights and all segment numbers"
//@native cross_total iters=20000
// Contract of the queued crossings' order: total; by height first; distinct crossings never compare equal
// (so that the queue, an ordered set, cannot drop one).
use std::cmp::Ordering::*;

fn num(x: f64, y: f64) -> std::cmp::Ordering { if x < y { Less } else if x > y { Greater } else { Equal } }
fn ev(y: f64) -> IntersectionEvent { IntersectionEvent { y, left: SegIdx(vx::any()), right: SegIdx(vx::any()) } }

pub fn cross_total() {
    let v: [f64; 3] = [vx::any(), vx::any(), vx::any()];
    vx::assume(!v[0].is_nan() && !v[1].is_nan() && !v[2].is_nan());
    let (a, mut b, c) = (ev(v[0]), ev(v[1]), ev(v[2]));
    if vx::any() { b.y = a.y }
    if vx::any() { b.left = a.left }
    if vx::any() { b.right = a.right }
    match num(a.y, b.y) {
        Equal => {}
        o => assert!(a.cmp(&b) == o, "by height first"),
    }
    assert!(b.cmp(&a) == a.cmp(&b).reverse(), "antisymmetric");
    assert!(a.partial_cmp(&b) == Some(a.cmp(&b)));
    let same = a.y == b.y && a.left == b.left && a.right == b.right;
    assert!((a.cmp(&b) == Equal) == same, "distinct crossings are ordered");
    assert!((a == b) == same);
    assert!(!(a <= b && b <= c) || a <= c, "transitive");
}
