//@into src/sweep/output_event.rs
//@kani event_total note="OutputEvent comparison and accessors, all non-NaN coordinates"
//@native event_total iters=2000
// Contract of the output events' order: a total order by leftmost position, then by rightmost position.
use std::cmp::Ordering::*;

fn num(x: f64, y: f64) -> std::cmp::Ordering { if x < y { Less } else if x > y { Greater } else { Equal } }
fn idx() -> Option<usize> { if vx::any() { Some(vx::any()) } else { None } }
fn ev(x0: f64, x1: f64) -> OutputEvent {
    OutputEvent::new(SegIdx(vx::any()), x0, vx::any(), x1, vx::any(), idx(), idx())
}

pub fn event_total() {
    let v: [f64; 6] = [vx::any(), vx::any(), vx::any(), vx::any(), vx::any(), vx::any()];
    vx::assume(!v[0].is_nan() && !v[1].is_nan() && !v[2].is_nan() && !v[3].is_nan() && !v[4].is_nan() && !v[5].is_nan());
    let (bx, by) = (if vx::any::<bool>() { v[0] } else { v[2] }, if vx::any::<bool>() { v[1] } else { v[3] });
    let (a, b, c) = (ev(v[0], v[1]), ev(bx, by), ev(v[4], v[5]));
    let (s, l) = (if v[0] < v[1] { v[0] } else { v[1] }, if v[0] < v[1] { v[1] } else { v[0] });
    assert!(a.smaller_x() == s && a.larger_x() == l);
    let want = match num(a.smaller_x(), b.smaller_x()) { Equal => num(a.larger_x(), b.larger_x()), o => o };
    assert!(a.cmp(&b) == want, "by leftmost, then rightmost position");
    assert!(b.cmp(&a) == want.reverse(), "antisymmetric");
    assert!(a.partial_cmp(&b) == Some(want));
    assert!(a.cmp(&a) == Equal && a == a.clone());
    assert!(!(a <= b && b <= c) || a <= c, "transitive");
    assert!(a != b || want == Equal, "equal events compare equal");
    let x: f64 = if vx::any::<bool>() { v[0] } else if vx::any::<bool>() { v[1] } else { v[4] };
    assert!(a.connected_above_at(x) == (a.connected_above && x == v[0]));
    assert!(a.connected_below_at(x) == (a.connected_below && x == v[1]));
}
