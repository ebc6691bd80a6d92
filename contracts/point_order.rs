//@into src/geom.rs
//@kani point_total note="Point comparison, all finite coordinates"
//@native point_total iters=20000
// Contract of Point's order: a total order on finite points, by height first and then by horizontal
// position; equality agrees with it; conversions keep both coordinates.
use std::cmp::Ordering::*;

fn num(x: f64, y: f64) -> std::cmp::Ordering { if x < y { Less } else if x > y { Greater } else { Equal } }

pub fn point_total() {
    let v: [f64; 6] = [vx::finite(), vx::finite(), vx::finite(), vx::finite(), vx::finite(), vx::finite()];
    // (ties must be generated often enough by the bounded execution)
    let (bx, by) = (if vx::any::<bool>() { v[0] } else { v[2] }, if vx::any::<bool>() { v[1] } else { v[3] });
    let (a, b, c) = (Point::new(v[0], v[1]), Point::new(bx, by), Point::new(v[4], v[5]));
    let want = match num(a.y, b.y) { Equal => num(a.x, b.x), o => o };
    assert!(a.cmp(&b) == want, "by height, then horizontally");
    assert!(b.cmp(&a) == want.reverse(), "antisymmetric");
    assert!(a.partial_cmp(&b) == Some(want));
    assert!((a == b) == (want == Equal), "== agrees with cmp");
    assert!(!(a <= b && b <= c) || a <= c, "transitive");
    assert!(a.x == v[0] && a.y == v[1]);
    let k = a.to_kurbo();
    assert!(k.x == a.x && k.y == a.y);
    let k: kurbo::Point = a.into();
    assert!(k.x == a.x && k.y == a.y);
    assert!(Point::from_kurbo(k) == a && Point::from(k) == a && Point::from((a.x, a.y)) == a);
}
