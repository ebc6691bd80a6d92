//@into src/num.rs
//@kani cheap_total note="CheapOrderedFloat comparison and arithmetic, all doubles"
//@native cheap_total iters=20000
// Contract of the ordered float: on all non-NaN doubles it is a total order that agrees with the
// numerical order; wrapping, unwrapping and arithmetic do not change the value.
use std::cmp::Ordering::*;

pub fn cheap_total() {
    let (x, y, z): (f64, f64, f64) = (vx::any(), vx::any(), vx::any());
    vx::assume(!x.is_nan() && !y.is_nan() && !z.is_nan());
    let (a, b, c) = (CheapOrderedFloat::from(x), CheapOrderedFloat::from(y), CheapOrderedFloat::from(z));
    let want = if x < y { Less } else if x > y { Greater } else { Equal };
    assert!(a.cmp(&b) == want, "cmp agrees with the numerical order");
    assert!(b.cmp(&a) == want.reverse(), "antisymmetric");
    assert!(a.partial_cmp(&b) == Some(want), "partial_cmp agrees with cmp");
    assert!((a == b) == (want == Equal), "== agrees with cmp");
    assert!(!(a.cmp(&b) != Greater && b.cmp(&c) != Greater) || a.cmp(&c) != Greater, "transitive");
    assert!((a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y) && (a >= b) == (x >= y));
    assert!(a.into_inner() == x);
    assert!(a.max(b).into_inner() == if x > y { x } else { y });
    assert!(a.min(b).into_inner() == if x < y { x } else { y });
}
