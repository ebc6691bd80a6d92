//@into src/curve/mod.rs
//@native curve_push iters=40000 thorough=1000000
//@native curve_flip iters=20000 thorough=1000000
//@native curve_slop iters=60000 thorough=1000000
//@native curve_lookup iters=60000 thorough=1000000
//@native curve_touch iters=60000 thorough=1000000
// Contracts of the interval sequences describing how two curves are ordered.
fn an_order() -> Order {
    match vx::int_in(0, 2) { 0 => Order::Left, 1 => Order::Ish, _ => Order::Right }
}
fn le(a: f64, b: f64) -> bool { a <= b }
/// The representation invariant: heights don't decrease, neighbouring verdicts differ and one of them is "close".
fn inv(o: &CurveOrder) -> bool {
    let mut ok = true;
    let mut last = o.start;
    for i in 0..o.cmps.len() {
        ok &= le(last, o.cmps[i].end);
        last = o.cmps[i].end;
        if i > 0 {
            ok &= o.cmps[i].order != o.cmps[i - 1].order;
            ok &= o.cmps[i].order == Order::Ish || o.cmps[i - 1].order == Order::Ish;
        }
    }
    ok
}
/// Any sequence of up to `n` (at least `min`) intervals that satisfies the invariant.
fn a_curve_order(min: usize, n: usize) -> CurveOrder {
    let mut r = CurveOrder { start: vx::f64_in(-1e9, 1e9), cmps: Vec::new() };
    let len = vx::int_in(min as i64, n as i64) as usize;
    let mut last = r.start;
    for i in 0..n {
        if i < len {
            let end = vx::f64_in(-1e9, 1e9);
            #[cfg(vx)]
            let end = if end < last { last + (last - end).min(8.0) } else { end };
            vx::assume(end >= last);
            last = end;
            let order = an_order();
            #[cfg(vx)]
            let order = match (i, r.cmps.last().map(|l| l.order)) { (0, _) | (_, Some(Order::Ish)) => if order == Order::Ish && i > 0 { Order::Left } else { order }, _ => Order::Ish };
            r.cmps.push(CurveOrderEntry { end, order });
        }
    }
    vx::assume(inv(&r));
    r
}
/// The verdict at a height, by definition: the first interval that reaches it.
fn verdict(o: &CurveOrder, y: f64) -> Option<Order> {
    let mut r = None;
    for i in 0..o.cmps.len() {
        if r.is_none() && o.cmps[i].end >= y { r = Some(o.cmps[i].order); }
    }
    r
}
fn last_end(o: &CurveOrder) -> f64 { o.cmps[o.cmps.len() - 1].end }
/// A height in the range, often at a boundary.
fn a_height(o: &CurveOrder) -> f64 {
    #[cfg(vx)]
    {
        let (a, b) = (o.start, last_end(o));
        let k = vx::below(o.cmps.len() as u64) as usize;
        let e = o.cmps[k].end;
        let s = if k > 0 { o.cmps[k - 1].end } else { a };
        return match vx::below(6) { 0 => e, 1 => a + (b - a) * vx::unit(), 2 => e.next_up().min(b), 3 => e.next_down().max(a), 4 => s, _ => s + (e - s) * vx::unit() };
    }
    #[cfg(not(vx))]
    vx::f64_in(-1e9, 1e9)
}
fn flipped(o: Order) -> Order {
    match o { Order::Left => Order::Right, Order::Right => Order::Left, Order::Ish => Order::Ish }
}
/// Appending keeps the invariant and every earlier verdict, and gives the new piece its verdict.
pub fn curve_push() {
    let before = a_curve_order(0, 3);
    let mut o = before.clone();
    let (end, order) = (vx::f64_in(-1e9, 1e9), an_order());
    let from = if before.cmps.is_empty() { before.start } else { last_end(&before) };
    #[cfg(vx)]
    let end = if end < from { from } else { end };
    vx::assume(end >= from);
    o.push(end, order);
    assert!(inv(&o), "appending keeps the intervals sorted and adjacent verdicts compatible");
    assert!(o.start == before.start && last_end(&o) == end, "appending extends the range to the new end");
    let y = { #[cfg(vx)] { a_height(&o) } #[cfg(not(vx))] { vx::f64_in(-1e9, 1e9) } };
    if !before.cmps.is_empty() && y <= from {
        assert!(verdict(&o, y) == verdict(&before, y), "earlier verdicts stay");
    } else if y > from && y <= end {
        assert!(verdict(&o, y) == Some(order), "the appended piece has its verdict");
    }
}
/// Exchanging the curves reverses every verdict, and twice is nothing.
pub fn curve_flip() {
    let o = a_curve_order(1, 3);
    let f = o.flip();
    assert!(inv(&f) && f.start == o.start && f.cmps.len() == o.cmps.len());
    for i in 0..o.cmps.len() {
        assert!(f.cmps[i].end == o.cmps[i].end, "exchanging the curves keeps the heights");
        assert!(f.cmps[i].order == flipped(o.cmps[i].order), "exchanging the curves reverses the verdict");
        assert!(o.cmps[i].order.flip() == flipped(o.cmps[i].order));
    }
}
/// Vertical slop widens the "close" intervals by exactly the slop and does nothing else.
pub fn curve_slop() {
    let o = a_curve_order(1, 3);
    let slop = vx::f64_in(0.0, 1e3);
    #[cfg(vx)]
    let slop = if vx::below(3) == 0 { (o.cmps[0].end - o.start) / 2.0 } else { slop };
    let s = o.clone().with_y_slop(slop);
    assert!(!s.cmps.is_empty() && s.start == o.start && last_end(&s) == last_end(&o), "the range stays");
    assert!(inv(&s), "neighbouring verdicts stay compatible");
    let y = a_height(&{ #[cfg(vx)] { if vx::below(2) == 0 { s.clone() } else { o.clone() } } #[cfg(not(vx))] { o.clone() } });
    vx::assume(y > o.start && y <= last_end(&o));
    let (v, w) = (verdict(&o, y).unwrap(), verdict(&s, y).unwrap());
    assert!(w == Order::Ish || w == v, "slop never changes a definite verdict into another");
    // the interval that contains y
    let mut a = o.start;
    let mut k = 0;
    while o.cmps[k].end < y { a = o.cmps[k].end; k += 1; }
    let b = o.cmps[k].end;
    let (lo, hi) = (if a == o.start { a } else { a + slop }, if b == last_end(&o) { b } else { b - slop });
    if v != Order::Ish {
        if slop == 0.0 || (y > lo && y <= hi) {
            assert!(w == v, "slop only reaches as far as the slop");
        } else {
            assert!(w == Order::Ish, "within the slop of a change the verdict is open");
        }
    }
}
/// Looking up a height.
pub fn curve_lookup() {
    let o = a_curve_order(1, 4);
    let y = a_height(&o);
    vx::assume(y >= o.start && y <= last_end(&o));
    assert!(o.order_at(y) == verdict(&o, y).unwrap(), "the verdict at a height is that of the first interval that reaches it");
    // the iterator yields the intervals in order, without gaps
    let mut last = o.start;
    let mut n = 0;
    for (a, b, v) in o.iter() {
        assert!(a == last && b == o.cmps[n].end && v == o.cmps[n].order, "the intervals are listed in order, without gaps");
        last = b;
        n += 1;
    }
    assert!(n == o.cmps.len());
    // the interval after a height
    let mut k = 0;
    while k < o.cmps.len() && o.cmps[k].end <= y { k += 1; }
    if k < o.cmps.len() {
        let (a, b, v) = o.entry_at(y);
        assert!(b == o.cmps[k].end && v == o.cmps[k].order && a == (if k == 0 { o.start } else { o.cmps[k - 1].end }),
            "the entry at a height is the first interval that ends after it");
    }
    let after = o.order_after(y);
    let mut want = Order::Ish;
    let mut i = o.cmps.len();
    while i > k { i -= 1; if o.cmps[i].order != Order::Ish { want = o.cmps[i].order; } }
    if y == last_end(&o) { want = o.cmps[o.cmps.len() - 1].order; }
    assert!(after == want, "the order after a height is the next definite verdict");
}
/// The next height at which the left curve touches the other.
pub fn curve_touch() {
    let o = a_curve_order(1, 4);
    let y = a_height(&o);
    vx::assume(y >= o.start && y <= last_end(&o));
    let n = o.cmps.len();
    let begin = |k: usize| if k == 0 { o.start } else { o.cmps[k - 1].end };
    // a definite verdict without height says nothing
    for k in 0..n { vx::assume(o.cmps[k].order == Order::Ish || begin(k) < o.cmps[k].end); }
    // the first verdict below that is not Left; a touch is a passing Ish that has not begun yet
    let mut want: Option<(bool, f64)> = None;
    let mut k = 0;
    while k < n {
        let e = o.cmps[k].order;
        if o.cmps[k].end > y && e != Order::Left {
            if e == Order::Right { want = Some((true, y)); break }
            if k + 1 == n { break }
            let mid = (begin(k) + o.cmps[k].end) / 2.0;
            if o.cmps[k + 1].order == Order::Right { want = Some((true, mid)); break }
            if y < begin(k) { want = Some((false, mid)); break }
        }
        k += 1;
    }
    match (o.next_touch_after(y), want) {
        (None, None) => {}
        (Some(CurveInteraction::Cross(h)), Some((true, w))) => assert!(h == w, "height of the crossing"),
        (Some(CurveInteraction::Touch(h)), Some((false, w))) => assert!(h == w, "height of the touch"),
        _ => panic!("the next interaction is of another kind"),
    }
}
