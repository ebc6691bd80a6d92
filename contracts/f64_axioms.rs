//@into src/num.rs
//@kani comparisons note="f64_order.rs: ax_lt ax_le ax_gt ax_ge ax_eq ax_ne"
//@native comparisons iters=2000
//@kani finite note="f64_order.rs: ax_fin ax_between ax_zero"
//@native finite iters=2000
//@kani sums note="f64_order.rs: ax_fadd ax_fsub, and ax_add ax_sub: the result is a function of the operands"
//@native sums iters=2000
//@kani middle note="f64_order.rs: ax_mid"
//@native middle iters=2000
//@kani bounds note="f64_order.rs: ax_inf ax_minus_inf; scan_order.rs: fmax; feasible.rs: max min"
//@native bounds iters=2000
// The axioms about doubles that the Verus units use (verus/f64_order.rs), discharged over all doubles.
fn rank(x: f64) -> i64 {
    let b = x.to_bits();
    let m = (b & 0x7fff_ffff_ffff_ffff) as i64;
    if b >> 63 == 1 { -m } else { m }
}

pub fn comparisons() {
    let a: f64 = vx::any();
    let b: f64 = vx::any();
    vx::assume(!a.is_nan() && !b.is_nan());
    vx::cover(a < b);
    assert!((a < b) == (rank(a) < rank(b)));
    assert!((a <= b) == (rank(a) <= rank(b)));
    assert!((a > b) == (rank(a) > rank(b)));
    assert!((a >= b) == (rank(a) >= rank(b)));
    assert!((a == b) == (rank(a) == rank(b)));
    assert!((a != b) == (rank(a) != rank(b)));
}

pub fn finite() {
    let a: f64 = vx::any();
    let b: f64 = vx::any();
    let x: f64 = vx::any();
    vx::assume(a.is_finite());
    assert!(!a.is_nan());
    assert!(0.0f64.is_finite());
    vx::assume(b.is_finite() && !x.is_nan() && rank(a) <= rank(x) && rank(x) <= rank(b));
    vx::cover(a < x);
    assert!(x.is_finite());
}

pub fn sums() {
    let a: f64 = vx::any();
    let b: f64 = vx::any();
    vx::assume(a.is_finite() && b.is_finite());
    let s = a + b;
    let d = a - b;
    assert!(!s.is_nan() && !d.is_nan());
    vx::cover(b > 0.0);
    if rank(b) >= rank(0.0) {
        assert!(rank(s) >= rank(a));
        assert!(rank(d) <= rank(a));
    }
    if rank(a) >= rank(0.0) {
        assert!(rank(s) >= rank(b));
    }
}

pub fn middle() {
    let a: f64 = vx::any();
    let b: f64 = vx::any();
    vx::assume(a.abs() <= f64::MAX / 2.0 && b.abs() <= f64::MAX / 2.0 && rank(a) <= rank(b));
    vx::cover(a < b);
    let m = (a + b) / 2.0;
    assert!(!m.is_nan() && rank(a) <= rank(m) && rank(m) <= rank(b));
}

pub fn bounds() {
    let a: f64 = vx::any();
    let b: f64 = vx::any();
    assert!(!f64::INFINITY.is_nan() && !f64::NEG_INFINITY.is_nan());
    if a.is_finite() { assert!(rank(a) < rank(f64::INFINITY)); }
    vx::assume(!a.is_nan() && !b.is_nan());
    vx::cover(a < b);
    assert!(rank(f64::NEG_INFINITY) <= rank(a) && rank(a) <= rank(f64::INFINITY));
    let (m, n) = (a.max(b), a.min(b));
    assert!(!m.is_nan() && !n.is_nan());
    assert!(rank(m) == if rank(a) >= rank(b) { rank(a) } else { rank(b) });
    assert!(rank(n) == if rank(a) <= rank(b) { rank(a) } else { rank(b) });
}
