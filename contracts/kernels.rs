//@into src/curve/mod.rs
//@kanisub use polycool::Cubic; ==> use self::vx_kernels::VxCubic as Cubic;
//@kani solve_range unwind=4 noreplay=1 note="solve_t_for_y: always a parameter in 0..=1, and exactly 0 and 1 at the ends; polycool's root finder replaced by its contract (any roots in the interval asked for)"
//@kani subsegment_ends unwind=4 stub=solve_t_for_y=>stub_t noreplay=1 note="y_subsegment: starts and ends exactly at the heights asked for"
//@kani order_flip note="Order::flip is an involution that exchanges left and right"
//@native order_flip iters=10
//@native solve_height iters=60000 thorough=1000000
//@native quad_roots iters=100000 thorough=1000000
//@native quad_signs iters=100000 thorough=1000000
//@native sign_intervals iters=60000 thorough=1000000
//@native parabola iters=20000 thorough=400000
// Contracts of the numeric kernels of the curve comparison.
fn a_kpoint() -> kurbo::Point { kurbo::Point::new(vx::finite(), vx::finite()) }
pub fn order_flip() {
    assert!(Order::Left.flip() == Order::Right && Order::Right.flip() == Order::Left && Order::Ish.flip() == Order::Ish);
}
/// The contract of polycool's cubic polynomials: roots are inside the interval asked for (any number of them), and
/// if none is found then the signs at the ends agree.
#[cfg(kani)]
#[derive(Clone, Copy)]
pub struct VxCubic { pub coeffs: [f64; 4] }
#[cfg(kani)]
impl VxCubic {
    pub fn new(coeffs: [f64; 4]) -> Self { VxCubic { coeffs } }
    pub fn max_abs_coefficient(&self) -> f64 { let x: f64 = vx::any(); vx::assume(x >= 0.0); x }
    pub fn eval(&self, _x: f64) -> f64 { 1.0 }
    pub fn roots_between(self, lower: f64, upper: f64, _e: f64) -> ArrayVec<f64, 3> {
        let mut v = ArrayVec::new();
        let n: u8 = vx::any();
        let mut k = 0;
        while k < 3 {
            if k < n % 4 { let r: f64 = vx::any(); vx::assume(lower <= r && r <= upper); v.push(r); }
            k += 1;
        }
        v
    }
}
#[cfg(kani)]
fn stub_t(_c: CubicBez, _y: f64) -> f64 { let t: f64 = vx::any(); vx::assume(t >= 0.0 && t <= 1.0); t }
#[cfg(kani)]
pub fn solve_range() {
    let c = CubicBez { p0: a_kpoint(), p1: a_kpoint(), p2: a_kpoint(), p3: a_kpoint() };
    let y: f64 = vx::finite();
    vx::assume(c.p0.y <= y && y <= c.p3.y && c.p0.y < c.p3.y);
    let t = solve_t_for_y(c, y);
    assert!(t >= 0.0 && t <= 1.0, "the parameter is between 0 and 1");
    assert!(y != c.p0.y || t == 0.0, "the start is at parameter 0");
    assert!(y != c.p3.y || y == c.p0.y || t == 1.0, "the end is at parameter 1");
}
#[cfg(kani)]
pub fn subsegment_ends() {
    let c = CubicBez { p0: a_kpoint(), p1: a_kpoint(), p2: a_kpoint(), p3: a_kpoint() };
    let (y0, y1): (f64, f64) = (vx::finite(), vx::finite());
    vx::assume(y0 < y1 && c.p0.y <= y0 && y1 <= c.p3.y);
    let r = y_subsegment(c, y0, y1);
    assert!(r.p0.y == y0 && r.p3.y == y1, "the sub-curve starts and ends exactly at the heights");
}
/// A curve running down, often degenerate at its ends.
#[cfg(vx)]
pub fn downward() -> CubicBez {
    let s = match vx::below(4) { 0 => 10f64.powi(vx::below(25) as i32 - 10), _ => 1.0 };
    let off = match vx::below(4) { 0 => 1000.0 * (vx::unit() - 0.5), _ => 0.0 };
    let grid = vx::below(3) == 0;
    let one = |k: f64| if grid { vx::below(9) as f64 } else { k * vx::unit() };
    let mut ys = [one(8.0), one(8.0), one(8.0), one(8.0)];
    ys.sort_by(f64::total_cmp);
    let mut xs = [one(20.0), one(20.0), one(20.0), one(20.0)];
    match vx::below(6) { 0 => ys[1] = ys[0], 1 => ys[2] = ys[3], 2 => { ys[1] = ys[0]; ys[2] = ys[3] } 3 => { xs[1] = xs[0]; ys[1] = ys[0] } _ => {} }
    // S-shapes that are monotone although the control points are not in order
    if vx::below(4) == 0 { let h = ys[3] - ys[0]; ys[1] = ys[0] + h * vx::unit(); ys[2] = ys[0] + h * vx::unit() }
    if vx::below(8) == 0 { for k in 1..4 { ys[k] = ys[0] + (ys[k] - ys[0]) * 1e-6 } }
    if !(ys[0] < ys[3]) { ys[3] = ys[0] + 1.0; ys[2] = ys[3] }
    let p = |k: usize| kurbo::Point::new((off + xs[k]) * s, (off + ys[k]) * s);
    CubicBez { p0: p(0), p1: p(1), p2: p(2), p3: p(3) }
}
#[cfg(vx)]
fn size(c: CubicBez) -> f64 { [c.p0, c.p1, c.p2, c.p3].iter().map(|p| p.x.abs().max(p.y.abs())).fold(1e-300, f64::max) }
/// Monotone by its control polygon, or by the derivative having no root inside.
#[cfg(vx)]
fn is_monotone(c: CubicBez) -> bool {
    let (a, b, d) = (c.p1.y - c.p0.y, c.p2.y - c.p1.y, c.p3.y - c.p2.y);
    a >= 0.0 && d >= 0.0 && (b >= 0.0 || b * b <= a * d)
}
#[cfg(vx)]
fn height_in(a: f64, b: f64) -> f64 {
    match vx::below(7) { 0 => a, 1 => b, 2 => a.next_up(), 3 => b.next_down(), 4 => a + (b - a) * 1e-9 * vx::unit(), _ => (a + (b - a) * vx::unit()).clamp(a, b) }
}
#[cfg(vx)]
pub fn solve_height() {
    let c = downward();
    if !(c.p0.y < c.p3.y) || !is_monotone(c) { return }
    let (y, z) = (height_in(c.p0.y, c.p3.y), height_in(c.p0.y, c.p3.y));
    vx::note(format!("heights {y:?} and {z:?} of {c:?}"));
    let tol = 1e-9 * size(c);
    let t = solve_t_for_y(c, y);
    assert!((0.0..=1.0).contains(&t), "the parameter {t} is not between 0 and 1");
    assert!((c.eval(t).y - y).abs() <= tol, "at parameter {t} the curve is at height {}", c.eval(t).y);
    assert!(y != c.p0.y || t == 0.0, "the start is at parameter 0");
    assert!(y != c.p3.y || t == 1.0, "the end is at parameter 1");
    let x = solve_x_for_y(c, y);
    assert!(x == c.eval(t).x, "position at a height");
    let (y, z) = (y.min(z), y.max(z));
    if y < z {
        let r = y_subsegment(c, y, z);
        assert!(r.p0.y == y && r.p3.y == z, "the sub-curve starts and ends exactly at the heights");
        let (t0, t1) = (solve_t_for_y(c, y), solve_t_for_y(c, z));
        for k in 0..=8 {
            let u = k as f64 / 8.0;
            let (p, q) = (r.eval(u), c.eval(t0 + (t1 - t0) * u));
            assert!((p - q).hypot() <= tol, "the sub-curve is at {p:?} where the curve is at {q:?}");
        }
    }
}
#[cfg(vx)]
fn coefficient() -> f64 {
    match vx::below(12) {
        0 => 0.0,
        1 => (vx::unit() - 0.5) * 10f64.powi(vx::below(300) as i32 - 150),
        2 => (vx::unit() - 0.5) * 10f64.powi(vx::below(40) as i32 - 20),
        3 => -0.0,
        4 | 5 => vx::below(21) as f64 - 10.0,
        _ => (vx::unit() - 0.5) * 20.0,
    }
}
/// The sign of the quadratic at a point, if it is not lost in rounding.
#[cfg(vx)]
fn sign(a: f64, b: f64, c: f64, x: f64) -> Option<f64> {
    let (u, v) = (a * x * x, b * x);
    let (m, s) = (u.abs() + v.abs() + c.abs(), u + v + c);
    if m.is_finite() && m > 1e-280 && s.abs() > 1e-10 * m { Some(s.signum()) } else { None }
}
#[cfg(vx)]
fn probes(r0: f64, r1: f64) -> Vec<f64> {
    let mut v = vec![0.0, 1.0, -1.0, 1e6, -1e6, 1e100, -1e100, (vx::unit() - 0.5) * 20.0];
    for r in [r0, r1] { if r.is_finite() { v.extend([r - 1.0, r + 1.0, r * (1.0 + 1e-3), r * (1.0 - 1e-3), r + 1e-3, r - 1e-3]) } }
    if r0.is_finite() && r1.is_finite() { v.extend([(r0 + r1) / 2.0, r0 + (r1 - r0) * vx::unit()]) }
    v
}
#[cfg(vx)]
pub fn quad_roots() {
    let (b, c) = match vx::below(3) {
        0 => { let (r, s) = (coefficient(), coefficient()); let s = if vx::below(4) == 0 { r * (1.0 + 1e-7 * vx::unit()) } else { s }; (-(r + s), r * s) }
        _ => (coefficient(), coefficient()),
    };
    if !b.is_finite() || !c.is_finite() { return }
    vx::note(format!("x^2 + {b:?} x + {c:?}"));
    let (r0, r1) = monic_quadratic_roots(b, c);
    assert!(!(r0 > r1), "the roots {r0:?}, {r1:?} are not in order");
    assert!(b.abs() > 1e140 || !(r0.is_nan() || r1.is_nan()), "the roots {r0:?}, {r1:?}");
    for x in probes(r0, r1) {
        let want = if x < r0 || x > r1 { 1.0 } else { -1.0 };
        if let Some(s) = sign(1.0, b, c, x) { assert!(s == want, "roots {r0:?} and {r1:?}, but the sign at {x:?} is {s}") }
    }
}
#[cfg(vx)]
pub fn quad_signs() {
    let q = match vx::below(3) {
        0 => { let (r, s, a) = (coefficient(), coefficient(), coefficient()); let s = if vx::below(4) == 0 { r * (1.0 + 1e-7 * vx::unit()) } else { s }; Quadratic { c2: a, c1: -a * (r + s), c0: a * r * s } }
        _ => Quadratic { c2: coefficient(), c1: coefficient(), c0: coefficient() },
    };
    if !(q.c2.is_finite() && q.c1.is_finite() && q.c0.is_finite()) { return }
    vx::note(format!("signs of {q:?}"));
    let s = q.signs();
    assert!(s.smaller_root <= s.bigger_root, "the roots of {s:?} are not in order");
    for x in probes(s.smaller_root, s.bigger_root) {
        let want = if x < s.smaller_root || x > s.bigger_root { s.initial_sign } else { -s.initial_sign };
        let want = if want == 0.0 { 0.0 } else { want.signum() };
        // stay away from underflowing discriminants
        if [q.c2, q.c1, q.c0].iter().any(|c| *c != 0.0 && (c.abs() < 1e-70 || c.abs() > 1e70)) { continue }
        if let Some(v) = sign(q.c2, q.c1, q.c0, x) { assert!(v == want, "{s:?}, but the sign at {x:?} is {v}") }
    }
    let (x, h) = ((vx::unit() - 0.5) * 20.0, (vx::unit() - 0.5) * 20.0);
    let m = 1e3 * q.max_coeff() + 1e-300;
    if m.is_finite() { assert!((q.shift(h).eval(x) - q.eval(x - h)).abs() <= 1e-12 * m, "shifting by {h} moves the value at {x}") }
}
#[cfg(vx)]
pub fn sign_intervals() {
    let grid = vx::below(4) == 0;
    let co = || match vx::below(6) { 0 => coefficient(), 1 => 0.0, _ => if grid { vx::below(9) as f64 - 4.0 } else { (vx::unit() - 0.5) * 8.0 } };
    let (mut a, b, c) = (co(), co(), co());
    if vx::below(4) == 0 { a *= 10f64.powi(-(vx::below(40) as i32)) }
    let lower = match vx::below(4) { 0 => -(vx::below(4) as f64), _ => -vx::unit() };
    let upper = match vx::below(4) { 0 => lower + 10f64.powi(-(vx::below(9) as i32)), _ => vx::unit() + lower.max(0.0) + 1e-3 };
    let y0 = if grid { -(vx::below(4) as f64) } else { -4.0 * vx::unit() };
    let y1 = y0 + if grid { 1.0 + vx::below(6) as f64 } else { 1e-3 + 6.0 * vx::unit() };
    if !(lower < upper) || !(a * 100.0).is_finite() { return }
    vx::note(format!("{a:?} y^2 + {b:?} y + {c:?} against {lower:?}..{upper:?} for {y0:?}..{y1:?}"));
    // thresholds that differ by less than the rounding of the coefficients are out of scope
    if [a, b, c].iter().any(|v| v.abs() * 1e-12 > upper - lower) { return }
    let mut out = CurveOrder::new(y0);
    push_quadratic_signs(a, b, c, lower, upper, y0, y1, &mut out);
    assert!(!out.cmps.is_empty() && out.cmps.last().unwrap().end == y1, "the intervals reach the end: {out:?}");
    let mut last = y0;
    for (s, e, o) in out.iter() {
        assert!(s == last && e >= s, "the intervals are contiguous: {out:?}");
        last = e;
        for k in 0..=8 {
            let y = s + (e - s) * k as f64 / 8.0;
            let (u, v) = (a * y * y, b * y);
            let d = 1e-9 * (u.abs() + v.abs() + c.abs() + lower.abs() + upper.abs()) + 1e-12 * (a.abs() + b.abs());
            // near a double root the position is only known to the square root of the precision, the value is exact
            let val = u + v + c;
            match o {
                Order::Left => assert!(val >= upper - d, "left at {y}, where the value is {val}: {out:?}"),
                Order::Right => assert!(val <= lower + d, "right at {y}, where the value is {val}: {out:?}"),
                Order::Ish => assert!(val >= lower - d && val <= upper + d, "close at {y}, where the value is {val}: {out:?}"),
            }
        }
    }
}
/// The estimate of a curve by a parabola bounds the curve.
#[cfg(vx)]
pub fn parabola() {
    let c = downward();
    if !(c.p0.y < c.p3.y) || !is_monotone(c) { return }
    let s = size(c);
    // the documentation asks for moderate heights
    if s > 100.0 || c.p3.y - c.p0.y < 0.05 { return }
    vx::note(format!("parabola for {c:?}"));
    let e = EstParab::from_cubic(c);
    assert!(e.dmin <= 0.0 && e.dmax >= 0.0);
    let err = 1e-9 * (1.0 + e.max_param()) * s;
    for k in 0..=32 {
        let p = c.eval(k as f64 / 32.0);
        let d = p.x - (e.c0 + e.c1 * p.y + e.c2 * p.y * p.y);
        assert!(d >= e.dmin - err && d <= e.dmax + err, "at {p:?} the curve is {d} from the parabola {e:?}");
    }
    for p in [c.p0, c.p3] {
        assert!((p.x - (e.c0 + e.c1 * p.y + e.c2 * p.y * p.y)).abs() <= err, "the parabola meets the ends of the curve");
    }
}
