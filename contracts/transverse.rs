//@into src/curve/transverse.rs
//@native quad_bound iters=100000 thorough=1000000
//@native transversal iters=60000 thorough=1000000
// Contracts of the derivative bounds and of the test for transversal crossings.
#[cfg(vx)]
fn value(a: f64, b: f64, c: f64, t: f64) -> f64 { a * t * t + 2.0 * b * t * (1.0 - t) + c * (1.0 - t) * (1.0 - t) }
#[cfg(vx)]
pub fn quad_bound() {
    let grid = vx::below(3) == 0;
    let s = match vx::below(5) { 0 => 10f64.powi(vx::below(120) as i32 - 60), _ => 1.0 };
    let one = || s * if grid { vx::below(9) as f64 - 4.0 } else { (vx::unit() - 0.5) * 8.0 };
    let (a, b, c) = (one(), one(), one());
    let end = || match vx::below(5) { 0 => 0.0, 1 => 1.0, 2 => vx::below(9) as f64 / 8.0, _ => vx::unit() };
    let (t0, t1) = (end(), end());
    let (t0, t1) = (t0.min(t1), t0.max(t1));
    vx::note(format!("{a:?} t^2 + 2 {b:?} t (1 - t) + {c:?} (1 - t)^2 on {t0:?}..{t1:?}"));
    let d = 1e-12 * (a.abs() + b.abs() + c.abs());
    let (max, min) = (quad_max_between(a, b, c, t0..=t1), quad_min_between(a, b, c, t0..=t1));
    let (mut hi, mut lo) = (f64::NEG_INFINITY, f64::INFINITY);
    for k in 0..=64 {
        let v = value(a, b, c, t0 + (t1 - t0) * k as f64 / 64.0);
        hi = hi.max(v);
        lo = lo.min(v);
    }
    assert!(max >= hi - d, "the bound {max} is below the value {hi}");
    assert!(min <= lo + d, "the bound {min} is above the value {lo}");
    // and not much larger than necessary
    let step = (t1 - t0) / 64.0;
    let slack = d + 4.0 * step * step * (a.abs() + 2.0 * b.abs() + c.abs());
    assert!(max <= hi + slack && min >= lo - slack, "the bounds {min}..{max} are further out than the values {lo}..{hi}");
}
#[cfg(vx)]
fn pair() -> Option<(CubicBez, CubicBez, f64)> {
    use crate::curve::vx_kernels::downward;
    let (mut l, mut r) = (downward(), downward());
    let d = l.p0.y - r.p0.y;
    for p in [&mut r.p0, &mut r.p1, &mut r.p2, &mut r.p3] { p.y += d }
    r.p0.y = l.p0.y;
    if vx::below(2) == 0 { let d = l.p0.x - r.p0.x; for p in [&mut r.p0, &mut r.p1, &mut r.p2, &mut r.p3] { p.x += d } r.p0.x = l.p0.x }
    if l.p0.x > r.p0.x { std::mem::swap(&mut l, &mut r) }
    let ok = |c: CubicBez| { let (a, b, d) = (c.p1.y - c.p0.y, c.p2.y - c.p1.y, c.p3.y - c.p2.y); a >= 0.0 && d >= 0.0 && (b >= 0.0 || b * b <= a * d) && c.p0.y < c.p3.y };
    if !ok(l) || !ok(r) { return None }
    let top = l.p3.y.min(r.p3.y);
    let y = match vx::below(3) { 0 => top, _ => l.p0.y + (top - l.p0.y) * vx::unit() };
    if !(y > l.p0.y && y <= top) { return None }
    Some((l, r, y))
}
#[cfg(vx)]
pub fn transversal() {
    let Some((l, r, y)) = pair() else { return };
    vx::note(format!("{l:?} and {r:?} up to {y:?}"));
    let scale = [l.p0, l.p1, l.p2, l.p3, r.p0, r.p1, r.p2, r.p3].iter().map(|p| p.x.abs().max(p.y.abs())).fold(1e-300, f64::max);
    let after = transversal_after(l, r, y);
    if after {
        for k in 0..=32 {
            let h = (l.p0.y + (y - l.p0.y) * k as f64 / 32.0).clamp(l.p0.y, y);
            // the heights are only known up to rounding
            let e = 1e-9 * scale;
            let (a, b) = ((h - e).max(l.p0.y), (h + e).min(y));
            let lx = [a, h, b].map(|h| crate::curve::solve_x_for_y(l, h));
            let rx = [a, h, b].map(|h| crate::curve::solve_x_for_y(r, h));
            let (x0, x1) = (lx.iter().copied().fold(f64::INFINITY, f64::min), rx.iter().copied().fold(f64::NEG_INFINITY, f64::max));
            assert!(x0 <= x1 + e, "said to stay left, but at {h} the positions are {lx:?} and {rx:?}");
        }
    }
    // looking upwards is the mirror image
    let m = |c: CubicBez| { let p = |q: kurbo::Point| kurbo::Point { x: q.x, y: -q.y }; CubicBez { p0: p(c.p3), p1: p(c.p2), p2: p(c.p1), p3: p(c.p0) } };
    assert!(transversal_before(m(l), m(r), -y) == after, "looking upwards mirrors looking downwards");
}
