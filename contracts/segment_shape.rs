//@into src/geom.rs
//@kani extent note="Segment::min_x, max_x are the least and greatest control point; all finite doubles"
//@native extent iters=20000
//@native bands iters=40000 thorough=600000
// Contract of the positions of a segment.
pub fn extent() {
    let p = || Point { x: vx::finite(), y: vx::finite() };
    let (a, b, c, d) = (p(), p(), p(), p());
    vx::assume(a.y < d.y || (a.y == d.y && a.x <= d.x));
    let s = Segment::monotonic_cubic(a, b, c, d);
    let (lo, hi) = (s.min_x(), s.max_x());
    assert!(lo <= a.x && lo <= d.x && hi >= a.x && hi >= d.x, "the extent includes the ends");
    if a.y != d.y {
        assert!(lo <= b.x && lo <= c.x && hi >= b.x && hi >= c.x, "the extent includes the control points");
        assert!(lo == a.x || lo == b.x || lo == c.x || lo == d.x, "the left extent is attained");
        assert!(hi == a.x || hi == b.x || hi == c.x || hi == d.x, "the right extent is attained");
    } else {
        assert!(lo == a.x && hi == d.x, "the extent of a level segment is its ends");
    }
}
/// The band around a segment at a height contains the segment near that height, and not much more.
#[cfg(vx)]
pub fn bands() {
    let c = crate::curve::vx_kernels::downward();
    let mono = { let (a, b, d) = (c.p1.y - c.p0.y, c.p2.y - c.p1.y, c.p3.y - c.p2.y); a >= 0.0 && d >= 0.0 && (b >= 0.0 || b * b <= a * d) };
    let f = |p: kurbo::Point| Point { x: p.x, y: p.y };
    let s = match vx::below(3) {
        0 => if f(c.p0) <= f(c.p3) { Segment::straight(f(c.p0), f(c.p3)) } else { return },
        1 => Segment::straight(Point { x: c.p0.x.min(c.p3.x), y: c.p0.y }, Point { x: c.p0.x.max(c.p3.x), y: c.p0.y }),
        _ => if c.p0.y < c.p3.y && mono { Segment::from_kurbo_cubic(c) } else { return },
    };
    let (a, b) = (s.start().y, s.end().y);
    let scale = [c.p0, c.p1, c.p2, c.p3].iter().map(|p| p.x.abs().max(p.y.abs())).fold(1e-300, f64::max);
    let y = match vx::below(5) { 0 => a, 1 => b, _ => (a + (b - a) * vx::unit()).clamp(a, b) };
    let eps = scale * match vx::below(3) { 0 => 1e-6, 1 => 0.1 * vx::unit(), _ => 1e-3 };
    vx::note(format!("{s:?} at {y:?} with tolerance {eps:?}"));
    let (x, lo, hi) = (s.at_y(y), s.lower(y, eps), s.upper(y, eps));
    let e = 1e-9 * scale;
    // the position is on the segment
    let k = s.to_kurbo_cubic();
    if a < b {
        if s.is_line() {
            let t = (y - a) / (b - a);
            assert!((x - (s.start().x + t * (s.end().x - s.start().x))).abs() <= e, "position {x} on a line");
        } else {
            let t = solve_t_for_y(k, y);
            assert!((k.eval(t).y - y).abs() <= e && (x - k.eval(t).x).abs() <= e, "position {x} on a curve");
        }
    } else {
        assert!(x == s.end().x, "a level segment is at its right end");
    }
    assert!(x >= s.min_x() - e && x <= s.max_x() + e, "position {x} is outside of the extent of the segment");
    assert!(lo <= x - eps + e && hi >= x + eps - e, "the band {lo}..{hi} doesn't contain the position {x} and the tolerance");
    let (mut l, mut h) = (x, x);
    let (y0, y1) = ((y - eps).max(a), (y + eps).min(b));
    for i in 0..=16 {
        let v = s.at_y((y0 + (y1 - y0) * i as f64 / 16.0).clamp(y0, y1));
        l = l.min(v);
        h = h.max(v);
    }
    assert!(a == b || lo <= l - eps + e && hi >= h + eps - e, "the band {lo}..{hi} doesn't contain the positions {l}..{h} nearby");
    // (the ends and turning points of the part nearby lie between the samples)
    let ends = [s.at_y(y0), s.at_y(y1)];
    if s.is_line() && a < b {
        assert!((lo - (ends[0].min(ends[1]) - eps)).abs() <= e && (hi - (ends[0].max(ends[1]) + eps)).abs() <= e, "the band {lo}..{hi} of a line is larger than needed");
    } else if a < b {
        assert!(lo >= s.min_x() - eps - e && hi <= s.max_x() + eps + e, "the band {lo}..{hi} leaves the extent of the segment");
    }
}
