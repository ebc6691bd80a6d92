//@into src/geom.rs
//@kani force_direction note="force_monotonic: control points clamped towards the direction, end points kept, dropped exactly if nothing is left; all finite doubles"
//@kani segment_ends note="Segment::monotonic_cubic, straight, start, end, is_line, is_horizontal, to_kurbo_cubic end points; all finite doubles"
//@native force_direction iters=20000
//@native segment_ends iters=20000
//@native split_follows iters=60000 thorough=1500000
// Contract of the splitting of curves into monotone pieces.
fn a_point() -> kurbo::Point { kurbo::Point { x: vx::finite(), y: vx::finite() } }
pub fn force_direction() {
    let c = CubicBez { p0: a_point(), p1: a_point(), p2: a_point(), p3: a_point() };
    // differences of end points don't overflow
    vx::assume((c.p3.x - c.p0.x).is_finite());
    match force_monotonic(c) {
        None => assert!(c.p0 == c.p3, "only a piece whose ends coincide is dropped"),
        Some(r) => {
            assert!(r.p0 == c.p0 && r.p3 == c.p3, "the end points stay");
            if c.p0.y == c.p3.y {
                assert!(c.p0 != c.p3, "a piece of no extent is dropped");
                assert!(r.p1.y == c.p0.y && r.p2.y == c.p0.y, "a horizontal piece is exactly horizontal");
            } else {
                assert!(r.p1.x == c.p1.x && r.p2.x == c.p2.x, "control points move only vertically");
                if c.p0.y < c.p3.y {
                    assert!(r.p1.y >= c.p0.y && r.p2.y <= c.p3.y, "tangents point down at both ends");
                    assert!(r.p1.y == c.p1.y || (c.p1.y < c.p0.y && r.p1.y == c.p0.y), "the first control point moves only if it points up");
                    assert!(r.p2.y == c.p2.y || (c.p2.y > c.p3.y && r.p2.y == c.p3.y), "the second control point moves only if it points up");
                } else {
                    assert!(r.p1.y <= c.p0.y && r.p2.y >= c.p3.y, "tangents point up at both ends");
                    assert!(r.p1.y == c.p1.y || (c.p1.y > c.p0.y && r.p1.y == c.p0.y), "the first control point moves only if it points down");
                    assert!(r.p2.y == c.p2.y || (c.p2.y < c.p3.y && r.p2.y == c.p3.y), "the second control point moves only if it points down");
                }
            }
        }
    }
}
pub fn segment_ends() {
    let p = |a: kurbo::Point| Point { x: a.x, y: a.y };
    let (a, b, c, d) = (p(a_point()), p(a_point()), p(a_point()), p(a_point()));
    vx::assume(a.y < d.y || (a.y == d.y && a.x <= d.x));
    let s = Segment::monotonic_cubic(a, b, c, d);
    assert!(s.start() == a && s.end() == d, "a segment starts and ends where it was told");
    assert!(s.is_horizontal() == (a.y == d.y), "horizontal exactly if its ends are level");
    assert!(s.is_line() == (a.y == d.y), "a level curve becomes a line");
    let k = s.to_kurbo_cubic();
    assert!(k.p0.x == a.x && k.p0.y == a.y && k.p3.x == d.x && k.p3.y == d.y, "the curve of a segment has its ends");
    if a.y != d.y {
        assert!(k.p1.x == b.x && k.p1.y == b.y && k.p2.x == c.x && k.p2.y == c.y, "the curve of a segment has its control points");
    }
    let l = Segment::straight(a, d);
    assert!(l.start() == a && l.end() == d && l.is_line() && l.is_horizontal() == (a.y == d.y));
}
/// A cubic, often degenerate in some way.
#[cfg(vx)]
pub fn any_cubic() -> CubicBez {
    let grid = vx::below(3) == 0;
    let g = 1 + vx::below(6);
    let scale = match vx::below(6) { 0 => 10f64.powi(vx::below(19) as i32 - 9), _ => 1.0 };
    let off = match vx::below(5) { 0 => 1000.0 * vx::unit(), _ => 0.0 };
    let one = || (off + if grid { vx::below(g + 1) as f64 } else { (vx::unit() - 0.5) * 20.0 }) * scale;
    let mut c = CubicBez { p0: (one(), one()).into(), p1: (one(), one()).into(), p2: (one(), one()).into(), p3: (one(), one()).into() };
    if vx::below(3) == 0 { c.p1.y = c.p0.y }
    if vx::below(3) == 0 { c.p2.y = c.p3.y }
    if vx::below(6) == 0 { c.p1 = c.p0 }
    if vx::below(6) == 0 { c.p2 = c.p3 }
    if vx::below(8) == 0 { c.p3.y = c.p0.y }
    if vx::below(20) == 0 { c.p1.y = c.p0.y; c.p2.y = c.p0.y }
    if vx::below(8) == 0 { c.p2.y = c.p1.y }
    if vx::below(8) == 0 { c.p3 = c.p0 }
    if vx::below(4) == 0 { let v = [c.p0.y, c.p1.y, c.p2.y, c.p3.y]; let mut w = v; w.sort_by(f64::total_cmp); if vx::below(2) == 0 { w.reverse() } c.p0.y = w[0]; c.p1.y = w[1]; c.p2.y = w[2]; c.p3.y = w[3]; }
    // a hair's breadth away from something special
    let nudge = |y: &mut f64| match vx::below(8) { 0 => *y += (vx::unit() - 0.5) * 10f64.powi(-(vx::below(16) as i32)) * scale, 1 => *y = y.next_up(), 2 => *y = y.next_down(), _ => {} };
    if vx::below(2) == 0 { nudge(&mut c.p0.y); nudge(&mut c.p1.y); nudge(&mut c.p2.y); nudge(&mut c.p3.y) }
    c
}
#[cfg(vx)]
pub fn split_follows() {
    let c = any_cubic();
    vx::note(format!("splitting {c:?}"));
    let scale = [c.p0, c.p1, c.p2, c.p3].iter().map(|p| p.x.abs().max(p.y.abs())).fold(0.0, f64::max);
    let tol = (1e-9 * scale).max(1e-300);
    // pieces below this are not distinguished from level ones
    let flat = (1e-12 * scale).max(1e-300);
    let pieces = monotonic_pieces(c);
    let mut t = 0.0;
    let mut pos = c.p0;
    for p in &pieces {
        assert!(p.start_t >= t && p.end_t > p.start_t && p.end_t <= 1.0, "the pieces come in order of their parameters: {}..{} after {t}", p.start_t, p.end_t);
        if p.start_t > t {
            // nothing but a level stretch that returns to where it was may be left out
            for k in 0..=8 {
                let q = c.eval(t + (p.start_t - t) * k as f64 / 8.0);
                assert!((q.y - pos.y).abs() <= flat, "the stretch {t}..{} is left out but reaches {q:?} from {pos:?}", p.start_t);
            }
        }
        let near = |a: kurbo::Point, b: kurbo::Point| (a - b).hypot() <= tol;
        assert!(near(p.piece.p0, pos), "the piece starting at {} begins at {:?}, the curve is at {pos:?}", p.start_t, p.piece.p0);
        assert!(near(p.piece.p3, c.eval(p.end_t)), "the piece ending at {} ends at {:?}, the curve is at {:?}", p.end_t, p.piece.p3, c.eval(p.end_t));
        if p.start_t == 0.0 { assert!(p.piece.p0 == c.p0, "the first piece starts at the start of the curve") }
        if p.end_t == 1.0 { assert!(p.piece.p3 == c.p3, "the last piece ends at the end of the curve") }
        let down = p.piece.p0.y < p.piece.p3.y;
        let level = p.piece.p0.y == p.piece.p3.y;
        let mut last = p.piece.p0.y;
        for k in 0..=32 {
            let u = k as f64 / 32.0;
            let q = p.piece.eval(u);
            let o = c.eval(p.start_t + (p.end_t - p.start_t) * u);
            assert!((q.y - o.y).abs() <= tol, "the piece {}..{} is at {q:?} where the curve is at {o:?}", p.start_t, p.end_t);
            if level { assert!(q.y == last || (q.y - last).abs() <= flat) } else { assert!((q.x - o.x).abs() <= tol, "the piece {}..{} is at {q:?} where the curve is at {o:?}", p.start_t, p.end_t) }
            assert!(level || if down { q.y >= last - tol } else { q.y <= last + tol }, "the piece {}..{} turns back at {q:?}", p.start_t, p.end_t);
            last = if down { last.max(q.y) } else { last.min(q.y) };
        }
        t = p.end_t;
        pos = p.piece.p3;
    }
    if t < 1.0 {
        for k in 0..=8 {
            let q = c.eval(t + (1.0 - t) * k as f64 / 8.0);
            assert!((q.y - pos.y).abs() <= flat, "the stretch {t}..1 is left out but reaches {q:?} from {pos:?}");
        }
    }
    // an (exactly) monotone control polygon: at most slivers are split off
    let mono = c.p0.y < c.p1.y && c.p1.y < c.p2.y && c.p2.y < c.p3.y || c.p0.y > c.p1.y && c.p1.y > c.p2.y && c.p2.y > c.p3.y;
    if mono {
        let big = pieces.iter().filter(|p| (p.piece.p3.y - p.piece.p0.y).abs() > tol).count();
        assert!(big <= 1 || pieces.iter().all(|p| (p.piece.p3.y > p.piece.p0.y) == (c.p3.y > c.p0.y)), "a monotone curve has no turning points");
    }
}
