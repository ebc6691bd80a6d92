//@into src/lib.rs
// Input generators and reference functions shared by the bounded executions.
#[cfg(vx)]
pub use on::*;
#[cfg(vx)]
mod on {
use crate::vx_rt as vx;
use kurbo::{BezPath, ParamCurve, PathEl, PathSeg, Point as KPoint, Shape};

pub fn coin(n: u64) -> bool { vx::below(n) == 0 }
pub fn grid(g: u64) -> f64 { vx::below(g + 1) as f64 }
pub fn gp(g: u64) -> (f64, f64) { (grid(g), grid(g)) }

fn poly(p: &mut BezPath, pts: &[(f64, f64)], explicit: bool) {
    p.move_to(pts[0]);
    for q in &pts[1..] { p.line_to(*q); }
    if explicit { p.line_to(pts[0]); }
    p.close_path();
}

/// A closed polygon with vertices on a small integer grid: collinear, coincident and crossing edges are common.
pub fn grid_polygon(p: &mut BezPath, g: u64) {
    let n = 3 + vx::below(6) as usize;
    let pts: Vec<_> = (0..n).map(|_| gp(g)).collect();
    poly(p, &pts, coin(3));
}
/// An axis-parallel rectangle on a small integer grid, in either orientation.
pub fn grid_rect(p: &mut BezPath, g: u64) {
    let (a, b) = (gp(g), (1 + vx::below(3), 1 + vx::below(3)));
    let (x0, y0, x1, y1) = (a.0, a.1, a.0 + b.0 as f64, a.1 + b.1 as f64);
    let mut pts = vec![(x0, y0), (x1, y0), (x1, y1), (x0, y1)];
    if coin(2) { pts.reverse(); }
    let k = vx::below(4) as usize;
    pts.rotate_left(k);
    poly(p, &pts, coin(3));
}
/// A rectilinear polygon: a random closed walk of axis-parallel steps.
pub fn rectilinear(p: &mut BezPath, g: u64) {
    let n = 2 + vx::below(4) as usize;
    let mut pts = vec![gp(g)];
    for _ in 0..n {
        let l = *pts.last().unwrap();
        let x = grid(g);
        let y = grid(g);
        pts.push((x, l.1));
        pts.push((x, y));
    }
    let (l, f) = (*pts.last().unwrap(), pts[0]);
    pts.push((f.0, l.1));
    poly(p, &pts, coin(3));
}
/// A polygon whose vertices are arbitrary numbers.
pub fn free_polygon(p: &mut BezPath, g: u64) {
    let n = 3 + vx::below(6) as usize;
    let pts: Vec<_> = (0..n).map(|_| (vx::unit() * g as f64, vx::unit() * g as f64)).collect();
    poly(p, &pts, coin(3));
}
/// A closed path of lines and curves with control points on the grid (or free).
pub fn curvy(p: &mut BezPath, g: u64) {
    let free = coin(2);
    let pt = || if free { (vx::unit() * g as f64, vx::unit() * g as f64) } else { gp(g) };
    let n = 2 + vx::below(3) as usize;
    let first = pt();
    p.move_to(first);
    for k in 0..n {
        let end = if k + 1 == n { first } else { pt() };
        match vx::below(3) {
            0 => p.line_to(end),
            1 => p.quad_to(pt(), end),
            _ => p.curve_to(pt(), pt(), end),
        }
    }
    p.close_path();
}
pub fn disc(p: &mut BezPath, g: u64) {
    let c = if coin(2) { gp(g) } else { (vx::unit() * g as f64, vx::unit() * g as f64) };
    let r = (1 + vx::below(4)) as f64 / 2.0;
    let q = if coin(2) { kurbo::Circle::new(c, r).to_path(1e-3) }
        else { kurbo::Ellipse::new(c, (r, r * 0.5 + 0.25), vx::below(4) as f64 * 0.4).to_path(1e-3) };
    let q = if coin(3) { q.reverse_subpaths() } else { q };
    // (kurbo's circles close only up to rounding)
    let mut els: Vec<PathEl> = q.elements().iter().copied().filter(|e| !matches!(e, PathEl::ClosePath)).collect();
    if let (PathEl::MoveTo(f), Some(PathEl::CurveTo(_, _, l))) = (els[0], els.last_mut()) { *l = f; }
    p.extend(els);
    p.close_path();
}

/// Several curves between the same two points, some of them almost or exactly the same: a walk back and forth.
pub fn bundle(p: &mut BezPath, eps: f64) {
    let (a, b) = (KPoint::new(vx::below(5) as f64, vx::below(3) as f64), KPoint::new(vx::below(5) as f64, 5.0 + vx::below(4) as f64));
    let v = b - a;
    let n = 2 * (1 + vx::below(4));
    let mut old: Vec<(KPoint, KPoint)> = Vec::new();
    p.move_to(a);
    for k in 0..n {
        let fresh = old.is_empty() || coin(2);
        let (mut c, mut d) = if fresh {
            let (x, y) = ((vx::below(9) as f64 - 4.0) / 2.0, (vx::below(9) as f64 - 4.0) / 2.0);
            (a + v / 3.0 + kurbo::Vec2::new(x, 0.0), a + v * (2.0 / 3.0) + kurbo::Vec2::new(if coin(2) { x } else { y }, 0.0))
        } else { old[vx::below(old.len() as u64) as usize] };
        if !fresh {
            let o = match vx::below(8) { 0 | 1 => 0.0, 2 => eps / 2.0, 3 => eps * 0.9, 4 => eps * 1.2, 5 => eps * 2.0 * vx::unit(), 6 => 0.5, _ => 2.0 } * if coin(2) { 1.0 } else { -1.0 };
            match vx::below(3) { 0 => c.x += o, 1 => d.x += o, _ => { c.x += o; d.x += o } }
        }
        old.push((c, d));
        if k % 2 == 0 { if coin(8) { p.line_to(b) } else { p.curve_to(c, d, b) } }
        else if coin(8) { p.line_to(a) } else { p.curve_to(d, c, a) }
    }
    p.close_path();
}
/// Where the figures of this case are: half of the time around the origin or at negative coordinates.
pub fn frame() -> kurbo::Vec2 {
    let z = vx::salt();
    if z % 2 == 0 { return kurbo::Vec2::ZERO }
    let d = [0.0, -3.0, -4.5, -12.0];
    kurbo::Vec2::new(d[(z / 2 % 4) as usize], d[(z / 8 % 4) as usize])
}
pub fn place(mut p: BezPath) -> BezPath { if frame() != kurbo::Vec2::ZERO { p.apply_affine(kurbo::Affine::translate(frame())) } p }
/// One operand: up to three contours.  `curves`: may contain curved pieces.
pub fn shape(curves: bool) -> BezPath {
    let mut p = BezPath::new();
    let n = 1 + vx::below(3);
    let kind = vx::below(if curves { 6 } else { 4 });
    for _ in 0..n {
        let g = 4 + vx::below(5);
        match if coin(5) { vx::below(if curves { 6 } else { 4 }) } else { kind } {
            0 => grid_polygon(&mut p, g),
            1 => grid_rect(&mut p, g),
            2 => rectilinear(&mut p, g),
            3 => free_polygon(&mut p, g),
            4 => curvy(&mut p, g),
            _ => disc(&mut p, g),
        }
    }
    place(p)
}
pub fn curved(p: &BezPath) -> bool { p.elements().iter().any(|e| matches!(e, PathEl::QuadTo(..) | PathEl::CurveTo(..))) }

/// Straight pieces approximating the path (exact for polygons), with every subpath closed.
pub fn flat(p: &BezPath) -> Vec<(KPoint, KPoint)> {
    let mut r = Vec::new();
    for s in p.segments() {
        match s {
            PathSeg::Line(l) => r.push((l.p0, l.p1)),
            s => {
                const N: usize = 100;
                for k in 0..N {
                    r.push((s.eval(k as f64 / N as f64), s.eval((k + 1) as f64 / N as f64)));
                }
            }
        }
    }
    r
}
/// The winding number of the flattened path around a point: crossings of the ray to the west, downward
/// (increasing y) pieces count +1.
pub fn winding(f: &[(KPoint, KPoint)], q: KPoint) -> i32 {
    let mut w = 0;
    for (a, b) in f {
        if (a.y <= q.y) != (b.y <= q.y) {
            let x = a.x + (q.y - a.y) / (b.y - a.y) * (b.x - a.x);
            if x < q.x { w += if b.y > a.y { 1 } else { -1 } }
        }
    }
    w
}
pub fn dist(f: &[(KPoint, KPoint)], q: KPoint) -> f64 {
    let mut d = f64::INFINITY;
    for (a, b) in f {
        let v = *b - *a;
        let l = v.hypot2();
        let t = if l == 0.0 { 0.0 } else { ((q - *a).dot(v) / l).clamp(0.0, 1.0) };
        d = d.min((q - (*a + v * t)).hypot());
    }
    d
}
/// A point of interest: anywhere, or close to a vertex or an edge.
pub fn probe(f: &[(KPoint, KPoint)], near: f64) -> KPoint {
    let bb = |k: usize| if k == 0 { -1.0 } else { 11.0 };
    if f.is_empty() || coin(3) {
        return KPoint::new(bb(0) + vx::unit() * 12.0, bb(0) + vx::unit() * 12.0) + frame();
    }
    let (a, b) = f[vx::below(f.len() as u64) as usize];
    let base = match vx::below(4) { 0 => a, 1 => a.midpoint(b), 2 => a.lerp(b, vx::unit()), _ => {
        // near a crossing with another piece
        let (c, d) = f[vx::below(f.len() as u64) as usize];
        let (u, v) = (b - a, d - c);
        let den = u.cross(v);
        if den.abs() < 1e-9 { a } else { let t = (c - a).cross(v) / den; if (0.0..=1.0).contains(&t) { a + u * t } else { b } }
    } };
    let r = near * (1.0 + vx::unit() * if coin(2) { 3.0 } else { 100.0 });
    let th = vx::unit() * std::f64::consts::TAU;
    base + kurbo::Vec2::new(th.cos(), th.sin()) * r
}
pub fn svg(p: &BezPath) -> String { p.to_svg() }
}
/// A path with a ring around it (and around another one): everything else lies in the hole of the ring.
#[cfg(vx)]
pub fn ringed(mut p: kurbo::BezPath, other: &kurbo::BezPath) -> kurbo::BezPath {
    use kurbo::Shape;
    if p.elements().is_empty() { return p }
    let b = if other.elements().is_empty() { p.bounding_box() } else { p.bounding_box().union(other.bounding_box()) };
    let (i, o) = (b.inflate(1.0, 1.0), b.inflate(2.0, 2.0));
    for (r, rev) in [(i, false), (o, true)] {
        let mut c = [(r.x0, r.y0), (r.x1, r.y0), (r.x1, r.y1), (r.x0, r.y1)];
        if rev { c.reverse() }
        p.move_to(c[0]);
        for q in &c[1..] { p.line_to(*q) }
        p.close_path();
    }
    p
}
/// A random boolean operation, carried out.
#[cfg(vx)]
pub fn make(curves: bool) -> (kurbo::BezPath, kurbo::BezPath, f64, FillRule, BinaryOp, topology::Contours) {
    let (a, b) = (shape(curves), if coin(6) { kurbo::BezPath::new() } else { shape(curves) });
    let (a, b) = if coin(12) { (b, a) } else { (a, b) };
    let (a, b) = match vx::below(12) { 0 => (ringed(a, &b), b), 1 => { let r = ringed(b, &a); (a, r) } _ => (a, b) };
    let eps = match vx::below(4) { 0 => None, 1 => Some(1e-6), 2 => Some(1e-4), _ => Some(1e-2) };
    let rule = if coin(2) { FillRule::EvenOdd } else { FillRule::NonZero };
    let op = [BinaryOp::Union, BinaryOp::Intersection, BinaryOp::Difference, BinaryOp::Xor][vx::below(4) as usize];
    vx::note(format!("{rule:?} {op:?} eps {eps:?} A = {}  B = {}", svg(&a), svg(&b)));
    let out = match eps { None => binary_op(&a, &b, rule, op), Some(e) => binary_op_with_eps(&a, &b, rule, op, e) }.unwrap();
    (a, b, eps.unwrap_or(1e-6), rule, op, out)
}
/// A random collection of segments: closed paths and open polylines, added in several steps.
#[cfg(vx)]
pub fn store(curves: bool) -> Segments {
    let mut s = Segments::default();
    let mut d = String::new();
    for _ in 0..1 + vx::below(3) {
        if coin(4) {
            let g = 4 + vx::below(5);
            let free = coin(2);
            let n = 2 + vx::below(3);
            let pts: Vec<(f64, f64)> = (0..n).map(|_| if free { (vx::unit() * g as f64, vx::unit() * g as f64) } else { gp(g) }).collect();
            d += &format!("points {pts:?}; ");
            s.add_points(pts);
        } else {
            let p = shape(curves);
            d += &format!("path {}; ", svg(&p));
            s.add_bez_path(&p).unwrap();
        }
    }
    vx::note(d);
    s
}
