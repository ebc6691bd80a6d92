//@into src/topology.rs
//@native layout_polygons iters=8000 thorough=60000
//@native layout_curves iters=5000 thorough=40000
//@native layout_bundles iters=4000 thorough=30000
//@native layout_known
// Contract of the layout of the output segments: where each path starts, ends and runs, and the order of the paths.
#[cfg(vx)]
use crate::vx_gen::*;
#[cfg(vx)]
fn flat_path(p: &BezPath) -> Vec<(kurbo::Point, kurbo::Point)> {
    let mut r = Vec::new();
    for s in p.segments() {
        const N: usize = 64;
        if let kurbo::PathSeg::Line(l) = s { r.push((l.p0, l.p1)); continue }
        for k in 0..N { r.push((s.eval(k as f64 / N as f64), s.eval((k + 1) as f64 / N as f64))); }
    }
    r
}
/// The smallest and largest horizontal position of a path (which never turns back) at a height.
#[cfg(vx)]
fn xs(p: &BezPath, y: f64) -> (f64, f64) {
    let (mut l, mut h) = (f64::INFINITY, f64::NEG_INFINITY);
    for s in p.segments() {
        let (a, b) = (s.eval(0.0), s.eval(1.0));
        if y < a.y.min(b.y) || y > a.y.max(b.y) { continue }
        let ts = if y == a.y || y == b.y {
            (if y == a.y { 0.0 } else { 1.0 }, if y == b.y { 1.0 } else { 0.0 })
        } else {
            let (mut t0, mut t1) = (0.0, 1.0);
            for _ in 0..60 { let m = (t0 + t1) / 2.0; if s.eval(m).y < y { t0 = m } else { t1 = m } }
            (t0, t1)
        };
        for t in [ts.0, ts.1] { let x = s.eval(t).x; l = l.min(x); h = h.max(x); }
    }
    (l, h)
}
#[cfg(vx)]
fn check(a: &BezPath, b: &BezPath, eps: f64, strict: bool) {
    vx::note(format!("eps {eps} A = {}  B = {}", svg(a), svg(b)));
    let top = Topology::<BinaryWindingNumber>::from_paths_binary(a, b, eps).unwrap();
    let pos = top.compute_positions();
    let so = top.build_scan_line_orders();
    let fine = 1e-9 * 20.0;
    for i in top.orig_seg.indices() {
        let (p, q) = (top.point(i.first_half()).to_kurbo(), top.point(i.second_half()).to_kurbo());
        let path = &pos[i].path;
        let els = path.elements();
        let PathEl::MoveTo(s) = els[0] else { panic!("{i:?}: the path starts with its first point") };
        assert!(s == p, "{i:?}: the path starts at {s:?}, the segment at {p:?}");
        assert!(els.len() >= 2 && els[1..].iter().all(|e| !matches!(e, PathEl::MoveTo(_) | PathEl::ClosePath)), "{i:?}: one path: {els:?}");
        let e = els[els.len() - 1].end_point().unwrap();
        assert!(e == q, "{i:?}: the path ends at {e:?}, the segment at {q:?}");
        if let Some(k) = pos[i].copied_idx { assert!(k < els.len() - 1, "{i:?}: the copied piece {k} of {}", els.len() - 1); }
        assert!(els.iter().all(|e| match e { PathEl::MoveTo(p) | PathEl::LineTo(p) => p.is_finite(), PathEl::QuadTo(p, q) => p.is_finite() && q.is_finite(), PathEl::CurveTo(p, q, r) => p.is_finite() && q.is_finite() && r.is_finite(), _ => true }), "{i:?}: coordinates are finite");
        let f = flat_path(path);
        for (a, b) in &f { assert!(b.y >= a.y - fine, "{i:?}: the path turns back up at {a:?}: {}", svg(path)); }
        // near its segment
        let c = top.segments[top.orig_seg[i]].to_kurbo_cubic();
        let orig: Vec<(kurbo::Point, kurbo::Point)> = if top.segments[top.orig_seg[i]].is_line() { vec![(c.p0, c.p3)] } else { (0..200).map(|k| (c.eval(k as f64 / 200.0), c.eval((k + 1) as f64 / 200.0))).collect() };
        let slack = if top.segments[top.orig_seg[i]].is_line() { 0.0 } else { 2e-3 + 1.5 * eps.sqrt() };
        for (k, (a, _)) in f.iter().enumerate() {
            if k % 8 != 0 { continue }
            let d = dist(&orig, *a);
            assert!(d <= 40.0 * eps + slack, "{i:?}: the path at {a:?} is {d} away from its segment");
        }
    }
    // neighbours stay in order (at a tolerance that is coarse compared with the shape: up to that; see layout_known)
    let over = if strict || eps < 1e-3 { eps.min(1e-6) * 0.01 } else { 40.0 * eps };
    for i in top.orig_seg.indices() {
        if top.is_horizontal(i) { continue }
        let (y0, y1) = (top.point(i.first_half()).y, top.point(i.second_half()).y);
        for (s, e, w) in so.west_map.iter(i) {
            let Some(w) = w else { continue };
            let (s, e) = (s.max(y0), e.min(y1));
            if e <= s { continue }
            for k in 0..=8 {
                let y = s + (e - s) * k as f64 / 8.0;
                let (l, h) = (xs(&pos[w].path, y), xs(&pos[i].path, y));
                if !(l.0.is_finite() && h.1.is_finite()) { continue }
                assert!(l.0 <= h.1 + over, "{w:?} is recorded west of {i:?} from {s} to {e}, but at height {y} it is laid out at {} and {i:?} at {}", l.0, h.1);
            }
        }
    }
}
#[cfg(vx)]
fn random(curves: bool) {
    let (a, b) = (shape(curves), if coin(8) { BezPath::new() } else { shape(curves) });
    let eps = [1e-6, 1e-4, 1e-2, 0.05][vx::below(4) as usize];
    check(&a, &b, eps, false);
}
#[cfg(vx)]
pub fn layout_polygons() { random(false) }
#[cfg(vx)]
pub fn layout_curves() { random(true) }
#[cfg(vx)]
pub fn layout_bundles() {
    let eps = [1e-6, 1e-4, 1e-2, 0.05][vx::below(4) as usize];
    let (mut a, mut b) = (BezPath::new(), BezPath::new());
    bundle(&mut a, eps);
    if coin(3) { grid_rect(&mut b, 6) } else if coin(3) { bundle(&mut b, eps) }
    let (a, b) = (place(a), place(b));
    check(&a, &b, eps, false);
}
/// Inputs with paths that pass each other at a coarse tolerance (KNOWN_FINDINGS).
#[cfg(vx)]
pub fn layout_known() {
    vx::case(|| "known-layout-order".to_string(), true, || {
        let a = BezPath::from_svg("M0,0 L0,3 L2,0 L1,2 L3,4 L1,0 L4,2 Z").unwrap();
        let b = BezPath::from_svg("M1.0209094894193766,2.9176667278831574 L3.5670249754966257,4.24887536228537 L3.895874699952755,1.6879576437179051 L1.6402447100315132,4.244631412735017 L0.3484725212737372,3.206315139278826 L1.035442251349148,1.074914212071631 L3.1560084771576684,1.0682821077706506 Z M6,0 L6,4 L7,3 L7,6 Z M0.1550900385325571,0.585792520797373 L0.40421056081769324,4.17857529915373 L4.00702662015005,1.494916782142011 L0.39634619521917325,0.8400996998347826 L4.975758236055818,4.134918063925953 L2.7922387334114807,0.25398787000335266 L2.052841275539482,2.996760879954548 L2.3917342486856286,3.13599986620153 Z").unwrap();
        check(&a, &b, 0.05, true);
    });
}
