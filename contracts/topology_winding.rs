//@into src/topology.rs
//@native topology_polygons iters=15000 thorough=80000
//@native topology_curves iters=7500 thorough=40000
//@native topology_bundles iters=12000 thorough=60000
//@native topology_single iters=6000 thorough=20000
// Contract of the computed topology: rings around the points, and winding numbers on both sides of every segment.
#[cfg(vx)]
use crate::vx_gen::*;
#[cfg(vx)]
type Edges = Vec<(kurbo::Point, kurbo::Point)>;
/// Every point's half-segments form one ring, consistently linked, with equal winding numbers on facing sides.
#[cfg(vx)]
fn rings<W: WindingNumber>(top: &Topology<W>) {
    let live: Vec<OutputSegIdx> = top.segment_indices().collect();
    let mut at_point: Vec<usize> = vec![0; top.points.inner.len()];
    for i in top.winding.indices() {
        for h in [i.first_half(), i.second_half()] {
            assert!(top.point_idx[h].0 < top.points.inner.len(), "{h:?} has no end point");
        }
        let (p, q) = (top.point(i.first_half()), top.point(i.second_half()));
        assert!(p <= q, "{i:?} runs backwards, from {p:?} to {q:?}");
    }
    // the western neighbour was there before, and between the two there is one region
    for i in top.winding.indices() {
        let mut w = top.scan_west[i];
        assert!(w.map_or(true, |w| w < i), "{w:?} is west of {i:?} but came later");
        if top.deleted[i] { continue }
        while let Some(v) = w.filter(|v| top.deleted[*v]) { w = top.scan_west[v]; }
        let between = w.map_or(W::default(), |v| top.winding[v].counter_clockwise.clone());
        assert!(top.winding[i].clockwise == between, "winding numbers between {w:?} and {i:?}: {between:?} and {:?}", top.winding[i].clockwise);
    }
    for &i in &live { for h in [i.first_half(), i.second_half()] { at_point[top.point_idx[h].0] += 1; } }
    for &i in &live {
        assert!(top.winding[i].clockwise != top.winding[i].counter_clockwise, "{i:?} has {:?} on both sides, and should have been removed", top.winding[i].clockwise);
        for h in [i.first_half(), i.second_half()] {
            let n = top.point_neighbors[h];
            let (cw, cc) = (n.clockwise, n.counter_clockwise);
            for o in [cw, cc] {
                assert!(!top.deleted[o.idx], "{h:?} is next to {o:?}, which was removed");
                assert!(top.point_idx[o] == top.point_idx[h], "{h:?} and its neighbour {o:?} are at different points");
            }
            assert!(top.point_neighbors[cw].counter_clockwise == h && top.point_neighbors[cc].clockwise == h, "{h:?}: neighbours {cw:?} and {cc:?} don't link back");
            assert!(top.winding_clockwise(h) == top.winding_counter_clockwise(cw), "winding numbers between {h:?} and {cw:?}: {:?} and {:?}", top.winding_clockwise(h), top.winding_counter_clockwise(cw));
            // once around is all of the point's segments
            let mut k = 1;
            let mut o = cw;
            while o != h { k += 1; assert!(k <= at_point[top.point_idx[h].0], "the ring of {h:?} does not close"); o = top.point_neighbors[o].clockwise; }
            assert!(k == at_point[top.point_idx[h].0], "the ring of {h:?} has {k} of the {} half-segments at its point", at_point[top.point_idx[h].0]);
        }
    }
}
/// The horizontal position of an output segment at a height.
#[cfg(vx)]
fn x_at<W: WindingNumber>(top: &Topology<W>, i: OutputSegIdx, y: f64) -> f64 {
    let (p, q) = (top.point(i.first_half()), top.point(i.second_half()));
    let s = &top.segments[top.orig_seg[i]];
    if s.is_horizontal() { p.x + (y - p.y) / (q.y - p.y) * (q.x - p.x) } else { s.at_y(y.clamp(s.start().y, s.end().y)) }
}
/// The winding numbers beside every segment are the ones of the inputs there.
#[cfg(vx)]
fn beside<W: WindingNumber>(top: &Topology<W>, all: &Edges, margin: f64, want: impl Fn(kurbo::Point) -> W) -> usize {
    let mut checked = 0;
    let live: Vec<OutputSegIdx> = top.segment_indices().collect();
    for &i in &live {
        let (p, q) = (*top.point(i.first_half()), *top.point(i.second_half()));
        let flat_piece = p.y == q.y;
        'try_: for t in [0.5, 0.3, 0.8] {
            let m = if flat_piece { kurbo::Point::new(p.x + t * (q.x - p.x), p.y) } else { let y = p.y + t * (q.y - p.y); kurbo::Point::new(x_at(top, i, y), y) };
            for k in [1.5, 4.0, 16.0, 64.0] {
                let r = k * margin;
                // near its ends a segment has company
                if flat_piece && (m.x - p.x < r || q.x - m.x < r) || !flat_piece && (m.y - p.y < margin || q.y - m.y < margin) { continue }
                // nothing else between the two probes
                let alone = live.iter().all(|&o| {
                    if o == i { return true }
                    let (a, b) = (*top.point(o.first_half()), *top.point(o.second_half()));
                    if flat_piece {
                        b.y < m.y - r - margin || a.y > m.y + r + margin || {
                            let (l, h) = if a.y == b.y { (a.x, b.x) } else {
                                let s = top.segments[top.orig_seg[o]].to_kurbo_cubic();
                                let (l, h) = (s.p0.x.min(s.p1.x).min(s.p2.x).min(s.p3.x), s.p0.x.max(s.p1.x).max(s.p2.x).max(s.p3.x));
                                (l.min(a.x).min(b.x), h.max(a.x).max(b.x))
                            };
                            h < m.x - margin || l > m.x + margin
                        }
                    } else if a.y == b.y || b.y - a.y < margin {
                        (a.y - m.y).abs() > margin && (b.y - m.y).abs() > margin || b.x.max(a.x) < m.x - r - margin || a.x.min(b.x) > m.x + r + margin
                    } else {
                        b.y < m.y - margin || a.y > m.y + margin || [m.y - margin, m.y, m.y + margin].iter().all(|y| {
                            let x = x_at(top, o, y.clamp(a.y, b.y));
                            (x - m.x).abs() > r + margin
                        }) && { let (x0, x1) = (x_at(top, o, (m.y - margin).clamp(a.y, b.y)), x_at(top, o, (m.y + margin).clamp(a.y, b.y))); (x0 < m.x) == (x1 < m.x) }
                    }
                });
                if !alone { continue 'try_ }
                let (w, e) = if flat_piece { ((m.x, m.y + r), (m.x, m.y - r)) } else { ((m.x - r, m.y), (m.x + r, m.y)) };
                let (w, e) = (kurbo::Point::from(w), kurbo::Point::from(e));
                if dist(all, w) <= margin || dist(all, e) <= margin { continue }
                let half = i.first_half();
                let (c, d) = (want(w), want(e));
                assert!(*top.winding_clockwise(half) == c, "clockwise of {half:?} ({p:?}..{q:?}) is {:?}, but the input's winding number at {w:?} is {c:?}", top.winding_clockwise(half));
                assert!(*top.winding_counter_clockwise(half) == d, "counter-clockwise of {half:?} ({p:?}..{q:?}) is {:?}, but the input's winding number at {e:?} is {d:?}", top.winding_counter_clockwise(half));
                assert!(*top.winding_clockwise(i.second_half()) == d && *top.winding_counter_clockwise(i.second_half()) == c, "the other half sees the sides exchanged");
                checked += 1;
                break 'try_;
            }
        }
    }
    vx::cover(checked > 0); checked
}
#[cfg(vx)]
fn binary(curves: bool) {
    let (a, b) = (shape(curves), if coin(8) { BezPath::new() } else { shape(curves) });
    let (a, b) = if coin(8) { (b, a) } else { (a, b) };
    let eps = [1e-6, 1e-4, 1e-2, 0.05][vx::below(4) as usize];
    check(&a, &b, eps);
}
/// Several curves between the same points.
#[cfg(vx)]
pub fn topology_bundles() {
    let eps = [1e-6, 1e-4, 1e-2, 0.05][vx::below(4) as usize];
    let (mut a, mut b) = (BezPath::new(), BezPath::new());
    bundle(&mut a, eps);
    // something further west
    if coin(2) { a.extend(kurbo::Rect::new(-4.5, -1.0, -4.0, 12.0).to_path(1e-3)) }
    if coin(3) { grid_rect(&mut b, 6) } else if coin(3) { bundle(&mut b, eps) }
    let (a, b) = (place(a), place(b));
    check(&a, &b, eps);
}
#[cfg(vx)]
fn check(a: &BezPath, b: &BezPath, eps: f64) {
    vx::note(format!("eps {eps} A = {}  B = {}", svg(a), svg(b)));
    let top = Topology::<BinaryWindingNumber>::from_paths_binary(a, b, eps).unwrap();
    assert!(top.eps == eps);
    rings(&top);
    let (fa, fb) = (flat(a), flat(b));
    let mut all = fa.clone();
    all.extend(fb.iter().copied());
    let margin = 8.0 * eps + if curved(a) || curved(b) { 4e-3 } else { 0.0 };
    beside(&top, &all, margin, |q| BinaryWindingNumber { shape_a: winding(&fa, q), shape_b: winding(&fb, q) });
}
#[cfg(vx)]
pub fn topology_polygons() { binary(false) }
#[cfg(vx)]
pub fn topology_curves() { binary(true) }
/// One set only, and any number of paths with the same tag.
#[cfg(vx)]
pub fn topology_single() {
    let curves = coin(2);
    let n = 1 + vx::below(3);
    let ps: Vec<BezPath> = (0..n).map(|_| shape(curves)).collect();
    let eps = [1e-6, 1e-4, 1e-2][vx::below(3) as usize];
    vx::note(format!("eps {eps} {}", ps.iter().map(svg).collect::<Vec<_>>().join("  +  ")));
    let top = if n == 1 { Topology::<i32>::from_path(&ps[0], eps) } else { Topology::<i32>::from_paths(ps.iter().map(|p| (p, ())), eps) }.unwrap();
    rings(&top);
    let all: Edges = ps.iter().flat_map(flat).collect();
    let margin = 8.0 * eps + if ps.iter().any(curved) { 4e-3 } else { 0.0 };
    beside(&top, &all, margin, |q| winding(&all, q));
}
