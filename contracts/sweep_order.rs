//@into src/sweep/sweep_line.rs
//@native line_invariants iters=15000 thorough=80000
//@native line_invariants_curves iters=4500 thorough=20000
//@native line_invariants_dense iters=15000 thorough=60000
// Contract of the sweep line between two events: who is on it, in which order, and that no crossing gets forgotten.
#[cfg(vx)]
use crate::vx_gen::*;
#[cfg(vx)]
fn check(segs: &Segments, eps: f64, touches: bool) {
    let mut s = Sweeper::new(segs, eps);
    let mut bufs = SweepLineBuffers::default();
    let mut cmp = ComparisonCache::new(eps, eps / 2.0);
    let mut conservative = ComparisonCache::new(4.0 * eps, eps / 2.0);
    loop {
        let Some(l) = s.next_line(&mut bufs) else { break };
        let y = l.y();
        drop(l);
        let line: Vec<SegmentOrderEntry> = s.line.segs.iter().copied().collect();
        // who is on the line
        for e in &line {
            if let Some(o) = e.old_seg { assert!(segs[o].end().y == y, "{o:?} at height {y} gives its place to {:?}, but ends at {:?}", e.seg, segs[o].end()); }
        }
        let live: Vec<SegIdx> = line.iter().filter(|e| !e.will_really_exit()).map(|e| e.seg).collect();
        for e in line.iter().filter(|e| e.will_really_exit()) { assert!(segs[e.seg].end().y == y, "{:?} leaves at height {y}, but ends at {:?}", e.seg, segs[e.seg].end()); }
        let mut have = live.clone();
        have.sort();
        let want: Vec<SegIdx> = segs.indices().filter(|i| !segs[*i].is_horizontal() && segs[*i].start().y <= y && y < segs[*i].end().y).collect();
        assert!(have == want, "at height {y} the line holds {have:?} instead of {want:?}");
        // in order, and every future crossing has a witness
        let n = live.len();
        let d = 1e-9 * (1.0 + y.abs());
        for i in 0..n {
            for j in i + 1..n {
                let (a, b) = (live[i], live[j]);
                let c = cmp.compare_segments(segs, a, b);
                let out_of_order = c.order_at(y) == Order::Right && c.iter().any(|(y0, y1, o)| o == Order::Right && y0 <= y - d && y + d <= y1);
                // the segments must be looked at before they are clearly out of order, or apart again after a touch
                let next = match c.next_touch_after(y) {
                    Some(curve::CurveInteraction::Cross(h)) if h > y => conservative.compare_segments(segs, a, b).iter().find(|(_, y1, o)| *o == Order::Right && *y1 > y).map(|(y0, _, _)| y0.max(c.entry_at(h).1)),
                    Some(curve::CurveInteraction::Touch(h)) if h > y && touches => Some(c.entry_at(h).1),
                    _ => None,
                };
                if !out_of_order && next.is_none() { continue }
                let blocked = |conservative: &mut ComparisonCache| live[i + 1..j].iter().any(|m| conservative.compare_segments(segs, a, *m).order_at(y) == Order::Left || conservative.compare_segments(segs, *m, b).order_at(y) == Order::Left);
                if out_of_order { assert!(blocked(&mut conservative), "at height {y} {a:?} is left of {b:?} on the line, but right of it: {c:?}; line {live:?}"); }
                if let Some(h) = next {
                    let exit = live[i..=j].iter().any(|m| segs[*m].end().y <= h + d);
                    let event = s.events.intersection.iter().any(|e| {
                        e.y <= h + d && live[i..=j].contains(&e.left) && live[i..=j].contains(&e.right)
                    });
                    assert!(exit || event || blocked(&mut conservative), "at height {y} nothing is scheduled for {a:?} and {b:?}, which meet at {h}: {c:?}; line {live:?}, scheduled {:?}", s.events.intersection);
                }
            }
        }
    }
}
#[cfg(vx)]
fn random(curves: bool) {
    let segs = store(curves);
    let eps = [1e-6, 1e-4, 1e-2, 0.05][vx::below(4) as usize];
    vx::note(format!("eps {eps}"));
    check(&segs, eps, eps < 1e-3)
}
#[cfg(vx)]
pub fn line_invariants() { random(false) }
#[cfg(vx)]
pub fn line_invariants_curves() { random(true) }
/// Many segments that meet near one another: corners on a small grid, moved by a few tolerances; some curves between the same two points.
#[cfg(vx)]
pub fn line_invariants_dense() {
    let eps = [1e-6, 1e-4, 1e-4, 1e-2, 0.05][vx::below(5) as usize];
    let mut s = Segments::default();
    let mut d = format!("eps {eps}; ");
    let f = frame();
    for _ in 0..2 + vx::below(4) {
        if coin(6) {
            let mut p = kurbo::BezPath::new();
            bundle(&mut p, eps);
            let p = place(p);
            d += &format!("path {}; ", svg(&p));
            s.add_bez_path(&p).unwrap();
        } else {
            let g = 1 + vx::below(5);
            let n = 2 + vx::below(5);
            let h = vx::below(3);
            let pts: Vec<(f64, f64)> = (0..n).map(|_| {
                let mut p = gp(g);
                let o = |k: u64| match k { 0..=3 => 0.0, 4 => eps / 2.0, 5 => eps, 6 => -eps, 7 => 2.0 * eps, 8 => -1.5 * eps, _ => (vx::unit() - 0.5) * 8.0 * eps };
                if h > 0 { p.0 += o(vx::below(12)); }
                if h > 1 { p.1 += o(vx::below(12)); }
                (p.0 + f.x, p.1 + f.y)
            }).collect();
            d += &format!("points {pts:?}; ");
            s.add_points(pts);
        }
    }
    vx::note(d);
    s.check_invariants();
    check(&s, eps, false)
}
