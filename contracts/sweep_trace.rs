//@into src/sweep/mod.rs
//@native sweep_traces iters=18000 thorough=100000
//@native sweep_traces_curves iters=7500 thorough=40000
//@native sweep_known
// Contract of the sweep as a whole: what it reports for every segment.
#[cfg(vx)]
use crate::vx_gen::*;
#[cfg(vx)]
use kurbo::ParamCurve;
#[cfg(vx)]
use crate::SegIdx;
#[cfg(vx)]
fn trace(curves: bool) {
    let segs = store(curves);
    let eps = [1e-6, 1e-4, 1e-2, 0.05][vx::below(4) as usize];
    vx::note(format!("eps {eps}"));
    check(&segs, eps, true)
}
/// Does an almost horizontal segment (other than `i`) pass by `p`?  (KNOWN_FINDINGS: known-flat-order.)
#[cfg(vx)]
fn flat_near(segs: &Segments, i: SegIdx, p: kurbo::Point, eps: f64) -> bool {
    segs.indices().any(|j| {
        let s = &segs[j];
        if j == i || s.is_horizontal() || s.end().y < p.y - 6.0 * eps || s.start().y > p.y + 6.0 * eps { return false }
        let c = s.to_kurbo_cubic();
        let (mut lo, mut hi) = (f64::INFINITY, f64::NEG_INFINITY);
        for y in [p.y - 6.0 * eps, p.y, p.y + 6.0 * eps] {
            let x = s.at_y(y.clamp(s.start().y, s.end().y));
            lo = lo.min(x);
            hi = hi.max(x);
        }
        for k in 0..=400 { let q = c.eval(k as f64 / 400.0); if (q.y - p.y).abs() <= 6.0 * eps { lo = lo.min(q.x); hi = hi.max(q.x); } }
        hi - lo > 10.0 * eps && lo - 10.0 * eps <= p.x && p.x <= hi + 10.0 * eps
    })
}
#[cfg(vx)]
fn check(segs: &Segments, eps: f64, except: bool) {
    let mut all: Vec<(f64, OutputEvent)> = Vec::new();
    sweep(segs, eps, |y, ev| all.push((y, ev)));
    // sweeping by hand gives the same
    {
        let mut state = Sweeper::new(segs, eps);
        let mut rb = SweepLineRangeBuffers::default();
        let mut lb = SweepLineBuffers::default();
        let mut k = 0;
        let mut last = f64::NEG_INFINITY;
        while let Some(mut line) = state.next_line(&mut lb) {
            let y = line.y();
            assert!(y > last, "height {y} is reported after {last}");
            last = y;
            assert!(line.eps() == eps);
            while let Some(mut r) = line.next_range(&mut rb, segs) {
                let mut right = f64::NEG_INFINITY;
                loop {
                    let x = r.x();
                    let Some(evs) = r.events() else { assert!(x.is_none()); break };
                    let x = x.expect("a position while there are events");
                    assert!(x > right, "height {y}: positions {x} after {right}");
                    for e in evs {
                        assert!(e.larger_x() == x && (e.smaller_x() == x || e.smaller_x() == right), "height {y}: {e:?} in the batch from {right} to {x}");
                        assert!(k < all.len() && all[k] == (y, e), "sweep() reports what the sweep lines do");
                        k += 1;
                    }
                    right = x;
                }
            }
        }
        assert!(k == all.len());
        let top = segs.indices().map(|i| segs[i].end().y).fold(f64::NEG_INFINITY, f64::max);
        assert!(segs.len() == 0 || last == top, "the sweep ends at {last}, the segments at {top}");
    }
    let close = |a: f64, b: f64| (a - b).abs() <= eps.max(1e-9 * (1.0 + b.abs()));
    for i in segs.indices() {
        let s = &segs[i];
        let mine: Vec<&(f64, OutputEvent)> = all.iter().filter(|e| e.1.seg_idx == i).collect();
        assert!(!mine.is_empty(), "segment {i:?} is never reported");
        assert!(mine[0].0 == s.start().y, "segment {i:?} is first reported at {} but starts at {:?}", mine[0].0, s.start());
        assert!(mine[mine.len() - 1].0 == s.end().y, "segment {i:?} is last reported at {} but ends at {:?}", mine[mine.len() - 1].0, s.end());
        let mut k = 0;
        while k < mine.len() {
            let y = mine[k].0;
            let mut at: Vec<&OutputEvent> = Vec::new();
            while k < mine.len() && mine[k].0 == y { at.push(&mine[k].1); k += 1; }
            // the pieces at one height, followed in the direction of the segment
            let right = at.iter().any(|e| e.x0 < e.x1);
            let left = at.iter().any(|e| e.x0 > e.x1);
            assert!(!(right && left), "segment {i:?} at height {y} turns back: {at:?}");
            if left { at.reverse(); }
            if !right && !left { assert!(at.len() == 1, "segment {i:?} at height {y} is reported twice: {at:?}"); }
            for w in at.windows(2) {
                assert!(w[0].x1 == w[1].x0, "segment {i:?} at height {y} is interrupted: {at:?}");
                assert!(!w[0].connected_below && !w[1].connected_above, "segment {i:?} at height {y} is attached in the middle: {at:?}");
            }
            let (f, l) = (at[0], at[at.len() - 1]);
            let (first, last) = (y == s.start().y, y == s.end().y);
            assert!(f.connected_above == !first, "segment {i:?} at height {y}: continues above: {} (starts at {:?})", f.connected_above, s.start());
            assert!(l.connected_below == !last, "segment {i:?} at height {y}: continues below: {} (ends at {:?})", l.connected_below, s.end());
            if first { assert!(close(f.x0, s.start().x), "segment {i:?} starts at {:?}, reported {}", s.start(), f.x0); }
            if last { assert!(close(l.x1, s.end().x), "segment {i:?} ends at {:?}, reported {}", s.end(), l.x1); }
            if s.is_horizontal() {
                assert!(f.x0 == s.start().x && l.x1 == s.end().x && f.sweep_idx.is_none(), "horizontal {i:?} {s:?} reported as {at:?}");
            } else {
                // near the segment
                for x in [f.x0, l.x1] {
                    let p = kurbo::Point::new(x, y);
                    let c = s.to_kurbo_cubic();
                    let d = if s.is_line() { dist(&[(c.p0, c.p3)], p) } else {
                        let pts: Vec<kurbo::Point> = (0..=400).map(|k| c.eval(k as f64 / 400.0)).collect();
                        let f: Vec<_> = pts.windows(2).map(|w| (w[0], w[1])).collect();
                        (dist(&f, p) - 1e-3).max(0.0)
                    };
                    assert!(d <= 10.0 * eps + 1e-9 || except && flat_near(segs, i, p, eps), "segment {i:?} is reported at {p:?}, {} tolerances away", d / eps);
                }
            }
        }
    }
}
#[cfg(vx)]
pub fn sweep_traces() { trace(false) }
#[cfg(vx)]
pub fn sweep_traces_curves() { trace(true) }

/// Inputs on which a segment is known to be reported far away from where it is (KNOWN_FINDINGS).
#[cfg(vx)]
pub fn sweep_known() {
    vx::case(|| "known-flat-order".to_string(), true, || {
        let mut s = Segments::default();
        for p in [[(1.0, 4.0), (0.76, 1.98), (3.497, 2.001)].as_slice(), &[(1.0, 0.0), (0.0, 2.0)], &[(3.0, 4.0), (3.0, 2.0)]] { s.add_points(p.iter().copied()); }
        check(&s, 0.05, false)
    });
}
