//@into src/sweep/sweep_line.rs
//@native feasible_bounds iters=15000 thorough=300000
//@native assigned_in_order iters=5000 thorough=50000
// Contract of the horizontal positions assigned along a sweep line.
#[cfg(vx)]
use crate::vx_gen::*;
#[cfg(vx)]
pub fn feasible_bounds() {
    // segments from height 0 to height 1 (or more), in any order
    let n = 1 + vx::below(5) as usize;
    let eps = [1e-3, 0.05, 0.25][vx::below(3) as usize];
    let spread = [0.1, 0.3, 2.0][vx::below(3) as usize];
    let mut segs = Segments::default();
    let c = || { let x = vx::unit() * spread; if vx::below(3) == 0 { (x * 8.0).round() / 8.0 } else { x } };
    for _ in 0..n {
        let p: kurbo::BezPath = if vx::below(3) == 0 {
            let mut p = kurbo::BezPath::new();
            p.move_to((c(), 0.0));
            p.curve_to((c(), vx::unit()), (c(), vx::unit()), (c(), 1.0));
            p
        } else {
            let mut p = kurbo::BezPath::new();
            p.move_to((c(), -c()));
            p.line_to((c(), 1.0 + c()));
            p
        };
        vx::note(crate::vx_gen::svg(&p));
        segs.add_non_closed_bez_path(&p).unwrap();
    }
    let y = match vx::below(4) { 0 => 0.0, 1 => 1.0, _ => vx::unit() };
    let idx: Vec<SegIdx> = segs.indices().filter(|i| segs[*i].start().y <= y && y <= segs[*i].end().y && !segs[*i].is_horizontal()).collect();
    let entries: Vec<SegmentOrderEntry> = idx.iter().map(|i| SegmentOrderEntry::new(*i, &segs, eps)).collect();
    vx::note(format!("y {y} eps {eps} {idx:?}"));
    let mut out = vec![(SegmentOrderEntry::new(SegIdx(0), &segs, eps), 7.0, 7.0)];
    feasible_horizontal_positions(&entries, |e| e.seg, y, &segs, eps, &mut out);
    assert!(out.len() == entries.len(), "one entry for each segment");
    let (lo, hi, at): (Vec<f64>, Vec<f64>, Vec<f64>) = (
        idx.iter().map(|i| segs[*i].lower(y, eps)).collect(), idx.iter().map(|i| segs[*i].upper(y, eps)).collect(), idx.iter().map(|i| segs[*i].at_y(y)).collect());
    let f = |v: &[f64], m: fn(f64, f64) -> f64| v.iter().copied().reduce(m).unwrap();
    let n = out.len();
    for k in 0..n {
        assert!(out[k].0.seg == idx[k], "in order");
        let (a, b) = (out[k].1, out[k].2);
        // one cannot go below what the segments to the left force, nor above what those to the right force
        assert!(a >= f(&lo[..=k], f64::max) && b <= f(&hi[k..], f64::min), "position {k}: {a}..{b} leaves the band forced by the others, lower {lo:?} upper {hi:?}");
        // positions never leave the range of the true positions
        assert!(a >= f(&at, f64::min) && b <= f(&at, f64::max), "position {k}: {a}..{b} leaves the range of true positions {at:?}");
        // and nothing more is excluded
        assert!(a == f(&lo[..=k], f64::max).max(f(&at, f64::min)) && b == f(&hi[k..], f64::min).min(f(&at, f64::max)), "position {k}: {a}..{b} excludes feasible positions; lower {lo:?} upper {hi:?} true {at:?}");
        if k > 0 { assert!(out[k - 1].1 <= a && out[k - 1].2 <= b, "bounds are non-decreasing"); }
    }
    // if the order is feasible at all, no bound is empty and any greedy choice works
    if (0..n).all(|k| f(&lo[..=k], f64::max) <= f(&hi[k..], f64::min)) {
        let mut last = f64::NEG_INFINITY;
        for k in 0..n {
            let (a, b) = (out[k].1, out[k].2);
            assert!(a <= b, "position {k}: the band {a}..{b} is empty, though the order is feasible: lower {lo:?} upper {hi:?} true {at:?}");
            let x = (a + (b - a) * vx::unit()).clamp(a, b).max(last);
            assert!(a <= x && x <= b && lo[k] <= x && x <= hi[k]);
            last = x;
        }
    }
}

#[cfg(vx)]
pub fn assigned_in_order() {
    let segs = store(vx::below(2) == 0);
    let eps = [1e-6, 1e-4, 1e-2, 0.1][vx::below(4) as usize];
    vx::note(format!("eps {eps}"));
    let mut state = Sweeper::new(&segs, eps);
    let mut range_bufs = SweepLineRangeBuffers::default();
    let mut line_bufs = SweepLineBuffers::default();
    while let Some(mut line) = state.next_line(&mut line_bufs) {
        let y = line.y();
        while let Some(range) = line.next_range(&mut range_bufs, &segs) {
            let iv = range.seg_range();
            let st = range.line().state;
            // both orders in full (entering and leaving segments included): the order allows positions within
            // the bands exactly if no segment's band lies left of that of one before it
            let entries: Vec<SegmentOrderEntry> = st.line.segs.range(iv.segs.clone()).copied().collect();
            let possible = |v: &[SegIdx]| (0..v.len()).all(|k| v[..=k].iter().map(|e| segs[*e].lower(y, eps)).fold(f64::NEG_INFINITY, f64::max) <= segs[v[k]].upper(y, eps));
            let new: Vec<SegIdx> = entries.iter().map(|e| e.seg).collect();
            let mut old: Vec<(usize, SegIdx)> = entries.iter().enumerate().map(|(k, e)| (e.old_idx.unwrap_or(iv.segs.start + k), e.old_seg())).collect();
            old.sort_by_key(|e| e.0);
            let old: Vec<SegIdx> = old.into_iter().map(|e| e.1).collect();
            drop(range);
            let evs = &line.bufs.output_events;
            let check = |mut v: Vec<(usize, f64, SegIdx)>, what: &str, feas: bool| {
                v.sort_by_key(|e| e.0);
                for w in v.windows(2) {
                    assert!(w[0].0 != w[1].0, "height {y}: two segments at position {} {what}", w[0].0);
                    assert!(w[0].1 <= w[1].1, "height {y} {what}: {:?} is left of {:?} but positioned at {} > {}", w[0].2, w[1].2, w[0].1, w[1].1);
                }
                // within the tolerance whenever the order allows it
                if feas {
                    for e in &v {
                        let (l, u) = (segs[e.2].lower(y, eps), segs[e.2].upper(y, eps));
                        assert!(l <= e.1 && e.1 <= u, "height {y} {what}: {:?} at {} leaves its band {l}..{u}", e.2, e.1);
                    }
                }
            };
            check(evs.iter().filter(|e| e.connected_above).map(|e| (e.old_sweep_idx.expect("position in the old order"), e.x0, e.seg_idx)).collect(), "above", possible(&old));
            check(evs.iter().filter(|e| e.connected_below).map(|e| (e.sweep_idx.expect("position in the new order"), e.x1, e.seg_idx)).collect(), "below", possible(&new));
            for e in evs {
                let s = &segs[e.seg_idx];
                let close = |a: f64, b: f64| (a - b).abs() <= 1e-9 * (1.0 + b.abs()) || (a - b).abs() <= eps;
                if !e.connected_above { assert!(close(e.x0, s.start().x), "{:?} starts where its segment starts, {:?}", e, s); }
                if !e.connected_below { assert!(close(e.x1, s.end().x), "{:?} ends where its segment ends, {:?}", e, s); }
            }
        }
    }
}
