//@into src/sweep/sweep_line.rs
//@native merged_intervals iters=120000 thorough=1500000
//@native horizontals_once iters=12000 thorough=60000
// Contract of the merging of changed intervals and of the horizontals handed out with them.
#[cfg(vx)]
use crate::vx_gen::*;
#[cfg(vx)]
pub fn merged_intervals() {
    let n = vx::below(8) as usize;
    let g = 4 + vx::below(12);
    let mut v: Vec<ChangedInterval> = Vec::new();
    let mut h = 0usize;
    for _ in 0..n {
        let s = vx::below(g) as usize;
        let horizontals = if vx::below(3) == 0 { let a = h; h += 1 + vx::below(2) as usize; Some(a..h) } else { None };
        // an interval with horizontals may cross no segment at all
        let len = if horizontals.is_some() && vx::below(2) == 0 { 0 } else { 1 + vx::below(4) as usize };
        v.push(ChangedInterval { segs: s..s + len, horizontals });
    }
    v.sort_by_key(|c| c.segs.start);
    vx::note(format!("{v:?}"));
    let before = v.clone();
    merge_adjacent(&mut v);
    vx::note(format!("-> {v:?}"));
    let top = 40;
    for k in 0..top {
        let b = before.iter().any(|c| c.segs.contains(&k));
        let a = v.iter().filter(|c| c.segs.contains(&k)).count();
        assert!(a <= 1, "position {k} is in {a} intervals");
        assert!(b == (a == 1), "position {k}: covered before: {b}, after: {}", a == 1);
    }
    for w in v.windows(2) {
        assert!(w[0].segs.end < w[1].segs.start, "sorted and not adjacent: {:?} {:?}", w[0].segs, w[1].segs);
    }
    assert!(v.iter().all(|c| c.segs.start <= c.segs.end));
    // every interval is part of exactly one result, and so are its horizontals
    for c in &before {
        let home: Vec<_> = v.iter().filter(|r| r.segs.start <= c.segs.start && c.segs.end <= r.segs.end).collect();
        assert!(home.len() == 1, "{c:?} lies in {} results", home.len());
        if let Some(hz) = &c.horizontals {
            let r = home[0].horizontals.clone().expect("marked as having horizontals");
            assert!(r.start <= hz.start && hz.end <= r.end, "horizontals {hz:?} are missing from {r:?}");
        }
    }
    for r in &v {
        let parts: Vec<_> = before.iter().filter(|c| r.segs.start <= c.segs.start && c.segs.end <= r.segs.end).collect();
        let hs: Vec<_> = parts.iter().filter_map(|c| c.horizontals.clone()).collect();
        match &r.horizontals {
            None => assert!(hs.is_empty(), "the horizontals of {r:?} got lost"),
            Some(x) => {
                assert!(!hs.is_empty(), "{r:?} has horizontals though no part of it had");
                assert!(x.start == hs.iter().map(|h| h.start).min().unwrap() && x.end == hs.iter().map(|h| h.end).max().unwrap(), "{r:?} has horizontals that no part of it had");
            }
        }
    }
}

/// In a whole sweep, every horizontal of a sweep line is handed out with exactly one interval, at which
/// all the segments it crosses are.
#[cfg(vx)]
pub fn horizontals_once() {
    let segs = store(vx::below(3) == 0);
    let eps = [1e-6, 1e-4, 1e-2][vx::below(3) as usize];
    vx::note(format!("eps {eps}"));
    let mut state = Sweeper::new(&segs, eps);
    let mut range_bufs = SweepLineRangeBuffers::default();
    let mut line_bufs = SweepLineBuffers::default();
    while let Some(mut line) = state.next_line(&mut line_bufs) {
        let y = line.y();
        let len = line.state.line.segs.len();
        let ivs = line.state.changed_intervals.clone();
        for w in ivs.windows(2) { assert!(w[0].segs.end < w[1].segs.start, "intervals {ivs:?} at height {y} are sorted and not adjacent"); }
        let due: Vec<SegIdx> = segs.indices().filter(|i| segs[*i].start().y == y && segs[*i].is_horizontal()).collect();
        let mut seen: Vec<SegIdx> = Vec::new();
        for iv in &ivs {
            assert!(iv.segs.end <= len);
            if let Some(h) = &iv.horizontals {
                assert!(!h.is_empty());
                for s in &line.state.horizontals[h.clone()] {
                    assert!(!seen.contains(s), "horizontal {s:?} at height {y} is handed out twice");
                    seen.push(*s);
                    for (k, e) in line.state.line.segs.iter().enumerate() {
                        let x = segs[e.seg].at_y(y);
                        if x > segs[*s].start().x && x < segs[*s].end().x && !iv.segs.contains(&k) {
                            panic!("horizontal {s:?} at height {y} crosses position {k}, which is not in its interval {iv:?}");
                        }
                    }
                }
            }
        }
        seen.sort();
        assert!(seen == due, "height {y}: horizontals handed out {seen:?}, present {due:?}");
        // and the events name them
        let mut named: Vec<SegIdx> = Vec::new();
        while let Some(mut range) = line.next_range(&mut range_bufs, &segs) {
            while let Some(evs) = range.events() {
                for ev in evs { if segs[ev.seg_idx].is_horizontal() { assert!(ev.sweep_idx.is_none()); named.push(ev.seg_idx); } }
            }
        }
        named.sort();
        named.dedup();
        assert!(named == due, "height {y}: events for horizontals {named:?}, present {due:?}");
    }
}
