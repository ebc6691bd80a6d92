//@into src/topology.rs
//@kani neighbor_small unwind=6 bounded="up to 3 recorded neighbours" note="HalfScanLineOrder::neighbor_after and iter, for every height"
//@native neighbor_lookup iters=60000 thorough=1000000
//@native close_heights iters=20000 thorough=300000
//@native mirrored iters=4000 thorough=60000
//@native mirrored_curves iters=1500 thorough=20000
// Contract of the neighbour queries.
#[cfg(vx)]
use crate::vx_gen::*;
/// The neighbour after a height: the last record at or before it.
fn want(l: &[(f64, Option<OutputSegIdx>)], y: f64) -> Option<OutputSegIdx> {
    let mut r = None;
    let mut i = 0;
    while i < l.len() { if l[i].0 <= y { r = l[i].1 } i += 1 }
    r
}
fn half(l: Vec<(f64, Option<OutputSegIdx>)>) -> HalfScanLineOrder {
    HalfScanLineOrder { inner: OutputSegVec { inner: vec![l] } }
}
fn small(n: usize) {
    let mut l = Vec::with_capacity(n);
    let mut k = 0;
    while k < n {
        let y = vx::finite();
        if k > 0 { let p: (f64, Option<OutputSegIdx>) = l[k - 1]; vx::assume(p.0 <= y); }
        l.push((y, if vx::any() { Some(OutputSegIdx(k)) } else { None }));
        k += 1;
    }
    let y = vx::finite();
    let w = want(&l, y);
    assert!(half(l).neighbor_after(OutputSegIdx(0), y) == w, "the neighbour after a height is the one recorded last at or before it");
}
pub fn neighbor_small() { match vx::any::<u8>() { 0 => small(0), 1 => small(1), 2 => small(2), _ => small(3) } }
#[cfg(vx)]
fn records(n: usize, others: u64) -> Vec<(f64, Option<OutputSegIdx>)> {
    let mut y = vx::below(3) as f64;
    (0..n).map(|_| {
        y += match vx::below(6) { 0 => 0.0, 1 => 0.5, 2 => { let z: f64 = y; z.next_up() - z } _ => 1.0 };
        (y, if vx::below(4) == 0 { None } else { Some(OutputSegIdx(vx::below(others) as usize)) })
    }).collect()
}
#[cfg(vx)]
pub fn neighbor_lookup() {
    let l = records(vx::below(7) as usize, 5);
    let n = l.len();
    let y = if n > 0 { let b = l[vx::below(n as u64) as usize].0; match vx::below(5) { 0 => b, 1 => b.next_up(), 2 => b.next_down(), 3 => b + vx::unit(), _ => b - vx::unit() } } else { vx::unit() };
    vx::note(format!("{l:?} at {y:?}"));
    let w = want(&l, y);
    let h = half(l.clone());
    assert!(h.neighbor_after(OutputSegIdx(0), y) == w, "the neighbour after {y} should be {w:?}");
    let s = ScanLineOrder::new(OutputSegVec { inner: vec![l.clone(), vec![]] }, OutputSegVec { inner: vec![vec![], l.clone()] });
    assert!(s.west_neighbor_after(OutputSegIdx(0), y) == w && s.east_neighbor_after(OutputSegIdx(1), y) == w, "west and east neighbours come from their records");
    assert!(s.west_neighbor_after(OutputSegIdx(1), y).is_none() && s.east_neighbor_after(OutputSegIdx(0), y).is_none());
    let got: Vec<(f64, f64, Option<OutputSegIdx>)> = h.iter(OutputSegIdx(0)).collect();
    assert!(got.len() == n, "one interval for each record");
    for k in 0..n {
        assert!(got[k] == (l[k].0, if k + 1 < n { l[k + 1].0 } else { f64::INFINITY }, l[k].1), "each interval reaches to the next record, the last one for ever: {got:?}");
    }
}
/// The next height at which a recorded neighbour comes close.
#[cfg(vx)]
pub fn close_heights() {
    // segment 0 and some others next to it; the records may name any of them
    let eps = [0.01, 0.25][vx::below(2) as usize];
    let mut segs = Segments::default();
    let g = |n: u64| vx::below(n) as f64 * 0.5;
    segs.add_points([(2.0, 0.0), (2.0, 8.0)]);
    let n = 1 + vx::below(3);
    for _ in 0..n {
        let (y0, y1) = (-g(5), 8.0 + g(5));
        let (x0, x1) = (2.0 + vx::unit() * 2.0 - 0.5, 2.0 + vx::unit() * 2.0 - 0.5);
        let m = g(16);
        segs.add_points([(x0, y0), if vx::below(2) == 0 { (x1, y1) } else { (2.0 + 0.3 * vx::unit(), m.max(0.5)) }]);
    }
    let mut l: Vec<(f64, Option<OutputSegIdx>)> = records(vx::below(5) as usize, n).into_iter().map(|(y, i)| (y, i.map(|i| OutputSegIdx(i.0 + 1)))).collect();
    let mut cmp = ComparisonCache::new(eps, eps / 2.0);
    // some records begin exactly where a segment comes close
    for k in 0..l.len() {
        if vx::below(3) > 0 { continue }
        let o = SegIdx(1 + vx::below(n) as usize);
        let ends: Vec<f64> = cmp.compare_segments(&segs, SegIdx(0), o).iter().map(|e| e.0).collect();
        if !ends.is_empty() { l[k].0 = ends[vx::below(ends.len() as u64) as usize] }
    }
    l.sort_by(|a, b| a.0.total_cmp(&b.0));
    // a segment is only recorded as a neighbour while it is there
    let mut orig = vec![SegIdx(0)];
    orig.extend((0..n).map(|k| SegIdx(1 + k as usize)));
    let orig = OutputSegVec { inner: orig };
    let mut inner = vec![l.clone()];
    inner.extend((0..n).map(|_| vec![]));
    let h = HalfScanLineOrder { inner: OutputSegVec { inner } };
    // where a recorded neighbour is close: the undecided intervals, while the record lasts
    let mut close: Vec<(f64, f64)> = Vec::new();
    for (a, b, o) in h.iter(OutputSegIdx(0)) {
        if let Some(o) = o {
            for (s, e, ord) in cmp.compare_segments(&segs, SegIdx(0), orig[o]).iter() {
                if ord == Order::Ish && s.max(a) <= e.min(b) { close.push((s.max(a), e.min(b))) }
            }
        }
    }
    let y = match close.len() {
        0 => g(16),
        k => { let c = close[vx::below(k as u64) as usize]; let s = if vx::below(3) == 0 { c.1 } else { c.0 }; match vx::below(4) { 0 => s, 1 => s.next_up(), 2 => s.next_down(), _ => g(16) } }
    };
    vx::note(format!("{:?} records {l:?} tolerance {eps} from {y:?}", segs));
    let got = h.close_neighbor_height_after(OutputSegIdx(0), y, &orig, &segs, &mut cmp);
    let first = close.iter().filter(|c| c.1 > y && c.0 < c.1).map(|c| c.0.max(y)).fold(f64::INFINITY, f64::min);
    match got {
        None => assert!(first == f64::INFINITY, "the neighbour is close at {first}, but no height was found"),
        Some(s) => {
            assert!(s >= y, "the height {s} is before {y}");
            assert!(close.iter().any(|c| c.0 <= s && (s < c.1 || c.0 == c.1)), "no recorded neighbour is close at {s}");
            assert!(s <= first, "the neighbour is close at {first} already, not only at {s}");
        }
    }
}
/// The records of a computed topology are mirror images.
#[cfg(vx)]
fn mirror(curves: bool) {
    let (a, b) = (shape(curves), shape(curves));
    let eps = [1e-6, 1e-4, 1e-2, 0.05][vx::below(4) as usize];
    vx::note(format!("eps {eps} A = {}  B = {}", svg(&a), svg(&b)));
    let top = Topology::<BinaryWindingNumber>::from_paths_binary(&a, &b, eps).unwrap();
    let so = top.build_scan_line_orders();
    for i in top.orig_seg.indices() {
        let (y0, y1) = (top.point(i.first_half()).y, top.point(i.second_half()).y);
        for (what, h) in [("west", &so.west_map), ("east", &so.east_map)] {
            let mut last = f64::NEG_INFINITY;
            for (s, e, o) in h.iter(i) {
                assert!(s >= last, "{what} neighbours of {i:?} out of order: {:?}", h.inner[i]);
                last = s;
                let Some(o) = o else { continue };
                // both are there just after this height
                let (z0, z1) = (top.point(o.first_half()).y, top.point(o.second_half()).y);
                assert!(s >= y0 && s < y1 && s >= z0 && s < z1, "{what} neighbour {o:?} ({z0}..{z1}) of {i:?} ({y0}..{y1}) recorded at {s}");
                assert!(e.min(y1) <= z1, "{what} neighbour {o:?} ({z0}..{z1}) of {i:?} ({y0}..{y1}) recorded from {s} to {e}, longer than it is there");
                for y in [s, (s + e.min(y1).min(z1)) / 2.0] {
                    if y >= e.min(y1).min(z1) { continue }
                    let back = if what == "west" { so.east_neighbor_after(o, y) } else { so.west_neighbor_after(o, y) };
                    assert!(back == Some(i), "{o:?} is the {what} neighbour of {i:?} at {y}, but on its other side it has {back:?}: {:?} and {:?}", so.west_map.inner[i], so.east_map.inner[i]);
                }
            }
        }
    }
}
#[cfg(vx)]
pub fn mirrored() { mirror(false) }
#[cfg(vx)]
pub fn mirrored_curves() { mirror(true) }
