//@into src/sweep/sweep_line.rs
//@native queue_model iters=20000 thorough=400000
// Contract of the event queue, against plain lists of what is still to be delivered.
#[cfg(vx)]
pub fn queue_model() {
    let g = 2 + vx::below(4);
    let hair = vx::below(3) == 0;
    let num = || { let x = vx::below(g) as f64; match vx::below(if hair { 6 } else { 3 }) { 0 => x + 0.5, 3 => x.next_up(), 4 => x.next_down(), _ => x } };
    let mut segs = Segments::default();
    let n = match vx::below(50) { 0 => 100 + vx::below(200), _ => vx::below(9) };
    let mut d = String::new();
    for _ in 0..n {
        let ps = [(num(), num()), (num(), num())];
        if ps[0] == ps[1] { continue; }
        d += &format!("{ps:?} ");
        segs.add_points(ps);
    }
    vx::note(d);
    let mut q = EventQueue::default();
    let mut enters: Vec<(f64, SegIdx)> = segs.indices().map(|i| (segs[i].start().y, i)).collect();
    let mut exits: Vec<(f64, SegIdx)> = segs.indices().filter(|i| segs[*i].start().y != segs[*i].end().y).map(|i| (segs[i].end().y, i)).collect();
    let mut ints: Vec<IntersectionEvent> = Vec::new();
    let mut last = f64::NEG_INFINITY;
    let mut from = f64::NEG_INFINITY;
    for _round in 0..60 {
        // schedule some crossings, all below the heights already taken
        for _ in 0..vx::below(4) {
            let y = num();
            if y <= from { continue; }
            let ev = IntersectionEvent { y, left: SegIdx(vx::below(3) as usize), right: SegIdx(vx::below(3) as usize) };
            vx::note(format!("push {ev:?}"));
            q.push(ev.clone());
            if !ints.contains(&ev) { ints.push(ev); }
        }
        let want = enters.iter().map(|e| e.0).chain(exits.iter().map(|e| e.0)).chain(ints.iter().map(|e| e.y)).fold(f64::INFINITY, f64::min);
        let got = q.next_y(&segs);
        assert!(got == if want == f64::INFINITY { None } else { Some(want) }, "the smallest pending height is {want}, the queue says {got:?}");
        let Some(y) = got else {
            // once empty it stays empty
            assert!(enters.is_empty() && exits.is_empty() && ints.is_empty());
            if vx::below(2) == 0 { break } else { continue };
        };
        assert!(y > last, "height {y} is announced again (or after a larger one)");
        last = y;
        from = y;
        let take = |q: &mut EventQueue, which: bool, pending: &mut Vec<(f64, SegIdx)>| {
            let got: Vec<(f64, SegIdx)> = if which { q.entrances_at_y(&y, &segs).to_vec() } else { q.exits_at_y(&y, &segs).to_vec() };
            let mut g: Vec<SegIdx> = got.iter().map(|e| e.1).collect();
            let mut w: Vec<SegIdx> = pending.iter().filter(|e| e.0 == y).map(|e| e.1).collect();
            pending.retain(|e| e.0 != y);
            g.sort();
            w.sort();
            assert!(g == w, "{} at {y}: delivered {g:?}, due {w:?}", if which { "entrances" } else { "exits" });
            assert!(got.iter().all(|e| e.0 == y));
        };
        take(&mut q, true, &mut enters);
        take(&mut q, false, &mut exits);
        // more crossings may be scheduled while those at this height are taken
        let mut prev: Option<(SegIdx, SegIdx)> = None;
        let mut extra = vx::below(3);
        loop {
            let pick = ints.iter().filter(|e| e.y == y).map(|e| (e.left, e.right)).min();
            let got = q.next_intersection_at_y(y);
            match (got, pick) {
                (None, None) => break,
                (Some(e), Some(p)) => {
                    assert!(e.y == y && ints.contains(&e), "delivered {e:?}, which is not due");
                    assert!((e.left, e.right) == p, "crossings at one height come in order of their segments: {e:?} before {p:?}");
                    if let Some(prev) = prev { assert!(extra < 3 || prev < p); }
                    prev = Some(p);
                    ints.retain(|x| *x != e);
                }
                (g, w) => panic!("crossings at {y}: delivered {g:?}, due {w:?}"),
            }
            if extra > 0 {
                extra -= 1;
                let ev = IntersectionEvent { y: if vx::below(2) == 0 { y } else { y + 0.25 }, left: SegIdx(vx::below(4) as usize), right: SegIdx(vx::below(4) as usize) };
                vx::note(format!("push {ev:?}"));
                q.push(ev.clone());
                if !ints.contains(&ev) { ints.push(ev); }
            }
        }
    }
}
