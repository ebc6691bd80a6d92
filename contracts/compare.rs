//@into src/order.rs
//@native same_answers iters=12000 thorough=100000
//@native flat_pairs iters=60000 thorough=1000000
//@native verdicts iters=24000 thorough=200000
// Contract of the comparison of segments.
#[cfg(vx)]
use crate::curve::Order;
#[cfg(vx)]
use crate::Segment;
#[cfg(vx)]
fn same(a: &CurveOrder, b: &CurveOrder) -> bool {
    let (x, y): (Vec<_>, Vec<_>) = (a.iter().collect(), b.iter().collect());
    x == y
}
/// Two or more segments, often close to each other, touching or crossing.
#[cfg(vx)]
fn some_segments(n: usize) -> Segments {
    let mut s = Segments::default();
    let mut first: Option<kurbo::CubicBez> = None;
    let mut paths = 0;
    while paths < n {
        let mut c = crate::curve::vx_kernels::downward();
        if let Some(f) = first {
            match vx::below(10) {
                4 | 5 => {
                    // the heights meet in one point only
                    let up = vx::below(2) == 0;
                    let dy = if up { f.p3.y - c.p0.y } else { f.p0.y - c.p3.y };
                    let dx = if vx::below(2) == 0 { 0.0 } else { f.p0.x - c.p3.x + (vx::unit() - 0.5) * 0.1 };
                    let d = kurbo::Vec2::new(dx, dy);
                    c = kurbo::CubicBez { p0: c.p0 + d, p1: c.p1 + d, p2: c.p2 + d, p3: c.p3 + d };
                    if up { c.p0.y = f.p3.y } else { c.p3.y = f.p0.y }
                    if c.p1.y < c.p0.y || c.p2.y > c.p3.y || c.p2.y < c.p0.y || c.p1.y > c.p3.y { continue }
                }
                0 => { let d = f.p0 - c.p0; c = kurbo::CubicBez { p0: c.p0 + d, p1: c.p1 + d, p2: c.p2 + d, p3: c.p3 + d } }
                1 => { let d = f.p3 - c.p3; c = kurbo::CubicBez { p0: c.p0 + d, p1: c.p1 + d, p2: c.p2 + d, p3: c.p3 + d } }
                2 => { let d = kurbo::Vec2::new((vx::unit() - 0.5) * 0.2, (vx::unit() - 0.5) * 0.2); c = kurbo::CubicBez { p0: f.p0 + d, p1: f.p1 + d, p2: f.p2 + d, p3: f.p3 + d } }
                3 => { c.p0 = f.p0; c.p3 = f.p3 }
                // the same but for one control point
                6 => { let q = c.p1; c = f; c.p1.x = q.x }
                7 => { let q = c.p2; c = f; c.p2.x = q.x }
                _ => {}
            }
        }
        let size = [c.p0, c.p1, c.p2, c.p3].iter().map(|p| p.x.abs().max(p.y.abs())).fold(0.0, f64::max);
        if size > 2000.0 || size < 0.5 || !(c.p0.y < c.p3.y) { continue }
        let mut p = kurbo::BezPath::new();
        p.move_to(c.p0);
        if vx::below(3) == 0 { p.line_to(c.p3) } else { p.curve_to(c.p1, c.p2, c.p3) }
        p.close_path();
        if first.is_none() { first = Some(c) }
        let _ = s.add_bez_path(&p);
        paths += 1;
    }
    s
}
#[cfg(vx)]
fn comparable(s: &Segments, i: SegIdx, j: SegIdx) -> bool {
    i != j && !s[i].is_horizontal() && !s[j].is_horizontal() && s[i].start().y.max(s[j].start().y) <= s[i].end().y.min(s[j].end().y)
}
#[cfg(vx)]
pub fn same_answers() {
    let s = some_segments(2 + vx::below(4) as usize);
    let tol = [1e-6, 1e-3, 0.05][vx::below(3) as usize];
    let mut c = if vx::below(4) == 0 { ComparisonCache::new_without_y_slop(tol, tol / 2.0) } else { ComparisonCache::new(tol, tol / 2.0) };
    vx::note(format!("tolerance {tol} {s:?}"));
    let mut seen: Vec<(SegIdx, SegIdx, CurveOrder)> = Vec::new();
    for _ in 0..12 {
        let (i, j) = (SegIdx(vx::below(s.len() as u64) as usize), SegIdx(vx::below(s.len() as u64) as usize));
        if !comparable(&s, i, j) { continue }
        let r = c.compare_segments(&s, i, j);
        for (a, b, o) in &seen {
            if (*a, *b) == (i, j) { assert!(same(o, &r), "comparing {i:?} and {j:?} again gives {r:?} instead of {o:?}") }
            if (*a, *b) == (j, i) { assert!(same(&o.flip(), &r), "comparing {i:?} and {j:?} gives {r:?}, the other way around {o:?}") }
        }
        let (y0, y1) = (s[i].start().y.max(s[j].start().y), s[i].end().y.min(s[j].end().y));
        let l: Vec<_> = r.iter().collect();
        assert!(!l.is_empty() && l[0].0 == y0 && l.last().unwrap().1 == y1, "the answer covers the common heights {y0}..{y1}: {r:?}");
        let mut last = y0;
        for (k, e) in l.iter().enumerate() {
            assert!(e.0 == last && e.1 >= e.0, "contiguous: {r:?}");
            last = e.1;
            if k > 0 { assert!(l[k - 1].2 != e.2 && (l[k - 1].2 == Order::Ish || e.2 == Order::Ish), "neighbouring verdicts differ, and one of them is open: {r:?}") }
        }
        seen.push((i, j, r));
    }
}
/// Least and greatest position between two heights.
#[cfg(vx)]
fn extent(s: &Segment, y0: f64, y1: f64) -> (f64, f64) {
    let (a, b) = (y0.clamp(s.start().y, s.end().y), y1.clamp(s.start().y, s.end().y));
    let (mut lo, mut hi, mut step) = (f64::INFINITY, f64::NEG_INFINITY, 0.0f64);
    let mut last = None;
    for k in 0..=24 {
        let x = s.at_y((a + (b - a) * k as f64 / 24.0).clamp(a, b));
        lo = lo.min(x);
        hi = hi.max(x);
        if let Some(l) = last { step = step.max((x - l as f64).abs()) }
        last = Some(x);
    }
    // a turn between two samples can reach beyond them
    let (lo, hi) = (lo - step / 2.0, hi + step / 2.0);
    (lo, hi)
}
#[cfg(vx)]
pub fn verdicts() {
    let s = some_segments(2);
    // (a path with a curve also has a closing line)
    let n = s.len() as u64;
    let (i, j) = (SegIdx(vx::below(n) as usize), SegIdx(vx::below(n) as usize));
    if !comparable(&s, i, j) { return }
    let tol = [1e-6, 1e-3, 0.05][vx::below(3) as usize];
    vx::note(format!("tolerance {tol} {:?} against {:?}", s[i], s[j]));
    let slop = vx::below(4) > 0;
    let mut c = if slop { ComparisonCache::new(tol, tol / 2.0) } else { ComparisonCache::new_without_y_slop(tol, tol / 2.0) };
    let r = c.compare_segments(&s, i, j);
    let scale = s.indices().map(|k| s[k].max_x().abs().max(s[k].min_x().abs()).max(s[k].end().y.abs())).fold(1.0, f64::max);
    let e = 1e-8 * scale;
    let (top, bottom) = (s[i].start().y.max(s[j].start().y), s[i].end().y.min(s[j].end().y));
    if top == bottom {
        // a single common height, at an end of both
        let (a, b) = if s[i].start().y == top { (s[i].start().x, s[j].end().x) } else { (s[i].end().x, s[j].start().x) };
        if s[i].start().y == s[i].end().y || s[j].start().y == s[j].end().y { return }
        for (_, _, o) in r.iter() {
            match o {
                Order::Left => assert!(a < b - tol + e, "left at the only common height {top}, where the positions are {a} and {b}"),
                Order::Right => assert!(a > b + tol - e, "right at the only common height {top}, where the positions are {a} and {b}"),
                Order::Ish => assert!((a - b).abs() <= tol + e, "undecided at the only common height {top}, where the positions are {a} and {b}"),
            }
        }
    }
    for (y0, y1, o) in r.iter() {
        for k in 0..=6 {
            let y = (y0 + (y1 - y0) * k as f64 / 6.0).clamp(y0, y1);
            // heights are known up to the accuracy
            let w = tol / 2.0 + e;
            let (l0, h0) = extent(&s[i], y - w, y + w);
            let (l1, h1) = extent(&s[j], y - w, y + w);
            match o {
                Order::Left => assert!(l0 <= h1 - tol / 2.0 + e, "left at {y}, but the positions are {l0}..{h0} and {l1}..{h1}: {r:?}"),
                Order::Right => assert!(h0 >= l1 + tol / 2.0 - e, "right at {y}, but the positions are {l0}..{h0} and {l1}..{h1}: {r:?}"),
                Order::Ish => {
                    // open only near a height where the segments are close
                    let w = if slop { 2.0 * tol } else { tol } + e;
                    let (l0, h0) = extent(&s[i], y - w, y + w);
                    let (l1, h1) = extent(&s[j], y - w, y + w);
                    assert!(l0 <= h1 + 1.5 * tol + e && l1 <= h0 + 1.5 * tol + e, "undecided at {y}, but the positions are {l0}..{h0} and {l1}..{h1}: {r:?}");
                }
            }
        }
    }
}

/// The comparison of two curves covers their common heights, in order, whatever their shape.
#[cfg(vx)]
pub fn flat_pairs() {
    use kurbo::CubicBez;
    let h = [1e-6, 1e-6, 1e-4, 1e-3, 1e-2, 1.0][vx::below(6) as usize];
    let grid = vx::below(2) == 0;
    let one = || {
        let mut x = [0.0f64; 4];
        let mut y = [0.0f64; 4];
        for k in 0..4 {
            x[k] = if grid { vx::below(9) as f64 } else { 8.0 * vx::unit() };
            y[k] = if grid { vx::below(9) as f64 * h } else { 8.0 * h * vx::unit() };
        }
        if vx::below(4) > 0 { x.sort_by(f64::total_cmp) }
        if vx::below(4) == 0 { x.reverse() }
        y.sort_by(f64::total_cmp);
        if y[0] == y[3] { y[3] += h }
        CubicBez::new((x[0], y[0]), (x[1], y[1]), (x[2], y[2]), (x[3], y[3]))
    };
    let mut a = one();
    let mut b = one();
    match vx::below(5) {
        0 | 1 => { b.p0 = a.p0; b.p3 = a.p3 }
        2 => { b = a; b.p1.x += (vx::unit() - 0.5) * 0.1; b.p2.x += (vx::unit() - 0.5) * 0.1 }
        3 => { let d = kurbo::Vec2::new((vx::unit() - 0.5) * 0.01, (vx::unit() - 0.5) * 0.01 * h); b = CubicBez::new(a.p0 + d, a.p1 + d, a.p2 + d, a.p3 + d) }
        _ => {}
    }
    let mut tol = [1e-9, 1e-6, 1e-4, 1e-3, 0.05][vx::below(5) as usize];
    match vx::below(2000) {
        // heights that came out of order when rotated back
        0 => {
            tol = 1e-9;
            a = CubicBez::new((6.0, 0.0), (6.0, 1e-6), (3.0, 4e-6), (1.0, 7e-6));
            b = CubicBez::new((6.0, 0.0), (5.0, 1e-6), (4.0, 2e-6), (1.0, 7e-6));
        }
        1 => {
            tol = 1e-9;
            a = CubicBez::new((1.3870132946119549, 0.0027582695648357227), (4.161762076435817, 0.003457594312133554), (6.667930960772729, 0.005708854597054898), (6.798373964566029, 0.00783229580421251));
            b = CubicBez { p0: a.p0, p1: (5.665778612173507, 0.0028973102462868895).into(), p2: (0.9081201987275227, 0.00417870844859943).into(), p3: a.p3 };
        }
        _ => {}
    }
    if b.p1.y < b.p0.y || b.p2.y < b.p1.y || b.p3.y < b.p2.y || b.p3.y <= b.p0.y { return }
    let (y0, y1) = (a.p0.y.max(b.p0.y), a.p3.y.min(b.p3.y));
    if y0 > y1 { return }
    vx::note(format!("tolerance {tol} {a:?} against {b:?}"));
    let o = crate::curve::intersect_cubics(a, b, tol, tol / 2.0);
    for (o, slop) in [(o.clone(), 0.0), (o.with_y_slop(tol), tol)] {
        let l: Vec<_> = o.iter().collect();
        assert!(!l.is_empty() && l[0].0 == y0 && l.last().unwrap().1 == y1, "the comparison covers the common heights {y0}..{y1} (slop {slop}): {o:?}");
        let mut last = y0;
        for (k, e) in l.iter().enumerate() {
            assert!(e.0 == last && e.1 >= e.0, "contiguous (slop {slop}): {o:?}");
            last = e.1;
            if k > 0 { assert!(l[k - 1].2 != e.2 && (l[k - 1].2 == Order::Ish || e.2 == Order::Ish), "neighbouring verdicts differ, and one of them is open (slop {slop}): {o:?}") }
        }
    }
}
