//@into src/segments.rs
//@native store_traces_paths iters=12000 thorough=200000
// Contract of the segment store, after every addition of any history.
#[cfg(vx)]
use crate::vx_gen::*;
#[cfg(vx)]
use kurbo::{ParamCurve, Point as KPoint};
#[cfg(vx)]
fn near(a: KPoint, b: KPoint, scale: f64) -> bool { (a - b).hypot() <= 1e-9 * scale }
/// Properties of the store as a whole.
#[cfg(vx)]
fn store_ok(s: &Segments) {
    for i in s.indices() {
        let (a, b) = (s[i].start(), s[i].end());
        assert!(a.y < b.y || (a.y == b.y && a.x <= b.x), "{i:?} runs down, or right if horizontal: {a:?} {b:?}");
        assert!(s[i].is_horizontal() == (a.y == b.y));
        let (os, oe) = if s.positively_oriented(i) { (a, b) } else { (b, a) };
        assert!(s.oriented_start(i) == os && s.oriented_end(i) == oe, "{i:?}: oriented ends");
        if let Some(n) = s.contour_next(i) {
            assert!(n.0 < s.len(), "{i:?} continues with {n:?}, which does not exist");
            assert!(s.contour_prev(n) == Some(i), "{i:?} is followed by {n:?} which is preceded by {:?}", s.contour_prev(n));
            assert!(s.oriented_end(i) == s.oriented_start(n), "{i:?} ends where its successor {n:?} starts");
        }
        if let Some(p) = s.contour_prev(i) {
            assert!(p.0 < s.len() && s.contour_next(p) == Some(i), "{i:?} is preceded by {p:?} which is followed by {:?}", s.contour_next(p));
        }
    }
    let sorted = |l: &[(f64, SegIdx)]| l.windows(2).all(|w| w[0].0 <= w[1].0);
    assert!(sorted(s.entrances()), "entrances are sorted by height: {:?}", s.entrances());
    assert!(sorted(s.exits()), "exits are sorted by height: {:?}", s.exits());
    let key = |l: &[(f64, SegIdx)]| { let mut v: Vec<(SegIdx, f64)> = l.iter().map(|e| (e.1, e.0)).collect(); v.sort_by_key(|e| e.0); v };
    let want: Vec<(SegIdx, f64)> = s.indices().map(|i| (i, s[i].start().y)).collect();
    assert!(key(s.entrances()) == want, "every segment enters once, at its start: {:?}", s.entrances());
    let want: Vec<(SegIdx, f64)> = s.indices().filter(|i| !s[*i].is_horizontal()).map(|i| (i, s[i].end().y)).collect();
    assert!(key(s.exits()) == want, "every segment that isn't horizontal exits once, at its end: {:?}", s.exits());
}
/// The pieces added since `old`, followed along the links, trace `subpaths` (each a list of input pieces).
#[cfg(vx)]
fn traces(s: &Segments, old: usize, subpaths: &[(Vec<kurbo::PathSeg>, bool)]) {
    let mut next = old;
    for (segs, closed) in subpaths {
        let first = SegIdx(next);
        let mut count = 0;
        let mut cur: Option<SegIdx> = None;
        for input in segs {
            let c = input.to_cubic();
            let scale = [c.p0, c.p1, c.p2, c.p3].iter().map(|p| p.x.abs().max(p.y.abs())).fold(1.0, f64::max);
            let mut t = 0.0;
            let mut pos = c.p0;
            // take pieces while they belong to this input piece
            loop {
                let cand = match cur { None => Some(first), Some(i) => s.contour_next(i) };
                let Some(i) = cand.filter(|i| i.0 < s.len() && count < s.len() && !(cur.is_some() && *i == first)) else { break };
                if i.0 < old || s.input_segs[i] != *input { break }
                let (t0, t1) = s.split_from_predecessor[i];
                if !(t0 >= t && t1 > t0 && t1 <= 1.0) { break }
                let (a, b) = (s.oriented_start(i).to_kurbo(), s.oriented_end(i).to_kurbo());
                assert!(near(a, pos, scale) || near(a, input.eval(t0), scale) && near(input.eval(t0), pos, scale * 1e3), "{i:?} starts at {a:?}, the path is at {pos:?}");
                assert!(near(a, input.eval(t0), scale) && near(b, input.eval(t1), scale), "{i:?} runs from {a:?} to {b:?} but its range {t0}..{t1} of {input:?} from {:?} to {:?}", input.eval(t0), input.eval(t1));
                // the piece runs along the input, in its direction
                let k = s[i].to_kurbo_cubic();
                let up = !s.positively_oriented(i);
                for j in 0..=8 {
                    let u = j as f64 / 8.0;
                    let p = k.eval(if up { 1.0 - u } else { u });
                    let q = input.eval(t0 + (t1 - t0) * u);
                    if s[i].is_horizontal() {
                        assert!((p.y - q.y).abs() <= 1e-9 * scale);
                    } else {
                        assert!((p - q).hypot() <= 1e-6 * scale, "{i:?} is at {p:?} where {input:?} is at {q:?}");
                    }
                }
                cur = Some(i);
                count += 1;
                next = next.max(i.0 + 1);
                t = t1;
                pos = b;
                if t >= 1.0 { break }
            }
            // whatever was left out is negligible
            assert!(near(pos, c.p3, scale * 1e3), "the store stops at {pos:?} (parameter {t}) of {input:?}");
        }
        assert!(next == old || count > 0 || true);
        if let Some(l) = cur {
            let a = s.oriented_start(first);
            if *closed {
                assert!(s.contour_next(l) == Some(first), "the contour of {first:?} is closed: its last piece {l:?} is followed by {:?}", s.contour_next(l));
                assert!(s.oriented_end(l) == a);
            } else {
                assert!(s.contour_next(l).is_none() && s.contour_prev(first).is_none(), "the open path {first:?}..{l:?} is not closed");
            }
        }
        assert!(next - first.0 == count, "pieces {first:?}.. and the {count} linked ones agree");
    }
    assert!(next == s.len(), "pieces beyond the path: {} of {}", s.len() - next, s.len());
}
#[cfg(vx)]
fn polyline(pts: &[(f64, f64)], closed: bool) -> Vec<kurbo::PathSeg> {
    let p: Vec<KPoint> = pts.iter().map(|p| KPoint::new(p.0, p.1)).collect();
    if p.len() <= 1 { return Vec::new() }
    let mut v: Vec<kurbo::PathSeg> = p.windows(2).map(|w| kurbo::Line::new(w[0], w[1]).into()).collect();
    if closed { v.push(kurbo::Line::new(p[p.len() - 1], p[0]).into()); }
    v
}
#[cfg(vx)]
fn split(p: &kurbo::BezPath) -> Vec<(Vec<kurbo::PathSeg>, bool)> {
    let mut subs: Vec<Vec<kurbo::PathEl>> = Vec::new();
    for e in p.elements() {
        if matches!(e, kurbo::PathEl::MoveTo(_)) { subs.push(vec![]); }
        subs.last_mut().unwrap().push(*e);
    }
    subs.into_iter().map(|e| {
        let v: Vec<kurbo::PathSeg> = kurbo::segments(e.into_iter()).collect();
        let closed = v.is_empty() || v[0].start() == v[v.len() - 1].end();
        // pieces without any extent are left out
        (v.into_iter().filter(|s| { let c = s.to_cubic(); !(c.p0 == c.p3 && (matches!(s, kurbo::PathSeg::Line(_)) || (c.p1.y == c.p0.y && c.p2.y == c.p0.y))) }).collect(), closed)
    }).collect()
}
#[cfg(vx)]
pub fn store_traces_paths() {
    let mut s = Segments::default();
    for _ in 0..1 + vx::below(4) {
        let old = s.len();
        let g = 3 + vx::below(5);
        let free = coin(2);
        let pts = |min: u64| -> Vec<(f64, f64)> { (0..min + vx::below(5)).map(|_| if free { (vx::unit() * g as f64, vx::unit() * g as f64) } else { gp(g) }).collect() };
        match vx::below(6) {
            0 => { let p = pts(0); vx::note(format!("points {p:?}")); s.add_points(p.iter().copied()); store_ok(&s); traces(&s, old, &[(polyline(&p, false), false)]); }
            1 => { let p = pts(0); vx::note(format!("closed {p:?}")); s.add_closed_polyline(p.iter().copied()); store_ok(&s); traces(&s, old, &[(polyline(&p, true), true)]); }
            2 => {
                let (p, q) = (pts(2), pts(2));
                vx::note(format!("closed {p:?} and {q:?}"));
                s.add_closed_polylines([p.clone(), q.clone()]);
                store_ok(&s);
                traces(&s, old, &[(polyline(&p, true), true), (polyline(&q, true), true)]);
            }
            3 => {
                let mut p = kurbo::BezPath::new();
                let v = pts(1);
                p.move_to(v[0]);
                for w in v[1..].chunks(3) { match w.len() { 1 => p.line_to(w[0]), 2 => p.quad_to(w[0], w[1]), _ => p.curve_to(w[0], w[1], w[2]) } }
                if coin(3) { p.close_path(); }
                vx::note(format!("path {}", svg(&p)));
                s.add_non_closed_bez_path(&p).unwrap();
                store_ok(&s);
                traces(&s, old, &split(&p));
            }
            _ => { let p = shape(coin(2)); vx::note(format!("path {}", svg(&p))); s.add_bez_path(&p).unwrap(); store_ok(&s); traces(&s, old, &split(&p)); }
        }
    }
}
