//@into src/lib.rs
//@native nesting_polygons iters=10000 thorough=25000
//@native nesting_curves iters=2400 thorough=6000
// Contract of the hierarchy of contours.  Bounded execution.
#[cfg(vx)]
use crate::vx_gen::*;
#[cfg(vx)]
fn nested(curves: bool) {
    let (_, _, eps, _, _, out) = make(curves);
    let cs: Vec<_> = out.contours().collect();
    let groups = out.grouped();
    // every contour is in exactly one group
    let mut group_of = vec![None; cs.len()];
    let all: Vec<topology::ContourIdx> = groups.iter().flatten().copied().collect();
    assert!(all.len() == cs.len(), "the groups hold {} of {} contours", all.len(), cs.len());
    let of = |i: topology::ContourIdx| cs.iter().position(|c| std::ptr::eq(*c, &out[i])).expect("an index of the collection");
    let ids: Vec<usize> = all.iter().map(|i| of(*i)).collect();
    for (g, gs) in groups.iter().enumerate() {
        for (k, i) in gs.iter().enumerate() {
            let me = of(*i);
            assert!(group_of[me].is_none(), "contour {me} is listed twice");
            group_of[me] = Some(g);
            match cs[me].parent {
                None => assert!(k == 0, "only the first of a group has no parent (group {g}, contour {me})"),
                Some(p) => assert!(gs[..k].contains(&p), "the parent of contour {me} comes earlier in its group"),
            }
        }
    }
    let margin = 1e3 * eps;
    let fs: Vec<_> = cs.iter().map(|c| flat(&c.path)).collect();
    let area = |f: &[(kurbo::Point, kurbo::Point)]| f.iter().map(|(p, q)| p.to_vec2().cross(q.to_vec2())).sum::<f64>() / 2.0;
    let perimeter = |f: &[(kurbo::Point, kurbo::Point)]| f.iter().map(|(p, q)| (*q - *p).hypot()).sum::<f64>();
    for (k, c) in cs.iter().enumerate() {
        assert!(c.outer == c.parent.map_or(true, |p| !out[p].outer), "contour {k} is outer exactly if its parent isn't");
        let ar = area(&fs[k]);
        if ar.abs() > 20.0 * eps * (1.0 + perimeter(&fs[k])) {
            assert!((ar < 0.0) == c.outer, "contour {k}: outer contours run counter-clockwise (y down), holes clockwise; outer = {}, area = {ar}", c.outer);
            if let Some(p) = c.parent {
                let pf = &fs[of(p)];
                // its points are inside its parent or near it
                for (a, b) in &fs[k] {
                    for q in [*a, a.midpoint(*b)] {
                        assert!(winding(pf, q) != 0 || dist(pf, q) <= margin.min(0.05), "contour {k} is not inside its parent {p:?}: point {q:?}");
                    }
                }
            }
        }
    }
    // the contours together: winding number 1 (y down: here -1) or 0
    let everything: Vec<_> = fs.iter().flatten().copied().collect();
    for _ in 0..40 {
        let q = probe(&everything, 20.0 * eps);
        if !everything.is_empty() && dist(&everything, q) < 10.0 * eps { continue }
        let w = winding(&everything, q);
        assert!(w == 0 || w == INSIDE, "point {q:?} is enclosed {w} times");
        // the deepest contour around a point is outer exactly if the point is in the set
        if let Some(k) = (0..cs.len()).rev().filter(|k| winding(&fs[*k], q) != 0).max_by_key(|k| depth(&out, &cs, *k)) {
            assert!(cs[k].outer == (w != 0), "the innermost contour around {q:?} is {} outer", if cs[k].outer { "" } else { "not" });
        }
    }
}
#[cfg(vx)]
const INSIDE: i32 = 1;
#[cfg(vx)]
fn depth(out: &topology::Contours, cs: &[&topology::Contour], mut k: usize) -> usize {
    let mut d = 0;
    while let Some(p) = cs[k].parent { d += 1; assert!(d <= cs.len(), "the parents form a cycle"); k = cs.iter().position(|c| std::ptr::eq(*c, &out[p])).unwrap(); }
    d
}
#[cfg(vx)]
pub fn nesting_polygons() { nested(false) }
#[cfg(vx)]
pub fn nesting_curves() { nested(true) }
