//@into src/lib.rs
//@native regions_polygons iters=6000 thorough=30000
//@native regions_curves iters=1600 thorough=8000
//@native regions_bundles iters=2000 thorough=10000
// Contract of the boolean operations: away from the input's outlines, a point is in the result exactly if the
// operation and the fill rule say so (bounded execution; the decision itself is proved in `truth`).
#[cfg(vx)]
use crate::vx_gen::*;
#[cfg(vx)]
fn member(rule: FillRule, w: i32) -> bool {
    match rule { FillRule::EvenOdd => w.rem_euclid(2) == 1, FillRule::NonZero => w != 0 }
}
#[cfg(vx)]
fn expected(op: BinaryOp, a: bool, b: bool) -> bool {
    match (op, a, b) {
        (BinaryOp::Union, false, false) => false,
        (BinaryOp::Union, _, _) => true,
        (BinaryOp::Intersection, true, true) => true,
        (BinaryOp::Intersection, _, _) => false,
        (BinaryOp::Xor, true, false) | (BinaryOp::Xor, false, true) => true,
        (BinaryOp::Xor, _, _) => false,
        (BinaryOp::Difference, true, false) => true,
        (BinaryOp::Difference, _, _) => false,
    }
}
#[cfg(vx)]
fn go(curves: bool) {
    let (a, b) = (shape(curves), if coin(12) { kurbo::BezPath::new() } else { shape(curves) });
    let (a, b) = if coin(12) { (b, a) } else { (a, b) };
    let eps = match vx::below(4) { 0 => None, 1 => Some(1e-6), 2 => Some(1e-4), _ => Some(1e-2) };
    check(&a, &b, eps)
}
/// Several curves between the same points.
#[cfg(vx)]
pub fn regions_bundles() {
    let eps = match vx::below(4) { 0 => None, 1 => Some(1e-6), 2 => Some(1e-4), _ => Some(1e-2) };
    let (mut a, mut b) = (kurbo::BezPath::new(), kurbo::BezPath::new());
    bundle(&mut a, eps.unwrap_or(1e-6));
    if coin(2) { kurbo::Shape::to_path(&kurbo::Rect::new(-4.5, -1.0, -4.0, 12.0), 1e-3).into_iter().for_each(|e| a.push(e)) }
    if coin(3) { grid_rect(&mut b, 6) } else if coin(3) { bundle(&mut b, eps.unwrap_or(1e-6)) }
    let (a, b) = (place(a), place(b));
    check(&a, &b, eps)
}
#[cfg(vx)]
fn check(a: &kurbo::BezPath, b: &kurbo::BezPath, eps: Option<f64>) {
    vx::note(format!("A = {}  B = {}", svg(a), svg(b)));
    let (fa, fb) = (flat(a), flat(b));
    let mut all = fa.clone();
    all.extend(fb.iter().copied());
    let is_curved = curved(a) || curved(b);
    let margin = 8.0 * eps.unwrap_or(1e-6) + if is_curved { 4e-3 } else { 0.0 };
    let mut pts = Vec::new();
    for _ in 0..60 {
        let q = probe(&all, margin);
        if dist(&all, q) > margin { pts.push((q, winding(&fa, q), winding(&fb, q))); }
    }
    for rule in [FillRule::EvenOdd, FillRule::NonZero] {
        for op in [BinaryOp::Union, BinaryOp::Intersection, BinaryOp::Difference, BinaryOp::Xor] {
            let out = match eps { None => binary_op(a, b, rule, op), Some(e) => binary_op_with_eps(a, b, rule, op, e) }.unwrap();
            let fs: Vec<_> = out.contours().map(|c| flat(&c.path)).collect();
            for (q, wa, wb) in &pts {
                let w: i32 = fs.iter().map(|f| winding(f, *q)).sum();
                let want = expected(op, member(rule, *wa), member(rule, *wb));
                assert!((w != 0) == want, "{rule:?} {op:?} eps {eps:?}: point {q:?} has windings {wa},{wb}: should be {}, is {}",
                    if want { "inside" } else { "outside" }, if w != 0 { "inside" } else { "outside" });
            }
        }
    }
}
#[cfg(vx)]
pub fn regions_polygons() { go(false) }
#[cfg(vx)]
pub fn regions_curves() { go(true) }
