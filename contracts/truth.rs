//@into src/lib.rs
//@kani truth unwind=4 stub=crate::topology::Topology::<crate::topology::BinaryWindingNumber>::from_paths_binary=>stub_topology stub=crate::topology::Topology::contours=>crate::topology::Topology::vx_contours noreplay=1 note="binary_op_with_eps: which winding numbers are inside, for every pair of 32-bit winding numbers, fill rule and operation; building the topology and walking its contours are replaced by stubs"
//@native truth_regions
// Contract of the operations' decision: the region with windings (a, b) belongs to the result exactly if the fill
// rule and the operation say so.
#[cfg(kani)]
use crate::topology::*;

pub fn want(rule: FillRule, op: BinaryOp, a: i32, b: i32) -> bool {
    // odd, by the last binary digit (also for negative numbers)
    let m = |w: i32| match rule { FillRule::EvenOdd => w & 1 == 1, FillRule::NonZero => w > 0 || w < 0 };
    match op {
        BinaryOp::Union => m(a) | m(b),
        BinaryOp::Intersection => m(a) & m(b),
        BinaryOp::Difference => m(a) & !m(b),
        BinaryOp::Xor => m(a) ^ m(b),
    }
}

#[cfg(kani)]
pub static mut CASE: (i32, i32, bool, bool) = (0, 0, false, false);
#[cfg(kani)]
fn stub_topology(_a: &kurbo::BezPath, _b: &kurbo::BezPath, _eps: f64) -> Result<Topology<BinaryWindingNumber>, NonClosedPath> {
    Ok(crate::topology::vx_empty_topology::empty())
}
#[cfg(kani)]
pub fn truth() {
    let (a, b): (i32, i32) = (vx::any(), vx::any());
    let rule = if vx::any() { FillRule::EvenOdd } else { FillRule::NonZero };
    let op = match vx::any::<u8>() % 4 { 0 => BinaryOp::Union, 1 => BinaryOp::Intersection, 2 => BinaryOp::Difference, _ => BinaryOp::Xor };
    unsafe { CASE = (a, b, want(rule, op, a, b), false) };
    let p = kurbo::BezPath::new();
    let r = binary_op_with_eps(&p, &p, rule, op, vx::any());
    assert!(r.is_ok());
    assert!(unsafe { CASE.3 }, "the result is decided by the winding numbers");
}

// Bounded execution: every pair of windings -4..=4 realised by nested squares.
#[cfg(vx)]
pub fn truth_regions() {
    let nest = |w: i32| {
        let mut p = kurbo::BezPath::new();
        for k in 0..w.unsigned_abs() {
            let r = kurbo::Rect::new(-1.0 - k as f64, -1.0 - k as f64, 1.0 + k as f64, 1.0 + k as f64);
            let mut q = kurbo::Shape::to_path(&r, 1e-3);
            if w < 0 { q = q.reverse_subpaths() }
            p.extend(q);
        }
        p
    };
    for a in -4..=4 {
        for b in -4..=4 {
            for rule in [FillRule::EvenOdd, FillRule::NonZero] {
                for (k, op) in [BinaryOp::Union, BinaryOp::Intersection, BinaryOp::Difference, BinaryOp::Xor].into_iter().enumerate() {
                    vx::case(|| format!("windings {a} and {b} at the centre of nested squares, {rule:?} {op:?}"), true, || {
                        let out = binary_op(&nest(a), &nest(b), rule, op).unwrap();
                        let w: i32 = out.contours().map(|c| kurbo::Shape::winding(&c.path, kurbo::Point::new(0.01, 0.02))).sum();
                        let want = want(rule, [BinaryOp::Union, BinaryOp::Intersection, BinaryOp::Difference, BinaryOp::Xor][k], a, b);
                        assert!((w != 0) == want, "the centre should be {} the result", if want { "in" } else { "outside" });
                    });
                }
            }
        }
    }
}
