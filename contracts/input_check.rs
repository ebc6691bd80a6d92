//@into src/lib.rs
//@kani input_gate unwind=6 stub=crate::binary_op_with_eps=>stub_op stub=kurbo::BezPath::is_nan=>stub_nan stub=kurbo::BezPath::is_finite=>stub_finite stub=<kurbo::BezPath~as~kurbo::Shape>::bounding_box=>stub_bbox noreplay=1 note="binary_op, validation, all paths: kurbo's is_nan, is_finite and bounding_box and the callee binary_op_with_eps are replaced by their contracts (any answer allowed by them)"
//@kani input_tolerance unwind=6 stub=crate::binary_op_with_eps=>stub_op stub=kurbo::BezPath::is_nan=>stub_nan stub=kurbo::BezPath::is_finite=>stub_finite stub=<kurbo::BezPath~as~kurbo::Shape>::bounding_box=>stub_bbox noreplay=1 bounded="the second operand is a single point" note="binary_op, tolerance, all paths: kurbo's is_nan, is_finite and bounding_box and the callee binary_op_with_eps are replaced by their contracts (any answer allowed by them)"
//@native input_errors iters=3000
// Contract of the input validation.
use kurbo::BezPath;

#[cfg(kani)]
#[derive(Clone, Copy)]
struct Oracle { nan: [bool; 2], finite: [bool; 2], rect: [kurbo::Rect; 2], asked_nan: [bool; 2], asked_finite: [bool; 2], asked_rect: [bool; 2], eps: Option<f64> }
#[cfg(kani)]
static mut OR: Oracle = Oracle { nan: [false; 2], finite: [true; 2], rect: [kurbo::Rect::ZERO; 2], asked_nan: [false; 2], asked_finite: [false; 2], asked_rect: [false; 2], eps: None };
// Which operand is it?  (The first has one element, the second two.)
#[cfg(kani)]
fn which(p: &BezPath) -> usize { p.elements().len() - 1 }
#[cfg(kani)]
fn stub_nan(p: &BezPath) -> bool { unsafe { OR.asked_nan[which(p)] = true; OR.nan[which(p)] } }
#[cfg(kani)]
fn stub_finite(p: &BezPath) -> bool { unsafe { OR.asked_finite[which(p)] = true; OR.finite[which(p)] } }
#[cfg(kani)]
fn stub_bbox(p: &BezPath) -> kurbo::Rect { unsafe { OR.asked_rect[which(p)] = true; OR.rect[which(p)] } }
#[cfg(kani)]
fn stub_op(_a: &BezPath, _b: &BezPath, _r: FillRule, _o: BinaryOp, eps: f64) -> Result<topology::Contours, Error> {
    unsafe { OR.eps = Some(eps) };
    Ok(topology::Contours::default())
}
#[cfg(kani)]
pub fn input_gate() { gate(false) }
#[cfg(kani)]
pub fn input_tolerance() { gate(true) }
#[cfg(kani)]
fn gate(tolerance: bool) {
    let (mut a, mut b) = (BezPath::new(), BezPath::new());
    a.move_to((0.0, 0.0));
    b.move_to((0.0, 0.0));
    b.close_path();
    let mut or = unsafe { OR };
    let mut m = 0.0f64;
    for k in 0..2 {
        or.nan[k] = !tolerance && vx::any::<bool>();
        or.finite[k] = tolerance || (!or.nan[k] && vx::any::<bool>());
        let mut r: [f64; 4] = vx::any();
        if tolerance && k == 1 { r = [r[0]; 4] }
        // the bounding box of finite coordinates can still overflow; it is never NaN
        vx::assume(r[0] <= r[2] && r[1] <= r[3]);
        or.rect[k] = kurbo::Rect::new(r[0], r[1], r[2], r[3]);
        for x in r { if x.abs() > m { m = x.abs() } }
    }
    unsafe { OR = or };
    let r = binary_op(&a, &b, FillRule::EvenOdd, BinaryOp::Union);
    let o = unsafe { OR };
    // a source that validates in another way is not decided here
    vx::assume(o.asked_nan[0] || o.asked_nan[1] || o.asked_finite[0] || o.asked_finite[1]);
    if o.nan[0] || o.nan[1] {
        assert!(matches!(r, Err(Error::NaN)), "NaN coordinates in either operand are reported");
        assert!(o.eps.is_none());
    } else if !o.finite[0] || !o.finite[1] {
        assert!(matches!(r, Err(Error::Infinity)), "infinite coordinates in either operand are reported");
        assert!(o.eps.is_none());
    } else if o.asked_rect[0] && o.asked_rect[1] {
        if m.is_infinite() {
            assert!(matches!(r, Err(Error::Infinity)), "an outline that overflows is reported");
        } else {
            assert!(r.is_ok());
            assert!(o.eps.is_some(), "valid input is processed");
            if !tolerance { return }
            // 64 * f64::EPSILON is 2^-46: the product is a subtraction in the exponent
            let want = if m < 70368744.0 { 1e-6f64.to_bits() } else { m.to_bits() - (46 << 52) };
            let eps = o.eps.unwrap();
            let off = eps.to_bits().wrapping_sub(want) as i64;
            assert!(eps > 0.0 && off.abs() <= 1 << 45, "the tolerance follows the size of the coordinates");
        }
    }
}

// Bounded execution: a valid pair of operands, then one coordinate spoiled or one subpath left open.
#[cfg(vx)]
pub fn input_errors() {
    use crate::vx_gen::*;
    use kurbo::PathEl::*;
    let (mut a, mut b) = (shape(true), shape(true));
    let rule = if vx::any() { FillRule::EvenOdd } else { FillRule::NonZero };
    let op = [BinaryOp::Union, BinaryOp::Intersection, BinaryOp::Difference, BinaryOp::Xor][vx::below(4) as usize];
    let kind = vx::below(4);
    let bad = if kind == 0 { f64::NAN } else if coin(2) { f64::INFINITY } else { f64::NEG_INFINITY };
    let second = coin(2);
    let victim = if second { &mut b } else { &mut a };
    match kind {
        0 | 1 => {
            let n = victim.elements().len();
            let k = loop { let k = vx::below(n as u64) as usize; if !matches!(victim.elements()[k], ClosePath) { break k } };
            let spoil = |p: &mut kurbo::Point| if coin(2) { p.x = bad } else { p.y = bad };
            match &mut victim.elements_mut()[k] {
                MoveTo(p) | LineTo(p) => spoil(p),
                QuadTo(p, q) => spoil(if coin(2) { p } else { q }),
                CurveTo(p, q, r) => spoil(match vx::below(3) { 0 => p, 1 => q, _ => r }),
                ClosePath => {}
            }
        }
        2 => {
            // an open subpath: three points, not returning to the first, without a closing element
            let mut q = BezPath::new();
            let (s, t) = (gp(5), gp(5));
            let end = (s.0 + 1.0 + grid(2), t.1);
            let mut o = BezPath::new();
            o.move_to(s);
            o.line_to(t);
            o.line_to(end);
            if coin(2) { q.extend(o.iter()); q.extend(victim.iter()); } else { q.extend(victim.iter()); q.extend(o.iter()); }
            *victim = q;
        }
        _ => {}
    }
    vx::note(format!("{rule:?} {op:?} A = {}  B = {}", svg(&a), svg(&b)));
    let r = binary_op(&a, &b, rule, op);
    match kind {
        0 => assert!(matches!(r, Err(Error::NaN)), "a NaN coordinate must be reported"),
        1 => assert!(matches!(r, Err(Error::Infinity)), "an infinite coordinate must be reported"),
        2 => assert!(matches!(r, Err(Error::NonClosedPath(_))), "an open path must be reported"),
        _ => assert!(r.is_ok(), "closed finite paths are accepted"),
    }
}
