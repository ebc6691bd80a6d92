//@into src/lib.rs
//@native outlines_polygons iters=7500 thorough=25000
//@native outlines_curves iters=1800 thorough=6000
//@native outlines_known
// Contract of the outlines of the result: C03 (closed, continuous, finite, made of pieces of the inputs' outlines)
// and C04 (which contours are outer, which contour contains which, grouping, orientation).  Bounded execution.
#[cfg(vx)]
use crate::vx_gen::*;
// C03
#[cfg(vx)]
fn closed(a: &kurbo::BezPath, b: &kurbo::BezPath, eps: f64, out: &topology::Contours) {
    use kurbo::PathEl::*;
    let mut all = flat(a);
    all.extend(flat(b));
    let margin = 8.0 * eps + if curved(a) || curved(b) { 4e-3 } else { 0.0 };
    for c in out.contours() {
        let e = c.path.elements();
        assert!(e.len() >= 3, "an outline has pieces: {}", svg(&c.path));
        let MoveTo(first) = e[0] else { panic!("an outline starts with its first point: {}", svg(&c.path)) };
        assert!(matches!(e[e.len() - 1], ClosePath), "an outline is closed: {}", svg(&c.path));
        let mut last = first;
        for el in &e[1..e.len() - 1] {
            match el {
                MoveTo(_) | ClosePath => panic!("an outline is one closed path: {}", svg(&c.path)),
                LineTo(p) => last = *p,
                QuadTo(p, q) => { assert!(p.is_finite()); last = *q }
                CurveTo(p, q, r) => { assert!(p.is_finite() && q.is_finite()); last = *r }
            }
            assert!(last.is_finite(), "coordinates are finite: {}", svg(&c.path));
        }
        assert!(last == first, "an outline ends where it started: {}", svg(&c.path));
        for s in c.path.segments() {
            use kurbo::ParamCurve;
            for k in 0..5 {
                let p = s.eval(k as f64 / 4.0);
                let d = dist(&all, p);
                assert!(d <= margin, "outline point {p:?} is {d} away from the inputs' outlines");
            }
        }
    }
}
#[cfg(vx)]
fn random(curves: bool) {
    let (a, b, eps, _, _, out) = make(curves);
    closed(&a, &b, eps, &out)
}
#[cfg(vx)]
pub fn outlines_polygons() { random(false) }
#[cfg(vx)]
pub fn outlines_curves() { random(true) }
/// Inputs on which the outline is known to leave the inputs' outlines (KNOWN_FINDINGS).
#[cfg(vx)]
pub fn outlines_known() {
    vx::case(|| "known-flat-end".to_string(), true, || {
        let a = kurbo::BezPath::from_svg("M5.703859790417269,6.171772861207694 L3.269350782219478,4.545094856102163 L4.186268914446425,3.0456192719641155 L1.7409947171444875,0.31494472096365556 L1.5639023920259958,6.229933074669684 L4.111615238841473,3.0470398122130735 Z M1.7466193618641557,4.237715414601345 L3.905770059054637,2.3624801700770344 L0.9694240222081191,1.6998951821498576 L1.7466193618641557,4.237715414601345 Z M1.2554836789012302,1.218647863207699 L0.3228505345322432,3.5933079067719893 L3.459096823434495,2.0644838779579247 L2.942652861860839,1.4736164191564174 L2.3788024598334805,2.5559130795096308 L3.5588138478721616,1.929488982442367 L0.09370040023775239,0.9233674975762756 L1.0243925375801881,1.3900260766425 L1.2554836789012302,1.218647863207699 Z").unwrap();
        let b = kurbo::BezPath::from_svg("M1,2 C2,5 3,6 0,2 C4,3 7,3 3,3 L3,6 C7,1 7,4 1,2 Z").unwrap();
        closed(&a, &b, 0.01, &binary_op_with_eps(&a, &b, FillRule::NonZero, BinaryOp::Union, 0.01).unwrap());
    });
}
