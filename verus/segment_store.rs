#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_braces, non_snake_case)]
use vstd::prelude::*;
use vstd::multiset::Multiset;
verus! {

// ---------------------------------------------------------------- the code under contract
//@src src/segments.rs
#[derive(Clone, Copy, PartialEq, Eq)]
//@item struct SegIdx
//@item struct SegVec
//@item struct Segments
//@item struct NonClosedPath
//@src src/geom.rs
#[derive(Clone, Copy)]
//@item struct Point
#[derive(Clone, Copy)]
//@item struct Segment
#[derive(Clone, Copy)]
//@item enum SegmentInner

type Rec = (f64, SegIdx);
mod fl {
use super::*;
//@include f64_order.rs
// Verus does not know that a field of type f64 holds an f64; this says no more than that.
pub(crate) broadcast axiom fn typed_0(e: Rec) ensures #[trigger] e.0 == e.0, exists|x: f64| x == e.0 && #[trigger] rank(x) == rank(x);
pub(crate) broadcast axiom fn typed_y(e: Point) ensures #[trigger] e.y == e.y, exists|x: f64| x == e.y && #[trigger] rank(x) == rank(x);
pub(crate) broadcast group doubles { f64_order, typed_0, typed_y }
}
use fl::*;
broadcast use fl::doubles;

// ---------------------------------------------------------------- dependencies
mod kurbo {
    use super::*;
    #[derive(Clone, Copy)]
    pub(crate) struct Point { pub(crate) x: f64, pub(crate) y: f64 }
    #[derive(Clone, Copy)]
    pub(crate) struct Line { pub(crate) p0: Point, pub(crate) p1: Point }
    #[derive(Clone, Copy)]
    pub(crate) struct QuadBez { pub(crate) p0: Point, pub(crate) p1: Point, pub(crate) p2: Point }
    #[derive(Clone, Copy)]
    pub(crate) struct CubicBez { pub(crate) p0: Point, pub(crate) p1: Point, pub(crate) p2: Point, pub(crate) p3: Point }
    #[derive(Clone, Copy)]
    pub(crate) enum PathSeg { Line(Line), Quad(QuadBez), Cubic(CubicBez) }
    #[verifier::external_body]
    pub(crate) struct BezPath {}
}
use kurbo::{BezPath, PathSeg};
spec fn pt(p: kurbo::Point) -> Point { Point { y: p.y, x: p.x } }
spec fn kp(p: Point) -> kurbo::Point { kurbo::Point { x: p.x, y: p.y } }
fn point(p: kurbo::Point) -> (r: Point) ensures r == pt(p) { Point { y: p.y, x: p.x } }
impl Point { fn to_kurbo(self) -> (r: kurbo::Point) ensures r == kp(self) { kurbo::Point { x: self.x, y: self.y } } }
fn line(p0: kurbo::Point, p1: kurbo::Point) -> (r: kurbo::Line) ensures r == (kurbo::Line { p0, p1 }) { kurbo::Line { p0, p1 } }
/// The order of points: total, by height and then to the right (C08: Kani, all points).
uninterp spec fn place(p: Point) -> int;
uninterp spec fn same_point(p: kurbo::Point, q: kurbo::Point) -> bool;
#[verifier::external_body]
fn before(p: &Point, q: &Point) -> (r: bool) ensures r == (place(*p) < place(*q)) { unimplemented!() }
#[verifier::external_body]
fn upto(p: Point, q: Point) -> (r: bool) ensures r == (place(p) <= place(q)) { unimplemented!() }
#[verifier::external_body]
fn differ(p: Point, q: Point) -> (r: bool) ensures r == (place(p) != place(q)) { unimplemented!() }
#[verifier::external_body]
fn same(p: kurbo::Point, q: kurbo::Point) -> (r: bool) ensures r == same_point(p, q) { unimplemented!() }
/// (a.y, a.x) <= (b.y, b.x)
#[verifier::external_body]
fn upto4(ay: f64, ax: f64, by: f64, bx: f64) -> (r: bool) ensures r == (place(Point { y: ay, x: ax }) <= place(Point { y: by, x: bx })) { unimplemented!() }

// slices
#[verifier::external_body]
fn pairs<T: Copy>(xs: &Vec<T>) -> (r: Vec<(&T, &T)>)
    ensures r@.len() == (if xs@.len() == 0 { 0 } else { xs@.len() - 1 }), forall|k: int| 0 <= k < r@.len() ==> *(#[trigger] r@[k]).0 == xs@[k] && *r@[k].1 == xs@[k + 1]
{ unimplemented!() }
#[verifier::external_body]
fn cyclic_pairs<T: Copy>(xs: &Vec<T>) -> (r: Vec<(&T, &T)>)
    ensures r@.len() == xs@.len(), forall|k: int| 0 <= k < r@.len() ==> *(#[trigger] r@[k]).0 == xs@[k] && *r@[k].1 == xs@[if k + 1 < xs@.len() { k + 1 } else { 0 }]
{ unimplemented!() }

// the pieces of a curve (C12) and the segments of a path
#[derive(Clone, Copy)]
struct MonotonicPiece { start_t: f64, end_t: f64, piece: kurbo::CubicBez }
uninterp spec fn pieces(c: kurbo::CubicBez) -> Seq<MonotonicPiece>;
uninterp spec fn cubic_of(s: PathSeg) -> kurbo::CubicBez;
uninterp spec fn parts(p: &BezPath) -> Seq<Seq<PathSeg>>;
#[verifier::external_body]
fn monotonic_pieces(c: kurbo::CubicBez) -> (r: Vec<MonotonicPiece>) ensures r@ == pieces(c) { unimplemented!() }
#[verifier::external_body]
fn to_cubic(s: PathSeg) -> (r: kurbo::CubicBez) ensures r == cubic_of(s) { unimplemented!() }
#[verifier::external_body]
fn subpaths_of(p: &BezPath) -> (r: Vec<Vec<PathSeg>>) ensures r@.len() == parts(p).len(), forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k])@ == parts(p)[k] { unimplemented!() }

impl<T> SegVec<T> {
    fn len(&self) -> (r: usize) ensures r == self.inner@.len() { self.inner.len() }
    fn at(&self, i: SegIdx) -> (r: &T) requires i.0 < self.inner@.len() ensures *r == self.inner@[i.0 as int] { &self.inner[i.0] }
    fn set(&mut self, i: SegIdx, x: T) requires i.0 < old(self).inner@.len() ensures final(self).inner@ == old(self).inner@.update(i.0 as int, x) { self.inner.set(i.0, x); }
    fn set_last(&mut self, x: T) requires 0 < old(self).inner@.len() ensures final(self).inner@ == old(self).inner@.update(old(self).inner@.len() - 1, x) { let n = self.inner.len(); self.inner.set(n - 1, x); }
    fn push(&mut self, x: T) ensures final(self).inner@ == old(self).inner@.push(x) { self.inner.push(x); }
}

// ---------------------------------------------------------------- segments
spec fn top(s: Segment) -> Point { match s.inner { SegmentInner::Line { p0, p1 } => p0, SegmentInner::Cubic { p0, p1, p2, p3 } => p0 } }
spec fn bottom(s: Segment) -> Point { match s.inner { SegmentInner::Line { p0, p1 } => p1, SegmentInner::Cubic { p0, p1, p2, p3 } => p3 } }
spec fn flat(s: Segment) -> bool { s.inner is Line && rank(top(s).y) == rank(bottom(s).y) }
impl Segment {
    //@fn Segment::straight
    //@sub debug_assert!\([^;]*; ==> {}
    //@ret r
    requires place(start) <= place(end)
    ensures top(r) == start, bottom(r) == end
    //@end
    //@fn Segment::monotonic_cubic
    //@ret r
    requires place(p0) <= place(p3)
    ensures top(r) == p0, bottom(r) == p3
    //@end
    //@fn Segment::start
    //@ret r
    ensures r == top(*self)
    //@end
    //@fn Segment::end
    //@ret r
    ensures r == bottom(*self)
    //@end
    //@fn Segment::is_horizontal
    //@sub debug_assert_ne!\([^;]*; ==> {}
    //@ret r
    requires num(top(*self).y), num(bottom(*self).y)
    ensures r == flat(*self)
    //@end
    #[verifier::external_body]
    fn at_y(&self, y: f64) -> (r: f64) ensures num(r) { unimplemented!() }
}

// ---------------------------------------------------------------- the abstraction
/// What the store says about one segment: where it goes from and to, the input it came from and its part of that.
struct Stored { from: Point, to: Point, input: PathSeg, part: (f64, f64) }
spec fn stored(s: &Segments, i: int) -> Stored {
    let (a, b) = (top(s.segs.inner@[i]), bottom(s.segs.inner@[i]));
    let fwd = s.orientation.inner@[i];
    Stored { from: if fwd { a } else { b }, to: if fwd { b } else { a }, input: s.input_segs.inner@[i], part: s.split_from_predecessor.inner@[i] }
}
spec fn next(s: &Segments, i: int) -> Option<SegIdx> { s.contour_next.inner@[i] }
spec fn prev(s: &Segments, i: int) -> Option<SegIdx> { s.contour_prev.inner@[i] }
/// Following and going back undo each other.
spec fn linked(s: &Segments, n: int, i: int) -> bool {
    &&& next(s, i) is Some ==> (next(s, i)->0).0 < n && prev(s, (next(s, i)->0).0 as int) == Some(SegIdx(i as usize))
    &&& prev(s, i) is Some ==> (prev(s, i)->0).0 < n && next(s, (prev(s, i)->0).0 as int) == Some(SegIdx(i as usize))
}
spec fn downward(s: &Segments, i: int) -> bool { place(top(s.segs.inner@[i])) <= place(bottom(s.segs.inner@[i])) }
/// Segments a..b form one contour.
spec fn contour(s: &Segments, a: int, b: int, closed: bool) -> bool {
    &&& a < b
    &&& forall|i: int| a <= i < b ==> #[trigger] next(s, i) == (if i + 1 < b { Some(SegIdx((i + 1) as usize)) } else if closed { Some(SegIdx(a as usize)) } else { None })
    &&& forall|i: int| a <= i < b ==> #[trigger] prev(s, i) == (if i > a { Some(SegIdx((i - 1) as usize)) } else if closed { Some(SegIdx((b - 1) as usize)) } else { None })
}
type Segs = Seq<Segment>;
spec fn entrance(s: Segs, i: int) -> Rec { (top(s[i]).y, SegIdx(i as usize)) }
spec fn exit(s: Segs, i: int) -> Rec { (bottom(s[i]).y, SegIdx(i as usize)) }
spec fn entrances(s: Segs, n: int) -> Multiset<Rec> decreases n { if n <= 0 { Multiset::empty() } else { entrances(s, n - 1).insert(entrance(s, n - 1)) } }
spec fn exits(s: Segs, n: int) -> Multiset<Rec> decreases n { if n <= 0 { Multiset::empty() } else if flat(s[n - 1]) { exits(s, n - 1) } else { exits(s, n - 1).insert(exit(s, n - 1)) } }
/// An entry of a list is about one of the segments.
spec fn about(s: Segs, x: Rec) -> bool { num(x.0) && x.1.0 < s.len() }
spec fn heights(s: Segs) -> bool { forall|i: int| 0 <= i < s.len() ==> num((#[trigger] top(s[i])).y) && num(bottom(s[i]).y) }
proof fn lemma_about(s: Segs, n: int, x: Rec)
    requires heights(s), n <= s.len() <= usize::MAX, entrances(s, n).count(x) > 0 || exits(s, n).count(x) > 0
    ensures about(s, x)
    decreases n
{
    if n > 0 {
        let t = top(s[n - 1]);
        if entrances(s, n - 1).count(x) > 0 || exits(s, n - 1).count(x) > 0 { lemma_about(s, n - 1, x); }
    }
}
proof fn lemma_all_about(s: Segs, n: int, l: Seq<Rec>)
    requires heights(s), n <= s.len() <= usize::MAX, l.to_multiset() == entrances(s, n) || l.to_multiset() == exits(s, n)
    ensures forall|x: Rec| #[trigger] l.contains(x) ==> about(s, x)
{
    assert forall|x: Rec| #[trigger] l.contains(x) implies about(s, x) by { l.to_multiset_ensures(); lemma_about(s, n, x); }
}
spec fn height(l: Seq<Rec>, i: int) -> int { rank(l[i].0) }
spec fn sorted(l: Seq<Rec>) -> bool { forall|i: int, j: int| #![trigger height(l, i), height(l, j)] 0 <= i <= j < l.len() ==> height(l, i) <= height(l, j) }
impl Segments {
    spec fn size(&self) -> int { self.segs.inner@.len() as int }
    spec fn even(&self) -> bool {
        let n = self.segs.inner@.len();
        self.contour_prev.inner@.len() == n && self.contour_next.inner@.len() == n && self.orientation.inner@.len() == n && self.split_from_predecessor.inner@.len() == n && self.input_segs.inner@.len() == n && n <= usize::MAX
    }
    spec fn links(&self, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] linked(self, n, i) }
    spec fn downs(&self) -> bool { forall|i: int| 0 <= i < self.size() ==> #[trigger] downward(self, i) }
    /// Every segment has its entrance and (unless horizontal) its exit once, and both lists are sorted.
    spec fn listed(&self) -> bool {
        self.enter@.to_multiset() == entrances(self.segs.inner@, self.size()) && self.exit@.to_multiset() == exits(self.segs.inner@, self.size()) && sorted(self.enter@) && sorted(self.exit@)
    }
    spec fn finite(&self) -> bool { heights(self.segs.inner@) }
    spec fn wf(&self) -> bool { self.even() && self.links(self.size()) && self.downs() && self.listed() }
}
/// The first n segments are what they were.
spec fn kept(s: &Segments, t: &Segments, n: int) -> bool {
    &&& n <= s.size() && n <= t.size()
    &&& forall|i: int| 0 <= i < n ==> #[trigger] t.segs.inner@[i] == s.segs.inner@[i]
    &&& forall|i: int| 0 <= i < n ==> #[trigger] stored(t, i) == stored(s, i)
    &&& forall|i: int| 0 <= i < n ==> #[trigger] next(t, i) == next(s, i)
    &&& forall|i: int| 0 <= i < n ==> #[trigger] prev(t, i) == prev(s, i)
}
/// Only the lists may differ.
spec fn relisted(s: &Segments, t: &Segments) -> bool {
    t.segs == s.segs && t.orientation == s.orientation && t.split_from_predecessor == s.split_from_predecessor && t.input_segs == s.input_segs && t.contour_prev == s.contour_prev && t.contour_next == s.contour_next
}
proof fn lemma_relisted(s: &Segments, t: &Segments)
    requires relisted(s, t) ensures s.even() ==> t.even(), s.finite() ==> t.finite(), s.downs() ==> t.downs(), s.links(s.size()) ==> t.links(t.size()), t.size() == s.size(), kept(s, t, s.size())
{
    assert forall|i: int| 0 <= i < s.size() implies #[trigger] stored(t, i) == stored(s, i) by {}
    if s.downs() { assert forall|i: int| 0 <= i < t.size() implies #[trigger] downward(t, i) by { assert(downward(s, i)); } }
    if s.links(s.size()) { lemma_kept_links(s, t, s.size()); }
}
spec fn lists_kept(s: &Segments, t: &Segments) -> bool { t.enter@ == s.enter@ && t.exit@ == s.exit@ }
/// Segments a.. hold what is written in l.
spec fn holds(s: &Segments, a: int, l: Seq<Stored>) -> bool { forall|i: int| a <= i < a + l.len() ==> #[trigger] stored(s, i) == l[i - a] }
/// Segments a.. are a chain so far: each but the first follows the one before, and the ends are not known yet.
spec fn chain(s: &Segments, a: int) -> bool {
    &&& forall|i: int| a <= i < s.size() ==> #[trigger] next(s, i) == Some(SegIdx((i + 1) as usize))
    &&& forall|i: int| a < i < s.size() ==> #[trigger] prev(s, i) == Some(SegIdx((i - 1) as usize))
}
proof fn lemma_contour(s: &Segments, a: int, b: int, closed: bool)
    requires contour(s, a, b, closed), s.links(a), 0 <= a, s.even(), b <= s.size()
    ensures s.links(b)
{
    assert forall|i: int| 0 <= i < b implies #[trigger] linked(s, b, i) by {
        if i < a { assert(linked(s, a, i)); }
        else {
            if i + 1 < b { assert(prev(s, i + 1) == Some(SegIdx(i as usize))); } else { assert(prev(s, a) == prev(s, a)); }
            if i > a { assert(next(s, i - 1) == Some(SegIdx(i as usize))); } else { assert(next(s, b - 1) == next(s, b - 1)); }
        }
    }
}
proof fn lemma_kept_links(s: &Segments, t: &Segments, n: int)
    requires kept(s, t, n), s.links(n) ensures t.links(n)
{
    assert forall|i: int| 0 <= i < n implies #[trigger] linked(t, n, i) by {
        assert(linked(s, n, i)); assert(next(t, i) == next(s, i)); assert(prev(t, i) == prev(s, i));
        if next(s, i) is Some { let j = (next(s, i)->0).0 as int; assert(prev(t, j) == prev(s, j)); }
        if prev(s, i) is Some { let j = (prev(s, i)->0).0 as int; assert(next(t, j) == next(s, j)); }
    }
}
proof fn lemma_lists(s: Segs, t: Segs, n: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] t[i] == s[i]
    ensures entrances(t, n) == entrances(s, n), exits(t, n) == exits(s, n)
    decreases n
{ if n > 0 { lemma_lists(s, t, n - 1); assert(t[n - 1] == s[n - 1]); } }

// ---------------------------------------------------------------- what is added
spec fn straight(p: Point, q: Point) -> Stored { Stored { from: p, to: q, input: PathSeg::Line(kurbo::Line { p0: kp(p), p1: kp(q) }), part: (0.0f64, 1.0f64) } }
spec fn points(ps: Seq<Point>) -> bool { forall|i: int| 0 <= i < ps.len() ==> num((#[trigger] ps[i]).y) }
spec fn open_line(ps: Seq<Point>) -> Seq<Stored> { Seq::new((ps.len() - 1) as nat, |k: int| straight(ps[k], ps[k + 1])) }
spec fn closed_line(ps: Seq<Point>) -> Seq<Stored> { Seq::new(ps.len(), |k: int| straight(ps[k], ps[if k + 1 < ps.len() { k + 1 } else { 0 }])) }
spec fn curve_piece(s: PathSeg, m: MonotonicPiece) -> Stored { Stored { from: pt(m.piece.p0), to: pt(m.piece.p3), input: s, part: (m.start_t, m.end_t) } }
/// What one segment of a path adds: a line (unless it has no length) or its monotone pieces.
spec fn added(s: PathSeg) -> Seq<Stored> {
    match s {
        PathSeg::Line(l) => if place(pt(l.p0)) != place(pt(l.p1)) { seq![Stored { from: pt(l.p0), to: pt(l.p1), input: s, part: (0.0f64, 1.0f64) }] } else { Seq::empty() },
        _ => cut(s, pieces(cubic_of(s)).len() as int),
    }
}
spec fn cut(s: PathSeg, n: int) -> Seq<Stored> { Seq::new(n as nat, |k: int| curve_piece(s, pieces(cubic_of(s))[k])) }
/// What the first n segments of a path add, one after the other.
spec fn traced(l: Seq<PathSeg>, n: int) -> Seq<Stored> decreases n { if n <= 0 { Seq::empty() } else { traced(l, n - 1) + added(l[n - 1]) } }
/// Where the k'th subpath begins.
spec fn from_part(ps: Seq<Seq<PathSeg>>, k: int, a: int) -> int decreases k { if k <= 0 { a } else { from_part(ps, k - 1, a) + traced(ps[k - 1], ps[k - 1].len() as int).len() } }
/// The k'th subpath is stored, and linked to a ring if it comes back to where it started.
spec fn part_stored(s: &Segments, ps: Seq<Seq<PathSeg>>, k: int, a: int, must_close: bool) -> bool {
    let l = traced(ps[k], ps[k].len() as int);
    let b = from_part(ps, k, a);
    let ring = same_point(kp(l[0].from), kp(l.last().to));
    holds(s, b, l) && (l.len() > 0 ==> contour(s, b, b + l.len(), ring) && (must_close ==> ring))
}
proof fn lemma_holds(s: &Segments, t: &Segments, a: int, l: Seq<Stored>, m: Seq<Stored>)
    requires holds(s, a, l), kept(s, t, s.size()), s.size() == a + l.len(), 0 <= a, forall|i: int| a + l.len() <= i < a + l.len() + m.len() ==> #[trigger] stored(t, i) == m[i - a - l.len()]
    ensures holds(t, a, l + m)
{
    assert forall|i: int| a <= i < a + (l + m).len() implies #[trigger] stored(t, i) == (l + m)[i - a] by {
        if i < a + l.len() { assert(stored(s, i) == l[i - a]); assert(stored(t, i) == stored(s, i)); }
    }
}
proof fn lemma_part_kept(s: &Segments, t: &Segments, ps: Seq<Seq<PathSeg>>, k: int, a: int, must_close: bool)
    requires part_stored(s, ps, k, a, must_close), kept(s, t, s.size()), 0 <= a, 0 <= k, from_part(ps, k, a) + traced(ps[k], ps[k].len() as int).len() <= s.size()
    ensures part_stored(t, ps, k, a, must_close)
{
    lemma_from(ps, k, a);
    let l = traced(ps[k], ps[k].len() as int);
    let b = from_part(ps, k, a);
    assert forall|i: int| b <= i < b + l.len() implies #[trigger] stored(t, i) == l[i - b] by { assert(stored(s, i) == l[i - b]); }
    if l.len() > 0 {
        let ring = same_point(kp(l[0].from), kp(l.last().to));
        assert forall|i: int| b <= i < b + l.len() implies #[trigger] next(t, i) == (if i + 1 < b + l.len() { Some(SegIdx((i + 1) as usize)) } else if ring { Some(SegIdx(b as usize)) } else { None }) by { assert(next(s, i) == next(s, i)); assert(next(t, i) == next(s, i)); }
        assert forall|i: int| b <= i < b + l.len() implies #[trigger] prev(t, i) == (if i > b { Some(SegIdx((i - 1) as usize)) } else if ring { Some(SegIdx((b + l.len() - 1) as usize)) } else { None }) by { assert(prev(t, i) == prev(s, i)); }
    }
}
proof fn lemma_from(ps: Seq<Seq<PathSeg>>, k: int, a: int) ensures from_part(ps, k, a) >= a decreases k { if k > 0 { lemma_from(ps, k - 1, a); } }


/// One segment is added after the others, linked to its neighbours.
spec fn grown(s: &Segments, t: &Segments) -> bool {
    let n = s.size();
    &&& t.segs.inner@ == s.segs.inner@.push(t.segs.inner@[n])
    &&& t.orientation.inner@ == s.orientation.inner@.push(t.orientation.inner@[n])
    &&& t.split_from_predecessor.inner@ == s.split_from_predecessor.inner@.push(t.split_from_predecessor.inner@[n])
    &&& t.input_segs.inner@ == s.input_segs.inner@.push(t.input_segs.inner@[n])
    &&& t.contour_prev.inner@ == s.contour_prev.inner@.push(prev(t, n))
    &&& t.contour_next.inner@ == s.contour_next.inner@.push(next(t, n))
    &&& next(t, n) == Some(SegIdx((n + 1) as usize)) && (n > 0 ==> prev(t, n) == Some(SegIdx((n - 1) as usize)))
    &&& num(top(t.segs.inner@[n]).y) && num(bottom(t.segs.inner@[n]).y) && downward(t, n) && n < usize::MAX
}
proof fn lemma_grown(o: &Segments, s: &Segments, t: &Segments, a: int, l: Seq<Stored>, m: Seq<Stored>)
    requires grown(s, t), s.even(), s.finite(), s.downs(), kept(o, s, a), a <= s.size(), 0 <= a, chain(s, a), holds(s, a, l), a + l.len() == s.size(), m == l.push(stored(t, s.size()))
    ensures t.even(), t.finite(), t.downs(), kept(o, t, a), kept(s, t, s.size()), chain(t, a), holds(t, a, m), t.size() == s.size() + 1
{
    let n = s.size();
    assert forall|i: int| 0 <= i < n implies #[trigger] stored(t, i) == stored(s, i) && t.segs.inner@[i] == s.segs.inner@[i] && next(t, i) == next(s, i) && prev(t, i) == prev(s, i) by {}
    assert forall|i: int| 0 <= i < n implies #[trigger] next(t, i) == next(s, i) by {}
    assert forall|i: int| 0 <= i < n implies #[trigger] prev(t, i) == prev(s, i) by {}
    assert(kept(s, t, n));
    lemma_kept(o, s, t, a, n);
    assert forall|i: int| 0 <= i < t.size() implies #[trigger] downward(t, i) by { if i < n { assert(downward(s, i)); } }
    assert forall|i: int| 0 <= i < t.size() implies num((#[trigger] top(t.segs.inner@[i])).y) && num(bottom(t.segs.inner@[i]).y) by { if i < n { assert(t.segs.inner@[i] == s.segs.inner@[i]); } }
    assert forall|i: int| a <= i < a + m.len() implies #[trigger] stored(t, i) == m[i - a] by { if i < n { assert(stored(s, i) == l[i - a]); } }
    assert forall|i: int| a <= i < t.size() implies #[trigger] next(t, i) == Some(SegIdx((i + 1) as usize)) by { if i < n { assert(next(t, i) == next(s, i)); } }
    assert forall|i: int| a < i < t.size() implies #[trigger] prev(t, i) == Some(SegIdx((i - 1) as usize)) by { if i < n { assert(prev(t, i) == prev(s, i)); } }
}
proof fn lemma_kept(o: &Segments, s: &Segments, t: &Segments, a: int, b: int)
    requires kept(o, s, a), kept(s, t, b), 0 <= a <= b
    ensures kept(o, t, a)
{
    assert forall|i: int| 0 <= i < a implies #[trigger] t.segs.inner@[i] == o.segs.inner@[i] by { assert(s.segs.inner@[i] == o.segs.inner@[i]); }
    assert forall|i: int| 0 <= i < a implies #[trigger] stored(t, i) == stored(o, i) by { assert(stored(s, i) == stored(o, i)); }
    assert forall|i: int| 0 <= i < a implies #[trigger] next(t, i) == next(o, i) by { assert(next(s, i) == next(o, i)); }
    assert forall|i: int| 0 <= i < a implies #[trigger] prev(t, i) == prev(o, i) by { assert(prev(s, i) == prev(o, i)); }
}
/// The two ends of a chain are linked, or ended.
spec fn ended(s: &Segments, t: &Segments, a: int, closed: bool) -> bool {
    let n = s.size();
    &&& t.segs == s.segs && t.orientation == s.orientation && t.split_from_predecessor == s.split_from_predecessor && t.input_segs == s.input_segs
    &&& t.contour_prev.inner@ == s.contour_prev.inner@.update(a, if closed { Some(SegIdx((n - 1) as usize)) } else { None })
    &&& t.contour_next.inner@ == s.contour_next.inner@.update(n - 1, if closed { Some(SegIdx(a as usize)) } else { None })
}
proof fn lemma_ended(o: &Segments, s: &Segments, t: &Segments, a: int, l: Seq<Stored>, closed: bool)
    requires ended(s, t, a, closed), s.even(), s.finite(), s.downs(), kept(o, s, a), o.links(a), 0 <= a < s.size(), chain(s, a), holds(s, a, l), a + l.len() == s.size()
    ensures t.even(), t.finite(), t.downs(), t.links(t.size()), kept(o, t, a), kept(s, t, a), contour(t, a, t.size(), closed), holds(t, a, l), t.size() == s.size()
{
    let n = s.size();
    assert forall|i: int| 0 <= i < n implies #[trigger] stored(t, i) == stored(s, i) by {}
    assert forall|i: int| 0 <= i < a implies #[trigger] next(t, i) == next(s, i) by {}
    assert forall|i: int| 0 <= i < a implies #[trigger] prev(t, i) == prev(s, i) by {}
    assert(kept(s, t, a));
    lemma_kept(o, s, t, a, a);
    lemma_kept_links(o, t, a);
    assert forall|i: int| 0 <= i < t.size() implies #[trigger] downward(t, i) by { assert(downward(s, i)); }
    assert forall|i: int| a <= i < a + l.len() implies #[trigger] stored(t, i) == l[i - a] by { assert(stored(s, i) == l[i - a]); }
    assert forall|i: int| a <= i < n implies #[trigger] next(t, i) == (if i + 1 < n { Some(SegIdx((i + 1) as usize)) } else if closed { Some(SegIdx(a as usize)) } else { None }) by { assert(next(s, i) == next(s, i)); }
    assert forall|i: int| a <= i < n implies #[trigger] prev(t, i) == (if i > a { Some(SegIdx((i - 1) as usize)) } else if closed { Some(SegIdx((n - 1) as usize)) } else { None }) by { assert(prev(s, i) == prev(s, i)); }
    lemma_contour(t, a, n, closed);
}
spec fn good(s: PathSeg) -> bool { forall|i: int| 0 <= i < added(s).len() ==> num((#[trigger] added(s)[i]).from.y) && num(added(s)[i].to.y) }
spec fn readable(l: Seq<PathSeg>) -> bool { forall|k: int| 0 <= k < l.len() ==> good(#[trigger] l[k]) }
/// The subpaths of p are stored behind what was there, each of them linked.
spec fn path_added(s: &Segments, t: &Segments, p: &BezPath, must_close: bool) -> bool {
    &&& kept(s, t, s.size())
    &&& t.size() == from_part(parts(p), parts(p).len() as int, s.size())
    &&& forall|k: int| 0 <= k < parts(p).len() ==> #[trigger] part_stored(t, parts(p), k, s.size(), must_close)
}
proof fn lemma_path_kept(o: &Segments, s: &Segments, t: &Segments, p: &BezPath, must_close: bool)
    requires path_added(o, s, p, must_close), kept(s, t, s.size()), t.size() == s.size()
    ensures path_added(o, t, p, must_close)
{
    let ps = parts(p);
    lemma_kept(o, s, t, o.size(), s.size());
    assert forall|k: int| 0 <= k < ps.len() implies #[trigger] part_stored(t, ps, k, o.size(), must_close) by { assert(part_stored(s, ps, k, o.size(), must_close)); lemma_from_le(ps, k + 1, ps.len() as int, o.size()); lemma_part_kept(s, t, ps, k, o.size(), must_close); }
}
proof fn lemma_from_le(ps: Seq<Seq<PathSeg>>, k: int, m: int, a: int) requires 0 <= k <= m ensures from_part(ps, k, a) <= from_part(ps, m, a) decreases m - k { if k < m { lemma_from_le(ps, k, m - 1, a); } }
// sorting (slice::sort_by of the standard library: the same entries, in an order that the comparison accepts)
#[verifier::external_body]
fn sort_by<F: Fn(&Rec, &Rec) -> std::cmp::Ordering>(v: &mut Vec<Rec>, f: F)
    requires forall|a: &Rec, b: &Rec| old(v)@.contains(*a) && old(v)@.contains(*b) ==> #[trigger] f.requires((a, b))
    ensures final(v)@.to_multiset() == old(v)@.to_multiset(), forall|i: int, j: int| 0 <= i <= j < final(v)@.len() ==> #[trigger] accepted(f, final(v)@[i], final(v)@[j])
{ v.sort_by(f) }
spec fn accepted<F: Fn(&Rec, &Rec) -> std::cmp::Ordering>(f: F, a: Rec, b: Rec) -> bool { exists|o: std::cmp::Ordering| #[trigger] f.ensures((&a, &b), o) && o != std::cmp::Ordering::Greater }
struct CheapOrderedFloat { v: f64 }
impl CheapOrderedFloat {
    fn from(v: f64) -> (r: Self) requires num(v) ensures r.v == v { CheapOrderedFloat { v } }
    /// C08: Kani, all doubles.
    #[verifier::external_body]
    fn cmp(&self, o: &Self) -> (r: std::cmp::Ordering)
        ensures (r == std::cmp::Ordering::Greater) == (rank(self.v) > rank(o.v)), (r == std::cmp::Ordering::Less) == (rank(self.v) < rank(o.v))
    { unimplemented!() }
}
pub assume_specification<F: std::ops::FnOnce() -> std::cmp::Ordering + std::marker::Destruct> [std::cmp::Ordering::then_with] (a: std::cmp::Ordering, f: F) -> (r: std::cmp::Ordering)
    requires f.requires(())
    ensures a != std::cmp::Ordering::Equal ==> r == a;

impl Segments {
    //@src src/segments.rs
    //@fn Segments::len
    //@ret r
    ensures r == self.size()
    //@end
    //@fn Segments::oriented_start
    //@sub self\.orientation\[(\w+)\] ==> *self.orientation.at(\1)
    //@sub self\[(\w+)\] ==> self.segs.at(\1)
    //@ret r
    requires self.even(), idx.0 < self.size()
    ensures r == stored(self, idx.0 as int).from
    //@end
    //@fn Segments::oriented_end
    //@sub self\.orientation\[(\w+)\] ==> *self.orientation.at(\1)
    //@sub self\[(\w+)\] ==> self.segs.at(\1)
    //@ret r
    requires self.even(), idx.0 < self.size()
    ensures r == stored(self, idx.0 as int).to
    //@end
    //@fn Segments::contour_next
    //@sub self\.contour_next\[(\w+)\] ==> *self.contour_next.at(\1)
    //@ret r
    requires self.even(), idx.0 < self.size()
    ensures r == next(self, idx.0 as int)
    //@end
    //@fn Segments::contour_prev
    //@sub self\.contour_prev\[(\w+)\] ==> *self.contour_prev.at(\1)
    //@ret r
    requires self.even(), idx.0 < self.size()
    ensures r == prev(self, idx.0 as int)
    //@end
    //@fn Segments::positively_oriented
    //@sub self\.orientation\[(\w+)\] ==> *self.orientation.at(\1)
    //@ret r
    requires self.even(), idx.0 < self.size()
    ensures r == self.orientation.inner@[idx.0 as int]
    //@end
    //@fn Segments::update_enter_exit
    //@sub for (\w+) in ([^\n.]+)\.\.self\.(?:segs\.)?len\(\)\s*\n\s*(invariant[^{]*)\{ ==> let mut number: usize = \2; while number < self.len() \3 { let \1 = number; number = number + 1; proof { self.enter@.to_multiset_ensures(); self.exit@.to_multiset_ensures(); }
    //@sub &self\.segs\[([^\]]+)\] ==> self.segs.at(\1)
    //@sub self\.(enter|exit)\.sort_by\(\|\((\w+), (\w+)\), \((\w+), (\w+)\)\| \{((?:.|\n)*?)\n        \}\); ==> let \1_order = |a: &Rec, b: &Rec| -> (o: std::cmp::Ordering) requires num(a.0), num(b.0), a.1.0 < self.segs.inner@.len(), b.1.0 < self.segs.inner@.len() ensures rank(a.0) > rank(b.0) ==> o == std::cmp::Ordering::Greater { let ((\2, \3), (\4, \5)) = (a, b); \6 }; proof { lemma_all_about(self.segs.inner@, self.size(), self.\1@); } sort_by(&mut self.\1, \1_order); proof { let l = self.\1@; lemma_all_about(self.segs.inner@, self.size(), l); assert forall|i: int, j: int| #![trigger height(l, i), height(l, j)] 0 <= i <= j < l.len() implies height(l, i) <= height(l, j) by { assert(accepted(\1_order, l[i], l[j])); assert(l.contains(l[i]) && l.contains(l[j])); } }
    //@sub self\.segs\[\*(\w+)\] ==> self.segs.at(*\1)
    //@loop 0
    invariant old_len <= number <= self.size(), self.even(), relisted(old(self), self), self.finite(), self.enter@.to_multiset() == entrances(self.segs.inner@, number as int), self.exit@.to_multiset() == exits(self.segs.inner@, number as int),
        decreases self.size() - number
    //@spec
    requires old(self).even(), old_len <= old(self).size(), old(self).finite(),
        old(self).enter@.to_multiset() == entrances(old(self).segs.inner@, old_len as int), old(self).exit@.to_multiset() == exits(old(self).segs.inner@, old_len as int)
    ensures final(self).listed(), relisted(old(self), final(self))
    //@end
    //@fn Segments::add_points
    //@sub <P: Into<Point>>\(\s*&mut self,\s*ps: impl IntoIterator<Item = P>,?\s*\) ==> (&mut self, ps: Vec<Point>)
    //@sub ps\.into_iter\(\)\.map\(\|p\| p\.into\(\)\)\.collect\(\) ==> ps
    //@sub let ps: Vec<_> ==> let ps: Vec<Point>
    //@sub for \((\w+), (\w+)\) in (pairs|cyclic_pairs)\(&(\w+)\)\s*\n\s*(invariant[^{]*)\{ ==> let all = \3(&\4); let mut number: usize = 0; while number < all.len() \5 { let (\1, \2) = all[number]; let ghost was = *self; number = number + 1;
    //@sub self\.(contour_\w+)\[(\w+|SegIdx\([^;=]*?\))\] = ([^;]*); ==> self.\1.set(\2, \3);
    //@sub \*self\.(contour_\w+)\.inner\.last_mut\(\)\.unwrap\(\) = ([^;]*); ==> self.\1.set_last(\2);
    //@sub if (\w+) < (\w+) \{ ==> if before(\1, \2) {
    //@sub \((\w+)\.to_kurbo\(\), (\w+)\.to_kurbo\(\)\)\.into\(\) ==> line(\1.to_kurbo(), \2.to_kurbo())
    //@loop 0
    invariant number <= all@.len(), self.even(), self.finite(), self.downs(), self.size() == old(self).size() + number, kept(old(self), self, old(self).size()), lists_kept(old(self), self),
        old(self).even(), old_len == old(self).size(), all@.len() == open_line(ps@).len(), ps@.len() > 1, points(ps@),
        forall|k: int| 0 <= k < all@.len() ==> *(#[trigger] all@[k]).0 == open_line(ps@)[k].from && *all@[k].1 == open_line(ps@)[k].to && num((*all@[k].0).y) && num((*all@[k].1).y),
        chain(self, old_len as int), holds(self, old_len as int, open_line(ps@).take(number as int))
        decreases all@.len() - number
    //@tail 0
    proof { let l = open_line(ps@); assert(stored(self, was.size()) == l[number - 1]); assert(l.take(number as int) =~= l.take(number - 1).push(l[number - 1])); lemma_grown(old(self), &was, self, old_len as int, l.take(number - 1), l.take(number as int)); }
    //@after 0
    let ghost chained = *self; proof { assert(open_line(ps@).take(number as int) =~= open_line(ps@)); }
    //@finish
    proof { lemma_relisted(&before, self); lemma_kept(old(self), &before, self, old_len as int, self.size()); }
    //@at self\.update_enter_exit
    let ghost before = *self;
    proof { lemma_ended(old(self), &chained, self, old_len as int, open_line(ps@), false); lemma_lists(old(self).segs.inner@, self.segs.inner@, old_len as int); }
    //@spec
    requires old(self).wf(), old(self).finite(), points(ps@)
    ensures final(self).wf(), final(self).finite(), kept(old(self), final(self), old(self).size()),
        ps@.len() <= 1 ==> final(self).size() == old(self).size(),
        ps@.len() > 1 ==> final(self).size() == old(self).size() + ps@.len() - 1 && holds(final(self), old(self).size(), open_line(ps@)) && contour(final(self), old(self).size(), final(self).size(), false),
    //@end
    //@fn Segments::add_polyline_without_updating_enter_exit
    //@sub <P: Into<Point>>\(\s*&mut self,\s*ps: impl IntoIterator<Item = P>,?\s*\) ==> (&mut self, ps: Vec<Point>)
    //@sub ps\.into_iter\(\)\.map\(\|p\| p\.into\(\)\)\.collect\(\) ==> ps
    //@sub let ps: Vec<_> ==> let ps: Vec<Point>
    //@sub for \((\w+), (\w+)\) in (pairs|cyclic_pairs)\(&(\w+)\)\s*\n\s*(invariant[^{]*)\{ ==> let all = \3(&\4); let mut number: usize = 0; while number < all.len() \5 { let (\1, \2) = all[number]; let ghost was = *self; number = number + 1;
    //@sub self\.(contour_\w+)\[(\w+|SegIdx\([^;=]*?\))\] = ([^;]*); ==> self.\1.set(\2, \3);
    //@sub \*self\.(contour_\w+)\.inner\.last_mut\(\)\.unwrap\(\) = ([^;]*); ==> self.\1.set_last(\2);
    //@sub if (\w+) < (\w+) \{ ==> if before(\1, \2) {
    //@sub \((\w+)\.to_kurbo\(\), (\w+)\.to_kurbo\(\)\)\.into\(\) ==> line(\1.to_kurbo(), \2.to_kurbo())
    //@loop 0
    invariant number <= all@.len(), self.even(), self.finite(), self.downs(), self.size() == old(self).size() + number, kept(old(self), self, old(self).size()), lists_kept(old(self), self),
        old(self).even(), old_len == old(self).size(), all@.len() == closed_line(ps@).len(), ps@.len() > 1, points(ps@),
        forall|k: int| 0 <= k < all@.len() ==> *(#[trigger] all@[k]).0 == closed_line(ps@)[k].from && *all@[k].1 == closed_line(ps@)[k].to && num((*all@[k].0).y) && num((*all@[k].1).y),
        chain(self, old_len as int), holds(self, old_len as int, closed_line(ps@).take(number as int))
        decreases all@.len() - number
    //@tail 0
    proof { let l = closed_line(ps@); assert(stored(self, was.size()) == l[number - 1]); assert(l.take(number as int) =~= l.take(number - 1).push(l[number - 1])); lemma_grown(old(self), &was, self, old_len as int, l.take(number - 1), l.take(number as int)); }
    //@after 0
    let ghost chained = *self; proof { assert(closed_line(ps@).take(number as int) =~= closed_line(ps@)); }
    //@finish
    proof { if ps@.len() > 1 { lemma_ended(old(self), &chained, self, old_len as int, closed_line(ps@), true); } }
    //@spec
    requires old(self).even(), old(self).links(old(self).size()), old(self).downs(), old(self).finite(), points(ps@)
    ensures final(self).even(), final(self).links(final(self).size()), final(self).downs(), final(self).finite(), kept(old(self), final(self), old(self).size()), lists_kept(old(self), final(self)),
        ps@.len() <= 1 ==> final(self).size() == old(self).size(),
        ps@.len() > 1 ==> final(self).size() == old(self).size() + ps@.len() && holds(final(self), old(self).size(), closed_line(ps@)) && contour(final(self), old(self).size(), final(self).size(), true),
    //@end
    //@fn Segments::add_closed_polyline
    //@sub <P: Into<Point>>\(\s*&mut self,\s*ps: impl IntoIterator<Item = P>,?\s*\) ==> (&mut self, ps: Vec<Point>)
    //@finish
    proof { lemma_relisted(&before, self); lemma_kept(old(self), &before, self, old_len as int, self.size()); }
    //@at self\.update_enter_exit
    let ghost before = *self;
    proof { lemma_lists(old(self).segs.inner@, self.segs.inner@, old_len as int); }
    //@spec
    requires old(self).wf(), old(self).finite(), points(ps@)
    ensures final(self).wf(), final(self).finite(), kept(old(self), final(self), old(self).size()),
        ps@.len() <= 1 ==> final(self).size() == old(self).size(),
        ps@.len() > 1 ==> final(self).size() == old(self).size() + ps@.len() && holds(final(self), old(self).size(), closed_line(ps@)) && contour(final(self), old(self).size(), final(self).size(), true),
    //@end
    //@fn Segments::add_path_without_updating_enter_exit
    //@sub let mut (\w+) = Subpaths \{\s*inner: p\.iter\(\)\.peekable\(\),?\s*\}; ==> let \1 = subpaths_of(p);
    //@sub while let Some\((\w+)\) = subpaths\.next\(\)\s*\n\s*(invariant[^{]*)\{ ==> let mut part: usize = 0; while part < subpaths.len() \2 { let \1 = &subpaths[part]; part = part + 1; let ghost entered = *self; let ghost l = ps[part - 1]; assert(readable(l));
    //@sub for (\w+) in kurbo::segments\((\w+)\)\s*\n\s*(invariant[^{]*)\{ ==> let mut which: usize = 0; while which < \2.len() \3 { let \1 = \2[which]; which = which + 1; let ghost was = *self; let ghost done = traced(l, which - 1); assert(good(l[which - 1]));
    //@sub for (\w+) in (\w+)\s*\n\s*(invariant[^{]*)\{ ==> let mut number: usize = 0; while number < \2.len() \3 { let \1 = \2[number]; number = number + 1; let ghost was = *self; assert(added(seg)[number - 1] == curve_piece(seg, pieces(cubic_of(seg))[number - 1]));
    //@sub \((\w+\.\w+\.y), (\w+\.\w+\.x)\) <= \((\w+\.\w+\.y), (\w+\.\w+\.x)\) ==> upto4(\1, \2, \3, \4)
    //@sub if (\w+) <= (\w+) \{ ==> if upto(\1, \2) {
    //@sub if (\w+) != (\w+) \{ ==> if differ(\1, \2) {
    //@sub if (\w+) == (\w+) \{ ==> if same(\1, \2) {
    //@sub ([\w.]+)\.into\(\) ==> point(\1)
    //@sub self\.(contour_\w+)\[(\w+|SegIdx\([^;=]*?\))\] = ([^;]*); ==> self.\1.set(\2, \3);
    //@loop 0
    invariant part <= subpaths@.len(), ps == parts(p), subpaths@.len() == ps.len(), forall|k: int| 0 <= k < ps.len() ==> (#[trigger] subpaths@[k])@ == ps[k], forall|k: int| 0 <= k < ps.len() ==> readable(#[trigger] ps[k]), old(self).even(), n0 == old(self).size(), self.even(), self.finite(), self.downs(), self.links(self.size()), kept(old(self), self, n0), lists_kept(old(self), self), self.size() == from_part(ps, part as int, n0),
        forall|k: int| 0 <= k < part ==> #[trigger] part_stored(self, ps, k, n0, must_be_closed) && from_part(ps, k + 1, n0) <= self.size()
        decreases subpaths@.len() - part
    //@loop 1
    invariant which <= l.len(), 0 < part <= subpaths@.len(), ps == parts(p), subpaths@.len() == ps.len(), forall|k: int| 0 <= k < ps.len() ==> (#[trigger] subpaths@[k])@ == ps[k], forall|k: int| 0 <= k < ps.len() ==> readable(#[trigger] ps[k]), old(self).even(), n0 == old(self).size(), subpath@ == l, l == ps[part - 1], readable(l), self.even(), self.finite(), self.downs(), kept(&entered, self, old_len as int), lists_kept(&entered, self), entered.size() == old_len,
        chain(self, old_len as int), holds(self, old_len as int, traced(l, which as int)), self.size() == old_len + traced(l, which as int).len()
        decreases l.len() - which
    //@loop 2
    invariant number <= cubics@.len(), cubics@ == pieces(cubic_of(seg)), good(seg), added(seg) == cut(seg, cubics@.len() as int), self.even(), self.finite(), self.downs(), kept(&entered, self, old_len as int), lists_kept(&entered, self), entered.size() == old_len,
        chain(self, old_len as int), holds(self, old_len as int, done + cut(seg, number as int)), self.size() == old_len + done.len() + number
        decreases cubics@.len() - number
    //@at let p0: Point
    let ghost line0 = *self;
    //@tail 2
    proof { let x = added(seg)[number - 1]; assert(num(x.from.y) && num(x.to.y)); let z = stored(self, was.size()); assert(z.input == x.input); assert(z.part == x.part); assert(z.from == x.from); assert(z.to == x.to); assert(z == x); assert(grown(&was, self)); assert(done + cut(seg, number as int) =~= (done + cut(seg, number - 1)).push(curve_piece(seg, pieces(cubic_of(seg))[number - 1]))); lemma_grown(&entered, &was, self, old_len as int, done + cut(seg, number - 1), done + cut(seg, number as int)); }
    //@tail 1
    proof {
        assert(traced(l, which as int) == done + added(seg));
        if self.size() == was.size() { assert(done + added(seg) =~= done); }
        else if seg is Line { assert(done + added(seg) =~= done.push(added(seg)[0])); lemma_grown(&entered, &was, self, old_len as int, done, done + added(seg)); }
    }
    //@after 1
    let ghost chained = *self; let ghost all = traced(l, l.len() as int);
    //@tail 0
    proof {
        lemma_from(ps, part - 1, n0);
        let ring = same_point(kp(all[0].from), kp(all.last().to));
        if all.len() > 0 { lemma_ended(&entered, &chained, self, old_len as int, all, ring); }
        else { lemma_kept_links(&entered, self, old_len as int); }
        lemma_kept(old(self), &entered, self, n0, old_len as int);
        assert(part_stored(self, ps, part - 1, n0, must_be_closed));
        assert forall|k: int| 0 <= k < part implies #[trigger] part_stored(self, ps, k, n0, must_be_closed) && from_part(ps, k + 1, n0) <= self.size() by {
            if k < part - 1 { assert(part_stored(&entered, ps, k, n0, must_be_closed)); lemma_part_kept(&entered, self, ps, k, n0, must_be_closed); }
        }
    }
    //@start
    let ghost ps = parts(p); let ghost n0 = self.size();
    //@ret r
    //@spec
    requires old(self).even(), old(self).links(old(self).size()), old(self).downs(), old(self).finite(), forall|k: int| 0 <= k < parts(p).len() ==> readable(#[trigger] parts(p)[k])
    ensures r is Ok ==> path_added(old(self), final(self), p, must_be_closed) && final(self).even() && final(self).links(final(self).size()) && final(self).downs() && final(self).finite() && lists_kept(old(self), final(self))
    //@end
    //@fn Segments::add_bez_path
    //@at self\.update_enter_exit
    let ghost before = *self;
    proof { lemma_lists(old(self).segs.inner@, self.segs.inner@, old_len as int); }
    //@post self\.update_enter_exit[^;]*;
    proof { lemma_relisted(&before, self); lemma_path_kept(old(self), &before, self, p, true); }
    //@ret r
    //@spec
    requires old(self).wf(), old(self).finite(), forall|k: int| 0 <= k < parts(p).len() ==> readable(#[trigger] parts(p)[k])
    ensures r is Ok ==> path_added(old(self), final(self), p, true) && final(self).wf() && final(self).finite()
    //@end
    //@fn Segments::add_non_closed_bez_path
    //@at self\.update_enter_exit
    let ghost before = *self;
    proof { lemma_lists(old(self).segs.inner@, self.segs.inner@, old_len as int); }
    //@post self\.update_enter_exit[^;]*;
    proof { lemma_relisted(&before, self); lemma_path_kept(old(self), &before, self, p, false); }
    //@ret r
    //@spec
    requires old(self).wf(), old(self).finite(), forall|k: int| 0 <= k < parts(p).len() ==> readable(#[trigger] parts(p)[k])
    ensures r is Ok ==> path_added(old(self), final(self), p, false) && final(self).wf() && final(self).finite()
    //@end
}
} // verus!
fn main() {}
