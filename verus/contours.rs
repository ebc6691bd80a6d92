#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_braces, unused_parens, non_snake_case)]
use vstd::prelude::*;
verus! {

// ---------------------------------------------------------------- the code under contract
//@src src/topology.rs
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@item struct OutputSegIdx
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@item struct HalfOutputSegIdx
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@item struct PointIdx
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@item struct ContourIdx
#[derive(Clone, Copy)]
//@item struct PointNeighbors
#[verifier::reject_recursive_types(T)]
//@item struct OutputSegVec
#[verifier::reject_recursive_types(T)]
//@item struct HalfOutputSegVec
#[verifier::reject_recursive_types(T)]
//@item struct PointVec
//@item struct Contour
//@item struct Contours
pub struct HalfSegmentWindingNumbers<W> { pub counter_clockwise: W, pub clockwise: W }

// ---------------------------------------------------------------- dependencies
#[verifier::external_body]
pub struct BezPath {}
impl BezPath { #[verifier::external_body] fn default() -> BezPath { unimplemented!() } }
#[verifier::external_body]
struct PositionedOutputSeg {}
struct Point { x: f64, y: f64 }
impl<T> OutputSegVec<T> { fn at(&self, i: OutputSegIdx) -> (r: &T) requires i.0 < self.inner@.len() ensures *r == self.inner@[i.0 as int] { &self.inner[i.0] } }
impl<T> PointVec<T> { fn at(&self, i: PointIdx) -> (r: &T) requires i.0 < self.inner@.len() ensures *r == self.inner@[i.0 as int] { &self.inner[i.0] } }
#[verifier::external_body]
fn filled<T: Copy>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|k: int| 0 <= k < n ==> r@[k] == x { vec![x; n] }
#[verifier::external_body]
fn empties<T>(n: usize) -> (r: Vec<Vec<T>>) ensures r@.len() == n, forall|k: int| 0 <= k < n ==> (#[trigger] r@[k])@ == Seq::<T>::empty() { unimplemented!() }
#[verifier::external_body]
fn tail_of(v: &Vec<HalfOutputSegIdx>, k: usize) -> (r: &[HalfOutputSegIdx]) requires k <= v@.len() ensures r@ == v@.subrange(k as int, v@.len() as int) { &v[k..] }
#[verifier::external_body]
fn set_path(v: &mut Vec<Contour>, k: usize, p: BezPath) requires k < old(v)@.len() ensures final(v)@ == old(v)@.update(k as int, Contour { path: p, ..old(v)@[k as int] }) { v[k].path = p; }
#[verifier::external_body]
fn push_to(v: &mut Vec<Vec<ContourIdx>>, k: usize, x: ContourIdx) requires k < old(v)@.len()
    ensures final(v)@.len() == old(v)@.len(), forall|j: int| 0 <= j < old(v)@.len() ==> (#[trigger] final(v)@[j])@ == (if j == k { old(v)@[j]@.push(x) } else { old(v)@[j]@ })
{ v[k].push(x); }

/// The topology, reduced to what the walk reads.
#[verifier::reject_recursive_types(W)]
struct Topology<W> {
    winding: OutputSegVec<HalfSegmentWindingNumbers<W>>, points: PointVec<Point>, point_idx: HalfOutputSegVec<PointIdx>,
    point_neighbors: HalfOutputSegVec<PointNeighbors>, deleted: OutputSegVec<bool>, scan_west: OutputSegVec<Option<OutputSegIdx>>,
}

// ---------------------------------------------------------------- the contract
spec fn hget<T>(v: HalfOutputSegVec<T>, h: HalfOutputSegIdx) -> T { if h.first_half { v.start@[h.idx.0 as int] } else { v.end@[h.idx.0 as int] } }
spec fn other(h: HalfOutputSegIdx) -> HalfOutputSegIdx { HalfOutputSegIdx { idx: h.idx, first_half: !h.first_half } }
spec fn right<W>(t: Topology<W>, h: HalfOutputSegIdx) -> W { if h.first_half { t.winding.inner@[h.idx.0 as int].clockwise } else { t.winding.inner@[h.idx.0 as int].counter_clockwise } }
spec fn left<W>(t: Topology<W>, h: HalfOutputSegIdx) -> W { if h.first_half { t.winding.inner@[h.idx.0 as int].counter_clockwise } else { t.winding.inner@[h.idx.0 as int].clockwise } }
spec fn pt<W>(t: Topology<W>, h: HalfOutputSegIdx) -> PointIdx { hget(t.point_idx, h) }
spec fn turn<W>(t: Topology<W>, h: HalfOutputSegIdx) -> HalfOutputSegIdx { hget(t.point_neighbors, h).clockwise }
spec fn live<W>(t: Topology<W>, h: HalfOutputSegIdx) -> bool { h.idx.0 < t.winding.inner@.len() && !t.deleted.inner@[h.idx.0 as int] }
spec fn ins<W, I: Fn(&W) -> bool>(i: I, w: W) -> bool { i.ensures((&w,), true) }
spec fn tells<W, I: Fn(&W) -> bool>(i: I) -> bool { (forall|w: &W| i.requires((w,))) && forall|w: W, a: bool, b: bool| #[trigger] i.ensures((&w,), a) && #[trigger] i.ensures((&w,), b) ==> a == b }
spec fn round<W>(t: Topology<W>, h: HalfOutputSegIdx, g: HalfOutputSegIdx) -> bool { live(t, g) && pt(t, g) == pt(t, h) && left(t, g) == right(t, h) }
/// The rings around the points are consistent (C05); a western neighbour comes before its segment, and one region is between them.
spec fn sound<W>(t: Topology<W>) -> bool {
    let n = t.winding.inner@.len();
    &&& t.deleted.inner@.len() == n && t.scan_west.inner@.len() == n && t.point_idx.start@.len() == n && t.point_idx.end@.len() == n
    &&& t.point_neighbors.start@.len() == n && t.point_neighbors.end@.len() == n
    &&& forall|h: HalfOutputSegIdx| live(t, h) ==> round(t, h, (#[trigger] hget(t.point_neighbors, h)).clockwise)
    &&& forall|h: HalfOutputSegIdx| live(t, h) ==> (#[trigger] hget(t.point_idx, h)).0 < t.points.inner@.len()
    &&& forall|k: int| 0 <= k < n ==> (#[trigger] t.scan_west.inner@[k]) is Some ==> (t.scan_west.inner@[k]->0).0 < k
    &&& forall|k: int| 0 <= k < n && !t.deleted.inner@[k] ==> #[trigger] t.winding.inner@[k].clockwise == beyond(t, west(t, t.scan_west.inner@[k]))
}
/// The winding number of nothing (W::default()).
uninterp spec fn nought<W>() -> W;
/// w or the next one to the west that was not removed.
spec fn west<W>(t: Topology<W>, w: Option<OutputSegIdx>) -> Option<OutputSegIdx> decreases (match w { None => 0, Some(k) => k.0 + 1 }) {
    match w { None => None, Some(k) => if !t.deleted.inner@[k.0 as int] { Some(k) } else { match t.scan_west.inner@[k.0 as int] { Some(v) if v.0 < k.0 => west(t, Some(v)), _ => None } } }
}
/// What is just east of it.
spec fn beyond<W>(t: Topology<W>, w: Option<OutputSegIdx>) -> W { match w { None => nought(), Some(k) => t.winding.inner@[k.0 as int].counter_clockwise } }
/// Where the boundary passes.
spec fn edge<W, I: Fn(&W) -> bool>(t: Topology<W>, i: I, k: int) -> bool { ins(i, t.winding.inner@[k].clockwise) != ins(i, t.winding.inner@[k].counter_clockwise) }
/// The far end of a boundary segment, walked with the inside on the left.
spec fn step<W, I: Fn(&W) -> bool>(t: Topology<W>, i: I, h: HalfOutputSegIdx) -> bool { live(t, h) && ins(i, right(t, h)) && !ins(i, left(t, h)) }
#[verifier::opaque]
spec fn steps<W, I: Fn(&W) -> bool>(t: Topology<W>, i: I, w: Seq<HalfOutputSegIdx>) -> bool {
    &&& forall|k: int| 0 <= k < w.len() ==> step(t, i, #[trigger] w[k])
    &&& forall|k: int| 0 < k < w.len() ==> pt(t, other(#[trigger] w[k])) == pt(t, w[k - 1])
}
#[verifier::opaque]
spec fn closed<W>(t: Topology<W>, w: Seq<HalfOutputSegIdx>) -> bool { w.len() > 0 && pt(t, other(w[0])) == pt(t, w[w.len() - 1]) && forall|k: int| 0 < k < w.len() ==> pt(t, other(#[trigger] w[k])) == pt(t, w[k - 1]) }
/// A closed walk along the boundary.
spec fn walked<W, I: Fn(&W) -> bool>(t: Topology<W>, i: I, w: Seq<HalfOutputSegIdx>) -> bool { w.len() > 0 && steps(t, i, w) && pt(t, other(w[0])) == pt(t, w[w.len() - 1]) }
spec fn on(w: Seq<HalfOutputSegIdx>, k: int) -> bool { exists|m: int| 0 <= m < w.len() && (#[trigger] w[m]).idx.0 == k }
spec fn nests(c: Seq<Contour>, k: int) -> bool { match c[k].parent { None => c[k].outer, Some(p) => p.0 < k && c[k].outer == !c[p.0 as int].outer } }
/// Parents come first, and inner and outer contours alternate.
#[verifier::opaque]
spec fn nested(c: Seq<Contour>) -> bool { forall|k: int| 0 <= k < c.len() ==> #[trigger] nests(c, k) }
uninterp spec fn positions_of<W>(t: Topology<W>) -> OutputSegVec<PositionedOutputSeg>;
uninterp spec fn path_of<W>(t: Topology<W>, w: Seq<HalfOutputSegIdx>, p: OutputSegVec<PositionedOutputSeg>) -> BezPath;
/// West of where the walk begins is outside.
spec fn begins<W, I: Fn(&W) -> bool>(t: Topology<W>, i: I, w: Seq<HalfOutputSegIdx>) -> bool { w.len() > 0 && !ins(i, t.winding.inner@[w[0].idx.0 as int].clockwise) }
/// The k'th contour is the path of the k'th walk, and if that contour is an outer one, west of where the walk begins is outside.
spec fn done<W, I: Fn(&W) -> bool>(t: Topology<W>, i: I, c: Seq<Contour>, walks: Seq<Seq<HalfOutputSegIdx>>, k: int) -> bool {
    walked(t, i, walks[k]) && c[k].path == path_of(t, walks[k], positions_of(t)) && (c[k].outer ==> begins(t, i, walks[k]))
}
#[verifier::opaque]
spec fn places(sc: Seq<Option<ContourIdx>>, walks: Seq<Seq<HalfOutputSegIdx>>) -> bool { forall|k: int| 0 <= k < sc.len() ==> match #[trigger] sc[k] { None => true, Some(c) => c.0 < walks.len() && on(walks[c.0 as int], k) } }
/// All contours but a and b are done.
#[verifier::opaque]
spec fn dones<W, I: Fn(&W) -> bool>(t: Topology<W>, i: I, c: Seq<Contour>, walks: Seq<Seq<HalfOutputSegIdx>>, a: int, b: int) -> bool { c.len() == walks.len() && forall|k: int| 0 <= k < c.len() && k != a && k != b ==> #[trigger] done(t, i, c, walks, k) }
/// What was visited is on a finished contour or on the current walk.
#[verifier::opaque]
spec fn cover(visited: Seq<bool>, sc: Seq<Option<ContourIdx>>, segs: Seq<HalfOutputSegIdx>) -> bool { visited.len() == sc.len() && forall|k: int| 0 <= k < visited.len() && #[trigger] visited[k] ==> sc[k] is Some || on(segs, k) }
/// The boundary up to k was visited.
#[verifier::opaque]
spec fn seen<W, I: Fn(&W) -> bool>(t: Topology<W>, i: I, visited: Seq<bool>, n: int) -> bool { forall|k: int| 0 <= k < n && !(#[trigger] t.deleted.inner@[k]) && edge(t, i, k) ==> visited[k] }
#[verifier::opaque]
spec fn marked(sc: Seq<Option<ContourIdx>>, segs: Seq<HalfOutputSegIdx>, a: int, b: int) -> bool { forall|m: int| a <= m < b ==> sc[(#[trigger] segs[m]).idx.0 as int] is Some }
spec fn on_some(walks: Seq<Seq<HalfOutputSegIdx>>, k: int) -> bool { exists|c: int| 0 <= c < walks.len() && on(#[trigger] walks[c], k) }
/// A contour of the result per walk; every live segment of the boundary is on one.
spec fn contoured<W, I: Fn(&W) -> bool>(t: Topology<W>, i: I, c: Seq<Contour>, walks: Seq<Seq<HalfOutputSegIdx>>) -> bool {
    &&& nested(c) && walks.len() == c.len()
    &&& forall|k: int| 0 <= k < c.len() ==> #[trigger] done(t, i, c, walks, k)
    &&& forall|k: int| 0 <= k < t.winding.inner@.len() && !(#[trigger] t.deleted.inner@[k]) && edge(t, i, k) ==> on_some(walks, k)
}

//@src src/topology.rs
impl OutputSegIdx {
//@fn OutputSegIdx::first_half
//@ret r
//@spec
ensures r.idx == self, r.first_half
//@end
//@fn OutputSegIdx::second_half
//@ret r
//@spec
ensures r.idx == self, !r.first_half
//@end
}
impl HalfOutputSegIdx {
//@fn HalfOutputSegIdx::other_half
//@ret r
//@spec
ensures r == other(self)
//@end
}
impl<T> HalfOutputSegVec<T> {
//@fn HalfOutputSegVec::index trait=Index as=at
//@sub &Self::Output ==> &T
//@ret r
//@spec
requires index.idx.0 < self.start@.len(), self.start@.len() == self.end@.len()
ensures *r == hget(*self, index)
//@end
}
impl Contour {
//@fn Contour::default trait=Default
//@ret r
//@spec
ensures r.parent is None, r.outer
//@end
}
impl<W> Topology<W> {
#[verifier::external_body]
fn compute_positions(&self) -> (r: OutputSegVec<PositionedOutputSeg>) ensures r == positions_of(*self) { unimplemented!() }
/// Needs a closed path.
#[verifier::external_body]
fn segs_to_path(&self, segs: &[HalfOutputSegIdx], positions: &OutputSegVec<PositionedOutputSeg>) -> (r: BezPath)
    requires closed(*self, segs@)
    ensures r == path_of(*self, segs@, *positions)
{ unimplemented!() }
//@fn Topology::winding_clockwise
//@sub self\.winding\[([^\]]*)\] ==> self.winding.at(\1)
//@ret r
//@spec
requires idx.idx.0 < self.winding.inner@.len()
ensures *r == right(*self, idx)
//@end
//@fn Topology::winding_counter_clockwise
//@sub self\.winding\[([^\]]*)\] ==> self.winding.at(\1)
//@ret r
//@spec
requires idx.idx.0 < self.winding.inner@.len()
ensures *r == left(*self, idx)
//@end

//@fn Topology::contours
//@let BDY let bdy = \|idx: OutputSegIdx\| -> bool \{(.*?)\n        \};
//@let HOLE let new_hole = \|ret: &mut Contours\| \{(.*?)\n            \};
//@attr #[verifier::exec_allows_no_decreases_clause]
//@sub (?s)let bdy = \|idx: OutputSegIdx\| -> bool \{.*?\n        \}; ==> {}
//@sub (?s)let new_hole = \|ret: &mut Contours\| \{.*?\n            \}; ==> {}
//@sub \bbdy\((\w+)\) ==> ({ let idx: OutputSegIdx = \1; ${BDY} })
//@sub new_hole\(&mut ret\) ==> ({ ${HOLE} })
//@sub \(&self, inside: impl Fn\(&W\) -> bool\) ==> <I: Fn(&W) -> bool>(&self, inside: I)
//@sub Contours::default\(\) ==> Contours { contours: Vec::new() }
//@sub vec!\[(\w+); ([^;]*)\]; ==> filled(\1, \2);
//@sub PointVec::with_capacity\(([^;]*)\); ==> PointVec { inner: filled(None, \1) };
//@sub last_visit\.inner\.resize\([^;]*\); ==> {}
//@sub (?s)debug_assert(_eq)?!\([^;]*\); ==> {}
//@sub (?s)panic!\([^;]*\); ==> assert(false); vstd::pervasive::unreached()
//@sub (?s)last_visit\[p\](?:\s*//[^\n]*)*\s*\.filter\(\|&idx\| (.*?)\); ==> match *last_visit.at(p) { Some(idx) => if \1 { Some(idx) } else { None }, None => None };
//@sub last_visit\[((?:[^\[\]]|\[[^\[\]]*\])*)\] = ([^;]*); ==> { let p_ = \1; let v_ = \2; last_visit.inner.set(p_.0, v_); }
//@sub self\.(winding|scan_west|deleted|point_idx|point_neighbors)\[((?:[^\[\]]|\[[^\[\]]*\])*)\] ==> (*self.\1.at(\2))
//@sub for (\w+) in self\.segment_indices\(\)\s*\n\s*(invariant[^{]*)\{ ==> let mut number: usize = 0; while number < self.winding.inner.len() \2 { let \1 = OutputSegIdx(number); number = number + 1; proof { if visited@[number - 1] || t.deleted.inner@[number - 1] || !edge(t, inside, number - 1) { lemma_seen(t, inside, visited@, number - 1); } } if *self.deleted.at(\1) { continue; }
//@sub while let Some\((\w+)\) = west_seg\s*\n\s*(invariant[^{]*)\{ ==> while west_seg.is_some() \2 { let \1 = west_seg.unwrap();
//@sub for &(\w+) in &segs\[(\w+)\.\.\]\s*\n\s*(invariant[^{]*)\{ ==> let mut place: usize = \2; while place < segs.len() \3 { let \1 = segs[place]; place = place + 1;
//@sub for &(\w+) in &segs\s*\n\s*(invariant[^{]*)\{ ==> let mut place: usize = 0; while place < segs.len() \2 { let \1 = segs[place]; place = place + 1;
//@sub &segs\[(\w+)\.\.\] ==> tail_of(&segs, \1)
//@sub segs_to_path\(&segs, ==> segs_to_path(segs.as_slice(),
//@sub (?s)ret\.contours\[([\w.]+)\]\.path =\s*([^;]*); ==> let path_ = \2; set_path(&mut ret.contours, \1, path_);
//@start
let ghost t = *self;
let ghost n = self.winding.inner@.len() as int;
let ghost mut walks: Seq<Seq<HalfOutputSegIdx>> = Seq::empty();
proof { reveal(nested); reveal(dones); reveal(places); reveal(cover); reveal(seen); }
//@loop 0
    invariant sound(t), t == *self, n == self.winding.inner@.len(), tells(inside), !ins(inside, nought()), positions == positions_of(t), 0 <= number <= n, visited@.len() == n, seg_contour@.len() == n, last_visit.inner@.len() == t.points.inner@.len(),
        nested(ret.contours@), dones(t, inside, ret.contours@, walks, -1, -1), places(seg_contour@, walks), cover(visited@, seg_contour@, Seq::empty()), seen(t, inside, visited@, number as int)
//@loop 1
    invariant sound(t), t == *self, n == self.winding.inner@.len(), tells(inside), !ins(inside, nought()), idx.0 < n, west_seg is Some ==> (west_seg->0).0 < idx.0, ins(inside, beyond(t, west(t, west_seg))) == ins(inside, t.winding.inner@[idx.0 as int].clockwise)
    ensures ins(inside, beyond(t, west_seg)) == ins(inside, t.winding.inner@[idx.0 as int].clockwise),
        west_seg is Some ==> (west_seg->0).0 < idx.0 && !t.deleted.inner@[(west_seg->0).0 as int] && edge(t, inside, (west_seg->0).0 as int),
//@after 1
proof { if west_seg is Some { lemma_west(t, inside, visited@, seg_contour@, walks, number - 1, (west_seg->0).0 as int); } reveal(dones); reveal(nested); }
//@at let outside
proof { reveal(nested); assert(nests(ret.contours@, west_contour.0 as int)); }
//@at ret\.contours\.push\(contour\)
let ghost before = ret.contours@;
//@at let \(start, mut next\)
proof {
    lemma_added(before, ret.contours@);
    lemma_new(t, inside, before, ret.contours@, walks, seg_contour@, -1, -1);
    walks = walks.push(Seq::empty());
}
//@at let new_hole
proof { reveal(nested); assert(edge(t, inside, idx.0 as int)); assert(live(t, start)); assert(other(next) == start); reveal(steps); }
//@loop 2
    invariant_except_break !start_loop_finished && segs@.len() == 0 ==> next.idx == idx, visited@[idx.0 as int] || next.idx == idx, step(t, inside, next), pt(t, other(next)) == (if segs@.len() > 0 { pt(t, segs@[segs@.len() - 1]) } else { pt(t, start) })
    invariant sound(t), t == *self, n == self.winding.inner@.len(), tells(inside), positions == positions_of(t), 0 < number <= n, number == idx.0 + 1, visited@.len() == n, seg_contour@.len() == n, last_visit.inner@.len() == t.points.inner@.len(),
        live(t, start), nested(ret.contours@), walks.len() == ret.contours@.len(), contour_idx.0 < walks.len(), !start_loop_finished ==> walks[contour_idx.0 as int].len() == 0, idx.0 < n, ret.contours@[contour_idx.0 as int].outer ==> !ins(inside, t.winding.inner@[idx.0 as int].clockwise),
        !start_loop_finished && segs@.len() > 0 ==> segs@[0].idx == idx,
        dones(t, inside, ret.contours@, walks, if start_loop_finished { -1 } else { contour_idx.0 as int }, -1),
        hole_parent is Some, (hole_parent->0).0 < walks.len(), ret.contours@[(hole_parent->0).0 as int].outer,
        places(seg_contour@, walks), cover(visited@, seg_contour@, segs@), seen(t, inside, visited@, number - 1),
        steps(t, inside, segs@), segs@.len() > 0 ==> pt(t, other(segs@[0])) == pt(t, start),
    ensures walked(t, inside, segs@), visited@[idx.0 as int]
//@in 2
let ghost visited0 = visited@;
let ghost segs0 = segs@;
//@loop 3
    invariant sound(t), t == *self, n == self.winding.inner@.len(), tells(inside), live(t, nbr), ins(inside, left(t, nbr)), pt(t, nbr) == pt(t, next)
    ensures step(t, inside, other(nbr)), pt(t, nbr) == pt(t, next), live(t, nbr),
//@post segs\.push\(next\);
proof { lemma_step(t, inside, visited0, seg_contour@, segs0, next, number - 1); lemma_walked(t, inside, segs@); }
//@at let loop_contour_idx
let ghost c0 = ret.contours@;
let ghost finished0 = start_loop_finished;
let ghost walks0 = walks;
//@at for &seg in &segs\[
let ghost mut unfilled = walks;
let ghost w = segs@.subrange(seg_idx as int, segs@.len() as int);
proof {
    if finished0 || seg_idx != 0 {
        lemma_hole(c0, ret.contours@, hole_parent->0);
        lemma_new(t, inside, c0, ret.contours@, walks0, seg_contour@, if finished0 { -1 } else { contour_idx.0 as int }, -1);
        walks = walks.push(Seq::empty());
    }
    unfilled = walks;
    lemma_fill(seg_contour@, walks, loop_contour_idx.0 as int, w);
    walks = walks.update(loop_contour_idx.0 as int, w);
    if !finished0 && seg_idx == 0 { lemma_swap(t, inside, ret.contours@, unfilled, contour_idx.0 as int, -1); }
    lemma_cut(t, inside, segs@, seg_idx as int);
    lemma_closed(t, inside, w);
    lemma_walked(t, inside, segs@);
    reveal(marked);
}
let ghost opened = ret.contours@;
//@loop 4
    invariant seg_idx <= place <= segs@.len(), visited@.len() == n, seg_contour@.len() == n, forall|k: int| 0 <= k < segs@.len() ==> (#[trigger] segs@[k]).idx.0 < n, loop_contour_idx.0 < walks.len(), walks[loop_contour_idx.0 as int] == segs@.subrange(seg_idx as int, segs@.len() as int),
        places(seg_contour@, walks), cover(visited@, seg_contour@, segs@), marked(seg_contour@, segs@, seg_idx as int, place as int),
//@tail 4
proof { lemma_mark(marks0, visited@, walks, segs@, seg_idx as int, place - 1, loop_contour_idx); }
//@in 4
let ghost marks0 = seg_contour@;
//@at segs\.truncate
proof {
    lemma_set(t, inside, opened, ret.contours@, unfilled, walks, if start_loop_finished { -1 } else { contour_idx.0 as int }, loop_contour_idx.0 as int);
    lemma_cover_cut(visited@, seg_contour@, segs@, seg_idx as int);
}
//@at let last_contour_idx
let ghost c0 = ret.contours@;
let ghost finished0 = start_loop_finished;
//@at for &seg in &segs \{
let ghost mut unfilled = walks;
let ghost opened = ret.contours@;
proof {
    if finished0 {
        lemma_hole(c0, ret.contours@, hole_parent->0);
        lemma_new(t, inside, c0, ret.contours@, walks, seg_contour@, -1, -1);
        walks = walks.push(Seq::empty());
    }
    lemma_closed(t, inside, segs@); lemma_walked(t, inside, segs@);
    unfilled = walks;
    assert(segs@.subrange(0, segs@.len() as int) =~= segs@);
    lemma_fill(seg_contour@, walks, last_contour_idx.0 as int, segs@);
    walks = walks.update(last_contour_idx.0 as int, segs@);
    reveal(marked);
}
//@loop 5
    invariant 0 <= place <= segs@.len(), visited@.len() == n, seg_contour@.len() == n, forall|k: int| 0 <= k < segs@.len() ==> (#[trigger] segs@[k]).idx.0 < n, last_contour_idx.0 < walks.len(), walks[last_contour_idx.0 as int] == segs@.subrange(0, segs@.len() as int),
        places(seg_contour@, walks), cover(visited@, seg_contour@, segs@), marked(seg_contour@, segs@, 0, place as int),
//@in 5
let ghost marks0 = seg_contour@;
//@tail 5
proof { lemma_mark(marks0, visited@, walks, segs@, 0, place - 1, last_contour_idx); }
//@tail 0
proof {
    lemma_set(t, inside, opened, ret.contours@, unfilled, walks, -1, last_contour_idx.0 as int);
    lemma_cover_cut(visited@, seg_contour@, segs@, 0);
    assert(segs@.subrange(0, 0) =~= Seq::empty());
    lemma_seen(t, inside, visited@, number - 1);
}
//@after 0
proof { lemma_contoured(t, inside, ret.contours@, walks, visited@, seg_contour@); }
//@ret r
//@spec
requires sound(*self), tells(inside), !ins(inside, nought())
ensures exists|walks: Seq<Seq<HalfOutputSegIdx>>| #[trigger] contoured(*self, inside, r.contours@, walks)
//@end
}
proof fn lemma_seen<W, I: Fn(&W) -> bool>(t: Topology<W>, i: I, visited: Seq<bool>, k: int)
    requires 0 <= k < t.winding.inner@.len(), seen(t, i, visited, k), visited[k] || t.deleted.inner@[k] || !edge(t, i, k)
    ensures seen(t, i, visited, k + 1)
{ reveal(seen); }
/// A visited segment of the boundary has a contour.
proof fn lemma_west<W, I: Fn(&W) -> bool>(t: Topology<W>, i: I, visited: Seq<bool>, sc: Seq<Option<ContourIdx>>, walks: Seq<Seq<HalfOutputSegIdx>>, n: int, w: int)
    requires seen(t, i, visited, n), cover(visited, sc, Seq::empty()), places(sc, walks), 0 <= w < n, n <= visited.len(), !t.deleted.inner@[w], edge(t, i, w)
    ensures sc[w] is Some, (sc[w]->0).0 < walks.len()
{ reveal(seen); reveal(cover); reveal(places); assert(visited[w]); }
/// One more contour, not finished.
proof fn lemma_new<W, I: Fn(&W) -> bool>(t: Topology<W>, i: I, c0: Seq<Contour>, c: Seq<Contour>, walks: Seq<Seq<HalfOutputSegIdx>>, sc: Seq<Option<ContourIdx>>, a: int, b: int)
    requires dones(t, i, c0, walks, a, b), a == b || b == -1, places(sc, walks), c.len() == c0.len() + 1, c == c0.push(c[c0.len() as int])
    ensures dones(t, i, c, walks.push(Seq::empty()), a, c0.len() as int), places(sc, walks.push(Seq::empty()))
{
    reveal(dones); reveal(places);
    let w = walks.push(Seq::empty());
    assert forall|k: int| 0 <= k < c.len() && k != a && k != c0.len() implies #[trigger] done(t, i, c, w, k) by { if k != b { assert(done(t, i, c0, walks, k)); assert(c[k] == c0[k]); } }
    assert forall|k: int| 0 <= k < sc.len() implies match #[trigger] sc[k] { None => true, Some(c) => c.0 < w.len() && on(w[c.0 as int], k) } by { if sc[k] is Some { assert(w[(sc[k]->0).0 as int] == walks[(sc[k]->0).0 as int]); } }
}
proof fn lemma_added(c0: Seq<Contour>, c: Seq<Contour>)
    requires nested(c0), c.len() == c0.len() + 1, c == c0.push(c[c0.len() as int]), nests(c, c0.len() as int)
    ensures nested(c)
{
    reveal(nested);
    assert forall|k: int| 0 <= k < c.len() implies #[trigger] nests(c, k) by {
        if k < c0.len() { assert(nests(c0, k)); assert(c[k] == c0[k]); if c0[k].parent is Some { assert(c[(c0[k].parent->0).0 as int] == c0[(c0[k].parent->0).0 as int]); } }
    }
}
/// One more hole in an outer contour.
proof fn lemma_hole(c0: Seq<Contour>, c: Seq<Contour>, p: ContourIdx)
    requires nested(c0), c.len() == c0.len() + 1, c == c0.push(c[c0.len() as int]), p.0 < c0.len(), c0[p.0 as int].outer, c[c0.len() as int].parent == Some(p), !c[c0.len() as int].outer
    ensures nested(c)
{
    reveal(nested);
    assert forall|k: int| 0 <= k < c.len() implies #[trigger] nests(c, k) by {
        if k < c0.len() { assert(nests(c0, k)); assert(c[k] == c0[k]); if c0[k].parent is Some { assert(c[(c0[k].parent->0).0 as int] == c0[(c0[k].parent->0).0 as int]); } } else { assert(c[p.0 as int] == c0[p.0 as int]); }
    }
}
/// The unfinished contour gets its walk.
proof fn lemma_fill(sc: Seq<Option<ContourIdx>>, walks: Seq<Seq<HalfOutputSegIdx>>, b: int, w: Seq<HalfOutputSegIdx>)
    requires places(sc, walks), 0 <= b < walks.len(), walks[b].len() == 0
    ensures places(sc, walks.update(b, w))
{ reveal(places); }
/// and its path.
proof fn lemma_set<W, I: Fn(&W) -> bool>(t: Topology<W>, i: I, c0: Seq<Contour>, c: Seq<Contour>, w0: Seq<Seq<HalfOutputSegIdx>>, w: Seq<Seq<HalfOutputSegIdx>>, a: int, b: int)
    requires dones(t, i, c0, w0, a, b), 0 <= b < c0.len(), a != b, nested(c0), w == w0.update(b, w[b]), walked(t, i, w[b]), c0[b].outer ==> begins(t, i, w[b]), c == c0.update(b, Contour { path: path_of(t, w[b], positions_of(t)), ..c0[b] })
    ensures dones(t, i, c, w, a, -1), nested(c), c.len() == c0.len(), forall|k: int| 0 <= k < c.len() ==> (#[trigger] c[k]).outer == c0[k].outer
{
    reveal(dones); reveal(nested);
    assert forall|k: int| 0 <= k < c.len() && k != a implies #[trigger] done(t, i, c, w, k) by { if k != b { assert(done(t, i, c0, w0, k)); } }
    assert forall|k: int| 0 <= k < c.len() implies #[trigger] nests(c, k) by {
        assert(nests(c0, k)); assert(c[k].parent == c0[k].parent && c[k].outer == c0[k].outer);
    }
}
proof fn lemma_swap<W, I: Fn(&W) -> bool>(t: Topology<W>, i: I, c: Seq<Contour>, walks: Seq<Seq<HalfOutputSegIdx>>, a: int, b: int) requires dones(t, i, c, walks, a, b) ensures dones(t, i, c, walks, b, a) { reveal(dones); }
proof fn lemma_step<W, I: Fn(&W) -> bool>(t: Topology<W>, i: I, visited: Seq<bool>, sc: Seq<Option<ContourIdx>>, segs: Seq<HalfOutputSegIdx>, h: HalfOutputSegIdx, n: int)
    requires cover(visited, sc, segs), steps(t, i, segs), step(t, i, h), segs.len() > 0 ==> pt(t, other(h)) == pt(t, segs[segs.len() - 1]), h.idx.0 < visited.len(), seen(t, i, visited, n), n <= visited.len()
    ensures cover(visited.update(h.idx.0 as int, true), sc, segs.push(h)), steps(t, i, segs.push(h)), seen(t, i, visited.update(h.idx.0 as int, true), n)
{
    reveal(cover); reveal(steps); reveal(seen);
    let s = segs.push(h);
    let v = visited.update(h.idx.0 as int, true);
    assert forall|k: int| 0 <= k < v.len() && #[trigger] v[k] implies sc[k] is Some || on(s, k) by {
        if k == h.idx.0 { assert(s[segs.len() as int].idx.0 == k); } else { assert(visited[k]); if on(segs, k) { let m = choose|m: int| 0 <= m < segs.len() && (#[trigger] segs[m]).idx.0 == k; assert(s[m].idx.0 == k); } }
    }
}
proof fn lemma_walked<W, I: Fn(&W) -> bool>(t: Topology<W>, i: I, w: Seq<HalfOutputSegIdx>)
    requires steps(t, i, w)
    ensures forall|k: int| 0 <= k < w.len() ==> step(t, i, #[trigger] w[k])
{ reveal(steps); }
proof fn lemma_closed<W, I: Fn(&W) -> bool>(t: Topology<W>, i: I, w: Seq<HalfOutputSegIdx>) requires walked(t, i, w) ensures closed(t, w) { reveal(steps); reveal(closed); }
/// A walk that returns to a point splits into a closed one and the rest.
proof fn lemma_cut<W, I: Fn(&W) -> bool>(t: Topology<W>, i: I, w: Seq<HalfOutputSegIdx>, k: int)
    requires steps(t, i, w), 0 <= k < w.len(), pt(t, other(w[k])) == pt(t, w[w.len() - 1])
    ensures walked(t, i, w.subrange(k, w.len() as int)), steps(t, i, w.subrange(0, k)), k > 0 ==> pt(t, w[k - 1]) == pt(t, w[w.len() - 1])
{ reveal(steps); }
proof fn lemma_mark(sc: Seq<Option<ContourIdx>>, visited: Seq<bool>, walks: Seq<Seq<HalfOutputSegIdx>>, segs: Seq<HalfOutputSegIdx>, a: int, m: int, c: ContourIdx)
    requires places(sc, walks), cover(visited, sc, segs), marked(sc, segs, a, m), 0 <= a <= m < segs.len(), c.0 < walks.len(), walks[c.0 as int] == segs.subrange(a, segs.len() as int), forall|k: int| 0 <= k < segs.len() ==> (#[trigger] segs[k]).idx.0 < sc.len()
    ensures ({ let s = sc.update(segs[m].idx.0 as int, Some(c)); places(s, walks) && cover(visited, s, segs) && marked(s, segs, a, m + 1) })
{
    reveal(places); reveal(cover); reveal(marked);
    let s = sc.update(segs[m].idx.0 as int, Some(c));
    assert(walks[c.0 as int][m - a] == segs[m]);
    assert(on(walks[c.0 as int], segs[m].idx.0 as int));
}
proof fn lemma_cover_cut(visited: Seq<bool>, sc: Seq<Option<ContourIdx>>, segs: Seq<HalfOutputSegIdx>, a: int)
    requires cover(visited, sc, segs), marked(sc, segs, a, segs.len() as int), 0 <= a <= segs.len()
    ensures cover(visited, sc, segs.subrange(0, a))
{
    reveal(cover); reveal(marked);
    let s = segs.subrange(0, a);
    assert forall|k: int| 0 <= k < visited.len() && #[trigger] visited[k] implies sc[k] is Some || on(s, k) by {
        if sc[k] is None { let m = choose|m: int| 0 <= m < segs.len() && (#[trigger] segs[m]).idx.0 == k; assert(m < a); assert(s[m].idx.0 == k); }
    }
}
proof fn lemma_contoured<W, I: Fn(&W) -> bool>(t: Topology<W>, i: I, c: Seq<Contour>, walks: Seq<Seq<HalfOutputSegIdx>>, visited: Seq<bool>, sc: Seq<Option<ContourIdx>>)
    requires nested(c), dones(t, i, c, walks, -1, -1), places(sc, walks), cover(visited, sc, Seq::empty()), visited.len() == t.winding.inner@.len(), seen(t, i, visited, visited.len() as int)
    ensures contoured(t, i, c, walks)
{
    reveal(nested); reveal(dones); reveal(places); reveal(cover); reveal(seen);
    assert forall|k: int| 0 <= k < t.winding.inner@.len() && !(#[trigger] t.deleted.inner@[k]) && edge(t, i, k) implies on_some(walks, k) by {
        assert(visited[k]); assert(sc[k] is Some); assert(on(walks[(sc[k]->0).0 as int], k));
    }
}

// ---------------------------------------------------------------- the grouping
type Lists = Seq<Seq<ContourIdx>>;
spec fn lists(v: Seq<Vec<ContourIdx>>) -> Lists { Seq::new(v.len(), |k: int| v[k]@) }
/// Children come after their parents.
spec fn forward(ch: Lists) -> bool { forall|k: int, m: int| 0 <= k < ch.len() && 0 <= m < ch[k].len() ==> k < (#[trigger] ch[k][m]).0 < ch.len() }
/// A contour and all below it, in the order they are listed.
spec fn under(ch: Lists, r: int) -> Seq<ContourIdx> decreases ch.len() - r, 1int, 0int {
    if r < 0 || r >= ch.len() { Seq::empty() } else { seq![ContourIdx(r as usize)] + under_first(ch, r, ch[r].len() as int) }
}
spec fn under_first(ch: Lists, r: int, n: int) -> Seq<ContourIdx> decreases ch.len() - r, 0int, n {
    if r < 0 || r >= ch.len() || n <= 0 || n > ch[r].len() || ch[r][n - 1].0 <= r || ch[r][n - 1].0 >= ch.len() { Seq::empty() } else { under_first(ch, r, n - 1) + under(ch, ch[r][n - 1].0 as int) }
}
spec fn ordered(c: Seq<Contour>) -> bool { forall|k: int| 0 <= k < c.len() && (#[trigger] c[k]).parent is Some ==> (c[k].parent->0).0 < k }
/// The children of p among the first n contours, and the contours without a parent.
spec fn children_of(c: Seq<Contour>, p: int, n: int) -> Seq<ContourIdx> decreases n {
    if n <= 0 { Seq::empty() } else if c[n - 1].parent is Some && (c[n - 1].parent->0).0 == p { children_of(c, p, n - 1).push(ContourIdx((n - 1) as usize)) } else { children_of(c, p, n - 1) }
}
spec fn tops(c: Seq<Contour>, n: int) -> Seq<ContourIdx> decreases n {
    if n <= 0 { Seq::empty() } else if c[n - 1].parent is None { tops(c, n - 1).push(ContourIdx((n - 1) as usize)) } else { tops(c, n - 1) }
}
spec fn families(c: Seq<Contour>) -> Lists { Seq::new(c.len(), |p: int| children_of(c, p, c.len() as int)) }
//@src src/topology.rs@visit
//@fn visit
//@sub children: &\[Vec<ContourIdx>\] ==> children: &Vec<Vec<ContourIdx>>
//@sub for &(\w+) in &children\[([\w.]+)\]\s*\n\s*(invariant[^{]*)\{ ==> let mut place: usize = 0; while place < children[\2].len() \3 { let \1 = children[\2][place]; place = place + 1;
//@loop 0
    invariant 0 <= place <= children@[idx.0 as int]@.len(), idx.0 < children@.len(), forward(lists(children@)), acc@ == old(acc)@.push(idx) + under_first(lists(children@), idx.0 as int, place as int)
    decreases children@[idx.0 as int]@.len() - place
//@in 0
let ghost was = acc@;
assert(lists(children@)[idx.0 as int][place - 1] == child);
//@tail 0
assert(acc@ =~= old(acc)@.push(idx) + under_first(lists(children@), idx.0 as int, place as int));
//@finish
assert(lists(children@)[idx.0 as int].len() == children@[idx.0 as int]@.len());
assert(acc@ =~= old(acc)@ + under(lists(children@), idx.0 as int));
//@spec
requires idx.0 < children@.len(), forward(lists(children@))
ensures final(acc)@ == old(acc)@ + under(lists(children@), idx.0 as int)
decreases children@.len() - idx.0
//@end
//@src src/topology.rs
impl Contours {
//@fn Contours::grouped
//@sub (?s)fn visit\(.*?\n            \} ==> {}
//@sub vec!\[Vec::new\(\); ([^;]*)\]; ==> empties(\1);
//@sub children\[(\w+)\.0\]\.push\(([^;]*)\); ==> push_to(&mut children, \1.0, \2);
//@sub let mut (\w+) = Vec::with_capacity\([^;]*\); ==> let mut \1: Vec<Vec<ContourIdx>> = Vec::new();
//@sub let mut top_level = Vec::new\(\); ==> let mut top_level: Vec<ContourIdx> = Vec::new();
//@sub let mut tree = Vec::new\(\); ==> let mut tree: Vec<ContourIdx> = Vec::new();
//@sub for (\w+) in 0\.\.([\w.()]+)\s*\n\s*(invariant[^{]*)\{ ==> let mut number: usize = 0; while number < \2 \3 { let \1 = number; number = number + 1; let ghost before = lists(children@);
//@sub for (\w+) in top_level\s*\n\s*(invariant[^{]*)\{ ==> let mut number: usize = 0; while number < top_level.len() \2 { let \1 = top_level[number]; number = number + 1;
//@start
let ghost c = self.contours@;
//@loop 0
    invariant c == self.contours@, ordered(c), number <= c.len(), children@.len() == c.len(), lists(children@) =~= Seq::new(c.len(), |p: int| children_of(c, p, number as int)), top_level@ == tops(c, number as int)
    decreases c.len() - number
//@tail 0
assert forall|p: int| 0 <= p < c.len() implies lists(children@)[p] == children_of(c, p, number as int) by { assert(before[p] == children_of(c, p, number - 1)); }
//@after 0
proof { assert(lists(children@) =~= families(c)); lemma_families(c); lemma_tops(c, c.len() as int); }
//@loop 1
    invariant c == self.contours@, lists(children@) == families(c), forward(families(c)), children@.len() == c.len(), top_level@ == tops(c, c.len() as int), number <= top_level@.len(), ret@.len() == number,
        forall|k: int| 0 <= k < top_level@.len() ==> (#[trigger] top_level@[k]).0 < c.len(),
        forall|k: int| 0 <= k < number ==> (#[trigger] ret@[k])@ == under(families(c), tops(c, c.len() as int)[k].0 as int)
    decreases top_level@.len() - number
//@tail 1
assert(ret@[number - 1]@ =~= under(families(c), top.0 as int));
//@ret r
//@spec
requires ordered(self.contours@)
ensures r@.len() == tops(self.contours@, self.contours@.len() as int).len(), forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k])@ == under(families(self.contours@), tops(self.contours@, self.contours@.len() as int)[k].0 as int)
//@end
}
proof fn lemma_children(c: Seq<Contour>, p: int, n: int)
    requires 0 <= n <= c.len() <= usize::MAX, ordered(c)
    ensures forall|m: int| 0 <= m < children_of(c, p, n).len() ==> p < (#[trigger] children_of(c, p, n)[m]).0 < n && c[children_of(c, p, n)[m].0 as int].parent == Some(ContourIdx(p as usize)),
    decreases n
{ if n > 0 { lemma_children(c, p, n - 1); } }
proof fn lemma_families(c: Seq<Contour>) requires ordered(c), c.len() <= usize::MAX ensures forward(families(c))
{ assert forall|k: int, m: int| 0 <= k < families(c).len() && 0 <= m < families(c)[k].len() implies k < (#[trigger] families(c)[k][m]).0 < families(c).len() by { lemma_children(c, k, c.len() as int); } }
proof fn lemma_tops(c: Seq<Contour>, n: int) requires 0 <= n <= c.len() <= usize::MAX
    ensures forall|m: int| 0 <= m < tops(c, n).len() ==> (#[trigger] tops(c, n)[m]).0 < n && c[tops(c, n)[m].0 as int].parent is None
    decreases n { if n > 0 { lemma_tops(c, n - 1); } }

// ---------------------------------------------------------------- what the grouping is good for
spec fn up(c: Seq<Contour>, i: int) -> int { match c[i].parent { Some(p) if p.0 < i => p.0 as int, _ => -1 } }
/// i is r or inside of r.
spec fn below(c: Seq<Contour>, r: int, i: int) -> bool decreases i { i == r || (i > 0 && up(c, i) >= 0 && up(c, i) < i && below(c, r, up(c, i))) }
/// The child of r that i is in.
spec fn via(c: Seq<Contour>, r: int, i: int) -> int decreases i { if up(c, i) == r || up(c, i) < 0 || up(c, i) >= i { i } else { via(c, r, up(c, i)) } }
spec fn root(c: Seq<Contour>, i: int) -> int decreases i { if up(c, i) < 0 || up(c, i) >= i { i } else { root(c, up(c, i)) } }
spec fn times(s: Seq<ContourIdx>, i: int) -> nat { s.to_multiset().count(ContourIdx(i as usize)) }
spec fn one(b: bool) -> nat { if b { 1 } else { 0 } }
proof fn lemma_below(c: Seq<Contour>, j: int, i: int) requires 0 <= i, below(c, j, i) ensures j <= i decreases i { if i != j { lemma_below(c, j, up(c, i)); } }
proof fn lemma_via(c: Seq<Contour>, r: int, j: int, i: int)
    requires ordered(c), 0 <= r < j < c.len(), 0 <= i < c.len(), c[j].parent == Some(ContourIdx(r as usize)), c.len() <= usize::MAX
    ensures below(c, j, i) == (below(c, r, i) && i != r && via(c, r, i) == j)
    decreases i
{
    assert(up(c, j) == r);
    if i == j { assert(below(c, r, r)); assert(via(c, r, i) == i); }
    else if i <= r { if below(c, j, i) { lemma_below(c, j, i); } if i < r && below(c, r, i) { lemma_below(c, r, i); } }
    else {
        let p = up(c, i);
        assert(p < i);
        if p < 0 { assert(!below(c, j, i)); assert(!below(c, r, i)); }
        else {
            lemma_via(c, r, j, p);
            assert(below(c, j, i) == below(c, j, p));
            assert(below(c, r, i) == below(c, r, p));
            if p == r { if below(c, j, r) { lemma_below(c, j, r); } assert(via(c, r, i) == i); }
            else { assert(via(c, r, i) == via(c, r, p)); }
        }
    }
}
proof fn lemma_via_child(c: Seq<Contour>, r: int, i: int)
    requires ordered(c), 0 <= r, 0 <= i < c.len(), below(c, r, i), i != r, c.len() <= usize::MAX
    ensures 0 <= via(c, r, i) < c.len(), c[via(c, r, i)].parent == Some(ContourIdx(r as usize))
    decreases i
{ if up(c, i) != r { lemma_via_child(c, r, up(c, i)); } }
/// Children are listed once each, in order.
proof fn lemma_children_once(c: Seq<Contour>, p: int, n: int)
    requires 0 <= n <= c.len() <= usize::MAX, ordered(c), 0 <= p
    ensures forall|a: int, b: int| 0 <= a < b < children_of(c, p, n).len() ==> (#[trigger] children_of(c, p, n)[a]).0 < (#[trigger] children_of(c, p, n)[b]).0,
        forall|j: int| 0 <= j < n && c[j].parent == Some(ContourIdx(p as usize)) && p <= usize::MAX ==> #[trigger] children_of(c, p, n).contains(ContourIdx(j as usize)),
    decreases n
{
    if n > 0 {
        lemma_children_once(c, p, n - 1); lemma_children(c, p, n - 1); lemma_children(c, p, n);
        assert forall|j: int| 0 <= j < n && c[j].parent == Some(ContourIdx(p as usize)) && p <= usize::MAX implies #[trigger] children_of(c, p, n).contains(ContourIdx(j as usize)) by {
            let a = children_of(c, p, n - 1);
            if j == n - 1 { assert(children_of(c, p, n)[a.len() as int] == ContourIdx(j as usize)); }
            else { assert(a.contains(ContourIdx(j as usize))); let m = choose|m: int| 0 <= m < a.len() && a[m] == ContourIdx(j as usize); assert(children_of(c, p, n)[m] == a[m]); }
        }
    }
}
proof fn lemma_times(a: Seq<ContourIdx>, b: Seq<ContourIdx>, i: int) ensures times(a + b, i) == times(a, i) + times(b, i)
{ vstd::seq_lib::lemma_multiset_commutative(a, b); }
proof fn lemma_times_one(k: int, i: int) requires 0 <= k <= usize::MAX, 0 <= i <= usize::MAX ensures times(seq![ContourIdx(k as usize)], i) == one(i == k)
{
    let e = Seq::<ContourIdx>::empty();
    e.to_multiset_ensures();
    assert(e.len() == 0);
    assert(seq![ContourIdx(k as usize)] =~= e.push(ContourIdx(k as usize)));
}
spec fn taken(s: Seq<ContourIdx>, n: int, v: int) -> bool { exists|m: int| 0 <= m < n && (#[trigger] s[m]).0 == v }
/// A contour is listed under r exactly once if it is inside of r, and else not at all.
proof fn lemma_under(c: Seq<Contour>, r: int, i: int)
    requires ordered(c), 0 <= r < c.len() <= usize::MAX, 0 <= i < c.len()
    ensures times(under(families(c), r), i) == one(below(c, r, i))
    decreases c.len() - r, 1int, 0int
{
    let ch = families(c);
    let n = ch[r].len() as int;
    lemma_families(c);
    lemma_under_first(c, r, i, n);
    lemma_times(seq![ContourIdx(r as usize)], under_first(ch, r, n), i);
    lemma_times_one(r, i);
    if below(c, r, i) && i != r {
        lemma_via_child(c, r, i); lemma_children_once(c, r, c.len() as int);
        assert(ch[r].contains(ContourIdx(via(c, r, i) as usize)));
        let m = choose|m: int| 0 <= m < n && ch[r][m] == ContourIdx(via(c, r, i) as usize);
        assert(taken(ch[r], n, via(c, r, i)));
    }
}
proof fn lemma_under_first(c: Seq<Contour>, r: int, i: int, n: int)
    requires ordered(c), 0 <= r < c.len() <= usize::MAX, 0 <= i < c.len(), 0 <= n <= families(c)[r].len()
    ensures times(under_first(families(c), r, n), i) == one(below(c, r, i) && i != r && taken(families(c)[r], n, via(c, r, i)))
    decreases c.len() - r, 0int, n
{
    let ch = families(c);
    if n == 0 { Seq::<ContourIdx>::empty().to_multiset_ensures(); assert(times(Seq::<ContourIdx>::empty(), i) == 0); }
    else {
        lemma_families(c); lemma_children(c, r, c.len() as int); lemma_children_once(c, r, c.len() as int);
        let j = ch[r][n - 1].0 as int;
        lemma_under_first(c, r, i, n - 1);
        lemma_under(c, j, i);
        lemma_via(c, r, j, i);
        lemma_times(under_first(ch, r, n - 1), under(ch, j), i);
        assert(under_first(ch, r, n) == under_first(ch, r, n - 1) + under(ch, j));
        let v = via(c, r, i);
        if taken(ch[r], n, v) && v != j { let m = choose|m: int| 0 <= m < n && (#[trigger] ch[r][m]).0 == v; assert(m < n - 1); assert(taken(ch[r], n - 1, v)); }
        if v == j { assert(ch[r][n - 1].0 == v); assert(taken(ch[r], n, v)); assert(!taken(ch[r], n - 1, v)); }
        if taken(ch[r], n - 1, v) { assert(taken(ch[r], n, v)); }
    }
}
proof fn lemma_root(c: Seq<Contour>, t: int, i: int)
    requires ordered(c), 0 <= t < c.len(), 0 <= i < c.len(), c[t].parent is None
    ensures below(c, t, i) == (root(c, i) == t), 0 <= root(c, i) <= i, c[root(c, i)].parent is None
    decreases i
{ if i != t && up(c, i) >= 0 { lemma_root(c, t, up(c, i)); } else if i == t { assert(up(c, t) < 0); } else { if root(c, i) == t { assert(root(c, i) == i); } } }
proof fn lemma_tops_once(c: Seq<Contour>, n: int)
    requires 0 <= n <= c.len() <= usize::MAX
    ensures forall|a: int, b: int| 0 <= a < b < tops(c, n).len() ==> (#[trigger] tops(c, n)[a]).0 < (#[trigger] tops(c, n)[b]).0,
        forall|j: int| 0 <= j < n && c[j].parent is None ==> #[trigger] tops(c, n).contains(ContourIdx(j as usize)),
    decreases n
{
    if n > 0 {
        lemma_tops_once(c, n - 1); lemma_tops(c, n - 1);
        assert forall|j: int| 0 <= j < n && c[j].parent is None implies #[trigger] tops(c, n).contains(ContourIdx(j as usize)) by {
            let a = tops(c, n - 1);
            if j == n - 1 { assert(tops(c, n)[a.len() as int] == ContourIdx(j as usize)); }
            else { assert(a.contains(ContourIdx(j as usize))); let m = choose|m: int| 0 <= m < a.len() && a[m] == ContourIdx(j as usize); assert(tops(c, n)[m] == a[m]); }
        }
    }
}
/// Every contour is in exactly one group, once.
proof fn lemma_grouped(c: Seq<Contour>, groups: Seq<Vec<ContourIdx>>, i: int) -> (k: int)
    requires ordered(c), c.len() <= usize::MAX, 0 <= i < c.len(), groups.len() == tops(c, c.len() as int).len(),
        forall|k: int| 0 <= k < groups.len() ==> (#[trigger] groups[k])@ == under(families(c), tops(c, c.len() as int)[k].0 as int)
    ensures 0 <= k < groups.len(), times(groups[k]@, i) == 1, forall|j: int| 0 <= j < groups.len() && j != k ==> times((#[trigger] groups[j])@, i) == 0
{
    let n = c.len() as int;
    lemma_tops(c, n); lemma_tops_once(c, n);
    assert forall|j: int| 0 <= j < groups.len() implies times((#[trigger] groups[j])@, i) == one(root(c, i) == tops(c, n)[j].0) by {
        let t = tops(c, n)[j].0 as int;
        lemma_under(c, t, i); lemma_root(c, t, i);
    }
    lemma_has_root(c, i);
    assert(tops(c, n).contains(ContourIdx(root(c, i) as usize)));
    let k = choose|k: int| 0 <= k < tops(c, n).len() && tops(c, n)[k] == ContourIdx(root(c, i) as usize);
    assert(groups[k]@ == groups[k]@);
    k
}
proof fn lemma_has_root(c: Seq<Contour>, i: int) requires ordered(c), 0 <= i < c.len() ensures 0 <= root(c, i) <= i, c[root(c, i)].parent is None decreases i { if up(c, i) >= 0 { lemma_has_root(c, up(c, i)); } }
/// What follows in the list of r has its parent before it.
spec fn parents_first(c: Seq<Contour>, s: Seq<ContourIdx>, r: int) -> bool { forall|m: int| 0 <= m < s.len() ==> #[trigger] parent_before(c, s, r, m) }
spec fn parent_before(c: Seq<Contour>, s: Seq<ContourIdx>, r: int, m: int) -> bool { c[s[m].0 as int].parent is Some && ((c[s[m].0 as int].parent->0).0 == r || exists|l: int| 0 <= l < m && #[trigger] s[l] == c[s[m].0 as int].parent->0) }
proof fn lemma_parents(c: Seq<Contour>, r: int, n: int)
    requires ordered(c), 0 <= r < c.len() <= usize::MAX, 0 <= n <= families(c)[r].len()
    ensures parents_first(c, under_first(families(c), r, n), r)
    decreases c.len() - r, n
{
    let ch = families(c);
    if n > 0 {
        lemma_families(c); lemma_children(c, r, c.len() as int);
        let j = ch[r][n - 1].0 as int;
        lemma_parents(c, r, n - 1);
        lemma_parents(c, j, ch[j].len() as int);
        let a = under_first(ch, r, n - 1);
        let b = under_first(ch, j, ch[j].len() as int);
        let u = under(ch, j);
        assert(u == seq![ContourIdx(j as usize)] + b);
        let s = under_first(ch, r, n);
        assert(s == a + u);
        assert forall|m: int| 0 <= m < s.len() implies #[trigger] parent_before(c, s, r, m) by {
            if m < a.len() {
                assert(s[m] == a[m]); assert(parent_before(c, a, r, m));
                if (c[a[m].0 as int].parent->0).0 != r { let l = choose|l: int| 0 <= l < m && #[trigger] a[l] == c[a[m].0 as int].parent->0; assert(s[l] == a[l]); }
            } else if m == a.len() { assert(s[m] == u[0]); }
            else {
                let k = m - a.len() - 1;
                assert(s[m] == u[k + 1] && u[k + 1] == b[k]); assert(parent_before(c, b, j, k));
                let p = c[b[k].0 as int].parent->0;
                if p.0 == j { assert(s[a.len() as int] == u[0] && u[0] == ContourIdx(j as usize)); assert(s[a.len() as int] == p); }
                else { let l = choose|l: int| 0 <= l < k && #[trigger] b[l] == p; assert(s[a.len() + 1 + l] == u[l + 1] && u[l + 1] == b[l]); }
            }
        }
    }
}
/// A group starts with its outermost contour, and every other has its parent before it.
proof fn lemma_group_order(c: Seq<Contour>, r: int)
    requires ordered(c), 0 <= r < c.len() <= usize::MAX
    ensures ({ let s = under(families(c), r); s.len() > 0 && s[0] == ContourIdx(r as usize) && forall|m: int| 0 < m < s.len() ==> #[trigger] parent_before(c, s, -1, m) })
{
    let ch = families(c);
    let n = ch[r].len() as int;
    lemma_parents(c, r, n);
    let b = under_first(ch, r, n);
    let s = under(ch, r);
    assert(s == seq![ContourIdx(r as usize)] + b);
    assert forall|m: int| 0 < m < s.len() implies #[trigger] parent_before(c, s, -1, m) by {
        assert(s[m] == b[m - 1]); assert(parent_before(c, b, r, m - 1));
        let p = c[b[m - 1].0 as int].parent->0;
        if p.0 == r { assert(s[0] == p); } else { let l = choose|l: int| 0 <= l < m - 1 && #[trigger] b[l] == p; assert(s[l + 1] == b[l]); }
    }
}
/// The contours of a topology can be grouped.
proof fn lemma_nested_ordered(c: Seq<Contour>) requires nested(c) ensures ordered(c) { reveal(nested); assert forall|k: int| 0 <= k < c.len() && (#[trigger] c[k]).parent is Some implies (c[k].parent->0).0 < k by { assert(nests(c, k)); } }
} // verus!
fn main() {}
