#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_braces, non_snake_case)]
use vstd::prelude::*;
verus! {

// ---------------------------------------------------------------- the code under contract
//@src src/segments.rs
#[derive(Clone, Copy, PartialEq, Eq)]
//@item struct SegIdx
//@src src/sweep/sweep_line.rs
#[derive(Clone, Copy)]
//@item struct SegmentOrderEntry
//@item struct ChangedInterval
#[derive(Clone, Copy)]
//@src src/sweep/output_event.rs
//@item struct OutputEvent
#[derive(Clone, Copy)]
struct Point { x: f64, y: f64 }

type Row = (SegmentOrderEntry, f64, f64);
mod fl {
use super::*;
//@include f64_order.rs
// Verus does not know that a field of type f64 holds an f64; this says no more than that.
pub(crate) broadcast axiom fn typed_1(e: Row) ensures #[trigger] e.1 == e.1, exists|x: f64| x == e.1 && #[trigger] rank(x) == rank(x);
pub(crate) broadcast axiom fn typed_2(e: Row) ensures #[trigger] e.2 == e.2, exists|x: f64| x == e.2 && #[trigger] rank(x) == rank(x);
pub(crate) broadcast axiom fn typed_x(e: Point) ensures #[trigger] e.x == e.x, exists|x: f64| x == e.x && #[trigger] rank(x) == rank(x);
pub(crate) broadcast axiom fn typed_x0(e: OutputEvent) ensures #[trigger] e.x0 == e.x0, exists|x: f64| x == e.x0 && #[trigger] rank(x) == rank(x);
pub(crate) broadcast axiom fn typed_x1(e: OutputEvent) ensures #[trigger] e.x1 == e.x1, exists|x: f64| x == e.x1 && #[trigger] rank(x) == rank(x);
pub(crate) broadcast group doubles { f64_order, typed_1, typed_2, typed_x, typed_x0, typed_x1 }
}
use fl::*;
broadcast use fl::doubles;

pub open spec fn most(a: int, b: int) -> int { if a >= b { a } else { b } }
pub open spec fn least(a: int, b: int) -> int { if a <= b { a } else { b } }
// contracts/f64_axioms.rs (Kani, all doubles but NaN)
pub assume_specification [f64::max] (a: f64, b: f64) -> (r: f64) ensures num(a) && num(b) ==> num(r) && rank(r) == most(rank(a), rank(b));
pub assume_specification [f64::min] (a: f64, b: f64) -> (r: f64) ensures num(a) && num(b) ==> num(r) && rank(r) == least(rank(a), rank(b));
#[verifier::external_body]
fn infinity() -> (r: f64) ensures r == infinite() { f64::INFINITY }
#[verifier::external_body]
fn minus_infinity() -> (r: f64) ensures r == minus_infinite() { f64::NEG_INFINITY }

// ---------------------------------------------------------------- dependencies
/// The band of a segment near a height, and its position there (C13, bounded): numbers.
#[verifier::external_body]
struct Segment {}
uninterp spec fn lower_of(s: Segment, y: f64, eps: f64) -> f64;
uninterp spec fn upper_of(s: Segment, y: f64, eps: f64) -> f64;
uninterp spec fn at_of(s: Segment, y: f64) -> f64;
uninterp spec fn start_of(s: Segment) -> Point;
uninterp spec fn end_of(s: Segment) -> Point;
impl Segment {
    #[verifier::external_body]
    fn lower(&self, y: f64, eps: f64) -> (r: f64) ensures r == lower_of(*self, y, eps), num(r) { unimplemented!() }
    #[verifier::external_body]
    fn upper(&self, y: f64, eps: f64) -> (r: f64) ensures r == upper_of(*self, y, eps), num(r) { unimplemented!() }
    #[verifier::external_body]
    fn start(&self) -> (r: Point) ensures r == start_of(*self), num(r.x) { unimplemented!() }
    #[verifier::external_body]
    fn end(&self) -> (r: Point) ensures r == end_of(*self), num(r.x) { unimplemented!() }
    #[verifier::external_body]
    fn at_y(&self, y: f64) -> (r: f64) ensures r == at_of(*self, y), num(r) { unimplemented!() }
}
struct Segments { segs: Vec<Segment> }
impl Segments {
    fn at(&self, i: SegIdx) -> (r: &Segment) requires i.0 < self.segs@.len() ensures *r == self.segs@[i.0 as int] { &self.segs[i.0] }
}

// ---------------------------------------------------------------- the contract
/// The segments along the line with their bands.
struct Line { segs: Seq<Segment>, y: f64, eps: f64 }
spec fn lo(l: Line, k: int) -> int { rank(lower_of(l.segs[k], l.y, l.eps)) }
spec fn hi(l: Line, k: int) -> int { rank(upper_of(l.segs[k], l.y, l.eps)) }
spec fn at(l: Line, k: int) -> int { rank(at_of(l.segs[k], l.y)) }
/// The greatest lower end among the first k, the least upper end from the k'th on, and the extent of the positions.
spec fn forced_lo(l: Line, k: int) -> int decreases k { if k <= 0 { rank(minus_infinite()) } else { most(forced_lo(l, k - 1), lo(l, k - 1)) } }
spec fn forced_hi(l: Line, k: int) -> int decreases l.segs.len() - k { if k >= l.segs.len() { rank(infinite()) } else { least(forced_hi(l, k + 1), hi(l, k)) } }
spec fn left_end(l: Line, k: int) -> int decreases k { if k <= 0 { rank(infinite()) } else { least(left_end(l, k - 1), at(l, k - 1)) } }
spec fn right_end(l: Line, k: int) -> int decreases k { if k <= 0 { rank(minus_infinite()) } else { most(right_end(l, k - 1), at(l, k - 1)) } }
/// The k'th row: the entry and its feasible positions.
spec fn row(l: Line, e: SegmentOrderEntry, k: int, r: Row) -> bool {
    let n = l.segs.len() as int;
    r.0 == e && num(r.1) && num(r.2) && rank(r.1) == most(forced_lo(l, k + 1), left_end(l, n)) && rank(r.2) == least(forced_hi(l, k), right_end(l, n))
}
spec fn seg_of<G: Fn(&SegmentOrderEntry) -> SegIdx>(g: G, e: SegmentOrderEntry) -> SegIdx { choose|s: SegIdx| g.ensures((&e,), s) }
spec fn knows<G: Fn(&SegmentOrderEntry) -> SegIdx>(g: G, s: &Segments, entries: Seq<SegmentOrderEntry>) -> bool {
    &&& forall|e: &SegmentOrderEntry| g.requires((e,))
    &&& forall|e: SegmentOrderEntry, a: SegIdx, b: SegIdx| #[trigger] g.ensures((&e,), a) && #[trigger] g.ensures((&e,), b) ==> a == b
    &&& forall|k: int, a: SegIdx| 0 <= k < entries.len() && #[trigger] g.ensures((&entries[k],), a) ==> a.0 < s.segs@.len()
}
spec fn known<G: Fn(&SegmentOrderEntry) -> SegIdx>(g: G, entries: Seq<SegmentOrderEntry>, n: int) -> bool { forall|k: int| 0 <= k < n ==> g.ensures((& #[trigger] entries[k],), seg_of(g, entries[k])) }
spec fn line<G: Fn(&SegmentOrderEntry) -> SegIdx>(entries: Seq<SegmentOrderEntry>, g: G, y: f64, s: &Segments, eps: f64) -> Line {
    Line { segs: Seq::new(entries.len(), |k: int| s.segs@[seg_of(g, entries[k]).0 as int]), y, eps }
}
//@src src/sweep/sweep_line.rs
//@fn feasible_horizontal_positions
//@sub f64::NEG_INFINITY ==> minus_infinity()
//@sub f64::INFINITY ==> infinity()
//@sub &?segments\[entry_seg\((\w+)\)\] ==> segments.at(entry_seg(\1))
//@sub for (\w+) in entries\s*\n\s*(invariant[^{]*)\{ ==> let mut number: usize = 0; while number < entries.len() \2 { let \1 = &entries[number]; number = number + 1; let ghost was = out@;
//@sub for \((\w+), (\w+), (\w+)\) in out\.iter_mut\(\)\.rev\(\)\s*\n\s*(invariant[^{]*)\{ ==> let mut left: usize = out.len(); while left > 0 \4 { left = left - 1; let (row_e, mut row_1, mut row_2) = out[left]; let (\1, \2, \3) = (&row_e, &mut row_1, &mut row_2);
//@start
let ghost l = line(entries@, entry_seg, y, segments, eps);
proof { ax_inf(y); ax_minus_inf(y); }
//@loop 0
    invariant number <= entries@.len(), known(entry_seg, entries@, number as int), knows(entry_seg, segments, entries@), l == line(entries@, entry_seg, y, segments, eps),
        out@.len() == number, num(max_so_far), num(max), num(min), rank(max_so_far) == forced_lo(l, number as int), rank(max) == right_end(l, number as int), rank(min) == left_end(l, number as int),
        forall|k: int| 0 <= k < number ==> (#[trigger] out@[k]).0 == entries@[k] && num(out@[k].1) && rank(out@[k].1) == forced_lo(l, k + 1)
    decreases entries@.len() - number
//@loop 1
    invariant left <= out@.len(), known(entry_seg, entries@, entries@.len() as int), knows(entry_seg, segments, entries@), l == line(entries@, entry_seg, y, segments, eps), out@.len() == entries@.len(),
        num(min_so_far), num(max), num(min), rank(min_so_far) == forced_hi(l, left as int), rank(max) == right_end(l, entries@.len() as int), rank(min) == left_end(l, entries@.len() as int),
        forall|k: int| 0 <= k < left ==> (#[trigger] out@[k]).0 == entries@[k] && num(out@[k].1) && rank(out@[k].1) == forced_lo(l, k + 1),
        forall|k: int| left <= k < out@.len() ==> row(l, entries@[k], k, #[trigger] out@[k])
    decreases left
//@tail 1
out.set(left, (row_e, row_1, row_2));
//@spec
requires knows(entry_seg, segments, entries@)
ensures final(out)@.len() == entries@.len(), known(entry_seg, entries@, entries@.len() as int), forall|k: int| 0 <= k < entries@.len() ==> row(line(entries@, entry_seg, y, segments, eps), entries@[k], k, #[trigger] final(out)@[k])
//@end

// ---------------------------------------------------------------- what it is good for
proof fn lemma_lo(l: Line, j: int, k: int) requires 0 <= j <= k ensures forced_lo(l, j) <= forced_lo(l, k), j < k ==> lo(l, j) <= forced_lo(l, k) decreases k - j { if j < k { lemma_lo(l, j, k - 1); } }
proof fn lemma_hi(l: Line, j: int, k: int) requires 0 <= j <= k <= l.segs.len() ensures forced_hi(l, j) <= forced_hi(l, k), j < k ==> forced_hi(l, j) <= hi(l, j) decreases k - j { if j < k { lemma_hi(l, j + 1, k); } }
proof fn lemma_ends(l: Line, j: int, k: int) requires 0 <= j < k ensures left_end(l, k) <= at(l, j) <= right_end(l, k) decreases k { if j < k - 1 { lemma_ends(l, j, k - 1); } }
/// A position for every segment, chosen from left to right as next_range does.
spec fn chosen(rows: Seq<Row>, wish: Seq<int>, k: int) -> int decreases k {
    if k <= 0 { rank(minus_infinite()) } else { least(most(most(wish[k - 1], rank(rows[k - 1].1)), chosen(rows, wish, k - 1)), rank(rows[k - 1].2)) }
}
/// The positions never decrease, whatever was wished for.
proof fn lemma_in_order(l: Line, e: Seq<SegmentOrderEntry>, rows: Seq<Row>, wish: Seq<int>, k: int)
    requires rows.len() == l.segs.len(), forall|k: int| 0 <= k < rows.len() ==> row(l, e[k], k, #[trigger] rows[k]), 0 < k < rows.len()
    ensures chosen(rows, wish, k) <= chosen(rows, wish, k + 1)
{
    assert(row(l, e[k], k, rows[k])); assert(row(l, e[k - 1], k - 1, rows[k - 1]));
    lemma_hi(l, k - 1, k);
}
/// If the order is feasible (no lower end to the left exceeds an upper end to the right), every position is in the band of its segment and between the true positions.
spec fn feasible(l: Line) -> bool {
    &&& forall|j: int, k: int| 0 <= j <= k < l.segs.len() ==> #[trigger] lo(l, j) <= #[trigger] hi(l, k)
    &&& forall|k: int| 0 <= k < l.segs.len() ==> #[trigger] lo(l, k) <= at(l, k) && at(l, k) <= hi(l, k)
    &&& forall|k: int| 0 <= k < l.segs.len() ==> rank(minus_infinite()) <= #[trigger] lo(l, k) && hi(l, k) <= rank(infinite())
}
proof fn lemma_lo_most(l: Line, k: int, v: int) requires 0 <= k, rank(minus_infinite()) <= v, forall|i: int| 0 <= i < k ==> #[trigger] lo(l, i) <= v ensures forced_lo(l, k) <= v decreases k { if k > 0 { lemma_lo_most(l, k - 1, v); } }
proof fn lemma_hi_least(l: Line, k: int, v: int) requires k <= l.segs.len(), v <= rank(infinite()), forall|i: int| k <= i < l.segs.len() ==> v <= #[trigger] hi(l, i) ensures v <= forced_hi(l, k) decreases l.segs.len() - k { if k < l.segs.len() { lemma_hi_least(l, k + 1, v); } }
/// Then no row is empty.
proof fn lemma_nonempty(l: Line, e: SegmentOrderEntry, r: Row, k: int)
    requires feasible(l), 0 <= k < l.segs.len(), row(l, e, k, r)
    ensures rank(r.1) <= rank(r.2)
{
    let n = l.segs.len() as int;
    assert(lo(l, k) <= hi(l, k));
    assert forall|i: int| 0 <= i < k + 1 implies #[trigger] lo(l, i) <= forced_hi(l, k) by { lemma_hi_least(l, k, lo(l, i)); }
    lemma_hi_least(l, k, rank(minus_infinite()));
    lemma_lo_most(l, k + 1, forced_hi(l, k));
    assert forall|i: int| 0 <= i < k + 1 implies #[trigger] lo(l, i) <= right_end(l, n) by { lemma_ends(l, i, n); }
    lemma_ends(l, k, n);
    lemma_lo_most(l, k + 1, right_end(l, n));
    assert forall|i: int| k <= i < n implies left_end(l, n) <= #[trigger] hi(l, i) by { lemma_ends(l, i, n); assert(lo(l, i) <= at(l, i)); }
    lemma_hi_least(l, k, left_end(l, n));
}
/// A position between the ends of its row is in the band of its segment.
proof fn lemma_in_band(l: Line, e: SegmentOrderEntry, r: Row, k: int)
    requires 0 <= k < l.segs.len(), row(l, e, k, r)
    ensures lo(l, k) <= rank(r.1), rank(r.2) <= hi(l, k), left_end(l, l.segs.len() as int) <= rank(r.1), rank(r.2) <= right_end(l, l.segs.len() as int)
{ lemma_lo(l, k, k + 1); lemma_hi(l, k, k + 1); }

// ---------------------------------------------------------------- positions of a range of the line
/// The parts of the sweep line that the positions are computed from.
struct EntryList { segs: Vec<SegmentOrderEntry> }
struct Sweeper { y: f64, eps: f64, line: EntryList, segments: Segments, horizontals: Vec<SegIdx>, changed_intervals: Vec<ChangedInterval> }
struct SweepLineBuffers { old_line: Vec<SegmentOrderEntry>, positions: Vec<Row>, output_events: Vec<OutputEvent> }
struct SweepLine { state: Sweeper, bufs: SweepLineBuffers, next_changed_interval: usize }
#[verifier::external_body]
fn interval_at(v: &Vec<ChangedInterval>, k: usize) -> (r: Option<ChangedInterval>)
    ensures k < v@.len() ==> r == Some(v@[k as int]), k >= v@.len() ==> r is None
{ unimplemented!() }
#[verifier::external_body]
fn resize(v: &mut Vec<SegmentOrderEntry>, n: usize, e: SegmentOrderEntry) ensures final(v)@.len() == n { v.resize(n, e) }
#[verifier::external_body]
fn copy_range(v: &Vec<SegmentOrderEntry>, a: usize, b: usize) -> (r: Vec<SegmentOrderEntry>) requires a <= b <= v@.len() ensures r@ == v@.subrange(a as int, b as int) { v[a..b].to_vec() }
/// Sorting rearranges.
#[verifier::external_body]
fn sort_events(v: &mut Vec<OutputEvent>) ensures final(v)@.to_multiset() == old(v)@.to_multiset() { unimplemented!() }

spec fn old_seg_of(e: SegmentOrderEntry) -> SegIdx { match e.old_seg { Some(s) => s, None => e.seg } }
impl SegmentOrderEntry {
//@src src/sweep/sweep_line.rs
//@fn SegmentOrderEntry::old_seg
//@ret r
//@spec
ensures r == old_seg_of(*self)
//@end
}
/// The old line lists the same entries by their old positions.
spec fn old_place(e: SegmentOrderEntry, first: int, m: int) -> bool { e.old_idx is Some && first <= e.old_idx->0 < first + m }
spec fn rearranged(new: Seq<SegmentOrderEntry>, old: Seq<SegmentOrderEntry>, first: int) -> bool {
    old.len() == new.len() && forall|i: int| 0 <= i < new.len() ==> old_place(#[trigger] new[i], first, new.len() as int) && old[new[i].old_idx->0 - first] == new[i]
}
spec fn line_of(st: Sweeper, entries: Seq<SegmentOrderEntry>, before: bool) -> Line {
    Line { segs: Seq::new(entries.len(), |k: int| st.segments.segs@[(if before { old_seg_of(entries[k]) } else { entries[k].seg }).0 as int]), y: st.y, eps: st.eps }
}
spec fn rows_of(l: Line, entries: Seq<SegmentOrderEntry>, rows: Seq<Row>) -> bool { rows.len() == l.segs.len() && entries.len() == l.segs.len() && forall|k: int| 0 <= k < rows.len() ==> row(l, entries[k], k, #[trigger] rows[k]) }
/// Positions within the rows, from left to right.
spec fn placed(rows: Seq<Row>, xs: Seq<f64>) -> bool {
    &&& xs.len() <= rows.len()
    &&& forall|k: int| 0 <= k < xs.len() ==> num(#[trigger] xs[k]) && rank(xs[k]) <= rank(rows[k].2) && (rank(rows[k].1) <= rank(rows[k].2) ==> rank(rows[k].1) <= rank(xs[k]))
    &&& forall|j: int, k: int| 0 <= j <= k < xs.len() ==> rank(#[trigger] xs[j]) <= rank(#[trigger] xs[k])
}
/// The event of an entry of the old line, without its position on the new one.
spec fn old_event(v: OutputEvent, e: SegmentOrderEntry, x: f64) -> bool {
    v.x0 == x && v.connected_above == (e.old_seg is Some || !e.enter) && v.connected_below == !e.exit && v.seg_idx == old_seg_of(e) && v.old_sweep_idx == e.old_idx
}
spec fn new_place(v: OutputEvent, x: f64, k: int) -> bool { v.x1 == x && v.sweep_idx == Some(k as usize) }
/// The event where the next segment of a contour takes over.
spec fn next_event(v: OutputEvent, e: SegmentOrderEntry, x: f64, k: int) -> bool {
    v.x0 == x && v.x1 == x && !v.connected_above && v.connected_below && v.seg_idx == e.seg && v.sweep_idx == Some(k as usize) && v.old_sweep_idx is None
}
spec fn main_events(evs: Seq<OutputEvent>, old: Seq<SegmentOrderEntry>, above: Seq<f64>) -> bool { evs.len() >= old.len() && above.len() == old.len() && forall|k: int| 0 <= k < old.len() ==> old_event(#[trigger] evs[k], old[k], above[k]) }
spec fn new_places(evs: Seq<OutputEvent>, new: Seq<SegmentOrderEntry>, below: Seq<f64>, first: int) -> bool { below.len() <= new.len() && forall|i: int| 0 <= i < below.len() ==> new_place(evs[(#[trigger] new[i]).old_idx->0 - first], below[i], first + i) }
/// The events after those of the old line: one for each entry that is a corner of a contour.
spec fn next_events(evs: Seq<OutputEvent>, new: Seq<SegmentOrderEntry>, below: Seq<f64>, first: int, which: Seq<int>) -> bool {
    &&& evs.len() == new.len() + which.len()
    &&& forall|t: int| 0 <= t < which.len() ==> 0 <= #[trigger] which[t] < below.len() && next_event(evs[new.len() + t], new[which[t]], below[which[t]], first + which[t])
    &&& forall|i: int| 0 <= i < below.len() && (#[trigger] new[i]).old_seg is Some ==> which.contains(i)
}
/// Where a segment begins or ends, the event is moved to its end point.
spec fn exact(st: Sweeper, v: OutputEvent) -> OutputEvent {
    let s = st.segments.segs@[v.seg_idx.0 as int];
    OutputEvent { x0: if v.connected_above { v.x0 } else { start_of(s).x }, x1: if v.connected_below { v.x1 } else { end_of(s).x }, ..v }
}
spec fn exact_all(st: Sweeper, evs: Seq<OutputEvent>) -> Seq<OutputEvent> { Seq::new(evs.len(), |k: int| exact(st, evs[k])) }
spec fn horizontal_event(st: Sweeper, i: SegIdx) -> OutputEvent {
    let s = st.segments.segs@[i.0 as int];
    OutputEvent { x0: start_of(s).x, connected_above: false, x1: end_of(s).x, connected_below: false, seg_idx: i, sweep_idx: None, old_sweep_idx: None }
}
spec fn horizontal_events(st: Sweeper, a: int, b: int) -> Seq<OutputEvent> { Seq::new((b - a) as nat, |k: int| horizontal_event(st, st.horizontals@[a + k])) }
spec fn of_range(st: Sweeper, c: ChangedInterval) -> Seq<OutputEvent> { match c.horizontals { Some(h) => horizontal_events(st, h.start as int, h.end as int), None => Seq::empty() } }
/// What next_range leaves in the buffer of events (in some order): `evs` placed by the old and new positions, made exact, and the horizontal ones.
struct Placing { old: Seq<SegmentOrderEntry>, above: Seq<f64>, below: Seq<f64>, above_rows: Seq<Row>, below_rows: Seq<Row>, evs: Seq<OutputEvent>, which: Seq<int> }
spec fn placing(st: Sweeper, c: ChangedInterval, p: Placing) -> bool {
    let first = c.segs.start as int;
    let new = st.line.segs@.subrange(first, c.segs.end as int);
    &&& rearranged(new, p.old, first)
    &&& rows_of(line_of(st, p.old, true), p.old, p.above_rows) && placed(p.above_rows, p.above)
    &&& rows_of(line_of(st, new, false), new, p.below_rows) && placed(p.below_rows, p.below)
    &&& p.below.len() == new.len()
    &&& main_events(p.evs, p.old, p.above) && new_places(p.evs, new, p.below, first) && next_events(p.evs, new, p.below, first, p.which)
}
spec fn events_of(st: Sweeper, c: ChangedInterval, p: Placing) -> Seq<OutputEvent> { exact_all(st, p.evs) + of_range(st, c) }
spec fn entry_ok(st: Sweeper, e: SegmentOrderEntry) -> bool { e.seg.0 < st.segments.segs@.len() && old_seg_of(e).0 < st.segments.segs@.len() }
spec fn has_old(st: Sweeper, c: ChangedInterval, k: int) -> bool { exists|i: int| c.segs.start <= i < c.segs.end && (#[trigger] st.line.segs@[i]).old_idx == Some(k as usize) }
/// The old positions of the entries of a range are the positions of the range, each once.
spec fn range_ok(st: Sweeper, c: ChangedInterval) -> bool {
    let first = c.segs.start as int;
    let m = c.segs.end - c.segs.start;
    &&& c.segs.start <= c.segs.end <= st.line.segs@.len()
    &&& forall|i: int| c.segs.start <= i < c.segs.end ==> old_place(#[trigger] st.line.segs@[i], first, m) && entry_ok(st, st.line.segs@[i])
    &&& forall|i: int, j: int| c.segs.start <= i < j < c.segs.end ==> (#[trigger] st.line.segs@[i]).old_idx != (#[trigger] st.line.segs@[j]).old_idx
    &&& forall|k: int| first <= k < first + m ==> #[trigger] has_old(st, c, k)
    &&& c.horizontals is Some ==> c.horizontals->0.start <= c.horizontals->0.end <= st.horizontals@.len() && forall|k: int| c.horizontals->0.start <= k < c.horizontals->0.end ==> (#[trigger] st.horizontals@[k]).0 < st.segments.segs@.len()
}
/// A range of a single segment without horizontal ones: its position is its own.
spec fn single(st: Sweeper, k: int, evs: Seq<OutputEvent>) -> bool {
    let e = st.line.segs@[k];
    let x = at_of(st.segments.segs@[e.seg.0 as int], st.y);
    match e.old_seg {
        Some(s) => evs.len() == 2 && evs[0] == (OutputEvent { x0: x, connected_above: true, x1: x, connected_below: false, seg_idx: s, sweep_idx: None, old_sweep_idx: e.old_idx })
            && evs[1] == (OutputEvent { x0: x, connected_above: false, x1: x, connected_below: true, seg_idx: e.seg, sweep_idx: Some(k as usize), old_sweep_idx: None }),
        None => evs.len() == 1 && evs[0] == (OutputEvent { x0: x, connected_above: !e.enter, x1: x, connected_below: !e.exit, seg_idx: e.seg, sweep_idx: Some(k as usize), old_sweep_idx: e.old_idx }),
    }
}
impl SweepLine {
//@src src/sweep/sweep_line.rs
//@fn SweepLine::y
//@ret r
//@spec
ensures r == self.state.y
//@end

//@fn SweepLine::next_range_single_seg
//@sub <'a, 'bufs>\( ==> (
//@sub &'a mut self ==> &mut self
//@sub bufs: &'bufs mut SweepLineRangeBuffers,\s*segments ==> segments
//@sub Option<SweepLineRange<'bufs, 'a, 'segs>> ==> Option<ChangedInterval>
//@sub (?<!\.)\bbufs\.clear\(\); ==> {}
//@sub segments\[([\w.()]+)\] ==> segments.at(\1)
//@sub Some\(SweepLineRange::new\([^;]*?changed_interval,\s*\)\) ==> Some(changed_interval)
//@ret r
//@spec
requires idx < old(self).state.line.segs@.len() < usize::MAX, entry_ok(old(self).state, old(self).state.line.segs@[idx as int]), *segments == old(self).state.segments
ensures final(self).state == old(self).state, final(self).next_changed_interval == old(self).next_changed_interval, single(old(self).state, idx as int, final(self).bufs.output_events@), r is Some, r->0.segs.start == idx, r->0.segs.end == idx + 1, r->0.horizontals is None
//@end

//@fn SweepLine::next_range
//@sub <'a, 'bufs>\( ==> (
//@sub &'a mut self ==> &mut self
//@sub bufs: &'bufs mut SweepLineRangeBuffers,\s*segments ==> segments
//@sub Option<SweepLineRange<'bufs, 'a, 'segs>> ==> Option<ChangedInterval>
//@sub self\s*\.state\s*\.changed_intervals\s*\.get\(([\w.]+)\)\?\s*\.clone\(\) ==> interval_at(&self.state.changed_intervals, \1)?
//@sub range\.segs\.len\(\) ==> (range.segs.end - range.segs.start)
//@sub self\.next_range_single_seg\(bufs, ==> self.next_range_single_seg(
//@sub let buffers = &mut self\.bufs; ==> {}
//@sub let events = &mut buffers\.output_events; ==> {}
//@sub (?<!self\.)\bevents\.sort\(\) ==> sort_events(&mut self.bufs.output_events)
//@sub \bbuffers\s*\.old_line\s*\.resize\( ==> resize(&mut self.bufs.old_line, 
//@sub \bbuffers\s*\.old_line\s*\.extend\(self\.state\.line\.segs\.range\(range\.segs\.clone\(\)\)\.cloned\(\)\) ==> self.bufs.old_line = copy_range(&self.state.line.segs, range.segs.start, range.segs.end)
//@sub buffers\.old_line\[([^;]*)\] = ([^;]*); ==> self.bufs.old_line.set(\1, \2);
//@sub feasible_horizontal_positions\(\s*&buffers\.old_line,\s*\|entry\| entry\.old_seg\(\), ==> let which_ = |entry: &SegmentOrderEntry| -> (s: SegIdx) ensures s == old_seg_of(*entry) { entry.old_seg() }; feasible_horizontal_positions(self.bufs.old_line.as_slice(), which_,
//@sub feasible_horizontal_positions\(\s*&buffers\.old_line,\s*\|entry\| entry\.seg, ==> let which_ = |entry: &SegmentOrderEntry| -> (s: SegIdx) ensures s == entry.seg { entry.seg }; feasible_horizontal_positions(self.bufs.old_line.as_slice(), which_,
//@sub f64::NEG_INFINITY ==> minus_infinity()
//@sub &segments\[([\w.()]+)\] ==> segments.at(\1)
//@sub &self\.state\.segments\[([\w.()]+)\] ==> self.state.segments.at(\1)
//@sub segments\[([\w.()]+)\] ==> segments.at(\1)
//@sub debug_assert_eq!\([^;]*\); ==> {}
//@sub (?<!\.)\bbufs\.clear\(\); ==> {}
//@sub Some\(SweepLineRange::new\([^;]*?range,\s*\)\) ==> Some(range)
//@sub for (\w+) in self\.state\.line\.segs\.range\(range\.segs\.clone\(\)\)\s*\n\s*(invariant[^{]*)\{ ==> let mut number: usize = range.segs.start; while number < range.segs.end \2 { let \1 = &self.state.line.segs[number]; number = number + 1; let ghost was = self.bufs.old_line@;
//@sub for \((\w+), (\w+), (\w+)\) in &buffers\.positions\s*\n\s*(invariant[^{]*)\{ ==> let mut number: usize = 0; while number < self.bufs.positions.len() \4 { let row_ = self.bufs.positions[number]; let (\1, \2, \3) = (&row_.0, &row_.1, &row_.2); number = number + 1;
//@sub for \((\w+), \((\w+), (\w+), (\w+)\)\) in buffers\.positions\.iter\(\)\.enumerate\(\)\s*\n\s*(invariant[^{]*)\{ ==> let mut number: usize = 0; while number < self.bufs.positions.len() \5 { let \1 = number; let row_ = self.bufs.positions[number]; let (\2, \3, \4) = (&row_.0, &row_.1, &row_.2); number = number + 1;
//@sub for (\w+) in &mut \*events\s*\n\s*(invariant[^{]*)\{ ==> let mut number: usize = 0; while number < self.bufs.output_events.len() \2 { let place_ = number; let mut \1 = self.bufs.output_events[number]; number = number + 1; let ghost was = self.bufs.output_events@;
//@sub for &(\w+) in &self\.state\.horizontals\[range\.clone\(\)\]\s*\n\s*(invariant[^{]*)\{ ==> let mut number: usize = range.start; while number < range.end \2 { let \1 = self.state.horizontals[number]; number = number + 1;
//@sub let ev = &mut events\[([^;]*)\]; ==> let place_ = \1; let ghost was = self.bufs.output_events@; let mut ev = self.bufs.output_events[place_];
//@sub \bev\.(\w+) = ([^;]*); ==> ev.\1 = \2; self.bufs.output_events.set(place_, ev);
//@sub (?<![.\w])buffers\. ==> self.bufs.
//@sub (?<![.\w])events\. ==> self.bufs.output_events.
//@start
let ghost st = self.state;
let ghost c = st.changed_intervals@[self.next_changed_interval as int];
let ghost first = c.segs.start as int;
let ghost new = st.line.segs@.subrange(c.segs.start as int, c.segs.end as int);
let ghost m = new.len() as int;
let ghost mut p = Placing { old: Seq::empty(), above: Seq::empty(), below: Seq::empty(), above_rows: Seq::empty(), below_rows: Seq::empty(), evs: Seq::empty(), which: Seq::empty() };
//@loop 0
    invariant self.state == st, self.next_changed_interval == old(self).next_changed_interval + 1, range == c, *segments == st.segments, range_ok(st, c), first == c.segs.start, new == st.line.segs@.subrange(first, c.segs.end as int), m == new.len(),
        first <= number <= c.segs.end, self.bufs.old_line@.len() == m,
        forall|i: int| 0 <= i < number - first ==> self.bufs.old_line@[(#[trigger] new[i]).old_idx->0 - first] == new[i]
    decreases c.segs.end - number
//@in 0
assert(st.line.segs@[number - 1] == new[number - 1 - first]);
assert forall|i: int| 0 <= i < m implies old_place(#[trigger] new[i], first, m) by { assert(new[i] == st.line.segs@[first + i]); }
assert forall|i: int| 0 <= i < number - 1 - first implies (#[trigger] new[i]).old_idx != new[number - 1 - first].old_idx by { assert(new[i] == st.line.segs@[first + i]); }
//@after 0
proof {
    p = Placing { old: self.bufs.old_line@, ..p };
    assert forall|i: int| 0 <= i < m implies old_place(#[trigger] new[i], first, m) by { assert(new[i] == st.line.segs@[first + i]); }
    assert(rearranged(new, p.old, first));
    lemma_entries(st, c, new, p.old);
}
//@at [0] let mut max_so_far
proof {
    p = Placing { above_rows: self.bufs.positions@, ..p };
    assert forall|k: int| 0 <= k < m implies which_.ensures((& #[trigger] p.old[k],), seg_of(which_, p.old[k])) by {}
    assert(line(p.old, which_, st.y, segments, st.eps).segs =~= line_of(st, p.old, true).segs);
    assert(rows_of(line_of(st, p.old, true), p.old, p.above_rows));
    ax_minus_inf(0.0f64);
}
//@loop 1
    invariant self.state == st, self.next_changed_interval == old(self).next_changed_interval + 1, range == c, *segments == st.segments, range_ok(st, c), first == c.segs.start, new == st.line.segs@.subrange(first, c.segs.end as int), m == new.len(),
        rearranged(new, p.old, first), forall|k: int| 0 <= k < m ==> entry_ok(st, #[trigger] p.old[k]),
        p.below.len() == 0, p.which.len() == 0, self.bufs.positions@ == p.above_rows, rows_of(line_of(st, p.old, true), p.old, p.above_rows), p.old.len() == m,
        0 <= number <= m, num(max_so_far), p.above.len() == number, placed(p.above_rows, p.above), number > 0 ==> max_so_far == p.above[number - 1],
        self.bufs.output_events@.len() == number, forall|k: int| 0 <= k < number ==> old_event(#[trigger] self.bufs.output_events@[k], p.old[k], p.above[k]),
    decreases m - number
//@tail 1
proof {
    let l = line_of(st, p.old, true);
    let k = number - 1;
    let ghost was = p.above;
    assert(row(l, p.old[k], k, p.above_rows[k]));
    if k > 0 { assert(row(l, p.old[k - 1], k - 1, p.above_rows[k - 1])); lemma_hi(l, k - 1, k); }
    ax_minus_inf(x);
    p = Placing { above: was.push(x), ..p };
    assert(p.above[k] == x);
    assert(placed(p.above_rows, p.above));
}
//@at [1] let mut max_so_far
proof {
    p = Placing { below_rows: self.bufs.positions@, ..p };
    assert(self.bufs.old_line@ =~= new);
    assert forall|k: int| 0 <= k < m implies which_.ensures((& #[trigger] new[k],), seg_of(which_, new[k])) by {}
    assert(line(new, which_, st.y, segments, st.eps).segs =~= line_of(st, new, false).segs);
    assert(rows_of(line_of(st, new, false), new, p.below_rows));
    ax_minus_inf(0.0f64);
}
//@loop 2
    invariant self.state == st, self.next_changed_interval == old(self).next_changed_interval + 1, range == c, *segments == st.segments, range_ok(st, c), first == c.segs.start, new == st.line.segs@.subrange(first, c.segs.end as int), m == new.len(),
        rearranged(new, p.old, first), forall|k: int| 0 <= k < m ==> entry_ok(st, #[trigger] new[k]), forall|i: int, j: int| 0 <= i < j < m ==> (#[trigger] new[i]).old_idx != (#[trigger] new[j]).old_idx,
        rows_of(line_of(st, p.old, true), p.old, p.above_rows), p.old.len() == m, placed(p.above_rows, p.above),
        self.bufs.positions@ == p.below_rows, rows_of(line_of(st, new, false), new, p.below_rows),
        forall|k: int| 0 <= k < m ==> entry_ok(st, #[trigger] p.old[k]),
        0 <= number <= m, num(max_so_far), p.below.len() == number, placed(p.below_rows, p.below), number > 0 ==> max_so_far == p.below[number - 1],
        main_events(self.bufs.output_events@, p.old, p.above), new_places(self.bufs.output_events@, new, p.below, first), next_events(self.bufs.output_events@, new, p.below, first, p.which)
    decreases m - number
//@tail 2
proof {
    let l = line_of(st, new, false);
    let k = number - 1;
    let ghost below = p.below; let ghost which = p.which;
    assert(row(l, new[k], k, p.below_rows[k]));
    if k > 0 { assert(row(l, new[k - 1], k - 1, p.below_rows[k - 1])); lemma_hi(l, k - 1, k); }
    ax_minus_inf(x1);
    p = Placing { below: below.push(x1), which: if new[k].old_seg is Some { which.push(k) } else { which }, ..p };
    assert(p.below[k] == x1);
    assert(placed(p.below_rows, p.below));
    lemma_placed(was, self.bufs.output_events@, new, p.old, p.above, below, first, which, x1);
}
//@after 2
proof {
    p = Placing { evs: self.bufs.output_events@, ..p };
    assert(placing(st, c, p));
    assert forall|k: int| 0 <= k < p.evs.len() implies (#[trigger] p.evs[k]).seg_idx.0 < st.segments.segs@.len() by {
        if k < m { assert(old_event(p.evs[k], p.old[k], p.above[k])); assert(entry_ok(st, p.old[k])); }
        else { assert(0 <= p.which[k - m] < m); assert(next_event(p.evs[m + (k - m)], new[p.which[k - m]], p.below[p.which[k - m]], first + p.which[k - m])); assert(entry_ok(st, new[p.which[k - m]])); }
    }
}
//@loop 3
    invariant self.state == st, self.next_changed_interval == old(self).next_changed_interval + 1, range == c, *segments == st.segments, range_ok(st, c),
        placing(st, c, p), 0 <= number <= p.evs.len(), self.bufs.output_events@.len() == p.evs.len(), forall|k: int| 0 <= k < p.evs.len() ==> (#[trigger] p.evs[k]).seg_idx.0 < st.segments.segs@.len(),
        forall|k: int| 0 <= k < number ==> #[trigger] self.bufs.output_events@[k] == exact(st, p.evs[k]),
        forall|k: int| number <= k < p.evs.len() ==> #[trigger] self.bufs.output_events@[k] == p.evs[k],
    decreases p.evs.len() - number
//@after 3
assert(self.bufs.output_events@ =~= exact_all(st, p.evs));
assert(exact_all(st, p.evs) + Seq::<OutputEvent>::empty() =~= exact_all(st, p.evs));
//@at events\.sort
assert(self.bufs.output_events@ =~= events_of(st, c, p));
//@at bufs\.clear
assert(placing(st, c, p) && events_of(st, c, p).to_multiset() == self.bufs.output_events@.to_multiset());
//@loop 4
    invariant self.state == st, self.next_changed_interval == old(self).next_changed_interval + 1, range_ok(st, c), c.horizontals == Some(*range), range.start <= number <= range.end,
        self.bufs.output_events@ =~= exact_all(st, p.evs) + horizontal_events(st, range.start as int, number as int)
    decreases range.end - number
//@ret r
//@spec
requires *segments == old(self).state.segments, old(self).state.line.segs@.len() < usize::MAX, old(self).next_changed_interval < usize::MAX,
    forall|k: int| 0 <= k < old(self).state.changed_intervals@.len() ==> range_ok(old(self).state, #[trigger] old(self).state.changed_intervals@[k])
ensures final(self).state == old(self).state,
    match r {
        None => old(self).next_changed_interval >= old(self).state.changed_intervals@.len() && *final(self) == *old(self),
        Some(c) => {
            let st = old(self).state;
            &&& old(self).next_changed_interval < st.changed_intervals@.len() && final(self).next_changed_interval == old(self).next_changed_interval + 1
            &&& c.segs == st.changed_intervals@[old(self).next_changed_interval as int].segs && c.horizontals == st.changed_intervals@[old(self).next_changed_interval as int].horizontals
            &&& if c.segs.end - c.segs.start == 1 && c.horizontals is None { single(st, c.segs.start as int, final(self).bufs.output_events@) } else {
                exists|p: Placing| placing(st, c, p) && #[trigger] events_of(st, c, p).to_multiset() == final(self).bufs.output_events@.to_multiset()
            }
        }
    }
//@end
}
/// Each old entry is one of the range.
proof fn lemma_entries(st: Sweeper, c: ChangedInterval, new: Seq<SegmentOrderEntry>, old: Seq<SegmentOrderEntry>)
    requires range_ok(st, c), new == st.line.segs@.subrange(c.segs.start as int, c.segs.end as int), rearranged(new, old, c.segs.start as int)
    ensures forall|k: int| 0 <= k < old.len() ==> entry_ok(st, #[trigger] old[k]),
        forall|k: int| 0 <= k < new.len() ==> entry_ok(st, #[trigger] new[k]), forall|i: int, j: int| 0 <= i < j < new.len() ==> (#[trigger] new[i]).old_idx != (#[trigger] new[j]).old_idx,
{
    assert forall|k: int| 0 <= k < new.len() implies entry_ok(st, #[trigger] new[k]) by { assert(new[k] == st.line.segs@[c.segs.start + k]); }
    assert forall|k: int| 0 <= k < old.len() implies entry_ok(st, #[trigger] old[k]) by {
        assert(has_old(st, c, c.segs.start + k));
        let i = choose|i: int| c.segs.start <= i < c.segs.end && (#[trigger] st.line.segs@[i]).old_idx == Some((c.segs.start + k) as usize);
        assert(new[i - c.segs.start] == st.line.segs@[i]);
        assert(old[new[i - c.segs.start].old_idx->0 - c.segs.start] == new[i - c.segs.start]);
    }
    assert forall|i: int, j: int| 0 <= i < j < new.len() implies (#[trigger] new[i]).old_idx != (#[trigger] new[j]).old_idx by { assert(new[i] == st.line.segs@[c.segs.start + i] && new[j] == st.line.segs@[c.segs.start + j]); }
}
/// One more entry of the new line was given its place.
proof fn lemma_placed(was: Seq<OutputEvent>, is: Seq<OutputEvent>, new: Seq<SegmentOrderEntry>, old: Seq<SegmentOrderEntry>, above: Seq<f64>, below: Seq<f64>, first: int, which: Seq<int>, x: f64)
    requires rearranged(new, old, first), main_events(was, old, above), new_places(was, new, below, first), next_events(was, new, below, first, which), below.len() < new.len(),
        forall|i: int, j: int| 0 <= i < j < new.len() ==> (#[trigger] new[i]).old_idx != (#[trigger] new[j]).old_idx,
        ({ let k = below.len() as int; let q = new[k].old_idx->0 - first;
           &&& is.len() == was.len() + (if new[k].old_seg is Some { 1int } else { 0 })
           &&& forall|t: int| 0 <= t < was.len() && t != q ==> #[trigger] is[t] == was[t]
           &&& is[q] == OutputEvent { x1: x, sweep_idx: Some((first + k) as usize), ..was[q] }
           &&& new[k].old_seg is Some ==> next_event(is[was.len() as int], new[k], x, first + k) })
    ensures ({ let k = below.len() as int; let w = if new[k].old_seg is Some { which.push(k) } else { which };
        main_events(is, old, above) && new_places(is, new, below.push(x), first) && next_events(is, new, below.push(x), first, w) })
{
    let k = below.len() as int; let q = new[k].old_idx->0 - first;
    let w = if new[k].old_seg is Some { which.push(k) } else { which };
    let b = below.push(x);
    assert(old_place(new[k], first, new.len() as int));
    assert forall|t: int| 0 <= t < old.len() implies old_event(#[trigger] is[t], old[t], above[t]) by { assert(old_event(was[t], old[t], above[t])); }
    assert forall|i: int| 0 <= i < b.len() implies new_place(is[(#[trigger] new[i]).old_idx->0 - first], b[i], first + i) by { if i < k { assert(new_place(was[new[i].old_idx->0 - first], below[i], first + i)); assert(new[i].old_idx != new[k].old_idx); assert(old_place(new[i], first, new.len() as int)); } }
    assert forall|t: int| 0 <= t < w.len() implies 0 <= #[trigger] w[t] < b.len() && next_event(is[new.len() + t], new[w[t]], b[w[t]], first + w[t]) by { if t < which.len() { assert(w[t] == which[t]); assert(next_event(was[new.len() + t], new[which[t]], below[which[t]], first + which[t])); } }
    assert forall|i: int| 0 <= i < b.len() && (#[trigger] new[i]).old_seg is Some implies w.contains(i) by { if i < k { let t = choose|t: int| 0 <= t < which.len() && which[t] == i; assert(which.contains(i)); assert(w[t] == i); } else { assert(w[which.len() as int] == i); } }
}

// ---------------------------------------------------------------- the property
spec fn in_band(st: Sweeper, s: SegIdx, x: f64) -> bool {
    rank(lower_of(st.segments.segs@[s.0 as int], st.y, st.eps)) <= rank(x) <= rank(upper_of(st.segments.segs@[s.0 as int], st.y, st.eps))
}
/// Where the segment of the a'th event stands in the new line.
spec fn stands(p: Placing, new: Seq<SegmentOrderEntry>, first: int, a: int, i: int) -> bool {
    0 <= i < new.len() && p.evs[a].sweep_idx == Some((first + i) as usize) && p.evs[a].x1 == p.below[i] && p.evs[a].seg_idx == new[i].seg
}
proof fn lemma_stands(st: Sweeper, c: ChangedInterval, p: Placing, a: int) -> (i: int)
    requires placing(st, c, p), range_ok(st, c), 0 <= a < p.evs.len(), p.evs[a].connected_below,
        forall|k: int| c.segs.start <= k < c.segs.end && (#[trigger] st.line.segs@[k]).old_seg is Some ==> st.line.segs@[k].exit
    ensures stands(p, st.line.segs@.subrange(c.segs.start as int, c.segs.end as int), c.segs.start as int, a, i)
{
    let first = c.segs.start as int;
    let new = st.line.segs@.subrange(first, c.segs.end as int);
    if a < new.len() {
        assert(has_old(st, c, first + a));
        let g = choose|i: int| c.segs.start <= i < c.segs.end && (#[trigger] st.line.segs@[i]).old_idx == Some((first + a) as usize);
        assert(new[g - first] == st.line.segs@[g]);
        assert(p.old[new[g - first].old_idx->0 - first] == new[g - first]);
        assert(new_place(p.evs[new[g - first].old_idx->0 - first], p.below[g - first], first + (g - first)));
        assert(old_event(p.evs[a], p.old[a], p.above[a]));
        g - first
    } else {
        let t = a - new.len();
        assert(0 <= p.which[t] < new.len() && next_event(p.evs[new.len() + t], new[p.which[t]], p.below[p.which[t]], first + p.which[t]));
        p.which[t]
    }
}
proof fn lemma_positions(st: Sweeper, c: ChangedInterval, p: Placing, a: int, b: int)
    requires placing(st, c, p), range_ok(st, c), 0 <= a < events_of(st, c, p).len(), 0 <= b < events_of(st, c, p).len(),
        // a corner of a contour is where its old segment ends
        forall|k: int| c.segs.start <= k < c.segs.end && (#[trigger] st.line.segs@[k]).old_seg is Some ==> st.line.segs@[k].exit
    ensures ({
        let (u, v) = (events_of(st, c, p)[a], events_of(st, c, p)[b]);
        let new = st.line.segs@.subrange(c.segs.start as int, c.segs.end as int);
        // above: in the old order, below: in the new order
        &&& u.connected_above ==> u.old_sweep_idx is Some
        &&& u.connected_below ==> u.sweep_idx is Some
        &&& u.connected_above && v.connected_above && u.old_sweep_idx->0 <= v.old_sweep_idx->0 ==> rank(u.x0) <= rank(v.x0)
        &&& u.connected_below && v.connected_below && u.sweep_idx->0 <= v.sweep_idx->0 ==> rank(u.x1) <= rank(v.x1)
        // within the bands whenever the order allows it
        &&& u.connected_above && feasible(line_of(st, p.old, true)) ==> in_band(st, u.seg_idx, u.x0)
        &&& u.connected_below && feasible(line_of(st, new, false)) ==> in_band(st, u.seg_idx, u.x1)
    })
{
    let (u, v) = (events_of(st, c, p)[a], events_of(st, c, p)[b]);
    let first = c.segs.start as int;
    let new = st.line.segs@.subrange(first, c.segs.end as int);
    let n = p.evs.len();
    lemma_above(st, c, p, a, b);
    lemma_above(st, c, p, b, a);
    if u.connected_below {
        assert(a < n && u == exact(st, p.evs[a]));
        let i = lemma_stands(st, c, p, a);
        let l = line_of(st, new, false);
        assert(row(l, new[i], i, p.below_rows[i]));
        assert(num(p.below[i]));
        if feasible(l) { lemma_nonempty(l, new[i], p.below_rows[i], i); lemma_in_band(l, new[i], p.below_rows[i], i); }
        if v.connected_below {
            assert(b < n && v == exact(st, p.evs[b]));
            let j = lemma_stands(st, c, p, b);
            if i <= j { assert(rank(p.below[i]) <= rank(p.below[j])); }
        }
    }
}
proof fn lemma_above(st: Sweeper, c: ChangedInterval, p: Placing, a: int, b: int)
    requires placing(st, c, p), range_ok(st, c), 0 <= a < events_of(st, c, p).len(), 0 <= b < events_of(st, c, p).len()
    ensures ({
        let (u, v) = (events_of(st, c, p)[a], events_of(st, c, p)[b]);
        &&& u.connected_above ==> u.old_sweep_idx is Some && u.old_sweep_idx->0 == c.segs.start + a && a < p.old.len() && u.x0 == p.above[a]
        &&& u.connected_above && v.connected_above && u.old_sweep_idx->0 <= v.old_sweep_idx->0 ==> rank(u.x0) <= rank(v.x0)
        &&& u.connected_above && feasible(line_of(st, p.old, true)) ==> in_band(st, u.seg_idx, u.x0)
    })
{
    let (u, v) = (events_of(st, c, p)[a], events_of(st, c, p)[b]);
    let first = c.segs.start as int;
    let new = st.line.segs@.subrange(first, c.segs.end as int);
    let n = p.evs.len();
    if u.connected_above {
        lemma_main(st, c, p, a);
        assert(u == exact(st, p.evs[a]));
        let l = line_of(st, p.old, true);
        assert(row(l, p.old[a], a, p.above_rows[a]));
        assert(num(p.above[a]));
        if feasible(l) { lemma_nonempty(l, p.old[a], p.above_rows[a], a); lemma_in_band(l, p.old[a], p.above_rows[a], a); }
        if v.connected_above {
            lemma_main(st, c, p, b);
            assert(v == exact(st, p.evs[b]));
            if a <= b { assert(rank(p.above[a]) <= rank(p.above[b])); }
        }
    }
}
/// What reaches above is an event of the old line.
proof fn lemma_main(st: Sweeper, c: ChangedInterval, p: Placing, a: int)
    requires placing(st, c, p), range_ok(st, c), 0 <= a < events_of(st, c, p).len(), events_of(st, c, p)[a].connected_above
    ensures a < p.old.len(), old_event(p.evs[a], p.old[a], p.above[a]), p.old[a].old_idx == Some((c.segs.start + a) as usize)
{
    let first = c.segs.start as int;
    let new = st.line.segs@.subrange(first, c.segs.end as int);
    if a >= p.evs.len() { assert(events_of(st, c, p)[a] == of_range(st, c)[a - p.evs.len()]); }
    else {
        assert(events_of(st, c, p)[a] == exact(st, p.evs[a]));
        if a >= new.len() {
            let t = a - new.len();
            assert(0 <= p.which[t] < new.len() && next_event(p.evs[new.len() + t], new[p.which[t]], p.below[p.which[t]], first + p.which[t]));
        }
    }
    assert(has_old(st, c, first + a));
    let g = choose|i: int| c.segs.start <= i < c.segs.end && (#[trigger] st.line.segs@[i]).old_idx == Some((first + a) as usize);
    assert(new[g - first] == st.line.segs@[g]);
    assert(p.old[new[g - first].old_idx->0 - first] == new[g - first]);
    assert(old_event(p.evs[a], p.old[a], p.above[a]));
}
} // verus!
fn main() {}
