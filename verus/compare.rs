#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_braces, non_snake_case)]
use vstd::prelude::*;
verus! {

// ---------------------------------------------------------------- the code under contract
//@src src/segments.rs
#[derive(Clone, Copy, PartialEq, Eq)]
//@item struct SegIdx
//@src src/curve/mod.rs
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@item enum Order
//@item struct CurveOrderEntry
//@item struct CurveOrder
//@src src/order.rs
//@item struct ComparisonCache

// ---------------------------------------------------------------- dependencies
type Pair = (SegIdx, SegIdx);
/// The standard library's map from pairs of segments to comparisons (trusted).
#[verifier::external_body]
#[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
struct HashMap<K, V> { m: std::collections::HashMap<(usize, usize), V>, k: Option<K> }
uninterp spec fn known(m: &HashMap<Pair, CurveOrder>) -> Map<Pair, Answer>;
impl HashMap<Pair, CurveOrder> {
    #[verifier::external_body]
    fn new() -> (r: Self) ensures known(&r) == Map::<Pair, Answer>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, k: &Pair) -> (r: Option<&CurveOrder>)
        ensures r is Some <==> known(self).contains_key(*k), r is Some ==> (r->0).answer() == known(self)[*k]
    { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: Pair, v: CurveOrder) -> (r: Option<CurveOrder>)
        ensures known(final(self)) == known(old(self)).insert(k, v.answer())
    { unimplemented!() }
    #[verifier::external_body]
    fn contains_key(&self, k: &Pair) -> (r: bool) ensures r == known(self).contains_key(*k) { unimplemented!() }
    /// `entry(k).insert_entry(v).get()`
    fn put(&mut self, k: Pair, v: CurveOrder) -> (r: CurveOrder)
        ensures known(final(self)) == known(old(self)).insert(k, v.answer()), r.answer() == v.answer()
    { let r = v.clone(); self.insert(k, v); r }
}
/// A comparison: where it begins and its entries.
struct Answer { start: f64, cmps: Seq<CurveOrderEntry> }
spec fn flipped(o: Order) -> Order { match o { Order::Left => Order::Right, Order::Right => Order::Left, Order::Ish => Order::Ish } }
spec fn mirror(a: Answer) -> Answer { Answer { start: a.start, cmps: Seq::new(a.cmps.len(), |i: int| CurveOrderEntry { end: a.cmps[i].end, order: flipped(a.cmps[i].order) }) } }
proof fn lemma_mirror(a: Answer) ensures mirror(mirror(a)) == a
{
    let b = mirror(mirror(a));
    assert forall|i: int| 0 <= i < a.cmps.len() implies b.cmps[i] == a.cmps[i] by { assert(mirror(a).cmps[i].order == flipped(a.cmps[i].order)); }
    assert(b.cmps =~= a.cmps);
}
// what the intersection of two curves says, and its widening by a slop: C13, C15 (bounded) and C09 (unit curve_order)
#[derive(Clone, Copy)]
#[verifier::external_body]
struct CubicBez {}
uninterp spec fn crossing(c0: CubicBez, c1: CubicBez, tolerance: f64, accuracy: f64) -> Answer;
uninterp spec fn widened(a: Answer, slop: f64) -> Answer;
impl CurveOrder {
    spec fn answer(&self) -> Answer { Answer { start: self.start, cmps: self.cmps@ } }
    #[verifier::external_body]
    fn clone(&self) -> (r: CurveOrder) ensures r.answer() == self.answer() { unimplemented!() }
    /// Proved in the unit curve_order.
    #[verifier::external_body]
    fn flip(&self) -> (r: CurveOrder) ensures r.answer() == mirror(self.answer()) { unimplemented!() }
    #[verifier::external_body]
    fn with_y_slop(self, slop: f64) -> (r: CurveOrder) ensures r.answer() == widened(self.answer(), slop) { unimplemented!() }
}
mod curve {
    use super::*;
    #[verifier::external_body]
    pub(crate) fn intersect_cubics(c0: CubicBez, c1: CubicBez, tolerance: f64, accuracy: f64) -> (r: CurveOrder) ensures r.answer() == crossing(c0, c1, tolerance, accuracy) { unimplemented!() }
}
#[verifier::external_body]
struct Segment {}
uninterp spec fn cubic(s: Segment) -> CubicBez;
impl Segment {
    #[verifier::external_body]
    fn to_kurbo_cubic(&self) -> (r: CubicBez) ensures r == cubic(*self) { unimplemented!() }
}
struct Segments { segs: Vec<Segment> }
impl Segments {
    fn at(&self, i: SegIdx) -> (r: &Segment) requires i.0 < self.segs@.len() ensures *r == self.segs@[i.0 as int] { &self.segs[i.0] }
}

// ---------------------------------------------------------------- the contract
/// What comparing i with j says.
spec fn said(c: &ComparisonCache, s: &Segments, i: SegIdx, j: SegIdx) -> Answer {
    widened(crossing(cubic(s.segs@[i.0 as int]), cubic(s.segs@[j.0 as int]), c.tolerance, c.accuracy), c.y_slop)
}
/// Both directions are known, and are mirror images; what is known was said about the pair, one way around or the other.
spec fn entry(c: &ComparisonCache, s: &Segments, i: SegIdx, j: SegIdx) -> bool {
    let k = known(&c.inner);
    k.contains_key((i, j)) ==> k.contains_key((j, i)) && k[(j, i)] == mirror(k[(i, j)]) && (k[(i, j)] == said(c, s, i, j) || k[(i, j)] == mirror(said(c, s, j, i)))
}
spec fn wf(c: &ComparisonCache, s: &Segments) -> bool { forall|i: SegIdx, j: SegIdx| #[trigger] entry(c, s, i, j) }
impl ComparisonCache {
    //@src src/order.rs
    //@fn ComparisonCache::new
    //@ret r
    ensures r.tolerance == tolerance, r.accuracy == accuracy, r.y_slop == tolerance, forall|s: &Segments| #[trigger] wf(&r, s)
    //@end
    //@fn ComparisonCache::new_without_y_slop
    //@ret r
    ensures r.tolerance == tolerance, r.accuracy == accuracy, r.y_slop == 0.0f64, forall|s: &Segments| #[trigger] wf(&r, s)
    //@end
    //@fn ComparisonCache::compare_segments
    //@sub &?segments\[(\w+)\] ==> segments.at(\1)
    //@sub self\.inner\s*\.entry\(\((\w+), (\w+)\)\)\s*\.insert_entry\((\w+)\)\s*\.get\(\)\s*\.clone\(\) ==> self.inner.put((\1, \2), \3)
    //@start
    proof { assert(entry(old(self), segments, i, j)); assert(entry(old(self), segments, j, i)); }
    let r = {
    //@finish
    };
    proof {
        if !known(&old(self).inner).contains_key((i, j)) { lemma_mirror(said(old(self), segments, i, j)); }
        assert forall|a: SegIdx, b: SegIdx| #[trigger] entry(self, segments, a, b) by {
            assert(entry(old(self), segments, a, b));
            assert(entry(old(self), segments, b, a));
        }
    }
    r
    //@ret r
    //@spec
    requires i != j, i.0 < segments.segs@.len(), j.0 < segments.segs@.len(), wf(old(self), segments)
    ensures
        wf(final(self), segments),
        final(self).tolerance == old(self).tolerance, final(self).accuracy == old(self).accuracy, final(self).y_slop == old(self).y_slop,
        known(&final(self).inner).contains_key((i, j)), r.answer() == known(&final(self).inner)[(i, j)],
        r.answer() == said(old(self), segments, i, j) || r.answer() == mirror(said(old(self), segments, j, i)),
        forall|a: SegIdx, b: SegIdx| #![trigger known(&final(self).inner)[(a, b)]] known(&old(self).inner).contains_key((a, b)) ==> known(&final(self).inner).contains_key((a, b)) && known(&final(self).inner)[(a, b)] == known(&old(self).inner)[(a, b)],
    //@end
}
/// The same answer again, and the mirror image the other way around, whatever was asked in between.
proof fn lemma_again(c: &ComparisonCache, d: &ComparisonCache, s: &Segments, i: SegIdx, j: SegIdx, r: Answer)
    requires wf(c, s), wf(d, s), known(&c.inner).contains_key((i, j)), r == known(&c.inner)[(i, j)],
        forall|a: SegIdx, b: SegIdx| #![trigger known(&d.inner)[(a, b)]] known(&c.inner).contains_key((a, b)) ==> known(&d.inner).contains_key((a, b)) && known(&d.inner)[(a, b)] == known(&c.inner)[(a, b)]
    ensures known(&d.inner).contains_key((i, j)), known(&d.inner)[(i, j)] == r, known(&d.inner).contains_key((j, i)), known(&d.inner)[(j, i)] == mirror(r)
{ assert(entry(d, s, i, j)); assert(known(&d.inner)[(i, j)] == known(&c.inner)[(i, j)]); }
} // verus!
fn main() {}
