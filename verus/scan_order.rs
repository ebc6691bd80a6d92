#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_braces, non_snake_case)]
use vstd::prelude::*;
verus! {

// ---------------------------------------------------------------- the code under contract
//@src src/segments.rs
#[derive(Clone, Copy, PartialEq, Eq)]
//@item struct SegIdx
//@src src/topology.rs
#[derive(Clone, Copy, PartialEq, Eq)]
//@item struct OutputSegIdx
//@item struct OutputSegVec
//@item struct HalfScanLineOrder
//@item struct ScanLineOrder
//@src src/curve/mod.rs
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@item enum Order

type Rec = (f64, Option<OutputSegIdx>);
type Item = (f64, f64, Option<OutputSegIdx>);
type Piece = (f64, f64, Order);

mod fl {
use super::*;
//@include f64_order.rs
// Verus does not know that a field of type f64 holds an f64; this says no more than that.
pub(crate) broadcast axiom fn typed_r(e: Rec) ensures #[trigger] e.0 == e.0, exists|x: f64| x == e.0 && #[trigger] rank(x) == rank(x);
pub(crate) broadcast axiom fn typed_i0(e: Item) ensures #[trigger] e.0 == e.0, exists|x: f64| x == e.0 && #[trigger] rank(x) == rank(x);
pub(crate) broadcast axiom fn typed_i1(e: Item) ensures #[trigger] e.1 == e.1, exists|x: f64| x == e.1 && #[trigger] rank(x) == rank(x);
pub(crate) broadcast axiom fn typed_p0(e: Piece) ensures #[trigger] e.0 == e.0, exists|x: f64| x == e.0 && #[trigger] rank(x) == rank(x);
pub(crate) broadcast axiom fn typed_p1(e: Piece) ensures #[trigger] e.1 == e.1, exists|x: f64| x == e.1 && #[trigger] rank(x) == rank(x);
pub(crate) broadcast group doubles { f64_order, typed_r, typed_i0, typed_i1, typed_p0, typed_p1 }
}
use fl::*;
broadcast use fl::doubles;

#[verifier::external_body]
fn infinity() -> (r: f64) ensures r == infinite() { f64::INFINITY }
#[verifier::external_body]
fn fmax(a: f64, b: f64) -> (r: f64)
    requires num(a), num(b)
    ensures num(r), rank(r) == (if rank(a) >= rank(b) { rank(a) } else { rank(b) })
{ a.max(b) }

// ---------------------------------------------------------------- chains of iterators
// The adaptors of std::iter::Iterator, as their documentation describes them, for closures without side effects.
// The loops are verified; that the library does the same (lazily) is trusted.
struct Items<T> { v: Vec<T> }
impl<T: Copy> Items<T> {
    #[verifier::exec_allows_no_decreases_clause]
    fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: Items<U>)
        requires forall|x: T| f.requires((x,))
        ensures r.v@.len() == self.v@.len(), forall|j: int| 0 <= j < r.v@.len() ==> f.ensures((self.v@[j],), #[trigger] r.v@[j])
    {
        let mut o: Vec<U> = Vec::new();
        let mut k = 0;
        while k < self.v.len()
            invariant k <= self.v@.len(), o@.len() == k, forall|x: T| f.requires((x,)), forall|j: int| 0 <= j < k ==> f.ensures((self.v@[j],), #[trigger] o@[j])
        { o.push(f(self.v[k])); k += 1; }
        Items { v: o }
    }
    fn skip(self, n: usize) -> (r: Items<T>)
        ensures r.v@ == (if n <= self.v@.len() { self.v@.skip(n as int) } else { Seq::<T>::empty() })
    {
        let mut o: Vec<T> = Vec::new();
        let mut k = n;
        while k < self.v.len()
            invariant n <= k, k <= self.v@.len() || k == n, o@ =~= (if n <= self.v@.len() { self.v@.subrange(n as int, k as int) } else { Seq::<T>::empty() })
            decreases self.v@.len() - k
        { o.push(self.v[k]); k += 1; }
        Items { v: o }
    }
    fn chain_once(self, x: T) -> (r: Items<T>) ensures r.v@ == self.v@.push(x) { let mut v = self.v; v.push(x); Items { v } }
    fn zip<U: Copy>(self, o: Items<U>) -> (r: Items<(T, U)>)
        ensures r.v@.len() == (if self.v@.len() <= o.v@.len() { self.v@.len() } else { o.v@.len() }), forall|j: int| 0 <= j < r.v@.len() ==> #[trigger] r.v@[j] == (self.v@[j], o.v@[j])
    {
        let mut z: Vec<(T, U)> = Vec::new();
        let mut k = 0;
        while k < self.v.len() && k < o.v.len()
            invariant k <= self.v@.len(), k <= o.v@.len(), z@.len() == k, forall|j: int| 0 <= j < k ==> #[trigger] z@[j] == (self.v@[j], o.v@[j])
            decreases self.v@.len() - k
        { z.push((self.v[k], o.v[k])); k += 1; }
        Items { v: z }
    }
    fn take_while<P: Fn(&T) -> bool>(self, p: P) -> (r: Items<T>)
        requires forall|x: &T| p.requires((x,))
        ensures taken(self.v@, p, r.v@)
    {
        let mut o: Vec<T> = Vec::new();
        let mut k = 0;
        while k < self.v.len()
            invariant k <= self.v@.len(), o@ =~= self.v@.take(k as int), forall|x: &T| p.requires((x,)), forall|j: int| 0 <= j < k ==> p.ensures((&#[trigger] self.v@[j],), true)
            decreases self.v@.len() - k
        {
            let x = self.v[k];
            if !p(&x) { return Items { v: o }; }
            o.push(x);
            k += 1;
        }
        Items { v: o }
    }
    fn filter<P: Fn(&T) -> bool>(self, p: P) -> (r: Filtered<T, P>)
        ensures r.from == self, r.p == p
    { Filtered { from: self, p } }
    fn find<P: Fn(&T) -> bool>(self, p: P) -> (r: Option<T>)
        requires forall|x: &T| p.requires((x,))
        ensures found(self.v@, p, r)
    {
        let mut k = 0;
        while k < self.v.len()
            invariant k <= self.v@.len(), forall|x: &T| p.requires((x,)), forall|j: int| 0 <= j < k ==> p.ensures((&#[trigger] self.v@[j],), false)
            decreases self.v@.len() - k
        {
            let x = self.v[k];
            if p(&x) { let r = Some(x); proof { let kk = k as int; assert(hit(self.v@, p, x, kk)); assert(exists|j: int| hit(self.v@, p, x, j)); assert(r->0 == x); assert(exists|j: int| hit(self.v@, p, r->0, j)); assert(found(self.v@, p, r)); } return r; }
            k += 1;
        }
        None
    }
}
/// filter and what follows it.
struct Filtered<T, P> { from: Items<T>, p: P }
impl<T: Copy, P: Fn(&T) -> bool> Filtered<T, P> {
    fn find<Q: Fn(&T) -> bool>(self, q: Q) -> (r: Option<T>)
        requires forall|x: &T| self.p.requires((x,)), forall|x: &T| q.requires((x,))
        ensures found2(self.from.v@, self.p, q, r)
    {
        let mut k = 0;
        while k < self.from.v.len()
            invariant k <= self.from.v@.len(), forall|x: &T| self.p.requires((x,)), forall|x: &T| q.requires((x,)),
                forall|j: int| 0 <= j < k ==> self.p.ensures((&#[trigger] self.from.v@[j],), false) || q.ensures((&self.from.v@[j],), false)
            decreases self.from.v@.len() - k
        {
            let x = self.from.v[k];
            if (self.p)(&x) { if q(&x) { let r = Some(x); proof { let kk = k as int; assert(hit2(self.from.v@, self.p, q, x, kk)); assert(exists|j: int| hit2(self.from.v@, self.p, q, x, j)); assert(r->0 == x); assert(exists|j: int| hit2(self.from.v@, self.p, q, r->0, j)); assert(found2(self.from.v@, self.p, q, r)); } return r; } }
            k += 1;
        }
        None
    }
}
spec fn hit<T, P: Fn(&T) -> bool>(all: Seq<T>, p: P, x: T, k: int) -> bool {
    0 <= k < all.len() && all[k] == x && p.ensures((&x,), true) && (forall|j: int| 0 <= j < k ==> p.ensures((&#[trigger] all[j],), false))
}
spec fn found<T, P: Fn(&T) -> bool>(all: Seq<T>, p: P, r: Option<T>) -> bool {
    match r { None => forall|j: int| 0 <= j < all.len() ==> p.ensures((&#[trigger] all[j],), false), Some(x) => exists|k: int| #[trigger] hit(all, p, x, k) }
}
spec fn hit2<T, P: Fn(&T) -> bool, Q: Fn(&T) -> bool>(all: Seq<T>, p: P, q: Q, x: T, k: int) -> bool {
    0 <= k < all.len() && all[k] == x && p.ensures((&x,), true) && q.ensures((&x,), true) && (forall|j: int| 0 <= j < k ==> p.ensures((&#[trigger] all[j],), false) || q.ensures((&all[j],), false))
}
spec fn found2<T, P: Fn(&T) -> bool, Q: Fn(&T) -> bool>(all: Seq<T>, p: P, q: Q, r: Option<T>) -> bool {
    match r { None => forall|j: int| 0 <= j < all.len() ==> p.ensures((&#[trigger] all[j],), false) || q.ensures((&all[j],), false), Some(x) => exists|k: int| #[trigger] hit2(all, p, q, x, k) }
}
spec fn taken<T, P: Fn(&T) -> bool>(all: Seq<T>, p: P, r: Seq<T>) -> bool {
    r.len() <= all.len() && r == all.take(r.len() as int) && (forall|j: int| 0 <= j < r.len() ==> p.ensures((&#[trigger] all[j],), true)) && (r.len() < all.len() ==> p.ensures((&all[r.len() as int],), false))
}
fn items<T: Copy>(l: &Vec<T>) -> (r: Items<T>) ensures r.v@ == l@
{
    let mut v: Vec<T> = Vec::new();
    let mut k = 0;
    while k < l.len() invariant k <= l@.len(), v@ =~= l@.take(k as int) decreases l@.len() - k { v.push(l[k]); k += 1; }
    Items { v }
}

// ---------------------------------------------------------------- the abstraction
type Recs = Seq<Rec>;
spec fn height(l: Recs, i: int) -> int { rank(l[i].0) }
/// Records hold finite heights, in order.
spec fn recorded(l: Recs) -> bool {
    &&& forall|i: int| 0 <= i < l.len() ==> fin(#[trigger] l[i].0)
    &&& forall|i: int, j: int| #![trigger height(l, i), height(l, j)] 0 <= i <= j < l.len() ==> height(l, i) <= height(l, j)
}
/// The i'th record and where the next one begins.
spec fn until(l: Recs, i: int) -> f64 { if i + 1 < l.len() { l[i + 1].0 } else { infinite() } }
spec fn spans(l: Recs) -> Seq<Item> { Seq::new(l.len(), |i: int| (l[i].0, until(l, i), l[i].1)) }
/// The i'th record is the last one at or before y.
spec fn last_before(l: Recs, y: int, i: int) -> bool {
    0 <= i < l.len() && height(l, i) <= y && forall|j: int| i < j < l.len() ==> #[trigger] height(l, j) > y
}
/// The neighbour after height y: the one recorded last at or before it.
spec fn neighbor(l: Recs, y: int, r: Option<OutputSegIdx>) -> bool {
    ||| exists|i: int| #[trigger] last_before(l, y, i) && r == l[i].1
    ||| r is None && forall|j: int| 0 <= j < l.len() ==> #[trigger] height(l, j) > y
}
proof fn lemma_spans(l: Recs, i: int, y: f64)
    requires recorded(l), 0 <= i < l.len(), fin(y)
    ensures fin(l[i].0), num(l[i].0), num(until(l, i)), height(l, i) <= rank(until(l, i)), num(y), rank(y) < rank(infinite()),
        i + 1 < l.len() ==> rank(until(l, i)) == height(l, i + 1)
{
    ax_inf(l[i].0); ax_inf(y); ax_fin(y); ax_fin(l[i].0);
    if i + 1 < l.len() { ax_fin(l[i + 1].0); assert(height(l, i) <= height(l, i + 1)); }
}
proof fn lemma_neighbor(l: Recs, y: f64, taken: Seq<Item>, k: int)
    requires recorded(l), fin(y), taken.len() <= l.len(), taken == spans(l).take(taken.len() as int),
        forall|j: int| 0 <= j < taken.len() ==> height(l, j) <= rank(y), taken.len() < l.len() ==> height(l, taken.len() as int) > rank(y),
        0 <= k < taken.len(), rank(until(l, k)) > rank(y)
    ensures last_before(l, rank(y), k)
{
    assert forall|j: int| k < j < l.len() implies #[trigger] height(l, j) > rank(y) by { lemma_spans(l, k, y); assert(height(l, k + 1) <= height(l, j)); }
}
proof fn lemma_no_neighbor(l: Recs, y: f64, taken: Seq<Item>)
    requires recorded(l), fin(y), taken.len() <= l.len(), taken == spans(l).take(taken.len() as int),
        forall|j: int| 0 <= j < taken.len() ==> height(l, j) <= rank(y), taken.len() < l.len() ==> height(l, taken.len() as int) > rank(y),
        forall|k: int| 0 <= k < taken.len() ==> rank(#[trigger] until(l, k)) <= rank(y)
    ensures forall|j: int| 0 <= j < l.len() ==> #[trigger] height(l, j) > rank(y)
{
    let n = taken.len() as int;
    if n > 0 { lemma_spans(l, n - 1, y); assert(rank(until(l, n - 1)) <= rank(y)); }
    assert forall|j: int| 0 <= j < l.len() implies #[trigger] height(l, j) > rank(y) by { assert(height(l, 0) <= height(l, j)); }
}

//@src src/topology.rs
/// What take_while keeps.
proof fn lemma_seen(l: Recs, y: f64, some: Seq<Item>)
    requires recorded(l), fin(y), some.len() <= l.len(), some == spans(l).take(some.len() as int),
        forall|j: int| 0 <= j < some.len() ==> num(#[trigger] some[j].0) ==> rank(some[j].0) <= rank(y), some.len() < l.len() ==> num(spans(l)[some.len() as int].0) ==> rank(spans(l)[some.len() as int].0) > rank(y),
    ensures forall|j: int| 0 <= j < some.len() ==> height(l, j) <= rank(y), some.len() < l.len() ==> height(l, some.len() as int) > rank(y)
{
    assert forall|j: int| 0 <= j < some.len() implies height(l, j) <= rank(y) by { lemma_spans(l, j, y); assert(some[j].0 == l[j].0); }
    if some.len() < l.len() { lemma_spans(l, some.len() as int, y); }
}
/// What neighbor_after finds.
spec fn next_found(l: Recs, y: f64, some: Seq<Item>, hit: Option<Item>) -> bool {
    match hit {
        None => forall|k: int| 0 <= k < some.len() ==> (num(#[trigger] some[k].1) ==> rank(some[k].1) <= rank(y)),
        Some(x) => (num(x.1) ==> rank(x.1) > rank(y)) && exists|k: int| 0 <= k < some.len() && x == #[trigger] some[k],
    }
}
proof fn lemma_looked(l: Recs, y: f64, some: Seq<Item>, hit: Option<Item>)
    requires recorded(l), fin(y), some.len() <= l.len(), some == spans(l).take(some.len() as int),
        forall|j: int| 0 <= j < some.len() ==> height(l, j) <= rank(y), some.len() < l.len() ==> height(l, some.len() as int) > rank(y),
        next_found(l, y, some, hit),
    ensures neighbor(l, rank(y), match hit { Some(x) => x.2, None => None })
{
    match hit {
        None => {
            assert forall|k: int| 0 <= k < some.len() implies rank(#[trigger] until(l, k)) <= rank(y) by { lemma_spans(l, k, y); assert(some[k].1 == until(l, k)); }
            lemma_no_neighbor(l, y, some);
        }
        Some(x) => {
            let k = choose|k: int| 0 <= k < some.len() && x == #[trigger] some[k];
            lemma_spans(l, k, y);
            lemma_neighbor(l, y, some, k);
            assert(x.2 == l[k].1);
        }
    }
}
// ---------------------------------------------------------------- close neighbours
/// What this code sees of a comparison: its intervals, whose contract is C09.
#[verifier::external_body]
struct CurveOrder {}
#[verifier::external_body]
struct Segments {}
#[verifier::external_body]
struct ComparisonCache {}
impl CurveOrder {
    uninterp spec fn pieces(&self) -> Seq<Piece>;
    #[verifier::external_body]
    fn iter(&self) -> (r: Items<Piece>) ensures r.v@ == self.pieces() { unimplemented!() }
}
/// The answer of the cache for a pair of segments; it does not change (unit compare).
uninterp spec fn answer(c: &ComparisonCache, s: &Segments, i: SegIdx, j: SegIdx) -> CurveOrder;
impl ComparisonCache {
    #[verifier::external_body]
    fn compare_segments(&mut self, s: &Segments, i: SegIdx, j: SegIdx) -> (r: CurveOrder)
        ensures r == answer(old(self), s, i, j), ordered(r.pieces()), same_answers(old(self), final(self))
    { unimplemented!() }
}
spec fn same_answers(c: &ComparisonCache, d: &ComparisonCache) -> bool { forall|s: &Segments, i: SegIdx, j: SegIdx| #[trigger] answer(d, s, i, j) == answer(c, s, i, j) }
spec fn left_end(ps: Seq<Piece>, i: int) -> int { rank(ps[i].0) }
spec fn ordered(ps: Seq<Piece>) -> bool {
    &&& forall|i: int| 0 <= i < ps.len() ==> num((#[trigger] ps[i]).0) && num(ps[i].1)
    &&& forall|i: int, j: int| #![trigger left_end(ps, i), left_end(ps, j)] 0 <= i <= j < ps.len() ==> left_end(ps, i) <= left_end(ps, j)
}
/// Where the i'th record and the heights from y on begin to overlap.
spec fn since(l: Recs, i: int, y: int) -> int { if height(l, i) >= y { height(l, i) } else { y } }
/// The k'th interval of the comparison with the i'th neighbour is undecided, and some of it lies in the record at or below y.
spec fn close(l: Recs, i: int, ps: Seq<Piece>, k: int, y: int) -> bool {
    0 <= k < ps.len() && ps[k].2 == Order::Ish && left_end(ps, k) < rank(until(l, i)) && rank(ps[k].1) > since(l, i, y) && rank(until(l, i)) > since(l, i, y)
}
/// Where that begins.
spec fn first_height(l: Recs, i: int, ps: Seq<Piece>, k: int, y: int) -> int { if left_end(ps, k) >= since(l, i, y) { left_end(ps, k) } else { since(l, i, y) } }
spec fn closest(l: Recs, i: int, ps: Seq<Piece>, k: int, y: int) -> bool {
    close(l, i, ps, k, y) && forall|m: int| #[trigger] close(l, i, ps, m, y) ==> first_height(l, i, ps, k, y) <= first_height(l, i, ps, m, y)
}
struct Query { l: Recs, of: Seq<SegIdx>, me: SegIdx, y: int }
spec fn pieces(c: &ComparisonCache, s: &Segments, q: Query, i: int) -> Seq<Piece> { answer(c, s, q.me, q.of[(q.l[i].1->0).0 as int]).pieces() }
spec fn near(c: &ComparisonCache, s: &Segments, q: Query, i: int, k: int) -> bool { 0 <= i < q.l.len() && q.l[i].1 is Some && close(q.l, i, pieces(c, s, q, i), k, q.y) }
spec fn near_at(c: &ComparisonCache, s: &Segments, q: Query, i: int, k: int) -> int { first_height(q.l, i, pieces(c, s, q, i), k, q.y) }
/// The least height from y on at which the neighbour recorded there is close.
spec fn next_close(c: &ComparisonCache, s: &Segments, q: Query, r: Option<f64>) -> bool {
    match r {
        None => forall|i: int, k: int| !#[trigger] near(c, s, q, i, k),
        Some(h) => {
            &&& exists|i: int, k: int| #[trigger] near(c, s, q, i, k) && rank(h) == near_at(c, s, q, i, k)
            &&& forall|i: int, k: int| #[trigger] near(c, s, q, i, k) ==> rank(h) <= near_at(c, s, q, i, k)
        }
    }
}
/// What the search among the intervals of one comparison finds.
proof fn lemma_piece(l: Recs, i: int, ps: Seq<Piece>, some: Seq<Piece>, y: f64, start: f64, y1: f64, hit: Option<Piece>, k: int)
    requires recorded(l), ordered(ps), 0 <= i < l.len(), fin(y), rank(start) == since(l, i, rank(y)), rank(y1) == rank(until(l, i)), rank(y1) > rank(start),
        some.len() <= ps.len(), some == ps.take(some.len() as int), some.len() < ps.len() ==> left_end(ps, some.len() as int) >= rank(y1),
        forall|j: int| 0 <= j < some.len() ==> left_end(some, j) < rank(y1),
        hit is None ==> k == some.len(), hit is Some ==> 0 <= k < some.len() && hit->0 == some[k] && some[k].2 == Order::Ish && rank(some[k].1) > rank(start),
        forall|j: int| 0 <= j < k ==> (#[trigger] some[j]).2 != Order::Ish || rank(some[j].1) <= rank(start),
    ensures hit is None ==> forall|m: int| !#[trigger] close(l, i, ps, m, rank(y)), hit is Some ==> closest(l, i, ps, k, rank(y))
{
    assert forall|m: int| #[trigger] close(l, i, ps, m, rank(y)) implies k < some.len() && m >= k by {
        if m >= some.len() { assert(left_end(ps, some.len() as int) <= left_end(ps, m)); }
        assert(some[m] == ps[m]);
    }
    if hit is Some {
        assert(some[k] == ps[k]);
        assert(left_end(some, k) < rank(y1));
        assert forall|m: int| #[trigger] close(l, i, ps, m, rank(y)) implies first_height(l, i, ps, k, rank(y)) <= first_height(l, i, ps, m, rank(y)) by { assert(left_end(ps, k) <= left_end(ps, m)); }
    }
}
spec fn piece_found(some: Seq<Piece>, start: f64, hit: Option<Piece>) -> bool {
    match hit {
        None => forall|j: int| 0 <= j < some.len() ==> (#[trigger] some[j]).2 != Order::Ish || (num(some[j].1) ==> rank(some[j].1) <= rank(start)),
        Some(x) => exists|k: int| #[trigger] piece_hit(some, start, x, k),
    }
}
spec fn piece_hit(some: Seq<Piece>, start: f64, x: Piece, k: int) -> bool {
    0 <= k < some.len() && x == some[k] && some[k].2 == Order::Ish && (num(some[k].1) ==> rank(some[k].1) > rank(start))
        && forall|j: int| 0 <= j < k ==> (#[trigger] some[j]).2 != Order::Ish || (num(some[j].1) ==> rank(some[j].1) <= rank(start))
}
proof fn lemma_looked_pieces(l: Recs, i: int, ps: Seq<Piece>, some: Seq<Piece>, y: f64, start: f64, y1: f64, hit: Option<Piece>)
    requires recorded(l), ordered(ps), 0 <= i < l.len(), fin(y), rank(start) == since(l, i, rank(y)), rank(y1) == rank(until(l, i)), rank(y1) > rank(start),
        some.len() <= ps.len(), some == ps.take(some.len() as int), some.len() < ps.len() ==> (num(ps[some.len() as int].0) ==> left_end(ps, some.len() as int) >= rank(y1)),
        forall|j: int| 0 <= j < some.len() ==> (num(#[trigger] some[j].0) ==> rank(some[j].0) < rank(y1)),
        piece_found(some, start, hit),
    ensures hit is None ==> forall|m: int| !#[trigger] close(l, i, ps, m, rank(y)), hit is Some ==> exists|k: int| #[trigger] closest(l, i, ps, k, rank(y)) && hit->0 == ps[k]
{
    assert forall|j: int| 0 <= j < some.len() implies num((#[trigger] some[j]).0) && num(some[j].1) by { assert(some[j] == ps[j]); }
    assert forall|j: int| 0 <= j < some.len() implies left_end(some, j) < rank(y1) by { assert(num(some[j].0)); }
    match hit {
        None => { lemma_piece(l, i, ps, some, y, start, y1, hit, some.len() as int); }
        Some(x) => { let k = choose|k: int| #[trigger] piece_hit(some, start, x, k); lemma_piece(l, i, ps, some, y, start, y1, hit, k); }
    }
}
/// The first record with a close neighbour has the least height.
proof fn lemma_first_record(c: &ComparisonCache, s: &Segments, q: Query, i: int, k: int)
    requires recorded(q.l), near(c, s, q, i, k), closest(q.l, i, pieces(c, s, q, i), k, q.y), forall|m: int, j: int| 0 <= m < i ==> !#[trigger] near(c, s, q, m, j)
    ensures forall|m: int, j: int| #[trigger] near(c, s, q, m, j) ==> near_at(c, s, q, i, k) <= near_at(c, s, q, m, j)
{
    assert forall|m: int, j: int| #[trigger] near(c, s, q, m, j) implies near_at(c, s, q, i, k) <= near_at(c, s, q, m, j) by {
        if m > i { assert(height(q.l, i + 1) <= height(q.l, m)); assert(height(q.l, i) <= height(q.l, m)); }
        else if m == i { assert(close(q.l, i, pieces(c, s, q, i), j, q.y)); }
    }
}

impl<T> OutputSegVec<T> {
    fn at(&self, i: OutputSegIdx) -> (r: &T) requires i.0 < self.inner@.len() ensures *r == self.inner@[i.0 as int] { &self.inner[i.0] }
}
impl HalfScanLineOrder {
    spec fn list(&self, s: OutputSegIdx) -> Recs { self.inner.inner@[s.0 as int]@ }
    spec fn has(&self, s: OutputSegIdx) -> bool { s.0 < self.inner.inner@.len() && recorded(self.list(s)) }
    //@fn HalfScanLineOrder::neighbor_after
    //@sub \.take_while\(\|\((\w+), (\w+), (\w+)\)\| ([^()]*)\) ==> .take_while(|t: &Item| -> (b: bool) ensures num(t.0) ==> b == (rank(t.0) <= rank(y)) { let (\1, \2, \3) = t; \4 })
    //@sub \.find\(\|\((\w+), (\w+), (\w+)\)\| ([^()]*)\) ==> ; let ghost some = all.v@; let hit = all.find(|t: &Item| -> (b: bool) ensures num(t.1) ==> b == (rank(t.1) > rank(y)) { let (\1, \2, \3) = t; \4 })
    //@sub self\s*\.iter\( ==> let all = self.iter(
    //@sub \.and_then\(\|\((\w+), (\w+), (\w+)\)\| ([^()]*)\) ==> ; proof { lemma_seen(self.list(seg), y, some); lemma_looked(self.list(seg), y, some, hit); } hit.and_then(|t: Item| -> (b: Option<OutputSegIdx>) ensures b == t.2 { let (\1, \2, \3) = t; \4 })
    //@ret r
    requires self.has(seg), fin(y)
    ensures neighbor(self.list(seg), rank(y), r)
    //@end
    //@fn HalfScanLineOrder::iter
    //@sub impl Iterator<Item = \(f64, f64, Option<OutputSegIdx>\)> \+ '_ ==> Items<Item>
    //@sub self\.inner\[(\w+)\]\s*\.iter\(\) ==> items(self.inner.at(\1))
    //@sub \.map\(\|\((\w+), (\w+)\)\| \*?(\w+)\) ==> .map(|t: Rec| -> (h: f64) ensures h == t.0 { let (\1, \2) = t; \3 })
    //@sub \.chain\(std::iter::once\((\w[\w:.]*)\)\) ==> .chain_once(\1)
    //@sub f64::INFINITY ==> infinity()
    //@sub \.map\(\|\(\((\w+), (\w+)\), (\w+)\)\| \(\*?(\w+), \*?(\w+), \*?(\w+)\)\) ==> .map(|t: (Rec, f64)| -> (h: Item) ensures h == (t.0.0, t.1, t.0.1) { let ((\1, \2), \3) = t; (\4, \5, \6) })
    //@ret r
    requires seg.0 < self.inner.inner@.len()
    ensures r.v@ =~= spans(self.list(seg))
    //@end
    //@fn HalfScanLineOrder::close_neighbor_height_after
    //@sub for \((\w+), (\w+), (\w+)\) in self\.iter\(seg\) \{ ==> let records = self.iter(seg); let mut number: usize = 0; while number < records.v.len() invariant fin(y), self.has(seg), q == (Query { l: self.list(seg), of: orig_seg.inner@, me: orig_seg.inner@[seg.0 as int], y: rank(y) }), seg.0 < orig_seg.inner@.len(), forall|j: int| 0 <= j < q.l.len() && (#[trigger] q.l[j]).1 is Some ==> (q.l[j].1->0).0 < orig_seg.inner@.len(), records.v@ == spans(q.l), number <= records.v@.len(), same_answers(old(cmp), cmp), forall|m: int, j: int| 0 <= m < number ==> !#[trigger] near(old(cmp), segs, q, m, j) decreases records.v@.len() - number { let (\1, \2, \3) = records.v[number]; proof { lemma_spans(q.l, number as int, y); } number = number + 1;
    //@sub (\w+)\.max\((\w+)\) ==> fmax(\1, \2)
    //@sub orig_seg\[(\w+)\] ==> *orig_seg.at(\1)
    //@sub let next_ish = order\s*\.iter\(\) ==> let ghost ps = order.pieces(); let mid = order.iter()
    //@sub \.take_while\(\|\((\w+), (\w+), (\w+)\)\| ([^()]*)\) ==> .take_while(|t: &Piece| -> (b: bool) ensures num(t.0) ==> b == (rank(t.0) < rank(y1)) { let (\1, \2, \3) = t; \4 })
    //@sub \.filter\(\|\((\w+), (\w+), (\w+)\)\| ([^()]*)\) ==> ; let ghost some = mid.v@; let p1 = |t: &Piece| -> (b: bool) ensures b == (t.2 == Order::Ish) { let (\1, \2, \3) = t; \4 }; let mid = mid.filter(p1)
    //@sub \.find\(\|\((\w+), (\w+), (\w+)\)\| ([^()]*)\); ==> ; let p2 = |t: &Piece| -> (b: bool) ensures num(t.1) ==> b == (rank(t.1) > rank(start)) { let (\1, \2, \3) = t; \4 }; let next_ish = mid.find(p2); proof { if next_ish is Some { let k = choose|k: int| #[trigger] hit2(some, p1, p2, next_ish->0, k); assert(piece_hit(some, start, next_ish->0, k)); } lemma_looked_pieces(q.l, number - 1, ps, some, y, start, y1, next_ish); assert(ps == pieces(old(cmp), segs, q, number - 1)); if next_ish is Some { let k = choose|k: int| #[trigger] closest(q.l, number - 1, ps, k, rank(y)) && next_ish->0 == ps[k]; assert(near(old(cmp), segs, q, number - 1, k)); lemma_first_record(old(cmp), segs, q, number - 1, k); } }
    //@start
    let ghost q = Query { l: self.list(seg), of: orig_seg.inner@, me: orig_seg.inner@[seg.0 as int], y: rank(y) };
    //@ret r
    //@spec
    requires self.has(seg), fin(y), seg.0 < orig_seg.inner@.len(),
        forall|j: int| 0 <= j < self.list(seg).len() && (#[trigger] self.list(seg)[j]).1 is Some ==> (self.list(seg)[j].1->0).0 < orig_seg.inner@.len()
    ensures next_close(old(cmp), segs, Query { l: self.list(seg), of: orig_seg.inner@, me: orig_seg.inner@[seg.0 as int], y: rank(y) }, r), same_answers(old(cmp), final(cmp))
    //@end
}

impl ScanLineOrder {
    //@fn ScanLineOrder::new
    //@ret r
    ensures r.west_map.inner == west, r.east_map.inner == east
    //@end
    //@fn ScanLineOrder::west_neighbor_after
    //@ret r
    requires self.west_map.has(seg), fin(y)
    ensures neighbor(self.west_map.list(seg), rank(y), r)
    //@end
    //@fn ScanLineOrder::east_neighbor_after
    //@ret r
    requires self.east_map.has(seg), fin(y)
    ensures neighbor(self.east_map.list(seg), rank(y), r)
    //@end
    //@fn ScanLineOrder::close_east_neighbor_height_after
    //@ret r
    requires self.east_map.has(seg), fin(y), seg.0 < orig_seg.inner@.len(),
        forall|j: int| 0 <= j < self.east_map.list(seg).len() && (#[trigger] self.east_map.list(seg)[j]).1 is Some ==> (self.east_map.list(seg)[j].1->0).0 < orig_seg.inner@.len()
    ensures next_close(old(cmp), segs, Query { l: self.east_map.list(seg), of: orig_seg.inner@, me: orig_seg.inner@[seg.0 as int], y: rank(y) }, r), same_answers(old(cmp), final(cmp))
    //@end
    //@fn ScanLineOrder::close_west_neighbor_height_after
    //@ret r
    requires self.west_map.has(seg), fin(y), seg.0 < orig_seg.inner@.len(),
        forall|j: int| 0 <= j < self.west_map.list(seg).len() && (#[trigger] self.west_map.list(seg)[j]).1 is Some ==> (self.west_map.list(seg)[j].1->0).0 < orig_seg.inner@.len()
    ensures next_close(old(cmp), segs, Query { l: self.west_map.list(seg), of: orig_seg.inner@, me: orig_seg.inner@[seg.0 as int], y: rank(y) }, r), same_answers(old(cmp), final(cmp))
    //@end
}

// ---------------------------------------------------------------- building the records
type Change = (f64, Option<OutputSegIdx>, Option<OutputSegIdx>);
/// The fields of the topology that are read here (the others are dropped; `winding` is read for its length only).
struct Topology { winding: OutputSegVec<()>, scan_west: OutputSegVec<Option<OutputSegIdx>>, scan_east: OutputSegVec<Option<OutputSegIdx>>, scan_after: Vec<Change> }
uninterp spec fn start_of(t: &Topology, i: OutputSegIdx) -> f64;
uninterp spec fn flat(t: &Topology, i: OutputSegIdx) -> bool;
type Lists = Seq<Vec<Rec>>;
spec fn holds(l: Recs, h: int, o: Option<OutputSegIdx>) -> bool { exists|j: int| 0 <= j < l.len() && rank((#[trigger] l[j]).0) == h && l[j].1 == o }
/// Segment s has a record of o from height h on.
spec fn has(m: Lists, s: OutputSegIdx, h: int, o: Option<OutputSegIdx>) -> bool { s.0 < m.len() && holds(m[s.0 as int]@, h, o) }
spec fn finite(l: Recs) -> bool { forall|j: int| 0 <= j < l.len() ==> fin((#[trigger] l[j]).0) }
spec fn all_finite(m: Lists) -> bool { forall|s: int| 0 <= s < m.len() ==> finite((#[trigger] m[s])@) }
impl OutputSegVec<()> { fn len(&self) -> (r: usize) ensures r == self.inner@.len() { self.inner.len() } }
impl OutputSegVec<Option<OutputSegIdx>> {
    fn len(&self) -> (r: usize) ensures r == self.inner@.len() { self.inner.len() }
}
impl OutputSegVec<Vec<Rec>> {
    fn with_size(n: usize) -> (r: Self) ensures r.inner@.len() == n, forall|s: int| 0 <= s < n ==> (#[trigger] r.inner@[s])@.len() == 0
    {
        let mut v: Vec<Vec<Rec>> = Vec::new();
        let mut k = 0;
        while k < n invariant k <= n, v@.len() == k, forall|s: int| 0 <= s < k ==> (#[trigger] v@[s])@.len() == 0 decreases n - k { v.push(Vec::new()); k += 1; }
        OutputSegVec { inner: v }
    }
    /// `self[i].push(x)`
    fn add(&mut self, i: OutputSegIdx, x: Rec)
        requires i.0 < old(self).inner@.len(), all_finite(old(self).inner@), fin(x.0)
        ensures final(self).inner@.len() == old(self).inner@.len(), all_finite(final(self).inner@),
            forall|s: OutputSegIdx, h: int, o: Option<OutputSegIdx>| #[trigger] has(final(self).inner@, s, h, o) == (has(old(self).inner@, s, h, o) || (s == i && h == rank(x.0) && o == x.1))
    {
        let ghost m = self.inner@;
        self.inner[i.0].push(x);
        proof {
            let n = self.inner@;
            let l = m[i.0 as int]@;
            assert(n[i.0 as int]@ == l.push(x));
            assert forall|s: int| 0 <= s < n.len() implies finite((#[trigger] n[s])@) by { assert(finite(m[s]@)); }
            assert forall|s: OutputSegIdx, h: int, o: Option<OutputSegIdx>| #[trigger] has(n, s, h, o) == (has(m, s, h, o) || (s == i && h == rank(x.0) && o == x.1)) by {
                if s.0 == i.0 && s.0 < m.len() {
                    if has(m, s, h, o) { let j = choose|j: int| 0 <= j < l.len() && rank((#[trigger] l[j]).0) == h && l[j].1 == o; assert(l.push(x)[j] == l[j]); }
                    if has(n, s, h, o) { let j = choose|j: int| 0 <= j < l.push(x).len() && rank((#[trigger] l.push(x)[j]).0) == h && l.push(x)[j].1 == o; if j < l.len() { assert(l[j] == l.push(x)[j]); } }
                    if h == rank(x.0) && o == x.1 { assert(l.push(x)[l.len() as int] == x); }
                }
            }
        }
    }
}
// slice::sort_by and Vec::dedup of the standard library: the same records, in an order that the comparison accepts;
// no record is lost with its duplicates.
#[verifier::external_body]
fn sort_by<F: Fn(&Rec, &Rec) -> std::cmp::Ordering>(v: &mut Vec<Rec>, f: F)
    requires forall|a: &Rec, b: &Rec| num(a.0) && num(b.0) ==> #[trigger] f.requires((a, b)), finite(old(v)@)
    ensures finite(final(v)@), forall|h: int, o: Option<OutputSegIdx>| #[trigger] holds(final(v)@, h, o) == holds(old(v)@, h, o),
        forall|i: int, j: int| 0 <= i <= j < final(v)@.len() ==> #[trigger] accepted(f, final(v)@[i], final(v)@[j])
{ v.sort_by(f) }
spec fn accepted<F: Fn(&Rec, &Rec) -> std::cmp::Ordering>(f: F, a: Rec, b: Rec) -> bool { exists|o: std::cmp::Ordering| #[trigger] f.ensures((&a, &b), o) && o != std::cmp::Ordering::Greater }
#[verifier::external_body]
fn dedup(v: &mut Vec<Rec>)
    requires finite(old(v)@)
    ensures finite(final(v)@), forall|h: int, o: Option<OutputSegIdx>| #[trigger] holds(final(v)@, h, o) == holds(old(v)@, h, o), recorded(old(v)@) ==> recorded(final(v)@)
{ v.dedup() }
fn compare(a: f64, b: f64) -> (o: std::cmp::Ordering)
    requires num(a), num(b)
    ensures (o == std::cmp::Ordering::Greater) == (rank(a) > rank(b)), (o == std::cmp::Ordering::Less) == (rank(a) < rank(b))
{ if a < b { std::cmp::Ordering::Less } else if a > b { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Equal } }

spec fn starts(t: &Topology, i: OutputSegIdx) -> int { rank(start_of(t, i)) }
spec fn sw(t: &Topology, i: OutputSegIdx) -> Option<OutputSegIdx> { t.scan_west.inner@[i.0 as int] }
spec fn se(t: &Topology, i: OutputSegIdx) -> Option<OutputSegIdx> { t.scan_east.inner@[i.0 as int] }
/// What the first k entries of the scan lists say about the west of s, ...
spec fn west_own(t: &Topology, k: int, s: OutputSegIdx, h: int, o: Option<OutputSegIdx>) -> bool { s.0 < k && !flat(t, s) && o is Some && o == sw(t, s) && h == starts(t, s) }
spec fn west_other(t: &Topology, k: int, s: OutputSegIdx, h: int, o: Option<OutputSegIdx>) -> bool { o is Some && (o->0).0 < k && se(t, o->0) == Some(s) && h == starts(t, o->0) }
spec fn change(t: &Topology, j: int, h: int, w: Option<OutputSegIdx>, e: Option<OutputSegIdx>) -> bool { rank(t.scan_after@[j].0) == h && t.scan_after@[j].1 == w && t.scan_after@[j].2 == e }
spec fn changes(t: &Topology, k: int, h: int, w: Option<OutputSegIdx>, e: Option<OutputSegIdx>) -> bool { exists|j: int| 0 <= j < k && #[trigger] change(t, j, h, w, e) }
/// ... and about the east of s.
spec fn east_own(t: &Topology, k: int, s: OutputSegIdx, h: int, o: Option<OutputSegIdx>) -> bool { s.0 < k && o is Some && o == se(t, s) && h == starts(t, s) }
spec fn east_other(t: &Topology, k: int, s: OutputSegIdx, h: int, o: Option<OutputSegIdx>) -> bool { o is Some && (o->0).0 < k && !flat(t, o->0) && sw(t, o->0) == Some(s) && h == starts(t, o->0) }
spec fn wests(t: &Topology, m: Lists, a: int, b: int, c: int) -> bool {
    forall|s: OutputSegIdx, h: int, o: Option<OutputSegIdx>| #[trigger] has(m, s, h, o) == (west_own(t, a, s, h, o) || west_other(t, b, s, h, o) || changes(t, c, h, o, Some(s)))
}
spec fn easts(t: &Topology, m: Lists, a: int, b: int, c: int) -> bool {
    forall|s: OutputSegIdx, h: int, o: Option<OutputSegIdx>| #[trigger] has(m, s, h, o) == (east_own(t, a, s, h, o) || east_other(t, b, s, h, o) || changes(t, c, h, Some(s), o))
}
proof fn lemma_changes(t: &Topology, k: int)
    requires 0 <= k
    ensures forall|h: int, w: Option<OutputSegIdx>, e: Option<OutputSegIdx>| #[trigger] changes(t, k + 1, h, w, e) == (changes(t, k, h, w, e) || change(t, k, h, w, e)),
        forall|h: int, w: Option<OutputSegIdx>, e: Option<OutputSegIdx>| !#[trigger] changes(t, 0, h, w, e)
{
    assert forall|h: int, w: Option<OutputSegIdx>, e: Option<OutputSegIdx>| #[trigger] changes(t, k + 1, h, w, e) == (changes(t, k, h, w, e) || change(t, k, h, w, e)) by {
        if changes(t, k + 1, h, w, e) { let j = choose|j: int| 0 <= j < k + 1 && #[trigger] change(t, j, h, w, e); if j < k { assert(change(t, j, h, w, e)); } }
        if changes(t, k, h, w, e) { let j = choose|j: int| 0 <= j < k && #[trigger] change(t, j, h, w, e); assert(change(t, j, h, w, e)); }
    }
}
impl Topology {
    spec fn wf(&self) -> bool {
        let n = self.winding.inner@.len();
        &&& self.scan_west.inner@.len() == n && self.scan_east.inner@.len() == n
        &&& forall|i: OutputSegIdx| i.0 < n ==> fin(#[trigger] start_of(self, i))
        &&& forall|i: OutputSegIdx| i.0 < n ==> ((#[trigger] sw(self, i)) is Some ==> (sw(self, i)->0).0 < n)
        &&& forall|i: OutputSegIdx| i.0 < n ==> ((#[trigger] se(self, i)) is Some ==> (se(self, i)->0).0 < n)
        &&& forall|j: int| 0 <= j < self.scan_after@.len() ==> fin((#[trigger] self.scan_after@[j]).0) && (self.scan_after@[j].1 is Some ==> (self.scan_after@[j].1->0).0 < n) && (self.scan_after@[j].2 is Some ==> (self.scan_after@[j].2->0).0 < n)
    }
    #[verifier::external_body]
    fn start_y(&self, i: OutputSegIdx) -> (r: f64) ensures r == start_of(self, i) { unimplemented!() }
    #[verifier::external_body]
    fn is_horizontal(&self, i: OutputSegIdx) -> (r: bool) ensures r == flat(self, i) { unimplemented!() }
    //@fn Topology::build_scan_line_orders
    //@loops 6
    //@sub self\.point\((\w+)\.first_half\(\)\)\.y ==> self.start_y(\1)
    //@sub if let Some\(\((\w+), _\)\) = (\w+)\[(\w+)\]\.last\(\) \{\s*debug_assert!\([^;]*;\s*\} ==> {}
    //@sub ret\.check_invariants\([^;]*; ==> {}
    //@sub (\w+_map)\[(\w+)\]\.push\( ==> \1.add(\2, 
    //@sub self\.(scan_\w+)\[(\w+)\] ==> *self.\1.at(\2)
    //@sub for (\w+) in self\.(\w+)\.indices\(\)\.filter\(\|(\w+)\| ([^\n{]*)\)\s*\n\s*(invariant[^{]*)\{ ==> let mut number: usize = 0; while number < self.\2.len() \5 { let \1 = OutputSegIdx(number); number = number + 1; assert(west_own(self, number - 1, \1, 0, None) == false); if !({ let \3 = &\1; \4 }) { continue; }
    //@sub for (\w+) in self\.(\w+)\.indices\(\)\s*\n\s*(invariant[^{]*)\{ ==> let mut number: usize = 0; while number < self.\2.len() \3 { let \1 = OutputSegIdx(number); number = number + 1; let ghost both = (sw(self, \1), se(self, \1));
    //@sub for &\((\w+), (\w+), (\w+)\) in &self\.scan_after\s*\n\s*(invariant[^{]*)\{ ==> let mut number: usize = 0; while number < self.scan_after.len() \4 { let (\1, \2, \3) = self.scan_after[number]; proof { lemma_changes(self, number as int); } number = number + 1;
    //@sub for vec in &mut (\w+)\.inner\s*\n\s*(invariant[^{]*)\{ ==> let mut number: usize = 0; while number < \1.inner.len() \2 { let ghost before = \1.inner@; let vec = &mut \1.inner[number]; number = number + 1;
    //@sub vec\.sort_by\(\|(\w+), (\w+)\| (\w+)\.0\.partial_cmp\(&(\w+)\.0\)\.unwrap\(\)\) ==> let order = |\1: &Rec, \2: &Rec| -> (o: std::cmp::Ordering) requires num(\1.0), num(\2.0) ensures (o == std::cmp::Ordering::Greater) == (rank(\1.0) > rank(\2.0)) { compare(\3.0, \4.0) }; sort_by(vec, order); proof { let l = vec@; assert forall|i: int, j: int| #![trigger height(l, i), height(l, j)] 0 <= i <= j < l.len() implies height(l, i) <= height(l, j) by { assert(accepted(order, l[i], l[j])); assert(fin(l[i].0) && fin(l[j].0)); } assert(recorded(l)); }
    //@sub vec\.dedup\(\) ==> dedup(vec)
    //@start
    proof { lemma_changes(self, 0); }
    //@loop 0
    invariant self.wf(), number <= self.scan_west.inner@.len(), west_map.inner@.len() == self.winding.inner@.len(), east_map.inner@.len() == self.winding.inner@.len(), all_finite(west_map.inner@), all_finite(east_map.inner@),
        wests(self, west_map.inner@, number as int, 0, 0), easts(self, east_map.inner@, 0, 0, 0)
        decreases self.scan_west.inner@.len() - number
    //@loop 1
    invariant self.wf(), number <= self.scan_west.inner@.len(), west_map.inner@.len() == self.winding.inner@.len(), east_map.inner@.len() == self.winding.inner@.len(), all_finite(west_map.inner@), all_finite(east_map.inner@),
        wests(self, west_map.inner@, self.scan_west.inner@.len() as int, number as int, 0), easts(self, east_map.inner@, number as int, 0, 0)
        decreases self.scan_west.inner@.len() - number
    //@loop 2
    invariant self.wf(), number <= self.scan_west.inner@.len(), west_map.inner@.len() == self.winding.inner@.len(), east_map.inner@.len() == self.winding.inner@.len(), all_finite(west_map.inner@), all_finite(east_map.inner@),
        wests(self, west_map.inner@, self.scan_west.inner@.len() as int, self.scan_west.inner@.len() as int, 0), easts(self, east_map.inner@, self.scan_west.inner@.len() as int, number as int, 0)
        decreases self.scan_west.inner@.len() - number
    //@loop 3
    invariant self.wf(), number <= self.scan_after@.len(), west_map.inner@.len() == self.winding.inner@.len(), east_map.inner@.len() == self.winding.inner@.len(), all_finite(west_map.inner@), all_finite(east_map.inner@),
        wests(self, west_map.inner@, self.scan_west.inner@.len() as int, self.scan_west.inner@.len() as int, number as int), easts(self, east_map.inner@, self.scan_west.inner@.len() as int, self.scan_west.inner@.len() as int, number as int)
        decreases self.scan_after@.len() - number
    //@loop 4
    invariant self.wf(), number <= west_map.inner@.len(), west_map.inner@.len() == self.winding.inner@.len(), east_map.inner@.len() == self.winding.inner@.len(), all_finite(west_map.inner@), all_finite(east_map.inner@),
        wests(self, west_map.inner@, self.scan_west.inner@.len() as int, self.scan_west.inner@.len() as int, self.scan_after@.len() as int), easts(self, east_map.inner@, self.scan_west.inner@.len() as int, self.scan_west.inner@.len() as int, self.scan_after@.len() as int),
        forall|s: int| 0 <= s < number ==> recorded((#[trigger] west_map.inner@[s])@)
        decreases west_map.inner@.len() - number
    //@tail 4
    proof { lemma_tidied(before, west_map.inner@, number - 1); }
    //@loop 5
    invariant self.wf(), number <= east_map.inner@.len(), west_map.inner@.len() == self.winding.inner@.len(), east_map.inner@.len() == self.winding.inner@.len(), all_finite(west_map.inner@), all_finite(east_map.inner@),
        wests(self, west_map.inner@, self.scan_west.inner@.len() as int, self.scan_west.inner@.len() as int, self.scan_after@.len() as int), easts(self, east_map.inner@, self.scan_west.inner@.len() as int, self.scan_west.inner@.len() as int, self.scan_after@.len() as int),
        forall|s: int| 0 <= s < west_map.inner@.len() ==> recorded((#[trigger] west_map.inner@[s])@),
        forall|s: int| 0 <= s < number ==> recorded((#[trigger] east_map.inner@[s])@)
        decreases east_map.inner@.len() - number
    //@tail 5
    proof { lemma_tidied(before, east_map.inner@, number - 1); }
    //@ret r
    //@spec
    requires self.wf()
    ensures built(self, &r)
    //@end
}
spec fn built(t: &Topology, r: &ScanLineOrder) -> bool {
    let (n, c) = (t.winding.inner@.len() as int, t.scan_after@.len() as int);
    &&& wests(t, r.west_map.inner.inner@, n, n, c) && easts(t, r.east_map.inner.inner@, n, n, c)
    &&& r.west_map.inner.inner@.len() == n && r.east_map.inner.inner@.len() == n
    &&& forall|s: OutputSegIdx| s.0 < n ==> #[trigger] r.west_map.has(s) && r.east_map.has(s)
}
proof fn lemma_tidied(m: Lists, n: Lists, k: int)
    requires 0 <= k < m.len(), n.len() == m.len(), forall|s: int| 0 <= s < m.len() && s != k ==> n[s] == m[s],
        forall|h: int, o: Option<OutputSegIdx>| #[trigger] holds(n[k]@, h, o) == holds(m[k]@, h, o)
    ensures forall|s: OutputSegIdx, h: int, o: Option<OutputSegIdx>| #[trigger] has(n, s, h, o) == has(m, s, h, o)
{ }
/// The records of west and east neighbours are mirror images of each other.
proof fn lemma_mirrored(t: &Topology, r: &ScanLineOrder)
    requires built(t, r)
    ensures forall|a: OutputSegIdx, b: OutputSegIdx, h: int| #![trigger has(r.east_map.inner.inner@, a, h, Some(b))] #![trigger has(r.west_map.inner.inner@, b, h, Some(a))]
        has(r.east_map.inner.inner@, a, h, Some(b)) == has(r.west_map.inner.inner@, b, h, Some(a))
{ }
} // verus!
fn main() {}
