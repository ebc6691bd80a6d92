#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_braces, non_snake_case)]
use vstd::prelude::*;
verus! {


// ---------------------------------------------------------------- the code under contract
//@src src/curve/mod.rs
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@item enum Order
//@item struct CurveOrderEntry
//@item struct CurveOrder
//@item enum CurveInteraction
//@item struct CurveOrderIter

mod fl {
use super::*;
//@include f64_order.rs
// Verus does not know that a field of type f64 holds an f64; this says no more than that.
pub(crate) broadcast axiom fn typed_end(e: CurveOrderEntry) ensures #[trigger] e.end == e.end, exists|x: f64| x == e.end && #[trigger] rank(x) == rank(x);
pub(crate) broadcast axiom fn typed_start(e: CurveOrder) ensures #[trigger] e.start == e.start, exists|x: f64| x == e.start && #[trigger] rank(x) == rank(x);
pub(crate) broadcast axiom fn typed_0(e: (f64, f64, Order)) ensures #[trigger] e.0 == e.0, exists|x: f64| x == e.0 && #[trigger] rank(x) == rank(x);
pub(crate) broadcast axiom fn typed_1(e: (f64, f64, Order)) ensures #[trigger] e.1 == e.1, exists|x: f64| x == e.1 && #[trigger] rank(x) == rank(x);
pub(crate) broadcast axiom fn typed_next(e: CurveOrderIter<'_>) ensures #[trigger] e.next == e.next, exists|x: f64| x == e.next && #[trigger] rank(x) == rank(x);
pub(crate) broadcast group doubles { f64_order, typed_next, typed_end, typed_start, typed_0, typed_1 }
}
use fl::*;
broadcast use fl::doubles;

pub assume_specification<T, U, F> [std::option::Option::<T>::map_or] (o: std::option::Option<T>, d: U, f: F) -> (r: U)
    where F: std::ops::FnOnce(T,) -> U + std::marker::Destruct, U: std::marker::Destruct
    requires o is Some ==> f.requires((o->0,))
    ensures o is None ==> r == d, o is Some ==> f.ensures((o->0,), r);

pub assume_specification<T, F> [std::option::Option::<T>::is_none_or] (o: std::option::Option<T>, f: F) -> (r: bool)
    where F: std::ops::FnOnce(T,) -> bool + std::marker::Destruct
    requires o is Some ==> f.requires((o->0,))
    ensures o is None ==> r, o is Some ==> f.ensures((o->0,), r);

// ---------------------------------------------------------------- the abstraction
type Entries = Seq<CurveOrderEntry>;

spec fn till(c: Entries, i: int) -> int { rank(c[i].end) }
/// Where the i'th interval begins.
spec fn begin(s: f64, c: Entries, i: int) -> f64 { if i == 0 { s } else { c[i - 1].end } }
spec fn alt(c: Entries, i: int) -> bool { c[i - 1].order != c[i].order && (c[i - 1].order == Order::Ish || c[i].order == Order::Ish) }
spec fn bound(s: f64, c: Entries, i: int) -> bool { fin(c[i].end) && rank(s) <= till(c, i) }
#[verifier::opaque]
spec fn inv(s: f64, c: Entries) -> bool {
    &&& fin(s)
    &&& forall|i: int| 0 <= i < c.len() ==> #[trigger] bound(s, c, i)
    &&& forall|i: int, j: int| #![trigger till(c, i), till(c, j)] 0 <= i < j < c.len() ==> till(c, i) <= till(c, j)
    &&& forall|i: int| 0 < i < c.len() ==> #[trigger] alt(c, i)
}
proof fn lemma_inv(s: f64, c: Entries, i: int, j: int)
    requires inv(s, c), 0 <= i <= j < c.len()
    ensures fin(s), fin(c[i].end), num(c[i].end), fin(c[j].end), num(c[j].end), rank(s) <= till(c, i) <= till(c, j), i < j ==> alt(c, j)
{ reveal(inv); assert(bound(s, c, i)); assert(bound(s, c, j)); ax_fin(c[i].end); ax_fin(c[j].end); }
/// The i'th interval is the first one that reaches y.
spec fn first(c: Entries, y: int, i: int) -> bool {
    0 <= i < c.len() && till(c, i) >= y && forall|j: int| 0 <= j < i ==> #[trigger] till(c, j) < y
}
/// The verdict at height y.
spec fn verdict(c: Entries, y: int, o: Order) -> bool { exists|i: int| #[trigger] first(c, y, i) && c[i].order == o }
spec fn flipped(o: Order) -> Order { match o { Order::Left => Order::Right, Order::Right => Order::Left, Order::Ish => Order::Ish } }
type Item = (f64, f64, Order);
/// The intervals with both ends.
spec fn items(s: f64, c: Entries) -> Seq<Item> { Seq::new(c.len(), |i: int| (begin(s, c, i), c[i].end, c[i].order)) }

impl CurveOrder {
    spec fn wf(&self) -> bool { inv(self.start, self.cmps@) }
    spec fn last_end(&self) -> int { till(self.cmps@, self.cmps@.len() - 1) }
}

proof fn lemma_first_unique(c: Entries, y: int, i: int, j: int)
    requires first(c, y, i), first(c, y, j) ensures i == j
{ if i < j { assert(till(c, i) < y); } else if j < i { assert(till(c, j) < y); } }
proof fn lemma_first_push(c: Entries, x: CurveOrderEntry, y: int, i: int)
    requires first(c, y, i) ensures first(c.push(x), y, i)
{ assert forall|j: int| 0 <= j < i implies #[trigger] till(c.push(x), j) < y by { assert(till(c, j) < y); } }
proof fn lemma_first_last(c: Entries, x: CurveOrderEntry, y: int)
    requires rank(x.end) >= y, forall|j: int| 0 <= j < c.len() ==> till(c, j) < y
    ensures first(c.push(x), y, c.len() as int)
{ assert forall|j: int| 0 <= j < c.len() implies #[trigger] till(c.push(x), j) < y by { assert(till(c, j) < y); } }

/// What push does to the entries.
spec fn pushed(c: Entries, x: CurveOrderEntry, d: Entries) -> bool {
    let n = c.len() as int;
    if n == 0 { d =~= c.push(x) }
    else {
        let last = c[n - 1];
        if last.order == x.order { d =~= c.update(n - 1, x) }
        else if last.order != Order::Ish && x.order != Order::Ish { d =~= c.push(CurveOrderEntry { end: last.end, order: Order::Ish }).push(x) }
        else if rank(x.end) > rank(last.end) { d =~= c.push(x) }
        else { d =~= c }
    }
}
proof fn lemma_pushed_inv(s: f64, c: Entries, x: CurveOrderEntry, d: Entries)
    requires inv(s, c), fin(x.end), rank(x.end) >= rank(s), c.len() > 0 ==> rank(x.end) >= till(c, c.len() - 1), pushed(c, x, d)
    ensures inv(s, d), d.len() > 0, till(d, d.len() - 1) == rank(x.end)
{
    let n = c.len() as int;
    reveal(inv);
    if n > 0 {
        assert(bound(s, c, n - 1));
        assert forall|i: int| 0 <= i < d.len() implies #[trigger] bound(s, d, i) by { if i < n { assert(bound(s, c, i)); } }
        assert forall|i: int| 0 < i < d.len() implies #[trigger] alt(d, i) by { if i < n { assert(alt(c, i)); } }
        assert forall|i: int, j: int| #![trigger till(d, i), till(d, j)] 0 <= i < j < d.len() implies till(d, i) <= till(d, j) by {
            if i < n - 1 { assert(till(c, i) <= till(c, n - 1)); }
            if j < n { assert(till(c, i) <= till(c, j)); }
        }
    } else { assert(bound(s, d, 0)); }
}
proof fn lemma_pushed_old(c: Entries, x: CurveOrderEntry, d: Entries, y: int, o: Order)
    requires pushed(c, x, d), c.len() > 0, rank(x.end) >= till(c, c.len() - 1), y <= till(c, c.len() - 1), verdict(c, y, o)
    ensures verdict(d, y, o)
{
    let n = c.len() as int;
    let i = choose|i: int| #[trigger] first(c, y, i) && c[i].order == o;
    assert forall|j: int| 0 <= j < i implies #[trigger] till(d, j) < y by { assert(till(c, j) < y); assert(d[j] == c[j]); }
    assert(till(d, i) >= y);
    assert(first(d, y, i));
    assert(d[i].order == o);
}
proof fn lemma_pushed_new(s: f64, c: Entries, x: CurveOrderEntry, d: Entries, y: int)
    requires inv(s, c), pushed(c, x, d), c.len() == 0 || till(c, c.len() - 1) < y, y <= rank(x.end)
    ensures verdict(d, y, x.order)
{
    let n = c.len() as int;
    let i = d.len() - 1;
    assert forall|j: int| 0 <= j < i implies #[trigger] till(d, j) < y by { if j < n { lemma_inv(s, c, j, n - 1); assert(d[j] == c[j] || j == n - 1); } }
    assert(first(d, y, i));
}

impl Order {
    //@fn Order::flip
    //@ret r
    ensures r == flipped(self)
    //@end
}
impl CurveOrderEntry {
    //@fn CurveOrderEntry::flip
    //@ret r
    ensures r.end == self.end, r.order == flipped(self.order)
    //@end
}
impl CurveOrder {
    //@fn CurveOrder::new
    //@ret r
    ensures r.start == start, r.cmps@ == Seq::<CurveOrderEntry>::empty()
    //@end
    //@fn CurveOrder::push
    //@sub debug_assert!\(end >= last.end\); ==> assert(rank(end) >= rank(last.end));
    //@start
    let ghost c = self.cmps@;
    let ghost n = c.len() as int;
    proof { if n > 0 { lemma_inv(self.start, c, n - 1, n - 1); } }
    //@finish
    proof {
        let d = self.cmps@;
        let x = CurveOrderEntry { end, order };
        assert(pushed(c, x, d));
        lemma_pushed_inv(self.start, c, x, d);
        assert forall|y: int, o: Order| n > 0 && y <= till(c, n - 1) && verdict(c, y, o) implies #[trigger] verdict(d, y, o) by { lemma_pushed_old(c, x, d, y, o); }
        assert forall|y: int| (n == 0 || till(c, n - 1) < y) && y <= rank(end) implies #[trigger] verdict(d, y, order) by { lemma_pushed_new(self.start, c, x, d, y); }
    }
    //@spec
    requires old(self).wf(), fin(end), rank(end) >= rank(old(self).start), old(self).cmps@.len() > 0 ==> rank(end) >= old(self).last_end(),
        old(self).cmps@.len() < usize::MAX - 2
    ensures final(self).wf(), final(self).start == old(self).start, final(self).cmps@.len() > 0, final(self).last_end() == rank(end),
        forall|y: int, o: Order| #![trigger verdict(final(self).cmps@, y, o)] old(self).cmps@.len() > 0 && y <= old(self).last_end() && verdict(old(self).cmps@, y, o) ==> verdict(final(self).cmps@, y, o),
        forall|y: int| #![trigger verdict(final(self).cmps@, y, order)] (old(self).cmps@.len() == 0 || old(self).last_end() < y) && y <= rank(end) ==> verdict(final(self).cmps@, y, order),
    //@end

    //@fn CurveOrder::iter
    //@ret r
    ensures r.items() =~= items(self.start, self.cmps@)
    //@end
}

// ---------------------------------------------------------------- walking along the intervals
/// The entries behind references.
spec fn entries(r: Seq<&CurveOrderEntry>) -> Entries { Seq::new(r.len(), |i: int| *r[i]) }
impl<'a> CurveOrderIter<'a> {
    #[verifier::prophetic]
    spec fn rest(&self) -> Seq<&'a CurveOrderEntry> { vstd::std_specs::iter::IteratorSpec::remaining(&self.iter) }
    #[verifier::prophetic]
    spec fn items(&self) -> Seq<Item> { items(self.next, entries(self.rest())) }
    //@fn CurveOrderIter::next trait=Iterator
    //@sub Self::Item ==> Item
    //@ret r
    ensures
        r is None <==> old(self).rest().len() == 0,
        r is None ==> final(self).rest() == old(self).rest() && final(self).next == old(self).next,
        r is Some ==> (r->0) == (old(self).next, old(self).rest()[0].end, old(self).rest()[0].order),
        r is Some ==> final(self).rest() == old(self).rest().drop_first(),
        r is Some ==> final(self).next == old(self).rest()[0].end,
    //@end
    /// One step, in terms of the items that are left.
    fn step(&mut self) -> (r: Option<Item>)
        ensures
            r is None <==> old(self).items().len() == 0,
            r is Some ==> (r->0) == old(self).items()[0] && final(self).items() =~= old(self).items().skip(1),
            r is None ==> final(self).items() == old(self).items(),
    {
        self.next()
    }
    // Iterator::find and Iterator::skip_while of the standard library, as their documentation describes them, for
    // predicates without side effects.  Their loops are verified; that the library does the same is trusted.
    #[verifier::exec_allows_no_decreases_clause]
    fn find<P: Fn(&Item) -> bool>(&mut self, p: P) -> (r: Option<Item>)
        requires forall|x: &Item| p.requires((x,))
        ensures found(old(self).items(), p, r)
    {
        let ghost all = self.items();
        let ghost mut k: int = 0;
        loop
            invariant
                forall|x: &Item| p.requires((x,)),
                0 <= k <= all.len(), self.items() =~= all.skip(k), all == old(self).items(),
                forall|j: int| 0 <= j < k ==> p.ensures((&#[trigger] all[j],), false),
        {
            match self.step() {
                None => { return None; }
                Some(x) => {
                    assert(x == all[k]);
                    if p(&x) { assert(hit(all, p, x, k)); return Some(x); }
                    proof { k = k + 1; }
                }
            }
        }
    }
    #[verifier::exec_allows_no_decreases_clause]
    fn skip_while<P: Fn(&Item) -> bool>(self, p: P) -> (r: Skipped<'a>)
        requires forall|x: &Item| p.requires((x,))
        ensures skipped(self.items(), p, r.items())
    {
        let mut me = self;
        let ghost all = me.items();
        let ghost mut k: int = 0;
        loop
            invariant
                forall|x: &Item| p.requires((x,)),
                0 <= k <= all.len(), me.items() =~= all.skip(k), all == self.items(),
                forall|j: int| 0 <= j < k ==> p.ensures((&#[trigger] all[j],), true),
        {
            match me.step() {
                None => { let r = Skipped { head: None, tail: me }; assert(r.items() =~= all.skip(k)); assert(passed(all, p, r.items(), k)); return r; }
                Some(x) => {
                    assert(x == all[k]);
                    if !p(&x) { let r = Skipped { head: Some(x), tail: me }; assert(r.items() =~= all.skip(k)); assert(passed(all, p, r.items(), k)); return r; }
                    proof { k = k + 1; }
                }
            }
        }
    }
}
/// The result of looking for the first item with p.
spec fn found<P: Fn(&Item) -> bool>(all: Seq<Item>, p: P, r: Option<Item>) -> bool {
    match r {
        None => forall|j: int| 0 <= j < all.len() ==> p.ensures((&#[trigger] all[j],), false),
        Some(x) => exists|k: int| #[trigger] hit(all, p, x, k),
    }
}
spec fn hit<P: Fn(&Item) -> bool>(all: Seq<Item>, p: P, x: Item, k: int) -> bool {
    0 <= k < all.len() && all[k] == x && p.ensures((&x,), true) && (forall|j: int| 0 <= j < k ==> p.ensures((&#[trigger] all[j],), false))
}
/// What is left after skipping items with p.
spec fn skipped<P: Fn(&Item) -> bool>(all: Seq<Item>, p: P, r: Seq<Item>) -> bool {
    exists|k: int| #[trigger] passed(all, p, r, k)
}
spec fn passed<P: Fn(&Item) -> bool>(all: Seq<Item>, p: P, r: Seq<Item>, k: int) -> bool {
    0 <= k <= all.len() && r == all.skip(k) && (forall|j: int| 0 <= j < k ==> p.ensures((&#[trigger] all[j],), true))
        && (k < all.len() ==> p.ensures((&all[k],), false))
}
/// What skip_while returns.
struct Skipped<'a> { head: Option<Item>, tail: CurveOrderIter<'a> }
impl<'a> Skipped<'a> {
    #[verifier::prophetic]
    spec fn items(&self) -> Seq<Item> { match self.head { Some(x) => seq![x] + self.tail.items(), None => self.tail.items() } }
    fn next(&mut self) -> (r: Option<Item>)
        ensures
            r is None <==> old(self).items().len() == 0,
            r is Some ==> (r->0) == old(self).items()[0] && final(self).items() =~= old(self).items().skip(1),
            r is None ==> final(self).items() == old(self).items(),
            final(self).head is None,
    {
        match self.head {
            Some(x) => { self.head = None; Some(x) }
            None => self.tail.step(),
        }
    }
    #[verifier::exec_allows_no_decreases_clause]
    fn find<P: Fn(&Item) -> bool>(&mut self, p: P) -> (r: Option<Item>)
        requires forall|x: &Item| p.requires((x,))
        ensures found(old(self).items(), p, r)
    {
        let ghost all = self.items();
        let ghost mut k: int = 0;
        loop
            invariant
                forall|x: &Item| p.requires((x,)),
                0 <= k <= all.len(), self.items() =~= all.skip(k), all == old(self).items(),
                forall|j: int| 0 <= j < k ==> p.ensures((&#[trigger] all[j],), false),
        {
            match self.next() {
                None => { return None; }
                Some(x) => {
                    assert(x == all[k]);
                    if p(&x) { assert(hit(all, p, x, k)); return Some(x); }
                    proof { k = k + 1; }
                }
            }
        }
    }
    #[verifier::exec_allows_no_decreases_clause]
    fn skip_while<P: Fn(&Item) -> bool>(self, p: P) -> (r: Skipped<'a>)
        requires forall|x: &Item| p.requires((x,))
        ensures skipped(self.items(), p, r.items())
    {
        let mut me = self;
        let ghost all = me.items();
        let ghost mut k: int = 0;
        loop
            invariant
                forall|x: &Item| p.requires((x,)),
                0 <= k <= all.len(), me.items() =~= all.skip(k), all == self.items(),
                forall|j: int| 0 <= j < k ==> p.ensures((&#[trigger] all[j],), true),
        {
            match me.next() {
                None => { assert(me.items() =~= all.skip(k)); assert(passed(all, p, me.items(), k)); return me; }
                Some(x) => {
                    assert(x == all[k]);
                    if !p(&x) { let r = Skipped { head: Some(x), tail: me.tail }; assert(r.items() =~= all.skip(k)); assert(passed(all, p, r.items(), k)); return r; }
                    proof { k = k + 1; }
                }
            }
        }
    }
}
/// The i'th interval is the first one that reaches beyond y.
spec fn after(c: Entries, y: int, i: int) -> bool {
    0 <= i < c.len() && till(c, i) > y && forall|j: int| 0 <= j < i ==> #[trigger] till(c, j) <= y
}
/// The i'th interval is the first definite one that reaches beyond y.
spec fn definite(c: Entries, y: int, i: int) -> bool {
    0 <= i < c.len() && till(c, i) > y && c[i].order != Order::Ish && forall|j: int| 0 <= j < i ==> #[trigger] till(c, j) <= y || c[j].order == Order::Ish
}
spec fn next_definite(c: Entries, y: int, r: Order) -> bool {
    if r == Order::Ish { forall|j: int| 0 <= j < c.len() ==> #[trigger] till(c, j) <= y || c[j].order == Order::Ish }
    else { exists|i: int| #[trigger] definite(c, y, i) && c[i].order == r }
}
/// Skipping the intervals up to y, then looking for a definite one.
spec fn skips(all: Seq<Item>, y: int, k: int) -> bool {
    0 <= k <= all.len() && (forall|j: int| 0 <= j < k ==> rank((#[trigger] all[j]).1) <= y) && (k < all.len() ==> rank(all[k].1) > y)
}
spec fn lands(rest: Seq<Item>, r: Order) -> bool {
    if r == Order::Ish { forall|j: int| 0 <= j < rest.len() ==> (#[trigger] rest[j]).2 == Order::Ish } else { exists|m: int| #[trigger] lands_at(rest, m, r) }
}
spec fn lands_at(rest: Seq<Item>, m: int, r: Order) -> bool {
    0 <= m < rest.len() && rest[m].2 == r && forall|j: int| 0 <= j < m ==> (#[trigger] rest[j]).2 == Order::Ish
}
spec fn sits(rest: Seq<Item>, x: Item) -> bool {
    exists|m: int| 0 <= m < rest.len() && #[trigger] rest[m] == x && forall|j: int| 0 <= j < m ==> (#[trigger] rest[j]).2 == Order::Ish
}
proof fn lemma_sits(rest: Seq<Item>, x: Item)
    requires sits(rest, x)
    ensures exists|m: int| #[trigger] lands_at(rest, m, x.2)
{
    let m = choose|m: int| 0 <= m < rest.len() && #[trigger] rest[m] == x && forall|j: int| 0 <= j < m ==> (#[trigger] rest[j]).2 == Order::Ish;
    assert(lands_at(rest, m, x.2));
}
proof fn lemma_after(s: f64, c: Entries, y: int, r: Order, k: int)
    requires inv(s, c), skips(items(s, c), y, k), lands(items(s, c).skip(k), r)
    ensures next_definite(c, y, r)
{
    let all = items(s, c);
    let rest = all.skip(k);
    assert forall|i: int| 0 <= i < c.len() implies (#[trigger] all[i]).1 == c[i].end && all[i].2 == c[i].order by {}
    assert forall|j: int| 0 <= j < k implies #[trigger] till(c, j) <= y by { assert(rank(all[j].1) <= y); }
    if r == Order::Ish {
        assert forall|j: int| 0 <= j < c.len() implies #[trigger] till(c, j) <= y || c[j].order == Order::Ish by { assert(all[j].1 == c[j].end); if j >= k { assert(rest[j - k].2 == Order::Ish); } }
    } else {
        let m = choose|m: int| #[trigger] lands_at(rest, m, r);
        let i = k + m;
        assert(rest[m] == all[i]);
        lemma_inv(s, c, k, i);
        assert forall|j: int| 0 <= j < i implies #[trigger] till(c, j) <= y || c[j].order == Order::Ish by { assert(all[j].1 == c[j].end); if j >= k { assert(rest[j - k].2 == Order::Ish); } }
        assert(definite(c, y, i));
    }
}
proof fn lemma_search(s: f64, c: Entries, y: int, rest: Seq<Item>, r: Order)
    requires inv(s, c), exists|k: int| rest == #[trigger] items(s, c).skip(k) && skips(items(s, c), y, k), lands(rest, r)
    ensures next_definite(c, y, r)
{ let k = choose|k: int| rest == #[trigger] items(s, c).skip(k) && skips(items(s, c), y, k); lemma_after(s, c, y, r, k); }

/// The definite intervals have a height (the intervals that with_y_slop makes are such).
spec fn strict(s: f64, c: Entries) -> bool { forall|i: int| 0 <= i < c.len() ==> #[trigger] tall(s, c, i) }
spec fn tall(s: f64, c: Entries, i: int) -> bool { c[i].order != Order::Ish ==> rank(begin(s, c, i)) < till(c, i) }
spec fn right_beyond(c: Entries, y: int, j: int) -> bool { c[j].order == Order::Right && till(c, j) > y }
spec fn touch_beyond(s: f64, c: Entries, y: int, j: int) -> bool { c[j].order == Order::Ish && rank(begin(s, c, j)) > y }
spec fn middle(s: f64, c: Entries, k: int) -> f64 { fhalf(fadd(begin(s, c, k), c[k].end)) }
/// Interval k is the first one beyond y in which the order is wrong, nothing touches before the interval just before it, and h is where to cross.
spec fn crosses(s: f64, c: Entries, y: int, k: int, h: f64) -> bool {
    &&& 0 <= k < c.len() && right_beyond(c, y, k)
    &&& forall|j: int| 0 <= j < k ==> !#[trigger] right_beyond(c, y, j)
    &&& forall|j: int| 0 <= j < k - 1 ==> !#[trigger] touch_beyond(s, c, y, j)
    &&& if k > 0 && till(c, k - 1) > y { c[k - 1].order == Order::Ish && h == middle(s, c, k - 1) } else { rank(h) == y }
}
/// Interval k is the first close one that begins beyond y, the order is not wrong before and right after it, and h is its middle.
spec fn touches(s: f64, c: Entries, y: int, k: int, h: f64) -> bool {
    &&& 0 <= k < c.len() - 1 && touch_beyond(s, c, y, k) && c[k + 1].order == Order::Left
    &&& forall|j: int| 0 <= j <= k + 1 ==> !#[trigger] right_beyond(c, y, j)
    &&& forall|j: int| 0 <= j < k ==> !#[trigger] touch_beyond(s, c, y, j)
    &&& h == middle(s, c, k)
}
spec fn interaction(s: f64, c: Entries, y: int, r: Option<CurveInteraction>) -> bool {
    match r {
        None => (forall|j: int| 0 <= j < c.len() ==> !#[trigger] right_beyond(c, y, j)) && (forall|j: int| 0 <= j < c.len() - 1 ==> !#[trigger] touch_beyond(s, c, y, j)),
        Some(CurveInteraction::Cross(h)) => some_cross(s, c, y, h),
        Some(CurveInteraction::Touch(h)) => some_touch(s, c, y, h),
    }
}
spec fn some_cross(s: f64, c: Entries, y: int, h: f64) -> bool { exists|k: int| #[trigger] crosses(s, c, y, k, h) }
spec fn some_touch(s: f64, c: Entries, y: int, h: f64) -> bool { exists|k: int| #[trigger] touches(s, c, y, k, h) }
/// How many intervals reach beyond y.
spec fn beyond(c: Entries, y: int) -> nat decreases c.len() {
    if c.len() == 0 { 0 } else { beyond(c.drop_last(), y) + if rank(c.last().end) > y { 1nat } else { 0nat } }
}
proof fn lemma_beyond_less(c: Entries, y: int, z: int, m: int)
    requires y <= z
    ensures beyond(c, z) <= beyond(c, y), 0 <= m < c.len() && y < till(c, m) <= z ==> beyond(c, z) < beyond(c, y)
    decreases c.len()
{ if c.len() > 0 { lemma_beyond_less(c.drop_last(), y, z, m); } }
/// m is where the search for the next interaction begins: the first interval beyond y that is not Left.
spec fn start_at(c: Entries, y: int, m: int) -> bool {
    &&& 0 <= m <= c.len()
    &&& forall|j: int| 0 <= j < m ==> #[trigger] till(c, j) <= y || c[j].order == Order::Left
    &&& m < c.len() ==> till(c, m) > y && c[m].order != Order::Left
}
proof fn lemma_place(s: f64, c: Entries, y: int, one: Seq<Item>, two: Seq<Item>)
    requires inv(s, c), exists|k: int| one == #[trigger] items(s, c).skip(k) && skips(items(s, c), y, k), exists|k: int| two == #[trigger] one.skip(k) && lefts(one, k)
    ensures exists|m: int| #[trigger] start_at(c, y, m) && two == items(s, c).skip(m)
{
    let all = items(s, c);
    let k = choose|k: int| one == #[trigger] items(s, c).skip(k) && skips(items(s, c), y, k);
    let l = choose|l: int| two == #[trigger] one.skip(l) && lefts(one, l);
    let m = k + l;
    assert forall|j: int| 0 <= j < m implies #[trigger] till(c, j) <= y || c[j].order == Order::Left by {
        if j < k { assert(rank(all[j].1) <= y); } else { assert(one[j - k].2 == Order::Left); }
    }
    if m < c.len() { assert(one[l] == all[m]); assert(rank(all[k].1) > y); lemma_inv(s, c, k, m); }
    assert(two =~= all.skip(m));
    assert(start_at(c, y, m));
}
spec fn lefts(one: Seq<Item>, k: int) -> bool {
    0 <= k <= one.len() && (forall|j: int| 0 <= j < k ==> (#[trigger] one[j]).2 == Order::Left) && (k < one.len() ==> one[k].2 != Order::Left)
}
/// Nothing happens before m.
proof fn lemma_before(s: f64, c: Entries, y: int, m: int)
    requires inv(s, c), start_at(c, y, m)
    ensures forall|j: int| 0 <= j < m ==> !#[trigger] right_beyond(c, y, j), forall|j: int| 0 <= j < m ==> !#[trigger] touch_beyond(s, c, y, j)
{
    assert forall|j: int| 0 <= j < m implies !#[trigger] right_beyond(c, y, j) by { assert(till(c, j) <= y || c[j].order == Order::Left); }
    assert forall|j: int| 0 <= j < m implies !#[trigger] touch_beyond(s, c, y, j) by {
        assert(till(c, j) <= y || c[j].order == Order::Left);
        lemma_inv(s, c, j, j); if j > 0 { lemma_inv(s, c, j - 1, j); }
    }
}
proof fn lemma_none(s: f64, c: Entries, y: int, m: int)
    requires inv(s, c), start_at(c, y, m), m >= c.len() - 1, m < c.len() ==> c[m].order == Order::Ish
    ensures interaction(s, c, y, None)
{ lemma_before(s, c, y, m); }
proof fn lemma_inside(s: f64, c: Entries, y: int, m: int)
    requires inv(s, c), start_at(c, y, m), m < c.len(), c[m].order == Order::Right
    ensures forall|h: f64| rank(h) == y ==> #[trigger] crosses(s, c, y, m, h)
{ lemma_before(s, c, y, m); if m > 0 { lemma_inv(s, c, m - 1, m); assert(till(c, m - 1) <= y || c[m - 1].order == Order::Left); } }
proof fn lemma_next(s: f64, c: Entries, y: int, m: int)
    requires inv(s, c), start_at(c, y, m), m + 1 < c.len(), c[m].order == Order::Ish
    ensures c[m + 1].order != Order::Ish, c[m + 1].order == Order::Right ==> crosses(s, c, y, m + 1, middle(s, c, m)),
        c[m + 1].order == Order::Left && rank(begin(s, c, m)) > y ==> touches(s, c, y, m, middle(s, c, m))
{ lemma_before(s, c, y, m); lemma_inv(s, c, m, m + 1); }
proof fn lemma_beyond(s: f64, c: Entries, y: int, m: int)
    requires start_at(c, y, m), m < c.len()
    ensures beyond(c, till(c, m)) < beyond(c, y)
{ lemma_beyond_less(c, y, till(c, m), m); }
/// What happens first beyond the end of the close interval m, in which y lies and after which the order is right, happens first beyond y.
proof fn lemma_later(s: f64, c: Entries, y: int, m: int, r: Option<CurveInteraction>)
    requires inv(s, c), strict(s, c), start_at(c, y, m), m + 1 < c.len(), c[m].order == Order::Ish, c[m + 1].order == Order::Left, rank(begin(s, c, m)) <= y,
        interaction(s, c, till(c, m), r)
    ensures interaction(s, c, y, r)
{
    let z = till(c, m);
    lemma_rest(s, c, y, m);
    match r {
        None => {}
        Some(CurveInteraction::Cross(h)) => {
            let k = choose|k: int| #[trigger] crosses(s, c, z, k, h);
            lemma_later_cross(s, c, y, m, k, h);
        }
        Some(CurveInteraction::Touch(h)) => {
            let k = choose|k: int| #[trigger] touches(s, c, z, k, h);
            lemma_later_touch(s, c, y, m, k, h);
        }
    }
}
proof fn lemma_rest(s: f64, c: Entries, y: int, m: int)
    requires inv(s, c), strict(s, c), start_at(c, y, m), m + 1 < c.len(), c[m].order == Order::Ish, c[m + 1].order == Order::Left, rank(begin(s, c, m)) <= y
    ensures forall|j: int| 0 <= j < c.len() && #[trigger] right_beyond(c, y, j) ==> right_beyond(c, till(c, m), j),
        forall|j: int| 0 <= j < c.len() && #[trigger] touch_beyond(s, c, y, j) ==> touch_beyond(s, c, till(c, m), j)
{
    let z = till(c, m);
    lemma_before(s, c, y, m);
    lemma_inv(s, c, m, m + 1);
    assert(c[m + 1].order != Order::Ish);
    assert(tall(s, c, m + 1));
    assert(begin(s, c, m + 1) == c[m].end);
    assert(till(c, m + 1) > z);
    assert forall|j: int| 0 <= j < c.len() && #[trigger] right_beyond(c, y, j) implies right_beyond(c, z, j) by { if j > m + 1 { lemma_inv(s, c, m + 1, j); } }
    assert forall|j: int| 0 <= j < c.len() && #[trigger] touch_beyond(s, c, y, j) implies touch_beyond(s, c, z, j) by { if j > m + 1 { lemma_inv(s, c, m + 1, j - 1); } }
}
proof fn lemma_later_cross(s: f64, c: Entries, y: int, m: int, k: int, h: f64)
    requires inv(s, c), strict(s, c), start_at(c, y, m), m + 1 < c.len(), c[m].order == Order::Ish, c[m + 1].order == Order::Left, rank(begin(s, c, m)) <= y,
        crosses(s, c, till(c, m), k, h)
    ensures crosses(s, c, y, k, h)
{
    let z = till(c, m);
    lemma_rest(s, c, y, m);
    assert(right_beyond(c, z, k));
    if k <= m { lemma_inv(s, c, k, m); }
    assert(k > m + 1);
    lemma_inv(s, c, m, m + 1);
    lemma_inv(s, c, m + 1, k - 1);
    assert(begin(s, c, m + 1) == c[m].end);
    assert(c[m + 1].order != Order::Ish);
    assert(tall(s, c, m + 1));
    assert(till(c, m + 1) > z);
    assert(till(c, k - 1) > z);
    lemma_inv(s, c, m, k);
    assert(right_beyond(c, y, k));
    assert forall|j: int| 0 <= j < k implies !#[trigger] right_beyond(c, y, j) by { assert(!right_beyond(c, z, j)); }
    assert forall|j: int| 0 <= j < k - 1 implies !#[trigger] touch_beyond(s, c, y, j) by { assert(!touch_beyond(s, c, z, j)); }
}
proof fn lemma_later_touch(s: f64, c: Entries, y: int, m: int, k: int, h: f64)
    requires inv(s, c), strict(s, c), start_at(c, y, m), m + 1 < c.len(), c[m].order == Order::Ish, c[m + 1].order == Order::Left, rank(begin(s, c, m)) <= y,
        touches(s, c, till(c, m), k, h)
    ensures touches(s, c, y, k, h)
{
    let z = till(c, m);
    lemma_rest(s, c, y, m);
    assert(touch_beyond(s, c, z, k));
    assert(touch_beyond(s, c, y, k));
    assert forall|j: int| 0 <= j <= k + 1 implies !#[trigger] right_beyond(c, y, j) by { assert(!right_beyond(c, z, j)); }
    assert forall|j: int| 0 <= j < k implies !#[trigger] touch_beyond(s, c, y, j) by { assert(!touch_beyond(s, c, z, j)); }
}

// ---------------------------------------------------------------- widening the close intervals
/// Where the k'th interval begins and ends when the close ones are widened by slop.
spec fn lo(s: f64, c: Entries, slop: f64, k: int) -> f64 { if rank(begin(s, c, k)) == rank(s) { begin(s, c, k) } else { fadd(begin(s, c, k), slop) } }
spec fn hi(c: Entries, slop: f64, k: int) -> f64 { if till(c, k) == rank(c.last().end) { c[k].end } else { fsub(c[k].end, slop) } }
spec fn good(s: f64, c: Entries, slop: f64, k: int) -> bool { c[k].order != Order::Ish && rank(lo(s, c, slop, k)) < rank(hi(c, slop, k)) }
spec fn within(s: f64, c: Entries, slop: f64, k: int, y: int) -> bool {
    good(s, c, slop, k) && (rank(lo(s, c, slop, k)) < y <= rank(hi(c, slop, k)) || y == rank(lo(s, c, slop, k)) == rank(s))
}
/// r is the widened form of the first k intervals of c.
spec fn wide_in(s: f64, c: Entries, slop: f64, k: int, r: Entries) -> bool { forall|j: int, y: int| 0 <= j < k && #[trigger] within(s, c, slop, j, y) ==> verdict(r, y, c[j].order) }
spec fn wide_out(s: f64, c: Entries, slop: f64, k: int, r: Entries, top: int) -> bool {
    forall|y: int| #![trigger verdict(r, y, Order::Ish)] rank(s) <= y <= top && outside(s, c, slop, k, y) ==> verdict(r, y, Order::Ish)
}
spec fn outside(s: f64, c: Entries, slop: f64, k: int, y: int) -> bool { forall|j: int| 0 <= j < k ==> !#[trigger] within(s, c, slop, j, y) }
spec fn wide(s: f64, c: Entries, slop: f64, k: int, r: Entries) -> bool {
    &&& 0 <= k <= c.len() && inv(s, r) && strict(s, r) && r.len() <= 2 * k
    &&& wide_in(s, c, slop, k, r)
    &&& if r.len() == 0 { forall|j: int| 0 <= j < k ==> !#[trigger] good(s, c, slop, j) } else {
            let t = till(r, r.len() - 1);
            &&& r.last().order != Order::Ish && k > 0 && rank(s) < t <= till(c, k - 1)
            &&& forall|j: int| 0 <= j < k && #[trigger] good(s, c, slop, j) ==> rank(hi(c, slop, j)) <= t
            &&& wide_out(s, c, slop, k, r, t)
        }
}
spec fn widened(s: f64, c: Entries, slop: f64, r: Entries) -> bool {
    &&& r.len() > 0 && inv(s, r) && strict(s, r) && till(r, r.len() - 1) == till(c, c.len() - 1)
    &&& wide_in(s, c, slop, c.len() as int, r)
    &&& wide_out(s, c, slop, c.len() as int, r, till(c, c.len() - 1))
}
proof fn lemma_ends(s: f64, c: Entries, slop: f64, k: int)
    requires inv(s, c), 0 <= k < c.len(), fin(slop), rank(slop) >= rank(0.0f64)
    ensures num(lo(s, c, slop, k)), num(hi(c, slop, k)), rank(begin(s, c, k)) <= rank(lo(s, c, slop, k)), rank(hi(c, slop, k)) <= till(c, k), rank(s) <= rank(begin(s, c, k)),
        good(s, c, slop, k) ==> fin(lo(s, c, slop, k)) && fin(hi(c, slop, k)), fin(begin(s, c, k)), fin(c[k].end), fin(s)
{
    lemma_inv(s, c, k, k); if k > 0 { lemma_inv(s, c, k - 1, k); } ax_fin(s);
    ax_fadd(begin(s, c, k), slop);
    ax_fsub(c[k].end, slop);
    ax_fin(begin(s, c, k));
    if good(s, c, slop, k) { ax_between(s, lo(s, c, slop, k), c[k].end); ax_between(s, hi(c, slop, k), c[k].end); }
}
proof fn lemma_verdict_push(r: Entries, x: CurveOrderEntry, y: int, o: Order)
    requires verdict(r, y, o) ensures verdict(r.push(x), y, o)
{ let i = choose|i: int| #[trigger] first(r, y, i) && r[i].order == o; lemma_first_push(r, x, y, i); assert(r.push(x)[i] == r[i]); }
proof fn lemma_push_inv(s: f64, r: Entries, x: CurveOrderEntry)
    requires inv(s, r), fin(s), fin(x.end), rank(s) <= rank(x.end), r.len() > 0 ==> till(r, r.len() - 1) <= rank(x.end) && r.last().order != x.order && (r.last().order == Order::Ish || x.order == Order::Ish)
    ensures inv(s, r.push(x))
{
    reveal(inv);
    let d = r.push(x);
    let n = r.len() as int;
    assert forall|i: int| 0 <= i < d.len() implies #[trigger] bound(s, d, i) by { if i < n { assert(bound(s, r, i)); } }
    assert forall|i: int| 0 < i < d.len() implies #[trigger] alt(d, i) by { if i < n { assert(alt(r, i)); } }
    assert forall|i: int, j: int| #![trigger till(d, i), till(d, j)] 0 <= i < j < d.len() implies till(d, i) <= till(d, j) by {
        if i < n - 1 { assert(till(r, i) <= till(r, n - 1)); }
        if j < n { assert(till(r, i) <= till(r, j)); }
    }
}
proof fn lemma_push_strict(s: f64, r: Entries, x: CurveOrderEntry)
    requires strict(s, r), x.order != Order::Ish ==> rank(if r.len() == 0 { s } else { r.last().end }) < rank(x.end)
    ensures strict(s, r.push(x))
{ assert forall|i: int| 0 <= i < r.push(x).len() implies #[trigger] tall(s, r.push(x), i) by { if i < r.len() { assert(tall(s, r, i)); } } }
/// Passing over an interval that vanishes.
proof fn lemma_wide_start(s: f64, c: Entries, slop: f64)
    requires inv(s, c), fin(s)
    ensures wide(s, c, slop, 0, Seq::<CurveOrderEntry>::empty())
{ reveal(inv); }
proof fn lemma_wide_skip(s: f64, c: Entries, slop: f64, k: int, r: Entries)
    requires inv(s, c), wide(s, c, slop, k, r), k < c.len(), !good(s, c, slop, k)
    ensures wide(s, c, slop, k + 1, r)
{
    if k > 0 { lemma_inv(s, c, k - 1, k); }
    assert forall|y: int| outside(s, c, slop, k + 1, y) implies #[trigger] outside(s, c, slop, k, y) by {
        assert forall|j: int| 0 <= j < k implies !#[trigger] within(s, c, slop, j, y) by {}
    }
    if r.len() > 0 {
        let t = till(r, r.len() - 1);
        assert forall|y: int| #![trigger verdict(r, y, Order::Ish)] rank(s) <= y <= t && outside(s, c, slop, k + 1, y) implies verdict(r, y, Order::Ish) by { assert(outside(s, c, slop, k, y)); }
    }
}
/// An interval that stays.
proof fn lemma_wide_step(s: f64, c: Entries, slop: f64, k: int, r: Entries, d: Entries, a: CurveOrderEntry, b: CurveOrderEntry)
    requires inv(s, c), wide(s, c, slop, k, r), k < c.len(), good(s, c, slop, k), fin(slop), rank(slop) >= rank(0.0f64),
        b.order == c[k].order, b.end == hi(c, slop, k), a.order == Order::Ish, a.end == lo(s, c, slop, k),
        d == (if rank(lo(s, c, slop, k)) != rank(s) { r.push(a) } else { r }).push(b),
    ensures wide(s, c, slop, k + 1, d)
{
    let l = rank(lo(s, c, slop, k));
    let h = rank(hi(c, slop, k));
    let n = r.len() as int;
    lemma_ends(s, c, slop, k);
    if n > 0 { assert(till(r, n - 1) <= till(c, k - 1)); assert(begin(s, c, k) == c[k - 1].end); assert(till(r, n - 1) <= l); assert(l > rank(s)); }
    let e = if l != rank(s) { r.push(a) } else { r };
    if l != rank(s) { lemma_push_inv(s, r, a); lemma_push_strict(s, r, a); }
    lemma_push_inv(s, e, b);
    lemma_push_strict(s, e, b);
    assert(till(d, d.len() - 1) == h);
    // heights that an interval before k decides
    assert forall|y: int, o: Order| #[trigger] verdict(r, y, o) implies verdict(d, y, o) by {
        if l != rank(s) { lemma_verdict_push(r, a, y, o); }
        lemma_verdict_push(e, b, y, o);
    }
    // heights that interval k decides
    assert forall|y: int| #[trigger] within(s, c, slop, k, y) implies verdict(d, y, b.order) by {
        let i = d.len() - 1;
        assert forall|j: int| 0 <= j < i implies #[trigger] till(d, j) < y by { if j < n { lemma_inv(s, r, j, n - 1); assert(d[j] == r[j]); assert(till(r, j) <= l); } }
        assert(first(d, y, i));
        assert(d[i] == b);
    }
    assert(wide_in(s, c, slop, k + 1, d)) by {
        assert forall|j: int, y: int| 0 <= j < k + 1 && #[trigger] within(s, c, slop, j, y) implies verdict(d, y, c[j].order) by { if j < k { assert(verdict(r, y, c[j].order)); } }
    }
    assert forall|y: int| #![trigger verdict(d, y, Order::Ish)] rank(s) <= y <= h && outside(s, c, slop, k + 1, y) implies verdict(d, y, Order::Ish) by {
        assert(!within(s, c, slop, k, y));
        assert(outside(s, c, slop, k, y)) by { assert forall|j: int| 0 <= j < k implies !#[trigger] within(s, c, slop, j, y) by {} }
        if n > 0 && y <= till(r, n - 1) {
            assert(verdict(r, y, Order::Ish));
        } else {
            assert(y <= l && l != rank(s));
            assert forall|j: int| 0 <= j < n implies #[trigger] till(d, j) < y by { lemma_inv(s, r, j, n - 1); assert(d[j] == r[j]); assert(till(r, j) <= till(r, n - 1)); }
            assert(d[n] == a);
            assert(till(d, n) == l);
            assert(first(d, y, n));
        }
    }
    assert(wide_out(s, c, slop, k + 1, d, h));
    if n == 0 { assert forall|j: int| 0 <= j < k + 1 && #[trigger] good(s, c, slop, j) implies rank(hi(c, slop, j)) <= h by { if j < k { assert(!good(s, c, slop, j)); } } }
    else { assert forall|j: int| 0 <= j < k + 1 && #[trigger] good(s, c, slop, j) implies rank(hi(c, slop, j)) <= h by { if j < k { assert(rank(hi(c, slop, j)) <= till(r, n - 1)); } } }
    assert(h > rank(s));
}
/// The end.
proof fn lemma_wide_end(s: f64, c: Entries, slop: f64, r: Entries, x: CurveOrderEntry)
    requires inv(s, c), c.len() > 0, wide(s, c, slop, c.len() as int, r), x.order == Order::Ish, x.end == c.last().end
    ensures
        r.len() > 0 && till(r, r.len() - 1) == rank(x.end) ==> widened(s, c, slop, r),
        r.len() == 0 || till(r, r.len() - 1) != rank(x.end) ==> widened(s, c, slop, r.push(x)),
{
    let n = r.len() as int;
    let k = c.len() as int;
    lemma_inv(s, c, k - 1, k - 1);
    if n > 0 { lemma_inv(s, r, n - 1, n - 1); }
    if n == 0 || till(r, n - 1) != rank(x.end) {
        let d = r.push(x);
        lemma_push_inv(s, r, x);
        lemma_push_strict(s, r, x);
        assert forall|j: int, y: int| 0 <= j < k && #[trigger] within(s, c, slop, j, y) implies verdict(d, y, c[j].order) by { lemma_verdict_push(r, x, y, c[j].order); }
        assert forall|y: int| #![trigger verdict(d, y, Order::Ish)] rank(s) <= y <= rank(x.end) && outside(s, c, slop, k, y) implies verdict(d, y, Order::Ish) by {
            if n > 0 && y <= till(r, n - 1) { assert(verdict(r, y, Order::Ish)); lemma_verdict_push(r, x, y, Order::Ish); }
            else {
                assert forall|j: int| 0 <= j < n implies #[trigger] till(d, j) < y by { lemma_inv(s, r, j, n - 1); assert(d[j] == r[j]); assert(till(r, j) <= till(r, n - 1)); }
                assert(first(d, y, n));
                assert(d[n] == x);
            }
        }
    }
}

/// The same intervals with the orders flipped.
spec fn flips(c: Entries, d: Entries) -> bool { d.len() == c.len() && forall|i: int| 0 <= i < c.len() ==> (#[trigger] d[i]).end == c[i].end && d[i].order == flipped(c[i].order) }
proof fn lemma_flips(s: f64, c: Entries, d: Entries)
    requires inv(s, c), flips(c, d)
    ensures inv(s, d), flips(d, c), forall|y: int, o: Order| #[trigger] verdict(c, y, o) ==> verdict(d, y, flipped(o))
{
    reveal(inv);
    assert forall|i: int| 0 <= i < d.len() implies #[trigger] bound(s, d, i) by { assert(bound(s, c, i)); }
    assert forall|i: int| 0 < i < d.len() implies #[trigger] alt(d, i) by { assert(alt(c, i)); assert(d[i].order == flipped(c[i].order)); assert(d[i - 1].order == flipped(c[i - 1].order)); }
    assert forall|i: int, j: int| #![trigger till(d, i), till(d, j)] 0 <= i < j < d.len() implies till(d, i) <= till(d, j) by { assert(till(c, i) <= till(c, j)); }
    assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]).end == d[i].end && c[i].order == flipped(d[i].order) by { assert(d[i].end == c[i].end); }
    assert forall|y: int, o: Order| #[trigger] verdict(c, y, o) implies verdict(d, y, flipped(o)) by {
        let i = choose|i: int| #[trigger] first(c, y, i) && c[i].order == o;
        assert(d[i].end == c[i].end);
        assert forall|j: int| 0 <= j < i implies #[trigger] till(d, j) < y by { assert(till(c, j) < y); }
        assert(first(d, y, i));
    }
}
/// Stands for the standard library's iter().map(f).collect().
fn mapped<F: Fn(&CurveOrderEntry) -> CurveOrderEntry>(v: &Vec<CurveOrderEntry>, f: F) -> (r: Vec<CurveOrderEntry>)
    requires forall|x: &CurveOrderEntry| f.requires((x,))
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> f.ensures((&#[trigger] v@[i],), r@[i])
{
    let mut r: Vec<CurveOrderEntry> = Vec::new();
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), r@.len() == i, forall|x: &CurveOrderEntry| f.requires((x,)), forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] v@[j],), r@[j])
        decreases v@.len() - i
    {
        r.push(f(&v[i]));
        i = i + 1;
    }
    r
}
proof fn lemma_items(s: f64, c: Entries)
    requires inv(s, c)
    ensures forall|i: int| 0 <= i < c.len() ==> num((#[trigger] items(s, c)[i]).1) && fin(items(s, c)[i].0) && fin(items(s, c)[i].1)
{ assert forall|i: int| 0 <= i < c.len() implies num((#[trigger] items(s, c)[i]).1) && fin(items(s, c)[i].0) && fin(items(s, c)[i].1) by { lemma_inv(s, c, i, i); if i > 0 { lemma_inv(s, c, i - 1, i - 1); } } }
impl CurveOrder {
    spec fn all(&self) -> Seq<Item> { items(self.start, self.cmps@) }
    //@fn CurveOrder::order_at
    //@ret r
    //@sub \*(_?start|_?end|_?order|lo|hi|e|o|s)\b ==> \1
    //@sub &y\b ==> y
    //@sub \|\((\w+), (\w+), (\w+)\)\| ([^()]*)\) ==> |t: &Item| -> (b: bool) ensures num(t.1) ==> b == (rank(t.1) >= rank(y)) { let (\1, \2, \3) = *t; \4 })
    //@start
    proof { lemma_items(self.start, self.cmps@); }
    let ghost c = self.cmps@;
    let ghost n = c.len() as int;
    assert(self.all()[n - 1].1 == c[n - 1].end);
    let r = {
    //@finish
    };
    proof {
        let k = choose|k: int| 0 <= k < n && #[trigger] self.all()[k].2 == r && rank(self.all()[k].1) >= rank(y) && (forall|j: int| 0 <= j < k ==> rank((#[trigger] self.all()[j]).1) < rank(y));
        assert forall|j: int| 0 <= j < k implies #[trigger] till(c, j) < rank(y) by { assert(rank(self.all()[j].1) < rank(y)); }
        assert(first(c, rank(y), k));
    }
    r
    //@spec
    requires self.wf(), num(y), self.cmps@.len() > 0, rank(y) <= self.last_end()
    ensures verdict(self.cmps@, rank(y), r)
    //@end

    //@fn CurveOrder::entry_at
    //@ret r
    //@sub \*(_?start|_?end|_?order|lo|hi|e|o|s)\b ==> \1
    //@sub \|\((\w+), (\w+), (\w+)\)\| ([^()]*)\) ==> |t: &Item| -> (b: bool) ensures num(t.1) ==> b == (rank(t.1) > rank(y)) { let (\1, \2, \3) = *t; \4 })
    //@start
    proof { lemma_items(self.start, self.cmps@); }
    let ghost c = self.cmps@;
    let ghost n = c.len() as int;
    assert(self.all()[n - 1].1 == c[n - 1].end);
    let r = {
    //@finish
    };
    proof {
        let k = choose|k: int| 0 <= k < n && #[trigger] self.all()[k] == r && rank(self.all()[k].1) > rank(y) && (forall|j: int| 0 <= j < k ==> rank((#[trigger] self.all()[j]).1) <= rank(y));
        assert forall|j: int| 0 <= j < k implies #[trigger] till(c, j) <= rank(y) by { assert(rank(self.all()[j].1) <= rank(y)); }
        assert(after(c, rank(y), k));
    }
    r
    //@spec
    requires self.wf(), num(y), self.cmps@.len() > 0, rank(y) < self.last_end()
    ensures exists|k: int| #[trigger] after(self.cmps@, rank(y), k) && r == (begin(self.start, self.cmps@, k), self.cmps@[k].end, self.cmps@[k].order)
    //@end
    //@fn CurveOrder::order_after
    //@ret r
    //@sub &y\b ==> y
    //@sub \*(_?start|_?end|_?order|lo|hi|e|o|s)\b ==> \1
    //@sub skip_while\(\|\((\w+), (\w+), (\w+)\)\| ([^()]*)\) ==> skip_while(|t: &Item| -> (b: bool) ensures num(t.1) ==> b == (rank(t.1) <= rank(y)) { let (\1, \2, \3) = *t; \4 })
    //@sub find\(\|\((\w+), (\w+), (\w+)\)\| ([^()]*)\) ==> find(|t: &Item| -> (b: bool) ensures b == (t.2 != Order::Ish) { let (\1, \2, \3) = *t; \4 })
    //@sub self\s*\.iter\(\)\s*\.skip_while\( ==> let mut mid = self.iter().skip_while(
    //@sub \.find\( ==> ; let ghost rest = mid.items(); let hit = mid.find(
    //@sub \.map_or\(Order::(\w+), \|\((\w+), (\w+), (\w+)\)\| ([^()]*)\) ==> ; proof { assert(hit is None ==> lands(rest, Order::Ish)); assert(hit is Some ==> (hit->0).2 != Order::Ish && sits(rest, hit->0)); if hit is Some { lemma_sits(rest, hit->0); } } let r = hit.map_or(Order::\1, |t: Item| -> (o: Order) ensures o == t.2 { let (\2, \3, \4) = t; \5 }); proof { lemma_search(self.start, c, rank(y), rest, r); } r
    //@start
    proof { lemma_items(self.start, self.cmps@); lemma_inv(self.start, self.cmps@, 0, self.cmps@.len() - 1); }
    let ghost c = self.cmps@;
    let ghost n = c.len() as int;
    let ghost all = self.all();
    assert forall|i: int| 0 <= i < n implies (#[trigger] all[i]).1 == c[i].end && all[i].2 == c[i].order by {}
    let r = {
    //@finish
    };
    r
    //@spec
    requires self.wf(), num(y), self.cmps@.len() > 0
    ensures rank(y) == self.last_end() ==> r == self.cmps@.last().order, rank(y) != self.last_end() ==> next_definite(self.cmps@, rank(y), r)
    //@end

    //@fn CurveOrder::next_touch_after
    //@ret r
    //@sub &y\b ==> y
    //@sub \*(_?start|_?end|_?order|lo|hi|e|o|s)\b ==> \1
    //@sub let mut iter = self\s*\.iter\(\) ==> let mid = self.iter()
    //@sub iter\(\)\s*\.skip_while\(\|\((\w+), (\w+), (\w+)\)\| ([^()]*)\) ==> iter().skip_while(|t: &Item| -> (b: bool) ensures num(t.1) ==> b == (rank(t.1) <= rank(y)) { let (\1, \2, \3) = *t; \4 })
    //@sub \s\.skip_while\(\|\((\w+), (\w+), (\w+)\)\| ([^()]*)\); ==> ; let ghost one = mid.items(); let mut iter = mid.skip_while(|t: &Item| -> (b: bool) ensures b == (t.2 == Order::Left) { let (\1, \2, \3) = *t; \4 }); let ghost two = iter.items(); proof { lemma_place(self.start, c, rank(y), one, two); } let ghost m = choose|m: int| #[trigger] start_at(c, rank(y), m) && two == all.skip(m);
    //@sub let \((\w+), (\w+), order\) = iter.next\(\)\?; ==> let Some((\1, \2, order)) = iter.next() else { proof { lemma_none(self.start, c, rank(y), m); } return None; }; proof { assert(two[0] == all[m]); }
    //@sub return Some\(CurveInteraction::Cross\((\w+)\)\); ==> { proof { lemma_inside(self.start, c, rank(y), m); assert(crosses(self.start, c, rank(y), m, \1)); } let r = Some(CurveInteraction::Cross(\1)); assert(interaction(self.start, c, rank(y), r)); return r; }
    //@sub let \(_, _, next_order\) = iter.next\(\)\?; ==> let Some((_, _, next_order)) = iter.next() else { proof { lemma_none(self.start, c, rank(y), m); } return None; }; proof { assert(two.skip(1)[0] == all[m + 1]); lemma_next(self.start, c, rank(y), m); }
    //@sub Order::Right => Some\(CurveInteraction::Cross\((\w+)\)\) ==> Order::Right => { proof { assert(crosses(self.start, c, rank(y), m + 1, \1)); } Some(CurveInteraction::Cross(\1)) }
    //@sub Some\(CurveInteraction::Touch\((\w+)\)\) ==> { proof { assert(touches(self.start, c, rank(y), m, \1)); } Some(CurveInteraction::Touch(\1)) }
    //@sub self\.next_touch_after\((\w+)\) ==> { proof { lemma_beyond(self.start, c, rank(y), m); } let r = self.next_touch_after(\1); proof { lemma_later(self.start, c, rank(y), m, r); } r }
    //@sub unreachable!\(\); ==> { proof { assert(false); } vstd::pervasive::unreached() }
    //@start
    proof { lemma_items(self.start, self.cmps@); lemma_inv(self.start, self.cmps@, 0, self.cmps@.len() - 1); }
    let ghost c = self.cmps@;
    let ghost all = self.all();
    //@spec
    requires self.wf(), strict(self.start, self.cmps@), num(y), self.cmps@.len() > 0
    ensures interaction(self.start, self.cmps@, rank(y), r)
    decreases beyond(self.cmps@, rank(y))
    //@end

    //@fn CurveOrder::with_y_slop
    //@ret r
    //@sub for \((\w+), (\w+), (\w+)\) in self\.iter\(\) \{ ==> let mut it = self.iter(); let ghost mut k: int = 0; proof { lemma_wide_start(s, c, slop); } loop invariant_except_break it.items() =~= all.skip(k), invariant self.cmps@ == c, self.start == s, all == items(s, c), wide(s, c, slop, k, ret@), inv(s, c), c.len() > 0, fin(slop), rank(slop) >= rank(0.0f64), last_end == c.last().end, c.len() < usize::MAX / 4, ensures k == c.len() decreases c.len() - k { let ghost before = ret@; let Some((\1, \2, \3)) = it.step() else { break; }; proof { assert(all.skip(k)[0] == all[k]); lemma_ends(s, c, slop, k); lemma_inv(s, c, k, c.len() - 1); }
    //@sub \bcontinue; ==> { proof { if good(s, c, slop, k) { lemma_wide_step(s, c, slop, k, before, ret@, CurveOrderEntry { end: lo(s, c, slop, k), order: Order::Ish }, CurveOrderEntry { end: hi(c, slop, k), order: c[k].order }); } else { lemma_wide_skip(s, c, slop, k, before); } k = k + 1; } continue; }
    //@sub is_none_or\(\|(\w+)\| ([^()]*)\) ==> is_none_or(|\1: &CurveOrderEntry| -> (b: bool) ensures num(\1.end) ==> b == (rank(\1.end) != rank(last_end)) { \2 })
    //@tail 0
    proof {
        if good(s, c, slop, k) { lemma_wide_step(s, c, slop, k, before, ret@, CurveOrderEntry { end: lo(s, c, slop, k), order: Order::Ish }, CurveOrderEntry { end: hi(c, slop, k), order: c[k].order }); }
        else { lemma_wide_skip(s, c, slop, k, before); }
        k = k + 1;
    }
    //@after 0
    proof { lemma_wide_end(s, c, slop, ret@, CurveOrderEntry { end: last_end, order: Order::Ish }); if ret@.len() > 0 { lemma_inv(s, ret@, ret@.len() - 1, ret@.len() - 1); } }
    //@start
    let ghost s = self.start;
    let ghost c = self.cmps@;
    let ghost all = self.all();
    proof { lemma_inv(s, c, 0, c.len() - 1); ax_fin(s); ax_fin(slop); ax_zero(); ax_fin(0.0f64); }
    //@spec
    requires self.wf(), fin(slop), rank(slop) >= rank(0.0f64), self.cmps@.len() > 0, self.cmps@.len() < usize::MAX / 4
    ensures r.start == self.start, r.wf(), rank(slop) == rank(0.0f64) || rank(self.start) == self.last_end() ==> r.cmps@ == self.cmps@,
        rank(slop) != rank(0.0f64) && rank(self.start) != self.last_end() ==> widened(self.start, self.cmps@, slop, r.cmps@)
    //@end

    //@fn CurveOrder::flip
    //@ret r
    //@sub self\s*\.cmps\s*\.iter\(\)\s*\.map\((\w+)::(\w+)\)\s*\.collect\(\) ==> mapped(&self.cmps, |e: &CurveOrderEntry| -> (x: CurveOrderEntry) ensures x.end == e.end, x.order == flipped(e.order) { \1::\2(e) })
    //@start
    let r = {
    //@finish
    };
    proof {
        assert forall|i: int| 0 <= i < self.cmps@.len() implies (#[trigger] r.cmps@[i]).end == self.cmps@[i].end && r.cmps@[i].order == flipped(self.cmps@[i].order) by { let x = self.cmps@[i]; }
        assert(flips(self.cmps@, r.cmps@));
        lemma_flips(self.start, self.cmps@, r.cmps@);
    }
    r
    //@spec
    requires self.wf()
    ensures r.start == self.start, r.wf(), flips(self.cmps@, r.cmps@), forall|y: int, o: Order| #[trigger] verdict(self.cmps@, y, o) ==> verdict(r.cmps@, y, flipped(o))
    //@end
}
} // verus!
fn main() {}
