#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_braces, non_snake_case)]
use vstd::prelude::*;
verus! {

// ---------------------------------------------------------------- the code under contract
//@src src/segments.rs
#[derive(Clone, Copy, PartialEq, Eq)]
//@item struct SegIdx
/// The two lists of the segment store that the queue reads (the other fields are dropped).
struct Segments { enter: Vec<(f64, SegIdx)>, exit: Vec<(f64, SegIdx)> }
//@src src/sweep/sweep_line.rs
//@item struct IntersectionEvent
//@item struct EventQueue

mod fl {
use super::*;
//@include f64_order.rs
// Verus does not know that a field of type f64 holds an f64; this says no more than that.
pub(crate) broadcast axiom fn typed_0(e: (f64, SegIdx)) ensures #[trigger] e.0 == e.0, exists|x: f64| x == e.0 && #[trigger] rank(x) == rank(x);
pub(crate) broadcast axiom fn typed_y(e: IntersectionEvent) ensures #[trigger] e.y == e.y, exists|x: f64| x == e.y && #[trigger] rank(x) == rank(x);
pub(crate) broadcast group doubles { f64_order, typed_0, typed_y }
}
use fl::*;
broadcast use fl::doubles;

impl IntersectionEvent {
    // The derived orders (Kani proves that the comparison is total and by this key: contracts/event_order.rs).
    spec fn key(&self) -> Key { Key { height: rank(self.y), left: self.left.0 as int, right: self.right.0 as int } }
}
impl PartialEq for IntersectionEvent { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { self.y == o.y && self.left == o.left && self.right == o.right } }
impl Eq for IntersectionEvent {}
#[verifier::external]
impl Ord for IntersectionEvent { fn cmp(&self, o: &Self) -> std::cmp::Ordering { std::cmp::Ordering::Equal } }
#[verifier::external]
impl PartialOrd for IntersectionEvent { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
struct Key { height: int, left: int, right: int }
spec fn upto(a: Key, b: Key) -> bool {
    a.height < b.height || (a.height == b.height && (a.left < b.left || (a.left == b.left && a.right <= b.right)))
}

// ---------------------------------------------------------------- dependencies (trusted: the standard library's ordered set)
type Scheduled = std::collections::BTreeSet<IntersectionEvent>;
/// The keys in the set.
uninterp spec fn keys(s: &Scheduled) -> Set<Key>;
spec fn smallest(k: Set<Key>, x: Key) -> bool { k.contains(x) && forall|z: Key| #[trigger] k.contains(z) ==> upto(x, z) }
#[verifier::external_body]
fn set_insert(s: &mut Scheduled, ev: IntersectionEvent) -> (fresh: bool)
    requires num(ev.y)
    ensures keys(final(s)) == keys(old(s)).insert(ev.key())
{ s.insert(ev) }
#[verifier::external_body]
fn set_first(s: &Scheduled) -> (r: Option<&IntersectionEvent>)
    ensures r is None ==> keys(s) == Set::<Key>::empty(), r is Some ==> smallest(keys(s), (r->0).key()) && num((r->0).y)
{ s.first() }
#[verifier::external_body]
fn set_pop(s: &mut Scheduled) -> (r: Option<IntersectionEvent>)
    ensures r is None ==> keys(old(s)) == Set::<Key>::empty() && keys(final(s)) == keys(old(s)),
        r is Some ==> smallest(keys(old(s)), (r->0).key()) && num((r->0).y) && keys(final(s)) == keys(old(s)).remove((r->0).key())
{ s.pop_first() }

// Verified stand-ins for what the standard library does.
/// slice::iter().position(p)
fn position<P: Fn(&(f64, SegIdx)) -> bool>(v: &[(f64, SegIdx)], p: P) -> (r: Option<usize>)
    requires forall|x: &(f64, SegIdx)| p.requires((x,))
    ensures
        r is Some ==> (r->0) < v@.len() && p.ensures((&v@[(r->0) as int],), true),
        forall|j: int| 0 <= j < (if r is Some { (r->0) as int } else { v@.len() as int }) ==> p.ensures((&#[trigger] v@[j],), false),
{
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), forall|x: &(f64, SegIdx)| p.requires((x,)), forall|j: int| 0 <= j < i ==> p.ensures((&#[trigger] v@[j],), false)
        decreases v@.len() - i
    {
        if p(&v[i]) { return Some(i); }
        i = i + 1;
    }
    None
}
/// &v[i..] and &v[..n]
fn tail(v: &[(f64, SegIdx)], i: usize) -> (r: &[(f64, SegIdx)]) requires i <= v@.len() ensures r@ == v@.skip(i as int), v@.len() <= usize::MAX { let n = v.len(); let r = vstd::slice::slice_subrange(v, i, v.len()); assert(r@ =~= v@.skip(i as int)); r }
fn head(v: &[(f64, SegIdx)], n: usize) -> (r: &[(f64, SegIdx)]) requires n <= v@.len() ensures r@ == v@.take(n as int) { let r = vstd::slice::slice_subrange(v, 0, n); assert(r@ =~= v@.take(n as int)); r }
/// array.into_iter().flatten().min_by_key(by value)
fn least(a: [Option<f64>; 3]) -> (r: Option<f64>)
    requires forall|i: int| 0 <= i < 3 && (#[trigger] a@[i]) is Some ==> num(a@[i]->0)
    ensures
        r is None <==> a@[0] is None && a@[1] is None && a@[2] is None,
        r is Some ==> num(r->0) && forall|i: int| 0 <= i < 3 && (#[trigger] a@[i]) is Some ==> rank(r->0) <= rank(a@[i]->0),
        r is Some ==> r == a@[0] || r == a@[1] || r == a@[2],
{
    let mut r: Option<f64> = None;
    let mut i: usize = 0;
    while i < 3
        invariant i <= 3, forall|j: int| 0 <= j < 3 && (#[trigger] a@[j]) is Some ==> num(a@[j]->0),
            r is None ==> forall|j: int| 0 <= j < i ==> (#[trigger] a@[j]) is None,
            r is Some ==> num(r->0) && (forall|j: int| 0 <= j < i && (#[trigger] a@[j]) is Some ==> rank(r->0) <= rank(a@[j]->0)) && exists|j: int| 0 <= j < i && r == #[trigger] a@[j],
        decreases 3 - i
    {
        assert(a@[i as int] is Some ==> num(a@[i as int]->0));
        match a[i] {
            None => {}
            Some(x) => match r {
                None => { r = Some(x); }
                Some(y) => { if x < y { r = Some(x); } }
            }
        }
        i = i + 1;
    }
    r
}
/// == of optional heights
fn same(a: Option<f64>, b: Option<f64>) -> (r: bool)
    requires a is Some ==> num(a->0), b is Some ==> num(b->0)
    ensures r == (match (a, b) { (None, None) => true, (Some(x), Some(y)) => rank(x) == rank(y), _ => false })
{ match (a, b) { (None, None) => true, (Some(x), Some(y)) => x == y, _ => false } }

// ---------------------------------------------------------------- the abstraction
type Heights = Seq<(f64, SegIdx)>;
spec fn at(v: Heights, i: int) -> int { rank(v[i].0) }
spec fn sorted(v: Heights) -> bool {
    (forall|i: int| 0 <= i < v.len() ==> num((#[trigger] v[i]).0)) && forall|i: int, j: int| #![trigger at(v, i), at(v, j)] 0 <= i <= j < v.len() ==> at(v, i) <= at(v, j)
}
/// The piece of the list from a to b is what is delivered: all that is pending up to height y; what remains is below y.
spec fn taken(v: Heights, a: int, b: int, y: int, r: Heights) -> bool {
    &&& a <= b <= v.len() && r =~= v.subrange(a, b)
    &&& forall|j: int| a <= j < b ==> #[trigger] at(v, j) <= y
    &&& forall|j: int| b <= j < v.len() ==> #[trigger] at(v, j) > y
}
proof fn lemma_count(v: Heights, a: int, n: int, y: int)
    requires sorted(v), 0 <= a, 0 <= n <= v.len() - a, forall|j: int| 0 <= j < n ==> rank((#[trigger] v.skip(a)[j]).0) <= y, n < v.len() - a ==> rank(v.skip(a)[n].0) > y
    ensures taken(v, a, a + n, y, v.skip(a).take(n))
{
    assert forall|j: int| a <= j < a + n implies #[trigger] at(v, j) <= y by { assert(rank(v.skip(a)[j - a].0) <= y); }
    assert forall|j: int| a + n <= j < v.len() implies #[trigger] at(v, j) > y by { assert(at(v, a + n) <= at(v, j)); }
}
proof fn lemma_next(q: &EventQueue, s: &Segments, e: Option<f64>, x: Option<f64>, i: Option<f64>)
    requires q.wf(s),
        e == (if q.next_enter_idx < s.enter@.len() { Some(s.enter@[q.next_enter_idx as int].0) } else { None }),
        x == (if q.next_exit_idx < s.exit@.len() { Some(s.exit@[q.next_exit_idx as int].0) } else { None }),
        i is None ==> keys(&q.intersection) == Set::<Key>::empty(),
        i is Some ==> exists|k: Key| #[trigger] smallest(keys(&q.intersection), k) && k.height == rank(i->0),
    ensures
        e is None && x is None && i is None <==> q.done(s),
        forall|h: int| (e is Some && rank(e->0) == h || x is Some && rank(x->0) == h || i is Some && rank(i->0) == h) ==> #[trigger] q.due(s, h),
        forall|h: int| (e is Some ==> h <= rank(e->0)) && (x is Some ==> h <= rank(x->0)) && (i is Some ==> h <= rank(i->0)) ==> #[trigger] q.from(s, h),
{
    let k = choose|k: Key| #[trigger] smallest(keys(&q.intersection), k) && k.height == rank(i->0);
    if i is Some { assert(keys(&q.intersection).contains(k)); }
    assert forall|h: int| (e is Some && rank(e->0) == h || x is Some && rank(x->0) == h || i is Some && rank(i->0) == h) implies #[trigger] q.due(s, h) by {
        if e is Some { assert(at(s.enter@, q.next_enter_idx as int) == rank(e->0)); }
        if x is Some { assert(at(s.exit@, q.next_exit_idx as int) == rank(x->0)); }
    }
    assert forall|h: int| (e is Some ==> h <= rank(e->0)) && (x is Some ==> h <= rank(x->0)) && (i is Some ==> h <= rank(i->0)) implies #[trigger] q.from(s, h) by {
        assert forall|j: int| q.next_enter_idx <= j < s.enter@.len() implies #[trigger] at(s.enter@, j) >= h by { assert(at(s.enter@, q.next_enter_idx as int) <= at(s.enter@, j)); }
        assert forall|j: int| q.next_exit_idx <= j < s.exit@.len() implies #[trigger] at(s.exit@, j) >= h by { assert(at(s.exit@, q.next_exit_idx as int) <= at(s.exit@, j)); }
        assert forall|z: Key| #[trigger] keys(&q.intersection).contains(z) implies z.height >= h by { assert(upto(k, z)); }
    }
}
/// One round: when nothing is pending above y, and the events at y have been taken (the crossings until there is none left),
/// everything that was delivered was at y, and whatever is announced next is below y.
proof fn lemma_round(s: &Segments, y: int, q0: &EventQueue, q1: &EventQueue, q2: &EventQueue, q3: &EventQueue, enters: Heights, exits: Heights)
    requires q0.wf(s), q1.wf(s), q2.wf(s), q3.wf(s), q0.from(s, y),
        taken(s.enter@, q0.next_enter_idx as int, q1.next_enter_idx as int, y, enters), q1.next_exit_idx == q0.next_exit_idx, q1.intersection == q0.intersection,
        taken(s.exit@, q1.next_exit_idx as int, q2.next_exit_idx as int, y, exits), q2.next_enter_idx == q1.next_enter_idx, q2.intersection == q1.intersection,
        q3.next_enter_idx == q2.next_enter_idx, q3.next_exit_idx == q2.next_exit_idx,
        // the crossings that are left: none of the height y is the smallest, and none is above y
        forall|k: Key| #[trigger] smallest(keys(&q3.intersection), k) ==> k.height != y,
        forall|k: Key| #[trigger] keys(&q3.intersection).contains(k) ==> k.height >= y,
        keys(&q3.intersection) != Set::<Key>::empty() ==> exists|k: Key| smallest(keys(&q3.intersection), k),
    ensures
        forall|i: int| 0 <= i < enters.len() ==> rank((#[trigger] enters[i]).0) == y,
        forall|i: int| 0 <= i < exits.len() ==> rank((#[trigger] exits[i]).0) == y,
        q3.from(s, y + 1),
{
    assert forall|i: int| 0 <= i < enters.len() implies rank((#[trigger] enters[i]).0) == y by { let j = q0.next_enter_idx + i; assert(at(s.enter@, j) <= y); assert(at(s.enter@, j) >= y); }
    assert forall|i: int| 0 <= i < exits.len() implies rank((#[trigger] exits[i]).0) == y by { let j = q0.next_exit_idx + i; assert(at(s.exit@, j) <= y); assert(at(s.exit@, j) >= y); }
    assert forall|k: Key| #[trigger] keys(&q3.intersection).contains(k) implies k.height >= y + 1 by {
        let m = choose|m: Key| smallest(keys(&q3.intersection), m);
        assert(keys(&q3.intersection).contains(k));
        assert(upto(m, k));
    }
}
impl Segments {
    /// What the segment store guarantees about its lists (property C06).
    spec fn wf(&self) -> bool { sorted(self.enter@) && sorted(self.exit@) }
    //@src src/segments.rs
    //@fn Segments::entrances
    //@ret r
    ensures r@ == self.enter@
    //@end
    //@fn Segments::exits
    //@ret r
    ensures r@ == self.exit@
    //@end
    //@src src/sweep/sweep_line.rs
}
impl EventQueue {
    spec fn wf(&self, s: &Segments) -> bool { s.wf() && self.next_enter_idx <= s.enter@.len() && self.next_exit_idx <= s.exit@.len() }
    /// No pending event is above y.
    spec fn from(&self, s: &Segments, y: int) -> bool {
        &&& forall|j: int| self.next_enter_idx <= j < s.enter@.len() ==> #[trigger] at(s.enter@, j) >= y
        &&& forall|j: int| self.next_exit_idx <= j < s.exit@.len() ==> #[trigger] at(s.exit@, j) >= y
        &&& forall|k: Key| #[trigger] keys(&self.intersection).contains(k) ==> k.height >= y
    }
    spec fn done(&self, s: &Segments) -> bool { self.next_enter_idx == s.enter@.len() && self.next_exit_idx == s.exit@.len() && keys(&self.intersection) == Set::<Key>::empty() }
    /// Some event is pending at height y.
    spec fn due(&self, s: &Segments, y: int) -> bool {
        ||| exists|j: int| self.next_enter_idx <= j < s.enter@.len() && #[trigger] at(s.enter@, j) == y
        ||| exists|j: int| self.next_exit_idx <= j < s.exit@.len() && #[trigger] at(s.exit@, j) == y
        ||| exists|k: Key| #[trigger] keys(&self.intersection).contains(k) && k.height == y
    }
    //@fn EventQueue::push
    //@sub self\.intersection\.insert\( ==> set_insert(&mut self.intersection, 
    requires num(ev.y)
    ensures keys(&final(self).intersection) == keys(&old(self).intersection).insert(ev.key()), final(self).next_enter_idx == old(self).next_enter_idx, final(self).next_exit_idx == old(self).next_exit_idx
    //@end
    //@fn EventQueue::next_y
    //@ret r
    //@sub \.map\(\|\(y, _\)\| \*y\) ==> .map(|t: &(f64, SegIdx)| -> (h: f64) ensures h == t.0 { let (y, _) = *t; y })
    //@sub self\.intersection\.first\(\) ==> set_first(&self.intersection)
    //@sub \.map\(\|i\| i\.y\) ==> .map(|i: &IntersectionEvent| -> (h: f64) ensures h == i.y { i.y })
    //@sub (\[\w+, \w+, \w+\])\s*\.into_iter\(\)\s*\.flatten\(\)\s*\.min_by_key\(\|y\| CheapOrderedFloat::from\(\*y\)\) ==> { proof { lemma_next(self, segments, enter_y, exit_y, int_y); } least(\1) }
    requires self.wf(segments)
    ensures r is None <==> self.done(segments), r is Some ==> num(r->0) && self.due(segments, rank(r->0)) && self.from(segments, rank(r->0))
    //@end
    //@fn EventQueue::entrances_at_y
    //@ret r
    //@sub &segments\.(\w+)\(\)\[(\w[\w.]*?)\.\.\] ==> tail(segments.\1(), \2)
    //@sub (\w+)\s*\.iter\(\)\s*\.position\(\|\((\w+), _\)\| (\w+) (\S+) y\) ==> position(\1, |t: &(f64, SegIdx)| -> (b: bool) ensures num(t.0) ==> b == (rank(t.0) > rank(*y)) { let (\2, _) = *t; \3 \4 *y })
    //@sub &(\w+)\[\.\.count\] ==> { proof { lemma_count(segments.enter@, old(self).next_enter_idx as int, count as int, rank(*y)); } head(\1, count) }
    requires old(self).wf(segments), num(*y)
    ensures final(self).wf(segments), final(self).next_exit_idx == old(self).next_exit_idx, final(self).intersection == old(self).intersection,
        taken(segments.enter@, old(self).next_enter_idx as int, final(self).next_enter_idx as int, rank(*y), r@)
    //@end
    //@fn EventQueue::exits_at_y
    //@ret r
    //@sub &segments\.(\w+)\(\)\[(\w[\w.]*?)\.\.\] ==> tail(segments.\1(), \2)
    //@sub (\w+)\s*\.iter\(\)\s*\.position\(\|\((\w+), _\)\| (\w+) (\S+) y\) ==> position(\1, |t: &(f64, SegIdx)| -> (b: bool) ensures num(t.0) ==> b == (rank(t.0) > rank(*y)) { let (\2, _) = *t; \3 \4 *y })
    //@sub &(\w+)\[\.\.count\] ==> { proof { lemma_count(segments.exit@, old(self).next_exit_idx as int, count as int, rank(*y)); } head(\1, count) }
    requires old(self).wf(segments), num(*y)
    ensures final(self).wf(segments), final(self).next_enter_idx == old(self).next_enter_idx, final(self).intersection == old(self).intersection,
        taken(segments.exit@, old(self).next_exit_idx as int, final(self).next_exit_idx as int, rank(*y), r@)
    //@end
    //@fn EventQueue::next_intersection_at_y
    //@ret r
    //@sub self\.intersection\.first\(\)\.map\(\|i\| i\.y\) == Some\(y\) ==> same(set_first(&self.intersection).map(|i: &IntersectionEvent| -> (h: f64) ensures h == i.y { i.y }), Some(y))
    //@sub self\.intersection\.pop_first\(\) ==> set_pop(&mut self.intersection)
    requires num(y)
    ensures final(self).next_enter_idx == old(self).next_enter_idx, final(self).next_exit_idx == old(self).next_exit_idx,
        r is Some ==> smallest(keys(&old(self).intersection), (r->0).key()) && (r->0).key().height == rank(y) && keys(&final(self).intersection) == keys(&old(self).intersection).remove((r->0).key()),
        r is None ==> final(self).intersection == old(self).intersection && forall|k: Key| #[trigger] smallest(keys(&old(self).intersection), k) ==> k.height != rank(y),
    //@end
}
} // verus!
fn main() {}
