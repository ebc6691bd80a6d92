#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_braces, non_snake_case)]
use vstd::prelude::*;
verus! {

// ---------------------------------------------------------------- the code under contract
//@src src/sweep/sweep_line.rs
//@item struct ChangedInterval

// ---------------------------------------------------------------- dependencies
impl Clone for ChangedInterval {
    // derived in the source
    fn clone(&self) -> (r: Self) ensures r == *self { ChangedInterval { segs: self.segs.start..self.segs.end, horizontals: range_clone(&self.horizontals) } }
}
/// Stands for Option::clone.
fn range_clone(o: &Option<std::ops::Range<usize>>) -> (r: Option<std::ops::Range<usize>>) ensures r == *o { match o { None => None, Some(x) => Some(x.start..x.end) } }

// ---------------------------------------------------------------- the abstraction
type Ivs = Seq<ChangedInterval>;
spec fn lesser(a: int, b: int) -> int { if a <= b { a } else { b } }
spec fn greater(a: int, b: int) -> int { if a <= b { b } else { a } }
/// The smallest range around two.
spec fn joined(a: Option<std::ops::Range<usize>>, b: Option<std::ops::Range<usize>>) -> Option<std::ops::Range<usize>> {
    match (a, b) {
        (None, None) => None,
        (None, Some(r)) => Some(r),
        (Some(r), None) => Some(r),
        (Some(x), Some(y)) => Some(std::ops::Range { start: if x.start <= y.start { x.start } else { y.start }, end: if x.end <= y.end { y.end } else { x.end } }),
    }
}
spec fn union(a: ChangedInterval, b: ChangedInterval) -> ChangedInterval {
    ChangedInterval { segs: joined(Some(a.segs), Some(b.segs))->0, horizontals: joined(a.horizontals, b.horizontals) }
}
/// The interval around v[a..b].
spec fn hull(v: Ivs, a: int, b: int) -> ChangedInterval decreases b - a {
    if b <= a + 1 { v[a] } else { union(hull(v, a, b - 1), v[b - 1]) }
}
impl ChangedInterval {
    spec fn has(&self, p: int) -> bool { self.segs.start <= p < self.segs.end }
    //@fn ChangedInterval::merge
    //@sub \.horizontals\.clone\(\) ==> .vx_h()
    //@sub self\.vx_h\(\) ==> range_clone(&self.horizontals)
    //@sub other\.vx_h\(\) ==> range_clone(&other.horizontals)
    ensures *final(self) == union(*old(self), *other)
    //@end
    //@fn ChangedInterval::from_seg_interval
    //@ret r
    ensures r.segs == segs, r.horizontals is None
    //@end
}

spec fn sorted(v: Ivs) -> bool { forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i <= j < v.len() ==> v[i].segs.start <= v[j].segs.start }
spec fn ranges(v: Ivs) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).segs.start <= v[i].segs.end }
#[verifier::opaque]
spec fn linked(v: Ivs, a: int, b: int) -> bool { forall|i: int| a < i < b ==> #[trigger] touch(v, a, i) }
spec fn touch(v: Ivs, a: int, i: int) -> bool { v[i].segs.start <= hull(v, a, i).segs.end }
/// Some interval among v[a..b] has position p.
spec fn covered(v: Ivs, a: int, b: int, p: int) -> bool { exists|i: int| a <= i < b && (#[trigger] v[i]).has(p) }
proof fn lemma_hull(v: Ivs, a: int, b: int)
    requires sorted(v), ranges(v), 0 <= a < b <= v.len(), linked(v, a, b)
    ensures hull(v, a, b).segs.start == v[a].segs.start, hull(v, a, b).segs.start <= hull(v, a, b).segs.end,
        forall|p: int| #![trigger covered(v, a, b, p)] hull(v, a, b).has(p) == covered(v, a, b, p),
        forall|i: int| a <= i < b ==> hull(v, a, b).segs.start <= (#[trigger] v[i]).segs.start && v[i].segs.end <= hull(v, a, b).segs.end,
    decreases b - a
{
    if b > a + 1 {
        assert(linked(v, a, b - 1) && touch(v, a, b - 1)) by { reveal(linked); }
        lemma_hull(v, a, b - 1);
        let h = hull(v, a, b - 1);
        let x = v[b - 1];
        assert(v[a].segs.start <= x.segs.start);
        assert(x.segs.start <= h.segs.end);
        assert forall|p: int| #![trigger covered(v, a, b, p)] hull(v, a, b).has(p) == covered(v, a, b, p) by {
            if hull(v, a, b).has(p) {
                if h.has(p) { assert(covered(v, a, b - 1, p)); let i = choose|i: int| a <= i < b - 1 && (#[trigger] v[i]).has(p); assert(v[i].has(p)); } else { assert(x.has(p)); }
            }
            if covered(v, a, b, p) {
                let i = choose|i: int| a <= i < b && (#[trigger] v[i]).has(p);
                if i < b - 1 { assert(covered(v, a, b - 1, p)); }
            }
        }
    } else {
        assert forall|p: int| #![trigger covered(v, a, b, p)] hull(v, a, b).has(p) == covered(v, a, b, p) by { if v[a].has(p) { } }
    }
}
/// r consists of the hulls of consecutive blocks of o[..n], cut at the given places; blocks are linked and apart from each other.
spec fn blocks(o: Ivs, n: int, r: Ivs, w: int, cuts: Seq<int>) -> bool {
    &&& w <= r.len() && cuts.len() == w + 1 && cuts[0] == 0 && cuts[w] == n && n <= o.len()
    &&& forall|k: int| 0 <= k < w ==> #[trigger] block(o, r, cuts, k)
    &&& forall|k: int| 0 < k < w ==> #[trigger] apart(o, r, cuts, k)
}
spec fn block(o: Ivs, r: Ivs, cuts: Seq<int>, k: int) -> bool {
    0 <= cuts[k] < cuts[k + 1] <= o.len() && r[k] == hull(o, cuts[k], cuts[k + 1]) && linked(o, cuts[k], cuts[k + 1])
}
spec fn apart(o: Ivs, r: Ivs, cuts: Seq<int>, k: int) -> bool { r[k - 1].segs.end < o[cuts[k]].segs.start }
/// The result of the merging.
spec fn merged(o: Ivs, r: Ivs) -> bool {
    &&& exists|cuts: Seq<int>| #[trigger] blocks(o, o.len() as int, r, r.len() as int, cuts)
    &&& forall|p: int| #![trigger covered(o, 0, o.len() as int, p)] #![trigger covered(r, 0, r.len() as int, p)] covered(o, 0, o.len() as int, p) == covered(r, 0, r.len() as int, p)
    &&& ranges(r)
    &&& forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < r.len() ==> r[i].segs.end < r[j].segs.start
}
proof fn lemma_cuts(o: Ivs, n: int, r: Ivs, w: int, cuts: Seq<int>, k: int, l: int)
    requires blocks(o, n, r, w, cuts), 0 <= k <= l <= w
    ensures 0 <= cuts[k] <= cuts[l], k < l ==> cuts[k] < cuts[l]
    decreases l - k
{ if k < l { lemma_cuts(o, n, r, w, cuts, k, l - 1); assert(block(o, r, cuts, l - 1)); } else if k < w { assert(block(o, r, cuts, k)); } else if k > 0 { assert(block(o, r, cuts, k - 1)); } }
/// The block that an interval belongs to.
proof fn lemma_home(o: Ivs, n: int, r: Ivs, w: int, cuts: Seq<int>, i: int) -> (k: int)
    requires blocks(o, n, r, w, cuts), 0 <= i < n, w >= 0
    ensures 0 <= k < w, cuts[k] <= i < cuts[k + 1]
{ lemma_home_in(o, n, r, w, cuts, i, w) }
proof fn lemma_home_in(o: Ivs, n: int, r: Ivs, w: int, cuts: Seq<int>, i: int, m: int) -> (k: int)
    requires blocks(o, n, r, w, cuts), 0 <= i < cuts[m], 0 <= m <= w
    ensures 0 <= k < m, cuts[k] <= i < cuts[k + 1]
    decreases m
{ if m == 0 { 0 } else if cuts[m - 1] <= i { m - 1 } else { lemma_home_in(o, n, r, w, cuts, i, m - 1) } }
proof fn lemma_merged(o: Ivs, r: Ivs, cuts: Seq<int>)
    requires sorted(o), ranges(o), blocks(o, o.len() as int, r, r.len() as int, cuts)
    ensures merged(o, r)
{
    let n = o.len() as int;
    let w = r.len() as int;
    assert forall|k: int| 0 <= k < w implies (#[trigger] r[k]).segs.start == o[cuts[k]].segs.start && r[k].segs.start <= r[k].segs.end by { assert(block(o, r, cuts, k)); lemma_hull(o, cuts[k], cuts[k + 1]); }
    assert forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < w implies r[i].segs.end < r[j].segs.start by {
        assert(apart(o, r, cuts, i + 1));
        assert(block(o, r, cuts, i + 1)); assert(block(o, r, cuts, j));
        lemma_cuts(o, n, r, w, cuts, i + 1, j);
        assert(o[cuts[i + 1]].segs.start <= o[cuts[j]].segs.start);
    }
    assert forall|p: int| #![trigger covered(o, 0, n, p)] #![trigger covered(r, 0, w, p)] covered(o, 0, n, p) == covered(r, 0, w, p) by {
        if covered(o, 0, n, p) {
            let i = choose|i: int| 0 <= i < n && (#[trigger] o[i]).has(p);
            let k = lemma_home(o, n, r, w, cuts, i);
            assert(block(o, r, cuts, k));
            lemma_hull(o, cuts[k], cuts[k + 1]);
            assert(covered(o, cuts[k], cuts[k + 1], p));
            assert(r[k].has(p));
        }
        if covered(r, 0, w, p) {
            let k = choose|k: int| 0 <= k < w && (#[trigger] r[k]).has(p);
            assert(block(o, r, cuts, k));
            lemma_hull(o, cuts[k], cuts[k + 1]);
            assert(covered(o, cuts[k], cuts[k + 1], p));
            let i = choose|i: int| cuts[k] <= i < cuts[k + 1] && (#[trigger] o[i]).has(p);
            assert(o[i].has(p));
        }
    }
}
/// One more interval.
proof fn lemma_more(o: Ivs, n: int, r: Ivs, w: int, cuts: Seq<int>, d: Ivs)
    requires sorted(o), ranges(o), blocks(o, n, r, w, cuts), w > 0, n < o.len(), d.len() == r.len(), w <= n,
    ensures
        r[w - 1].segs.end < o[n].segs.start && w < r.len() && d == r.update(w, o[n]) ==> blocks(o, n + 1, d, w + 1, cuts.push(n + 1)),
        r[w - 1].segs.end >= o[n].segs.start && d == r.update(w - 1, union(r[w - 1], o[n])) ==> blocks(o, n + 1, d, w, cuts.update(w, n + 1)),
{
    assert(block(o, r, cuts, w - 1));
    assert(linked(o, n, n + 1)) by { reveal(linked); }
    assert(r[w - 1].segs.end >= o[n].segs.start ==> linked(o, cuts[w - 1], n + 1)) by { reveal(linked); if r[w - 1].segs.end >= o[n].segs.start { assert(touch(o, cuts[w - 1], n)); assert forall|i: int| cuts[w - 1] < i < n + 1 implies #[trigger] touch(o, cuts[w - 1], i) by { } } }
    if r[w - 1].segs.end < o[n].segs.start {
        let e = cuts.push(n + 1);
        if w < r.len() && d == r.update(w, o[n]) {
            assert forall|k: int| 0 <= k < w + 1 implies #[trigger] block(o, d, e, k) by { if k < w { assert(block(o, r, cuts, k)); } }
            assert forall|k: int| 0 < k < w + 1 implies #[trigger] apart(o, d, e, k) by { if k < w { assert(apart(o, r, cuts, k)); } }
        }
    } else {
        let e = cuts.update(w, n + 1);
        if d == r.update(w - 1, union(r[w - 1], o[n])) {
            assert forall|k: int| 0 <= k < w implies #[trigger] block(o, d, e, k) by { assert(block(o, r, cuts, k)); }
            assert forall|k: int| 0 < k < w implies #[trigger] apart(o, d, e, k) by { assert(apart(o, r, cuts, k)); }
        }
    }
}
//@fn merge_adjacent
//@loops 1
//@loop 0 iter=it
    invariant it.snapshot.end == o.len(), cuts.len() == write_idx + 2, sorted(o), ranges(o), intervals@.len() == o.len(), o.len() > 0, write_idx < read_idx, blocks(o, read_idx as int, intervals@, write_idx + 1, cuts),
        forall|k: int| read_idx <= k < o.len() ==> #[trigger] intervals@[k] == o[k],
//@in 0
    let ghost before = intervals@;
//@tail 0
    proof {
        lemma_more(o, read_idx as int, before, cuts.len() - 1, cuts, intervals@);
        if write_idx + 1 == cuts.len() { cuts = cuts.push(read_idx + 1); } else { cuts = cuts.update(write_idx + 1, read_idx + 1); }
    }
//@start
    let ghost o = intervals@;
    let ghost mut cuts = seq![0int, 1int];
    proof { if o.len() > 0 { assert(linked(o, 0, 1)) by { reveal(linked); } assert(block(o, o, cuts, 0)); assert(blocks(o, 1, o, 1, cuts)); } }
//@after 0
    let ghost full = intervals@;
    let ghost w = write_idx + 1;
    assert(blocks(o, o.len() as int, full, w, cuts));
//@finish
    proof {
        let r = intervals@;
        assert forall|k: int| 0 <= k < w implies #[trigger] block(o, r, cuts, k) by { assert(block(o, full, cuts, k)); }
        assert forall|k: int| 0 < k < w implies #[trigger] apart(o, r, cuts, k) by { assert(apart(o, full, cuts, k)); }
    }
    proof { lemma_merged(o, intervals@, cuts); }
//@sub return; ==> { proof { assert(blocks(o, 0, o, 0, seq![0int])); lemma_merged(o, o, seq![0int]); } return; }
//@spec
    requires sorted(old(intervals)@), ranges(old(intervals)@)
    ensures merged(old(intervals)@, final(intervals)@)
//@end
} // verus!
fn main() {}
