#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_braces, non_snake_case)]
use vstd::prelude::*;
verus! {

//@include arrayvec_shim.rs

// ---------------------------------------------------------------- assumed: slice summation
pub open spec fn sum(s: Seq<usize>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { sum(s.drop_last()) + s.last() as nat }
}

pub trait VxSum {
    spec fn sum_view(&self) -> Seq<usize>;
    fn vx_sum(&self) -> (r: usize)
        requires sum(self.sum_view()) <= usize::MAX
        ensures r == sum(self.sum_view());
}
impl<const CAP: usize> VxSum for ArrayVec<usize, CAP> {
    open spec fn sum_view(&self) -> Seq<usize> { self@ }
    fn vx_sum(&self) -> (r: usize) {
        let mut t: usize = 0;
        let mut i: usize = 0;
        proof { assert(self@.take(0) =~= Seq::<usize>::empty()); }
        while i < self.v.len()
            invariant i <= self.v@.len(), t == sum(self@.take(i as int)), sum(self@) <= usize::MAX,
            decreases self.v@.len() - i
        {
            proof {
                lemma_sum_take(self@, i as int + 1);
                assert(self@.take(i as int + 1).drop_last() =~= self@.take(i as int));
            }
            t = t + self.v[i];
            i = i + 1;
        }
        proof { assert(self@.take(i as int) =~= self@); }
        t
    }
}

/// Prefix sums.
#[verifier::opaque]
spec fn psum(s: Seq<usize>, i: int) -> nat {
    sum(s.take(i))
}

proof fn lemma_sum_take(s: Seq<usize>, k: int)
    requires 0 <= k <= s.len()
    ensures sum(s.take(k)) <= sum(s)
    decreases s.len()
{
    if k == s.len() {
        assert(s.take(k) =~= s);
    } else {
        lemma_sum_take(s.drop_last(), k);
        assert(s.drop_last().take(k) =~= s.take(k));
    }
}

// ---------------------------------------------------------------- the code under contract
//@src src/treevec.rs
//@item enum Node
//@item enum InsertResult
//@item enum RemoveResult
//@item enum MergeResult
//@item struct TreeVec

// ---------------------------------------------------------------- the abstraction
type Kids<T, const B: usize> = Seq<Box<Node<T, B>>>;

impl<T, const B: usize> Node<T, B> {
    /// Height of the tree (leaves have height 0).
    spec fn height(&self) -> nat
        decreases self
    {
        match self {
            Node::Leaf { data } => 0,
            Node::Internal { size, children } =>
                if children@.len() > 0 { 1 + children@[0].height() } else { 1 },
        }
    }

    /// The sequence represented by a tree of height h.
    spec fn vh(&self, h: nat) -> Seq<T>
        decreases h, 0nat
    {
        match self {
            Node::Leaf { data } => data@,
            Node::Internal { size, children } =>
                if h == 0 { Seq::empty() } else { flat(children@, (h - 1) as nat) },
        }
    }

    spec fn kids(&self) -> Kids<T, B> {
        match self { Node::Leaf { data } => Seq::empty(), Node::Internal { size, children } => children@ }
    }

    spec fn sizes(&self) -> Seq<usize> {
        match self { Node::Leaf { data } => Seq::empty(), Node::Internal { size, children } => size@ }
    }

    /// The number of entries in the root node.
    spec fn count(&self) -> nat {
        match self {
            Node::Leaf { data } => data@.len(),
            Node::Internal { size, children } => children@.len(),
        }
    }

    /// Representation invariant of a tree of height h, except for the lower bound on the number of
    /// entries in the root.
    spec fn wf(&self, h: nat) -> bool
        decreases h, 0nat
    {
        &&& self.vh(h).len() <= usize::MAX
        &&& match self {
            Node::Leaf { data } => h == 0 && data@.len() <= B,
            Node::Internal { size, children } => {
                &&& h > 0
                &&& size@.len() == children@.len()
                &&& 1 <= children@.len() <= B
                &&& h > 0 && kids_wf(children@, size@, (h - 1) as nat)
            }
        }
    }
}

spec fn flat<T, const B: usize>(s: Kids<T, B>, h: nat) -> Seq<T>
    decreases h, 1nat, s.len()
{
    if s.len() == 0 { Seq::empty() } else { flat(s.drop_last(), h) + s.last().vh(h) }
}

/// Each child is a well-formed tree of height h with at least B/2 entries in its root, and its size
/// is recorded correctly.
spec fn kids_wf<T, const B: usize>(s: Kids<T, B>, size: Seq<usize>, h: nat) -> bool
    decreases h, 1nat
{
    &&& s.len() == size.len()
    &&& forall|i: int| #![trigger s[i]] #![trigger size[i]] 0 <= i < s.len() ==>
            s[i].wf(h) && s[i].count() >= B / 2 && size[i] as nat == s[i].vh(h).len()
}

// ---------------------------------------------------------------- lemmas
proof fn lemma_flat_add<T, const B: usize>(a: Kids<T, B>, b: Kids<T, B>, h: nat)
    ensures flat(a + b, h) == flat(a, h) + flat(b, h)
    decreases b.len()
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(flat(a, h) + flat(b, h) =~= flat(a, h));
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_flat_add(a, b.drop_last(), h);
        assert(flat(a + b, h) =~= flat(a, h) + flat(b, h));
    }
}

proof fn lemma_flat_one<T, const B: usize>(c: Box<Node<T, B>>, h: nat)
    ensures flat(seq![c], h) == c.vh(h)
{
    assert(seq![c].drop_last() =~= Seq::<Box<Node<T, B>>>::empty());
    reveal_with_fuel(flat, 2);
    assert(flat(seq![c].drop_last(), h) =~= Seq::<T>::empty());
    assert(flat(seq![c], h) =~= c.vh(h));
}

/// Split around child i.
proof fn lemma_flat_split<T, const B: usize>(s: Kids<T, B>, i: int, h: nat)
    requires 0 <= i < s.len()
    ensures flat(s, h) == flat(s.take(i), h) + s[i].vh(h) + flat(s.skip(i + 1), h)
{
    assert(s =~= s.take(i) + (seq![s[i]] + s.skip(i + 1)));
    lemma_flat_add(s.take(i), seq![s[i]] + s.skip(i + 1), h);
    lemma_flat_add(seq![s[i]], s.skip(i + 1), h);
    lemma_flat_one(s[i], h);
    assert(flat(s, h) =~= flat(s.take(i), h) + s[i].vh(h) + flat(s.skip(i + 1), h));
}

/// The recorded sizes add up to the length of the represented sequence.
proof fn lemma_sizes<T, const B: usize>(s: Kids<T, B>, size: Seq<usize>, h: nat)
    requires kids_wf(s, size, h)
    ensures sum(size) == flat(s, h).len()
    decreases s.len()
{
    if s.len() > 0 {
        assert(size[s.len() - 1] as nat == s[s.len() - 1].vh(h).len());
        assert(kids_wf(s.drop_last(), size.drop_last(), h)) by {
            assert forall|i: int| 0 <= i < s.len() - 1 implies
                (#[trigger] s.drop_last()[i]).wf(h) && s.drop_last()[i].count() >= B / 2
                && size.drop_last()[i] as nat == s.drop_last()[i].vh(h).len() by {
                    assert(s[i].wf(h));
            }
        }
        lemma_sizes(s.drop_last(), size.drop_last(), h);
    }
}

proof fn lemma_take_wf<T, const B: usize>(s: Kids<T, B>, size: Seq<usize>, i: int, h: nat)
    requires kids_wf(s, size, h), 0 <= i <= s.len()
    ensures kids_wf(s.take(i), size.take(i), h), kids_wf(s.skip(i), size.skip(i), h),
        sum(size.take(i)) == flat(s.take(i), h).len(),
        flat(s, h) == flat(s.take(i), h) + flat(s.skip(i), h),
{
    assert forall|k: int| 0 <= k < i implies
        (#[trigger] s.take(i)[k]).wf(h) && s.take(i)[k].count() >= B / 2
        && size.take(i)[k] as nat == s.take(i)[k].vh(h).len() by { assert(s[k].wf(h)); }
    assert forall|k: int| 0 <= k < s.len() - i implies
        (#[trigger] s.skip(i)[k]).wf(h) && s.skip(i)[k].count() >= B / 2
        && size.skip(i)[k] as nat == s.skip(i)[k].vh(h).len() by { assert(s[k + i].wf(h)); }
    lemma_sizes(s.take(i), size.take(i), h);
    assert(s =~= s.take(i) + s.skip(i));
    lemma_flat_add(s.take(i), s.skip(i), h);
}

proof fn lemma_sum_mono(s: Seq<usize>, i: int, j: int)
    requires 0 <= i <= j <= s.len()
    ensures sum(s.take(i)) <= sum(s.take(j)), j < s.len() ==> sum(s.take(j + 1)) == sum(s.take(j)) + s[j]
{
    lemma_sum_take(s.take(j), i);
    assert(s.take(j).take(i) =~= s.take(i));
    if j < s.len() {
        assert(s.take(j + 1).drop_last() =~= s.take(j));
    }
}

proof fn lemma_psum0(s: Seq<usize>)
    ensures psum(s, 0) == 0
{
    reveal(psum);
    assert(s.take(0) =~= Seq::<usize>::empty());
}

proof fn lemma_height<T, const B: usize>(n: Node<T, B>, h: nat)
    requires n.wf(h)
    ensures n.height() == h
    decreases h
{
    match n {
        Node::Leaf { data } => {}
        Node::Internal { size, children } => {
            assert(children@[0].wf((h - 1) as nat));
            lemma_height(*children@[0], (h - 1) as nat);
        }
    }
}

/// The definitions of wf and vh (for use where they are hidden).
proof fn lemma_nodes<T, const B: usize>(h: nat)
    ensures
        forall|n: Node<T, B>| #[trigger] n.wf(h) <==> match n {
            Node::Leaf { data } => h == 0 && data@.len() <= B,
            Node::Internal { size, children } => {
                &&& h > 0
                &&& size@.len() == children@.len()
                &&& 1 <= children@.len() <= B
                &&& kids_wf(children@, size@, (h - 1) as nat)
                &&& flat(children@, (h - 1) as nat).len() <= usize::MAX
            }
        },
        forall|n: Node<T, B>| #[trigger] n.vh(h) == match n {
            Node::Leaf { data } => data@,
            Node::Internal { size, children } => if h == 0 { Seq::empty() } else { flat(children@, (h - 1) as nat) },
        },
{
}

/// What a position returned by child_idx means for the represented sequence.
proof fn lemma_locate<T, const B: usize>(s: Kids<T, B>, size: Seq<usize>, i: int, o: int, h: nat)
    requires kids_wf(s, size, h), 0 <= i < s.len(), 0 <= o < size[i]
    ensures
        psum(size, i) + o < flat(s, h).len(),
        flat(s, h)[psum(size, i) + o] == s[i].vh(h)[o],
        s[i].height() == h,
        s[i].wf(h),
{
    reveal(psum);
    lemma_take_wf(s, size, i, h);
    lemma_flat_split(s, i, h);
    assert(s[i].wf(h));
    lemma_height(*s[i], h);
}

/// All of the above at once, for every child and every offset into it.
proof fn lemma_locate_all<T, const B: usize>(s: Kids<T, B>, size: Seq<usize>, h: nat)
    requires kids_wf(s, size, h)
    ensures
        sum(size) == flat(s, h).len(),
        forall|i: int, o: int| #![trigger s[i].vh(h)[o]] 0 <= i < s.len() && 0 <= o < size[i] ==>
            flat(s, h)[psum(size, i) + o] == s[i].vh(h)[o],
        forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==>
            s[i].height() == h && s[i].wf(h) && psum(size, i) + size[i] <= sum(size)
            && s[i].count() >= B / 2 && size[i] == s[i].vh(h).len(),
{
    reveal(psum);
    lemma_sizes(s, size, h);
    assert forall|i: int, o: int| #![trigger s[i].vh(h)[o]] 0 <= i < s.len() && 0 <= o < size[i] implies
            flat(s, h)[psum(size, i) + o] == s[i].vh(h)[o] by { lemma_locate(s, size, i, o, h); }
    assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies
            s[i].height() == h && s[i].wf(h) && psum(size, i) + size[i] <= sum(size) by {
        assert(s[i].wf(h));
        lemma_height(*s[i], h);
        lemma_sum_mono(size, i, i);
        lemma_sum_take(size, i + 1);
    }
}

/// Replacing one child.
proof fn lemma_update<T, const B: usize>(s: Kids<T, B>, size: Seq<usize>, i: int, c: Box<Node<T, B>>, h: nat)
    requires kids_wf(s, size, h), 0 <= i < s.len()
    ensures
        flat(s.update(i, c), h) == flat(s, h).take(psum(size, i) as int) + c.vh(h)
            + flat(s, h).skip(psum(size, i) + size[i]),
        psum(size, i) + size[i] <= flat(s, h).len(),
        sum(size.update(i, c.vh(h).len() as usize)) == sum(size) - size[i] + (c.vh(h).len() as usize),
        forall|n: usize| c.wf(h) && c.count() >= B / 2 && n == c.vh(h).len() ==>
            #[trigger] kids_wf(s.update(i, c), size.update(i, n), h),
{
    reveal(psum);
    lemma_take_wf(s, size, i, h);
    lemma_flat_split(s, i, h);
    assert(s[i].wf(h));
    let t = s.update(i, c);
    lemma_flat_split(t, i, h);
    assert(t.take(i) =~= s.take(i));
    assert(t.skip(i + 1) =~= s.skip(i + 1));
    assert(flat(s, h).take(psum(size, i) as int) =~= flat(s.take(i), h));
    assert(flat(s, h).skip(psum(size, i) + size[i]) =~= flat(s.skip(i + 1), h));
    lemma_sum_update(size, i, c.vh(h).len() as usize);
    assert forall|n: usize| c.wf(h) && c.count() >= B / 2 && n == c.vh(h).len() implies
            #[trigger] kids_wf(s.update(i, c), size.update(i, n), h) by {
        assert forall|k: int| 0 <= k < t.len() implies
            (#[trigger] t[k]).wf(h) && t[k].count() >= B / 2 && size.update(i, n)[k] as nat == t[k].vh(h).len() by {
            if k != i { assert(s[k].wf(h)); }
        }
    }
}

proof fn lemma_sum_update(s: Seq<usize>, i: int, x: usize)
    requires 0 <= i < s.len()
    ensures sum(s.update(i, x)) == sum(s) - s[i] + x
    decreases s.len()
{
    if i == s.len() - 1 {
        assert(s.update(i, x).drop_last() =~= s.drop_last());
    } else {
        lemma_sum_update(s.drop_last(), i, x);
        assert(s.update(i, x).drop_last() =~= s.drop_last().update(i, x));
    }
}

/// Changing one element of one child.
proof fn lemma_update_elem_all<T, const B: usize>(s: Kids<T, B>, size: Seq<usize>, h: nat)
    requires kids_wf(s, size, h)
    ensures
        forall|i: int, c: Box<Node<T, B>>, o: int, x: T|
            #![trigger s.update(i, c), s[i].vh(h).update(o, x)]
            0 <= i < s.len() && 0 <= o < size[i] && c.vh(h) == s[i].vh(h).update(o, x) ==>
                flat(s.update(i, c), h) == flat(s, h).update(psum(size, i) + o, x),
        forall|i: int, c: Box<Node<T, B>>| #![trigger s.update(i, c)]
            0 <= i < s.len() && c.wf(h) && c.count() >= B / 2 && c.vh(h).len() == size[i] ==>
                kids_wf(s.update(i, c), size, h) && flat(s.update(i, c), h).len() == flat(s, h).len(),
{
    reveal(psum);
    assert forall|i: int, c: Box<Node<T, B>>, o: int, x: T|
            #![trigger s.update(i, c), s[i].vh(h).update(o, x)]
            0 <= i < s.len() && 0 <= o < size[i] && c.vh(h) == s[i].vh(h).update(o, x) implies
                flat(s.update(i, c), h) == flat(s, h).update(psum(size, i) + o, x) by {
        lemma_update(s, size, i, c, h);
        lemma_locate(s, size, i, o, h);
        lemma_take_wf(s, size, i, h);
        lemma_flat_split(s, i, h);
        assert(s[i].wf(h));
        assert(flat(s.update(i, c), h) =~= flat(s, h).update(psum(size, i) + o, x));
    }
    assert forall|i: int, c: Box<Node<T, B>>| #![trigger s.update(i, c)]
            0 <= i < s.len() && c.wf(h) && c.count() >= B / 2 && c.vh(h).len() == size[i] implies
                kids_wf(s.update(i, c), size, h) && flat(s.update(i, c), h).len() == flat(s, h).len() by {
        lemma_update(s, size, i, c, h);
        assert(size.update(i, size[i]) =~= size);
        assert(kids_wf(s.update(i, c), size.update(i, size[i]), h));
    }
}

proof fn lemma_nonempty<T, const B: usize>(n: Node<T, B>, h: nat)
    requires n.wf(h), n.count() >= 1, B >= 2
    ensures n.vh(h).len() >= 1
    decreases h
{
    match n {
        Node::Leaf { data } => {}
        Node::Internal { size, children } => {
            assert(children@[0].wf((h - 1) as nat));
            lemma_nonempty(*children@[0], (h - 1) as nat);
            lemma_flat_split(children@, 0, (h - 1) as nat);
        }
    }
}

proof fn lemma_kids_cat<T, const B: usize>(a: Kids<T, B>, sa: Seq<usize>, b: Kids<T, B>, sb: Seq<usize>, h: nat)
    requires kids_wf(a, sa, h), kids_wf(b, sb, h)
    ensures kids_wf(a + b, sa + sb, h), flat(a + b, h) == flat(a, h) + flat(b, h)
{
    lemma_flat_add(a, b, h);
    assert forall|k: int| 0 <= k < (a + b).len() implies
        (#[trigger] (a + b)[k]).wf(h) && (a + b)[k].count() >= B / 2 && (sa + sb)[k] as nat == (a + b)[k].vh(h).len() by {
        if k < a.len() { assert(a[k].wf(h)); } else { assert(b[k - a.len()].wf(h)); }
    }
}

/// Moving children between siblings.
proof fn lemma_merge<T, const B: usize>(a: Kids<T, B>, sa: Seq<usize>, b: Kids<T, B>, sb: Seq<usize>, h: nat)
    requires kids_wf(a, sa, h), kids_wf(b, sb, h)
    ensures
        kids_wf(a + b, sa + sb, h), flat(a + b, h) == flat(a, h) + flat(b, h),
        forall|k: int| #![trigger b.subrange(0, k)] #![trigger b.subrange(k, b.len() as int)] 0 <= k <= b.len() ==>
            kids_wf(a + b.subrange(0, k), sa + sb.subrange(0, k), h)
            && kids_wf(b.subrange(k, b.len() as int), sb.subrange(k, b.len() as int), h)
            && flat(a + b.subrange(0, k), h) + flat(b.subrange(k, b.len() as int), h) == flat(a, h) + flat(b, h),
        a.len() > 0 ==> kids_wf(a.drop_last(), sa.drop_last(), h)
            && kids_wf(b.insert(0, a.last()), sb.insert(0, sa.last()), h)
            && flat(a.drop_last(), h) + flat(b.insert(0, a.last()), h) == flat(a, h) + flat(b, h),
{
    lemma_kids_cat(a, sa, b, sb, h);
    assert forall|k: int| #![trigger b.subrange(0, k)] 0 <= k <= b.len() implies
            kids_wf(a + b.subrange(0, k), sa + sb.subrange(0, k), h)
            && kids_wf(b.subrange(k, b.len() as int), sb.subrange(k, b.len() as int), h)
            && flat(a + b.subrange(0, k), h) + flat(b.subrange(k, b.len() as int), h) == flat(a, h) + flat(b, h) by {
        lemma_take_wf(b, sb, k, h);
        assert(b.take(k) =~= b.subrange(0, k));
        assert(b.skip(k) =~= b.subrange(k, b.len() as int));
        assert(sb.take(k) =~= sb.subrange(0, k));
        assert(sb.skip(k) =~= sb.subrange(k, b.len() as int));
        lemma_kids_cat(a, sa, b.take(k), sb.take(k), h);
        assert(flat(a + b.subrange(0, k), h) + flat(b.subrange(k, b.len() as int), h) =~= flat(a, h) + flat(b, h));
    }
    if a.len() > 0 {
        let l = a.len() - 1;
        lemma_take_wf(a, sa, l, h);
        assert(a.take(l) =~= a.drop_last());
        assert(sa.take(l) =~= sa.drop_last());
        assert(a.skip(l) =~= seq![a.last()]);
        assert(sa.skip(l) =~= seq![sa.last()]);
        lemma_kids_cat(a.skip(l), sa.skip(l), b, sb, h);
        assert(b.insert(0, a.last()) =~= a.skip(l) + b);
        assert(sb.insert(0, sa.last()) =~= sa.skip(l) + sb);
        assert(flat(a.drop_last(), h) + flat(b.insert(0, a.last()), h) =~= flat(a, h) + flat(b, h));
    }
}

proof fn lemma_flat_len<T, const B: usize>(a: Kids<T, B>, b: Kids<T, B>, h: nat)
    ensures flat(a + b, h).len() == flat(a, h).len() + flat(b, h).len()
{
    lemma_flat_add(a, b, h);
}

proof fn lemma_heights<T, const B: usize>(h: nat)
    ensures forall|n: Node<T, B>| #[trigger] n.wf(h) ==> n.height() == h
{
    assert forall|n: Node<T, B>| #[trigger] n.wf(h) implies n.height() == h by { lemma_height(n, h); }
}

proof fn lemma_merge_nodes<T, const B: usize>(x: Node<T, B>, y: Node<T, B>, h: nat)
    requires x.wf(h), y.wf(h)
    ensures
        x.height() == h, y.height() == h, x is Leaf <==> y is Leaf,
        x is Internal ==> {
            let a = x->children@; let b = y->children@; let sa = x->size@; let sb = y->size@; let g = (h - 1) as nat;
            &&& kids_wf(a + b, sa + sb, g)
            &&& flat(a + b, g) == flat(a, g) + flat(b, g)
            &&& flat(a + b, g).len() == flat(a, g).len() + flat(b, g).len()
        },
        x is Internal ==> {
            let a = x->children@; let b = y->children@; let sa = x->size@; let sb = y->size@; let g = (h - 1) as nat;
            forall|k: int| #![trigger b.subrange(0, k)] #![trigger b.subrange(k, b.len() as int)] 0 <= k <= b.len() ==>
                kids_wf(a + b.subrange(0, k), sa + sb.subrange(0, k), g)
                && kids_wf(b.subrange(k, b.len() as int), sb.subrange(k, b.len() as int), g)
                && flat(a + b.subrange(0, k), g) + flat(b.subrange(k, b.len() as int), g) == flat(a, g) + flat(b, g)
                && flat(a + b.subrange(0, k), g).len() + flat(b.subrange(k, b.len() as int), g).len() == flat(a, g).len() + flat(b, g).len()
        },
        x is Internal ==> {
            let a = x->children@; let b = y->children@; let sa = x->size@; let sb = y->size@; let g = (h - 1) as nat;
            kids_wf(a.drop_last(), sa.drop_last(), g)
            && kids_wf(b.insert(0, a.last()), sb.insert(0, sa.last()), g)
            && flat(a.drop_last(), g) + flat(b.insert(0, a.last()), g) == flat(a, g) + flat(b, g)
            && flat(a.drop_last(), g).len() + flat(b.insert(0, a.last()), g).len() == flat(a, g).len() + flat(b, g).len()
        },
{
    lemma_height(x, h);
    lemma_height(y, h);
    if x is Internal {
        let a = x->children@; let b = y->children@; let g = (h - 1) as nat;
        lemma_merge(a, x->size@, b, y->size@, g);
        lemma_flat_len(a, b, g);
        assert forall|k: int| #![trigger b.subrange(0, k)] #![trigger b.subrange(k, b.len() as int)] 0 <= k <= b.len() implies
            flat(a + b.subrange(0, k), g).len() + flat(b.subrange(k, b.len() as int), g).len() == flat(a, g).len() + flat(b, g).len() by {
            assert((flat(a + b.subrange(0, k), g) + flat(b.subrange(k, b.len() as int), g)).len() == (flat(a, g) + flat(b, g)).len());
        }
        if a.len() > 0 {
            assert((flat(a.drop_last(), g) + flat(b.insert(0, a.last()), g)).len() == (flat(a, g) + flat(b, g)).len());
        }
    }
    match x {
        Node::Internal { size: sa, children: a } => {
            match y { Node::Internal { size: sb, children: b } => { lemma_merge(a@, sa@, b@, sb@, (h - 1) as nat); } _ => {} }
        }
        _ => {}
    }
}

proof fn lemma_kid<T, const B: usize>(s: Kids<T, B>, size: Seq<usize>, i: int, h: nat)
    requires kids_wf(s, size, h), 0 <= i < s.len()
    ensures s[i].wf(h), s[i].count() >= B / 2, size[i] == s[i].vh(h).len(), size.len() == s.len()
{
    assert(s[i].wf(h));
}

proof fn lemma_len<T, const B: usize>(s: Kids<T, B>, size: Seq<usize>, h: nat)
    requires kids_wf(s, size, h)
    ensures size.len() == s.len()
{}

proof fn lemma_leaf_split<T>(s: Seq<T>, k: int, o: int, e: T)
    requires 0 <= k <= s.len(), 0 <= o <= s.len()
    ensures
        s.subrange(0, k).len() == k,
        s.subrange(k, s.len() as int).len() == s.len() - k,
        o <= k ==> s.subrange(0, k).insert(o, e) + s.subrange(k, s.len() as int) == s.insert(o, e),
        o > k ==> s.subrange(0, k) + s.subrange(k, s.len() as int).insert(o - k, e) == s.insert(o, e),
{
    if o <= k {
        assert(s.subrange(0, k).insert(o, e) + s.subrange(k, s.len() as int) =~= s.insert(o, e));
    } else {
        assert(s.subrange(0, k) + s.subrange(k, s.len() as int).insert(o - k, e) =~= s.insert(o, e));
    }
}

/// Replacing entries [l, l+2) by the entries r.
proof fn lemma_splice<T, const B: usize>(s: Kids<T, B>, size: Seq<usize>, l: int, n: int, r: Kids<T, B>, zr: Seq<usize>, h: nat)
    requires kids_wf(s, size, h), 0 <= l <= l + n <= s.len(), kids_wf(r, zr, h)
    ensures
        kids_wf(s.take(l) + r + s.skip(l + n), size.take(l) + zr + size.skip(l + n), h),
        flat(s.take(l) + r + s.skip(l + n), h) == flat(s.take(l), h) + flat(r, h) + flat(s.skip(l + n), h),
        flat(s, h) == flat(s.take(l), h) + flat(s.subrange(l, l + n), h) + flat(s.skip(l + n), h),
        psum(size, l) == flat(s.take(l), h).len(),
        kids_wf(s.subrange(l, l + n), size.subrange(l, l + n), h),
{
    hide(flat); hide(kids_wf); hide(Node::vh); hide(Node::wf);
    reveal(psum);
    lemma_len(s, size, h);
    lemma_take_wf(s, size, l, h);
    lemma_take_wf(s, size, l + n, h);
    lemma_kids_cat(s.take(l), size.take(l), r, zr, h);
    lemma_kids_cat(s.take(l) + r, size.take(l) + zr, s.skip(l + n), size.skip(l + n), h);
    lemma_take_wf(s.take(l + n), size.take(l + n), l, h);
    assert(s.take(l + n).take(l) =~= s.take(l));
    assert(size.take(l + n).take(l) =~= size.take(l));
    assert(s.take(l + n).skip(l) =~= s.subrange(l, l + n));
    assert(size.take(l + n).skip(l) =~= size.subrange(l, l + n));
}

proof fn lemma_kids_one<T, const B: usize>(c: Box<Node<T, B>>, n: usize, h: nat)
    requires c.wf(h), c.count() >= B / 2, n == c.vh(h).len()
    ensures kids_wf(seq![c], seq![n], h), flat(seq![c], h) == c.vh(h)
{
    lemma_flat_one(c, h);
    assert forall|k: int| 0 <= k < 1 implies (#[trigger] seq![c][k]).wf(h) && seq![c][k].count() >= B / 2
        && seq![n][k] as nat == seq![c][k].vh(h).len() by {}
}

proof fn lemma_kids_two<T, const B: usize>(c: Box<Node<T, B>>, n: usize, d: Box<Node<T, B>>, m: usize, h: nat)
    requires c.wf(h), c.count() >= B / 2, n == c.vh(h).len(), d.wf(h), d.count() >= B / 2, m == d.vh(h).len()
    ensures kids_wf(seq![c, d], seq![n, m], h), flat(seq![c, d], h) == c.vh(h) + d.vh(h)
{
    hide(flat); hide(kids_wf); hide(Node::vh); hide(Node::wf);
    lemma_kids_one(c, n, h);
    lemma_kids_one(d, m, h);
    lemma_kids_cat(seq![c], seq![n], seq![d], seq![m], h);
    assert(seq![c] + seq![d] =~= seq![c, d]);
    assert(seq![n] + seq![m] =~= seq![n, m]);
}

/// Child i grew by one element.
proof fn lemma_grow<T, const B: usize>(s: Kids<T, B>, size: Seq<usize>, i: int, o: int, e: T, h: nat,
    c: Box<Node<T, B>>, nc: usize)
    requires kids_wf(s, size, h), 0 <= i < s.len(), 0 <= o <= size[i],
        c.wf(h), c.count() >= B / 2, nc == c.vh(h).len(), c.vh(h) == s[i].vh(h).insert(o, e),
    ensures
        kids_wf(s.update(i, c), size.update(i, nc), h),
        flat(s.update(i, c), h) == flat(s, h).insert(psum(size, i) + o, e),
        flat(s.update(i, c), h).len() == flat(s, h).len() + 1,
{
    hide(flat); hide(kids_wf); hide(Node::vh); hide(Node::wf);
    lemma_kid(s, size, i, h);
    reveal(psum);
    lemma_kids_one(c, nc, h);
    lemma_splice(s, size, i, 1, seq![c], seq![nc], h);
    assert(s.update(i, c) =~= s.take(i) + seq![c] + s.skip(i + 1));
    assert(size.update(i, nc) =~= size.take(i) + seq![nc] + size.skip(i + 1));
    lemma_flat_one(s[i], h);
    assert(s.subrange(i, i + 1) =~= seq![s[i]]);
    lemma_kid(s, size, i, h);
    assert(flat(s.update(i, c), h) =~= flat(s, h).insert(psum(size, i) + o, e));
}

/// Child i was split into c and d while inserting an element; the children are now t1 followed by t2.
proof fn lemma_split<T, const B: usize>(s: Kids<T, B>, size: Seq<usize>, i: int, o: int, e: T, h: nat,
    c: Box<Node<T, B>>, nc: usize, d: Box<Node<T, B>>, nd: usize,
    t1: Kids<T, B>, z1: Seq<usize>, t2: Kids<T, B>, z2: Seq<usize>)
    requires kids_wf(s, size, h), 0 <= i < s.len(), 0 <= o <= size[i],
        c.wf(h), c.count() >= B / 2, nc == c.vh(h).len(),
        d.wf(h), d.count() >= B / 2, nd == d.vh(h).len(),
        c.vh(h) + d.vh(h) == s[i].vh(h).insert(o, e),
        t1 + t2 == s.update(i, c).insert(i + 1, d),
        z1 + z2 == size.update(i, nc).insert(i + 1, nd),
        t1.len() == z1.len(),
    ensures
        kids_wf(t1, z1, h), kids_wf(t2, z2, h),
        flat(t1, h) + flat(t2, h) == flat(s, h).insert(psum(size, i) + o, e),
        flat(t1, h).len() + flat(t2, h).len() == flat(s, h).len() + 1,
        t2.len() == 0 ==> flat(t1, h) == flat(s, h).insert(psum(size, i) + o, e),
{
    hide(flat); hide(kids_wf); hide(Node::vh); hide(Node::wf);
    lemma_kid(s, size, i, h);
    reveal(psum);
    lemma_kids_two(c, nc, d, nd, h);
    lemma_splice(s, size, i, 1, seq![c, d], seq![nc, nd], h);
    assert(t1 + t2 =~= s.take(i) + seq![c, d] + s.skip(i + 1));
    assert(z1 + z2 =~= size.take(i) + seq![nc, nd] + size.skip(i + 1));
    lemma_flat_one(s[i], h);
    assert(s.subrange(i, i + 1) =~= seq![s[i]]);
    lemma_kid(s, size, i, h);
    assert(flat(t1 + t2, h) =~= flat(s, h).insert(psum(size, i) + o, e));
    lemma_take_wf(t1 + t2, z1 + z2, t1.len() as int, h);
    assert((t1 + t2).take(t1.len() as int) =~= t1);
    assert((z1 + z2).take(t1.len() as int) =~= z1);
    assert((t1 + t2).skip(t1.len() as int) =~= t2);
    assert((z1 + z2).skip(t1.len() as int) =~= z2);
    lemma_flat_add(t1, t2, h);
    if t2.len() == 0 { assert(t1 + t2 =~= t1); }
}

/// An element was removed from child i (which has its old number of entries or is allowed to lose one).
proof fn lemma_shrink<T, const B: usize>(s: Kids<T, B>, size: Seq<usize>, i: int, o: int, h: nat,
    c: Box<Node<T, B>>, nc: usize)
    requires kids_wf(s, size, h), 0 <= i < s.len(), 0 <= o < size[i],
        c.wf(h), c.count() >= B / 2, nc == c.vh(h).len(), c.vh(h) == s[i].vh(h).remove(o),
    ensures
        kids_wf(s.update(i, c), size.update(i, nc), h),
        flat(s.update(i, c), h) == flat(s, h).remove(psum(size, i) + o),
        flat(s.update(i, c), h).len() == flat(s, h).len() - 1,
{
    hide(flat); hide(kids_wf); hide(Node::vh); hide(Node::wf);
    lemma_kid(s, size, i, h);
    reveal(psum);
    lemma_kids_one(c, nc, h);
    lemma_splice(s, size, i, 1, seq![c], seq![nc], h);
    assert(s.update(i, c) =~= s.take(i) + seq![c] + s.skip(i + 1));
    assert(size.update(i, nc) =~= size.take(i) + seq![nc] + size.skip(i + 1));
    lemma_flat_one(s[i], h);
    assert(s.subrange(i, i + 1) =~= seq![s[i]]);
    lemma_kid(s, size, i, h);
    assert(flat(s.update(i, c), h) =~= flat(s, h).remove(psum(size, i) + o));
    lemma_locate(s, size, i, o, h);
}

/// An element was removed from child i, and then children l and l+1 (one of them is i) were merged into m.
proof fn lemma_absorb<T, const B: usize>(s: Kids<T, B>, size: Seq<usize>, i: int, o: int, h: nat, l: int,
    c: Seq<T>, m: Box<Node<T, B>>, nm: usize, t: Kids<T, B>, z: Seq<usize>)
    requires kids_wf(s, size, h), 0 <= i < s.len(), 0 <= o < size[i],
        0 <= l < s.len() - 1, i == l || i == l + 1,
        c == s[i].vh(h).remove(o),
        m.wf(h), m.count() >= B / 2, nm == m.vh(h).len(),
        i == l ==> m.vh(h) == c + s[l + 1].vh(h),
        i == l + 1 ==> m.vh(h) == s[l].vh(h) + c,
        t == s.take(l) + seq![m] + s.skip(l + 2),
        z == size.take(l) + seq![nm] + size.skip(l + 2),
    ensures
        kids_wf(t, z, h),
        flat(t, h) == flat(s, h).remove(psum(size, i) + o),
        flat(t, h).len() == flat(s, h).len() - 1,
{
    hide(flat); hide(kids_wf); hide(Node::vh); hide(Node::wf);
    lemma_kid(s, size, i, h);
    reveal(psum);
    lemma_kids_one(m, nm, h);
    lemma_splice(s, size, l, 2, seq![m], seq![nm], h);
    lemma_pair(s, size, i, o, h, l);
    assert(flat(t, h) =~= flat(s, h).remove(psum(size, i) + o));
    lemma_locate(s, size, i, o, h);
}

proof fn lemma_pair<T, const B: usize>(s: Kids<T, B>, size: Seq<usize>, i: int, o: int, h: nat, l: int)
    requires kids_wf(s, size, h), 0 <= i < s.len(), 0 <= o < size[i], 0 <= l < s.len() - 1, i == l || i == l + 1,
    ensures
        flat(s.subrange(l, l + 2), h) == s[l].vh(h) + s[l + 1].vh(h),
        psum(size, i) == psum(size, l) + (if i == l { 0 } else { size[l] as int }),
        size[l] == s[l].vh(h).len(), size[l + 1] == s[l + 1].vh(h).len(),
        size[l] + size[l + 1] <= flat(s, h).len(),
        s[l].wf(h), s[l + 1].wf(h),
{
    hide(flat); hide(kids_wf); hide(Node::vh); hide(Node::wf);
    lemma_kid(s, size, i, h);
    reveal(psum);
    lemma_kid(s, size, l, h);
    lemma_kid(s, size, l + 1, h);
    assert(s.subrange(l, l + 2) =~= seq![s[l]] + seq![s[l + 1]]);
    lemma_flat_add(seq![s[l]], seq![s[l + 1]], h);
    lemma_flat_one(s[l], h);
    lemma_flat_one(s[l + 1], h);
    lemma_sum_mono(size, l, l);
    lemma_sum_mono(size, l + 1, l + 1);
    lemma_sum_take(size, l + 2);
    lemma_sizes(s, size, h);
}

proof fn lemma_rebalance<T, const B: usize>(s: Kids<T, B>, size: Seq<usize>, i: int, o: int, h: nat, l: int,
    c: Seq<T>, m1: Box<Node<T, B>>, n1: usize, m2: Box<Node<T, B>>, n2: usize, t: Kids<T, B>, z: Seq<usize>)
    requires kids_wf(s, size, h), 0 <= i < s.len(), 0 <= o < size[i],
        0 <= l < s.len() - 1, i == l || i == l + 1,
        c == s[i].vh(h).remove(o),
        m1.wf(h), m1.count() >= B / 2, n1 == m1.vh(h).len(),
        m2.wf(h), m2.count() >= B / 2, n2 == m2.vh(h).len(),
        i == l ==> m1.vh(h) + m2.vh(h) == c + s[l + 1].vh(h),
        i == l + 1 ==> m1.vh(h) + m2.vh(h) == s[l].vh(h) + c,
        t == s.take(l) + seq![m1, m2] + s.skip(l + 2),
        z == size.take(l) + seq![n1, n2] + size.skip(l + 2),
    ensures
        kids_wf(t, z, h),
        flat(t, h) == flat(s, h).remove(psum(size, i) + o),
        flat(t, h).len() == flat(s, h).len() - 1,
{
    hide(flat); hide(kids_wf); hide(Node::vh); hide(Node::wf);
    lemma_kid(s, size, i, h);
    reveal(psum);
    lemma_kids_two(m1, n1, m2, n2, h);
    lemma_splice(s, size, l, 2, seq![m1, m2], seq![n1, n2], h);
    lemma_pair(s, size, i, o, h, l);
    assert(flat(t, h) =~= flat(s, h).remove(psum(size, i) + o));
    lemma_locate(s, size, i, o, h);
}

// ---------------------------------------------------------------- functions
//@fn child_idx
//@ret r
    ensures
        r is Some ==> {
            &&& (r->0).0 < sizes@.len()
            &&& (r->0).1 < sizes@[(r->0).0 as int]
            &&& psum(sizes@, (r->0).0 as int) + (r->0).1 == offset_in
        },
        r is None ==> sum(sizes@) <= offset_in,
//@sub mut offset: usize ==> offset_in: usize
//@sub for \(idx, &size\) in sizes\.iter\(\)\.enumerate\(\) ==> for idx in 0..sizes.len()
//@start
    let mut offset = offset_in;
    proof { reveal(psum); assert(sizes@.take(0) =~= Seq::<usize>::empty()); assert(sizes@.take(sizes@.len() as int) =~= sizes@); }
//@loops 1
//@loop 0
    invariant
        offset_in == psum(sizes@, idx as int) + offset,
        sizes@.take(sizes@.len() as int) == sizes@,
//@in 0
    let size = sizes[idx];
    proof { reveal(psum); lemma_sum_mono(sizes@, 0, idx as int); lemma_sum_mono(sizes@, idx as int, idx as int); }
//@end

impl<T, const B: usize> Node<T, B> {

//@fn Node::subtree_size
//@ret r
    requires exists|h: nat| self.wf(h)
    ensures r == self.vh(self.height()).len()
//@sub \.iter\(\)\.copied\(\)\.sum(::<usize>)?\(\) ==> .vx_sum()
//@start
    proof {
        let h = choose|h: nat| self.wf(h);
        lemma_height(*self, h);
        match self {
            Node::Leaf { data } => {}
            Node::Internal { size, children } => { lemma_sizes(children@, size@, (h - 1) as nat); }
        }
    }
//@end

//@fn Node::get
//@ret r
    requires self.wf(self.height())
    ensures
        offset < self.vh(self.height()).len() ==> r == Some(&self.vh(self.height())[offset as int]),
        offset >= self.vh(self.height()).len() ==> r is None,
    decreases self.height()
//@start
    proof {
        match self {
            Node::Leaf { data } => {}
            Node::Internal { size, children } => { lemma_locate_all(children@, size@, (self.height() - 1) as nat); }
        }
    }
//@end

//@fn Node::get_mut
//@ret r
    requires old(self).wf(old(self).height())
    ensures
        offset < old(self).vh(old(self).height()).len() ==> r is Some
            && *r->0 == old(self).vh(old(self).height())[offset as int]
            && final(self).vh(old(self).height()) == old(self).vh(old(self).height()).update(offset as int, *final(r->0)),
        offset >= old(self).vh(old(self).height()).len() ==> r is None && final(self).vh(old(self).height()) == old(self).vh(old(self).height()),
        final(self).wf(old(self).height()),
        final(self).count() == old(self).count(),
    decreases old(self).height()
//@start
    proof {
        match self {
            Node::Leaf { data } => {}
            Node::Internal { size, children } => {
                lemma_locate_all(children@, size@, (self.height() - 1) as nat);
                lemma_update_elem_all(children@, size@, (self.height() - 1) as nat);
            }
        }
    }
//@end

//@fn Node::first
//@ret r
    requires self.wf(self.height()), B >= 4
    ensures
        self.vh(self.height()).len() > 0 ==> r == Some(&self.vh(self.height())[0]),
        self.vh(self.height()).len() == 0 ==> r is None,
    decreases self.height()
//@sub \.and_then\(\|c\| c\.first\(\)\) ==> .and_then(|c: &Box<Node<T, B>>| -> (q: Option<&T>) requires c.wf(c.height()), c.height() < self.height() ensures c.vh(c.height()).len() > 0 ==> q == Some(&c.vh(c.height())[0]), c.vh(c.height()).len() == 0 ==> q is None { c.first() })
//@start
    proof {
        match self {
            Node::Leaf { data } => {}
            Node::Internal { size, children } => {
                lemma_locate_all(children@, size@, (self.height() - 1) as nat);
                lemma_flat_split(children@, 0, (self.height() - 1) as nat);
                lemma_nonempty(*children@[0], (self.height() - 1) as nat);
            }
        }
    }
//@end

//@fn Node::merge_from_right
//@attr #[verifier::spinoff_prover] #[verifier::rlimit(80)]
//@spec
//@ret r
    requires
        4 <= B <= usize::MAX / 2,
        old(self).wf(old(self).height()), old(right_sibling).wf(old(self).height()),
        old(self).count() + 1 == B / 2, old(right_sibling).count() >= B / 2,
        old(self).vh(old(self).height()).len() + old(right_sibling).vh(old(self).height()).len() <= usize::MAX,
    ensures
        final(self).wf(old(self).height()),
        final(self).count() >= B / 2,
        r is Absorbed ==> final(self).vh(old(self).height()) ==
            old(self).vh(old(self).height()) + old(right_sibling).vh(old(self).height()),
        r is Rebalanced ==> final(self).vh(old(self).height()) + final(right_sibling).vh(old(self).height()) ==
            old(self).vh(old(self).height()) + old(right_sibling).vh(old(self).height())
            && final(right_sibling).wf(old(self).height())
            && final(right_sibling).count() >= B / 2,
//@start
    hide(Node::wf); hide(Node::vh); hide(kids_wf); hide(flat);
    proof { lemma_nodes::<T, B>(self.height()); }
    proof { lemma_merge_nodes(*self, *right_sibling, self.height()); }
//@end

//@fn Node::merge_from_left
//@attr #[verifier::spinoff_prover] #[verifier::rlimit(80)]
//@spec
//@ret r
    requires
        4 <= B <= usize::MAX / 2,
        old(self).wf(old(self).height()), old(left_sibling).wf(old(self).height()),
        old(self).count() + 1 == B / 2, old(left_sibling).count() >= B / 2,
        old(self).vh(old(self).height()).len() + old(left_sibling).vh(old(self).height()).len() <= usize::MAX,
    ensures
        final(self).wf(old(self).height()),
        final(self).count() >= B / 2,
        r is Absorbed ==> final(self).vh(old(self).height()) ==
            old(left_sibling).vh(old(self).height()) + old(self).vh(old(self).height()),
        r is Rebalanced ==> final(left_sibling).vh(old(self).height()) + final(self).vh(old(self).height()) ==
            old(left_sibling).vh(old(self).height()) + old(self).vh(old(self).height())
            && final(left_sibling).wf(old(self).height())
            && final(left_sibling).count() >= B / 2,
//@start
    hide(Node::wf); hide(Node::vh); hide(kids_wf); hide(flat);
    proof { lemma_nodes::<T, B>(self.height()); }
    proof { lemma_merge_nodes(*left_sibling, *self, self.height()); }
//@end

//@fn Node::insert
//@attr #[verifier::spinoff_prover] #[verifier::rlimit(80)]
//@spec
//@ret r
    requires
        4 <= B <= usize::MAX / 2,
        old(self).wf(old(self).height()),
        offset <= old(self).vh(old(self).height()).len() < usize::MAX,
    ensures
        final(self).wf(old(self).height()),
        match r {
            InsertResult::Done => {
                &&& final(self).vh(old(self).height()) == old(self).vh(old(self).height()).insert(offset as int, element)
                &&& final(self).count() >= old(self).count()
            }
            InsertResult::Split(node) => {
                &&& node.wf(old(self).height())
                &&& final(self).vh(old(self).height()) + node.vh(old(self).height())
                        == old(self).vh(old(self).height()).insert(offset as int, element)
                &&& final(self).count() >= B / 2
                &&& node.count() >= B / 2
            }
        },
    decreases old(self).height()
//@start
    hide(Node::wf); hide(Node::vh); hide(kids_wf); hide(flat);
    proof { lemma_nodes::<T, B>(self.height()); }
    let ghost h = (self.height() - 1) as nat;
    let ghost offset0 = offset as int;
    let ghost s0 = self.kids();
    let ghost z0 = self.sizes();
    proof { if *self is Internal { lemma_locate_all(s0, z0, h); lemma_psum0(z0); } else if self->data@.len() == B { lemma_leaf_split(self->data@, (B / 2) as int, offset as int, element); } }
//@at [0] match children\[idx\]\.insert
    proof { assert(s0[idx as int].wf(h)); }
//@post [0] size\[idx\] \+= 1;
    proof { lemma_grow(s0, z0, idx as int, offset as int, element, h, children@[idx as int], size@[idx as int]); }
//@post [0] size\[idx\] = children\[idx\]\.subtree_size\(\);
    let ghost c = children@[idx as int];
    let ghost nc = size@[idx as int];
    let ghost nd = node.vh(h).len() as usize;
    proof {
        lemma_height(*c, h); lemma_height(*node, h);
        lemma_len(s0, z0, h);
        if s0.len() == B {
            lemma_leaf_split(s0.update(idx as int, c), (B / 2) as int, idx + 1, node);
            lemma_leaf_split(z0.update(idx as int, nc), (B / 2) as int, idx + 1, nd);
        }
    }
//@at [0] InsertResult::Split\(Box::new\(Node::Internal
    proof {
        assert(children@ + second_half_children@ == s0.update(idx as int, c).insert(idx + 1, node));
        assert(size@ + second_half_size@ == z0.update(idx as int, nc).insert(idx + 1, nd));
        lemma_split(s0, z0, idx as int, offset as int, element, h, c, nc, node, nd, children@, size@, second_half_children@, second_half_size@);
    }
//@at [3] InsertResult::Done
    proof {
        assert(children@ + Seq::<Box<Node<T, B>>>::empty() =~= s0.update(idx as int, c).insert(idx + 1, node));
        assert(size@ + Seq::<usize>::empty() =~= z0.update(idx as int, nc).insert(idx + 1, nd));
        lemma_split(s0, z0, idx as int, offset as int, element, h, c, nc, node, nd, children@, size@, Seq::empty(), Seq::empty());
        assert(flat(children@, h) =~= old(self).vh(old(self).height()).insert(offset0, element));
    }
//@end

//@fn Node::remove
//@attr #[verifier::spinoff_prover] #[verifier::rlimit(80)]
//@spec
//@ret r
    requires
        4 <= B <= usize::MAX / 2,
        old(self).wf(old(self).height()),
        offset < old(self).vh(old(self).height()).len(),
        *old(self) is Internal ==> old(self).count() >= 2,
    ensures
        final(self).wf(old(self).height()),
        match r {
            RemoveResult::Done(x) => {
                &&& x == old(self).vh(old(self).height())[offset as int]
                &&& final(self).vh(old(self).height()) == old(self).vh(old(self).height()).remove(offset as int)
                &&& final(self).count() == old(self).count() || final(self).count() >= B / 2
            }
            RemoveResult::Undersize(x) => {
                &&& x == old(self).vh(old(self).height())[offset as int]
                &&& final(self).vh(old(self).height()) == old(self).vh(old(self).height()).remove(offset as int)
                &&& final(self).count() + 1 == old(self).count()
                &&& final(self).count() < B / 2
            }
        },
    decreases old(self).height()
//@start
    hide(Node::wf); hide(Node::vh); hide(kids_wf); hide(flat);
    proof { lemma_nodes::<T, B>(self.height()); }
    let ghost h = (self.height() - 1) as nat;
    let ghost s0 = self.kids();
    let ghost z0 = self.sizes();
    proof { if *self is Internal { lemma_locate_all(s0, z0, h); lemma_sizes(s0, z0, h); lemma_len(s0, z0, h); } }
//@at [0] size\[idx\] -= 1;
    proof { assert(s0[idx as int].wf(h)); lemma_kid(s0, z0, idx as int, h); lemma_nodes::<T, B>(h); }
    proof { lemma_heights::<T, B>(h); }
    let ghost c0 = s0[idx as int].vh(h).remove(offset as int);
//@sub RemoveResult::Done\(ret\) => RemoveResult::Done\(ret\), ==> RemoveResult::Done(ret) => { proof { lemma_shrink(s0, z0, idx as int, offset as int, h, children@[idx as int], size@[idx as int]); } RemoveResult::Done(ret) }
//@at [0] match cur.merge_from_right
    proof { lemma_kid(s0, z0, idx + 1, h); lemma_pair(s0, z0, idx as int, offset as int, h, idx as int); }
//@at [0] match cur.merge_from_left
    proof { lemma_kid(s0, z0, idx - 1, h); lemma_pair(s0, z0, idx as int, offset as int, h, idx - 1); }
//@at [0] if children.len\(\) < B / 2
    proof {
        let m = children@[idx as int];
        assert(children@ =~= s0.take(idx as int) + seq![m] + s0.skip(idx + 2));
        assert(size@ =~= z0.take(idx as int) + seq![size@[idx as int]] + z0.skip(idx + 2));
        lemma_absorb(s0, z0, idx as int, offset as int, h, idx as int, c0, m, size@[idx as int], children@, size@);
    }
//@at [1] if children.len\(\) < B / 2
    proof {
        let m = children@[idx - 1];
        assert(children@ =~= s0.take(idx - 1) + seq![m] + s0.skip(idx + 1));
        assert(size@ =~= z0.take(idx - 1) + seq![size@[idx - 1]] + z0.skip(idx + 1));
        lemma_absorb(s0, z0, idx as int, offset as int, h, idx - 1, c0, m, size@[idx - 1], children@, size@);
    }
//@post size\[idx \+ 1\] = next\.subtree_size\(\);
    proof {
        assert(children@ =~= s0.take(idx as int) + seq![children@[idx as int], children@[idx + 1]] + s0.skip(idx + 2));
        assert(size@ =~= z0.take(idx as int) + seq![size@[idx as int], size@[idx + 1]] + z0.skip(idx + 2));
        lemma_rebalance(s0, z0, idx as int, offset as int, h, idx as int, c0, children@[idx as int], size@[idx as int],
            children@[idx + 1], size@[idx + 1], children@, size@);
    }
//@post size\[idx - 1\] = prev\.subtree_size\(\);\s*size\[idx\] = cur\.subtree_size\(\);
    proof {
        assert(children@ =~= s0.take(idx - 1) + seq![children@[idx - 1], children@[idx as int]] + s0.skip(idx + 1));
        assert(size@ =~= z0.take(idx - 1) + seq![size@[idx - 1], size@[idx as int]] + z0.skip(idx + 1));
        lemma_rebalance(s0, z0, idx as int, offset as int, h, idx - 1, c0, children@[idx - 1], size@[idx - 1],
            children@[idx as int], size@[idx as int], children@, size@);
    }
//@end
}

impl<T> RemoveResult<T> {
    spec fn inner(&self) -> T {
        match self { RemoveResult::Done(x) => *x, RemoveResult::Undersize(x) => *x }
    }

//@fn RemoveResult::into_inner
//@ret r
    ensures r == self.inner()
//@end
}

impl<T, const B: usize> TreeVec<T, B> {
    spec fn wf(&self) -> bool {
        &&& 4 <= B <= usize::MAX / 2
        &&& self.root.wf(self.root.height())
        &&& *self.root is Internal ==> self.root.count() >= 2
    }

    /// The represented sequence.
    spec fn view(&self) -> Seq<T> { self.root.vh(self.root.height()) }

//@fn TreeVec::default trait=Default as=vx_default
//@ret r
    requires 4 <= B <= usize::MAX / 2
    ensures r.wf(), r.view() == Seq::<T>::empty()
//@end

//@fn TreeVec::new
//@ret r
    requires 4 <= B <= usize::MAX / 2
    ensures r.wf(), r.view() == Seq::<T>::empty()
//@sub Self::default\(\) ==> Self::vx_default()
//@end

//@fn TreeVec::is_empty
//@ret r
    requires self.wf()
    ensures r == (self.view().len() == 0)
//@start
    proof { if *self.root is Internal { lemma_nonempty(*self.root, self.root.height()); } }
//@end

//@fn TreeVec::len
//@ret r
    requires self.wf()
    ensures r == self.view().len()
//@end

//@fn TreeVec::get
//@ret r
    requires self.wf()
    ensures
        index < self.view().len() ==> r == Some(&self.view()[index as int]),
        index >= self.view().len() ==> r is None,
//@end

//@fn TreeVec::get_mut
//@ret r
    requires old(self).wf()
    ensures
        final(self).wf(),
        index < old(self).view().len() ==> r is Some && *r->0 == old(self).view()[index as int]
            && final(self).view() == old(self).view().update(index as int, *final(r->0)),
        index >= old(self).view().len() ==> r is None && final(self).view() == old(self).view(),
//@start
    proof { lemma_heights::<T, B>(self.root.height()); }
//@end

//@fn TreeVec::insert
    requires old(self).wf(), index <= old(self).view().len() < usize::MAX
    ensures
        final(self).wf(),
        final(self).view() == old(self).view().insert(index as int, element),
//@start
    proof { lemma_heights::<T, B>(self.root.height()); }
    let ghost h = self.root.height();
//@post [0] children\.push\(node\);
    proof {
        lemma_kids_two(children@[0], size@[0], children@[1], size@[1], h);
        assert(children@ =~= seq![children@[0], children@[1]]);
        assert(size@ =~= seq![size@[0], size@[1]]);
        lemma_nodes::<T, B>(h + 1);
        lemma_heights::<T, B>(h + 1);
        assert(kids_wf(children@, size@, h));
    }
//@end

//@fn TreeVec::remove
//@ret r
    requires old(self).wf(), index < old(self).view().len()
    ensures
        final(self).wf(),
        r == old(self).view()[index as int],
        final(self).view() == old(self).view().remove(index as int),
//@sub if let Node::Internal \{ children, \.\. \} = &mut \*self\.root ==> if let Node::Internal { ref mut children, .. } = *self.root
//@start
    proof { lemma_heights::<T, B>(self.root.height()); }
    let ghost h = self.root.height();
//@at [0] if let Node::Internal
    proof {
        if *self.root is Internal && self.root.count() == 1 {
            lemma_kid(self.root.kids(), self.root.sizes(), 0, (h - 1) as nat);
            lemma_flat_one(self.root.kids()[0], (h - 1) as nat);
            lemma_height(*self.root.kids()[0], (h - 1) as nat);
            assert(self.root.kids() =~= seq![self.root.kids()[0]]);
        }
    }
//@end
}
} // verus!
fn main() {}
