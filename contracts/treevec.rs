//@into src/treevec.rs
//@native seq_ops iters=2500
//@native exhaustive_small
//@native iterators
// Contract: every operation of the container acts on the represented sequence as the same operation of Vec
// does, and keeps the representation invariant.  Executed for B in 4..=6 (bounded).

fn same<const B: usize>(t: &TreeVec<u32, B>, v: &Vec<u32>) {
    t.check_invariants();
    assert_eq!(t.len(), v.len());
    assert_eq!(t.is_empty(), v.is_empty());
    assert!(t.iter().eq(v.iter()), "iteration differs from the represented sequence");
    for i in 0..v.len() + 2 {
        assert_eq!(t.get(i), v.get(i), "get({i})");
    }
    for i in 0..v.len() {
        assert_eq!(t[i], v[i]);
    }
}

fn ops<const B: usize>(n: usize) {
    let mut t = TreeVec::<u32, B>::new();
    let mut v = Vec::new();
    let bias = vx::below(4);
    for k in 0..n {
        let grow = match bias { 0 => vx::below(3) > 0, 1 => (k * 3 / n) != 1, 2 => k < n / 2, _ => vx::below(2) == 0 };
        if grow || v.is_empty() {
            let i = match vx::below(4) { 0 => 0, 1 => v.len(), _ => vx::below(v.len() as u64 + 1) as usize };
            t.insert(i, k as u32);
            v.insert(i, k as u32);
        } else {
            let i = match vx::below(4) { 0 => 0, 1 => v.len() - 1, _ => vx::below(v.len() as u64) as usize };
            assert_eq!(t.remove(i), v.remove(i));
        }
        if k % 8 == 0 {
            same(&t, &v);
            if !v.is_empty() {
                let i = vx::below(v.len() as u64) as usize;
                *t.get_mut(i).unwrap() += 1000;
                v[i] += 1000;
                assert!(t.get_mut(v.len()).is_none());
                let j = vx::below(v.len() as u64) as usize;
                t[j] = 7777 + k as u32;
                v[j] = 7777 + k as u32;
            }
        }
    }
    same(&t, &v);
    views(&mut t, &mut v);
    let c = t.clone();
    while !v.is_empty() {
        let i = vx::below(v.len() as u64) as usize;
        assert_eq!(t.remove(i), v.remove(i));
        t.check_invariants();
    }
    same(&t, &v);
    c.check_invariants();
}

fn views<const B: usize>(t: &mut TreeVec<u32, B>, v: &mut Vec<u32>) {
    use std::ops::Bound::*;
    for _ in 0..6 {
        let a = vx::below(v.len() as u64 + 1) as usize;
        let b = a + vx::below((v.len() - a) as u64 + 1) as usize;
        assert!(t.range(a..b).eq(v[a..b].iter()), "range({a}..{b})");
        assert!(t.range(a..).eq(v[a..].iter()), "range({a}..)");
        assert!(t.range(..b).eq(v[..b].iter()), "range(..{b})");
        assert!(t.range(..).eq(v.iter()));
        if b > a {
            assert!(t.range(a..=b - 1).eq(v[a..b].iter()), "range({a}..={})", b - 1);
        }
        if a > 0 {
            assert!(t.range((Excluded(a - 1), Excluded(b))).eq(v[a..b].iter()));
        }
        for x in t.range_mut(a..b) { *x ^= 1 << 20; }
        for x in v[a..b].iter_mut() { *x ^= 1 << 20; }
        assert!(t.iter().eq(v.iter()), "range_mut({a}..{b})");
        // partition points of the index order
        let mut w = TreeVec::<usize, B>::new();
        for i in 0..v.len() { w.insert(i, i); }
        assert_eq!(w.partition_point(|x| *x < a), a);
    }
    for x in t.iter_mut() { *x ^= 5; }
    for x in v.iter_mut() { *x ^= 5; }
    assert!(t.iter().eq(v.iter()), "iter_mut");
    // a non-monotone predicate: the result is some boundary
    let k = vx::below(5) as u32;
    let pred = |x: &u32| x.wrapping_mul(2654435761) >> 28 > k;
    let p = t.partition_point(pred);
    assert!(p <= v.len());
    assert!(p == 0 || pred(&v[p - 1]), "partition_point {p}: predicate false before it");
    assert!(p == v.len() || !pred(&v[p]), "partition_point {p}: predicate true at it");
}

pub fn seq_ops() {
    let n = vx::int_in(1, 300) as usize;
    match vx::int_in(0, 3) {
        0 => ops::<4>(n),
        1 => ops::<5>(n),
        2 => ops::<6>(n),
        _ => ops::<8>(n),
    }
}

/// Trees of every size up to 90 built by appending / prepending / inserting in the middle, and then every
/// single insertion and removal position.
pub fn exhaustive_small() {
    fn go<const B: usize>() {
        for shape in 0..3 {
            for n in 0..90usize {
                let build = || {
                    let mut t = TreeVec::<u32, B>::new();
                    let mut v = Vec::new();
                    for k in 0..n {
                        let i = match shape { 0 => k, 1 => 0, _ => k / 2 };
                        t.insert(i, k as u32);
                        v.insert(i, k as u32);
                    }
                    (t, v)
                };
                for i in 0..=n {
                    vx::case(|| format!("B={B} shape={shape} n={n}: insert({i})"), true, || {
                        let (mut t, mut v) = build();
                        t.insert(i, 999);
                        v.insert(i, 999);
                        t.check_invariants();
                        assert!(t.iter().eq(v.iter()));
                        assert_eq!(t.len(), v.len());
                    });
                }
                for i in 0..n {
                    vx::case(|| format!("B={B} shape={shape} n={n}: remove({i})"), true, || {
                        let (mut t, mut v) = build();
                        assert_eq!(t.remove(i), v.remove(i));
                        t.check_invariants();
                        assert!(t.iter().eq(v.iter()));
                        assert_eq!(t.len(), v.len());
                    });
                    if vx::failed() { return }
                }
            }
        }
    }
    go::<4>();
    go::<5>();
}

pub fn iterators() {
    fn go<const B: usize>() {
        for n in 0..70usize {
            let t: TreeVec<usize, B> = (0..n).collect();
            for a in 0..=n {
                vx::case(|| format!("B={B} n={n}: range/range_mut/partition_point at {a}"), true, || {
                    for b in a..=n {
                        assert!(t.range(a..b).copied().eq(a..b), "range({a}..{b})");
                        let mut u = t.clone();
                        let mut it = u.range_mut(a..b);
                        for k in a..b { assert_eq!(*it.next().unwrap(), k); }
                        assert!(it.next().is_none());
                    }
                    assert_eq!(t.partition_point(|x| *x < a), a);
                });
                if vx::failed() { return }
            }
        }
    }
    go::<4>();
    go::<6>();
}
