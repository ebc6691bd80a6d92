// Contracts assumed for arrayvec::ArrayVec (a dependency; not part of /repo).  The type is modelled
// by a Vec that holds at most CAP elements; exceeding the capacity is a precondition violation
// (the real crate panics).  Bodies that are not `external_body` are checked against the contract.
// ---- shim for arrayvec::ArrayVec (contract assumed for the dependency) ----
pub struct ArrayVec<T, const CAP: usize> { pub v: Vec<T> }
impl<T, const CAP: usize> View for ArrayVec<T, CAP> { type V = Seq<T>; open spec fn view(&self) -> Seq<T> { self.v@ } }

pub struct Drained<T> { pub v: Vec<T> }
pub trait DrainRange { 
    spec fn lo(&self) -> int; spec fn hi(&self, len: int) -> int; 
    fn exec_lo(&self) -> (r: usize) ensures r as int == self.lo(); 
    fn exec_hi(&self, len: usize) -> (r: usize) ensures r as int == self.hi(len as int);
}
impl DrainRange for core::ops::RangeFull {
    open spec fn lo(&self) -> int { 0 }
    open spec fn hi(&self, len: int) -> int { len }
    fn exec_lo(&self) -> (r: usize) { 0 }
    fn exec_hi(&self, len: usize) -> (r: usize) { len }
}
impl DrainRange for core::ops::RangeFrom<usize> {
    open spec fn lo(&self) -> int { self.start as int }
    open spec fn hi(&self, len: int) -> int { len }
    fn exec_lo(&self) -> (r: usize) { self.start }
    fn exec_hi(&self, len: usize) -> (r: usize) { len }
}
impl DrainRange for core::ops::RangeTo<usize> {
    open spec fn lo(&self) -> int { 0 }
    open spec fn hi(&self, len: int) -> int { self.end as int }
    fn exec_lo(&self) -> (r: usize) { 0 }
    fn exec_hi(&self, len: usize) -> (r: usize) { self.end }
}
impl DrainRange for core::ops::Range<usize> {
    open spec fn lo(&self) -> int { self.start as int }
    open spec fn hi(&self, len: int) -> int { self.end as int }
    fn exec_lo(&self) -> (r: usize) { self.start }
    fn exec_hi(&self, len: usize) -> (r: usize) { self.end }
}

impl<T, const CAP: usize> ArrayVec<T, CAP> {
    pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { ArrayVec { v: Vec::new() } }
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.v.len() }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.v.len() == 0 }
    pub fn is_full(&self) -> (r: bool) ensures r == (self@.len() == CAP) { self.v.len() == CAP }
    pub fn push(&mut self, x: T) requires old(self)@.len() < CAP ensures final(self)@ == old(self)@.push(x) { self.v.push(x) }
    pub fn pop(&mut self) -> (r: Option<T>) ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
        old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last() { self.v.pop() }
    pub fn insert(&mut self, i: usize, x: T) requires old(self)@.len() < CAP, i <= old(self)@.len() ensures final(self)@ == old(self)@.insert(i as int, x) { self.v.insert(i, x) }
    pub fn remove(&mut self, i: usize) -> (r: T) requires i < old(self)@.len() ensures r == old(self)@[i as int], final(self)@ == old(self)@.remove(i as int) { self.v.remove(i) }
    pub fn get(&self, i: usize) -> (r: Option<&T>) ensures i < self@.len() ==> r == Some(&self@[i as int]), i >= self@.len() ==> r is None 
      { if i < self.v.len() { Some(&self.v[i]) } else { None } }
    pub fn first(&self) -> (r: Option<&T>) ensures self@.len() > 0 ==> r == Some(&self@[0]), self@.len() == 0 ==> r is None 
      { if 0 < self.v.len() { Some(&self.v[0]) } else { None } }
    #[verifier::external_body]
    pub fn drain<R: DrainRange>(&mut self, r: R) -> (d: Drained<T>)
        requires 0 <= r.lo() <= r.hi(old(self)@.len() as int) <= old(self)@.len(),
        ensures d.v@ == old(self)@.subrange(r.lo(), r.hi(old(self)@.len() as int)),
          r.lo() == 0 ==> final(self)@ == old(self)@.subrange(r.hi(old(self)@.len() as int), old(self)@.len() as int),
          r.lo() != 0 && r.hi(old(self)@.len() as int) == old(self)@.len() ==> final(self)@ == old(self)@.subrange(0, r.lo()),
          r.lo() != 0 && r.hi(old(self)@.len() as int) != old(self)@.len() ==>
            final(self)@ == old(self)@.subrange(0, r.lo()) + old(self)@.subrange(r.hi(old(self)@.len() as int), old(self)@.len() as int),
          r.lo() == 0 && r.hi(old(self)@.len() as int) == old(self)@.len() ==> d.v@ == old(self)@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn extend(&mut self, d: Drained<T>) requires old(self)@.len() + d.v@.len() <= CAP ensures final(self)@ == old(self)@ + d.v@ { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, i: usize) -> (r: Option<&mut T>)
      ensures i < old(self)@.len() ==> r is Some && *r->0 == old(self)@[i as int] && final(self)@ == old(self)@.update(i as int, *final(r->0)),
         i >= old(self)@.len() ==> r is None && final(self)@ == old(self)@,
      { unimplemented!() }
    #[verifier::external_body]
    pub fn split_at_mut(&mut self, mid: usize) -> (r: (&mut [T], &mut [T]))
    requires mid <= old(self)@.len(),
    ensures r.0@ == old(self)@.subrange(0, mid as int), r.1@ == old(self)@.subrange(mid as int, old(self)@.len() as int),
       final(self)@ == final(r.0)@ + final(r.1)@,
       final(r.0)@.len() == mid, final(r.1)@.len() == old(self)@.len() - mid
      { unimplemented!() }
}
impl<T> Drained<T> {
    #[verifier::external_body]
    pub fn collect<const CAP: usize>(self) -> (r: ArrayVec<T, CAP>) requires self.v@.len() <= CAP ensures r@ == self.v@ { unimplemented!() }
}
impl<T, const CAP: usize> core::ops::Deref for ArrayVec<T, CAP> { type Target = [T];
   fn deref(&self) -> (r: &[T]) ensures r@ == self@ { self.v.as_slice() } }
impl<T, const CAP: usize> vstd::std_specs::core::IndexSpecImpl<usize> for ArrayVec<T, CAP> {
   open spec fn index_req(&self, i: &usize) -> bool { *i < self@.len() } }
impl<T, const CAP: usize> core::ops::Index<usize> for ArrayVec<T, CAP> { type Output = T;
   fn index(&self, i: usize) -> (r: &T) ensures *r == self@[i as int] { &self.v[i] } }
impl<T, const CAP: usize> core::ops::IndexMut<usize> for ArrayVec<T, CAP> { 
   fn index_mut(&mut self, i: usize) -> (r: &mut T) ensures *r == old(self)@[i as int], final(self)@ == old(self)@.update(i as int, *final(r)) { &mut self.v[i] } }
