pub open spec fn opt<T>(o: Option<T>) -> Seq<T> { match o { Some(x) => seq![x], None => seq![] } }
/// an iterator that was to yield a yields r and is to yield b from then on
pub open spec fn steps(a: Seq<(usize, F)>, b: Seq<(usize, F)>, r: Option<(usize, &F)>) -> bool { match r { None => a.len() == 0 && b.len() == 0, Some(x) => a.len() > 0 && x.0 == a[0].0 && *x.1 == a[0].1 && b =~= a.subrange(1, a.len() as int) } }
/// the nonzero numbers from index k on, with their indices
pub open spec fn nonzeros(s: Seq<F>, k: int) -> Seq<(usize, F)> decreases s.len() - k { if k >= s.len() { seq![] } else if s[k]@ == 0real { nonzeros(s, k + 1) } else { seq![(k as usize, s[k])] + nonzeros(s, k + 1) } }
impl<'a> SparseSliceIterator<'a> {
    pub closed spec fn wf(&self) -> bool { self.data_index <= self.creator@.len() }
    /// what is still to come
    pub closed spec fn rest(&self) -> Seq<(usize, F)> { self.creator@.subrange(self.data_index as int, self.creator@.len() as int) }
}
impl<'a> SparseOptionIterator<'a> {
    pub closed spec fn rest(&self) -> Seq<(usize, F)> { match self.creator { Some(x) => seq![(x.0, *x.1)], None => seq![] } }
}
impl<'a> DenseSliceIterator<'a> {
    pub closed spec fn wf(&self) -> bool { self.data_index <= self.creator@.len() }
    pub closed spec fn rest(&self) -> Seq<(usize, F)> { nonzeros(self.creator@, self.data_index as int) }
}
/// Option::take
pub trait VTake: Sized { fn v_take(&mut self) -> (r: Self); }
impl<T> VTake for Option<T> { fn v_take(&mut self) -> (r: Self) ensures r == *old(self), *final(self) == None::<T> { self.take() } }
