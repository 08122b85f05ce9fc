// Unit: columns and iterating over them.
use vstd::prelude::*;
verus! {
//%%include prelude.rs
//%%include sparse_spec.rs
//%%types F=F; SparseTuple=(usize, F); SparseTuple<F>=(usize, F); SparseTuple<&'aF>=(usize, &'a F); Self::Iter<'_>=VIter<(usize, &F)>; Self::IntoIter=VIter<(usize, F)>; SparseSliceIterator=SparseSliceIterator<'_>; SparseOptionIterator=SparseOptionIterator<'_>; DenseSliceIterator=DenseSliceIterator<'_>; SparseColumn=SparseColumn; DenseColumn=DenseColumn; IdentityColumn=IdentityColumn
//%%item src/algorithm/two_phase/matrix_provider/column/mod.rs SparseColumn
//%%end
//%%item src/algorithm/two_phase/matrix_provider/column/mod.rs DenseColumn
//%%end
//%%item src/algorithm/two_phase/matrix_provider/column/mod.rs SparseSliceIterator
//%%end
//%%item src/algorithm/two_phase/matrix_provider/column/mod.rs SparseOptionIterator
//%%end
//%%item src/algorithm/two_phase/matrix_provider/column/mod.rs DenseSliceIterator
//%%end
//%%include columns_spec.rs
//%%fn src/algorithm/two_phase/matrix_provider/column/mod.rs SparseColumn::new
//% spec
    ensures r.inner@ == data@
//%%end
//%%fn src/algorithm/two_phase/matrix_provider/column/mod.rs SparseColumn as Column::iter
//% types Self::Iter<'_>=SparseSliceIterator<'_>
//% spec
    ensures r.rest() =~= self.inner@
//%%end
//%%fn src/algorithm/two_phase/matrix_provider/column/mod.rs SparseColumn as IntoIterator::into_iter
//% spec
    ensures r@ == self.inner@
//%%end
//%%fn src/algorithm/two_phase/matrix_provider/column/mod.rs SparseSliceIterator::new
//% types Self=SparseSliceIterator<'a>
//% in impl<'a> SparseSliceIterator<'a>
//% spec
    ensures r.rest() =~= slice@, r.wf()
//%%end
//%%fn src/algorithm/two_phase/matrix_provider/column/mod.rs SparseSliceIterator as Iterator::next
//% types Self::Item=(usize, &'a F)
//% in impl<'a> SparseSliceIterator<'a>
//% spec
    requires old(self).wf()
    ensures final(self).wf(), steps(old(self).rest(), final(self).rest(), r)
//%%end
//%%fn src/algorithm/two_phase/matrix_provider/column/mod.rs SparseOptionIterator::new
//% types Self=SparseOptionIterator<'a>
//% in impl<'a> SparseOptionIterator<'a>
//% spec
    ensures r.rest() =~= opt(*option)
//%%end
//%%fn src/algorithm/two_phase/matrix_provider/column/mod.rs SparseOptionIterator as Iterator::next
//% types Self::Item=(usize, &'a F)
//% in impl<'a> SparseOptionIterator<'a>
//% spec
    ensures steps(old(self).rest(), final(self).rest(), r)
//%%end
//%%fn src/algorithm/two_phase/matrix_provider/column/mod.rs DenseColumn::new
//% spec
    ensures r.inner@ == data@
//%%end
//%%fn src/algorithm/two_phase/matrix_provider/column/mod.rs DenseColumn as Column::iter
//% types Self::Iter<'_>=DenseSliceIterator<'_>
//% spec
    ensures r.wf(), r.rest() =~= nonzeros(self.inner@, 0)
//%%end
//%%fn src/algorithm/two_phase/matrix_provider/column/mod.rs DenseColumn as IntoIterator::into_iter
//% spec
    ensures r@ == enum_seq(self.inner@)
//%%end
//%%fn src/algorithm/two_phase/matrix_provider/column/mod.rs DenseSliceIterator::new
//% types Self=DenseSliceIterator<'a>
//% in impl<'a> DenseSliceIterator<'a>
//% spec
    ensures r.wf(), r.rest() =~= nonzeros(slice@, 0)
//%%end
//%%fn src/algorithm/two_phase/matrix_provider/column/mod.rs DenseSliceIterator as Iterator::next
//% types Self::Item=(usize, &'a F)
//% in impl<'a> DenseSliceIterator<'a>
//% spec
    requires old(self).wf()
    ensures final(self).wf(), steps(old(self).rest(), final(self).rest(), r)
//% loop 0
    invariant self.wf(), self.creator == old(self).creator, self.rest() == old(self).rest()
    decreases self.creator@.len() - self.data_index
//%%end
} // verus!
fn main() {}
