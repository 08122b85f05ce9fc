//%%types SparseTupleVec=Vec<(usize, F)>; SparseTuple=(usize, F); O=usize; C=F
//%%item src/data/linear_algebra/matrix.rs SparseMatrix
//%%end
//%%types F=F; G=F; Self::Cost<'_>=Option<&F>; Self::Column=Column; Column<F>=Column; Self::Filtered=Column; Sparse=Sparse; SparseVector<G,G>=Sparse; Dense=Dense; DenseVector<F>=Dense; DenseVector<Self::Rhs>=Dense; SparseMatrix=SparseMatrix<F>; SparseMatrix<F,F,ColumnMajor>=SparseMatrix<F>; MatrixData=MatrixData<'_>; Variable=Variable; Variable<F>=Variable; BoundDirection=BoundDirection
//%%item src/data/linear_algebra/vector/sparse.rs Sparse
//%%end
//%%item src/data/linear_algebra/vector/dense.rs Dense
//%%end
//%%item src/data/linear_program/elements.rs BoundDirection
//%%end
//%%item src/data/linear_program/elements.rs VariableType
//%%end
//%%item src/data/linear_program/general_form/mod.rs Variable
//%%end
//%%dense b,row_group_end(),column_group_end()
//%%path cumsum_array_owned=v_cumsum
//%%path Neg::neg=VNeg::v_neg
//%%item src/algorithm/two_phase/matrix_provider/matrix_data.rs RowType
//%%end
//%%item src/algorithm/two_phase/matrix_provider/matrix_data.rs ColumnType
//%%end
//%%item src/algorithm/two_phase/matrix_provider/matrix_data.rs Column
//%%end
//%%item src/algorithm/two_phase/matrix_provider/matrix_data.rs MatrixData
//%%end
//%%types SparseTuple<F>=(usize, F); SparseTuple<&'aF>=(usize, &'a F); Self::Iter<'_>=VIter<(usize, &F)>; Self::IntoIter=VIter<(usize, F)>; SparseSliceIterator=SparseSliceIterator<'_>; SparseOptionIterator=SparseOptionIterator<'_>
//%%item src/algorithm/two_phase/matrix_provider/column/mod.rs SparseSliceIterator
//%%end
//%%item src/algorithm/two_phase/matrix_provider/column/mod.rs SparseOptionIterator
//%%end
//%%item src/algorithm/two_phase/matrix_provider/column/mod.rs DenseSliceIterator
//%%end
//%%include columns_spec.rs
//%%use columns src/algorithm/two_phase/matrix_provider/column/mod.rs SparseSliceIterator::new
//%%use columns src/algorithm/two_phase/matrix_provider/column/mod.rs SparseOptionIterator::new
//%%path ColumnIterator::Sparse=v_same
//%%path ColumnIterator::Slack=v_same
//%%path ColumnIterator::TwoSlack=v_same
//%%path ColumnIntoIterator::Sparse=v_same
//%%path ColumnIntoIterator::Slack=v_same
//%%path ColumnIntoIterator::TwoSlack=v_same
//%%path once=v_once
/// the iterators of a column are one of three: a choice between them
pub fn v_same<T>(i: VIter<T>) -> (r: VIter<T>) ensures r == i { i }
#[verifier::external_body] pub fn v_once<T>(x: T) -> (r: VIter<T>) ensures r@ == seq![x] { unimplemented!() }
/// chaining two iterators (their `next` is proved in the unit columns)
impl<'a> SparseSliceIterator<'a> { #[verifier::external_body] pub fn v_chain(self, o: SparseOptionIterator<'a>) -> (r: VIter<(usize, &'a F)>) requires self.wf() ensures own(r@) == self.rest() + o.rest() { unimplemented!() } }
impl<T> VIntoIter for Option<T> { type Item = T; open spec fn into_seq(self) -> Seq<T> { opt(self) } #[verifier::external_body] fn v_into_iter(self) -> VIter<T> { unimplemented!() } }
/// a value for every key
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct EnumMap<K, V> { k: core::marker::PhantomData<K>, v: core::marker::PhantomData<V> }
impl<K, V> EnumMap<K, V> {
    pub uninterp spec fn at(&self, k: K) -> V;
    #[verifier::external_body] pub fn v_new() -> (r: EnumMap<K, V>) { unimplemented!() }
    #[verifier::external_body] pub fn v_with(self, k: K, v: V) -> (r: EnumMap<K, V>) ensures r.at(k) == v, forall|l: K| #![trigger r.at(l)] l != k ==> r.at(l) == self.at(l) { unimplemented!() }
    #[verifier::external_body] pub fn v_at(&self, k: K) -> (r: &V) ensures *r == self.at(k) { unimplemented!() }
}
pub open spec fn upto(a: Seq<usize>, k: int) -> int decreases k { if k <= 0 { 0 } else { upto(a, k - 1) + a[k - 1] } }
/// cumsum: the sum of the first k + 1 numbers at k
#[verifier::external_body] pub fn v_cumsum(a: [usize; 6]) -> (r: [usize; 6]) requires upto(a@, 6) <= usize::MAX ensures forall|k: int| #![trigger r@[k]] 0 <= k < 6 ==> r@[k] == upto(a@, k + 1) { unimplemented!() }
pub open spec fn rows_wf(d: Seq<Vec<(usize, F)>>, n: int) -> bool { forall|j: int| #![trigger d[j]] 0 <= j < d.len() ==> swf(d[j]@, n) }
impl SparseMatrix<F> {
    pub open spec fn wf(&self) -> bool { self.data@.len() == self.major_dimension_size && rows_wf(self.data@, self.minor_dimension_size as int) }
    pub open spec fn at(&self, j: int, i: int) -> real { sv(self.data@[j]@, i) }
}
impl VClone for Dense { #[verifier::external_body] fn v_clone(&self) -> Dense { unimplemented!() } }
impl Sparse {
    pub open spec fn wf(&self) -> bool { swf(self.data@, self.len as int) }
    pub open spec fn at(&self, i: int) -> real { sv(self.data@, i) }
}
//%%use matrix src/data/linear_algebra/matrix.rs SparseMatrix::nr_rows /ColumnMajor/
//%%use matrix src/data/linear_algebra/matrix.rs SparseMatrix::nr_columns /ColumnMajor/
//%%use matrix src/data/linear_algebra/matrix.rs SparseMatrix::iter_column
//%%use vector src/data/linear_algebra/vector/dense.rs Dense::extend_with_values
//%%use vector src/data/linear_algebra/vector/sparse.rs Sparse as Vector::len
//%%use vector src/data/linear_algebra/vector/sparse.rs Sparse as Vector::remove_indices
/// the bound rows: which variables have one
pub open spec fn paired(v: Seq<Variable>, to: Seq<Option<usize>>, back: Seq<usize>, n: int) -> bool {
    to.len() == n && (forall|j: int| #![trigger to[j]] 0 <= j < n ==> (v[j].upper_bound is Some) == (to[j] is Some) && (to[j] is Some ==> to[j]->0 < back.len() && back[to[j]->0 as int] == j))
    && forall|k: int| #![trigger back[k]] 0 <= k < back.len() ==> back[k] < n && to[back[k] as int] == Some(k as usize)
}
impl<'a> MatrixData<'a> {
    pub open spec fn nv(&self) -> int { self.variables@.len() as int }
    pub open spec fn ne(&self) -> int { self.nr_equality_constraints as int }
    pub open spec fn nr(&self) -> int { self.nr_range_constraints as int }
    pub open spec fn nu(&self) -> int { self.nr_upper_bounded_constraints as int }
    pub open spec fn nl(&self) -> int { self.nr_lower_bounded_constraints as int }
    pub open spec fn nb(&self) -> int { self.bound_index_to_non_slack_variable_index@.len() as int }
    /// how many constraints
    pub open spec fn nc(&self) -> int { self.ne() + self.nr() + self.nu() + self.nl() }
    pub open spec fn m(&self) -> int { self.nc() + self.nb() + self.nr() }
    pub open spec fn n(&self) -> int { self.nv() + self.nr() + self.nu() + self.nl() + self.nb() + self.nr() }
    pub open spec fn wf(&self) -> bool {
        self.constraints.wf() && self.constraints.major_dimension_size == self.nv() && self.constraints.minor_dimension_size == self.nc() && self.b.data@.len() == self.nc() && self.ranges@.len() == self.nr()
        && paired(self.variables@, self.non_slack_variable_index_to_bound_index@, self.bound_index_to_non_slack_variable_index@, self.nv())
        && self.row_group_end.at(RowType::EqualityConstraint) == self.ne() && self.row_group_end.at(RowType::RangeConstraint) == self.ne() + self.nr() && self.row_group_end.at(RowType::UpperInequalityConstraint) == self.ne() + self.nr() + self.nu()
        && self.row_group_end.at(RowType::LowerInequalityConstraint) == self.nc() && self.row_group_end.at(RowType::VariableBound) == self.nc() + self.nb() && self.row_group_end.at(RowType::SlackBound) == self.m()
        && self.column_group_end.at(ColumnType::Normal) == self.nv() && self.column_group_end.at(ColumnType::RangeSlack) == self.nv() + self.nr() && self.column_group_end.at(ColumnType::UpperInequalitySlack) == self.nv() + self.nr() + self.nu()
        && self.column_group_end.at(ColumnType::LowerInequalitySlack) == self.nv() + self.nr() + self.nu() + self.nl() && self.column_group_end.at(ColumnType::VariableBoundSlack) == self.nv() + self.nr() + self.nu() + self.nl() + self.nb() && self.column_group_end.at(ColumnType::SlackBoundSlack) == self.n()
    }
    /// the group of a column, and where in it
    pub open spec fn group(&self, j: int) -> (ColumnType, int) {
        let (a, b, c, d, e) = (self.nv(), self.nv() + self.nr(), self.nv() + self.nr() + self.nu(), self.nv() + self.nr() + self.nu() + self.nl(), self.nv() + self.nr() + self.nu() + self.nl() + self.nb());
        if j < a { (ColumnType::Normal, j) } else if j < b { (ColumnType::RangeSlack, j - a) } else if j < c { (ColumnType::UpperInequalitySlack, j - b) } else if j < d { (ColumnType::LowerInequalitySlack, j - c) } else if j < e { (ColumnType::VariableBoundSlack, j - d) } else { (ColumnType::SlackBoundSlack, j - e) }
    }
    /// the number in row i of column j
    pub open spec fn entry(&self, i: int, j: int) -> real {
        let (t, k) = self.group(j);
        match t {
            ColumnType::Normal => if i < self.nc() { self.constraints.at(k, i) } else if i < self.nc() + self.nb() && self.bound_index_to_non_slack_variable_index@[i - self.nc()] == k { 1real } else { 0real },
            ColumnType::RangeSlack => if i == self.ne() + k || i == self.nc() + self.nb() + k { 1real } else { 0real },
            ColumnType::UpperInequalitySlack => if i == self.ne() + self.nr() + k { 1real } else { 0real },
            ColumnType::LowerInequalitySlack => if i == self.ne() + self.nr() + self.nu() + k { -1real } else { 0real },
            ColumnType::VariableBoundSlack => if i == self.nc() + k { 1real } else { 0real },
            ColumnType::SlackBoundSlack => if i == self.nc() + self.nb() + k { 1real } else { 0real },
        }
    }
    /// the right-hand side of row i
    pub open spec fn rhs(&self, i: int) -> real {
        if i < self.nc() { self.b.data@[i]@ } else if i < self.nc() + self.nb() { (self.variables@[self.bound_index_to_non_slack_variable_index@[i - self.nc()] as int].upper_bound->0)@ } else { self.ranges@[i - self.nc() - self.nb()]@ }
    }
    pub open spec fn cost(&self, j: int) -> real { if j < self.nv() { self.variables@[j].cost@ } else { 0real } }
    /// the row that bounds a column from above
    pub open spec fn bound_row(&self, j: int) -> Option<int> {
        let (t, k) = self.group(j);
        match t { ColumnType::Normal => match self.non_slack_variable_index_to_bound_index@[k] { Some(x) => Some(self.nc() + x), None => None }, ColumnType::RangeSlack => Some(self.nc() + self.nb() + k), _ => None }
    }
}
