//%%types F=F; C=Col; BI=BI; Carry=Carry; Carry<F,BI>=Carry; Sparse=Sparse; SparseVector=Sparse; SparseTuple=(usize, F); Dense=Dense; DenseVector=Dense; Self::F=F; Self::ColumnComputationInfo=Info; BI::ColumnComputationInfo=Info; K=Kind; MP=Provider; BasisChangeComputationInfo=BasisChangeComputationInfo; Rhs=F; G=F
//%%dense b,minus_pi
//%%path Neg::neg=VNeg::v_neg
//%%path Vec::from=v_vec_from
//%%path BI::ColumnComputationInfo::into_column=Info::into_column
//%%item src/data/linear_algebra/vector/sparse.rs Sparse
//%%end
//%%item src/data/linear_algebra/vector/dense.rs Dense
//%%end
impl Sparse {
    pub open spec fn wf(&self) -> bool { swf(self.data@, self.len as int) }
    pub open spec fn at(&self, i: int) -> real { sv(self.data@, i) }
}
//%%use vector src/data/linear_algebra/vector/sparse.rs Sparse as Vector::get
//%%use vector src/data/linear_algebra/vector/sparse.rs Sparse as Vector::len
//%%use vector src/data/linear_algebra/vector/dense.rs Dense as Vector::len
//%%use vector src/data/linear_algebra/vector/dense.rs Dense as Vector::new
//%%use vector src/data/linear_algebra/vector/dense.rs Dense::constant
//%%use vector src/data/linear_algebra/vector/dense.rs Dense as Vector::sparse_inner_product
//%%use vector src/data/linear_algebra/vector/dense.rs Dense as Vector::remove_indices
/// inner_mut: the data of the vector
impl VIntoIter for Dense { type Item = F; open spec fn into_seq(self) -> Seq<F> { self.data@ } #[verifier::external_body] fn v_into_iter(self) -> VIter<F> { unimplemented!() } }
impl VIterable for Dense { type T = F; open spec fn seq_of(&self) -> Seq<F> { self.data@ } #[verifier::external_body] fn v_iter<'a>(&'a self) -> VIter<&'a F> { unimplemented!() } }
impl Dense { fn inner_mut(&mut self) -> (r: &mut Vec<F>) ensures *r == old(self).data, *final(self) == (Dense { data: *final(r), ..*old(self) }) { &mut self.data } }
/// iterating over the entries of a vector
pub struct SparseSliceIterator;
impl SparseSliceIterator { #[verifier::external_body] pub fn new<'a>(x: &'a Sparse) -> (r: VIter<(usize, &'a F)>) ensures own(r@) == x.data@ { unimplemented!() } }
/// A column of the problem, whatever its type: the entries it yields.
#[verifier::external_body] pub struct Col { x: u8 }
impl Col {
    pub uninterp spec fn es(&self) -> Seq<(usize, F)>;
    #[verifier::external_body] pub fn v_iter<'a>(&'a self) -> (r: VIter<(usize, &'a F)>) ensures own(r@) == self.es() { unimplemented!() }
}
/// A column with respect to the basis, as computed by the inverse.
#[verifier::external_body] pub struct Info { x: u8 }
impl Info {
    pub uninterp spec fn c(&self) -> Sparse;
    /// computed with this inverse
    pub uninterp spec fn of(&self, v: M) -> bool;
    #[verifier::external_body] pub fn column(&self) -> (r: &Sparse) ensures *r == self.c() { unimplemented!() }
    #[verifier::external_body] pub fn into_column(self) -> (r: Sparse) ensures r == self.c() { unimplemented!() }
}
pub open spec fn undoes(v: M, cols: Seq<Col>) -> bool { forall|i: int, j: int| #![trigger dot(cols[j].es(), row(v, i))] 0 <= i < cols.len() && 0 <= j < cols.len() ==> dot(cols[j].es(), row(v, i)) == delta(i, j) }
pub open spec fn entries(cols: Seq<Col>, k: int) -> V { |j: int| sv(cols[j].es(), k) }
pub open spec fn undoes_right(v: M, cols: Seq<Col>) -> bool { forall|k: int, l: int| #![trigger delta(k, l)] 0 <= k < cols.len() && 0 <= l < cols.len() ==> rsum(cols.len() as int, scaled(col(v, l), entries(cols, k))) == delta(k, l) }
/// the columns of a basis
pub open spec fn chosen(cols: Seq<Col>, basis: Seq<usize>, p: Lp) -> bool { cols.len() == basis.len() && forall|j: int| #![trigger cols[j]] 0 <= j < cols.len() ==> cols[j].es() == (p.a)(basis[j] as int) }
proof fn undoes_inverts(v: M, cols: Seq<Col>, basis: Seq<usize>, p: Lp) requires chosen(cols, basis, p), inrange(basis, p) ensures undoes(v, cols) == inverts(v, basis, p) {
    if undoes(v, cols) { assert forall|i: int, j: int| #![trigger dot((p.a)(basis[j] as int), row(v, i))] 0 <= i < p.m && 0 <= j < p.m implies dot((p.a)(basis[j] as int), row(v, i)) == delta(i, j) by { assert(dot(cols[j].es(), row(v, i)) == delta(i, j)); } }
    if inverts(v, basis, p) { assert forall|i: int, j: int| #![trigger dot(cols[j].es(), row(v, i))] 0 <= i < cols.len() && 0 <= j < cols.len() implies dot(cols[j].es(), row(v, i)) == delta(i, j) by { assert(dot((p.a)(basis[j] as int), row(v, i)) == delta(i, j)); } }
}
proof fn undoes_inverts_right(v: M, cols: Seq<Col>, basis: Seq<usize>, p: Lp) requires chosen(cols, basis, p), inrange(basis, p), undoes_right(v, cols) ensures inverts_right(v, basis, p) {
    assert forall|k: int, l: int| #![trigger delta(k, l)] 0 <= k < p.m && 0 <= l < p.m implies rsum(p.m, scaled(col(v, l), basisrow(basis, p, k))) == delta(k, l) by {
        rsum_ext(p.m, scaled(col(v, l), basisrow(basis, p, k)), scaled(col(v, l), entries(cols, k)));
    }
}
#[verifier::external_body] pub fn v_vec_from<T: Copy>(s: &[T]) -> (r: Vec<T>) ensures r@ == s@ { unimplemented!() }
/// A column given by its entries.
pub struct SparseColumn { inner: Vec<(usize, F)> }
impl SparseColumn {
    pub closed spec fn es(&self) -> Seq<(usize, F)> { self.inner@ }
    pub fn new(inner: Vec<(usize, F)>) -> (r: Self) ensures r.es() == inner@ { SparseColumn { inner } }
    #[verifier::external_body] pub fn v_iter<'a>(&'a self) -> (r: VIter<(usize, &'a F)>) ensures own(r@) == self.es() { unimplemented!() }
}
/// A column with a single one.
pub struct IdentityColumn { index: usize }
pub open spec fn single(s: Seq<(usize, F)>, i: int) -> bool { s.len() == 1 && s[0].0 == i && s[0].1@ == 1real }
impl IdentityColumn {
    pub closed spec fn at(&self) -> usize { self.index }
    pub fn new(index: usize) -> (r: Self) ensures r.at() == index { IdentityColumn { index } }
    #[verifier::external_body] pub fn v_iter<'a>(&'a self) -> (r: VIter<(usize, &'a F)>) ensures single(own(r@), self.at() as int) { unimplemented!() }
}
proof fn single_dot(s: Seq<(usize, F)>, i: int, d: V) requires single(s, i) ensures dot(s, d) == d(i) { assert(s.drop_last() =~= Seq::empty()); assert(s.last() == s[0]); let x = d(i); assert(1real * x == x) by(nonlinear_arith); assert(dot(s.drop_last(), d) == 0real); }
impl VIntoIter for Sparse { type Item = (usize, F); open spec fn into_seq(self) -> Seq<(usize, F)> { self.data@ } #[verifier::external_body] fn v_into_iter(self) -> VIter<(usize, F)> { unimplemented!() } }
impl Sparse { pub fn into_iter(self) -> (r: VIter<(usize, F)>) ensures r@ == self.data@ { self.v_into_iter() } }
/// What supplies the problem.
#[verifier::external_body] pub struct Provider { x: u8 }
impl Provider {
    pub uninterp spec fn lp(&self) -> Lp;
    #[verifier::external_body] pub fn nr_rows(&self) -> (r: usize) ensures r == self.lp().m { unimplemented!() }
    #[verifier::external_body] pub fn column(&self, j: usize) -> (r: Col) requires j < self.lp().n ensures r.es() == (self.lp().a)(j as int) { unimplemented!() }
    #[verifier::external_body] pub fn cost_value(&self, j: usize) -> (r: F) requires j < self.lp().n ensures r@ == (self.lp().c)(j as int) { unimplemented!() }
    #[verifier::external_body] pub fn right_hand_side(&self) -> (r: Dense) ensures r.data@.len() == self.lp().m, forall|i: int| #![trigger r.data@[i]] 0 <= i < self.lp().m ==> r.data@[i]@ == sv(self.lp().rhs, i), forall|i: int| #![trigger sv(self.lp().rhs, i)] 0 <= i < self.lp().m ==> enum_seq(r.data@)[i].1@ == sv(self.lp().rhs, i) { unimplemented!() }
}
impl Provider {
    /// the rows left out
    pub uninterp spec fn rows(&self) -> Seq<usize>;
    #[verifier::external_body] pub fn filtered_rows(&self) -> (r: &[usize]) ensures r@ == self.rows() { unimplemented!() }
}
/// The problem a tableau is made of.
#[verifier::external_body] pub struct Kind { x: u8 }
impl Kind {
    pub uninterp spec fn lp(&self) -> Lp;
    /// the first column that may enter the basis: those before it are artificial
    pub uninterp spec fn start(&self) -> int;
    #[verifier::external_body] pub fn nr_rows(&self) -> (r: usize) ensures r == self.lp().m { unimplemented!() }
    #[verifier::external_body] pub fn nr_columns(&self) -> (r: usize) ensures r == self.lp().n { unimplemented!() }
    #[verifier::external_body] pub fn initial_cost_value(&self, j: usize) -> (r: F) requires j < self.lp().n ensures r@ == (self.lp().c)(j as int) { unimplemented!() }
    #[verifier::external_body] pub fn original_column(&self, j: usize) -> (r: Col) requires j < self.lp().n ensures r.es() == (self.lp().a)(j as int) { unimplemented!() }
}
/// The inverse of the basis, whatever its representation: the contract of the trait `BasisInverse`.
#[verifier::external_body] pub struct BI { x: u8 }
impl BI {
    pub uninterp spec fn inv(&self) -> M;
    pub uninterp spec fn size(&self) -> int;
    #[verifier::external_body] pub fn m(&self) -> (r: usize) ensures r == self.size() { unimplemented!() }
    #[verifier::external_body] pub fn identity(m: usize) -> (r: BI) ensures r.size() == m, forall|i: int, k: int| #![trigger (r.inv())(i, k)] 0 <= i < m && 0 <= k < m ==> (r.inv())(i, k) == delta(i, k) { unimplemented!() }
    #[verifier::external_body] pub fn invert(columns: VIter<Col>) -> (r: BI)
        requires columns@.len() <= usize::MAX, forall|j: int| #![trigger columns@[j]] 0 <= j < columns@.len() ==> swf(columns@[j].es(), columns@.len() as int), exists|v: M| undoes(v, columns@)
        ensures r.size() == columns@.len(), undoes(r.inv(), columns@), undoes_right(r.inv(), columns@) { unimplemented!() }
    #[verifier::external_body] pub fn should_refactor(&self) -> bool { unimplemented!() }
    #[verifier::external_body] pub fn left_multiply_by_basis_inverse<'a>(&'a self, column: VIter<(usize, &'a F)>) -> (r: Info)
        requires swf(own(column@), self.size())
        ensures r.of(self.inv()), r.c().wf(), r.c().len == self.size(), forall|i: int| #![trigger r.c().at(i)] #![trigger sv(r.c().data@, i)] 0 <= i < self.size() ==> r.c().at(i) == dot(own(column@), row(self.inv(), i)) { unimplemented!() }
    #[verifier::external_body] pub fn right_multiply_by_basis_inverse<'a>(&'a self, row: VIter<(usize, &'a F)>) -> (r: Sparse)
        requires swf(own(row@), self.size()), row@.len() > 0
        ensures r.wf(), r.len == self.size(), forall|k: int| #![trigger r.at(k)] 0 <= k < self.size() ==> r.at(k) == dot(own(row@), col(self.inv(), k)) { unimplemented!() }
    #[verifier::external_body] pub fn generate_element<'a>(&'a self, i: usize, original_column: VIter<(usize, &'a F)>) -> (r: Option<F>)
        requires swf(own(original_column@), self.size()), i < self.size()
        ensures r is Some ==> r->0@ == dot(own(original_column@), row(self.inv(), i as int)), r is None ==> dot(own(original_column@), row(self.inv(), i as int)) == 0real { unimplemented!() }
    #[verifier::external_body] pub fn basis_inverse_row(&self, r0: usize) -> (r: Sparse)
        requires r0 < self.size()
        ensures r.wf(), r.len == self.size(), forall|k: int| #![trigger r.at(k)] 0 <= k < self.size() ==> r.at(k) == (self.inv())(r0 as int, k) { unimplemented!() }
    #[verifier::external_body] pub fn change_basis(&mut self, pivot_row_index: usize, column: Info) -> (r: Sparse)
        requires pivot_row_index < old(self).size(), column.of(old(self).inv()), column.c().wf(), column.c().len == old(self).size(), column.c().at(pivot_row_index as int) != 0real
        ensures final(self).size() == old(self).size(), pivoted(old(self).inv(), final(self).inv(), svf(column.c().data@), pivot_row_index as int, old(self).size()), r.wf(), r.len == column.c().len, forall|i: int| #![trigger r.at(i)] 0 <= i < r.len ==> r.at(i) == column.c().at(i) { unimplemented!() }
}
impl BI {
    /// the contract of the trait `RemoveBasisPart`
    #[verifier::external_body] pub fn remove_basis_part(&mut self, indices: &[usize])
        requires uniq(indices@, old(self).size())
        ensures final(self).size() == old(self).size() - indices@.len(), forall|i: int, k: int| #![trigger (old(self).inv())(i, k)] 0 <= i < old(self).size() && 0 <= k < old(self).size() && !indices@.contains(i as usize) && !indices@.contains(k as usize) ==> (final(self).inv())(i - rank(indices@, i), k - rank(indices@, k)) == (old(self).inv())(i, k) { unimplemented!() }
}
//%%item src/algorithm/two_phase/tableau/mod.rs BasisChangeComputationInfo
//%%end
//%%item src/algorithm/two_phase/tableau/inverse_maintenance/carry/mod.rs Carry
//%%end
impl Carry {
    pub open spec fn shape(&self) -> bool { let m = self.b.data@.len() as int; self.basis_inverse.size() == m && self.minus_pi.data@.len() == m && self.basis_indices@.len() == m && m <= usize::MAX }
    /// everything stored is what the basis determines
    pub open spec fn holds(&self, p: Lp) -> bool {
        self.shape() && p.wf() && inrange(self.basis_indices@, p) && inverts(self.basis_inverse.inv(), self.basis_indices@, p) && inverts_right(self.basis_inverse.inv(), self.basis_indices@, p) && values(self.b.data@, self.basis_inverse.inv(), p)
        && prices(self.minus_pi.data@, self.basis_indices@, self.basis_inverse.inv(), p) && self.minus_objective@ == -objective(self.b.data@, self.basis_indices@, p)
    }
}
/// the basic variables that are not zero
#[verifier::opaque] pub open spec fn only_rows(t: Seq<(usize, F)>, basis: Seq<usize>, b: Seq<F>) -> bool { forall|k: int| #![trigger t[k]] 0 <= k < t.len() ==> row_in(t, basis, b, k) }
pub open spec fn row_in(t: Seq<(usize, F)>, basis: Seq<usize>, b: Seq<F>, k: int) -> bool { t[k].1@ != 0real && exists|i: int| #![trigger basis[i]] 0 <= i < b.len() && t[k].0 == basis[i] && t[k].1@ == b[i]@ }
#[verifier::opaque] pub open spec fn all_rows(t: Seq<(usize, F)>, basis: Seq<usize>, b: Seq<F>) -> bool { forall|i: int| #![trigger b[i]] 0 <= i < b.len() && b[i]@ != 0real ==> exists|k: int| 0 <= k < t.len() && (#[trigger] t[k]).0 == basis[i] && t[k].1@ == b[i]@ }
#[verifier::opaque] pub open spec fn in_row_order(t: Seq<(usize, F)>, basis: Seq<usize>, b: Seq<F>) -> bool { forall|k: int, l: int| #![trigger rows_in(t, basis, b, k, l)] 0 <= k < l < t.len() ==> rows_in(t, basis, b, k, l) }
pub open spec fn rows_in(t: Seq<(usize, F)>, basis: Seq<usize>, b: Seq<F>, k: int, l: int) -> bool { t[k].1@ != 0real && t[l].1@ != 0real && exists|i: int, j: int| #![trigger basis[i], basis[j]] 0 <= i < j < b.len() && t[k].0 == basis[i] && t[l].0 == basis[j] }
pub open spec fn bfs_of(t: Seq<(usize, F)>, basis: Seq<usize>, b: Seq<F>) -> bool { wsorted(t) && (distinct(basis) ==> ssorted(t)) && only_rows(t, basis, b) && all_rows(t, basis, b) }
pub open spec fn distinct(basis: Seq<usize>) -> bool { forall|i: int, j: int| #![trigger basis[i], basis[j]] 0 <= i < j < basis.len() ==> basis[i] != basis[j] }
/// q is p with columns put before it, for other costs
pub open spec fn extends(q: Lp, p: Lp, nr: int) -> bool { q.m == p.m && q.n == p.n + nr && q.rhs == p.rhs && forall|j: int| #![trigger (p.a)(j)] 0 <= j < p.n ==> (p.a)(j) == (q.a)(j + nr) }
/// an artificial problem: the first columns are the identity and cost one each
pub open spec fn artificial(p: Lp, b: Seq<F>) -> bool { p.wf() && p.m == b.len() && p.n >= p.m && (forall|j: int| #![trigger (p.a)(j)] 0 <= j < p.m ==> single((p.a)(j), j)) && (forall|j: int| #![trigger (p.c)(j)] 0 <= j < p.m ==> (p.c)(j) == 1real) && forall|i: int| #![trigger b[i]] 0 <= i < p.m ==> b[i]@ == sv(p.rhs, i) }
/// the basis variable of a row is in the row only, and costs one in the given rows
pub open spec fn begin_row(p: Lp, basis: Seq<usize>, rows: Seq<usize>, b: Seq<F>, i: int) -> bool { basis[i] < p.n && single((p.a)(basis[i] as int), i) && (p.c)(basis[i] as int) == flag(rows)(i) && b[i]@ == sv(p.rhs, i) }
pub open spec fn flag(rows: Seq<usize>) -> V { |i: int| if rows.contains(i as usize) { 1real } else { 0real } }
pub open spec fn partly(p: Lp, basis: Seq<usize>, rows: Seq<usize>, b: Seq<F>) -> bool { p.wf() && p.m == b.len() && p.m == basis.len() && forall|i: int| #![trigger basis[i]] 0 <= i < p.m ==> begin_row(p, basis, rows, b, i) }
pub open spec fn ssorted_u(s: Seq<usize>) -> bool { forall|a: int, b: int| #![trigger s[a], s[b]] 0 <= a < b < s.len() ==> s[a] < s[b] }
pub open spec fn upto(s: Seq<usize>) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i] == i }
/// the problem's columns of a basis have an inverse
pub open spec fn invertible(basis: Seq<usize>, p: Lp) -> bool { exists|v: M| #[trigger] inverts(v, basis, p) }
/// row and column pairs, by row
pub open spec fn pairs_of(basis: Seq<usize>, t: Seq<(usize, usize)>) -> bool { basis.len() == t.len() && forall|k: int| #![trigger t[k]] 0 <= k < t.len() ==> basis[t[k].0 as int] == t[k].1 }
