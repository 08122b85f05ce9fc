// Unit: incidence matrices of networks.
use vstd::prelude::*;
verus! {
//%%include prelude.rs
//%%include sparse_spec.rs
//%%include index_spec.rs
//%%types C=F; MO=usize; O=usize; SparseMatrix<F,F,ColumnMajor>=SparseMatrix<F>; SparseMatrix<ArcDirection,ArcDirection,ColumnMajor>=SparseMatrix<ArcDirection>; DenseVector<F>=Dense<F>; DenseVector=Dense; SparseTuple<ArcDirection>=(usize, ArcDirection); RationalBig=F
pub type SparseTupleVec<T> = Vec<(usize, T)>;
//%%item src/data/linear_algebra/matrix.rs SparseMatrix
//%%end
//%%fn src/data/linear_algebra/matrix.rs SparseMatrix::from_major_ordered_tuples
//% types F=T; SparseMatrix=SparseMatrix<T>; SparseTupleVec=Vec<(usize, T)>
//% in impl<T> SparseMatrix<T>
//% spec
    ensures r.data == data, r.major_dimension_size == major_dimension_size, r.minor_dimension_size == minor_dimension_size
//%%end
//%%fn src/data/linear_algebra/matrix.rs SparseMatrix::nr_rows /ColumnMajor/
//% types F=T
//% in impl<T> SparseMatrix<T>
//% spec
    ensures r == self.minor_dimension_size
//%%end
//%%fn src/data/linear_algebra/matrix.rs SparseMatrix::nr_columns /ColumnMajor/
//% types F=T
//% in impl<T> SparseMatrix<T>
//% spec
    ensures r == self.major_dimension_size
//%%end
//%%fn src/data/linear_algebra/matrix.rs SparseMatrix::iter_major_index
//% types F=T
//% in impl<T> SparseMatrix<T>
//% sig fn iter_major_index(&self, major_index: usize) -> (r: VIter<&(usize, T)>)
//% spec
    requires major_index < self.data@.len(), self.major_dimension_size == self.data@.len()
    ensures r@ == refs(self.data@[major_index as int]@)
//%%end
//%%fn src/data/linear_algebra/matrix.rs SparseMatrix::iter_column /ColumnMajor/
//% types F=T
//% in impl<T> SparseMatrix<T>
//% sig fn iter_column(&self, j: usize) -> (r: VIter<&(usize, T)>)
//% spec
    requires j < self.data@.len(), self.major_dimension_size == self.data@.len()
    ensures r@ == refs(self.data@[j as int]@)
//%%end
//%%fn src/data/linear_algebra/matrix.rs ColumnMajor as MatrixOrder::new
//% types F=T; SparseMatrix<F,C,Self>=SparseMatrix<T>; SparseTupleVec=Vec<(usize, T)>
//% in impl ColumnMajor
//% sig pub fn new<T>(columns: Vec<Vec<(usize, T)>>, nr_rows: usize, nr_columns: usize) -> (r: SparseMatrix<T>)
//% spec
    ensures r.data == columns, r.major_dimension_size == nr_columns, r.minor_dimension_size == nr_rows
//%%end
pub struct ColumnMajor {}
//%%item src/data/linear_algebra/vector/dense.rs Dense
//%%end
//%%fn src/data/linear_algebra/vector/dense.rs Dense as Vector::new
//% in impl Dense<F>
//% sig pub fn new(data: Vec<F>, len: usize) -> (r: Dense<F>)
//% spec
    requires data@.len() == len
    ensures r.data == data
//%%end
//%%item src/data/linear_program/network/representation.rs IncidenceMatrix
//%%end
//%%item src/data/linear_program/network/representation.rs ArcDirection
//%%end
//%%item src/data/linear_program/network/representation.rs ArcIncidenceColumn
//%%end
impl VClone for ArcDirection { #[verifier::external_body] fn v_clone(&self) -> ArcDirection { unimplemented!() } }
/// the number an entry stands for: -1 where the arc leaves, 1 where it enters
pub open spec fn arc_num(d: ArcDirection) -> real { match d { ArcDirection::Incoming => 1real, ArcDirection::Outgoing => 0real - 1real } }
/// the row of a vertex after the removed vertices are gone
pub open spec fn at(idx: Seq<usize>, v: usize) -> usize { (v - rank(idx, v as int)) as usize }
/// the column of the arc from -> to
pub open spec fn arc_col(idx: Seq<usize>, from: usize, to: usize) -> Seq<(usize, ArcDirection)> {
    let (o, i) = ((at(idx, from), ArcDirection::Outgoing), (at(idx, to), ArcDirection::Incoming));
    if idx.contains(from) { if idx.contains(to) { seq![] } else { seq![i] } } else if idx.contains(to) { seq![o] } else if from < to { seq![o, i] } else { seq![i, o] }
}
/// every arc of the first n vertices, with its value, in the order they are listed
pub open spec fn arcs(adj: Seq<Vec<(usize, F)>>, n: int) -> Seq<(usize, (usize, F))> decreases n { if n <= 0 { Seq::empty() } else { arcs(adj, n - 1) + Seq::new(adj[n - 1]@.len(), |k: int| ((n - 1) as usize, adj[n - 1]@[k])) } }
pub open spec fn incr(idx: Seq<usize>) -> bool { forall|a: int, b: int| #![trigger idx[a], idx[b]] 0 <= a < b < idx.len() ==> idx[a] < idx[b] }
pub proof fn search_rank(idx: Seq<usize>, v: usize, r: Result<usize, usize>)
    requires incr(idx), r is Ok ==> r->Ok_0 < idx.len() && idx[r->Ok_0 as int] == v,
      r is Err ==> r->Err_0 <= idx.len() && (forall|a: int| #![trigger idx[a]] 0 <= a < r->Err_0 ==> idx[a] < v) && forall|a: int| #![trigger idx[a]] r->Err_0 <= a < idx.len() ==> idx[a] > v
    ensures r is Ok <==> idx.contains(v), r is Err ==> r->Err_0 == rank(idx, v as int) && r->Err_0 <= v
{
    rank_pos(idx, v as int);
    if r is Err {
        let s = r->Err_0 as int; let q = rank(idx, v as int);
        if idx.contains(v) { let a = choose|a: int| 0 <= a < idx.len() && idx[a] == v; assert(idx[a] == v); }
        if s < q { assert(idx[s] < v && idx[s] > v); } if q < s { assert(idx[q] < v); assert(idx[q] >= v); }
        kept_lt(idx, v as int, v + 1);
    }
}
pub open spec fn pieces(p: Seq<VIter<(Vec<(usize, ArcDirection)>, F)>>, adj: Seq<Vec<(usize, F)>>, idx: Seq<usize>) -> bool {
    forall|j: int| #![trigger p[j]] 0 <= j < p.len() ==> p[j]@.len() == adj[j]@.len() && forall|k: int| #![trigger p[j]@[k]] 0 <= k < p[j]@.len() ==> p[j]@[k].0@ == arc_col(idx, j as usize, adj[j]@[k].0) && p[j]@[k].1 == adj[j]@[k].1
}
pub proof fn joined_arcs(p: Seq<VIter<(Vec<(usize, ArcDirection)>, F)>>, adj: Seq<Vec<(usize, F)>>, idx: Seq<usize>, n: int)
    requires pieces(p, adj, idx), 0 <= n <= p.len(), p.len() == adj.len(), adj.len() <= usize::MAX
    ensures joined(p, n).len() == arcs(adj, n).len(), forall|k: int| #![trigger joined(p, n)[k]] #![trigger arcs(adj, n)[k]] 0 <= k < arcs(adj, n).len() ==> joined(p, n)[k].0@ == arc_col(idx, arcs(adj, n)[k].0, arcs(adj, n)[k].1.0) && joined(p, n)[k].1 == arcs(adj, n)[k].1.1
    decreases n
{
    if n > 0 {
        joined_arcs(p, adj, idx, n - 1); let l = joined(p, n - 1).len() as int; let q = p[n - 1]; assert(q.into_seq() == q@);
        assert forall|k: int| #![trigger joined(p, n)[k]] #![trigger arcs(adj, n)[k]] 0 <= k < arcs(adj, n).len() implies joined(p, n)[k].0@ == arc_col(idx, arcs(adj, n)[k].0, arcs(adj, n)[k].1.0) && joined(p, n)[k].1 == arcs(adj, n)[k].1.1 by {
            if k < l { assert(joined(p, n)[k] == joined(p, n - 1)[k]); assert(arcs(adj, n)[k] == arcs(adj, n - 1)[k]); }
            else { assert(joined(p, n)[k] == q@[k - l]); assert(arcs(adj, n)[k] == ((n - 1) as usize, adj[n - 1]@[k - l])); }
        }
    }
}
/// distinct positions below n: no more than n of them
pub proof fn lemma_inside(a: Seq<usize>, b: Seq<usize>, n: int)
    requires a.len() == b.len(), incr(a), forall|v: usize| #![trigger a.contains(v)] a.contains(v) == b.contains(v), forall|k: int| #![trigger b[k]] 0 <= k < b.len() ==> b[k] < n, 0 <= n
    ensures a.len() <= n, uniq(a, n)
{
    assert forall|k: int| #![trigger a[k]] 0 <= k < a.len() implies a[k] < n by { assert(a.contains(a[k])); assert(b.contains(a[k])); }
    if a.len() > 0 { inc_gap(a, 0, a.len() - 1); }
}
impl IncidenceMatrix {
    pub open spec fn wf(&self) -> bool { incr(self.removed@) && self.data.data@.len() == self.data.major_dimension_size && self.data.minor_dimension_size + self.removed@.len() <= usize::MAX }
}
//%%fn src/data/linear_program/network/representation.rs IncidenceMatrix::new
//% types F=F
//% spec
    requires adjacency_matrix.data@.len() == adjacency_matrix.major_dimension_size, adjacency_matrix.major_dimension_size == adjacency_matrix.minor_dimension_size,
      forall|j: int, k: int| #![trigger adjacency_matrix.data@[j]@[k]] 0 <= j < adjacency_matrix.data@.len() && 0 <= k < adjacency_matrix.data@[j]@.len() ==> adjacency_matrix.data@[j]@[k].0 < adjacency_matrix.data@.len() && adjacency_matrix.data@[j]@[k].0 != j,
      removed@.no_duplicates(), forall|k: int| #![trigger removed@[k]] 0 <= k < removed@.len() ==> removed@[k] < adjacency_matrix.data@.len()
    ensures ({ let idx = r.0.removed@; let all = arcs(adjacency_matrix.data@, adjacency_matrix.data@.len() as int);
      &&& r.0.wf() && idx.len() == removed@.len() && forall|v: usize| #![trigger idx.contains(v)] idx.contains(v) == removed@.contains(v)
      &&& r.0.data.minor_dimension_size == adjacency_matrix.data@.len() - removed@.len()
      &&& r.0.data.data@.len() == all.len() && r.1.data@.len() == all.len()
      &&& forall|k: int| #![trigger r.0.data.data@[k]] 0 <= k < all.len() ==> r.0.data.data@[k]@ == arc_col(idx, all[k].0, all[k].1.0)
      &&& forall|k: int| #![trigger r.1.data@[k]] 0 <= k < all.len() ==> r.1.data@[k] == all[k].1.1 })
//% closure 0 |c0: (usize, Vec<(usize, F)>)| -> (r: VIter<(Vec<(usize, ArcDirection)>, F)>) requires incr(removed@), c0.0 < nr_vertices, (forall|k: int| #![trigger c0.1@[k]] 0 <= k < c0.1@.len() ==> c0.1@[k].0 < nr_vertices && c0.1@[k].0 != c0.0) ensures r@.len() == c0.1@.len() && forall|k: int| #![trigger r@[k]] 0 <= k < r@.len() ==> r@[k].0@ == arc_col(removed@, c0.0, c0.1@[k].0) && r@[k].1 == c0.1@[k].1
//% closure 1 |c0: (usize, F)| -> (r: (Vec<(usize, ArcDirection)>, F)) requires incr(removed_ref@), c0.0 != from ensures r.0@ =~= arc_col(removed_ref@, from, c0.0) && r.1 == c0.1
//% before "let nr_edges"
    proof {
        let adj = adj0; let n = adj.len() as int;
        assert(exists|p: Seq<VIter<(Vec<(usize, ArcDirection)>, F)>>| #[trigger] p.len() == n && pieces(p, adj, removed@) && joined(p, n).len() == edges@.len() && joined(p, n).len() == values@.len() && forall|i: int| #![trigger joined(p, n)[i]] 0 <= i < joined(p, n).len() ==> edges@[i] == joined(p, n)[i].0 && values@[i] == joined(p, n)[i].1);
        let p = choose|p: Seq<VIter<(Vec<(usize, ArcDirection)>, F)>>| #[trigger] p.len() == n && pieces(p, adj, removed@) && joined(p, n).len() == edges@.len() && joined(p, n).len() == values@.len() && forall|i: int| #![trigger joined(p, n)[i]] 0 <= i < joined(p, n).len() ==> edges@[i] == joined(p, n)[i].0 && values@[i] == joined(p, n)[i].1;
        joined_arcs(p, adj, removed@, n);
    }
//% start
    let ghost adj0 = adjacency_matrix.data@; let ghost rem0 = removed@;
//% after "removed.sort_unstable"
    proof { assert(incr(removed@)); lemma_inside(removed@, rem0, adj0.len() as int); }
//% after "let to_deleted"
    proof { search_rank(removed_ref@, from, from_deleted); search_rank(removed_ref@, to, to_deleted); if !removed_ref@.contains(from) && from < to { kept_lt(removed_ref@, from as int, to as int); } if !removed_ref@.contains(to) && to < from { kept_lt(removed_ref@, to as int, from as int); } }
//%%end
//%%fn src/data/linear_program/network/representation.rs IncidenceMatrix::column
//% spec
    requires self.wf(), j < self.data.data@.len()
    ensures r@ == self.data.data@[j as int]@
//%%end
//%%fn src/data/linear_program/network/representation.rs IncidenceMatrix::nr_vertices
//% spec
    requires self.wf()
    ensures r == self.data.minor_dimension_size + self.removed@.len()
//%%end
//%%fn src/data/linear_program/network/representation.rs IncidenceMatrix::nr_edges
//% spec
    requires self.wf()
    ensures r == self.data.data@.len()
//%%end
//%%fn src/data/linear_program/network/representation.rs ArcIncidenceColumn as Identity::identity
//% spec
    ensures r.0@ == seq![(i, ArcDirection::Incoming)]
//%%end
pub open spec fn gone<T>(a: Seq<(usize, T)>, b: Seq<(usize, T)>, idx: Seq<usize>) -> bool { exists|m: Seq<int>| #[trigger] spremoved(a, b, m, idx) }
//%%fn src/data/linear_program/network/representation.rs ArcIncidenceColumn as IntoFilteredColumn::into_filtered
//% sig pub fn into_filtered(self, to_remove: &[usize]) -> (r: ArcIncidenceColumn)
//% spec
    requires ssorted(self.0@), incr(to_remove@)
    ensures gone(self.0@, r.0@, to_remove@)
//%%end
// ---- exact arithmetic with arc directions ----
impl F { #[verifier::external_body] pub fn negate(&mut self) ensures final(self)@ == 0real - old(self)@ { unimplemented!() } }
//%%fn src/data/linear_program/network/representation.rs RationalBig as From::from /From<&ArcDirection>/
//% name from_dir_ref
//% in impl F
//% spec
    ensures r@ == arc_num(*direction)
//%%end
//%%fn src/data/linear_program/network/representation.rs RationalBig as From::from /From<ArcDirection>/
//% name from_dir
//% in impl F
//% path From::from=F::from_dir_ref
//% spec
    ensures r@ == arc_num(direction)
//%%end
//%%fn src/data/linear_program/network/representation.rs RationalBig as AddAssign::add_assign /AddAssign<&ArcDirection>/
//% name add_assign_ref
//% in impl F
//% spec
    ensures final(self)@ == old(self)@ + arc_num(*rhs)
//%%end
//%%fn src/data/linear_program/network/representation.rs RationalBig as Add::add /Add<&ArcDirection>|RationalBig/
//% name add_ref
//% in impl F
//% path AddAssign::add_assign=F::add_assign_ref
//% sig pub fn add_ref(self, rhs: &ArcDirection) -> (r: F)
//% spec
    ensures r@ == self@ + arc_num(*rhs)
//%%end
//%%fn src/data/linear_program/network/representation.rs RationalBig as AddAssign::add_assign /AddAssign<ArcDirection>/
//% name add_assign_dir
//% in impl F
//% path AddAssign::add_assign=F::add_assign_ref
//% spec
    ensures final(self)@ == old(self)@ + arc_num(rhs)
//%%end
//%%fn src/data/linear_program/network/representation.rs RationalBig as Add::add /Add<ArcDirection>|RationalBig/
//% name add_dir
//% in impl F
//% path AddAssign::add_assign=F::add_assign_dir
//% sig pub fn add_dir(self, rhs: ArcDirection) -> (r: F)
//% spec
    ensures r@ == self@ + arc_num(rhs)
//%%end
//%%fn src/data/linear_program/network/representation.rs RationalBig as SubAssign::sub_assign /SubAssign<&ArcDirection>/
//% name sub_assign_ref
//% in impl F
//% spec
    ensures final(self)@ == old(self)@ - arc_num(*rhs)
//%%end
//%%fn src/data/linear_program/network/representation.rs RationalBig as Sub::sub /Sub<&ArcDirection>|RationalBig/
//% name sub_ref
//% in impl F
//% path SubAssign::sub_assign=F::sub_assign_ref
//% sig pub fn sub_ref(self, rhs: &ArcDirection) -> (r: F)
//% spec
    ensures r@ == self@ - arc_num(*rhs)
//%%end
//%%fn src/data/linear_program/network/representation.rs RationalBig as SubAssign::sub_assign /SubAssign<ArcDirection>/
//% name sub_assign_dir
//% in impl F
//% path SubAssign::sub_assign=F::sub_assign_ref
//% spec
    ensures final(self)@ == old(self)@ - arc_num(rhs)
//%%end
//%%fn src/data/linear_program/network/representation.rs RationalBig as Sub::sub /Sub<ArcDirection>|RationalBig/
//% name sub_dir
//% in impl F
//% path SubAssign::sub_assign=F::sub_assign_dir
//% sig pub fn sub_dir(self, rhs: ArcDirection) -> (r: F)
//% spec
    ensures r@ == self@ - arc_num(rhs)
//%%end
//%%fn src/data/linear_program/network/representation.rs RationalBig as MulAssign::mul_assign /MulAssign<&ArcDirection>/
//% name mul_assign_ref
//% in impl F
//% spec
    ensures final(self)@ == old(self)@ * arc_num(*rhs)
//%%end
//%%fn src/data/linear_program/network/representation.rs RationalBig as Mul::mul /Mul<&ArcDirection>|RationalBig/
//% name mul_ref
//% in impl F
//% path MulAssign::mul_assign=F::mul_assign_ref
//% sig pub fn mul_ref(self, rhs: &ArcDirection) -> (r: F)
//% spec
    ensures r@ == self@ * arc_num(*rhs)
//%%end
//%%fn src/data/linear_program/network/representation.rs RationalBig as MulAssign::mul_assign /MulAssign<ArcDirection>/
//% name mul_assign_dir
//% in impl F
//% path MulAssign::mul_assign=F::mul_assign_ref
//% spec
    ensures final(self)@ == old(self)@ * arc_num(rhs)
//%%end
//%%fn src/data/linear_program/network/representation.rs RationalBig as Mul::mul /Mul<ArcDirection>|RationalBig/
//% name mul_dir
//% in impl F
//% path MulAssign::mul_assign=F::mul_assign_dir
//% sig pub fn mul_dir(self, rhs: ArcDirection) -> (r: F)
//% spec
    ensures r@ == self@ * arc_num(rhs)
//%%end
//%%fn src/data/linear_program/network/representation.rs RationalBig as DivAssign::div_assign /DivAssign<&ArcDirection>/
//% name div_assign_ref
//% in impl F
//% spec
    ensures final(self)@ == old(self)@ / arc_num(*rhs)
//%%end
//%%fn src/data/linear_program/network/representation.rs RationalBig as Div::div /Div<&ArcDirection>|RationalBig/
//% name div_ref
//% in impl F
//% path DivAssign::div_assign=F::div_assign_ref
//% sig pub fn div_ref(self, rhs: &ArcDirection) -> (r: F)
//% spec
    ensures r@ == self@ / arc_num(*rhs)
//%%end
//%%fn src/data/linear_program/network/representation.rs RationalBig as DivAssign::div_assign /DivAssign<ArcDirection>/
//% name div_assign_dir
//% in impl F
//% path DivAssign::div_assign=F::div_assign_ref
//% spec
    ensures final(self)@ == old(self)@ / arc_num(rhs)
//%%end
//%%fn src/data/linear_program/network/representation.rs RationalBig as Div::div /Div<ArcDirection>|RationalBig/
//% name div_dir
//% in impl F
//% path DivAssign::div_assign=F::div_assign_dir
//% sig pub fn div_dir(self, rhs: ArcDirection) -> (r: F)
//% spec
    ensures r@ == self@ / arc_num(rhs)
//%%end
//%%fn src/data/linear_program/network/representation.rs RationalBig as Mul::mul /Mul<&ArcDirection>|&RationalBig/
//% name mul_both_ref
//% in impl F
//% sig pub fn mul_both_ref(&self, rhs: &ArcDirection) -> (r: F)
//% spec
    ensures r@ == self@ * arc_num(*rhs)
//%%end
}
fn main() {}
