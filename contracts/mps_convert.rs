// Unit: from the lines of a problem file to a problem in general form.
use vstd::prelude::*;
verus! {
//%%include prelude.rs
//%%include text_spec.rs
//%%include sparse_spec.rs
//%%types C=F; O=usize; MO=usize; SparseTupleVec=Vec<(usize, F)>
//%%item src/data/linear_algebra/matrix.rs SparseMatrix
//%%end
//%%types F=F; Column<F>=Column; Bound<F>=Bound; MPS<FI>=MPS; FI=F; FO=F; OF=F; OFI=F; OFO=F; ShiftedVariable<FO>=Variable; ShiftedVariable<F>=Variable; RemovedVariable<F>=RemovedVariable; ShiftedVariable=Variable; BoundType<FI>=BoundType; BoundType<F>=BoundType; Bound<FI>=Bound; SparseTuple<BoundType<F>>=(usize, BoundType); String=Str; Option<OF>=Option<F>; SparseTuple<F>=(usize, F); SparseTuple<FI>=(usize, F); SparseTupleVec=Vec<(usize, F)>; Rhs<F>=Rhs; Rhs<FI>=Rhs; Rhs<OFI>=Rhs; Range<F>=Range; Range<FI>=Range; Column<FI>=Column; RangedConstraintRelation<F>=RangedConstraintRelation; RangedConstraintRelation<FO>=RangedConstraintRelation; RangedConstraintRelation<OFO>=RangedConstraintRelation; DenseVector<FO>=Dense; DenseVector<OFO>=Dense; DenseVector<F>=Dense; DenseVector<OF>=Dense; SparseMatrix=SparseMatrix<F>; Self::Error=Inconsistency; GeneralForm<FO>=GeneralForm; Variable<F>=Variable; RemovedVariable<F>=RemovedVariable; Variable<OF>=Variable; OriginalVariable<F>=OriginalVariable; RangedConstraintRelation<OF>=RangedConstraintRelation
//%%path ShiftedVariable=Variable
//%%item src/data/linear_algebra/vector/dense.rs Dense
//%%end
//%%item src/data/linear_program/elements.rs ConstraintRelation
//%%end
//%%item src/data/linear_program/elements.rs RangedConstraintRelation
//%%end
//%%item src/data/linear_program/elements.rs VariableType
//%%end
//%%item src/data/linear_program/elements.rs Objective
//%%end
//%%item src/data/linear_program/general_form/mod.rs Variable
//%%end
//%%item src/data/linear_program/general_form/mod.rs RemovedVariable
//%%end
//%%item src/data/linear_program/general_form/mod.rs OriginalVariable
//%%end
//%%item src/data/linear_program/general_form/mod.rs GeneralForm
//%%end
//%%item src/io/mps/mod.rs BoundType
//%%end
//%%item src/io/mps/mod.rs Bound
//%%end
//%%item src/io/mps/mod.rs Row
//%%end
//%%item src/io/mps/mod.rs Rhs
//%%end
//%%item src/io/mps/mod.rs Range
//%%end
//%%item src/io/mps/mod.rs Column
//%%end
//%%item src/io/mps/mod.rs MPS
//%%end
//%%include mps_spec.rs
//%%include mps_bounds_spec.rs
//%%include mps_rows_spec.rs
pub open spec fn rows_wf(d: Seq<Vec<(usize, F)>>, n: int) -> bool { forall|j: int| #![trigger d[j]] 0 <= j < d.len() ==> swf(d[j]@, n) }
impl SparseMatrix<F> {
    pub open spec fn wf(&self) -> bool { self.data@.len() == self.major_dimension_size && rows_wf(self.data@, self.minor_dimension_size as int) }
    pub open spec fn at(&self, j: int, i: int) -> real { sv(self.data@[j]@, i) }
}
//%%use matrix src/data/linear_algebra/matrix.rs SparseMatrix::from_major_ordered_tuples
//%%use mps_bounds src/io/mps/convert.rs process_bounds
//%%use mps_rows src/io/mps/convert.rs compute_constraint_info
//%%item src/data/linear_algebra/matrix.rs ColumnMajor
//%%end
//%%path ColumnMajor::new=ColumnMajor::column_major_new
//%%fn src/data/linear_algebra/matrix.rs ColumnMajor as MatrixOrder::new
//% name column_major_new
//% spec
    ensures r.data == columns, r.major_dimension_size == nr_columns, r.minor_dimension_size == nr_rows
//%%end
/// a column's entries without the zeros: the same numbers
pub open spec fn stored(s: Seq<(usize, F)>, r: Seq<(usize, F)>) -> bool { nonzero(r) && ssorted(r) && (forall|n: int| #![trigger bounded(r, n)] bounded(s, n) ==> bounded(r, n)) && forall|i: int| #![trigger sv(r, i)] sv(r, i) == sv(s, i) }
pub open spec fn columns_ok(c: Seq<Column>, n: int) -> bool { forall|j: int| #![trigger c[j]] 0 <= j < c.len() ==> ssorted(c[j].values@) && bounded(c[j].values@, n) }
pub open spec fn fresh(v: Variable, c: Column, cost: real) -> bool { v.variable_type == c.variable_type && v.cost@ == cost && is_unbounded(v) && v.shift@ == 0real && !v.flipped }
/// a variable: its column's type unless a line says otherwise, the cost listed for it, and the bounds of its lines
pub open spec fn variable_of(v: Variable, c: Column, cost: real, s: Said) -> bool { v.variable_type == vtype(c.variable_type, s.whole) && v.cost@ == cost && v.shift@ == 0real && !v.flipped && ov(v.lower_bound) == lower_of(s) && ov(v.upper_bound) == s.hi }
pub open spec fn drop_of(s: Seq<(usize, F)>, r: Seq<(usize, F)>, m: Seq<int>) -> bool { m.len() == r.len() && increasing(m) && (forall|j: int| #![trigger r[j]] 0 <= j < r.len() ==> 0 <= m[j] < s.len() && r[j].0 == s[m[j]].0 && r[j].1@ == s[m[j]].1@ && r[j].1@ != 0real) && (forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i].1@ == 0real || exists|j: int| 0 <= j < m.len() && #[trigger] m[j] == i) }
pub proof fn dropped(s: Seq<(usize, F)>, r: Seq<(usize, F)>, m: Seq<int>)
    requires ssorted(s), drop_of(s, r, m)
    ensures stored(s, r)
{
    assert forall|a: int, b: int| #![trigger r[a], r[b]] 0 <= a < b < r.len() implies r[a].0 < r[b].0 by { let (x, y) = (r[a], r[b]); assert(Some((x, y)) is Some); assert(m[a] < m[b]); assert(s[m[a]].0 < s[m[b]].0); }
    assert forall|n: int| #![trigger bounded(r, n)] bounded(s, n) implies bounded(r, n) by { assert forall|k: int| #![trigger r[k]] 0 <= k < r.len() implies r[k].0 < n by { let x = r[k]; assert(Some(x) is Some); assert(s[m[k]].0 < n); } }
    assert forall|i: int| #![trigger sv(r, i)] sv(r, i) == sv(s, i) by {
        if exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0 == i {
            let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0 == i; sv_at(s, k);
            if s[k].1@ == 0real { assert forall|j: int| 0 <= j < r.len() implies (#[trigger] r[j]).0 != i by { let x = r[j]; assert(Some(x) is Some); let l = m[j]; if l < k { assert(s[l].0 < s[k].0); } else if k < l { assert(s[k].0 < s[l].0); } } sv_absent(r, i); }
            else { let j = choose|j: int| 0 <= j < m.len() && #[trigger] m[j] == k; let x = r[j]; assert(Some(x) is Some); sv_at(r, j); }
        } else { sv_absent(s, i); assert forall|j: int| 0 <= j < r.len() implies (#[trigger] r[j]).0 != i by { let x = r[j]; assert(Some(x) is Some); assert(s[m[j]].0 != i); } sv_absent(r, i); }
    }
}
//%%fn src/io/mps/convert.rs compute_variable_info
//% types Result<(Vec<ShiftedVariable<FO>>,SparseMatrix<FO,FO,ColumnMajor>,Vec<String>),Inconsistency>=Result<(Vec<Variable>, SparseMatrix<F>, Vec<Str>), Inconsistency>
//% collected (Variable, (Vec<(usize, F)>, Str))
//% closure 0 |c0: &(usize, F)| -> (r: bool) ensures r == (c0.0 == j)
//% closure 1 |c0: (usize, F)| -> (r: F) ensures r@ == c0.1@
//% closure 2 |c0: (Vec<(usize, F)>, Str)| -> (r: (Vec<(usize, F)>, Str)) requires ssorted(c0.0@) ensures r.1 == c0.1, stored(c0.0@, r.0@)
//% closure 3 |c0: (usize, F)| -> (r: (usize, F)) ensures r.0 == c0.0, r.1@ == c0.1@
//% closure 4 |c0: &(usize, F)| -> (r: bool) ensures r == (c0.1@ != 0real)
//% spec
    requires ssorted(cost_values@), bounded(cost_values@, columns@.len() as int), columns_ok(columns@, nr_rows as int), forall|t: int| #![trigger lines(bounds@)[t]] 0 <= t < lines(bounds@).len() ==> lines(bounds@)[t].0 < columns@.len()
    ensures (r is Ok) == (fits(lines(bounds@)) && forall|j: int| #![trigger said(lines(bounds@), j)] 0 <= j < columns@.len() ==> !bounded_free(said(lines(bounds@), j))),
      r is Ok ==> ({ let (v, m, names) = r->Ok_0; v@.len() == columns@.len() && names@.len() == columns@.len() && m.wf() && m.major_dimension_size == columns@.len() && m.minor_dimension_size == nr_rows
        && (forall|j: int| #![trigger v@[j]] 0 <= j < columns@.len() ==> variable_of(v@[j], columns@[j], sv(cost_values@, j), said(lines(bounds@), j)))
        && (forall|j: int| #![trigger names@[j]] 0 <= j < columns@.len() ==> names@[j] == columns@[j].name)
        && (forall|j: int, i: int| #![trigger m.at(j, i)] 0 <= j < columns@.len() ==> m.at(j, i) == sv(columns@[j].values@, i)) })
//% start
    let ghost (all, cs) = (cost_values@, columns@);
    let ghost mut n: int = 0;
//% loop 0
    invariant ix0 <= cs.len(), it0@ == enum_seq(cs), collected@.len() == ix0, 0 <= n <= all.len(), cost_values@ =~= all.subrange(n, all.len() as int), ssorted(all),
      forall|k: int| #![trigger all[k]] 0 <= k < n ==> all[k].0 < ix0, forall|k: int| #![trigger all[k]] n <= k < all.len() ==> ix0 <= all[k].0,
      forall|i: int| #![trigger collected@[i]] 0 <= i < ix0 ==> fresh(collected@[i].0, cs[i], sv(all, i)) && collected@[i].1 == (cs[i].values, cs[i].name)
    decreases it0@.len() - ix0
//% loop_start 0
    let ghost (n0, c0) = (n, collected@);
    proof { let i = ix0 - 1; if n < all.len() { assert(all[n].0 >= i); }
        if n < all.len() && all[n].0 == i { sv_at(all, n); } else { assert forall|k: int| 0 <= k < all.len() implies (#[trigger] all[k]).0 != i by { if k > n { assert(all[n].0 < all[k].0); } } sv_absent(all, i); } }
//% loop_end 0
    proof { n = all.len() - cost_values@.len(); assert forall|k: int| #![trigger all[k]] n <= k < all.len() implies ix0 <= all[k].0 by { if n0 < k { assert(all[n0].0 < all[k].0); } }
        assert forall|t: int| #![trigger collected@[t]] 0 <= t < ix0 implies fresh(collected@[t].0, cs[t], sv(all, t)) && collected@[t].1 == (cs[t].values, cs[t].name) by { if t < ix0 - 1 { assert(collected@[t] == c0[t]); } } }
//% before "process_bounds"
    let ghost (i0, vn) = (info@, values_names@);
    proof { assert forall|j: int| #![trigger vn[j]] 0 <= j < cs.len() implies vn[j] == (cs[j].values, cs[j].name) && fresh(i0[j], cs[j], sv(all, j)) by { let z = i0[j]; assert(Some(z) is Some); }
        assert forall|j: int| #![trigger i0[j]] 0 <= j < i0.len() implies is_unbounded(i0[j]) by { assert(vn[j] == (cs[j].values, cs[j].name)); } }
//% before "(collection, names)"
    proof { let (s, r) = (c0.0@, collection@);
        assert(exists|m: Seq<int>| #![trigger increasing(m)] drop_of(s, r, m));
        dropped(s, r, choose|m: Seq<int>| drop_of(s, r, m)); }
//% end
    proof { assert forall|j: int| #![trigger columns.data@[j]] 0 <= j < cs.len() implies stored(cs[j].values@, columns.data@[j]@) && swf(columns.data@[j]@, nr_rows as int) && names@[j] == cs[j].name by { assert(vn[j] == (cs[j].values, cs[j].name)); assert(bounded(cs[j].values@, nr_rows as int)); let z = names@[j]; assert(Some(z) is Some); }
        assert forall|j: int| #![trigger names@[j]] 0 <= j < cs.len() implies names@[j] == cs[j].name by { let z = columns.data@[j]; assert(Some(z) is Some); }
        assert forall|j: int, i: int| #![trigger columns.at(j, i)] 0 <= j < cs.len() implies columns.at(j, i) == sv(cs[j].values@, i) by { let z = columns.data@[j]; assert(Some(z) is Some); }
        assert forall|j: int| #![trigger info@[j]] 0 <= j < cs.len() implies variable_of(info@[j], cs[j], sv(all, j), said(lines(bounds@), j)) by { let z = i0[j]; assert(Some(z) is Some); assert(vn[j] == (cs[j].values, cs[j].name)); } }
//%%end
//%%fn src/data/linear_program/general_form/mod.rs GeneralForm::new
//% in impl GeneralForm
//% closure 0 |c0: (usize, Str)| -> (r: (Str, OriginalVariable)) ensures r == (c0.1, OriginalVariable::Active(c0.0))
//% spec
    ensures r.objective == objective, r.constraints == constraints, r.constraint_types == constraint_types, r.b == b, r.fixed_cost == fixed_cost, r.variables == variables,
      r.original_variables@.len() == variable_names@.len(), forall|j: int| #![trigger r.original_variables@[j]] 0 <= j < variable_names@.len() ==> r.original_variables@[j] == (variable_names@[j], OriginalVariable::Active(j as usize)),
      r.from_active_to_original@.len() == variables@.len(), forall|j: int| #![trigger r.from_active_to_original@[j]] 0 <= j < variables@.len() ==> r.from_active_to_original@[j] == j
//%%end
/// what is read from a file satisfies this: the entries of each column, the costs, right-hand sides, ranges and bounds refer to rows and variables that exist, the entries of a column and the costs are listed in order without duplicates
pub open spec fn readable(p: MPS) -> bool {
    let (m, n) = (p.rows@.len(), p.columns@.len());
    ssorted(p.cost_values@) && bounded(p.cost_values@, n as int) && columns_ok(p.columns@, m as int)
    && (forall|t: int| #![trigger lines(p.bounds@)[t]] 0 <= t < lines(p.bounds@).len() ==> lines(p.bounds@)[t].0 < n)
    && (forall|t: int| #![trigger given(p.rhss@)[t]] 0 <= t < given(p.rhss@).len() ==> given(p.rhss@)[t].0 < m)
    && (forall|t: int| #![trigger spans(p.ranges@)[t]] 0 <= t < spans(p.ranges@).len() ==> spans(p.ranges@)[t].0 < m)
}
pub open spec fn rows_meant(p: MPS, g: GeneralForm) -> bool {
    g.constraint_types@.len() == p.rows@.len() && g.b.data@.len() == p.rows@.len()
    && forall|i: int| #![trigger g.constraint_types@[i]] 0 <= i < p.rows@.len() ==> row_of(p.rows@[i], i, given(p.rhss@), spans(p.ranges@), g.constraint_types@[i], g.b.data@[i]@)
}
pub open spec fn columns_meant(p: MPS, g: GeneralForm) -> bool {
    let n = p.columns@.len();
    g.constraints.wf() && g.constraints.major_dimension_size == n && g.constraints.minor_dimension_size == p.rows@.len()
    && (forall|j: int, i: int| #![trigger g.constraints.at(j, i)] 0 <= j < n ==> g.constraints.at(j, i) == sv(p.columns@[j].values@, i))
    && g.variables@.len() == n && (forall|j: int| #![trigger g.variables@[j]] 0 <= j < n ==> variable_of(g.variables@[j], p.columns@[j], sv(p.cost_values@, j), said(lines(p.bounds@), j)))
    && g.original_variables@.len() == n && (forall|j: int| #![trigger g.original_variables@[j]] 0 <= j < n ==> g.original_variables@[j] == (p.columns@[j].name, OriginalVariable::Active(j as usize)))
}
//%%fn src/io/mps/convert.rs MPS as TryInto::try_into
//% spec
    requires readable(self)
    ensures r is Ok ==> r->Ok_0.objective == self.objective && r->Ok_0.fixed_cost@ == 0real && rows_meant(self, r->Ok_0) && columns_meant(self, r->Ok_0),
      r is Err ==> !fits(lines(self.bounds@)) || (exists|j: int| 0 <= j < self.columns@.len() && bounded_free(#[trigger] said(lines(self.bounds@), j))) || !once_each(spans(self.ranges@)) || torn(given(self.rhss@), spans(self.ranges@)) || !agree(given(self.rhss@), self.rows@)
//%%end
} fn main() {}
