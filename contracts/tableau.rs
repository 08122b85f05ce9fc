// Unit: the simplex tableau.
use vstd::prelude::*;
verus! {
//%%include prelude.rs
//%%include sparse_spec.rs
//%%include index_spec.rs
//%%include simplex_spec.rs
//%%include carry_spec.rs
//%%include tableau_spec.rs
//%%use vector src/data/linear_algebra/vector/sparse.rs Sparse as Vector::new
//%%use carry src/algorithm/two_phase/tableau/inverse_maintenance/carry/mod.rs Carry as InverseMaintainer::basis_column_index_for_row
//%%use carry src/algorithm/two_phase/tableau/inverse_maintenance/carry/mod.rs Carry as InverseMaintainer::cost_difference
//%%use carry src/algorithm/two_phase/tableau/inverse_maintenance/carry/mod.rs Carry as InverseMaintainer::generate_column
//%%use carry src/algorithm/two_phase/tableau/inverse_maintenance/carry/mod.rs Carry as InverseMaintainer::generate_element
//%%use carry src/algorithm/two_phase/tableau/inverse_maintenance/carry/mod.rs Carry as InverseMaintainer::get_objective_function_value
//%%use carry src/algorithm/two_phase/tableau/inverse_maintenance/carry/mod.rs Carry as InverseMaintainer::get_constraint_value
//%%use carry src/algorithm/two_phase/tableau/inverse_maintenance/carry/mod.rs Carry as InverseMaintainer::change_basis
//%%use carry src/algorithm/two_phase/tableau/inverse_maintenance/carry/mod.rs Carry as InverseMaintainer::current_bfs
//%%fn src/algorithm/two_phase/tableau/mod.rs Tableau::nr_rows
//% spec
    ensures r == self.p().m
//%%end
//%%fn src/algorithm/two_phase/tableau/mod.rs Tableau::nr_columns
//% spec
    ensures r == self.p().n
//%%end
//%%fn src/algorithm/two_phase/tableau/mod.rs Tableau::is_in_basis
//% spec
    requires self.holds()
    ensures r == self.basic(column as int)
//%%end
//%%fn src/algorithm/two_phase/tableau/mod.rs Tableau::update_basis_indices
//% spec
    ensures *final(self) == (Tableau { basis_columns: final(self).basis_columns, ..*old(self) }), final(self).basis_columns@ == old(self).basis_columns@.remove(leaving_column).insert(pivot_column)
//%%end
//%%fn src/algorithm/two_phase/tableau/mod.rs Tableau::original_column
//% spec
    requires j < self.p().n
    ensures r.es() == (self.p().a)(j as int)
//%%end
//%%fn src/algorithm/two_phase/tableau/mod.rs Tableau::relative_cost
//% spec
    requires self.holds(), j < self.p().n
    ensures r@ == self.rc(j as int)
//%%end
//%%fn src/algorithm/two_phase/tableau/mod.rs Tableau::generate_column
//% spec
    requires self.holds(), j < self.p().n
    ensures r.of(self.inv()), shows(r.c(), self, j as int)
//%%end
//%%fn src/algorithm/two_phase/tableau/mod.rs Tableau::generate_element
//% spec
    requires self.holds(), i < self.p().m, j < self.p().n
    ensures r is Some ==> r->0@ == dots((self.p().a)(j as int), self.inv())(i as int), r is None ==> dots((self.p().a)(j as int), self.inv())(i as int) == 0real
//%%end
//%%fn src/algorithm/two_phase/tableau/mod.rs Tableau::bring_into_basis
//% spec
    requires old(self).holds(), pivot_row_index < old(self).p().m, pivot_column_index < old(self).p().n, !is_basic(old(self).basis(), pivot_column_index as int),
      column_computation_info.of(old(self).inv()), shows(column_computation_info.c(), old(self), pivot_column_index as int),
      column_computation_info.c().at(pivot_row_index as int) != 0real,
      cost@ == old(self).rc(pivot_column_index as int)
    ensures final(self).holds(), final(self).kind == old(self).kind, final(self).basis() == old(self).basis().update(pivot_row_index as int, pivot_column_index),
      forall|i: int| #![trigger final(self).b()[i]] 0 <= i < old(self).p().m ==> final(self).b()[i]@ == elim(num(old(self).b()), dots((old(self).p().a)(pivot_column_index as int), old(self).inv()), pivot_row_index as int, i),
      r.pivot_row_index == pivot_row_index, r.pivot_column_index == pivot_column_index, change(r, old(self).p(), old(self).basis(), old(self).inv(), final(self).basis(), final(self).inv()),
      objective(final(self).b(), final(self).basis(), final(self).p()) == objective(old(self).b(), old(self).basis(), old(self).p()) + cost@ * (old(self).b()[pivot_row_index as int]@ / column_computation_info.c().at(pivot_row_index as int))
//% end
    proof {
        new_basic(old(self).inv(), old(self).basis(), old(self).p(), pivot_row_index as int, pivot_column_index, old(self).basis_columns@, self.basis_columns@);
    }
//%%end
//%%fn src/algorithm/two_phase/tableau/mod.rs Tableau::variable_value
//% spec
    requires self.holds(), column < self.p().n
    ensures r@ == basic(self.b(), self.basis(), self.p())(column as int)
//% closure 0 |c0: &usize| -> (r: bool)
    requires *c0 < self.p().m ensures r == (self.basis()[*c0 as int] == column)
//% start
    proof {
        lemma_in_range(self.p().m); different(self.inv(), self.basis(), self.p());
        if is_basic(self.basis(), column as int) { let i = choose|i: int| 0 <= i < self.basis().len() && #[trigger] self.basis()[i] == column; let s = VIntoIter::into_seq(core::ops::Range { start: 0usize, end: self.p().m as usize }); assert(s[i] == i); basic_at(num(self.b()), self.basis(), self.p().m, i); } else { basic_not(num(self.b()), self.basis(), self.p().m, column as int); }
    }
//% after "let row"
    proof { basic_at(num(self.b()), self.basis(), self.p().m, row as int); }
//%%end
//%%fn src/algorithm/two_phase/tableau/mod.rs Tableau::current_bfs
//% spec
    requires self.holds()
    ensures r.wf(), r.len == self.p().n, forall|j: int| #![trigger r.at(j)] 0 <= j < self.p().n ==> r.at(j) == basic(self.b(), self.basis(), self.p())(j)
//% start
    proof { different(self.inv(), self.basis(), self.p()); assert forall|t: Seq<(usize, F)>| #[trigger] bfs_of(t, self.basis(), self.b()) implies swf(t, self.p().n) && forall|j: int| #![trigger sv(t, j)] 0 <= j < self.p().n ==> sv(t, j) == basic(self.b(), self.basis(), self.p())(j) by { bfs_point(t, self.b(), self.basis(), self.p()); } }
//%%end
//%%fn src/algorithm/two_phase/tableau/mod.rs Tableau::objective_function_value
//% spec
    requires self.holds()
    ensures r@ == objective(self.b(), self.basis(), self.p())
//%%end
//%%fn src/algorithm/two_phase/tableau/mod.rs Tableau::select_primal_pivot_row
//% spec
    requires self.holds(), column.wf(), column.len == self.p().m
    ensures r is None ==> unblocked(*column, self),
      r is Some ==> blocks(*column, self, r->0 as int) && first_index(num(self.b()), svf(column.data@), self.basis(), r->0 as int)
//% loop 0
    invariant ix0 <= it0@.len(), own(it0@) == column.data@, column.wf(), column.len == self.p().m, self.holds(), leaving(column.data@, ix0 as int, self.b(), self.basis(), min_values)
    decreases it0@.len() - ix0
//% closure 0 |c0: (usize, F, usize)| -> (r: usize) ensures r == c0.0
//% loop_start 0
    let ghost m0 = min_values;
    proof { let s = column.data@; let q = ix0 - 1; assert(s[q] == own(it0@)[q]); assert(s[q].0 < column.len); }
//% loop_end 0
    proof {
        let s = column.data@; let q = ix0 - 1; assert(s[q] == own(it0@)[q]);
        if min_values is Some {
            let (r, t, l) = ((min_values->0).0, (min_values->0).1@, (min_values->0).2);
            assert(exists|k: int| 0 <= k < ix0 && (#[trigger] s[k]).0 == r && s[k].1@ > 0real && t == self.b()[r as int]@ / s[k].1@) by {
                if m0 is Some && (m0->0).0 == r && (m0->0).1@ == t { let k = choose|k: int| 0 <= k < q && (#[trigger] s[k]).0 == (m0->0).0 && s[k].1@ > 0real && (m0->0).1@ == self.b()[(m0->0).0 as int]@ / s[k].1@; assert(s[k].0 == r); } else { assert(s[q].0 == r); }
            }
        }
    }
//% after_loop 0
    proof { selected(column.data@, self.b(), self.basis(), min_values); }
//%%end
}
fn main() {}
