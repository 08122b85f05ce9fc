// Unit: the problems the phases work on, and how they are put together to solve a problem.
use vstd::prelude::*;
verus! {
//%%include prelude.rs
//%%include sparse_spec.rs
//%%include index_spec.rs
//%%include simplex_spec.rs
//%%include carry_spec.rs
//%%include drop_spec.rs
//%%include filter_spec.rs
//%%include tableau_spec.rs
//%%include phase_spec.rs
//%%types Cost=Cost; SteepestDescentAlongObjective=Rule; OptimizationResult<IM::F>=OptimizationResult; RemoveRows=Provider; NonArtificial=NonArtificial<'_>; Self::Column=Col; Self::Cost=Cost; Fully=Fully<'_>; Partially=Partially<'_>
//%%use carry src/algorithm/two_phase/tableau/inverse_maintenance/carry/mod.rs Carry as InverseMaintainer::basis_column_index_for_row
//%%use carry src/algorithm/two_phase/tableau/inverse_maintenance/carry/mod.rs Carry as InverseMaintainer::create_for_fully_artificial
//%%use carry src/algorithm/two_phase/tableau/inverse_maintenance/carry/mod.rs Carry as InverseMaintainer::create_for_partially_artificial
//%%use carry src/algorithm/two_phase/tableau/inverse_maintenance/carry/mod.rs Carry as InverseMaintainer::from_artificial
//%%use carry src/algorithm/two_phase/tableau/inverse_maintenance/carry/mod.rs Carry as InverseMaintainer::from_artificial_remove_rows#0
//%%use carry src/algorithm/two_phase/tableau/inverse_maintenance/carry/mod.rs Carry as InverseMaintainer::from_basis_pivots
//%%use phases src/algorithm/two_phase/phase_one.rs primal
//%%use phases src/algorithm/two_phase/phase_two.rs primal
/// relp_num's Binary
pub enum Cost { Zero, One }
impl Cost { pub open spec fn view(&self) -> real { match self { Cost::Zero => 0real, Cost::One => 1real } } }
/// the entries of the column a type of column makes for `Identity::identity`
pub uninterp spec fn unit_seq(i: int) -> Seq<(usize, F)>;
#[verifier::external_body] pub proof fn axiom_unit(i: int) requires 0 <= i <= usize::MAX ensures single(unit_seq(i), i) {}
impl Col { #[verifier::external_body] pub fn identity(i: usize, len: usize) -> (r: Col) requires i < len ensures r.es() == unit_seq(i as int) { unimplemented!() } }
impl Provider {
    #[verifier::external_body] pub fn nr_columns(&self) -> (r: usize) ensures r == self.lp().n { unimplemented!() }
    /// what is asked of a problem: rows and columns that can be counted, a right hand side that is not negative
    pub open spec fn good(&self) -> bool { self.lp().wf() && self.lp().n >= 0 && self.lp().m + self.lp().n <= usize::MAX && forall|i: int| #![trigger sv(self.lp().rhs, i)] 0 <= i < self.lp().m ==> sv(self.lp().rhs, i) >= 0real }
    /// every row has a pivot
    pub uninterp spec fn full(&self) -> bool;
    #[verifier::external_body] pub fn pivot_element_indices(&self) -> (r: Vec<(usize, usize)>) ensures unit_pivots(self.lp(), r@), self.full() ==> r@.len() == self.lp().m { unimplemented!() }
    /// RemoveRows::new
    #[verifier::external_body] pub fn new(provider: &Provider, rows: Vec<usize>) -> (r: Provider) requires uniq(rows@, provider.lp().m) ensures r.rows() == rows@, r.lp().wf(), without(provider.lp(), r.lp(), rows@) { unimplemented!() }
}
//%%item src/algorithm/two_phase/tableau/kind/artificial/fully.rs Fully
//%%end
//%%item src/algorithm/two_phase/tableau/kind/artificial/partially.rs Partially
//%%end
//%%item src/algorithm/two_phase/tableau/kind/non_artificial.rs NonArtificial
//%%end
/// p with unit columns for the given rows put before it, which cost one
pub open spec fn widened(p: Lp, nr: int, at: spec_fn(int) -> int) -> Lp { Lp { m: p.m, n: p.n + nr, a: |j: int| if j < nr { unit_seq(at(j)) } else { (p.a)(j - nr) }, c: |j: int| if j < nr { 1real } else { 0real }, rhs: p.rhs } }
pub open spec fn itself() -> spec_fn(int) -> int { |j: int| j }
pub open spec fn listed_at(s: Seq<usize>) -> spec_fn(int) -> int { |j: int| s[j] as int }
impl<'a> Fully<'a> { pub open spec fn lp(&self) -> Lp { widened(self.provider.lp(), self.provider.lp().m, itself()) } }
impl<'a> Partially<'a> {
    pub open spec fn lp(&self) -> Lp { widened(self.provider.lp(), self.column_to_row@.len() as int, listed_at(self.column_to_row@)) }
    pub open spec fn ok(&self) -> bool { self.column_to_row@.len() + self.provider.lp().n <= usize::MAX && forall|j: int| #![trigger self.column_to_row@[j]] 0 <= j < self.column_to_row@.len() ==> self.column_to_row@[j] < self.provider.lp().m }
}
impl<'a> NonArtificial<'a> { pub open spec fn lp(&self) -> Lp { self.provider.lp() } }
impl Kind {
    // a tableau over any of these is a tableau over what they stand for
    #[verifier::external_body] pub fn fully(x: Fully) -> (r: Kind) ensures r.lp() == x.lp(), r.start() == x.provider.lp().m { unimplemented!() }
    #[verifier::external_body] pub fn partially(x: Partially) -> (r: Kind) ensures r.lp() == x.lp(), r.start() == x.column_to_row@.len() { unimplemented!() }
    #[verifier::external_body] pub fn non_artificial(x: NonArtificial) -> (r: Kind) ensures r.lp() == x.lp(), r.start() == 0 { unimplemented!() }
}
// ---- the kinds keep the contract of the traits Kind and Artificial ----
//%%fn src/algorithm/two_phase/tableau/kind/artificial/fully.rs Fully as Kind::nr_rows
//% spec
    ensures r == self.lp().m
//%%end
//%%fn src/algorithm/two_phase/tableau/kind/artificial/fully.rs Fully as Kind::nr_columns
//% spec
    requires self.lp().n <= usize::MAX, self.provider.lp().n >= 0
    ensures r == self.lp().n
//%%end
//%%fn src/algorithm/two_phase/tableau/kind/artificial/fully.rs Fully as Artificial::nr_artificial_variables
//% spec
    ensures r == self.provider.lp().m
//%%end
//%%fn src/algorithm/two_phase/tableau/kind/artificial/fully.rs Fully as Artificial::pivot_row_from_artificial
//% spec
    requires artificial_index < self.provider.lp().m
    ensures r < self.lp().m, single((self.lp().a)(artificial_index as int), r as int)
//% start
    proof { axiom_unit(artificial_index as int); }
//%%end
//%%fn src/algorithm/two_phase/tableau/kind/artificial/fully.rs Fully as Kind::initial_cost_value
//% spec
    requires j < self.lp().n
    ensures r@ == (self.lp().c)(j as int)
//%%end
//%%fn src/algorithm/two_phase/tableau/kind/artificial/fully.rs Fully as Kind::original_column
//% spec
    requires j < self.lp().n
    ensures r.es() == (self.lp().a)(j as int)
//%%end
//%%fn src/algorithm/two_phase/tableau/kind/artificial/partially.rs Partially::nr_artificial_variables#0
//% spec
    ensures r == self.column_to_row@.len()
//%%end
//%%fn src/algorithm/two_phase/tableau/kind/artificial/partially.rs Partially as Artificial::nr_artificial_variables
//% as nr_artificial_variables_of_trait
//% spec
    ensures r == self.column_to_row@.len()
//%%end
//%%fn src/algorithm/two_phase/tableau/kind/artificial/partially.rs Partially as Artificial::pivot_row_from_artificial
//% spec
    requires self.ok(), artificial_index < self.column_to_row@.len()
    ensures r < self.lp().m, single((self.lp().a)(artificial_index as int), r as int)
//% start
    proof { axiom_unit(self.column_to_row@[artificial_index as int] as int); }
//%%end
//%%fn src/algorithm/two_phase/tableau/kind/artificial/partially.rs Partially as Kind::nr_rows
//% spec
    ensures r == self.lp().m
//%%end
//%%fn src/algorithm/two_phase/tableau/kind/artificial/partially.rs Partially as Kind::nr_columns
//% spec
    requires self.ok()
    ensures r == self.lp().n
//%%end
//%%fn src/algorithm/two_phase/tableau/kind/artificial/partially.rs Partially as Kind::initial_cost_value
//% spec
    requires self.ok(), j < self.lp().n
    ensures r@ == (self.lp().c)(j as int)
//%%end
//%%fn src/algorithm/two_phase/tableau/kind/artificial/partially.rs Partially as Kind::original_column
//% spec
    requires self.ok(), j < self.lp().n
    ensures r.es() == (self.lp().a)(j as int)
//%%end
//%%fn src/algorithm/two_phase/tableau/kind/non_artificial.rs NonArtificial as Kind::nr_rows
//% spec
    ensures r == self.lp().m
//%%end
//%%fn src/algorithm/two_phase/tableau/kind/non_artificial.rs NonArtificial as Kind::nr_columns
//% spec
    ensures r == self.lp().n
//%%end
//%%fn src/algorithm/two_phase/tableau/kind/non_artificial.rs NonArtificial as Kind::initial_cost_value
//% types Self::Cost=F
//% spec
    requires j < self.lp().n
    ensures r@ == (self.lp().c)(j as int)
//%%end
//%%fn src/algorithm/two_phase/tableau/kind/non_artificial.rs NonArtificial as Kind::original_column
//% spec
    requires j < self.lp().n
    ensures r.es() == (self.lp().a)(j as int)
//%%end
// ---- the first tableau of phase one ----
proof fn single_swf(s: Seq<(usize, F)>, i: int, m: int) requires single(s, i), 0 <= i < m ensures swf(s, m) {}
pub open spec fn valid_at(at: spec_fn(int) -> int, nr: int, m: int) -> bool { forall|j: int| #![trigger at(j)] 0 <= j < nr ==> 0 <= at(j) < m }
proof fn widened_wf(p: Lp, nr: int, at: spec_fn(int) -> int) requires p.wf(), p.n >= 0, nr >= 0, p.m <= usize::MAX, valid_at(at, nr, p.m) ensures widened(p, nr, at).wf(), extends(widened(p, nr, at), p, nr), art_costs(widened(p, nr, at), nr), forall|j: int| #![trigger at(j)] 0 <= j < nr ==> single((widened(p, nr, at).a)(j), at(j)) {
    let q = widened(p, nr, at);
    assert forall|j: int| #![trigger (q.a)(j)] 0 <= j < q.n implies swf((q.a)(j), q.m) by { if j < nr { axiom_unit(at(j)); single_swf(unit_seq(at(j)), at(j), p.m); } else { assert(swf((p.a)(j - nr), p.m)); } }
    assert forall|j: int| #![trigger at(j)] 0 <= j < nr implies single((q.a)(j), at(j)) by { axiom_unit(at(j)); }
}
/// what a first tableau is like
pub open spec fn starts(t: &Tableau, p: Lp) -> bool { t.art() && extends(t.p(), p, t.first()) }
/// the tableau the parts make
pub open spec fn fresh(t: &Tableau, q: Lp, nr: int, p: Lp) -> bool {
    t.kind.lp() == q && t.kind.start() == nr && t.inverse_maintainer.holds(q) && (forall|i: int| #![trigger t.b()[i]] 0 <= i < q.m ==> t.b()[i]@ == sv(q.rhs, i))
    && (forall|j: usize| #![trigger t.basis_columns@.contains(j)] t.basis_columns@.contains(j) == is_basic(t.basis(), j as int)) && placed(t.basis(), q, nr)
}
proof fn fresh_starts(t: &Tableau, q: Lp, nr: int, p: Lp) requires fresh(t, q, nr, p), art_costs(q, nr), extends(q, p, nr), 0 <= nr, p.n >= 0, q.n <= usize::MAX, forall|i: int| #![trigger sv(p.rhs, i)] 0 <= i < p.m ==> sv(p.rhs, i) >= 0real ensures starts(t, p) {
    assert forall|i: int| 0 <= i < q.m implies #[trigger] num(t.b())(i) >= 0real by { assert(t.b()[i]@ == sv(q.rhs, i)); assert(sv(p.rhs, i) >= 0real); }
}
pub open spec fn fresh_parts(t: &Tableau, q: Lp, p: Lp) -> bool {
    t.kind.lp() == q && t.kind.start() == p.m && t.inverse_maintainer.holds(q) && upto(t.basis()) && t.basis().len() == p.m && (forall|i: int| #![trigger t.b()[i]] 0 <= i < p.m ==> t.b()[i]@ == sv(p.rhs, i))
    && forall|j: usize| #![trigger t.basis_columns@.contains(j)] t.basis_columns@.contains(j) == (j < p.m)
}
//%%fn src/algorithm/two_phase/tableau/kind/artificial/fully.rs Tableau::new
//% as new_fully
//% types Self=Tableau
//% sets
//% subst kind: Fully { provider } => kind: Kind::fully(Fully { provider })
//% spec
    requires provider.good(), 2 * provider.lp().m + provider.lp().n <= usize::MAX
    ensures starts(&r, provider.lp())
//% start
    proof {
        let p = provider.lp(); let at = itself(); widened_wf(p, p.m, at); let q = widened(p, p.m, at); let m = p.m; lemma_in_range(m);
        let rg = VIntoIter::into_seq(0usize..(m as usize)); assert forall|i: int| 0 <= i < m implies #[trigger] rg[i] == i by {}
        assert forall|x: usize| #![trigger rg.contains(x)] rg.contains(x) == (x < m) by { if x < m { assert(rg[x as int] == x); } }
        assert forall|b: Dense| #![trigger b.data@] b.data@.len() == m && (forall|i: int| #![trigger b.data@[i]] 0 <= i < m ==> b.data@[i]@ == sv(p.rhs, i)) implies artificial(q, b.data@) by {
            assert forall|j: int| #![trigger (q.a)(j)] 0 <= j < m implies single((q.a)(j), j) by { assert(at(j) == j); }
        }
        assert forall|t: Tableau| #![trigger starts(&t, p)] fresh_parts(&t, q, p) implies starts(&t, p) by {
            assert forall|i: int| #![trigger t.basis()[i]] 0 <= i < m && t.basis()[i] < m implies single((q.a)(t.basis()[i] as int), i) by { assert(at(i) == i); }
            assert forall|j: usize| #![trigger t.basis_columns@.contains(j)] t.basis_columns@.contains(j) == is_basic(t.basis(), j as int) by { if j < m { assert(t.basis()[j as int] == j); } }
            fresh_starts(&t, q, m, p);
        }
    }
//%%end
// ---- which rows get an artificial variable ----
type Pairs = Seq<(usize, usize)>;
pub open spec fn in_art(art: Seq<usize>, r: int) -> bool { exists|q: int| 0 <= q < art.len() && #[trigger] art[q] == r }
pub open spec fn in_real(slack: Pairs, n: int, r: int) -> bool { exists|q: int| 0 <= q < n && (#[trigger] slack[q]).0 == r }
pub open spec fn apart(art: Seq<usize>, slack: Pairs) -> bool { forall|q: int, k: int| #![trigger art[q], slack[k]] 0 <= q < art.len() && 0 <= k < slack.len() ==> art[q] != slack[k].0 }
#[verifier::opaque] pub open spec fn parted(art: Seq<usize>, slack: Pairs, i: int, next: int) -> bool {
    0 <= i <= slack.len() && next == art.len() + i && ssorted_u(art) && ssorted(slack) && apart(art, slack) && (forall|q: int| #![trigger art[q]] 0 <= q < art.len() ==> art[q] < next)
    && (forall|q: int| #![trigger slack[q]] 0 <= q < i ==> slack[q].0 < next) && (forall|q: int| #![trigger slack[q]] i <= q < slack.len() ==> slack[q].0 >= next)
    && forall|r: int| #![trigger in_art(art, r)] #![trigger in_real(slack, i, r)] 0 <= r < next ==> in_art(art, r) || in_real(slack, i, r)
}
proof fn parted_start(slack: Pairs) requires ssorted(slack) ensures parted(Seq::empty(), slack, 0, 0) { reveal(parted); }
proof fn parted_real(art: Seq<usize>, slack: Pairs, i: int, next: int) requires parted(art, slack, i, next), i < slack.len(), slack[i].0 == next ensures parted(art, slack, i + 1, next + 1) {
    reveal(parted);
    assert forall|r: int| #![trigger in_art(art, r)] #![trigger in_real(slack, i + 1, r)] 0 <= r < next + 1 implies in_art(art, r) || in_real(slack, i + 1, r) by {
        if r == next { assert(slack[i].0 == r); } else if in_real(slack, i, r) { let q = choose|q: int| 0 <= q < i && (#[trigger] slack[q]).0 == r; assert(slack[q].0 == r); } else { assert(in_art(art, r)); }
    }
    assert forall|q: int| #![trigger slack[q]] i + 1 <= q < slack.len() implies slack[q].0 >= next + 1 by { assert(slack[i].0 < slack[q].0); }
}
proof fn parted_art(art: Seq<usize>, slack: Pairs, i: int, next: usize) requires parted(art, slack, i, next as int), i == slack.len() || slack[i].0 != next ensures parted(art.push(next), slack, i, next + 1) {
    reveal(parted); let b = art.push(next);
    assert forall|q: int| #![trigger slack[q]] i <= q < slack.len() implies slack[q].0 >= next + 1 by { if q > i { assert(slack[i].0 < slack[q].0); } assert(slack[i].0 >= next); }
    assert forall|q: int, k: int| #![trigger b[q], slack[k]] 0 <= q < b.len() && 0 <= k < slack.len() implies b[q] != slack[k].0 by { if q < art.len() { assert(art[q] != slack[k].0); } else if k < i { assert(slack[k].0 < next); } else { assert(slack[k].0 >= next + 1); } }
    assert forall|r: int| #![trigger in_art(b, r)] #![trigger in_real(slack, i, r)] 0 <= r < next + 1 implies in_art(b, r) || in_real(slack, i, r) by {
        if r == next { assert(b[art.len() as int] == r); } else if in_art(art, r) { let q = choose|q: int| 0 <= q < art.len() && #[trigger] art[q] == r; assert(b[q] == r); } else { assert(in_real(slack, i, r)); }
    }
}
/// every row has either an artificial variable or a slack
#[verifier::opaque] pub open spec fn complete(art: Seq<usize>, slack: Pairs, m: int) -> bool {
    art.len() + slack.len() == m && ssorted_u(art) && ssorted(slack) && apart(art, slack) && (forall|q: int| #![trigger art[q]] 0 <= q < art.len() ==> art[q] < m) && (forall|q: int| #![trigger slack[q]] 0 <= q < slack.len() ==> slack[q].0 < m)
    && forall|r: int| #![trigger in_art(art, r)] #![trigger in_real(slack, slack.len() as int, r)] 0 <= r < m ==> in_art(art, r) || in_real(slack, slack.len() as int, r)
}
proof fn at_least(slack: Pairs, i: int, j: int, lo: int) requires ssorted(slack), 0 <= i <= j < slack.len(), slack[i].0 >= lo ensures slack[j].0 >= lo + (j - i) decreases j - i { if j > i { at_least(slack, i, j - 1, lo); assert(slack[j - 1].0 < slack[j].0); } }
proof fn at_most(slack: Pairs, j: int, m: int) requires ssorted(slack), 0 <= j < slack.len(), forall|q: int| #![trigger slack[q]] 0 <= q < slack.len() ==> slack[q].0 < m ensures slack[j].0 <= m - slack.len() + j decreases slack.len() - j { if j + 1 < slack.len() { at_most(slack, j + 1, m); assert(slack[j].0 < slack[j + 1].0); } }
proof fn few_pairs(slack: Pairs, m: int) requires ssorted(slack), m >= 0, forall|q: int| #![trigger slack[q]] 0 <= q < slack.len() ==> slack[q].0 < m ensures slack.len() <= m { if slack.len() > 0 { at_most(slack, 0, m); } }
proof fn parted_complete(art: Seq<usize>, slack: Pairs, i: int, next: int, m: int) requires parted(art, slack, i, next), art.len() + slack.len() == m, forall|q: int| #![trigger slack[q]] 0 <= q < slack.len() ==> slack[q].0 < m ensures complete(art, slack, m) {
    reveal(parted); reveal(complete);
    assert forall|r: int| #![trigger in_art(art, r)] #![trigger in_real(slack, slack.len() as int, r)] 0 <= r < m implies in_art(art, r) || in_real(slack, slack.len() as int, r) by {
        if r >= next { let j = i + (r - next); at_least(slack, i, j, next); at_most(slack, j, m); assert(slack[j].0 == r); }
        else if !in_art(art, r) { assert(in_real(slack, i, r)); let q = choose|q: int| 0 <= q < i && (#[trigger] slack[q]).0 == r; assert(slack[q].0 == r); }
    }
}
/// how far row i is in the two lists
#[verifier::opaque] pub open spec fn merging(art: Seq<usize>, slack: Pairs, ac: int, i: int) -> bool {
    0 <= ac <= art.len() && 0 <= i - ac <= slack.len() && (forall|q: int| #![trigger art[q]] 0 <= q < ac ==> art[q] < i) && (forall|q: int| #![trigger art[q]] ac <= q < art.len() ==> art[q] >= i)
    && (forall|q: int| #![trigger slack[q]] 0 <= q < i - ac ==> slack[q].0 < i) && (forall|q: int| #![trigger slack[q]] i - ac <= q < slack.len() ==> slack[q].0 >= i)
}
pub open spec fn take_art(art: Seq<usize>, slack: Pairs, ac: int, i: int) -> bool { ac < art.len() && (i - ac >= slack.len() || art[ac] < slack[i - ac].0) }
proof fn merge_start(art: Seq<usize>, slack: Pairs) ensures merging(art, slack, 0, 0) { reveal(merging); }
proof fn merge_step(art: Seq<usize>, slack: Pairs, m: int, ac: int, i: int) requires complete(art, slack, m), merging(art, slack, ac, i), i < m
    ensures 0 <= ac <= art.len(), 0 <= i - ac <= slack.len(), take_art(art, slack, ac, i) ==> art[ac] == i && merging(art, slack, ac + 1, i + 1), !take_art(art, slack, ac, i) ==> i - ac < slack.len() && slack[i - ac].0 == i && merging(art, slack, ac, i + 1)
{
    reveal(complete); reveal(merging); assert(in_art(art, i) || in_real(slack, slack.len() as int, i));
    if in_art(art, i) {
        let q = choose|q: int| 0 <= q < art.len() && #[trigger] art[q] == i; assert(q >= ac); if q > ac { assert(art[ac] < art[q]); } assert(art[ac] == i);
        if i - ac < slack.len() { assert(slack[i - ac].0 >= i); assert(art[ac] != slack[i - ac].0); }
        assert forall|q: int| #![trigger art[q]] ac + 1 <= q < art.len() implies art[q] >= i + 1 by { assert(art[ac] < art[q]); }
        assert forall|q: int| #![trigger slack[q]] i - ac <= q < slack.len() implies slack[q].0 >= i + 1 by { assert(slack[q].0 >= i); assert(art[ac] != slack[q].0); }
    } else {
        let q = choose|q: int| 0 <= q < slack.len() && (#[trigger] slack[q]).0 == i; assert(q >= i - ac); if q > i - ac { assert(slack[i - ac].0 < slack[q].0); } assert(slack[i - ac].0 == i);
        if ac < art.len() { assert(art[ac] >= i); }
        assert forall|q: int| #![trigger slack[q]] i - ac + 1 <= q < slack.len() implies slack[q].0 >= i + 1 by { assert(slack[i - ac].0 < slack[q].0); }
        assert forall|q: int| #![trigger art[q]] ac <= q < art.len() implies art[q] >= i + 1 by { assert(art[q] >= i); assert(art[q] != slack[i - ac].0); }
    }
}
/// v is the basic variable of row k
pub open spec fn row_var(art: Seq<usize>, slack: Pairs, v: int, k: int) -> bool { (0 <= v < art.len() && art[v] == k) || exists|q: int| 0 <= q < slack.len() && (#[trigger] slack[q]).0 == k && v == art.len() + slack[q].1 }
pub open spec fn row_vars(art: Seq<usize>, slack: Pairs, basis: Seq<usize>) -> bool { forall|k: int| #![trigger basis[k]] 0 <= k < basis.len() ==> row_var(art, slack, basis[k] as int, k) }
proof fn vars_partly(p: Lp, art: Seq<usize>, slack: Pairs, basis: Seq<usize>, b: Seq<F>) requires p.wf(), p.n >= 0, p.m <= usize::MAX, complete(art, slack, p.m), unit_pivots(p, slack), row_vars(art, slack, basis), basis.len() == p.m, b.len() == p.m, forall|i: int| #![trigger b[i]] 0 <= i < p.m ==> b[i]@ == sv(p.rhs, i)
    ensures partly(widened(p, art.len() as int, listed_at(art)), basis, art, b), placed(basis, widened(p, art.len() as int, listed_at(art)), art.len() as int)
{
    reveal(complete); let nr = art.len() as int; let at = listed_at(art); assert forall|j: int| #![trigger at(j)] 0 <= j < nr implies 0 <= at(j) < p.m by { assert(art[j] < p.m); }
    widened_wf(p, nr, at); let q = widened(p, nr, at);
    assert forall|i: int| #![trigger basis[i]] 0 <= i < p.m implies begin_row(q, basis, art, b, i) && (basis[i] < nr ==> single((q.a)(basis[i] as int), i)) by {
        let v = basis[i] as int; assert(row_var(art, slack, v, i)); assert(b[i]@ == sv(p.rhs, i));
        if 0 <= v < nr && art[v] == i { assert(at(v) == i); assert(art.contains(i as usize)); }
        else { let k = choose|k: int| 0 <= k < slack.len() && (#[trigger] slack[k]).0 == i && v == nr + slack[k].1; assert(single((p.a)(slack[k].1 as int), i)); assert((q.a)(v) == (p.a)(v - nr)); if art.contains(i as usize) { let z = choose|z: int| 0 <= z < art.len() && art[z] == i as usize; assert(art[z] != slack[k].0); } }
    }
}
pub open spec fn partly_parts(t: &Tableau, p: Lp, art: Seq<usize>, slack: Pairs) -> bool {
    t.kind.lp() == widened(p, art.len() as int, listed_at(art)) && t.kind.start() == art.len() && t.inverse_maintainer.holds(t.kind.lp()) && row_vars(art, slack, t.basis()) && t.basis().len() == p.m && (forall|i: int| #![trigger t.b()[i]] 0 <= i < p.m ==> t.b()[i]@ == sv(p.rhs, i))
    && forall|j: usize| #![trigger t.basis_columns@.contains(j)] t.basis_columns@.contains(j) == t.basis().contains(j)
}
//%%fn src/algorithm/two_phase/tableau/kind/artificial/partially.rs Tableau::new
//% as new_partially
//% types Self=Tableau
//% sets
//% collected usize
//% subst kind: Partially { column_to_row: artificial, provider } => kind: Kind::partially(Partially { column_to_row: artificial, provider })
//% spec
    requires provider.good()
    ensures starts(&r, provider.lp())
//% after "let real"
    let ghost (slack, p) = (v_real@, provider.lp());
    proof { few_pairs(slack, p.m); parted_start(slack); }
//% loop 0
    invariant ix0 <= en0, en0 == nr_artificial, nr_real == slack.len(), v_real@ == slack, p == provider.lp(), p.m <= usize::MAX, nr_artificial + nr_real == p.m, unit_pivots(p, slack), artificial@.len() == ix0, parted(artificial@, slack, i as int, ix0 + i), i <= nr_real
    decreases en0 - ix0
//% loop 1
    invariant ith_artificial < nr_artificial, nr_real == slack.len(), v_real@ == slack, p.m <= usize::MAX, nr_artificial + nr_real == p.m, artificial@.len() == ith_artificial, parted(artificial@, slack, i as int, ith_artificial + i), i <= nr_real
    decreases nr_real - i
//% loop_end 1
    proof { parted_real(artificial@, slack, i - 1, ith_artificial + i - 1); }
//% before "artificial.push"
    proof { parted_art(artificial@, slack, i as int, (ith_artificial + i) as usize); }
//% after_loop 0
    let ghost art = artificial@;
    proof { parted_complete(art, slack, i as int, ix0 + i, p.m); merge_start(art, slack); reveal(complete); }
//% loop 2
    invariant ix2 <= en2, en2 == m, m == p.m, p == provider.lp(), p.n + p.m <= usize::MAX, nr_real == slack.len(), nr_artificial == art.len(), nr_artificial + nr_real == p.m, v_real@ == slack, artificial@ == art, unit_pivots(p, slack), complete(art, slack, p.m), merging(art, slack, artificial_counter as int, ix2 as int), artificial_counter <= ix2, collected@.len() == ix2, row_vars(art, slack, collected@)
    decreases en2 - ix2
//% loop_start 2
    let ghost (ac, i0, c0) = (artificial_counter as int, ix2 - 1, collected@);
    proof { merge_step(art, slack, p.m, ac, i0); if i0 - ac < slack.len() { assert(slack[i0 - ac].1 < p.n); } }
//% loop_end 2
    proof {
        assert(row_var(art, slack, collected@[i0] as int, i0)) by { if !take_art(art, slack, ac, i0) { assert(slack[i0 - ac].0 == i0); } }
        assert forall|k: int| #![trigger collected@[k]] 0 <= k < collected@.len() implies row_var(art, slack, collected@[k] as int, k) by { if k < i0 { assert(collected@[k] == c0[k]); } }
    }
//% before "let basis_columns"
    proof { let bi = basis_indices@; assert forall|s: Seq<usize>, x: usize| #![trigger s.contains(x)] s.len() == bi.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == bi[i]) implies s == bi by { assert(s =~= bi); } }
//% end
    proof {
        let nr = art.len() as int; let at = listed_at(art); let q = widened(p, nr, at);
        assert(ssorted_u(art) && forall|q: int| #![trigger art[q]] 0 <= q < art.len() ==> art[q] < p.m) by { reveal(complete); }
        assert forall|j: int| #![trigger at(j)] 0 <= j < nr implies 0 <= at(j) < p.m by { assert(art[j] < p.m); } widened_wf(p, nr, at);
        assert forall|b: Dense, basis: Seq<usize>| #![trigger b.data@, row_vars(art, slack, basis)] basis.len() == p.m && row_vars(art, slack, basis) && b.data@.len() == p.m && (forall|i: int| #![trigger b.data@[i]] 0 <= i < p.m ==> b.data@[i]@ == sv(p.rhs, i)) implies partly(q, basis, art, b.data@) by { vars_partly(p, art, slack, basis, b.data@); }
        assert forall|t: Tableau| #![trigger starts(&t, p)] partly_parts(&t, p, art, slack) implies starts(&t, p) by {
            vars_partly(p, art, slack, t.basis(), t.b());
            assert forall|j: usize| #![trigger t.basis_columns@.contains(j)] t.basis_columns@.contains(j) == is_basic(t.basis(), j as int) by { let s = t.basis(); if s.contains(j) { let z = choose|z: int| 0 <= z < s.len() && s[z] == j; assert(s[z] == j); } if is_basic(s, j as int) { let z = choose|z: int| 0 <= z < s.len() && #[trigger] s[z] == j as int; assert(s[z] == j); } }
            fresh_starts(&t, q, nr, p);
        }
    }
//%%end
// ---- feasibility ----
/// phase one's tableau, from its parts
pub open spec fn begun(k: Kind, p: Lp, rank: Rank, nr: int, im: Carry, basis: std::collections::HashSet<usize>) -> bool { found(&Tableau { kind: k, inverse_maintainer: im, basis_columns: basis }, rank) && k.start() == nr && extends(k.lp(), p, nr) }
pub open spec fn started(p: Lp, rank: Rank, nr: int, im: Carry, basis: std::collections::HashSet<usize>) -> bool { exists|k: Kind| #[trigger] begun(k, p, rank, nr, im, basis) }
pub open spec fn answers(p: Lp, r: RankedFeasibilityResult) -> bool {
    match r { RankedFeasibilityResult::Infeasible => forall|y: V| #![trigger feasible(y, p)] !feasible(y, p),
      RankedFeasibilityResult::Feasible { rank, nr_artificial_variables, inverse_maintainer, basis } => started(p, rank, nr_artificial_variables as int, inverse_maintainer, basis) }
}
/// y with zeros put before it
pub open spec fn shifted(y: V, nr: int) -> V { |j: int| if j < nr { 0real } else { y(j - nr) } }
proof fn rsum_shift(nr: int, n: int, f: V, g: V) requires nr >= 0, n >= 0, forall|j: int| 0 <= j < nr ==> #[trigger] f(j) == 0real, forall|j: int| 0 <= j < n ==> #[trigger] g(j) == f(j + nr) ensures rsum(nr + n, f) == rsum(n, g) decreases n {
    if n == 0 { rsum_zero(nr, f); } else { rsum_shift(nr, n - 1, f, g); assert(g(n - 1) == f(n - 1 + nr)); }
}
proof fn no_point(q: Lp, p: Lp, nr: int) requires extends(q, p, nr), nr >= 0, p.n >= 0, no_start(q, nr) ensures forall|y: V| #![trigger feasible(y, p)] !feasible(y, p) {
    assert forall|y: V| #![trigger feasible(y, p)] !feasible(y, p) by {
        if feasible(y, p) {
            let x = shifted(y, nr);
            assert forall|k: int| #![trigger sv(q.rhs, k)] 0 <= k < q.m implies rsum(q.n, scaled(x, coef(q, k))) == sv(q.rhs, k) by {
                let (f, g) = (scaled(x, coef(q, k)), scaled(y, coef(p, k)));
                assert forall|j: int| 0 <= j < nr implies #[trigger] f(j) == 0real by { let z = coef(q, k)(j); assert(0real * z == 0real) by(nonlinear_arith); }
                assert forall|j: int| 0 <= j < p.n implies #[trigger] g(j) == f(j + nr) by { assert((p.a)(j) == (q.a)(j + nr)); }
                rsum_shift(nr, p.n, f, g); assert(sv(p.rhs, k) == rsum(p.n, g));
            }
            assert forall|j: int| 0 <= j < q.n implies #[trigger] x(j) >= 0real by { if j >= nr { assert(y(j - nr) >= 0real); } }
            assert(feasible(x, q)); assert(absent(x, nr));
        }
    }
}
/// whatever phase one says is about the problem it was started for
pub open spec fn reports(t: &Tableau, r: RankedFeasibilityResult) -> bool {
    match r { RankedFeasibilityResult::Infeasible => no_start(t.p(), t.first()),
      RankedFeasibilityResult::Feasible { rank, nr_artificial_variables, inverse_maintainer, basis } => nr_artificial_variables == t.first() && found(&Tableau { kind: t.kind, inverse_maintainer, basis_columns: basis }, rank) }
}
proof fn reported(t: &Tableau, r: RankedFeasibilityResult, p: Lp) requires starts(t, p), p.n >= 0, reports(t, r) ensures answers(p, r) {
    match r { RankedFeasibilityResult::Infeasible => { no_point(t.p(), p, t.first()); }
      RankedFeasibilityResult::Feasible { rank, nr_artificial_variables, inverse_maintainer, basis } => { assert(begun(t.kind, p, rank, nr_artificial_variables as int, inverse_maintainer, basis)); } }
}
impl Provider {
    /// the contract of the trait `FeasibilityComputeTrait`, which both implementations below keep
    #[verifier::external_body] pub fn compute_bfs_giving_im<IM>(&self) -> (r: RankedFeasibilityResult) requires self.good(), 2 * self.lp().m + self.lp().n <= usize::MAX ensures answers(self.lp(), r) { unimplemented!() }
}
//%%fn src/algorithm/two_phase/phase_one.rs MP as FeasibilityComputeTrait::compute_bfs_giving_im#0
//% as compute_bfs_fully
//% types RankedFeasibilityResult<IM>=RankedFeasibilityResult
//% path Tableau::<_,FullyArtificial<_>>::new=Tableau::new_fully
//% path primal::<_,_,Provider,Rule>=phase_one
//% spec
    requires self.good(), 2 * self.lp().m + self.lp().n <= usize::MAX
    ensures answers(self.lp(), r)
//% after "let artificial_tableau"
    proof { assert forall|r: RankedFeasibilityResult| #![trigger answers(self.lp(), r)] reports(&artificial_tableau, r) implies answers(self.lp(), r) by { reported(&artificial_tableau, r, self.lp()); } }
//%%end
//%%fn src/algorithm/two_phase/phase_one.rs MP as FeasibilityComputeTrait::compute_bfs_giving_im#1
//% as compute_bfs_partially
//% types RankedFeasibilityResult<IM>=RankedFeasibilityResult
//% path Tableau::<_,PartiallyArtificial<_>>::new=Tableau::new_partially
//% path primal::<_,_,Provider,Rule>=phase_one
//% spec
    requires self.good(), 2 * self.lp().m + self.lp().n <= usize::MAX
    ensures answers(self.lp(), r)
//% after "let artificial_tableau"
    proof { assert forall|r: RankedFeasibilityResult| #![trigger answers(self.lp(), r)] reports(&artificial_tableau, r) implies answers(self.lp(), r) by { reported(&artificial_tableau, r, self.lp()); } }
//%%end
// ---- the tableau of phase two ----
/// without the artificial columns
pub open spec fn lowered(basis: Seq<usize>, n: Seq<usize>, nr: int) -> bool { n.len() == basis.len() && forall|i: int| #![trigger n[i]] 0 <= i < n.len() ==> n[i] == basis[i] - nr }
pub open spec fn lowered_set(s: Seq<usize>, t: Seq<usize>, nr: int) -> bool { t.len() == s.len() && forall|i: int| #![trigger t[i]] 0 <= i < t.len() ==> t[i] == s[i] - nr }
proof fn lowered_basic(h: std::collections::HashSet<usize>, t: Seq<usize>, basis: Seq<usize>, n: Seq<usize>, nr: int, x: usize)
    requires lowered(basis, n, nr), lowered_set(hash_order(h), t, nr), forall|j: usize| #![trigger h@.contains(j)] h@.contains(j) == is_basic(basis, j as int)
    ensures t.contains(x) == is_basic(n, x as int)
{
    axiom_hash_order(h); let s = hash_order(h);
    if t.contains(x) { let i = choose|i: int| 0 <= i < t.len() && t[i] == x; assert(s.contains(s[i])); assert(h@.contains(s[i])); let k = choose|k: int| 0 <= k < basis.len() && #[trigger] basis[k] == s[i] as int; assert(n[k] == x as int); }
    if is_basic(n, x as int) { let k = choose|k: int| 0 <= k < n.len() && #[trigger] n[k] == x as int; let y = basis[k]; assert(is_basic(basis, y as int)); assert(h@.contains(y)); assert(s.contains(y)); let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(t[i] == x); }
}
/// the tableau the parts make
pub open spec fn prepared(t: &Tableau, p: Lp) -> bool { t.ok() && t.p() == p && t.first() == 0 }
//%%fn src/algorithm/two_phase/tableau/kind/non_artificial.rs Tableau::new_with_inverse_maintainer
//% types Self=Tableau
//% subst kind: NonArtificial { provider } => kind: Kind::non_artificial(NonArtificial { provider })
//% spec
    requires inverse_maintainer.holds(provider.lp()), nonneg(num(inverse_maintainer.b.data@), provider.lp().m), 0 <= provider.lp().n <= usize::MAX, forall|j: usize| #![trigger basis_columns@.contains(j)] basis_columns@.contains(j) == is_basic(inverse_maintainer.basis_indices@, j as int)
    ensures prepared(&r, provider.lp())
//%%end
//%%fn src/algorithm/two_phase/tableau/kind/non_artificial.rs Tableau::from_artificial
//% as from_artificial
//% types Self=Tableau
//% sets
//% subst kind: NonArtificial { provider } => kind: Kind::non_artificial(NonArtificial { provider })
//% spec
    requires provider.good(), started(provider.lp(), Rank::Full, nr_artificial as int, inverse_maintainer, basis_indices)
    ensures prepared(&r, provider.lp())
//% closure 0 |c0: usize| -> (r: usize) requires c0 >= nr_artificial ensures r == c0 - nr_artificial
//% start
    let ghost p = provider.lp(); let ghost nr = nr_artificial as int; let ghost k = choose|k: Kind| #[trigger] begun(k, p, Rank::Full, nr, inverse_maintainer, basis_indices); let ghost t = Tableau { kind: k, inverse_maintainer, basis_columns: basis_indices };
    proof {
        let h = basis_indices; axiom_hash_order(h); let s = hash_order(h); assert(t.holds());
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] >= nr by { assert(s.contains(s[i])); assert(t.basis_columns@.contains(s[i])); let z = choose|z: int| 0 <= z < t.basis().len() && #[trigger] t.basis()[z] == s[i] as int; }
        assert forall|j: usize| #![trigger h@.contains(j)] h@.contains(j) == is_basic(t.basis(), j as int) by { assert(t.basis_columns@.contains(j) == is_basic(t.basis(), j as int)); }
        assert forall|u: Seq<usize>, x: usize, n: Seq<usize>| #![trigger u.contains(x), is_basic(n, x as int)] lowered_set(s, u, nr) && lowered(t.basis(), n, nr) implies u.contains(x) == is_basic(n, x as int) by { lowered_basic(h, u, t.basis(), n, nr, x); }
        assert(inverse_maintainer.holds(t.p()) && extends(t.p(), p, nr));
    }
//%%end
// ---- the tableau of phase two when rows are superfluous ----
/// the column of a row that is not among the first k of the list
pub open spec fn among(idx: Seq<usize>, k: int, i: int) -> bool { exists|x: int| 0 <= x < k && #[trigger] idx[x] == i }
pub open spec fn left(o: Seq<usize>, idx: Seq<usize>, k: int, j: int) -> bool { exists|i: int| 0 <= i < o.len() && #[trigger] o[i] == j && !among(idx, k, i) }
proof fn left_all(o: Seq<usize>, idx: Seq<usize>, j: int) ensures left(o, idx, 0, j) == is_basic(o, j) {
    if is_basic(o, j) { let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i] == j; assert(o[i] == j && !among(idx, 0, i)); }
}
proof fn left_step(o: Seq<usize>, idx: Seq<usize>, k: int, j: int) requires distinct(o), 0 <= k < idx.len(), idx[k] < o.len() ensures left(o, idx, k + 1, j) == (left(o, idx, k, j) && j != o[idx[k] as int]) {
    let r = idx[k] as int;
    assert forall|i: int| #[trigger] among(idx, k + 1, i) == (among(idx, k, i) || i == r) by { if among(idx, k, i) { let x = choose|x: int| 0 <= x < k && #[trigger] idx[x] == i; assert(idx[x] == i); } assert(idx[k] == r); }
    if left(o, idx, k + 1, j) { let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i] == j && !among(idx, k + 1, i); assert(i != r); assert(o[i] != o[r]) by { if i < r { assert(o[i] != o[r]); } else { assert(o[r] != o[i]); } } assert(o[i] == j && !among(idx, k, i)); }
    if left(o, idx, k, j) && j != o[r] { let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i] == j && !among(idx, k, i); assert(i != r); assert(o[i] == j && !among(idx, k + 1, i)); }
}
proof fn among_all(idx: Seq<usize>, i: int) requires 0 <= i <= usize::MAX ensures among(idx, idx.len() as int, i) == idx.contains(i as usize) {
    if idx.contains(i as usize) { let x = choose|x: int| 0 <= x < idx.len() && idx[x] == i as usize; assert(idx[x] == i); }
    if among(idx, idx.len() as int, i) { let x = choose|x: int| 0 <= x < idx.len() && #[trigger] idx[x] == i; assert(idx[x] == i as usize); }
}
/// phase one's tableau for p, of which q leaves out the superfluous rows
pub open spec fn superfluous(k: Kind, p: Lp, q: &Provider, rows: Vec<usize>, nr: int, im: Carry, basis: std::collections::HashSet<usize>) -> bool { begun(k, p, Rank::Deficient(rows), nr, im, basis) && q.rows() == rows@ && q.lp().wf() && q.lp().n >= 0 && without(p, q.lp(), rows@) }
pub open spec fn deficient(q: &Provider, nr: int, im: Carry, basis: std::collections::HashSet<usize>) -> bool { exists|k: Kind, p: Lp, rows: Vec<usize>| #[trigger] superfluous(k, p, q, rows, nr, im, basis) }
proof fn rows_dropped(k: Kind, p: Lp, q: &Provider, rows: Vec<usize>, nr: int, im: Carry, basis: std::collections::HashSet<usize>) requires superfluous(k, p, q, rows, nr, im, basis)
    ensures dropped(k.lp(), q.lp(), nr, rows@), rows_placed(k.lp(), im.basis_indices@, rows@), forall|i: int| #![trigger im.basis_indices@[i]] 0 <= i < im.basis_indices@.len() && !rows@.contains(i as usize) ==> im.basis_indices@[i] >= nr
{
    let t = Tableau { kind: k, inverse_maintainer: im, basis_columns: basis }; let (o, idx) = (im.basis_indices@, rows@);
    assert(t.art()); assert(t.holds()); assert(im.holds(k.lp()));
    assert forall|x: int| #![trigger idx[x]] 0 <= x < idx.len() implies single((k.lp().a)(o[idx[x] as int] as int), idx[x] as int) by { assert(o[idx[x] as int] < nr); assert(t.basis()[idx[x] as int] == o[idx[x] as int]); }
    assert forall|i: int| #![trigger o[i]] 0 <= i < o.len() && !idx.contains(i as usize) implies o[i] >= nr by { if o[i] < nr { assert(t.basis()[i] == o[i]); assert(listed(idx, i)); let x = choose|x: int| 0 <= x < idx.len() && #[trigger] idx[x] == i; assert(idx[x] == i as usize); } }
    assert forall|j: int| #![trigger (q.lp().a)(j)] 0 <= j < q.lp().n implies thinned((k.lp().a)(j + nr), (q.lp().a)(j), idx, k.lp().m) by { assert((p.a)(j) == (k.lp().a)(j + nr)); }
}
proof fn thinned_basic(h: std::collections::HashSet<usize>, t: Seq<usize>, o: Seq<usize>, n: Seq<usize>, idx: Seq<usize>, nr: int, x: usize)
    requires thinned_basis(o, n, idx, nr), uniq(idx, o.len() as int), o.len() <= usize::MAX, lowered_set(hash_order(h), t, nr), forall|j: usize| #![trigger h@.contains(j)] h@.contains(j) == left(o, idx, idx.len() as int, j as int)
    ensures t.contains(x) == is_basic(n, x as int)
{
    axiom_hash_order(h); let s = hash_order(h); let l = idx.len() as int; let m = o.len() as int;
    if t.contains(x) {
        let i = choose|i: int| 0 <= i < t.len() && t[i] == x; assert(s.contains(s[i])); assert(h@.contains(s[i]));
        let k = choose|k: int| 0 <= k < o.len() && #[trigger] o[k] == s[i] as int && !among(idx, l, k); among_all(idx, k); up_of(idx, m, k); assert(n[k - rank(idx, k)] == o[k] - nr); assert(n[k - rank(idx, k)] == x as int);
    }
    if is_basic(n, x as int) {
        let k = choose|k: int| 0 <= k < n.len() && #[trigger] n[k] == x as int; up_at(idx, m, k); let i = up(idx, m, k); assert(n[i - rank(idx, i)] == o[i] - nr); let y = o[i]; among_all(idx, i); assert(o[i] == y as int && !among(idx, l, i)); assert(left(o, idx, l, y as int));
        assert(h@.contains(y)); assert(s.contains(y)); let z = choose|z: int| 0 <= z < s.len() && s[z] == y; assert(t[z] == x);
    }
}
proof fn kept_nonneg(b: Seq<F>, c: Seq<F>, idx: Seq<usize>, m: int) requires removed(b, c, idx), uniq(idx, m), b.len() == m, m <= usize::MAX, nonneg(num(b), m) ensures nonneg(num(c), m - idx.len()) {
    assert forall|a: int| 0 <= a < m - idx.len() implies #[trigger] num(c)(a) >= 0real by { up_at(idx, m, a); let i = up(idx, m, a); assert(c[i - rank(idx, i)] == b[i]); assert(num(b)(i) >= 0real); }
}
proof fn kept_all(b: Seq<F>, idx: Seq<usize>, m: int) requires uniq(idx, m), b.len() == m, m <= usize::MAX, nonneg(num(b), m) ensures forall|c: Seq<F>| #![trigger removed(b, c, idx)] removed(b, c, idx) ==> nonneg(num(c), m - idx.len()) {
    assert forall|c: Seq<F>| #![trigger removed(b, c, idx)] removed(b, c, idx) implies nonneg(num(c), m - idx.len()) by { kept_nonneg(b, c, idx, m); }
}
//%%fn src/algorithm/two_phase/tableau/kind/non_artificial.rs Tableau::from_artificial_removing_rows
//% as from_artificial_removing_rows
//% types Self=Tableau
//% sets
//% subst kind: NonArtificial { provider } => kind: Kind::non_artificial(NonArtificial { provider })
//% spec
    requires provider.lp().n <= usize::MAX, deficient(provider, nr_artificial as int, inverse_maintainer, basis)
    ensures prepared(&r, provider.lp())
//% closure 0 |c0: usize| -> (r: usize) requires c0 >= nr_artificial ensures r == c0 - nr_artificial
//% start
    let ghost q = provider.lp(); let ghost nr = nr_artificial as int; let ghost (im, h0) = (inverse_maintainer, basis);
    let ghost (k, p, rows) = choose|k: Kind, p: Lp, rows: Vec<usize>| #[trigger] superfluous(k, p, provider, rows, nr, im, h0); let ghost t = Tableau { kind: k, inverse_maintainer: im, basis_columns: h0 }; let ghost idx = rows@; let ghost o = im.basis_indices@;
    proof { rows_dropped(k, p, provider, rows, nr, im, h0); assert(t.holds()); different(t.inv(), o, k.lp()); assert forall|j: usize| #![trigger basis@.contains(j)] basis@.contains(j) == left(o, idx, 0, j as int) by { left_all(o, idx, j as int); assert(t.basis_columns@.contains(j) == is_basic(o, j as int)); } }
//% loop 0
    invariant ix0 <= it0@.len(), it0@.len() == idx.len(), (forall|i: int| #![trigger it0@[i]] 0 <= i < idx.len() ==> *it0@[i] == idx[i]), inverse_maintainer == im, im.basis_indices@ == o, provider.rows() == idx, uniq(idx, o.len() as int), distinct(o), forall|j: usize| #![trigger basis@.contains(j)] basis@.contains(j) == left(o, idx, ix0 as int, j as int)
    decreases it0@.len() - ix0
//% loop_start 0
    proof { assert(row == idx[ix0 - 1]); assert forall|j: usize| #![trigger left(o, idx, ix0 as int, j as int)] left(o, idx, ix0 as int, j as int) == (left(o, idx, ix0 - 1, j as int) && j != o[row as int]) by { left_step(o, idx, ix0 - 1, j as int); } }
//% after_loop 0
    proof {
        let h = basis; axiom_hash_order(h); let s = hash_order(h); let l = idx.len() as int; assert(im.holds(k.lp()));
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] >= nr by { assert(s.contains(s[i])); assert(h@.contains(s[i])); let z = choose|z: int| 0 <= z < o.len() && #[trigger] o[z] == s[i] as int && !among(idx, l, z); among_all(idx, z); assert(o[z] >= nr); }
        assert forall|u: Seq<usize>, x: usize, n: Seq<usize>| #![trigger u.contains(x), is_basic(n, x as int)] lowered_set(s, u, nr) && thinned_basis(o, n, idx, nr) implies u.contains(x) == is_basic(n, x as int) by { thinned_basic(h, u, o, n, idx, nr, x); }
        assert(im.holds(k.lp()) && dropped(k.lp(), q, nr, idx) && rows_placed(k.lp(), o, idx));
        kept_all(im.b.data@, idx, k.lp().m);
    }
//%%end
// ---- leaving out superfluous rows leaves the problem what it is ----
/// what is missing in row l
pub open spec fn residual(x: V, p: Lp) -> V { |l: int| sv(p.rhs, l) - rsum(p.n, scaled(x, coef(p, l))) }
proof fn weighted(x: V, p: Lp, y: V) requires p.wf(), p.n >= 0, forall|j: int| #![trigger (p.a)(j)] 0 <= j < p.n ==> dot((p.a)(j), y) == 0real ensures rsum(p.m, scaled(y, residual(x, p))) == dot(p.rhs, y) {
    let m = p.m; let n = p.n; dot_rsum(p.rhs, m, y);
    let f: M = |k: int, j: int| y(k) * (x(j) * sv((p.a)(j), k));
    assert forall|k: int| 0 <= k < m implies #[trigger] by_row(n, f)(k) == y(k) * rsum(n, scaled(x, coef(p, k))) by { let e = scaled(x, coef(p, k)); assert forall|j: int| 0 <= j < n implies #[trigger] row(f, k)(j) == y(k) * e(j) by {} rsum_scale(n, e, row(f, k), y(k)); }
    assert forall|j: int| 0 <= j < n implies #[trigger] by_col(m, f)(j) == 0real by {
        let s = (p.a)(j); assert(swf((p.a)(j), m)); dot_rsum(s, m, y); let e = term(s, y);
        assert forall|k: int| 0 <= k < m implies #[trigger] col(f, j)(k) == x(j) * e(k) by { let (a, b, d) = (y(k), x(j), sv(s, k)); assert(a * (b * d) == b * (d * a)) by(nonlinear_arith); }
        rsum_scale(m, e, col(f, j), x(j)); let a = x(j); assert(a * 0real == 0real) by(nonlinear_arith);
    }
    rsum_swap(m, n, f); rsum_zero(n, by_col(m, f));
    assert forall|k: int| 0 <= k < m implies #[trigger] scaled(y, residual(x, p))(k) == term(p.rhs, y)(k) + (-1real) * by_row(n, f)(k) by { let (a, b, d) = (y(k), sv(p.rhs, k), rsum(n, scaled(x, coef(p, k)))); assert(a * (b - d) == b * a - a * d) by(nonlinear_arith); }
    rsum_comb(m, term(p.rhs, y), by_row(n, f), scaled(y, residual(x, p)), -1real);
}
/// a row of q is a row of p
proof fn row_of(x: V, p: Lp, q: Lp, idx: Seq<usize>, i: int) requires without(p, q, idx), p.n >= 0, 0 <= i < p.m, !idx.contains(i as usize) ensures residual(x, p)(i) == residual(x, q)(i - rank(idx, i)) {
    let a = i - rank(idx, i); let (f, g) = (scaled(x, coef(p, i)), scaled(x, coef(q, a)));
    assert forall|j: int| 0 <= j < p.n implies #[trigger] f(j) == g(j) by { assert(thinned((p.a)(j), (q.a)(j), idx, p.m)); assert(sv((p.a)(j), i) == sv((q.a)(j), a)); }
    rsum_ext(p.n, f, g); assert(sv(p.rhs, i) == sv(q.rhs, a));
}
/// phase one's tableau says the listed rows hold when the others do
proof fn follows(k: Kind, p: Lp, q: &Provider, rows: Vec<usize>, nr: int, im: Carry, basis: std::collections::HashSet<usize>, x: V, r: int)
    requires superfluous(k, p, q, rows, nr, im, basis), p.wf(), p.n >= 0, 0 <= r < p.m, rows@.contains(r as usize), forall|l: int| #![trigger residual(x, p)(l)] 0 <= l < p.m && !rows@.contains(l as usize) ==> residual(x, p)(l) == 0real
    ensures residual(x, p)(r) == 0real
{
    let t = Tableau { kind: k, inverse_maintainer: im, basis_columns: basis }; let f = k.lp(); let v = t.inv(); let y = row(v, r); let idx = rows@; let o = im.basis_indices@;
    rows_dropped(k, p, q, rows, nr, im, basis); assert(t.art()); assert(t.holds()); assert(im.holds(f)); let z = choose|z: int| 0 <= z < idx.len() && idx[z] == r as usize; assert(idx[z] < f.m); assert(redundant(f, v, nr, r)); assert(o[r] < nr);
    placed_clear(f, o, v, idx, r);
    assert forall|j: int| #![trigger (p.a)(j)] 0 <= j < p.n implies dot((p.a)(j), y) == 0real by { assert((p.a)(j) == (f.a)(j + nr)); assert(dots((f.a)(j + nr), v)(r) == 0real); }
    weighted(x, p, y);
    let e = scaled(y, residual(x, p));
    assert forall|l: int| 0 <= l < p.m && l != r implies #[trigger] e(l) == 0real by { let (a, b) = (y(l), residual(x, p)(l)); if idx.contains(l as usize) { assert(v(r, l) == delta(r, l)); } assert(a * 0real == 0real && 0real * b == 0real) by(nonlinear_arith); }
    rsum_only(p.m, e, r); assert(v(r, r) == delta(r, r)); let b = residual(x, p)(r); assert(1real * b == b);
    assert(t.basis()[r] < t.first()); assert(t.b()[r]@ == 0real); assert(im.b.data@[r]@ == dot(f.rhs, row(v, r)));
}
proof fn same_point(k: Kind, p: Lp, q: &Provider, rows: Vec<usize>, nr: int, im: Carry, basis: std::collections::HashSet<usize>, x: V) requires superfluous(k, p, q, rows, nr, im, basis), p.wf(), p.n >= 0 ensures feasible(x, p) == feasible(x, q.lp()), value(x, p) == value(x, q.lp()) {
    let (u, idx) = (q.lp(), rows@); let f = k.lp(); rows_dropped(k, p, q, rows, nr, im, basis);
    if solves(x, u) {
        assert forall|l: int| #![trigger residual(x, p)(l)] 0 <= l < p.m && !idx.contains(l as usize) implies residual(x, p)(l) == 0real by { row_of(x, p, u, idx, l); up_of(idx, p.m, l); let a = l - rank(idx, l); assert(sv(u.rhs, a) == rsum(u.n, scaled(x, coef(u, a)))); }
        assert forall|l: int| #![trigger sv(p.rhs, l)] 0 <= l < p.m implies rsum(p.n, scaled(x, coef(p, l))) == sv(p.rhs, l) by { if idx.contains(l as usize) { follows(k, p, q, rows, nr, im, basis, x, l); } assert(residual(x, p)(l) == 0real); }
    }
    if solves(x, p) {
        assert forall|a: int| #![trigger sv(u.rhs, a)] 0 <= a < u.m implies rsum(u.n, scaled(x, coef(u, a))) == sv(u.rhs, a) by { up_at(idx, p.m, a); let i = up(idx, p.m, a); row_of(x, p, u, idx, i); assert(sv(p.rhs, i) == rsum(p.n, scaled(x, coef(p, i)))); }
    }
}
/// the answer is right for p
pub open spec fn solved(p: Lp, r: OptimizationResult) -> bool {
    match r { OptimizationResult::Infeasible => forall|y: V| #![trigger feasible(y, p)] !feasible(y, p), OptimizationResult::Unbounded => unbounded(p), OptimizationResult::FiniteOptimum(x) => x.wf() && x.len == p.n && best_point(svf(x.data@), p) }
}
proof fn same_answer(k: Kind, p: Lp, q: &Provider, rows: Vec<usize>, nr: int, im: Carry, basis: std::collections::HashSet<usize>, r: OptimizationResult) requires superfluous(k, p, q, rows, nr, im, basis), p.wf(), p.n >= 0, solved(q.lp(), r) ensures solved(p, r) {
    assert forall|x: V| #![trigger feasible(x, p)] feasible(x, p) == feasible(x, q.lp()) && value(x, p) == value(x, q.lp()) by { same_point(k, p, q, rows, nr, im, basis, x); }
    match r { OptimizationResult::Infeasible => {}, OptimizationResult::FiniteOptimum(x) => { let y = svf(x.data@); same_point(k, p, q, rows, nr, im, basis, y); assert(feasible(y, p)); }
      OptimizationResult::Unbounded => { assert forall|l: real| #[trigger] below(p, l) by { assert(below(q.lp(), l)); let x = choose|x: V| feasible(x, q.lp()) && #[trigger] value(x, q.lp()) < l; same_point(k, p, q, rows, nr, im, basis, x); assert(feasible(x, p) && value(x, p) < l); } } }
}
proof fn full_rank(p: Lp, rank: Rank, nr: int, im: Carry, basis: std::collections::HashSet<usize>) requires started(p, rank, nr, im, basis) ensures match rank { Rank::Deficient(rows) => rows@.len() > 0 && uniq(rows@, p.m), _ => started(p, Rank::Full, nr, im, basis) } {
    let k = choose|k: Kind| #[trigger] begun(k, p, rank, nr, im, basis);
    match rank { Rank::Full => { assert(begun(k, p, Rank::Full, nr, im, basis)); } Rank::Deficient(rows) => {} }
}
proof fn is_deficient(p: Lp, rows: Vec<usize>, nr: int, im: Carry, basis: std::collections::HashSet<usize>) requires started(p, Rank::Deficient(rows), nr, im, basis), p.wf(), p.n >= 0
    ensures forall|q: &Provider| #![trigger q.lp()] q.rows() == rows@ && q.lp().wf() && without(p, q.lp(), rows@) ==> deficient(q, nr, im, basis),
      forall|q: &Provider, r: OptimizationResult| #![trigger solved(q.lp(), r)] q.rows() == rows@ && q.lp().wf() && without(p, q.lp(), rows@) && solved(q.lp(), r) ==> solved(p, r)
{
    let k = choose|k: Kind| #[trigger] begun(k, p, Rank::Deficient(rows), nr, im, basis);
    assert forall|q: &Provider| #![trigger q.lp()] q.rows() == rows@ && q.lp().wf() && without(p, q.lp(), rows@) implies deficient(q, nr, im, basis) by { assert(superfluous(k, p, q, rows, nr, im, basis)); }
    assert forall|q: &Provider, r: OptimizationResult| #![trigger solved(q.lp(), r)] q.rows() == rows@ && q.lp().wf() && without(p, q.lp(), rows@) && solved(q.lp(), r) implies solved(p, r) by { same_answer(k, p, q, rows, nr, im, basis, r); }
}
//%%fn src/algorithm/two_phase/mod.rs MP as SolveRelaxation::solve_relaxation#0
//% as solve_relaxation
//% path Tableau::<_,NonArtificial<'_><_>>::from_artificial=Tableau::from_artificial
//% path Tableau::<_,NonArtificial<'_><_>>::from_artificial_removing_rows=Tableau::from_artificial_removing_rows
//% path phase_two::primal::<_,_,Rule>=phase_two
//% spec
    requires self.good(), 2 * self.lp().m + self.lp().n <= usize::MAX
    ensures solved(self.lp(), r)
//% before "let rows_removed"
    proof { is_deficient(self.lp(), rows_to_remove, nr_artificial_variables as int, inverse_maintainer, basis); full_rank(self.lp(), rank, nr_artificial_variables as int, inverse_maintainer, basis); }
//% before "let mut non_artificial_tableau"
    proof { full_rank(self.lp(), rank, nr_artificial_variables as int, inverse_maintainer, basis); }
//% before "phase_two"
    proof { let q = &rows_removed; assert forall|r: OptimizationResult| #![trigger solved(self.lp(), r)] solved(q.lp(), r) implies solved(self.lp(), r) by {} }
//%%end
// ---- a column with a one for every row ----

proof fn at_least_rest(t: Seq<(usize, usize)>, k: int, m: int) requires ssorted(t), 0 <= k < t.len(), t[t.len() - 1].0 < m ensures t[k].0 + (t.len() - 1 - k) < m decreases t.len() - k { if k < t.len() - 1 { at_least_rest(t, k + 1, m); assert(t[k].0 < t[k + 1].0); } }
proof fn every_row(p: Lp, t: Seq<(usize, usize)>) requires unit_pivots(p, t), t.len() == p.m ensures forall|k: int| #![trigger t[k]] 0 <= k < p.m ==> t[k].0 == k {
    assert forall|k: int| #![trigger t[k]] 0 <= k < p.m implies t[k].0 == k by { at_least(t, 0, k, 0); assert(t[t.len() - 1].0 < p.m); at_least_rest(t, k, p.m); }
}
pub open spec fn unit() -> M { |i: int, l: int| delta(i, l) }
proof fn units_invertible(p: Lp, t: Seq<(usize, usize)>, basis: Seq<usize>) requires unit_pivots(p, t), t.len() == p.m, pairs_of(basis, t) ensures invertible(basis, p), forall|i: int| #![trigger basis[i]] 0 <= i < p.m ==> basis[i] == t[i].1 && single((p.a)(basis[i] as int), i) {
    every_row(p, t); let v = unit();
    assert forall|i: int| #![trigger basis[i]] 0 <= i < p.m implies basis[i] == t[i].1 && single((p.a)(basis[i] as int), i) by { assert(t[i].0 == i); assert(basis[t[i].0 as int] == t[i].1); }
    assert forall|i: int, j: int| #![trigger dot((p.a)(basis[j] as int), row(v, i))] 0 <= i < p.m && 0 <= j < p.m implies dot((p.a)(basis[j] as int), row(v, i)) == delta(i, j) by { single_dot((p.a)(basis[j] as int), j, row(v, i)); }
    assert(inverts(v, basis, p));
}
proof fn units_nonneg(p: Lp, basis: Seq<usize>, v: M, b: Seq<F>)
    requires p.wf(), inrange(basis, p), inverts(v, basis, p), values(b, v, p), forall|i: int| #![trigger basis[i]] 0 <= i < p.m ==> single((p.a)(basis[i] as int), i), forall|i: int| #![trigger sv(p.rhs, i)] 0 <= i < p.m ==> sv(p.rhs, i) >= 0real
    ensures nonneg(num(b), p.m)
{
    assert forall|i: int| 0 <= i < p.m implies #[trigger] num(b)(i) >= 0real by {
        let d = row(v, i); assert forall|l: int| 0 <= l < p.m implies #[trigger] d(l) == delta(i, l) by { assert(single((p.a)(basis[l] as int), l)); single_dot((p.a)(basis[l] as int), l, d); assert(dot((p.a)(basis[l] as int), row(v, i)) == delta(i, l)); }
        dot_delta(p.rhs, p.m, d, i); assert(b[i]@ == dot(p.rhs, row(v, i))); assert(sv(p.rhs, i) >= 0real);
    }
}
/// columns of the pairs, as a set
pub open spec fn seconds(t: Seq<(usize, usize)>, s: Seq<usize>) -> bool { s.len() == t.len() && forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i] == t[i].1 }
proof fn seconds_basic(t: Seq<(usize, usize)>, s: Seq<usize>, basis: Seq<usize>, x: usize) requires seconds(t, s), basis.len() == t.len(), forall|i: int| #![trigger basis[i]] 0 <= i < basis.len() ==> basis[i] == t[i].1 ensures s.contains(x) == is_basic(basis, x as int) {
    if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(basis[i] == x as int); }
    if is_basic(basis, x as int) { let i = choose|i: int| 0 <= i < basis.len() && #[trigger] basis[i] == x as int; assert(s[i] == x); }
}
//%%fn src/algorithm/two_phase/mod.rs MP as SolveRelaxation::solve_relaxation#1
//% as solve_relaxation_from_full_basis
//% sets
//% path Tableau::<_,NonArtificial<'_><_>>::new_with_inverse_maintainer=Tableau::new_with_inverse_maintainer
//% path phase_two::primal::<_,_,Rule>=phase_two
//% spec
    requires self.good(), self.full()
    ensures solved(self.lp(), r)
//% closure 0 |c0: (usize, usize)| -> (r: usize) ensures r == c0.1
//% after "let basis_indices"#0
    let ghost (t, p) = (basis_indices@, self.lp());
    proof {
        assert forall|basis: Seq<usize>| #![trigger invertible(basis, p)] pairs_of(basis, t) implies invertible(basis, p) by { units_invertible(p, t, basis); }
        every_row(p, t);
        assert forall|s: Seq<usize>, x: usize, n: Seq<usize>| #![trigger s.contains(x), is_basic(n, x as int)] seconds(t, s) && pairs_of(n, t) implies s.contains(x) == is_basic(n, x as int) by { units_invertible(p, t, n); seconds_basic(t, s, n, x); }
    }
//% after "let inverse_maintainer"
    proof { let im = inverse_maintainer; units_invertible(p, t, im.basis_indices@); units_nonneg(p, im.basis_indices@, im.basis_inverse.inv(), im.b.data@); }
//%%end
}
fn main() {}
