// ---- what the two phases are about ----
//%%types PR=Rule; OptimizationResult=OptimizationResult; Tableau=Tableau; RankedFeasibilityResult<IM>=RankedFeasibilityResult
//%%item src/algorithm/mod.rs OptimizationResult
//%%end
/// a point with the smallest value
pub open spec fn best_point(x: V, p: Lp) -> bool { feasible(x, p) && forall|y: V| #![trigger feasible(y, p)] feasible(y, p) ==> value(y, p) >= value(x, p) }
impl Tableau {
    /// the basic solution is feasible
    pub open spec fn ok(&self) -> bool { self.holds() && nonneg(num(self.b()), self.p().m) }
}
/// the cost is one for artificial columns, zero for the others; artificial basis columns are in their own row
pub open spec fn art_costs(p: Lp, first: int) -> bool { forall|j: int| #![trigger (p.c)(j)] 0 <= j < p.n ==> (p.c)(j) == (if j < first { 1real } else { 0real }) }
pub open spec fn placed(basis: Seq<usize>, p: Lp, first: int) -> bool { forall|i: int| #![trigger basis[i]] 0 <= i < p.m && basis[i] < first ==> single((p.a)(basis[i] as int), i) }
pub open spec fn zeros(b: Seq<F>, basis: Seq<usize>, first: int) -> bool { forall|i: int| #![trigger basis[i]] 0 <= i < b.len() && basis[i] < first ==> b[i]@ == 0real }
/// row r says nothing about the columns that are not artificial
pub open spec fn redundant(p: Lp, v: M, first: int, r: int) -> bool { forall|j: int| #![trigger (p.a)(j)] first <= j < p.n ==> dots((p.a)(j), v)(r) == 0real }
impl Tableau { pub open spec fn art(&self) -> bool { self.ok() && art_costs(self.p(), self.first()) && placed(self.basis(), self.p(), self.first()) } }
pub open spec fn listed(rows: Seq<usize>, i: int) -> bool { exists|k: int| 0 <= k < rows.len() && #[trigger] rows[k] == i }
/// rows that are of no use: their basic column is artificial, and they say nothing
pub open spec fn useless(rows: Seq<usize>, t: &Tableau) -> bool { forall|x: int| #![trigger rows[x]] 0 <= x < rows.len() ==> rows[x] < t.p().m && t.basis()[rows[x] as int] < t.first() && redundant(t.p(), t.inv(), t.first(), rows[x] as int) }
//%%item src/algorithm/two_phase/phase_one.rs Rank
//%%end
//%%item src/algorithm/two_phase/phase_one.rs RankedFeasibilityResult
//%%end
/// what phase one finds: a tableau without artificial variables in the basis, but for the rows that are superfluous
pub open spec fn found(t: &Tableau, rank: Rank) -> bool {
    t.art() && zeros(t.b(), t.basis(), t.first()) && match rank {
        Rank::Full => forall|i: int| #![trigger t.basis()[i]] 0 <= i < t.p().m ==> t.basis()[i] >= t.first(),
        Rank::Deficient(rows) => rows@.len() > 0 && uniq(rows@, t.p().m) && useless(rows@, t) && forall|i: int| #![trigger t.basis()[i]] 0 <= i < t.p().m && t.basis()[i] < t.first() ==> listed(rows@, i),
    }
}
/// no point satisfies all rows without artificial variables
pub open spec fn no_start(p: Lp, first: int) -> bool { forall|y: V| #![trigger feasible(y, p)] feasible(y, p) ==> !absent(y, first) }
pub open spec fn absent(y: V, first: int) -> bool { forall|j: int| 0 <= j < first ==> #[trigger] y(j) == 0real }
