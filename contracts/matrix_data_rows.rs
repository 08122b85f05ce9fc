// ---- what the rows say about the variables ----
proof fn times(e: real, z: real) ensures e == 0real ==> e * z == 0real, e == 1real ==> e * z == z, e == -1real ==> e * z == -z { assert(0real * z == 0real) by(nonlinear_arith); assert(1real * z == z) by(nonlinear_arith); assert((-1real) * z == -z) by(nonlinear_arith); }
/// only the term at a counts from lo on
proof fn rsum_from(lo: int, n: int, f: V, a: int) requires 0 <= lo <= n, forall|j: int| #![trigger f(j)] lo <= j < n && j != a ==> f(j) == 0real ensures rsum(n, f) == rsum(lo, f) + (if lo <= a < n { f(a) } else { 0real }) decreases n - lo { if lo < n { rsum_from(lo, n - 1, f, a); let x = f(n - 1); } }
impl<'a> MatrixData<'a> {
    /// row i at a point, column by column
    pub open spec fn terms(&self, i: int, z: V) -> V { |j: int| self.entry(i, j) * z(j) }
    /// the rows of the matrix form, at a nonnegative point
    pub open spec fn solution(&self, z: V) -> bool { (forall|i: int| #![trigger self.rhs(i)] 0 <= i < self.m() ==> rsum(self.n(), self.terms(i, z)) == self.rhs(i)) && forall|j: int| #![trigger z(j)] 0 <= j < self.n() ==> z(j) >= 0real }
    /// constraint i, without slack
    pub open spec fn lhs(&self, i: int, x: V) -> real { rsum(self.nv(), |j: int| self.constraints.at(j, i) * x(j)) }
    /// the problem as it was stated: equalities, ranges, upper and lower bounds on rows, bounds on variables
    pub open spec fn meets(&self, x: V) -> bool {
        (forall|i: int| #![trigger self.lhs(i, x)] 0 <= i < self.nc() ==> { let (v, b) = (self.lhs(i, x), self.b.data@[i]@);
            if i < self.ne() { v == b } else if i < self.ne() + self.nr() { b - self.ranges@[i - self.ne()]@ <= v <= b } else if i < self.ne() + self.nr() + self.nu() { v <= b } else { v >= b } })
        && forall|j: int| #![trigger x(j)] 0 <= j < self.nv() ==> x(j) >= 0real && (self.variables@[j].upper_bound is Some ==> x(j) <= (self.variables@[j].upper_bound->0)@)
    }
    /// what the slacks add in row i
    pub open spec fn slack(&self, i: int, z: V) -> real {
        let (e, r, u, l, b, c, v) = (self.ne(), self.nr(), self.nu(), self.nl(), self.nb(), self.nc(), self.nv());
        if i < e { 0real } else if i < e + r { z(v + i - e) } else if i < e + r + u { z(v + i - e) } else if i < c { -z(v + i - e) } else if i < c + b { z(v + r + u + l + i - c) } else { z(v + i - c - b) + z(v + r + u + l + b + i - c - b) }
    }
    /// what the variables add
    pub open spec fn normal(&self, i: int, z: V) -> real { if i < self.nc() { self.lhs(i, z) } else if i < self.nc() + self.nb() { z(self.bound_index_to_non_slack_variable_index@[i - self.nc()] as int) } else { 0real } }
}
proof fn row_sum(d: &MatrixData, i: int, z: V) requires d.wf(), 0 <= i < d.m() ensures rsum(d.n(), d.terms(i, z)) == d.normal(i, z) + d.slack(i, z) {
    let f = d.terms(i, z); let (e, r, u, l, b, c, v) = (d.ne(), d.nr(), d.nu(), d.nl(), d.nb(), d.nc(), d.nv());
    assert forall|j: int| #![trigger f(j)] true implies f(j) == d.entry(i, j) * z(j) && (d.entry(i, j) == 0real ==> f(j) == 0real) && (d.entry(i, j) == 1real ==> f(j) == z(j)) && (d.entry(i, j) == -1real ==> f(j) == -z(j)) by { times(d.entry(i, j), z(j)); }
    if i < c {
        let g: V = |j: int| d.constraints.at(j, i) * z(j);
        assert forall|j: int| 0 <= j < v implies #[trigger] f(j) == g(j) by {}
        rsum_ext(v, f, g);
        let a = if i < e { -1 } else { v + i - e };
        assert forall|j: int| #![trigger f(j)] v <= j < d.n() && j != a implies f(j) == 0real by { let x = d.entry(i, j); }
        rsum_from(v, d.n(), f, a); let x = d.entry(i, a);
    } else if i < c + b {
        let k = d.bound_index_to_non_slack_variable_index@[i - c] as int; let a = v + r + u + l + i - c;
        assert forall|j: int| #![trigger f(j)] 0 <= j < v && j != k implies f(j) == 0real by { let x = d.entry(i, j); }
        rsum_from(0, v, f, k); let x = d.entry(i, k);
        assert forall|j: int| #![trigger f(j)] v <= j < d.n() && j != a implies f(j) == 0real by { let x = d.entry(i, j); }
        rsum_from(v, d.n(), f, a); let y = d.entry(i, a);
    } else {
        let k = i - c - b; let (a1, a2) = (v + k, v + r + u + l + b + k);
        assert forall|j: int| #![trigger f(j)] 0 <= j < v implies f(j) == 0real by { let x = d.entry(i, j); }
        rsum_from(0, v, f, -1);
        assert forall|j: int| #![trigger f(j)] v <= j < v + r && j != a1 implies f(j) == 0real by { let x = d.entry(i, j); }
        rsum_from(v, v + r, f, a1); let x = d.entry(i, a1);
        assert forall|j: int| #![trigger f(j)] v + r <= j < d.n() && j != a2 implies f(j) == 0real by { let x = d.entry(i, j); }
        rsum_from(v + r, d.n(), f, a2); let y = d.entry(i, a2);
    }
}
/// a solution of the matrix form meets the problem
proof fn projects(d: &MatrixData, z: V) requires d.wf(), d.solution(z) ensures d.meets(z) {
    let (e, r, u, l, b, c, v) = (d.ne(), d.nr(), d.nu(), d.nl(), d.nb(), d.nc(), d.nv());
    assert forall|i: int| #![trigger d.lhs(i, z)] 0 <= i < c implies { let (v, b) = (d.lhs(i, z), d.b.data@[i]@); if i < d.ne() { v == b } else if i < d.ne() + d.nr() { b - d.ranges@[i - d.ne()]@ <= v <= b } else if i < d.ne() + d.nr() + d.nu() { v <= b } else { v >= b } } by {
        row_sum(d, i, z); let t = d.rhs(i);
        if i >= e { let x = z(v + i - e); }
        if e <= i < e + r { let q = c + b + i - e; row_sum(d, q, z); let t = d.rhs(q); let (x, y) = (z(v + i - e), z(v + r + u + l + b + i - e)); }
    }
    assert forall|j: int| #![trigger z(j)] 0 <= j < v implies z(j) >= 0real && (d.variables@[j].upper_bound is Some ==> z(j) <= (d.variables@[j].upper_bound->0)@) by {
        let o = d.non_slack_variable_index_to_bound_index@[j];
        if o is Some { let i = c + o->0; row_sum(d, i, z); let t = d.rhs(i); let x = z(v + r + u + l + o->0); }
    }
}
/// the slacks a point needs
pub open spec fn fill(d: &MatrixData, x: V) -> V {
    |j: int| { let (t, k) = d.group(j); match t {
        ColumnType::Normal => x(j), ColumnType::RangeSlack => d.b.data@[d.ne() + k]@ - d.lhs(d.ne() + k, x), ColumnType::UpperInequalitySlack => d.b.data@[d.ne() + d.nr() + k]@ - d.lhs(d.ne() + d.nr() + k, x),
        ColumnType::LowerInequalitySlack => d.lhs(d.ne() + d.nr() + d.nu() + k, x) - d.b.data@[d.ne() + d.nr() + d.nu() + k]@,
        ColumnType::VariableBoundSlack => d.rhs(d.nc() + k) - x(d.bound_index_to_non_slack_variable_index@[k] as int),
        ColumnType::SlackBoundSlack => d.ranges@[k]@ - (d.b.data@[d.ne() + k]@ - d.lhs(d.ne() + k, x)) } }
}
/// a point that meets the problem is part of a solution of the matrix form
proof fn extends_to(d: &MatrixData, x: V) requires d.wf(), d.meets(x) ensures d.solution(fill(d, x)), forall|j: int| #![trigger fill(d, x)(j)] 0 <= j < d.nv() ==> fill(d, x)(j) == x(j) {
    let (e, r, u, l, b, c, v) = (d.ne(), d.nr(), d.nu(), d.nl(), d.nb(), d.nc(), d.nv()); let z = fill(d, x);
    assert forall|i: int| #![trigger d.lhs(i, z)] d.lhs(i, z) == d.lhs(i, x) by { let f: V = |j: int| d.constraints.at(j, i) * z(j); let g: V = |j: int| d.constraints.at(j, i) * x(j); assert forall|j: int| 0 <= j < v implies #[trigger] f(j) == g(j) by { assert(z(j) == x(j)); } rsum_ext(v, f, g); }
    assert forall|j: int| #![trigger z(j)] 0 <= j < d.n() implies z(j) >= 0real by { let (t, k) = d.group(j); match t {
        ColumnType::Normal => { assert(x(j) >= 0real); } ColumnType::RangeSlack => { let y = d.lhs(e + k, x); } ColumnType::UpperInequalitySlack => { let y = d.lhs(e + r + k, x); } ColumnType::LowerInequalitySlack => { let y = d.lhs(e + r + u + k, x); }
        ColumnType::VariableBoundSlack => { let q = d.bound_index_to_non_slack_variable_index@[k]; let y = x(q as int); let w = d.non_slack_variable_index_to_bound_index@[q as int]; } ColumnType::SlackBoundSlack => { let y = d.lhs(e + k, x); } } }
    assert forall|i: int| #![trigger d.rhs(i)] 0 <= i < d.m() implies rsum(d.n(), d.terms(i, z)) == d.rhs(i) by {
        row_sum(d, i, z); let y = d.lhs(i, z);
        if c <= i < c + b { let q = d.bound_index_to_non_slack_variable_index@[i - c]; let w = z(q as int); }
    }
}
