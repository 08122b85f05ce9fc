// The permutations of the LU factorisation.
pub open spec fn inverse_of(f: Seq<usize>, b: Seq<usize>) -> bool {
    f.len() == b.len()
    && (forall|i: int| #![trigger f[i]] 0 <= i < f.len() ==> f[i] < f.len() && b[f[i] as int] == i)
    && (forall|i: int| #![trigger b[i]] 0 <= i < b.len() ==> b[i] < b.len() && f[b[i] as int] == i)
}
//%%item src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/full.rs Full
//%%end
impl Full {
    pub open spec fn wf(&self) -> bool { inverse_of(self.forward@, self.backward@) }
    pub open spec fn fwd(&self) -> spec_fn(int) -> int { |i: int| self.forward@[i] as int }
    pub open spec fn bwd(&self) -> spec_fn(int) -> int { |i: int| self.backward@[i] as int }
}
pub open spec fn mapped<T>(s: Seq<(usize, T)>, f: spec_fn(int) -> int) -> Seq<(usize, T)> { Seq::new(s.len(), |k: int| (f(s[k].0 as int) as usize, s[k].1)) }
//%%item src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/rotate_to_back.rs RotateToBack
//%%end
impl RotateToBack {
    pub open spec fn wf(&self) -> bool { self.index < self.len }
    pub open spec fn fwd(&self) -> spec_fn(int) -> int { |i: int| if i < self.index { i } else if i == self.index { self.len - 1 } else { i - 1 } }
    pub open spec fn bwd(&self) -> spec_fn(int) -> int { |i: int| if i < self.index { i } else if i < self.len - 1 { i + 1 } else { self.index as int } }
}
