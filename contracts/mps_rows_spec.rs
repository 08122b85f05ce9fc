/// all values in order of appearance; the names of the groups they are listed in mean nothing
pub open spec fn given(s: Seq<Rhs>) -> Seq<(usize, F)> decreases s.len() { if s.len() == 0 { Seq::empty() } else { given(s.drop_last()) + s.last().values@ } }
/// the right-hand side of row `i`: the tightest one
pub open spec fn side(s: Seq<(usize, F)>, t: ConstraintRelation, i: int) -> Option<real> decreases s.len() {
    if s.len() == 0 { None } else { let p = side(s.drop_last(), t, i); if s.last().0 == i { Some(match p { None => s.last().1@, Some(c) => tighter(t, c, s.last().1@) }) } else { p } } }
pub open spec fn tighter(t: ConstraintRelation, c: real, v: real) -> real { match t { ConstraintRelation::Equal => c, ConstraintRelation::Greater => if v > c { v } else { c }, ConstraintRelation::Less => if v < c { v } else { c } } }
/// no row must equal two values
pub open spec fn agree(s: Seq<(usize, F)>, rows: Seq<Row>) -> bool decreases s.len() {
    s.len() == 0 || (agree(s.drop_last(), rows) && { let (i, v) = s.last(); !(rows[i as int].constraint_type is Equal) || match side(s.drop_last(), ConstraintRelation::Equal, i as int) { None => true, Some(c) => v@ == c } }) }
pub open spec fn or_zero(o: Option<real>) -> real { match o { Some(x) => x, None => 0real } }
/// the upper end of the interval of a row with a range, as the format prescribes
pub open spec fn upper_end(t: ConstraintRelation, rhs: real, range: real) -> real { match t { ConstraintRelation::Less => rhs, ConstraintRelation::Greater => rhs + sabs(range), ConstraintRelation::Equal => if range < 0real { rhs } else { rhs + range } } }
pub open spec fn row_ok(row: Row, c: RangedConstraintRelation, after: RangedConstraintRelation, rhs: real, b: real) -> bool { match c { RangedConstraintRelation::Range(r) => after is Range && (after->Range_0)@ == sabs(r@) && b == upper_end(row.constraint_type, rhs, r@), _ => after == c && b == rhs } }
pub proof fn agree_prefix(s: Seq<(usize, F)>, rows: Seq<Row>, k: int) requires agree(s, rows), 0 <= k <= s.len() ensures agree(s.subrange(0, k), rows) decreases s.len() { if k == s.len() { assert(s.subrange(0, k) =~= s); } else { agree_prefix(s.drop_last(), rows, k); assert(s.drop_last().subrange(0, k) =~= s.subrange(0, k)); } }
pub proof fn flat(s: Seq<Rhs>, p: Seq<VIter<(usize, F)>>, k: int) requires p.len() == s.len(), 0 <= k <= s.len(), forall|i: int| #![trigger p[i]] 0 <= i < p.len() ==> p[i]@ == s[i].values@ ensures joined(p, k) == given(s.subrange(0, k)) decreases k { if k > 0 { flat(s, p, k - 1); assert(s.subrange(0, k).drop_last() =~= s.subrange(0, k - 1)); assert(p[k - 1]@ == s[k - 1].values@); } else { assert(s.subrange(0, 0) =~= Seq::empty()); } }
/// the relation that a row type stands for
pub open spec fn plain(t: ConstraintRelation) -> RangedConstraintRelation { match t { ConstraintRelation::Less => RangedConstraintRelation::Less, ConstraintRelation::Equal => RangedConstraintRelation::Equal, ConstraintRelation::Greater => RangedConstraintRelation::Greater } }
pub open spec fn kind_ok(t: ConstraintRelation, s: Seq<(usize, F)>, i: int, c: RangedConstraintRelation) -> bool {
    (forall|k: int| #![trigger s[k]] 0 <= k < s.len() && s[k].0 == i ==> ranged(c, s[k].1@)) && ((forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> s[k].0 != i) ==> c == plain(t)) }
pub open spec fn ranged(c: RangedConstraintRelation, r: real) -> bool { if r == 0real { c is Equal } else { c is Range && (c->Range_0)@ == r } }
/// all ranges in order of appearance
pub open spec fn spans(s: Seq<Range>) -> Seq<(usize, F)> decreases s.len() { if s.len() == 0 { Seq::empty() } else { spans(s.drop_last()) + s.last().values@ } }
pub open spec fn once_each(s: Seq<(usize, F)>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i].0 != s[j].0 }
pub open spec fn same_elements(a: Seq<(usize, F)>, b: Seq<(usize, F)>) -> bool { forall|e: (usize, F)| #![trigger a.contains(e)] #![trigger b.contains(e)] a.contains(e) == b.contains(e) }
/// a row with a range has two different right-hand sides
pub open spec fn torn(g: Seq<(usize, F)>, s: Seq<(usize, F)>) -> bool { exists|a: int, b: int, c: int| #![trigger g[a], g[b], s[c]] 0 <= a < g.len() && 0 <= b < g.len() && 0 <= c < s.len() && g[a].0 == g[b].0 == s[c].0 && g[a].1@ != g[b].1@ }
pub proof fn flat_spans(s: Seq<Range>, p: Seq<VIter<(usize, F)>>, k: int) requires p.len() == s.len(), 0 <= k <= s.len(), forall|i: int| #![trigger p[i]] 0 <= i < p.len() ==> p[i]@ == s[i].values@ ensures joined(p, k) == spans(s.subrange(0, k)) decreases k { if k > 0 { flat_spans(s, p, k - 1); assert(s.subrange(0, k).drop_last() =~= s.subrange(0, k - 1)); assert(p[k - 1]@ == s[k - 1].values@); } else { assert(s.subrange(0, 0) =~= Seq::empty()); } }
pub proof fn flat_refs(s: Seq<Rhs>, p: Seq<VIter<&(usize, F)>>, k: int) requires p.len() == s.len(), 0 <= k <= s.len(), forall|i: int| #![trigger p[i]] 0 <= i < p.len() ==> p[i]@ == refs(s[i].values@) ensures joined(p, k) =~= refs(given(s.subrange(0, k))) decreases k { if k > 0 { flat_refs(s, p, k - 1); assert(s.subrange(0, k).drop_last() =~= s.subrange(0, k - 1)); assert(p[k - 1]@ == refs(s[k - 1].values@)); } else { assert(s.subrange(0, 0) =~= Seq::empty()); } }
pub proof fn same_bag(a: Seq<(usize, F)>, b: Seq<(usize, F)>) requires a.to_multiset() == b.to_multiset() ensures same_elements(a, b) { a.to_multiset_ensures(); b.to_multiset_ensures(); assert forall|e: (usize, F)| #![trigger a.contains(e)] a.contains(e) == b.contains(e) by { assert(a.contains(e) <==> a.to_multiset().count(e) > 0); assert(b.contains(e) <==> b.to_multiset().count(e) > 0); } assert forall|e: (usize, F)| #![trigger b.contains(e)] a.contains(e) == b.contains(e) by { assert(a.contains(e) == b.contains(e)); } }
/// a row listed twice in a sorting of the elements is listed twice
pub proof fn twice(a: Seq<(usize, F)>, b: Seq<(usize, F)>, i: int) requires a.to_multiset() == b.to_multiset(), 0 < i < b.len(), b[i - 1].0 == b[i].0 ensures !once_each(a) {
    if once_each(a) { same_bag(a, b); assert(b.contains(b[i - 1])); assert(b.contains(b[i])); let (x, y) = (b[i - 1], b[i]); let p = choose|p: int| 0 <= p < a.len() && a[p] == x; let q = choose|q: int| 0 <= q < a.len() && a[q] == y;
        if p == q { a.to_multiset_ensures(); b.to_multiset_ensures(); assert(a.no_duplicates()) by { assert forall|u: int, v: int| 0 <= u < a.len() && 0 <= v < a.len() && u != v implies a[u] != a[v] by { if u < v { assert(a[u].0 != a[v].0); } else { assert(a[v].0 != a[u].0); } } }
            a.lemma_multiset_has_no_duplicates(); assert(x == y); let d = b.remove(i); assert(d.contains(x)) by { assert(d[i - 1] == x); } assert(b.to_multiset().remove(y) == d.to_multiset()); d.to_multiset_ensures(); assert(d.to_multiset().count(x) > 0); assert(b.to_multiset().count(x) >= 2); assert(a.to_multiset().count(x) <= 1); }
        else if p < q { assert(a[p].0 != a[q].0); } else { assert(a[q].0 != a[p].0); } } }
pub proof fn within(s: Seq<Rhs>, n: int, k: int) requires forall|t: int| #![trigger given(s)[t]] 0 <= t < given(s).len() ==> given(s)[t].0 < n, 0 <= k < s.len() ensures forall|t: int| #![trigger s[k].values@[t]] 0 <= t < s[k].values@.len() ==> s[k].values@[t].0 < n decreases s.len() {
    let (d, l) = (given(s.drop_last()), s.last().values@);
    assert forall|t: int| #![trigger d[t]] 0 <= t < d.len() implies d[t].0 < n by { assert(given(s)[t] == d[t]); }
    if k < s.len() - 1 { within(s.drop_last(), n, k); assert(s.drop_last()[k] == s[k]); } else { assert forall|t: int| #![trigger l[t]] 0 <= t < l.len() implies l[t].0 < n by { assert(given(s)[d.len() + t] == l[t]); } } }
/// a row of the problem: what its type, the right-hand sides and the ranges listed for it say
pub open spec fn row_of(row: Row, i: int, g: Seq<(usize, F)>, s: Seq<(usize, F)>, c: RangedConstraintRelation, b: real) -> bool { let rhs = or_zero(side(g, row.constraint_type, i));
    (forall|k: int| #![trigger s[k]] 0 <= k < s.len() && s[k].0 == i ==> interval(row.constraint_type, rhs, s[k].1@, c, b)) && ((forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> s[k].0 != i) ==> c == plain(row.constraint_type) && b == rhs) }
/// the interval that the format prescribes
pub open spec fn interval(t: ConstraintRelation, rhs: real, range: real, c: RangedConstraintRelation, b: real) -> bool { if range == 0real { c is Equal && b == rhs } else { c is Range && (c->Range_0)@ == sabs(range) && b == upper_end(t, rhs, range) } }
