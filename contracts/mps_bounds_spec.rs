pub open spec fn at_least(o: Option<real>, v: real) -> Option<real> { match o { Some(x) => Some(if v > x { v } else { x }), None => Some(v) } }
pub open spec fn at_most(o: Option<real>, v: real) -> Option<real> { match o { Some(x) => Some(if v < x { v } else { x }), None => Some(v) } }
/// what the lines read so far say about one variable
pub struct Said { pub lo: Option<real>, pub hi: Option<real>, pub silent: bool, pub free: bool, pub whole: bool }
/// what a line of each type says
pub open spec fn says(s: Said, b: BoundType) -> Said { match b {
    BoundType::LowerContinuous(v) => Said { lo: at_least(s.lo, v@), silent: false, ..s },
    BoundType::UpperContinuous(v) => Said { hi: at_most(s.hi, v@), ..s },
    BoundType::Fixed(v) => Said { lo: at_least(s.lo, v@), hi: at_most(s.hi, v@), silent: false, ..s },
    BoundType::Free => Said { silent: false, free: true, ..s },
    BoundType::LowerMinusInfinity => Said { hi: at_most(s.hi, 0real), silent: false, ..s },
    BoundType::UpperInfinity => Said { lo: at_least(s.lo, 0real), silent: false, ..s },
    BoundType::Binary => Said { lo: at_least(s.lo, 0real), hi: at_most(s.hi, 1real), silent: false, whole: true, ..s },
    BoundType::LowerInteger(v) => Said { lo: at_least(s.lo, v@), silent: false, whole: true, ..s },
    BoundType::UpperInteger(v) => Said { hi: at_most(s.hi, v@), whole: true, ..s },
    BoundType::SemiContinuous(_, _) => s,
} }
pub open spec fn conflict(s: Said, b: BoundType) -> bool { b is SemiContinuous || (b is Free && (s.lo is Some || s.hi is Some)) }
pub open spec fn nothing() -> Said { Said { lo: None, hi: None, silent: true, free: false, whole: false } }
/// what the lines about variable `j` say together
pub open spec fn said(s: Seq<(usize, BoundType)>, j: int) -> Said decreases s.len() { if s.len() == 0 { nothing() } else { let p = said(s.drop_last(), j); if s.last().0 == j { says(p, s.last().1) } else { p } } }
/// no line conflicts with an earlier one
pub open spec fn fits(s: Seq<(usize, BoundType)>) -> bool decreases s.len() { s.len() == 0 || (fits(s.drop_last()) && !conflict(said(s.drop_last(), s.last().0 as int), s.last().1)) }
/// all lines in order of appearance; the names of the groups they are listed in mean nothing
pub open spec fn lines(b: Seq<Bound>) -> Seq<(usize, BoundType)> decreases b.len() { if b.len() == 0 { Seq::empty() } else { lines(b.drop_last()) + b.last().values@ } }
pub open spec fn vtype(v: VariableType, whole: bool) -> VariableType { if whole { VariableType::Integer } else { v } }
/// a variable has what was said about it
pub open spec fn has(old: Variable, v: Variable, s: Said) -> bool { ov(v.lower_bound) == s.lo && ov(v.upper_bound) == s.hi && v.variable_type == vtype(old.variable_type, s.whole) && same_rest(old, v) }
pub open spec fn same_rest(a: Variable, b: Variable) -> bool { a.cost == b.cost && a.shift == b.shift && a.flipped == b.flipped }
/// the bounds that a variable ends up with
pub open spec fn lower_of(s: Said) -> Option<real> { if s.silent { Some(0real) } else { s.lo } }
pub open spec fn bounded_free(s: Said) -> bool { s.free && (s.lo is Some || s.hi is Some) }
pub open spec fn ends_with(old: Variable, v: Variable, s: Said) -> bool { ov(v.lower_bound) == lower_of(s) && ov(v.upper_bound) == s.hi && v.variable_type == vtype(old.variable_type, s.whole) && same_rest(old, v) }
pub open spec fn is_unbounded(v: Variable) -> bool { v.lower_bound is None && v.upper_bound is None }
pub proof fn silent_low(s: Seq<(usize, BoundType)>, j: int) ensures said(s, j).silent ==> said(s, j).lo is None decreases s.len() { if s.len() > 0 { silent_low(s.drop_last(), j); } }
pub proof fn fits_prefix(s: Seq<(usize, BoundType)>, k: int) requires fits(s), 0 <= k <= s.len() ensures fits(s.subrange(0, k)) decreases s.len() { if k == s.len() { assert(s.subrange(0, k) =~= s); } else { fits_prefix(s.drop_last(), k); assert(s.drop_last().subrange(0, k) =~= s.subrange(0, k)); } }
pub proof fn lines_prefix(b: Seq<Bound>, k: int) requires 0 <= k <= b.len() ensures lines(b.subrange(0, k)).len() <= lines(b).len(), lines(b).subrange(0, lines(b.subrange(0, k)).len() as int) =~= lines(b.subrange(0, k)) decreases b.len() { if k == b.len() { assert(b.subrange(0, k) =~= b); } else { lines_prefix(b.drop_last(), k); assert(b.drop_last().subrange(0, k) =~= b.subrange(0, k)); } }
/// as if nothing was said about a default, a variable's type or its being free
pub open spec fn seen(v: Variable) -> Said { Said { lo: ov(v.lower_bound), hi: ov(v.upper_bound), ..nothing() } }
/// what is held while the lines are read
pub open spec fn track(old: Seq<Variable>, v: Seq<Variable>, d: Seq<bool>, f: Seq<bool>, s: Seq<(usize, BoundType)>) -> bool {
    v.len() == old.len() && d.len() == old.len() && f.len() == old.len() && forall|j: int| #![trigger v[j]] 0 <= j < old.len() ==> has(old[j], v[j], said(s, j)) && d[j] == said(s, j).silent && f[j] == said(s, j).free }
pub proof fn one_more(b: Seq<Bound>, k: int) requires 0 < k <= b.len() ensures lines(b.subrange(0, k)).len() <= lines(b).len(), lines(b.subrange(0, k)) =~= lines(b.subrange(0, k - 1)) + b[k - 1].values@, lines(b).subrange(0, lines(b.subrange(0, k)).len() as int) =~= lines(b.subrange(0, k)) { let p = b.subrange(0, k); assert(p.drop_last() =~= b.subrange(0, k - 1)); lines_prefix(b, k); }
