// ---- problem files: what both units share ----
pub struct Inconsistency { x: Text }
impl Inconsistency { #[verifier::external_body] pub fn new<T>(t: T) -> Inconsistency { unimplemented!() } }
pub open spec fn ov(o: Option<F>) -> Option<real> { match o { Some(x) => Some(x@), None => None } }
