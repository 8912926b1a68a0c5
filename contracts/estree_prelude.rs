// Stand-ins for what the extracted reader of ESTree documents calls outside the extracted
// files.  Everything here marked external_body / assume_specification / uninterp is trusted.

type StdResult<T, E> = std::result::Result<T, E>;

#[verifier::external_body]
fn vp_unreachable<A>() -> (r: A)
    requires false,
{ unimplemented!() }

// str::parse, for the enumerations that implement it
trait FromStr: Sized {
    type Err;
    spec fn spelled(self, s: Seq<char>) -> bool;
    fn from_str(s: &str) -> (r: StdResult<Self, Self::Err>)
        ensures r matches Ok(x) ==> x.spelled(s@),
                r is Err ==> forall|x: Self| !(#[trigger] x.spelled(s@));
}
fn vp_str(s: &str) -> (r: &str) ensures r@ == s@ { s }
// two strings with the same characters are the same
#[verifier::external_body]
broadcast proof fn axiom_str(a: &str, b: &str) ensures #[trigger] a@ == #[trigger] b@ ==> a == b { }

// ---------------------------------------------------------------- locations
trait TrackingRef {
    spec fn loc(&self) -> Option<Span>;
    fn tracking_ref(&self) -> (r: &Option<Span>)
        ensures *r == self.loc();
}
trait TrackingMut: TrackingRef + Sized {
    spec fn with_loc(self, l: Option<Span>) -> Self;
    fn tracking_mut(&mut self) -> (r: &mut Option<Span>)
        ensures *r == old(self).loc(), *final(self) == old(self).with_loc(*final(r));
}
impl TrackingRef for Option<Span> {
    spec fn loc(&self) -> Option<Span> { *self }
    fn tracking_ref(&self) -> (r: &Option<Span>) { self }
}

// ---------------------------------------------------------------- words and strings
// (the real methods are proved in unit joker)
uninterp spec fn name_str(n: Name) -> Seq<char>;
impl Name {
    #[verifier::external_body]
    fn into_string(self) -> (r: String) ensures r@ == name_str(self) { unimplemented!() }
    #[verifier::external_body]
    fn from(s: String) -> (r: Name) ensures name_str(r) == s@ { unimplemented!() }
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &str) ensures r@ == name_str(*self) { unimplemented!() }
}
impl Clone for StringLiteral { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
trait VpToString { fn vp_to_string(&self) -> (r: String); }
impl VpToString for i64 { #[verifier::external_body] fn vp_to_string(&self) -> (r: String) { unimplemented!() } }
impl VpToString for u64 { #[verifier::external_body] fn vp_to_string(&self) -> (r: String) { unimplemented!() } }
// s.chars().collect::<Vec<char>>()
#[verifier::external_body]
fn vp_chars_collect(s: &String) -> (r: Vec<char>) ensures r@ == s@ { s.chars().collect() }

// vec::IntoIter
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
struct VpIter<T> { it: std::vec::IntoIter<T> }
impl<T> VpIter<T> {
    uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    fn new(v: Vec<T>) -> (r: VpIter<T>) ensures r@ == v@ { VpIter { it: v.into_iter() } }
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.subrange(1, old(self)@.len() as int) { self.it.next() }
}

#[verifier::external_body]
fn vp_push_display<T>(s: &mut String, x: &T) { unimplemented!() }
