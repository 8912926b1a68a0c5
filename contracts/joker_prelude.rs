// Stand-ins for what the extracted lexer calls outside the crate.  Everything in
// this file marked external_body / assume_specification / uninterp is trusted.

fn vp_debug_assert(b: bool)
    requires b,
{ }

#[verifier::external_body]
fn vp_unreachable<A>() -> (r: A)
    requires false,
{ unimplemented!() }

// The source iterator.  A finite, fused iterator of chars.
trait CharSource {
    spec fn rest(&self) -> Seq<char>;
    fn next(&mut self) -> (r: Option<char>)
        ensures
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1);
}

// std::collections::VecDeque
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
struct VecDeque<T> { inner: std::collections::VecDeque<T> }

impl<T> VecDeque<T> {
    uninterp spec fn view(&self) -> Seq<T>;
    uninterp spec fn cap(&self) -> nat;
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn with_capacity(n: usize) -> (r: Self) ensures r@ == Seq::<T>::empty(), r.cap() >= n { unimplemented!() }
    #[verifier::external_body]
    fn capacity(&self) -> (r: usize) ensures r == self.cap() { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, i: usize) -> (r: Option<&T>)
        ensures i < self@.len() ==> r is Some && *r->0 == self@[i as int],
                i >= self@.len() ==> r is None { unimplemented!() }
    #[verifier::external_body]
    fn front(&self) -> (r: Option<&T>)
        ensures 0 < self@.len() ==> r is Some && *r->0 == self@[0],
                0 == self@.len() ==> r is None { unimplemented!() }
    #[verifier::external_body]
    fn back(&self) -> (r: Option<&T>)
        ensures 0 < self@.len() ==> r is Some && *r->0 == self@.last(),
                0 == self@.len() ==> r is None { unimplemented!() }
    #[verifier::external_body]
    fn push_back(&mut self, t: T)
        ensures final(self)@ == old(self)@.push(t), final(self).cap() >= old(self).cap(),
                old(self)@.len() < old(self).cap() ==> final(self).cap() == old(self).cap() { unimplemented!() }
    #[verifier::external_body]
    fn push_front(&mut self, t: T)
        ensures final(self)@ == seq![t] + old(self)@, final(self).cap() >= old(self).cap(),
                old(self)@.len() < old(self).cap() ==> final(self).cap() == old(self).cap() { unimplemented!() }
    #[verifier::external_body]
    fn pop_front(&mut self) -> (r: Option<T>)
        ensures final(self).cap() == old(self).cap(),
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1) { unimplemented!() }
    #[verifier::external_body]
    fn pop_back(&mut self) -> (r: Option<T>)
        ensures final(self).cap() == old(self).cap(),
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last() { unimplemented!() }
    #[verifier::external_body]
    fn clear(&mut self) ensures final(self)@ == Seq::<T>::empty(), final(self).cap() == old(self).cap() { unimplemented!() }
}

// std::collections::HashMap keyed by string literals
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
struct HashMap<K, V> { k: std::marker::PhantomData<K>, v: std::marker::PhantomData<V> }

impl<'a, V> HashMap<&'a str, V> {
    uninterp spec fn view(&self) -> vstd::map::Map<Seq<char>, V>;
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r@ == vstd::map::Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn with_capacity(n: usize) -> (r: Self) ensures r@ == vstd::map::Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: &'a str, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, k: &str) -> (r: Option<&V>)
        ensures self@.contains_key(k@) ==> r is Some && *r->0 == self@[k@],
                !self@.contains_key(k@) ==> r is None { unimplemented!() }
    #[verifier::external_body]
    fn contains_key(&self, k: &str) -> (r: bool) ensures r == self@.contains_key(k@) { unimplemented!() }
}

// crate ucd: the Unicode properties ID_Start and ID_Continue
uninterp spec fn uni_id_start(c: char) -> bool;
uninterp spec fn uni_id_continue(c: char) -> bool;

// Facts about those two properties that the lexer relies on; vp/ucd_check
// compares them with the real crate for every one of the 1,112,064 chars.
#[verifier::external_body]
broadcast proof fn axiom_ucd(c: char)
    ensures
        #![trigger uni_id_continue(c)]
        #![trigger uni_id_start(c)]
        uni_id_start(c) ==> uni_id_continue(c),
        (c as u32) < 128 ==> uni_id_start(c) == (('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z')),
        (c as u32) < 128 ==> uni_id_continue(c) == (('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || ('0' <= c && c <= '9') || c == '_'),
{ }

trait Codepoint: Sized {
    spec fn cp(self) -> char;
    fn is_id_start(self) -> (r: bool) ensures r == uni_id_start(self.cp());
    fn is_id_continue(self) -> (r: bool) ensures r == uni_id_continue(self.cp());
}
impl Codepoint for char {
    spec fn cp(self) -> char { self }
    #[verifier::external_body]
    fn is_id_start(self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn is_id_continue(self) -> (r: bool) { unimplemented!() }
}

// std::char
pub open spec fn is_scalar(u: u32) -> bool { u < 0xD800 || (0xE000 <= u && u <= 0x10FFFF) }
pub open spec fn dig_val(c: char) -> nat {
    if '0' <= c && c <= '9' { (c as u32 - '0' as u32) as nat }
    else if 'a' <= c && c <= 'z' { (c as u32 - 'a' as u32 + 10) as nat }
    else if 'A' <= c && c <= 'Z' { (c as u32 - 'A' as u32 + 10) as nat }
    else { 1000 }
}
pub assume_specification[ char::from_u32 ](u: u32) -> (r: Option<char>)
    ensures is_scalar(u) ==> r is Some && (r->0) as u32 == u,
            !is_scalar(u) ==> r is None;
pub assume_specification[ char::to_digit ](c: char, radix: u32) -> (r: Option<u32>)
    requires 2 <= radix <= 36,
    ensures dig_val(c) < radix ==> r == Some(dig_val(c) as u32), dig_val(c) >= radix ==> r is None;
pub assume_specification[ char::is_digit ](c: char, radix: u32) -> (r: bool)
    requires 2 <= radix <= 36,
    ensures r == (dig_val(c) < radix);
uninterp spec fn uni_alphabetic(c: char) -> bool;
uninterp spec fn uni_lowercase(c: char) -> bool;
pub assume_specification[ char::is_alphabetic ](c: char) -> (r: bool)
    ensures (c as u32) < 128 ==> r == (('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z'));
pub assume_specification[ char::is_lowercase ](c: char) -> (r: bool)
    ensures (c as u32) < 128 ==> r == ('a' <= c && c <= 'z');

// std::string
pub open spec fn all_ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128 }
pub assume_specification[ String::len ](s: &String) -> (r: usize)
    ensures r >= s@.len(), all_ascii(s@) ==> r == s@.len();
// s.chars().collect::<Vec<char>>()
#[verifier::external_body]
fn vp_chars_collect(s: &String) -> (r: Vec<char>) ensures r@ == s@ { s.chars().collect() }
// s.chars().skip(n).all(f)
#[verifier::external_body]
fn vp_chars_all<F: Fn(char) -> bool>(s: &String, n: usize, f: &F) -> (r: bool)
    requires forall|i: int| n <= i < s@.len() ==> call_requires(*f, (#[trigger] s@[i],)),
    ensures r ==> forall|i: int| n <= i < s@.len() ==> call_ensures(*f, (#[trigger] s@[i],), true),
            !r ==> exists|i: int| n <= i < s@.len() && call_ensures(*f, (#[trigger] s@[i],), false),
{ s.chars().skip(n).all(f) }

trait VpText {
    spec fn txt(&self) -> Seq<char>;
    fn vp_to_string(&self) -> (r: String) ensures r@ == self.txt();
    fn vp_as_ref(&self) -> (r: &str) ensures r@ == self.txt();
}
impl VpText for str {
    spec fn txt(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vp_to_string(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn vp_as_ref(&self) -> (r: &str) { unimplemented!() }
}
impl VpText for String {
    spec fn txt(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vp_to_string(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn vp_as_ref(&self) -> (r: &str) { unimplemented!() }
}
impl<T: VpText> VpText for &T {
    spec fn txt(&self) -> Seq<char> { (**self).txt() }
    #[verifier::external_body]
    fn vp_to_string(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn vp_as_ref(&self) -> (r: &str) { unimplemented!() }
}
// one {} of a format!
#[verifier::external_body]
fn vp_push_display<T: VpText>(s: &mut String, x: &T)
    ensures final(s)@ == old(s)@ + x.txt(),
{ unimplemented!() }

// f64.  The value of a decimal text is str::parse's (the nearest double); f64_ok
// is defined in the specification as "digits, an optional point, an optional exponent".
pub uninterp spec fn f64_text(s: Seq<char>) -> f64;
pub uninterp spec fn f64_fma(a: f64, b: f64, c: f64) -> f64;
pub uninterp spec fn f64_int(n: nat) -> f64;
trait VpParse {
    spec fn ptxt(&self) -> Seq<char>;
    fn vp_parse_f64(&self) -> (r: std::result::Result<f64, ()>)
        ensures f64_ok(self.ptxt()) ==> r == std::result::Result::<f64, ()>::Ok(f64_text(self.ptxt()));
}
impl VpParse for String {
    spec fn ptxt(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vp_parse_f64(&self) -> (r: std::result::Result<f64, ()>) { unimplemented!() }
}
pub assume_specification[ f64::mul_add ](a: f64, b: f64, c: f64) -> (r: f64)
    ensures r == f64_fma(a, b, c);
#[verifier::external_body]
fn vp_u32_f64(n: u32) -> (r: f64) ensures r == f64_int(n as nat) { n as f64 }
// IEEE 754: integers up to 2^53 are represented, and a fused multiply-add whose
// exact result is one of them returns it.
#[verifier::external_body]
broadcast proof fn axiom_fma(a: nat, b: nat, c: nat)
    requires a * b + c <= 0x20_0000_0000_0000,
    ensures #[trigger] f64_fma(f64_int(a), f64_int(b), f64_int(c)) == f64_int(a * b + c),
{ }
#[verifier::external_body]
proof fn axiom_f64_zero() ensures f64_int(0) == 0f64 { }
// two strs with the same characters are the same str
#[verifier::external_body]
proof fn axiom_str_ext() ensures forall|a: &str, b: &str| #[trigger] a@ == #[trigger] b@ ==> a == b { }
pub assume_specification[ String::with_capacity ](n: usize) -> (r: String)
    ensures r@ == Seq::<char>::empty();
#[verifier::external_body]
fn vp_string_from(s: &str) -> (r: String) ensures r@ == s@ { String::from(s) }
