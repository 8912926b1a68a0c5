// Stand-ins for what the extracted parser calls outside the extracted files.
// Everything here marked external_body / assume_specification / uninterp is trusted.

type StdResult<T, E> = std::result::Result<T, E>;

fn vp_debug_assert(b: bool)
    requires b,
{ }

#[verifier::external_body]
fn vp_unreachable<A>() -> (r: A)
    requires false,
{ unimplemented!() }

// The character source.  The parser never looks at it.
trait CharSource { spec fn text(&self) -> Seq<char>; }

// crate tristate
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
enum TriState { Yes, No, Unknown }
type Strict = TriState;
impl TriState {
    fn from(b: bool) -> (r: TriState)
        ensures r == (if b { TriState::Yes } else { TriState::No })
    { if b { TriState::Yes } else { TriState::No } }
}

#[verifier::external_body]
struct JokerError { p: std::marker::PhantomData<u8> }

// ---------------------------------------------------------------- the token stream
// `Hist` stands for the whole run of the lexer: tk(h, k) is the k-th token it delivers
// and opm(h, k) the mode (operator position or not) it was lexed in.  Lexer::pos is the
// number of tokens delivered and not put back, Lexer::q the number of tokens in the
// lookahead buffer.  The queue behaviour is what C10 proves of the real lexer.
#[verifier::external_body]
struct Hist { p: std::marker::PhantomData<u8> }
uninterp spec fn tk(h: Hist, k: int) -> Token;
uninterp spec fn opm(h: Hist, k: int) -> bool;
uninterp spec fn hend(h: Hist) -> nat;
spec fn tv(h: Hist, k: int) -> TokenData { tk(h, k).value }
spec fn slashy(t: TokenData) -> bool { t is Slash || t is SlashAssign }

// the source is finite (C01: every token that is not EOF takes at least one character)
#[verifier::external_body]
broadcast proof fn axiom_end(h: Hist, k: int)
    ensures !(#[trigger] tk(h, k).value is EOF) ==> k < hend(h) { }
// C05/C09: what a slash is lexed as depends on the mode only
#[verifier::external_body]
broadcast proof fn axiom_mode(h: Hist, k: int)
    ensures opm(h, k) ==> !(#[trigger] tk(h, k).value is RegExp),
            !opm(h, k) ==> !slashy(tk(h, k).value) { }

#[verifier::external_body]
#[verifier::accept_recursive_types(I)]
struct Lexer<I> { i: std::marker::PhantomData<I> }

impl<I: CharSource> Lexer<I> {
    #[verifier::external_body]
    fn new(i: I) -> (r: Lexer<I>) ensures r.q() == 0, r.src() == i.text() { unimplemented!() }
}
impl<I> Lexer<I> {
    uninterp spec fn h(&self) -> Hist;
    uninterp spec fn pos(&self) -> int;
    uninterp spec fn q(&self) -> nat;
    uninterp spec fn src(&self) -> Seq<char>;

    #[verifier::external_body]
    fn posn(&self) -> (r: Posn) { unimplemented!() }
    #[verifier::external_body]
    fn read_token(&mut self, operator: bool) -> (r: StdResult<Token, JokerError>)
        ensures r matches Ok(t) ==> t == tk(old(self).h(), old(self).pos())
            && final(self).h() == old(self).h() && final(self).pos() == old(self).pos() + 1
            && final(self).q() == (if old(self).q() > 0 { (old(self).q() - 1) as nat } else { 0 })
            && (old(self).q() == 0 ==> opm(old(self).h(), old(self).pos()) == operator) { unimplemented!() }
    #[verifier::external_body]
    fn skip_token(&mut self, operator: bool) -> (r: StdResult<(), JokerError>)
        ensures r is Ok ==> final(self).h() == old(self).h() && final(self).pos() == old(self).pos() + 1
            && final(self).q() == (if old(self).q() > 0 { (old(self).q() - 1) as nat } else { 0 })
            && (old(self).q() == 0 ==> opm(old(self).h(), old(self).pos()) == operator) { unimplemented!() }
    #[verifier::external_body]
    fn peek_token(&mut self, operator: bool) -> (r: StdResult<&Token, JokerError>)
        ensures r matches Ok(t) ==> *t == tk(old(self).h(), old(self).pos())
            && final(self).h() == old(self).h() && final(self).pos() == old(self).pos()
            && final(self).q() == (if old(self).q() > 0 { old(self).q() } else { 1 })
            && (old(self).q() == 0 ==> opm(old(self).h(), old(self).pos()) == operator) { unimplemented!() }
    #[verifier::external_body]
    fn repeek_token(&mut self) -> (r: &Token)
        requires old(self).q() > 0,
        ensures *r == tk(old(self).h(), old(self).pos()), *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body]
    fn reread_token(&mut self) -> (r: Token)
        requires old(self).q() > 0,
        ensures r == tk(old(self).h(), old(self).pos()), final(self).h() == old(self).h(),
            final(self).pos() == old(self).pos() + 1, final(self).q() == old(self).q() - 1 { unimplemented!() }
    #[verifier::external_body]
    fn unread_token(&mut self, token: Token)
        requires old(self).q() < 2, token == tk(old(self).h(), old(self).pos() - 1),
        ensures final(self).h() == old(self).h(),
            final(self).pos() == old(self).pos() - 1, final(self).q() == old(self).q() + 1 { unimplemented!() }
}

// ---------------------------------------------------------------- locations
// The shape of #[derive(TrackingRef, TrackingMut)]; unit easter proves the real expansions
// against the same text.
trait TrackingRef {
    spec fn loc(&self) -> Option<Span>;
    fn tracking_ref(&self) -> (r: &Option<Span>)
        ensures *r == self.loc();
}
trait TrackingMut: TrackingRef + Sized {
    spec fn with_loc(self, l: Option<Span>) -> Self;
    fn tracking_mut(&mut self) -> (r: &mut Option<Span>)
        ensures *r == old(self).loc(), *final(self) == old(self).with_loc(*final(r));
}
impl TrackingRef for Option<Span> {
    spec fn loc(&self) -> Option<Span> { *self }
    fn tracking_ref(&self) -> (r: &Option<Span>) { self }
}

// ---------------------------------------------------------------- std collections
// HashMap<Rc<Name>, LabelType>
#[verifier::external_body]
struct LabelMap { p: std::marker::PhantomData<u8> }
impl LabelMap {
    uninterp spec fn view(&self) -> Map<Name, LabelType>;
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r@ == Map::<Name, LabelType>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Map::<Name, LabelType>::empty()) { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: Rc<Name>, v: LabelType) -> (r: Option<LabelType>)
        ensures final(self)@ == old(self)@.insert(*k, v) { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, k: &Rc<Name>) -> (r: Option<LabelType>)
        ensures final(self)@ == old(self)@.remove(**k) { unimplemented!() }
    #[verifier::external_body]
    fn contains_key(&self, k: &Rc<Name>) -> (r: bool)
        ensures r == self@.contains_key(**k) { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, k: &Rc<Name>) -> (r: Option<&LabelType>)
        ensures r is Some == self@.contains_key(**k), r matches Some(v) ==> *v == self@[**k] { unimplemented!() }
}

// ---------------------------------------------------------------- words and strings
// (the real methods are proved in unit joker)
uninterp spec fn name_str(n: Name) -> Seq<char>;
uninterp spec fn res_str(r: Reserved) -> Seq<char>;
uninterp spec fn str_name(s: Seq<char>) -> Name;
impl Name {
    #[verifier::external_body]
    fn into_string(self) -> (r: String) ensures r@ == name_str(self) { unimplemented!() }
    #[verifier::external_body]
    fn from(s: String) -> (r: Name) ensures r == str_name(s@) { unimplemented!() }
    fn atom(&self) -> (r: Option<Atom>)
        ensures r == (match *self { Name::Atom(a) => Some(a), _ => None })
    { match *self { Name::Atom(a) => Some(a), _ => None } }
}
impl Reserved {
    #[verifier::external_body]
    fn into_string(self) -> (r: String) ensures r@ == res_str(self) { unimplemented!() }
}
trait VpToString {
    spec fn vp_text(&self) -> Seq<char>;
    fn vp_to_string(&self) -> (r: String) ensures r@ == self.vp_text();
}
impl VpToString for str {
    spec fn vp_text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vp_to_string(&self) -> (r: String) { unimplemented!() }
}

// str::chars
#[verifier::external_body]
struct VpChars<'a> { p: std::str::Chars<'a> }
impl<'a> VpChars<'a> {
    uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<char>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.subrange(1, old(self)@.len() as int) { unimplemented!() }
    #[verifier::external_body]
    fn next_back(&mut self) -> (r: Option<char>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.subrange(0, old(self)@.len() - 1) { unimplemented!() }
    #[verifier::external_body]
    fn as_str(&self) -> (r: &'a str) ensures r@ == self@ { unimplemented!() }
}
impl<'a> CharSource for VpChars<'a> { spec fn text(&self) -> Seq<char> { self@ } }
trait VpCharsOf {
    spec fn vp_seq(&self) -> Seq<char>;
    fn vp_chars(&self) -> (r: VpChars<'_>) ensures r@ == self.vp_seq();
}
impl VpCharsOf for String {
    spec fn vp_seq(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vp_chars(&self) -> (r: VpChars<'_>) { unimplemented!() }
}
impl VpCharsOf for str {
    spec fn vp_seq(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vp_chars(&self) -> (r: VpChars<'_>) { unimplemented!() }
}
#[verifier::external_body]
fn vp_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }

#[verifier::external_body]
fn vp_reverse<T>(v: &mut Vec<T>) ensures final(v)@ == old(v)@.reverse() { v.reverse() }

// vec::IntoIter
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
struct VpIter<T> { it: std::vec::IntoIter<T> }
impl<T> VpIter<T> {
    uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    fn new(v: Vec<T>) -> (r: VpIter<T>) ensures r@ == v@ { VpIter { it: v.into_iter() } }
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.subrange(1, old(self)@.len() as int) { self.it.next() }
}
