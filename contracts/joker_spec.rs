// ---------------------------------------------------------------- characters
// ECMAScript 2015, 11.2, 11.3, 11.6, written from the standard.
spec fn nl(c: char) -> bool { c == '\u{A}' || c == '\u{D}' || c == '\u{2028}' || c == '\u{2029}' }
spec fn ws(c: char) -> bool {
    c == '\u{9}' || c == '\u{B}' || c == '\u{C}' || c == '\u{20}' || c == '\u{A0}' || c == '\u{FEFF}'
    || c == '\u{1680}' || ('\u{2000}' <= c && c <= '\u{200A}') || c == '\u{202F}' || c == '\u{205F}' || c == '\u{3000}'
}
spec fn id_start(c: char) -> bool { c == '$' || c == '_' || uni_id_start(c) }
spec fn id_cont(c: char) -> bool { c == '$' || c == '_' || c == '\u{200C}' || c == '\u{200D}' || uni_id_continue(c) }
spec fn decd(c: char) -> bool { '0' <= c && c <= '9' }
spec fn octd(c: char) -> bool { '0' <= c && c <= '7' }
spec fn bind(c: char) -> bool { c == '0' || c == '1' }
spec fn hexd(c: char) -> bool { ('0' <= c && c <= '9') || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F') }
spec fn single_escape(c: char) -> char {
    if c == 'n' { '\u{A}' } else if c == 'r' { '\u{D}' } else if c == 't' { '\u{9}' }
    else if c == 'b' { '\u{8}' } else if c == 'v' { '\u{B}' } else if c == 'f' { '\u{C}' } else { c }
}

// ---------------------------------------------------------------- positions
// One step over s[0]: a line ends after LF, LS, PS, or a CR that no LF follows.
spec fn ends_line(s: Seq<char>) -> bool {
    nl(s[0]) && !(s[0] == '\u{D}' && s.len() > 1 && s[1] == '\u{A}')
}
spec fn step(p: Posn, s: Seq<char>) -> Posn {
    if ends_line(s) { Posn { offset: (p.offset + 1) as u32, line: (p.line + 1) as u32, column: 0 } }
    else { Posn { offset: (p.offset + 1) as u32, line: p.line, column: (p.column + 1) as u32 } }
}
spec fn posn_after(p: Posn, s: Seq<char>, n: int) -> Posn
    decreases n
{
    if n <= 0 { p } else { posn_after(step(p, s), s.skip(1), n - 1) }
}
spec fn posn_ok(p: Posn, s: Seq<char>) -> bool {
    p.line <= p.offset && p.column <= p.offset && p.offset + s.len() < u32::MAX
}
proof fn lemma_posn_ok(p: Posn, s: Seq<char>, n: int)
    requires posn_ok(p, s), 0 <= n <= s.len(),
    ensures posn_ok(posn_after(p, s, n), s.skip(n)),
            posn_after(p, s, n).offset == p.offset + n,
            posn_after(p, s, n).line >= p.line,
    decreases n
{
    if n > 0 {
        lemma_posn_ok(step(p, s), s.skip(1), n - 1);
        assert(s.skip(1).skip(n - 1) =~= s.skip(n));
    } else { assert(s.skip(0) =~= s); }
}
proof fn lemma_posn_trans(p: Posn, s: Seq<char>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= s.len(),
    ensures posn_after(p, s, a + b) == posn_after(posn_after(p, s, a), s.skip(a), b),
    decreases a
{
    if a > 0 {
        lemma_posn_trans(step(p, s), s.skip(1), a - 1, b);
        assert(s.skip(1).skip(a - 1) =~= s.skip(a));
    } else { assert(s.skip(0) =~= s); }
}

impl<I: CharSource> Reader<I> {
    spec fn rest(&self) -> Seq<char> { self.ahead@ + self.chars.rest() }
    spec fn p(&self) -> Posn { self.curr_posn }
    spec fn wf(&self) -> bool { self.ahead.cap() >= 4 && posn_ok(self.p(), self.rest()) }
}

// b is a after consuming some prefix of its input, and nothing else changed
spec fn eaten<I: CharSource>(a: Reader<I>, b: Reader<I>) -> int { a.rest().len() - b.rest().len() }
spec fn adv<I: CharSource>(a: Reader<I>, b: Reader<I>) -> bool {
    &&& eaten(a, b) >= 0
    &&& b.rest() == a.rest().skip(eaten(a, b))
    &&& b.p() == posn_after(a.p(), a.rest(), eaten(a, b))
    &&& b.wf()
}
broadcast proof fn lemma_adv_trans<I: CharSource>(a: Reader<I>, b: Reader<I>, c: Reader<I>)
    requires base(a), adv(a, b), adv(b, c),
    ensures #![trigger base(a), adv(a, b), adv(b, c)] adv(a, c),
{
    lemma_posn_trans(a.p(), a.rest(), eaten(a, b), eaten(b, c));
    assert(a.rest().skip(eaten(a, b)).skip(eaten(b, c)) =~= a.rest().skip(eaten(a, c)));
}
// marks the state other states are compared with
spec fn base<I: CharSource>(a: Reader<I>) -> bool { true }
broadcast proof fn lemma_adv_refl<I: CharSource>(a: Reader<I>)
    requires a.wf(),
    ensures #[trigger] adv(a, a),
{ assert(a.rest().skip(0) =~= a.rest()); }
broadcast proof fn lemma_adv_same<I: CharSource>(a: Reader<I>, b: Reader<I>)
    requires b.rest() =~= a.rest(), b.p() == a.p(), b.wf(),
    ensures #[trigger] adv(a, b),
{
    assert(a.rest().skip(0) =~= a.rest());
}
broadcast proof fn lemma_adv_step<I: CharSource>(a: Reader<I>, b: Reader<I>)
    requires a.rest().len() > 0, b.rest() =~= a.rest().skip(1), b.p() == step(a.p(), a.rest()), b.wf(),
    ensures #[trigger] adv(a, b),
{
    assert(posn_after(step(a.p(), a.rest()), a.rest().skip(1), 0) == step(a.p(), a.rest()));
}
