// ================================================================ lexical grammar
// What a token is, as mathematical functions over the remaining input, written
// from ECMAScript 2015 clause 11 and annex B (HTML-like comments, legacy octal).

enum Out<T> { Ok(T, Seq<char>), Er(Error) }     // value and rest, or an early error

// The payload of IllegalUnicode is diagnostic only.
spec fn err_ok(e: Error, w: Error) -> bool {
    e == w || (e is IllegalUnicode && w is IllegalUnicode)
}

spec fn at(s: Seq<char>, i: int, c: char) -> bool { i < s.len() && s[i] == c }

// length of the longest prefix whose characters satisfy f
spec fn run(f: spec_fn(char) -> bool, s: Seq<char>) -> int
    decreases s.len()
{
    if s.len() == 0 || !f(s[0]) { 0 } else { 1 + run(f, s.skip(1)) }
}
spec fn f_ws() -> spec_fn(char) -> bool { |c: char| ws(c) }
spec fn f_dec() -> spec_fn(char) -> bool { |c: char| decd(c) }
spec fn f_oct() -> spec_fn(char) -> bool { |c: char| octd(c) }
spec fn f_bin() -> spec_fn(char) -> bool { |c: char| bind(c) }
spec fn f_hex() -> spec_fn(char) -> bool { |c: char| hexd(c) }
spec fn f_line() -> spec_fn(char) -> bool { |c: char| !nl(c) }

proof fn lemma_run_bounds(f: spec_fn(char) -> bool, s: Seq<char>)
    ensures 0 <= run(f, s) <= s.len(),
            forall|i: int| 0 <= i < run(f, s) ==> f(#[trigger] s[i]),
            run(f, s) < s.len() ==> !f(s[run(f, s)]),
    decreases s.len()
{
    if s.len() > 0 && f(s[0]) {
        lemma_run_bounds(f, s.skip(1));
        assert forall|i: int| 0 <= i < run(f, s) implies f(#[trigger] s[i]) by {
            if i > 0 { assert(s[i] == s.skip(1)[i - 1]); }
        }
    }
}
broadcast proof fn lemma_run_is(f: spec_fn(char) -> bool, s: Seq<char>, n: int)
    requires 0 <= n <= s.len(),
             forall|i: int| 0 <= i < n ==> f(#[trigger] s[i]),
             n < s.len() ==> !f(s[n]),
    ensures #![trigger run(f, s), s.skip(n)] run(f, s) == n,
    decreases s.len()
{
    if n > 0 {
        assert forall|i: int| 0 <= i < n - 1 implies f(#[trigger] s.skip(1)[i]) by { assert(s[i + 1] == s.skip(1)[i]); }
        lemma_run_is(f, s.skip(1), n - 1);
    }
}

broadcast proof fn lemma_skip_skip(s: Seq<char>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= s.len(),
    ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b),
{ assert(s.skip(a).skip(b) =~= s.skip(a + b)); }

// ---------------------------------------------------------------- trivia
// block comment after its opening: rest after `*/`, and whether a line ended inside
spec fn block(s: Seq<char>, f: bool) -> Option<(Seq<char>, bool)>
    decreases s.len()
{
    if s.len() < 2 { None }
    else if s[0] == '*' && s[1] == '/' { Some((s.skip(2), f)) }
    else { block(s.skip(1), f || nl(s[0])) }
}
proof fn lemma_block_shorter(s: Seq<char>, f: bool)
    ensures block(s, f) matches Some((r, g)) ==> r.len() < s.len(),
    decreases s.len()
{
    if s.len() >= 2 && !(s[0] == '*' && s[1] == '/') { lemma_block_shorter(s.skip(1), f || nl(s[0])); }
}

enum Trivia { Open, Done { rest: Seq<char>, newline: bool, line_start: bool } }

// white space, line terminators and comments before a token.
// line_start: only trivia since the last line terminator (or the start of input);
// newline: a line terminator has been passed.
spec fn trivia(s: Seq<char>, line_start: bool, newline: bool) -> Trivia
    decreases s.len()
    via trivia_dec
{
    if s.len() == 0 { Trivia::Done { rest: s, newline, line_start } }
    else if ws(s[0]) { trivia(s.skip(1), line_start, newline) }
    else if nl(s[0]) { trivia(s.skip(1), true, true) }
    else if at(s, 0, '/') && at(s, 1, '/') { trivia(after_line(s.skip(2)), line_start, newline) }
    else if at(s, 0, '/') && at(s, 1, '*') {
        match block(s.skip(2), false) {
            None => Trivia::Open,
            Some((r, f)) => trivia(r, line_start || f, newline || f),
        }
    }
    else if at(s, 0, '<') && at(s, 1, '!') && at(s, 2, '-') && at(s, 3, '-') { trivia(after_line(s.skip(4)), line_start, newline) }
    else if line_start && at(s, 0, '-') && at(s, 1, '-') && at(s, 2, '>') { trivia(after_line(s.skip(3)), line_start, newline) }
    else { Trivia::Done { rest: s, newline, line_start } }
}
spec fn after_line(s: Seq<char>) -> Seq<char> { s.skip(run(f_line(), s)) }

#[via_fn]
proof fn trivia_dec(s: Seq<char>, line_start: bool, newline: bool) {
    if s.len() >= 2 {
        lemma_run_bounds(f_line(), s.skip(2));
        if s.len() >= 3 { lemma_run_bounds(f_line(), s.skip(3)); }
        if s.len() >= 4 { lemma_run_bounds(f_line(), s.skip(4)); }
        lemma_block_shorter(s.skip(2), false);
    }
}
broadcast proof fn lemma_trivia_ws(s: Seq<char>, l: bool, f: bool, n: int)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> ws(#[trigger] s[i]),
    ensures #![trigger trivia(s.skip(n), l, f)] trivia(s.skip(n), l, f) == trivia(s, l, f),
    decreases n
{
    if n > 0 {
        assert forall|i: int| 0 <= i < n - 1 implies ws(#[trigger] s.skip(1)[i]) by { assert(s[i + 1] == s.skip(1)[i]); }
        lemma_trivia_ws(s.skip(1), l, f, n - 1);
        assert(s.skip(1).skip(n - 1) =~= s.skip(n));
    } else { assert(s.skip(0) =~= s); }
}
broadcast proof fn lemma_trivia_nl(s: Seq<char>, l: bool, f: bool, n: int)
    requires 1 <= n <= s.len(), forall|i: int| 0 <= i < n ==> nl(#[trigger] s[i]),
    ensures #![trigger trivia(s.skip(n), true, true), trivia(s, l, f)] trivia(s.skip(n), true, true) == trivia(s, l, f),
    decreases n
{
    if n > 1 {
        assert forall|i: int| 0 <= i < n - 1 implies nl(#[trigger] s.skip(1)[i]) by { assert(s[i + 1] == s.skip(1)[i]); }
        lemma_trivia_nl(s.skip(1), true, true, n - 1);
        assert(s.skip(1).skip(n - 1) =~= s.skip(n));
    }
}

// ---------------------------------------------------------------- escapes
spec fn hex1(s: Seq<char>) -> Out<nat> {
    if s.len() == 0 { Out::Er(Error::MissingHexDigits) }
    else if hexd(s[0]) { Out::Ok(dig_val(s[0]), s.skip(1)) }
    else { Out::Er(Error::InvalidDigit(s[0])) }
}
spec fn hexn(s: Seq<char>, n: nat, acc: nat) -> Out<nat>
    decreases n
{
    if n == 0 { Out::Ok(acc, s) }
    else { match hex1(s) { Out::Er(e) => Out::Er(e), Out::Ok(d, r) => hexn(r, (n - 1) as nat, acc * 16 + d) } }
}
// digits up to `}`
spec fn braced(s: Seq<char>, acc: nat) -> Out<nat>
    decreases s.len()
{
    if s.len() == 0 { Out::Er(Error::MissingHexDigits) }
    else if s[0] == '}' { Out::Ok(acc, s.skip(1)) }
    else if hexd(s[0]) { braced(s.skip(1), acc * 16 + dig_val(s[0])) }
    else { Out::Er(Error::InvalidDigit(s[0])) }
}
// after `\u`
spec fn uesc(s: Seq<char>) -> Out<nat> {
    if at(s, 0, '{') {
        match hex1(s.skip(1)) { Out::Er(e) => Out::Er(e), Out::Ok(d, r) => braced(r, d) }
    } else { hexn(s, 4, 0) }
}
spec fn fold_digits(ds: Seq<u32>, radix: nat) -> nat
    decreases ds.len()
{
    if ds.len() == 0 { 0 } else { fold_digits(ds.drop_last(), radix) * radix + ds.last() as nat }
}
spec fn sat(v: nat) -> u32 { if v > u32::MAX { u32::MAX } else { v as u32 } }
proof fn lemma_sat_step(a: nat, radix: nat, d: nat)
    requires radix > 0,
    ensures sat(a * radix + d) == sat(sat(a) as nat * radix + d),
            sat(sat(sat(a) as nat * radix) as nat + d) == sat(a * radix + d),
{
    assert(a > u32::MAX ==> a * radix >= a) by (nonlinear_arith) requires radix > 0;
    assert(u32::MAX as nat * radix >= u32::MAX as nat) by (nonlinear_arith) requires radix > 0;
}
broadcast proof fn lemma_fold_push(ds: Seq<u32>, d: u32, radix: nat)
    ensures #[trigger] fold_digits(ds.push(d), radix) == fold_digits(ds, radix) * radix + d,
{ assert(ds.push(d).drop_last() =~= ds); }
// place values of the four digits of \uXXXX
spec fn hex_place(i: int) -> u32 { if i == 0 { 0x1000 } else if i == 1 { 0x100 } else if i == 2 { 0x10 } else if i == 3 { 1 } else { 0 } }
spec fn hex_unit(i: int) -> nat { if i == 0 { 0x10000 } else if i == 1 { 0x1000 } else if i == 2 { 0x100 } else if i == 3 { 0x10 } else { 1 } }
// value of the digits read so far, and: the digits not read yet are still zero
spec fn hex_acc(v: u32, i: int) -> nat {
    if i == 0 { v as nat / 0x10000 } else if i == 1 { v as nat / 0x1000 } else if i == 2 { v as nat / 0x100 } else if i == 3 { v as nat / 0x10 } else { v as nat }
}
spec fn hex_ok(v: u32, i: int) -> bool {
    v <= 0xFFFF && (if i == 0 { v == 0 } else if i == 1 { v % 0x1000 == 0 } else if i == 2 { v % 0x100 == 0 } else if i == 3 { v % 0x10 == 0 } else { true })
}
proof fn lemma_hex_step(v: u32, i: int)
    requires hex_ok(v, i), 0 <= i < 4,
    ensures forall|d: u32| d < 16 ==> (#[trigger] (d * hex_place(i))) + v <= 0xFFFF && hex_ok((v + d * hex_place(i)) as u32, i + 1)
        && hex_acc((v + d * hex_place(i)) as u32, i + 1) == hex_acc(v, i) * 16 + d,
        hex_place(i) >> 4 == hex_place(i + 1), hex_place(i) <= 0x1000,
{
    lemma_places();
    assert forall|d: u32| d < 16 implies (#[trigger] (d * hex_place(i))) + v <= 0xFFFF && hex_ok((v + d * hex_place(i)) as u32, i + 1)
        && hex_acc((v + d * hex_place(i)) as u32, i + 1) == hex_acc(v, i) * 16 + d by {
        if i == 0 { assert(d * hex_place(i) == d * 0x1000); }
        else if i == 1 { assert(d * hex_place(i) == d * 0x100); }
        else if i == 2 { assert(d * hex_place(i) == d * 0x10); }
        else { assert(d * hex_place(i) == d * 1); }
    }
}
proof fn lemma_shifts()
    ensures forall|c: u32| c <= 255 ==> #[trigger] (c << 3) == c * 8, forall|c: u32| c <= 15 ==> #[trigger] (c << 4) == c * 16,
{
    assert(forall|c: u32| c <= 255 ==> #[trigger] (c << 3) == c * 8) by (bit_vector);
    assert(forall|c: u32| c <= 15 ==> #[trigger] (c << 4) == c * 16) by (bit_vector);
}
proof fn lemma_places()
    ensures 0x1000u32 >> 4 == 0x100, 0x100u32 >> 4 == 0x10, 0x10u32 >> 4 == 1, 1u32 >> 4 == 0,
{
    assert(0x1000u32 >> 4 == 0x100 && 0x100u32 >> 4 == 0x10 && 0x10u32 >> 4 == 1 && 1u32 >> 4 == 0) by (bit_vector);
}
// up to k more octal digits while the value stays below 256
spec fn octal(s: Seq<char>, acc: nat, k: nat) -> (nat, Seq<char>)
    decreases k
{
    if k == 0 || s.len() == 0 || !octd(s[0]) || acc * 8 + dig_val(s[0]) > 255 { (acc, s) }
    else { octal(s.skip(1), acc * 8 + dig_val(s[0]), (k - 1) as nat) }
}
spec fn is_char(c: char, u: nat) -> bool { c as u32 == u }
spec fn char_of(u: nat) -> char { choose|c: char| is_char(c, u) }
proof fn lemma_char_of()
    ensures forall|c: char| char_of(#[trigger] (c as u32) as nat) == c,
{
    assert forall|c: char| char_of(#[trigger] (c as u32) as nat) == c by {
        let u = (c as u32) as nat;
        assert(is_char(c, u));
        let d = char_of(u);
        assert(is_char(d, u));
        assert(d as u32 == c as u32);
        assert(c as u32 as char == c && d as u32 as char == d);
    }
}
// a code point as the text it contributes to a string value.  Surrogates have no
// char; they come out as '?' (known finding, see DESIGN.md).
spec fn cp_text(u: nat) -> Seq<char> {
    if is_scalar(u as u32) { seq![char_of(u)] } else { seq!['?'] }
}
// one escape sequence: s[0] is the backslash; value is the text it stands for
spec fn str_esc(s: Seq<char>) -> Out<Seq<char>> {
    if s.len() < 2 { Out::Ok(Seq::<char>::empty(), s.skip(1)) }
    else if octd(s[1]) { let (v, r) = octal(s.skip(1), 0, 3); Out::Ok(cp_text(v), r) }
    else if s[1] == 'x' { match hexn(s.skip(2), 2, 0) { Out::Er(e) => Out::Er(e), Out::Ok(v, r) => Out::Ok(cp_text(v), r) } }
    else if s[1] == 'u' {
        match uesc(s.skip(2)) {
            Out::Er(e) => Out::Er(e),
            Out::Ok(v, r) => if v > 0x10FFFF { Out::Er(Error::IllegalUnicode(0)) } else { Out::Ok(cp_text(v), r) },
        }
    }
    else if nl(s[1]) { Out::Ok(Seq::<char>::empty(), if s[1] == '\u{D}' && at(s, 2, '\u{A}') { s.skip(3) } else { s.skip(2) }) }
    else { Out::Ok(seq![single_escape(s[1])], s.skip(2)) }
}
spec fn is_suffix(r: Seq<char>, s: Seq<char>) -> bool { r.len() <= s.len() && r == s.skip(s.len() - r.len()) }

proof fn lemma_hexn_suffix(s: Seq<char>, n: nat, acc: nat)
    ensures hexn(s, n, acc) matches Out::Ok(v, r) ==> is_suffix(r, s),
    decreases n
{
    assert(s.skip(0) =~= s);
    if n > 0 && s.len() > 0 && hexd(s[0]) {
        lemma_hexn_suffix(s.skip(1), (n - 1) as nat, acc * 16 + dig_val(s[0]));
        if let Out::Ok(v, r) = hexn(s, n, acc) { assert(s.skip(1).skip(s.len() - 1 - r.len()) =~= s.skip(s.len() - r.len())); }
    }
}
proof fn lemma_braced_suffix(s: Seq<char>, acc: nat)
    ensures braced(s, acc) matches Out::Ok(v, r) ==> is_suffix(r, s) && r.len() < s.len(),
    decreases s.len()
{
    if s.len() > 0 && s[0] != '}' && hexd(s[0]) {
        lemma_braced_suffix(s.skip(1), acc * 16 + dig_val(s[0]));
        if let Out::Ok(v, r) = braced(s, acc) { assert(s.skip(1).skip(s.len() - 1 - r.len()) =~= s.skip(s.len() - r.len())); }
    }
}
proof fn lemma_uesc_suffix(s: Seq<char>)
    ensures uesc(s) matches Out::Ok(v, r) ==> is_suffix(r, s),
{
    lemma_hexn_suffix(s, 4, 0);
    if at(s, 0, '{') && s.len() > 1 && hexd(s[1]) {
        let t = s.skip(1).skip(1);
        lemma_braced_suffix(t, dig_val(s[1]));
        if let Out::Ok(v, r) = uesc(s) { assert(t.skip(t.len() - r.len()) =~= s.skip(s.len() - r.len())); }
    }
}
proof fn lemma_octal_suffix(s: Seq<char>, acc: nat, k: nat)
    ensures is_suffix(octal(s, acc, k).1, s), octal(s, acc, k).0 <= 255 || octal(s, acc, k).0 == acc,
    decreases k
{
    assert(s.skip(0) =~= s);
    if !(k == 0 || s.len() == 0 || !octd(s[0]) || acc * 8 + dig_val(s[0]) > 255) {
        lemma_octal_suffix(s.skip(1), acc * 8 + dig_val(s[0]), (k - 1) as nat);
        let r = octal(s, acc, k).1;
        assert(s.skip(1).skip(s.len() - 1 - r.len()) =~= s.skip(s.len() - r.len()));
    }
}
proof fn lemma_str_esc_suffix(s: Seq<char>)
    requires s.len() > 0,
    ensures str_esc(s) matches Out::Ok(v, r) ==> is_suffix(r, s) && r.len() < s.len(),
{
    if s.len() >= 2 {
        lemma_octal_suffix(s.skip(1), 0, 3);
        lemma_hexn_suffix(s.skip(2), 2, 0);
        lemma_uesc_suffix(s.skip(2));
        if let Out::Ok(v, r) = str_esc(s) {
            if octd(s[1]) { assert(s.skip(1).skip(s.len() - 1 - r.len()) =~= s.skip(s.len() - r.len())); }
            else if s[1] == 'x' || s[1] == 'u' { assert(s.skip(2).skip(s.len() - 2 - r.len()) =~= s.skip(s.len() - r.len())); }
        }
    }
}

// ---------------------------------------------------------------- strings
// body of a string literal opened with q; v is the value so far
spec fn str_body(q: char, s: Seq<char>, v: Seq<char>) -> Out<Seq<char>>
    decreases s.len()
    via str_body_dec
{
    if s.len() == 0 { Out::Er(Error::UnterminatedString(None)) }
    else if s[0] == q { Out::Ok(v, s.skip(1)) }
    else if s[0] == '\\' {
        match str_esc(s) { Out::Er(e) => Out::Er(e), Out::Ok(a, r) => str_body(q, r, v + a) }
    }
    else if nl(s[0]) { Out::Er(Error::UnterminatedString(Some(s[0]))) }
    else { str_body(q, s.skip(1), v.push(s[0])) }
}
#[via_fn]
proof fn str_body_dec(q: char, s: Seq<char>, v: Seq<char>) {
    if s.len() > 0 { lemma_str_esc_suffix(s); }
}
broadcast proof fn lemma_str_plain(q: char, s: Seq<char>, v: Seq<char>, n: int)
    requires 0 <= n <= s.len(),
             forall|i: int| 0 <= i < n ==> (#[trigger] s[i]) != q && s[i] != '\\' && !nl(s[i]),
    ensures #![trigger str_body(q, s, v), s.take(n)] str_body(q, s.skip(n), v + s.take(n)) == str_body(q, s, v),
    decreases n
{
    if n > 0 {
        assert forall|i: int| 0 <= i < n - 1 implies (#[trigger] s.skip(1)[i]) != q && s.skip(1)[i] != '\\' && !nl(s.skip(1)[i]) by { assert(s[i + 1] == s.skip(1)[i]); }
        lemma_str_plain(q, s.skip(1), v.push(s[0]), n - 1);
        assert(s.skip(1).skip(n - 1) =~= s.skip(n));
        assert(v.push(s[0]) + s.skip(1).take(n - 1) =~= v + s.take(n));
    } else { assert(s.skip(0) =~= s); assert(v + s.take(0) =~= v); }
}

// ---------------------------------------------------------------- regular expressions
// body after the opening slash; p is the pattern so far
spec fn re_body(s: Seq<char>, p: Seq<char>) -> Out<Seq<char>>
    decreases s.len()
    via re_body_dec
{
    if s.len() == 0 { Out::Er(Error::UnterminatedRegExp(None)) }
    else if s[0] == '/' { Out::Ok(p, s.skip(1)) }
    else if s[0] == '\\' { match re_back(s, p) { Out::Er(e) => Out::Er(e), Out::Ok(p2, r) => re_body(r, p2) } }
    else if s[0] == '[' { match re_class(s.skip(1), p.push('[')) { Out::Er(e) => Out::Er(e), Out::Ok(p2, r) => re_body(r, p2) } }
    else if nl(s[0]) { Out::Er(Error::UnterminatedRegExp(Some(s[0]))) }
    else { re_body(s.skip(1), p.push(s[0])) }
}
#[via_fn]
proof fn re_body_dec(s: Seq<char>, p: Seq<char>) {
    if s.len() > 0 { lemma_re_class_shorter(s.skip(1), p.push('[')); }
}
spec fn re_step(s: Seq<char>, p: Seq<char>) -> Out<Seq<char>> {
    if s.len() == 0 { Out::Er(Error::UnterminatedRegExp(None)) }
    else if s[0] == '\\' { re_back(s, p) }
    else if s[0] == '[' { re_class(s.skip(1), p.push('[')) }
    else if nl(s[0]) { Out::Er(Error::UnterminatedRegExp(Some(s[0]))) }
    else { Out::Ok(p.push(s[0]), s.skip(1)) }
}
spec fn re_class_step(s: Seq<char>, p: Seq<char>) -> Out<Seq<char>> {
    if s.len() == 0 { Out::Er(Error::UnterminatedRegExp(None)) }
    else if s[0] == '\\' { re_back(s, p) }
    else if nl(s[0]) { Out::Er(Error::UnterminatedRegExp(Some(s[0]))) }
    else { Out::Ok(p.push(s[0]), s.skip(1)) }
}
spec fn re_back(s: Seq<char>, p: Seq<char>) -> Out<Seq<char>> {
    if s.len() < 2 { Out::Er(Error::UnterminatedRegExp(None)) }
    else if nl(s[1]) { Out::Er(Error::UnterminatedRegExp(Some(s[1]))) }
    else { Out::Ok(p.push('\\').push(s[1]), s.skip(2)) }
}
spec fn re_class(s: Seq<char>, p: Seq<char>) -> Out<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { Out::Er(Error::UnterminatedRegExp(None)) }
    else if s[0] == ']' { Out::Ok(p.push(']'), s.skip(1)) }
    else if s[0] == '\\' { match re_back(s, p) { Out::Er(e) => Out::Er(e), Out::Ok(p2, r) => re_class(s.skip(2), p2) } }
    else if nl(s[0]) { Out::Er(Error::UnterminatedRegExp(Some(s[0]))) }
    else { re_class(s.skip(1), p.push(s[0])) }
}
proof fn lemma_re_class_shorter(s: Seq<char>, p: Seq<char>)
    ensures re_class(s, p) matches Out::Ok(v, r) ==> r.len() < s.len(),
    decreases s.len()
{
    if s.len() > 0 && s[0] != ']' {
        if s[0] == '\\' {
            if s.len() >= 2 { lemma_re_class_shorter(s.skip(2), p.push('\\').push(s[1])); }
        } else { lemma_re_class_shorter(s.skip(1), p.push(s[0])); }
    }
}

// ---------------------------------------------------------------- words
// identifier parts; t is the text so far, e whether an escape has been seen
spec fn word(s: Seq<char>, t: Seq<char>, e: bool) -> Out<(Seq<char>, bool)>
    decreases s.len()
    via word_dec
{
    if s.len() > 0 && s[0] == '\\' {
        match word_esc(s.skip(1), t) {
            Out::Er(x) => Out::Er(x),
            Out::Ok(c, r) => word(r, t.push(c), true),
        }
    }
    else if s.len() > 0 && id_cont(s[0]) { word(s.skip(1), t.push(s[0]), e) }
    else { Out::Ok((t, e), s) }
}
// after the backslash; t is the text before it
spec fn word_esc(s: Seq<char>, t: Seq<char>) -> Out<char> {
    if s.len() == 0 { Out::Er(Error::IncompleteWordEscape(None)) }
    else if s[0] != 'u' { Out::Er(Error::IncompleteWordEscape(Some(s[0]))) }
    else {
        match uesc(s.skip(1)) {
            Out::Er(x) => Out::Er(x),
            Out::Ok(v, r) =>
                if v <= 0x10FFFF && is_scalar(v as u32)
                    && (id_start(char_of(v)) || (t.len() > 0 && id_cont(char_of(v)))) { Out::Ok(char_of(v), r) }
                else { Out::Er(Error::IllegalUnicode(0)) },
        }
    }
}
#[via_fn]
proof fn word_dec(s: Seq<char>, t: Seq<char>, e: bool) {
    if s.len() > 0 { lemma_word_esc_suffix(s.skip(1), t); }
}
proof fn lemma_word_esc_suffix(s: Seq<char>, t: Seq<char>)
    ensures word_esc(s, t) matches Out::Ok(c, r) ==> is_suffix(r, s) && r.len() < s.len(),
{
    if s.len() > 0 {
        lemma_uesc_suffix(s.skip(1));
        if let Out::Ok(c, r) = word_esc(s, t) { assert(s.skip(1).skip(s.len() - 1 - r.len()) =~= s.skip(s.len() - r.len())); }
    }
}

// ---------------------------------------------------------------- numbers
struct SExp { e: CharCase, sign: Option<Sign>, value: Seq<char> }
enum SNum {
    Dec(Seq<char>, Option<SExp>),
    Radix(Radix, Seq<char>),
    Float(Option<Seq<char>>, Option<Seq<char>>, Option<SExp>),
}
spec fn digits(f: spec_fn(char) -> bool, s: Seq<char>) -> (Seq<char>, Seq<char>) {
    (s.take(run(f, s)), s.skip(run(f, s)))
}
broadcast proof fn lemma_no_digits(f: spec_fn(char) -> bool, s: Seq<char>)
    requires s.len() == 0 || !f(s[0]),
    ensures #[trigger] digits(f, s) == (Seq::<char>::empty(), s),
{ assert(s.take(0) =~= Seq::<char>::empty()); assert(s.skip(0) =~= s); }
broadcast proof fn lemma_oct_digits(m: Seq<char>)
    requires all_in(f_dec(), m),
    ensures #![trigger all_in(f_dec(), m)] all_ascii(m),
            m.len() > 1 && m[0] == '0' && (forall|i: int| 1 <= i < m.len() ==> octd(#[trigger] m[i])) ==> legacy_octal(m) && forall|i: int| 0 <= i < m.len() ==> dig_val(#[trigger] m[i]) < 8,
{
    assert forall|i: int| 0 <= i < m.len() implies (#[trigger] m[i] as u32) < 128 by { assert(f_dec()(m[i])); }
}
spec fn exponent(s: Seq<char>) -> Out<Option<SExp>> {
    if at(s, 0, 'e') || at(s, 0, 'E') {
        let e = if s[0] == 'e' { CharCase::LowerCase } else { CharCase::UpperCase };
        let (sign, t) = if at(s, 1, '+') { (Some(Sign::Plus), s.skip(2)) }
            else if at(s, 1, '-') { (Some(Sign::Minus), s.skip(2)) }
            else { (None::<Sign>, s.skip(1)) };
        if t.len() == 0 { Out::Er(Error::MissingExponent(None)) }
        else if !decd(t[0]) { Out::Er(Error::MissingExponent(Some(t[0]))) }
        else { let (v, r) = digits(f_dec(), t); Out::Ok(Some(SExp { e, sign, value: v }), r) }
    } else { Out::Ok(None, s) }
}
spec fn cc(c: char) -> CharCase { if 'a' <= c && c <= 'z' { CharCase::LowerCase } else { CharCase::UpperCase } }
// after `0x`, `0o` or `0b`
spec fn radix_num(r: Radix, f: spec_fn(char) -> bool, s: Seq<char>, missing: Error) -> Out<SNum> {
    if s.len() == 0 { Out::Er(missing) }
    else if !f(s[0]) { Out::Er(Error::InvalidDigit(s[0])) }
    else { let (v, rest) = digits(f, s); Out::Ok(SNum::Radix(r, v), rest) }
}
spec fn legacy_octal(m: Seq<char>) -> bool {
    m.len() > 1 && m[0] == '0' && forall|i: int| 1 <= i < m.len() ==> octd(#[trigger] m[i])
}
spec fn number_text(s: Seq<char>) -> Out<SNum> {
    if at(s, 0, '0') && (at(s, 1, 'x') || at(s, 1, 'X')) { radix_num(Radix::Hex(cc(s[1])), f_hex(), s.skip(2), Error::MissingHexDigits) }
    else if at(s, 0, '0') && (at(s, 1, 'o') || at(s, 1, 'O')) { radix_num(Radix::Oct(Some(cc(s[1]))), f_oct(), s.skip(2), Error::MissingOctalDigits) }
    else if at(s, 0, '0') && (at(s, 1, 'b') || at(s, 1, 'B')) { radix_num(Radix::Bin(cc(s[1])), f_bin(), s.skip(2), Error::MissingBinaryDigits) }
    else if at(s, 0, '.') {
        let (fr, r) = digits(f_dec(), s.skip(1));
        match exponent(r) { Out::Er(e) => Out::Er(e), Out::Ok(x, r2) => Out::Ok(SNum::Float(None, Some(fr), x), r2) }
    }
    else {
        let (m, r) = digits(f_dec(), s);
        if legacy_octal(m) { Out::Ok(SNum::Radix(Radix::Oct(None), m), r) }
        else if at(r, 0, '.') {
            let (fr, r1) = digits(f_dec(), r.skip(1));
            match exponent(r1) { Out::Er(e) => Out::Er(e), Out::Ok(x, r2) => Out::Ok(SNum::Float(Some(m), Some(fr), x), r2) }
        } else {
            match exponent(r) { Out::Er(e) => Out::Er(e), Out::Ok(x, r2) => Out::Ok(SNum::Dec(m, x), r2) }
        }
    }
}
// a numeric literal must not run into an identifier or a digit
spec fn number(s: Seq<char>) -> Out<SNum> {
    match number_text(s) {
        Out::Er(e) => Out::Er(e),
        Out::Ok(n, r) =>
            if r.len() > 0 && (id_start(r[0]) || r[0] == '\\') { Out::Er(Error::IdAfterNumber(r[0])) }
            else if r.len() > 0 && decd(r[0]) { Out::Er(Error::DigitAfterNumber(r[0])) }
            else { Out::Ok(n, r) },
    }
}


// what a numeric literal denotes
spec fn radix_of(r: Radix) -> nat { match r { Radix::Bin(_) => 2, Radix::Oct(_) => 8, Radix::Hex(_) => 16 } }
spec fn sign_text(s: Option<Sign>) -> Seq<char> { if s == Some(Sign::Minus) { "-"@ } else { ""@ } }
spec fn opt_text(s: Option<Seq<char>>) -> Seq<char> { match s { Some(t) => t, None => Seq::empty() } }
spec fn all_in(f: spec_fn(char) -> bool, s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) }
spec fn exp_wf(x: Option<SExp>) -> bool { x matches Some(x) ==> x.value.len() > 0 && all_in(f_dec(), x.value) }
spec fn num_wf(n: SNum) -> bool {
    match n {
        SNum::Dec(m, x) => m.len() > 0 && all_in(f_dec(), m) && exp_wf(x),
        SNum::Radix(r, m) => m.len() > 0 && forall|i: int| 0 <= i < m.len() ==> dig_val(#[trigger] m[i]) < radix_of(r),
        SNum::Float(a, b, x) => opt_text(a).len() + opt_text(b).len() > 0 && all_in(f_dec(), opt_text(a)) && all_in(f_dec(), opt_text(b)) && exp_wf(x),
    }
}
broadcast proof fn lemma_num_wf(n: SNum)
    ensures #[trigger] num_wf(n) == match n {
        SNum::Dec(m, x) => m.len() > 0 && all_in(f_dec(), m) && exp_wf(x),
        SNum::Radix(r, m) => m.len() > 0 && forall|i: int| 0 <= i < m.len() ==> dig_val(#[trigger] m[i]) < radix_of(r),
        SNum::Float(a, b, x) => opt_text(a).len() + opt_text(b).len() > 0 && all_in(f_dec(), opt_text(a)) && all_in(f_dec(), opt_text(b)) && exp_wf(x),
    },
{ }
spec fn num_digits(n: SNum) -> Seq<char> { match n { SNum::Radix(_, m) => m, _ => Seq::empty() } }
spec fn num_radix(n: SNum) -> nat { match n { SNum::Radix(r, _) => radix_of(r), _ => 0 } }
// the literal as decimal text
spec fn num_text(n: SNum) -> Seq<char> {
    match n {
        SNum::Dec(m, None) => m,
        SNum::Dec(m, Some(x)) => m + "e"@ + sign_text(x.sign) + x.value,
        SNum::Radix(_, _) => Seq::empty(),
        SNum::Float(a, b, None) => opt_text(a) + "."@ + opt_text(b),
        SNum::Float(a, b, Some(x)) => opt_text(a) + "."@ + opt_text(b) + "e"@ + sign_text(x.sign) + x.value,
    }
}
spec fn float_shape(s: Seq<char>, n: SNum) -> bool { num_wf(n) && !(n is Radix) && s == num_text(n) }
pub closed spec fn f64_ok(s: Seq<char>) -> bool { exists|n: SNum| float_shape(s, n) }
spec fn radix_f64(m: Seq<char>, radix: nat) -> f64
    decreases m.len()
{
    if m.len() == 0 { f64_int(0) } else { f64_fma(radix_f64(m.drop_last(), radix), f64_int(radix), f64_int(dig_val(m.last()))) }
}
spec fn num_value(n: SNum) -> f64 {
    match n { SNum::Radix(r, m) => radix_f64(m, radix_of(r)), _ => f64_text(num_text(n)) }
}
// the mathematical value of the digits
spec fn radix_nat(m: Seq<char>, radix: nat) -> nat
    decreases m.len()
{
    if m.len() == 0 { 0 } else { radix_nat(m.drop_last(), radix) * radix + dig_val(m.last()) }
}
proof fn lemma_radix_exact(m: Seq<char>, radix: nat)
    requires radix >= 1, radix_nat(m, radix) <= 0x20_0000_0000_0000,
    ensures radix_f64(m, radix) == f64_int(radix_nat(m, radix)),
    decreases m.len()
{
    if m.len() > 0 {
        let v = radix_nat(m.drop_last(), radix);
        assert(v <= v * radix) by (nonlinear_arith) requires radix >= 1;
        lemma_radix_exact(m.drop_last(), radix);
        axiom_fma(v, radix, dig_val(m.last()));
    }
}
broadcast proof fn lemma_empty_cat(a: Seq<char>)
    ensures #[trigger] (Seq::<char>::empty() + a) == a,
{ assert(Seq::<char>::empty() + a =~= a); }
broadcast proof fn lemma_cat_empty(a: Seq<char>)
    ensures #[trigger] (a + Seq::<char>::empty()) == a,
{ assert(a + Seq::<char>::empty() =~= a); }

// ---------------------------------------------------------------- punctuators
spec fn p1(t: TokenData) -> Option<(TokenData, int)> { Some((t, 1)) }
spec fn punct(s: Seq<char>) -> Option<(TokenData, int)> {
    if s.len() == 0 { None }
    else if s[0] == '{' { p1(TokenData::LBrace) } else if s[0] == '}' { p1(TokenData::RBrace) }
    else if s[0] == '(' { p1(TokenData::LParen) } else if s[0] == ')' { p1(TokenData::RParen) }
    else if s[0] == '[' { p1(TokenData::LBrack) } else if s[0] == ']' { p1(TokenData::RBrack) }
    else if s[0] == ';' { p1(TokenData::Semi) } else if s[0] == ',' { p1(TokenData::Comma) }
    else if s[0] == '~' { p1(TokenData::Tilde) } else if s[0] == '?' { p1(TokenData::Question) }
    else if s[0] == ':' { p1(TokenData::Colon) }
    else if s[0] == '.' { if at(s, 1, '.') && at(s, 2, '.') { Some((TokenData::Ellipsis, 3)) } else { p1(TokenData::Dot) } }
    else if s[0] == '<' {
        if at(s, 1, '<') { if at(s, 2, '=') { Some((TokenData::LShiftAssign, 3)) } else { Some((TokenData::LShift, 2)) } }
        else if at(s, 1, '=') { Some((TokenData::LEq, 2)) } else { p1(TokenData::LAngle) }
    }
    else if s[0] == '>' {
        if at(s, 1, '>') {
            if at(s, 2, '>') { if at(s, 3, '=') { Some((TokenData::URShiftAssign, 4)) } else { Some((TokenData::URShift, 3)) } }
            else if at(s, 2, '=') { Some((TokenData::RShiftAssign, 3)) } else { Some((TokenData::RShift, 2)) }
        }
        else if at(s, 1, '=') { Some((TokenData::GEq, 2)) } else { p1(TokenData::RAngle) }
    }
    else if s[0] == '=' {
        if at(s, 1, '=') { if at(s, 2, '=') { Some((TokenData::StrictEq, 3)) } else { Some((TokenData::Eq, 2)) } }
        else if at(s, 1, '>') { Some((TokenData::Arrow, 2)) } else { p1(TokenData::Assign) }
    }
    else if s[0] == '!' {
        if at(s, 1, '=') { if at(s, 2, '=') { Some((TokenData::StrictNEq, 3)) } else { Some((TokenData::NEq, 2)) } }
        else { p1(TokenData::Bang) }
    }
    else if s[0] == '+' {
        if at(s, 1, '+') { Some((TokenData::Inc, 2)) } else if at(s, 1, '=') { Some((TokenData::PlusAssign, 2)) } else { p1(TokenData::Plus) }
    }
    else if s[0] == '-' {
        if at(s, 1, '-') { Some((TokenData::Dec, 2)) } else if at(s, 1, '=') { Some((TokenData::MinusAssign, 2)) } else { p1(TokenData::Minus) }
    }
    else if s[0] == '*' { if at(s, 1, '=') { Some((TokenData::StarAssign, 2)) } else { p1(TokenData::Star) } }
    else if s[0] == '%' { if at(s, 1, '=') { Some((TokenData::ModAssign, 2)) } else { p1(TokenData::Mod) } }
    else if s[0] == '/' { if at(s, 1, '=') { Some((TokenData::SlashAssign, 2)) } else { p1(TokenData::Slash) } }
    else if s[0] == '^' { if at(s, 1, '=') { Some((TokenData::BitXorAssign, 2)) } else { p1(TokenData::BitXor) } }
    else if s[0] == '&' {
        if at(s, 1, '&') { Some((TokenData::LogicalAnd, 2)) } else if at(s, 1, '=') { Some((TokenData::BitAndAssign, 2)) } else { p1(TokenData::BitAnd) }
    }
    else if s[0] == '|' {
        if at(s, 1, '|') { Some((TokenData::LogicalOr, 2)) } else if at(s, 1, '=') { Some((TokenData::BitOrAssign, 2)) } else { p1(TokenData::BitOr) }
    }
    else { None }
}

// ---------------------------------------------------------------- tokens
enum STok {
    Eof,
    Punc(TokenData),
    Num(SNum),
    Str(Seq<char>, Seq<char>),
    Re(Seq<char>, Seq<char>),
    Res(Reserved),
    Id(Seq<char>, Option<Atom>),
}
enum Class { Eof, Re, Num, Str, Word, Punc, Bad }
spec fn class(s: Seq<char>, operator: bool) -> Class {
    if s.len() == 0 { Class::Eof }
    else if s[0] == '/' && !operator { Class::Re }
    else if decd(s[0]) || (s[0] == '.' && s.len() > 1 && decd(s[1])) { Class::Num }
    else if s[0] == '"' || s[0] == '\'' { Class::Str }
    else if id_start(s[0]) || s[0] == '\\' { Class::Word }
    else if punct(s) is Some { Class::Punc }
    else { Class::Bad }
}
spec fn took(a: Seq<char>, b: Seq<char>) -> Seq<char> { a.take(a.len() - b.len()) }
spec fn str_tok(s: Seq<char>) -> Out<STok> {
    match str_body(s[0], s.skip(1), Seq::empty()) { Out::Er(e) => Out::Er(e), Out::Ok(v, r) => Out::Ok(STok::Str(took(s, r), v), r) }
}
spec fn re_tok(s: Seq<char>) -> Out<STok> {
    match re_body(s.skip(1), Seq::empty()) {
        Out::Er(e) => Out::Er(e),
        Out::Ok(p, r) => match word(r, Seq::empty(), false) { Out::Er(e) => Out::Er(e), Out::Ok(f, r2) => Out::Ok(STok::Re(p, f.0), r2) },
    }
}
spec fn num_tok(s: Seq<char>) -> Out<STok> {
    match number(s) { Out::Er(e) => Out::Er(e), Out::Ok(n, r) => Out::Ok(STok::Num(n), r) }
}
spec fn classify(t: Seq<char>, escaped: bool) -> Out<STok> {
    match keyword(t) {
        Some(w) => if escaped { Out::Er(Error::ReservedWordWithEscapes(w)) } else { Out::Ok(STok::Res(w), Seq::empty()) },
        None => Out::Ok(STok::Id(t, if escaped { None } else { contextual(t) }), Seq::empty()),
    }
}
spec fn word_tok(s: Seq<char>) -> Out<STok> {
    match word(s, Seq::empty(), false) {
        Out::Er(e) => Out::Er(e),
        Out::Ok(w, r) => match classify(w.0, w.1) { Out::Er(e) => Out::Er(e), Out::Ok(t, _) => Out::Ok(t, r) },
    }
}
spec fn punc_tok(s: Seq<char>) -> Out<STok> {
    match punct(s) { None => Out::Er(Error::IllegalChar(s[0])), Some((t, n)) => Out::Ok(STok::Punc(t), s.skip(n)) }
}
spec fn lexeme(s: Seq<char>, operator: bool) -> Out<STok> {
    match class(s, operator) {
        Class::Eof => Out::Ok(STok::Eof, s),
        Class::Re => re_tok(s),
        Class::Num => num_tok(s),
        Class::Str => str_tok(s),
        Class::Word => word_tok(s),
        Class::Punc => punc_tok(s),
        Class::Bad => Out::Er(Error::IllegalChar(s[0])),
    }
}

spec fn exp_view(x: Option<Exp>) -> Option<SExp> {
    match x { None => None, Some(x) => Some(SExp { e: x.e, sign: x.sign, value: x.value@ }) }
}
spec fn ostr_view(x: Option<String>) -> Option<Seq<char>> {
    match x { None => None, Some(x) => Some(x@) }
}
spec fn num_view(n: NumberSource) -> SNum {
    match n {
        NumberSource::DecimalInt(m, x) => SNum::Dec(m@, exp_view(x)),
        NumberSource::RadixInt(r, m) => SNum::Radix(r, m@),
        NumberSource::Float(a, b, x) => SNum::Float(ostr_view(a), ostr_view(b), exp_view(x)),
    }
}
spec fn td_is(td: TokenData, t: STok) -> bool {
    match t {
        STok::Eof => td == TokenData::EOF,
        STok::Punc(p) => td == p,
        STok::Num(n) => td matches TokenData::Number(l) && (l.source matches Some(src) && num_view(src) == n && l.value == num_value(n)),
        STok::Str(src, v) => td matches TokenData::String(l) && (l.source matches Some(x) && x@ == src) && l.value@ == v,
        STok::Re(p, f) => td matches TokenData::RegExp(l) && l.pattern@ == p && l.flags@ == f,
        STok::Res(w) => td == TokenData::Reserved(w),
        STok::Id(s, Some(a)) => td == TokenData::Identifier(Name::Atom(a)),
        STok::Id(s, None) => td matches TokenData::Identifier(Name::String(x)) && x@ == s,
    }
}

broadcast proof fn lemma_td_is(td: TokenData, t: STok)
    ensures #![trigger td_is(td, t)] t is Eof ==> td_is(td, t) == (td == TokenData::EOF), t is Punc ==> td_is(td, t) == (td == t->Punc_0),
{ }

// the tables of 11.6.2 and the contextual words
spec fn keyword(t: Seq<char>) -> Option<Reserved> {
    if t == "null"@ { Some(Reserved::Null) } else if t == "true"@ { Some(Reserved::True) } else if t == "false"@ { Some(Reserved::False) }
    else if t == "break"@ { Some(Reserved::Break) } else if t == "case"@ { Some(Reserved::Case) } else if t == "catch"@ { Some(Reserved::Catch) }
    else if t == "class"@ { Some(Reserved::Class) } else if t == "const"@ { Some(Reserved::Const) } else if t == "continue"@ { Some(Reserved::Continue) }
    else if t == "debugger"@ { Some(Reserved::Debugger) } else if t == "default"@ { Some(Reserved::Default) } else if t == "delete"@ { Some(Reserved::Delete) }
    else if t == "do"@ { Some(Reserved::Do) } else if t == "else"@ { Some(Reserved::Else) } else if t == "export"@ { Some(Reserved::Export) }
    else if t == "extends"@ { Some(Reserved::Extends) } else if t == "finally"@ { Some(Reserved::Finally) } else if t == "for"@ { Some(Reserved::For) }
    else if t == "function"@ { Some(Reserved::Function) } else if t == "if"@ { Some(Reserved::If) } else if t == "import"@ { Some(Reserved::Import) }
    else if t == "in"@ { Some(Reserved::In) } else if t == "instanceof"@ { Some(Reserved::Instanceof) } else if t == "new"@ { Some(Reserved::New) }
    else if t == "return"@ { Some(Reserved::Return) } else if t == "super"@ { Some(Reserved::Super) } else if t == "switch"@ { Some(Reserved::Switch) }
    else if t == "this"@ { Some(Reserved::This) } else if t == "throw"@ { Some(Reserved::Throw) } else if t == "try"@ { Some(Reserved::Try) }
    else if t == "typeof"@ { Some(Reserved::Typeof) } else if t == "var"@ { Some(Reserved::Var) } else if t == "void"@ { Some(Reserved::Void) }
    else if t == "while"@ { Some(Reserved::While) } else if t == "with"@ { Some(Reserved::With) } else if t == "enum"@ { Some(Reserved::Enum) }
    else { None }
}
spec fn contextual(t: Seq<char>) -> Option<Atom> {
    if t == "arguments"@ { Some(Atom::Arguments) } else if t == "eval"@ { Some(Atom::Eval) } else if t == "yield"@ { Some(Atom::Yield) }
    else if t == "await"@ { Some(Atom::Await) } else if t == "implements"@ { Some(Atom::Implements) } else if t == "interface"@ { Some(Atom::Interface) }
    else if t == "let"@ { Some(Atom::Let) } else if t == "package"@ { Some(Atom::Package) } else if t == "private"@ { Some(Atom::Private) }
    else if t == "protected"@ { Some(Atom::Protected) } else if t == "public"@ { Some(Atom::Public) } else if t == "static"@ { Some(Atom::Static) }
    else if t == "async"@ { Some(Atom::Async) } else if t == "from"@ { Some(Atom::From) } else if t == "of"@ { Some(Atom::Of) }
    else if t == "get"@ { Some(Atom::Get) } else if t == "set"@ { Some(Atom::Set) } else if t == "target"@ { Some(Atom::Target) }
    else { None }
}

// Every word of the two tables has its own code, so no two are equal.
spec fn wcode(t: Seq<char>) -> int {
    if t.len() < 2 { 0 } else { t.len() + 100 * (t[0] as int) + 100000 * (t[1] as int) }
}
proof fn lemma_words()
    ensures
        wcode("null"@) == 11711004,
        wcode("true"@) == 11411604,
        wcode("false"@) == 9710205,
        wcode("break"@) == 11409805,
        wcode("case"@) == 9709904,
        wcode("catch"@) == 9709905,
        wcode("class"@) == 10809905,
        wcode("const"@) == 11109905,
        wcode("continue"@) == 11109908,
        wcode("debugger"@) == 10110008,
        wcode("default"@) == 10110007,
        wcode("delete"@) == 10110006,
        wcode("do"@) == 11110002,
        wcode("else"@) == 10810104,
        wcode("export"@) == 12010106,
        wcode("extends"@) == 12010107,
        wcode("finally"@) == 10510207,
        wcode("for"@) == 11110203,
        wcode("function"@) == 11710208,
        wcode("if"@) == 10210502,
        wcode("import"@) == 10910506,
        wcode("in"@) == 11010502,
        wcode("instanceof"@) == 11010510,
        wcode("new"@) == 10111003,
        wcode("return"@) == 10111406,
        wcode("super"@) == 11711505,
        wcode("switch"@) == 11911506,
        wcode("this"@) == 10411604,
        wcode("throw"@) == 10411605,
        wcode("try"@) == 11411603,
        wcode("typeof"@) == 12111606,
        wcode("var"@) == 9711803,
        wcode("void"@) == 11111804,
        wcode("while"@) == 10411905,
        wcode("with"@) == 10511904,
        wcode("enum"@) == 11010104,
        wcode("arguments"@) == 11409709,
        wcode("eval"@) == 11810104,
        wcode("yield"@) == 10512105,
        wcode("await"@) == 11909705,
        wcode("implements"@) == 10910510,
        wcode("interface"@) == 11010509,
        wcode("let"@) == 10110803,
        wcode("package"@) == 9711207,
        wcode("private"@) == 11411207,
        wcode("protected"@) == 11411209,
        wcode("public"@) == 11711206,
        wcode("static"@) == 11611506,
        wcode("async"@) == 11509705,
        wcode("from"@) == 11410204,
        wcode("of"@) == 10211102,
        wcode("get"@) == 10110303,
        wcode("set"@) == 10111503,
        wcode("target"@) == 9711606,
{
    reveal_strlit("null"); assert("null"@.len() == 4 && "null"@[0] == 'n' && "null"@[1] == 'u');
    reveal_strlit("true"); assert("true"@.len() == 4 && "true"@[0] == 't' && "true"@[1] == 'r');
    reveal_strlit("false"); assert("false"@.len() == 5 && "false"@[0] == 'f' && "false"@[1] == 'a');
    reveal_strlit("break"); assert("break"@.len() == 5 && "break"@[0] == 'b' && "break"@[1] == 'r');
    reveal_strlit("case"); assert("case"@.len() == 4 && "case"@[0] == 'c' && "case"@[1] == 'a');
    reveal_strlit("catch"); assert("catch"@.len() == 5 && "catch"@[0] == 'c' && "catch"@[1] == 'a');
    reveal_strlit("class"); assert("class"@.len() == 5 && "class"@[0] == 'c' && "class"@[1] == 'l');
    reveal_strlit("const"); assert("const"@.len() == 5 && "const"@[0] == 'c' && "const"@[1] == 'o');
    reveal_strlit("continue"); assert("continue"@.len() == 8 && "continue"@[0] == 'c' && "continue"@[1] == 'o');
    reveal_strlit("debugger"); assert("debugger"@.len() == 8 && "debugger"@[0] == 'd' && "debugger"@[1] == 'e');
    reveal_strlit("default"); assert("default"@.len() == 7 && "default"@[0] == 'd' && "default"@[1] == 'e');
    reveal_strlit("delete"); assert("delete"@.len() == 6 && "delete"@[0] == 'd' && "delete"@[1] == 'e');
    reveal_strlit("do"); assert("do"@.len() == 2 && "do"@[0] == 'd' && "do"@[1] == 'o');
    reveal_strlit("else"); assert("else"@.len() == 4 && "else"@[0] == 'e' && "else"@[1] == 'l');
    reveal_strlit("export"); assert("export"@.len() == 6 && "export"@[0] == 'e' && "export"@[1] == 'x');
    reveal_strlit("extends"); assert("extends"@.len() == 7 && "extends"@[0] == 'e' && "extends"@[1] == 'x');
    reveal_strlit("finally"); assert("finally"@.len() == 7 && "finally"@[0] == 'f' && "finally"@[1] == 'i');
    reveal_strlit("for"); assert("for"@.len() == 3 && "for"@[0] == 'f' && "for"@[1] == 'o');
    reveal_strlit("function"); assert("function"@.len() == 8 && "function"@[0] == 'f' && "function"@[1] == 'u');
    reveal_strlit("if"); assert("if"@.len() == 2 && "if"@[0] == 'i' && "if"@[1] == 'f');
    reveal_strlit("import"); assert("import"@.len() == 6 && "import"@[0] == 'i' && "import"@[1] == 'm');
    reveal_strlit("in"); assert("in"@.len() == 2 && "in"@[0] == 'i' && "in"@[1] == 'n');
    reveal_strlit("instanceof"); assert("instanceof"@.len() == 10 && "instanceof"@[0] == 'i' && "instanceof"@[1] == 'n');
    reveal_strlit("new"); assert("new"@.len() == 3 && "new"@[0] == 'n' && "new"@[1] == 'e');
    reveal_strlit("return"); assert("return"@.len() == 6 && "return"@[0] == 'r' && "return"@[1] == 'e');
    reveal_strlit("super"); assert("super"@.len() == 5 && "super"@[0] == 's' && "super"@[1] == 'u');
    reveal_strlit("switch"); assert("switch"@.len() == 6 && "switch"@[0] == 's' && "switch"@[1] == 'w');
    reveal_strlit("this"); assert("this"@.len() == 4 && "this"@[0] == 't' && "this"@[1] == 'h');
    reveal_strlit("throw"); assert("throw"@.len() == 5 && "throw"@[0] == 't' && "throw"@[1] == 'h');
    reveal_strlit("try"); assert("try"@.len() == 3 && "try"@[0] == 't' && "try"@[1] == 'r');
    reveal_strlit("typeof"); assert("typeof"@.len() == 6 && "typeof"@[0] == 't' && "typeof"@[1] == 'y');
    reveal_strlit("var"); assert("var"@.len() == 3 && "var"@[0] == 'v' && "var"@[1] == 'a');
    reveal_strlit("void"); assert("void"@.len() == 4 && "void"@[0] == 'v' && "void"@[1] == 'o');
    reveal_strlit("while"); assert("while"@.len() == 5 && "while"@[0] == 'w' && "while"@[1] == 'h');
    reveal_strlit("with"); assert("with"@.len() == 4 && "with"@[0] == 'w' && "with"@[1] == 'i');
    reveal_strlit("enum"); assert("enum"@.len() == 4 && "enum"@[0] == 'e' && "enum"@[1] == 'n');
    reveal_strlit("arguments"); assert("arguments"@.len() == 9 && "arguments"@[0] == 'a' && "arguments"@[1] == 'r');
    reveal_strlit("eval"); assert("eval"@.len() == 4 && "eval"@[0] == 'e' && "eval"@[1] == 'v');
    reveal_strlit("yield"); assert("yield"@.len() == 5 && "yield"@[0] == 'y' && "yield"@[1] == 'i');
    reveal_strlit("await"); assert("await"@.len() == 5 && "await"@[0] == 'a' && "await"@[1] == 'w');
    reveal_strlit("implements"); assert("implements"@.len() == 10 && "implements"@[0] == 'i' && "implements"@[1] == 'm');
    reveal_strlit("interface"); assert("interface"@.len() == 9 && "interface"@[0] == 'i' && "interface"@[1] == 'n');
    reveal_strlit("let"); assert("let"@.len() == 3 && "let"@[0] == 'l' && "let"@[1] == 'e');
    reveal_strlit("package"); assert("package"@.len() == 7 && "package"@[0] == 'p' && "package"@[1] == 'a');
    reveal_strlit("private"); assert("private"@.len() == 7 && "private"@[0] == 'p' && "private"@[1] == 'r');
    reveal_strlit("protected"); assert("protected"@.len() == 9 && "protected"@[0] == 'p' && "protected"@[1] == 'r');
    reveal_strlit("public"); assert("public"@.len() == 6 && "public"@[0] == 'p' && "public"@[1] == 'u');
    reveal_strlit("static"); assert("static"@.len() == 6 && "static"@[0] == 's' && "static"@[1] == 't');
    reveal_strlit("async"); assert("async"@.len() == 5 && "async"@[0] == 'a' && "async"@[1] == 's');
    reveal_strlit("from"); assert("from"@.len() == 4 && "from"@[0] == 'f' && "from"@[1] == 'r');
    reveal_strlit("of"); assert("of"@.len() == 2 && "of"@[0] == 'o' && "of"@[1] == 'f');
    reveal_strlit("get"); assert("get"@.len() == 3 && "get"@[0] == 'g' && "get"@[1] == 'e');
    reveal_strlit("set"); assert("set"@.len() == 3 && "set"@[0] == 's' && "set"@[1] == 'e');
    reveal_strlit("target"); assert("target"@.len() == 6 && "target"@[0] == 't' && "target"@[1] == 'a');
}
spec fn res_name(w: Reserved) -> Seq<char> {
    match w {
        Reserved::Null => "null"@,
        Reserved::True => "true"@,
        Reserved::False => "false"@,
        Reserved::Break => "break"@,
        Reserved::Case => "case"@,
        Reserved::Catch => "catch"@,
        Reserved::Class => "class"@,
        Reserved::Const => "const"@,
        Reserved::Continue => "continue"@,
        Reserved::Debugger => "debugger"@,
        Reserved::Default => "default"@,
        Reserved::Delete => "delete"@,
        Reserved::Do => "do"@,
        Reserved::Else => "else"@,
        Reserved::Export => "export"@,
        Reserved::Extends => "extends"@,
        Reserved::Finally => "finally"@,
        Reserved::For => "for"@,
        Reserved::Function => "function"@,
        Reserved::If => "if"@,
        Reserved::Import => "import"@,
        Reserved::In => "in"@,
        Reserved::Instanceof => "instanceof"@,
        Reserved::New => "new"@,
        Reserved::Return => "return"@,
        Reserved::Super => "super"@,
        Reserved::Switch => "switch"@,
        Reserved::This => "this"@,
        Reserved::Throw => "throw"@,
        Reserved::Try => "try"@,
        Reserved::Typeof => "typeof"@,
        Reserved::Var => "var"@,
        Reserved::Void => "void"@,
        Reserved::While => "while"@,
        Reserved::With => "with"@,
        Reserved::Enum => "enum"@,
    }
}
spec fn atom_name(a: Atom) -> Seq<char> {
    match a {
        Atom::Arguments => "arguments"@,
        Atom::Eval => "eval"@,
        Atom::Yield => "yield"@,
        Atom::Await => "await"@,
        Atom::Implements => "implements"@,
        Atom::Interface => "interface"@,
        Atom::Let => "let"@,
        Atom::Package => "package"@,
        Atom::Private => "private"@,
        Atom::Protected => "protected"@,
        Atom::Public => "public"@,
        Atom::Static => "static"@,
        Atom::Async => "async"@,
        Atom::From => "from"@,
        Atom::Of => "of"@,
        Atom::Get => "get"@,
        Atom::Set => "set"@,
        Atom::Target => "target"@,
    }
}
spec fn name_text(n: Name) -> Seq<char> { match n { Name::Atom(a) => atom_name(a), Name::String(s) => s@ } }

// spelling and recognising are inverse
proof fn lemma_tables()
    ensures
        forall|w: Reserved| #[trigger] keyword(res_name(w)) == Some(w),
        forall|a: Atom| #[trigger] contextual(atom_name(a)) == Some(a),
        forall|a: Atom| keyword(#[trigger] atom_name(a)) is None,
        forall|t: Seq<char>| #[trigger] keyword(t) matches Some(w) ==> res_name(w) == t,
        forall|t: Seq<char>| #[trigger] contextual(t) matches Some(a) ==> atom_name(a) == t,
{
    lemma_words();
}

spec fn map_ok(m: Map) -> bool {
    &&& forall|t: Seq<char>| #[trigger] m.reserved@.contains_key(t) == (keyword(t) is Some)
    &&& forall|t: Seq<char>| keyword(t) is Some ==> #[trigger] m.reserved@[t] == keyword(t)->0
    &&& forall|t: Seq<char>| #[trigger] m.contextual@.contains_key(t) == (contextual(t) is Some)
    &&& forall|t: Seq<char>| contextual(t) is Some ==> #[trigger] m.contextual@[t] == contextual(t)->0
}
spec fn name_text_of(t: TokenData) -> Seq<char> {
    match t { TokenData::Reserved(w) => res_name(w), TokenData::Identifier(n) => name_text(n), _ => Seq::empty() }
}

// ---------------------------------------------------------------- the lexer
impl<I: CharSource> Lexer<I> {
    spec fn rest(&self) -> Seq<char> { self.reader.rest() }
    spec fn p(&self) -> Posn { self.reader.p() }
    spec fn wf(&self) -> bool { self.reader.wf() && self.lookahead.cap() >= 2 && map_ok(self.wordmap) }
}
spec fn go<I: CharSource>(a: Lexer<I>, b: Lexer<I>) -> bool {
    &&& adv(a.reader, b.reader)
    &&& b.lookahead == a.lookahead
    &&& b.wordmap == a.wordmap
    &&& b.empty_line == a.empty_line
    &&& b.wf()
}
spec fn ate<I: CharSource>(a: Lexer<I>, b: Lexer<I>) -> int { a.rest().len() - b.rest().len() }
// b starts at the first character of a's input that is not white space or comment
spec fn trivia_rest(t: Trivia) -> Seq<char> { match t { Trivia::Done { rest, .. } => rest, Trivia::Open => Seq::empty() } }
spec fn trivia_newline(t: Trivia) -> bool { match t { Trivia::Done { newline, .. } => newline, Trivia::Open => false } }

// the parts of "read_next_token did what the grammar says", one per property
spec fn nt_trivia<I: CharSource>(a: Lexer<I>) -> Trivia { trivia(a.rest(), a.empty_line, false) }
spec fn nt_start<I: CharSource>(a: Lexer<I>) -> Seq<char> { trivia_rest(nt_trivia(a)) }
spec fn nt_lexeme<I: CharSource>(a: Lexer<I>, operator: bool) -> Out<STok> { lexeme(nt_start(a), operator) }
spec fn nt_value<I: CharSource>(k: Class, a: Lexer<I>, b: Lexer<I>, r: Result<Token>, operator: bool) -> bool {
    nt_trivia(a) is Done && class(nt_start(a), operator) == k ==>
        (nt_lexeme(a, operator) matches Out::Ok(t, _) ==> r is Ok && td_is(r->Ok_0.value, t))
}
spec fn nt_rest<I: CharSource>(a: Lexer<I>, b: Lexer<I>, r: Result<Token>, operator: bool) -> bool {
    nt_trivia(a) is Done ==> (nt_lexeme(a, operator) matches Out::Ok(t, rest) ==> b.rest() == rest)
}
// the extent, and the error, where a token of class k starts
spec fn nt_rest_k<I: CharSource>(k: Class, a: Lexer<I>, b: Lexer<I>, r: Result<Token>, operator: bool) -> bool {
    class(nt_start(a), operator) == k ==> nt_rest(a, b, r, operator)
}
spec fn nt_err_k<I: CharSource>(k: Class, a: Lexer<I>, b: Lexer<I>, r: Result<Token>, operator: bool) -> bool {
    class(nt_start(a), operator) == k ==> nt_err(a, b, r, operator)
}
spec fn nt_err<I: CharSource>(a: Lexer<I>, b: Lexer<I>, r: Result<Token>, operator: bool) -> bool {
    nt_trivia(a) is Done ==> (nt_lexeme(a, operator) matches Out::Er(e) ==> r is Err && err_ok(r->Err_0, e))
}
spec fn nt_open<I: CharSource>(a: Lexer<I>, b: Lexer<I>, r: Result<Token>) -> bool {
    nt_trivia(a) is Open ==> r == Err::<Token, Error>(Error::UnterminatedComment)
}
spec fn nt_span<I: CharSource>(a: Lexer<I>, b: Lexer<I>, r: Result<Token>) -> bool {
    r is Ok ==> r->Ok_0.location.start == posn_after(a.p(), a.rest(), a.rest().len() - nt_start(a).len())
        && r->Ok_0.location.end == b.p()
}
spec fn nt_newline<I: CharSource>(a: Lexer<I>, r: Result<Token>) -> bool {
    r is Ok ==> r->Ok_0.newline == trivia_newline(nt_trivia(a))
}
spec fn next_ok<I: CharSource>(a: Lexer<I>, b: Lexer<I>, r: Result<Token>, operator: bool) -> bool {
    &&& adv(a.reader, b.reader)
    &&& b.wordmap == a.wordmap
    &&& forall|k: Class| nt_value(k, a, b, r, operator)
    &&& nt_rest(a, b, r, operator)
    &&& nt_err(a, b, r, operator)
    &&& nt_open(a, b, r)
    &&& nt_span(a, b, r)
    &&& nt_newline(a, r)
    &&& r is Ok ==> !b.empty_line
}
