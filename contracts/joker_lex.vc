# ---- lexer.rs: cursor
fn add_digits(digits, radix) -> r
  req: radix > 0
  req: forall|i: int| 0 <= i < digits@.len() ==> #[trigger] digits@[i] < radix
  ens[C06,C08]: r == sat(fold_digits(digits@, radix as nat))
  let sum = /^0$/
  loop 0 iter vp_it
    inv: radix > 0
    inv[C06,C08]: sum == sat(fold_digits(digits@.take(vp_it.index@ as int), radix as nat))
    start: assert(digits@.take(vp_it.index@ + 1).drop_last() =~= digits@.take(vp_it.index@ as int));
      lemma_sat_step(fold_digits(digits@.take(vp_it.index@ as int), radix as nat), radix as nat, digits@[vp_it.index@ as int] as nat);
  entry: assert(digits@.take(digits@.len() as int) =~= digits@);

fn SpanTracker::end(lexer, value) -> r
  ens[C02]: r.location == (Span { start: self.start, end: lexer.p() })
  ens[C04]: r.newline == false
  ens: r.value == value

fn Lexer::new(chars) -> r
  req: chars.rest().len() < u32::MAX
  ens: r.wf()
  ens[C03]: r.rest() == chars.rest()
  ens[C02]: r.p() == (Posn { offset: 0, line: 0, column: 0 })
  ens[C10]: r.lookahead@.len() == 0
  ens[C13]: r.empty_line

fn Lexer::posn() -> r
  ens[C02]: r == self.p()

fn Lexer::start() -> r
  ens[C02]: r.start == self.p()

fn Lexer::read() -> r
  req: old(self).wf() && old(self).rest().len() > 0
  ens: r == old(self).rest()[0]
  ens[C03]: final(self).rest() =~= old(self).rest().skip(1)
  ens: go(*old(self), *final(self))

fn Lexer::reread(ch) -> r
  req: old(self).wf() && old(self).rest().len() > 0 && old(self).rest()[0] == ch
  ens: r == ch
  ens[C03]: final(self).rest() =~= old(self).rest().skip(1)
  ens: go(*old(self), *final(self))

fn Lexer::peek() -> r
  req: old(self).wf()
  ens: r == (if old(self).rest().len() > 0 { Some(old(self).rest()[0]) } else { None::<char> })
  ens[C03]: final(self).rest() =~= old(self).rest()
  ens[C02]: final(self).p() == old(self).p()
  ens: go(*old(self), *final(self))

fn Lexer::peek2() -> r
  req: old(self).wf()
  ens: r.0 == (if old(self).rest().len() > 0 { Some(old(self).rest()[0]) } else { None::<char> })
  ens: r.1 == (if old(self).rest().len() > 1 { Some(old(self).rest()[1]) } else { None::<char> })
  ens[C03]: final(self).rest() =~= old(self).rest()
  ens[C02]: final(self).p() == old(self).p()
  ens: go(*old(self), *final(self))

fn Lexer::skip()
  req: old(self).wf() && old(self).rest().len() > 0
  ens[C03]: final(self).rest() =~= old(self).rest().skip(1)
  ens: go(*old(self), *final(self))

fn Lexer::skip2()
  req: old(self).wf() && old(self).rest().len() > 1
  ens[C03]: final(self).rest() =~= old(self).rest().skip(2)
  ens: go(*old(self), *final(self))

fn Lexer::matches(ch) -> r
  req: old(self).wf()
  ens: r == at(old(self).rest(), 0, ch)
  ens[C03]: final(self).rest() =~= (if r { old(self).rest().skip(1) } else { old(self).rest() })
  ens: go(*old(self), *final(self))

# ---- lexer.rs: runs of characters
fn Lexer::skip_while(pred)
  req: old(self).wf()
  req: forall|c: char| #[trigger] pred.requires((c,))
  ens: go(*old(self), *final(self))
  ens: forall|i: int| 0 <= i < ate(*old(self), *final(self)) ==> pred.ensures((#[trigger] old(self).rest()[i],), true)
  ens: final(self).rest().len() > 0 ==> pred.ensures((final(self).rest()[0],), false)

fn Lexer::skip_until(pred)
  req: old(self).wf()
  req: forall|c: char| #[trigger] pred.requires((c,))
  ens: go(*old(self), *final(self))
  ens: forall|i: int| 0 <= i < ate(*old(self), *final(self)) ==> pred.ensures((#[trigger] old(self).rest()[i],), false)
  ens: final(self).rest().len() > 0 ==> pred.ensures((final(self).rest()[0],), true)
  loop 0
    inv: go(*old(self), *self)
    inv: forall|c: char| #[trigger] pred.requires((c,))
    inv: forall|i: int| 0 <= i < ate(*old(self), *self) ==> pred.ensures((#[trigger] old(self).rest()[i],), false)
    ens: self.rest().len() > 0 ==> pred.ensures((self.rest()[0],), true)
    dec: self.rest().len()

fn Lexer::read_into_until(s, pred)
  req: old(self).wf()
  req: forall|c: char| #[trigger] pred.requires((c,))
  ens: go(*old(self), *final(self))
  ens: final(s)@ =~= old(s)@ + took(old(self).rest(), final(self).rest())
  ens: forall|i: int| 0 <= i < ate(*old(self), *final(self)) ==> pred.ensures((#[trigger] old(self).rest()[i],), false)
  ens: final(self).rest().len() > 0 ==> pred.ensures((final(self).rest()[0],), true)
  loop 0
    inv: go(*old(self), *self)
    inv: forall|c: char| #[trigger] pred.requires((c,))
    inv: s@ =~= old(s)@ + took(old(self).rest(), self.rest())
    inv: forall|i: int| 0 <= i < ate(*old(self), *self) ==> pred.ensures((#[trigger] old(self).rest()[i],), false)
    ens: self.rest().len() > 0 ==> pred.ensures((self.rest()[0],), true)
    dec: self.rest().len()

fn Lexer::read_into2_until(s1, s2, pred)
  req: old(self).wf()
  req: forall|c: char| #[trigger] pred.requires((c,))
  ens: go(*old(self), *final(self))
  ens: final(s1)@ =~= old(s1)@ + took(old(self).rest(), final(self).rest())
  ens: final(s2)@ =~= old(s2)@ + took(old(self).rest(), final(self).rest())
  ens: forall|i: int| 0 <= i < ate(*old(self), *final(self)) ==> pred.ensures((#[trigger] old(self).rest()[i],), false)
  ens: final(self).rest().len() > 0 ==> pred.ensures((final(self).rest()[0],), true)
  loop 0
    inv: go(*old(self), *self)
    inv: forall|c: char| #[trigger] pred.requires((c,))
    inv: s1@ =~= old(s1)@ + took(old(self).rest(), self.rest())
    inv: s2@ =~= old(s2)@ + took(old(self).rest(), self.rest())
    inv: forall|i: int| 0 <= i < ate(*old(self), *self) ==> pred.ensures((#[trigger] old(self).rest()[i],), false)
    ens: self.rest().len() > 0 ==> pred.ensures((self.rest()[0],), true)
    dec: self.rest().len()

# ---- lexer.rs: white space and comments
fn Lexer::skip_newlines()
  req: old(self).wf() && old(self).rest().len() > 0 && nl(old(self).rest()[0])
  ens: go(*old(self), *final(self))
  ens[C13]: ate(*old(self), *final(self)) >= 1
  ens[C13]: forall|i: int| 0 <= i < ate(*old(self), *final(self)) ==> nl(#[trigger] old(self).rest()[i])
  loop 0
    inv: go(*old(self), *self)
    inv: old(self).rest().len() > 0 && nl(old(self).rest()[0])
    inv[C13]: forall|i: int| 0 <= i < ate(*old(self), *self) ==> nl(#[trigger] old(self).rest()[i])
    ens[C13]: ate(*old(self), *self) >= 1
    dec: self.rest().len()

fn Lexer::read_newline_into(s)
  req: old(self).wf() && old(self).rest().len() > 0 && nl(old(self).rest()[0])
  ens: go(*old(self), *final(self))
  ens[C06]: final(self).rest() =~= old(self).rest().skip(if old(self).rest()[0] == '\u{D}' && at(old(self).rest(), 1, '\u{A}') { 2 } else { 1 })
  ens[C06]: final(s)@ =~= old(s)@ + took(old(self).rest(), final(self).rest())
  entry: reveal_strlit("\r\n");

fn Lexer::skip_whitespace()
  req: old(self).wf()
  ens: go(*old(self), *final(self))
  ens[C13]: forall|i: int| 0 <= i < ate(*old(self), *final(self)) ==> ws(#[trigger] old(self).rest()[i])
  ens: old(self).rest().len() > 0 && ws(old(self).rest()[0]) ==> final(self).rest().len() < old(self).rest().len()
  ens: final(self).rest().len() > 0 ==> !ws(final(self).rest()[0])

fn Lexer::skip_line_comment(prefix_len)
  req: old(self).wf() && prefix_len <= old(self).rest().len()
  ens: go(*old(self), *final(self))
  ens[C13]: final(self).rest() == after_line(old(self).rest().skip(prefix_len as int))
  ens: prefix_len > 0 ==> final(self).rest().len() < old(self).rest().len()
  loop 0 iter vp_it
    inv: go(*old(self), *self)
    inv: self.rest() =~= old(self).rest().skip(vp_it.index@ as int)
    inv: prefix_len <= old(self).rest().len()

fn Lexer::skip_block_comment() -> r
  req: old(self).wf() && old(self).rest().len() >= 2
  ens: go(*old(self), *final(self))
  ens[C13,C04]: block(old(self).rest().skip(2), false) matches Some((t, f)) ==> r == Ok::<bool, Error>(f)
  ens[C13,C03]: block(old(self).rest().skip(2), false) matches Some((t, f)) ==> final(self).rest() == t
  ens[C13,C12]: block(old(self).rest().skip(2), false) is None ==> r == Err::<bool, Error>(Error::UnterminatedComment)
  ens: r is Ok ==> final(self).rest().len() < old(self).rest().len()
  let found_newline = /^false$/
  loop 0
    inv: go(*old(self), *self)
    inv: ate(*old(self), *self) >= 2
    invx: block(self.rest(), found_newline) == block(old(self).rest().skip(2), false)
    ens: block(old(self).rest().skip(2), false) == Some((self.rest(), found_newline))
    dec: self.rest().len()

# ---- lexer.rs: regular expressions
fn Lexer::read_regexp() -> r
  req: old(self).wf() && at(old(self).rest(), 0, '/')
  ens: go(*old(self), *final(self))
  ens[C09]: re_tok(old(self).rest()) matches Out::Ok(t, s) ==> r is Ok && td_is(r->Ok_0.value, t)
  ens[C03,C09]: re_tok(old(self).rest()) matches Out::Ok(t, s) ==> final(self).rest() == s
  ens[C09,C12]: re_tok(old(self).rest()) matches Out::Er(e) ==> r is Err && err_ok(r->Err_0, e)
  ens[C02]: r is Ok ==> r->Ok_0.location == (Span { start: old(self).p(), end: final(self).p() })
  ens: r is Ok ==> !r->Ok_0.newline

fn Lexer::read_regexp/lift0(pred, s) -> r
  attr: #[verifier::spinoff_prover]
  req: old(self).wf()
  req: forall|c: char| #[trigger] pred.requires((c,))
  req: forall|c: char, b: bool| #[trigger] pred.ensures((c,), b) ==> b == (c == '/')
  ens: go(*old(self), *final(self))
  ens[C09]: r is Ok ==> re_body(final(self).rest(), final(s)@) == re_body(old(self).rest(), old(s)@)
  ens[C09]: r is Ok ==> (final(self).rest().len() > 0 ==> final(self).rest()[0] == '/')
  ens[C09,C12]: r matches Err(e) ==> re_body(old(self).rest(), old(s)@) == Out::<Seq<char>>::Er(e)
  loop 0
    inv: go(*old(self), *self)
    inv: forall|c: char| #[trigger] pred.requires((c,))
    inv: forall|c: char, b: bool| #[trigger] pred.ensures((c,), b) ==> b == (c == '/')
    inv: re_body(self.rest(), s@) == re_body(old(self).rest(), old(s)@)
    ens: self.rest().len() > 0 ==> self.rest()[0] == '/'
    dec: self.rest().len()

fn Lexer::read_regexp/lift0b(s) -> r
  req: old(self).wf()
  ens: go(*old(self), *final(self))
  ens: re_step(old(self).rest(), old(s)@) matches Out::Ok(p, t) ==> r is Ok && final(s)@ == p && final(self).rest() == t
  ens: re_step(old(self).rest(), old(s)@) matches Out::Er(e) ==> r == Err::<(), Error>(e)
  ens: r is Ok ==> final(self).rest().len() < old(self).rest().len()

fn Lexer::read_regexp_char(s) -> r
  req: old(self).wf()
  ens: go(*old(self), *final(self))
  ens[C09]: re_step(old(self).rest(), old(s)@) matches Out::Ok(p, t) ==> r is Ok && final(s)@ == p && final(self).rest() == t
  ens[C09,C12]: re_step(old(self).rest(), old(s)@) matches Out::Er(e) ==> r == Err::<(), Error>(e)
  ens: r is Ok ==> final(self).rest().len() < old(self).rest().len()

fn Lexer::read_regexp_backslash(s) -> r
  req: old(self).wf() && at(old(self).rest(), 0, '\\')
  ens: go(*old(self), *final(self))
  ens[C09]: re_back(old(self).rest(), old(s)@) matches Out::Ok(p, t) ==> r is Ok && final(s)@ == p && final(self).rest() == t
  ens[C09,C12]: re_back(old(self).rest(), old(s)@) matches Out::Er(e) ==> r == Err::<(), Error>(e)
  ens: final(self).rest().len() < old(self).rest().len()

fn Lexer::read_regexp_class(s) -> r
  req: old(self).wf() && at(old(self).rest(), 0, '[')
  ens: go(*old(self), *final(self))
  ens[C09]: re_class(old(self).rest().skip(1), old(s)@.push('[')) matches Out::Ok(p, t) ==> r is Ok && final(s)@ == p && final(self).rest() == t
  ens[C09,C12]: re_class(old(self).rest().skip(1), old(s)@.push('[')) matches Out::Er(e) ==> r == Err::<(), Error>(e)
  ens: final(self).rest().len() < old(self).rest().len()

fn Lexer::read_regexp_class/lift0(pred, s) -> r
  attr: #[verifier::spinoff_prover]
  req: old(self).wf()
  req: forall|c: char| #[trigger] pred.requires((c,))
  req: forall|c: char, b: bool| #[trigger] pred.ensures((c,), b) ==> b == (c == ']')
  ens: go(*old(self), *final(self))
  ens[C09]: r is Ok ==> re_class(final(self).rest(), final(s)@) == re_class(old(self).rest(), old(s)@)
  ens[C09]: r is Ok ==> (final(self).rest().len() > 0 ==> final(self).rest()[0] == ']')
  ens[C09,C12]: r matches Err(e) ==> re_class(old(self).rest(), old(s)@) == Out::<Seq<char>>::Er(e)
  loop 0
    inv: go(*old(self), *self)
    inv: forall|c: char| #[trigger] pred.requires((c,))
    inv: forall|c: char, b: bool| #[trigger] pred.ensures((c,), b) ==> b == (c == ']')
    inv: re_class(self.rest(), s@) == re_class(old(self).rest(), old(s)@)
    ens: self.rest().len() > 0 ==> self.rest()[0] == ']'
    dec: self.rest().len()

fn Lexer::read_regexp_class/lift0b(s) -> r
  req: old(self).wf()
  ens: go(*old(self), *final(self))
  ens: re_class_step(old(self).rest(), old(s)@) matches Out::Ok(p, t) ==> r is Ok && final(s)@ == p && final(self).rest() == t
  ens: re_class_step(old(self).rest(), old(s)@) matches Out::Er(e) ==> r == Err::<(), Error>(e)
  ens: r is Ok ==> final(self).rest().len() < old(self).rest().len()

fn Lexer::read_regexp_class_char(s) -> r
  req: old(self).wf()
  ens: go(*old(self), *final(self))
  ens[C09]: re_class_step(old(self).rest(), old(s)@) matches Out::Ok(p, t) ==> r is Ok && final(s)@ == p && final(self).rest() == t
  ens[C09,C12]: re_class_step(old(self).rest(), old(s)@) matches Out::Er(e) ==> r == Err::<(), Error>(e)
  ens: r is Ok ==> final(self).rest().len() < old(self).rest().len()

# ---- lexer.rs: numbers
fn Lexer::read_decimal_digits() -> r
  req: old(self).wf()
  ens: go(*old(self), *final(self))
  ens: all_in(f_dec(), r@)
  ens: old(self).rest().len() > 0 && decd(old(self).rest()[0]) ==> r@.len() > 0
  ens: r@.len() > 0 ==> old(self).rest().len() > 0 && r@[0] == old(self).rest()[0]
  ens[C07]: (r@, final(self).rest()) == digits(f_dec(), old(self).rest())

fn Lexer::read_decimal_int() -> r
  req: old(self).wf()
  ens: go(*old(self), *final(self))
  ens: all_in(f_dec(), r@)
  ens: old(self).rest().len() > 0 && decd(old(self).rest()[0]) ==> r@.len() > 0
  ens: r@.len() > 0 ==> old(self).rest().len() > 0 && r@[0] == old(self).rest()[0]
  ens[C07]: (r@, final(self).rest()) == digits(f_dec(), old(self).rest())

fn Lexer::read_exp_part() -> r
  req: old(self).wf()
  ens: go(*old(self), *final(self))
  ens[C07]: exponent(old(self).rest()) matches Out::Ok(x, s) ==> r is Ok && exp_view(r->Ok_0) == x && final(self).rest() == s
  ens[C07,C12]: exponent(old(self).rest()) matches Out::Er(e) ==> r == Err::<Option<Exp>, Error>(e)
  ens: r matches Ok(x) ==> exp_wf(exp_view(x))

fn Lexer::read_radix_int(radix, pred, cons, missing_digits) -> r
  exit: assert forall|i: int| 0 <= i < ate(*old(self), *self) - 2 implies pred.ensures((#[trigger] old(self).rest().skip(2)[i],), true) by {
      if i > 0 { assert(old(self).rest().skip(2).skip(1)[i - 1] == old(self).rest().skip(2)[i]); assert(old(self).rest().skip(3)[i - 1] == old(self).rest().skip(2)[i]); }
    }
  req: old(self).wf() && 2 <= radix <= 36
  req: at(old(self).rest(), 0, '0') && old(self).rest().len() > 1
  req: ('a' <= old(self).rest()[1] && old(self).rest()[1] <= 'z') || ('A' <= old(self).rest()[1] && old(self).rest()[1] <= 'Z')
  req: forall|c: char| #[trigger] pred.requires((c,))
  req: forall|c: char| #[trigger] pred.ensures((c,), true) ==> dig_val(c) < radix
  req: forall|c: CharCase, t: String| t@.len() > 0 && (forall|i: int| 0 <= i < t@.len() ==> pred.ensures((#[trigger] t@[i],), true)) ==> #[trigger] cons.requires((c, t))
  ens: go(*old(self), *final(self))
  ens[C07]: r is Ok ==> ate(*old(self), *final(self)) > 2
  ens[C07]: r is Ok ==> final(self).rest() == old(self).rest().skip(2).skip(ate(*old(self), *final(self)) - 2)
  ens[C07]: r is Ok ==> exists|t: String| t@ == old(self).rest().skip(2).take(ate(*old(self), *final(self)) - 2) && cons.ensures((cc(old(self).rest()[1]), t), r->Ok_0.value)
  ens[C07]: r is Ok ==> forall|i: int| 0 <= i < ate(*old(self), *final(self)) - 2 ==> pred.ensures((#[trigger] old(self).rest().skip(2)[i],), true)
  ens[C07]: r is Ok && final(self).rest().len() > 0 ==> pred.ensures((final(self).rest()[0],), false)
  ens[C07,C12]: r matches Err(e) ==> (if old(self).rest().len() == 2 { e == missing_digits } else { e == Error::InvalidDigit(old(self).rest()[2]) && pred.ensures((old(self).rest()[2],), false) })
  ens[C02]: r is Ok ==> r->Ok_0.location == (Span { start: old(self).p(), end: final(self).p() })
  ens: r is Ok ==> !r->Ok_0.newline

fn Lexer::read_hex_int() -> r
  req: old(self).wf()
  req: at(old(self).rest(), 0, '0') && (at(old(self).rest(), 1, 'x') || at(old(self).rest(), 1, 'X'))
  ens: go(*old(self), *final(self))
  ens[C07]: radix_num(Radix::Hex(cc(old(self).rest()[1])), f_hex(), old(self).rest().skip(2), Error::MissingHexDigits) matches Out::Ok(n, s) ==> r is Ok && td_is(r->Ok_0.value, STok::Num(n)) && final(self).rest() == s
  ens[C07,C12]: radix_num(Radix::Hex(cc(old(self).rest()[1])), f_hex(), old(self).rest().skip(2), Error::MissingHexDigits) matches Out::Er(e) ==> r == Err::<Token, Error>(e)
  ens[C02]: r is Ok ==> r->Ok_0.location == (Span { start: old(self).p(), end: final(self).p() })
  ens: r is Ok ==> !r->Ok_0.newline
  closure 1
    req: $1@.len() > 0 && forall|i: int| 0 <= i < $1@.len() ==> hexd(#[trigger] $1@[i])
    ens: td_is(vp_b, STok::Num(SNum::Radix(Radix::Hex($0), $1@)))

fn Lexer::read_oct_int() -> r
  req: old(self).wf()
  req: at(old(self).rest(), 0, '0') && (at(old(self).rest(), 1, 'o') || at(old(self).rest(), 1, 'O'))
  ens: go(*old(self), *final(self))
  ens[C07]: radix_num(Radix::Oct(Some(cc(old(self).rest()[1]))), f_oct(), old(self).rest().skip(2), Error::MissingOctalDigits) matches Out::Ok(n, s) ==> r is Ok && td_is(r->Ok_0.value, STok::Num(n)) && final(self).rest() == s
  ens[C07,C12]: radix_num(Radix::Oct(Some(cc(old(self).rest()[1]))), f_oct(), old(self).rest().skip(2), Error::MissingOctalDigits) matches Out::Er(e) ==> r == Err::<Token, Error>(e)
  ens[C02]: r is Ok ==> r->Ok_0.location == (Span { start: old(self).p(), end: final(self).p() })
  ens: r is Ok ==> !r->Ok_0.newline
  closure 1
    req: $1@.len() > 0 && forall|i: int| 0 <= i < $1@.len() ==> octd(#[trigger] $1@[i])
    ens: td_is(vp_b, STok::Num(SNum::Radix(Radix::Oct(Some($0)), $1@)))

fn Lexer::read_bin_int() -> r
  req: old(self).wf()
  req: at(old(self).rest(), 0, '0') && (at(old(self).rest(), 1, 'b') || at(old(self).rest(), 1, 'B'))
  ens: go(*old(self), *final(self))
  ens[C07]: radix_num(Radix::Bin(cc(old(self).rest()[1])), f_bin(), old(self).rest().skip(2), Error::MissingBinaryDigits) matches Out::Ok(n, s) ==> r is Ok && td_is(r->Ok_0.value, STok::Num(n)) && final(self).rest() == s
  ens[C07,C12]: radix_num(Radix::Bin(cc(old(self).rest()[1])), f_bin(), old(self).rest().skip(2), Error::MissingBinaryDigits) matches Out::Er(e) ==> r == Err::<Token, Error>(e)
  ens[C02]: r is Ok ==> r->Ok_0.location == (Span { start: old(self).p(), end: final(self).p() })
  ens: r is Ok ==> !r->Ok_0.newline
  closure 1
    req: $1@.len() > 0 && forall|i: int| 0 <= i < $1@.len() ==> bind(#[trigger] $1@[i])
    ens: td_is(vp_b, STok::Num(SNum::Radix(Radix::Bin($0), $1@)))

fn Lexer::read_number() -> r
  attr: #[verifier::spinoff_prover]
  attr: #[verifier::rlimit(150)]
  hide: num_value, posn_after, num_wf, td_is
  use: lemma_no_digits, lemma_num_wf, lemma_oct_digits
  entry: reveal_strlit(""); assert(""@ =~= Seq::<char>::empty());
  req: old(self).wf()
  req: class(old(self).rest(), true) == Class::Num
  ens: go(*old(self), *final(self))
  ens[C07]: num_tok(old(self).rest()) matches Out::Ok(t, s) ==> r is Ok && td_is(r->Ok_0.value, t)
  ens[C03,C07]: num_tok(old(self).rest()) matches Out::Ok(t, s) ==> final(self).rest() == s
  ens[C07,C12]: num_tok(old(self).rest()) matches Out::Er(e) ==> r == Err::<Token, Error>(e)
  ens[C02]: r is Ok ==> r->Ok_0.location == (Span { start: old(self).p(), end: final(self).p() })
  ens: r is Ok ==> !r->Ok_0.newline

fn Lexer::read_digit_into(s, radix, pred, missing_digits) -> r
  exit: assert(has_resolved(self));
  req: old(self).wf() && 2 <= radix <= 36
  req: forall|c: char| #[trigger] pred.requires((c,))
  req: forall|c: char| #[trigger] pred.ensures((c,), true) ==> dig_val(c) < radix
  ens: go(*old(self), *final(self))
  ens[C07,C06]: r matches Ok(d) ==> old(self).rest().len() > 0 && d == dig_val(old(self).rest()[0]) && d < radix && pred.ensures((old(self).rest()[0],), true) && final(self).rest() == old(self).rest().skip(1) && final(s)@ == old(s)@.push(old(self).rest()[0])
  ens[C12]: r matches Err(e) ==> (if old(self).rest().len() == 0 { e == missing_digits } else { e == Error::InvalidDigit(old(self).rest()[0]) && pred.ensures((old(self).rest()[0],), false) })

fn Lexer::read_hex_digit_into(s) -> r
  req: old(self).wf()
  ens: go(*old(self), *final(self))
  ens[C06,C08]: hex1(old(self).rest()) matches Out::Ok(d, t) ==> r is Ok && r->Ok_0 == d && d < 16 && final(self).rest() == t && final(s)@ == old(s)@.push(old(self).rest()[0])
  ens[C12]: hex1(old(self).rest()) matches Out::Er(e) ==> r == Err::<u32, Error>(e)

# ---- lexer.rs: strings
fn Lexer::read_string() -> r
  attr: #[verifier::spinoff_prover]
  use: lemma_str_plain
  req: old(self).wf() && old(self).rest().len() > 0
  req: old(self).rest()[0] == '"' || old(self).rest()[0] == '\''
  ens: go(*old(self), *final(self))
  ens[C06]: str_tok(old(self).rest()) matches Out::Ok(t, s) ==> r is Ok && td_is(r->Ok_0.value, t)
  ens[C03,C06]: str_tok(old(self).rest()) matches Out::Ok(t, s) ==> final(self).rest() == s
  ens[C06,C12]: str_tok(old(self).rest()) matches Out::Er(e) ==> r is Err && err_ok(r->Err_0, e)
  ens[C02]: r is Ok ==> r->Ok_0.location == (Span { start: old(self).p(), end: final(self).p() })
  ens: r is Ok ==> !r->Ok_0.newline
  let source = /String :: new/
  let value = /String :: new/
  let quote = /\. read/
  loop 0
    inv: go(*old(self), *self)
    inv: quote == old(self).rest()[0] && (quote == '"' || quote == '\'')
    inv: old(self).rest().len() > 0
    inv[C06]: source@ =~= took(old(self).rest(), self.rest())
    invx[C06]: str_body(quote, self.rest(), value@) == str_body(quote, old(self).rest().skip(1), Seq::empty())
    ens[C06]: str_body(quote, old(self).rest().skip(1), Seq::empty()) == Out::Ok(value@, self.rest())
    dec: self.rest().len()

fn Lexer::read_unicode_escape_seq(s) -> r
  req: old(self).wf()
  ens: go(*old(self), *final(self))
  ens[C06,C08]: uesc(old(self).rest()) matches Out::Ok(v, t) ==> r is Ok && r->Ok_0 == sat(v) && final(self).rest() == t && final(s)@ =~= old(s)@ + took(old(self).rest(), t)
  ens[C12]: uesc(old(self).rest()) matches Out::Er(e) ==> r == Err::<u32, Error>(e)
  let place = /4096|0x1000/
  let code_point = /^0$/
  loop 0 iter vp_it
    inv: go(*old(self), *self)
    inv: s@ =~= old(s)@ + took(old(self).rest(), self.rest())
    inv: !at(old(self).rest(), 0, '{')
    inv: place == hex_place(vp_it.index@ as int)
    inv[C06,C08]: hexn(self.rest(), (4 - vp_it.index@) as nat, hex_acc(code_point, vp_it.index@ as int)) == hexn(old(self).rest(), 4, 0)
    inv[C06,C08]: hex_ok(code_point, vp_it.index@ as int)
    start: lemma_hex_step(code_point, vp_it.index@ as int);

fn Lexer::read_unicode_escape_seq/lift0(pred, digits, s) -> r
  req: old(self).wf()
  req: forall|c: char| #[trigger] pred.requires((c,))
  req: forall|c: char, b: bool| #[trigger] pred.ensures((c,), b) ==> b == (c == '}')
  req: forall|i: int| 0 <= i < old(digits)@.len() ==> #[trigger] old(digits)@[i] < 16
  ens: go(*old(self), *final(self))
  ens: forall|i: int| 0 <= i < final(digits)@.len() ==> #[trigger] final(digits)@[i] < 16
  ens[C06,C08]: r is Ok ==> braced(final(self).rest(), fold_digits(final(digits)@, 16)) == braced(old(self).rest(), fold_digits(old(digits)@, 16))
  ens: r is Ok ==> (final(self).rest().len() > 0 ==> final(self).rest()[0] == '}')
  ens: r is Ok ==> final(s)@ =~= old(s)@ + took(old(self).rest(), final(self).rest())
  ens[C12]: r matches Err(e) ==> braced(old(self).rest(), fold_digits(old(digits)@, 16)) == Out::<nat>::Er(e)
  loop 0
    inv: go(*old(self), *self)
    inv: forall|c: char| #[trigger] pred.requires((c,))
    inv: forall|c: char, b: bool| #[trigger] pred.ensures((c,), b) ==> b == (c == '}')
    inv: forall|i: int| 0 <= i < digits@.len() ==> #[trigger] digits@[i] < 16
    inv: s@ =~= old(s)@ + took(old(self).rest(), self.rest())
    inv: braced(self.rest(), fold_digits(digits@, 16)) == braced(old(self).rest(), fold_digits(old(digits)@, 16))
    ens: self.rest().len() > 0 ==> self.rest()[0] == '}'
    dec: self.rest().len()

fn Lexer::read_unicode_escape_seq/lift0b(digits, s) -> r
  req: old(self).wf()
  ens: go(*old(self), *final(self))
  ens: hex1(old(self).rest()) matches Out::Ok(d, t) ==> r is Ok && final(digits)@ == old(digits)@.push(d as u32) && d < 16 && final(self).rest() == t && final(s)@ == old(s)@.push(old(self).rest()[0])
  ens: hex1(old(self).rest()) matches Out::Er(e) ==> r == Err::<(), Error>(e) && final(digits)@ == old(digits)@

fn Lexer::read_string_escape(source, value) -> r
  attr: #[verifier::spinoff_prover]
  entry: lemma_shifts(); lemma_char_of(); reveal_with_fuel(hexn, 3);
  req: old(self).wf() && at(old(self).rest(), 0, '\\')
  ens: go(*old(self), *final(self))
  ens[C06]: str_esc(old(self).rest()) matches Out::Ok(a, t) ==> r is Ok && final(value)@ =~= old(value)@ + a && final(self).rest() == t
  ens[C06]: r is Ok ==> final(source)@ =~= old(source)@ + took(old(self).rest(), final(self).rest())
  ens[C06,C12]: str_esc(old(self).rest()) matches Out::Er(e) ==> r is Err && err_ok(r->Err_0, e)
  ens: r is Ok ==> final(self).rest().len() < old(self).rest().len()
  let code = /^0$/
  loop 0 iter vp_it
    inv: go(*old(self), *self)
    inv: old(self).rest().len() > 1
    inv: value@ == old(value)@
    inv: source@ =~= old(source)@ + took(old(self).rest(), self.rest())
    inv: ate(*old(self), *self) >= 1
    inv: code <= 255
    invx[C06]: octal(self.rest(), code as nat, (3 - vp_it.index@) as nat) == octal(old(self).rest().skip(1), 0, 3)
    start: lemma_shifts();
    ens[C06]: (code as nat, self.rest()) == octal(old(self).rest().skip(1), 0, 3)

# ---- lexer.rs: words
fn Lexer::read_word_parts() -> r
  req: old(self).wf()
  ens: go(*old(self), *final(self))
  ens[C08,C09]: word(old(self).rest(), Seq::empty(), false) matches Out::Ok(w, t) ==> r is Ok && r->Ok_0.text@ == w.0 && r->Ok_0.had_escape == w.1 && final(self).rest() == t
  ens[C08,C12]: word(old(self).rest(), Seq::empty(), false) matches Out::Er(e) ==> r is Err && err_ok(r->Err_0, e)
  ens: r is Ok && old(self).rest().len() > 0 && (old(self).rest()[0] == '\\' || id_cont(old(self).rest()[0])) ==> r->Ok_0.text@.len() > 0

fn Lexer::read_word_parts/lift0(pred, s) -> r
  req: old(self).wf()
  req: forall|c: char| #[trigger] pred.requires((c,))
  req: forall|c: char, b: bool| #[trigger] pred.ensures((c,), b) ==> b == (c != '\\' && !id_cont(c))
  ens: go(*old(self), *final(self))
  ens[C08]: r is Ok ==> word(old(self).rest(), old(s).text@, old(s).had_escape) == Out::Ok((final(s).text@, final(s).had_escape), final(self).rest())
  ens[C08,C12]: r matches Err(e) ==> (word(old(self).rest(), old(s).text@, old(s).had_escape) matches Out::Er(x) && err_ok(e, x))
  ens: r is Ok && old(self).rest().len() > 0 && (old(self).rest()[0] == '\\' || id_cont(old(self).rest()[0])) ==> final(s).text@.len() > 0
  loop 0
    inv: go(*old(self), *self)
    inv: forall|c: char| #[trigger] pred.requires((c,))
    inv: forall|c: char, b: bool| #[trigger] pred.ensures((c,), b) ==> b == (c != '\\' && !id_cont(c))
    inv: word(self.rest(), s.text@, s.had_escape) == word(old(self).rest(), old(s).text@, old(s).had_escape)
    inv: ate(*old(self), *self) > 0 ==> s.text@.len() > 0
    ens: self.rest().len() > 0 ==> self.rest()[0] != '\\' && !id_cont(self.rest()[0])
    dec: self.rest().len()

fn Lexer::read_word_parts/lift0b(s) -> r
  req: old(self).wf() && old(self).rest().len() > 0
  req: old(self).rest()[0] == '\\' || id_cont(old(self).rest()[0])
  ens: go(*old(self), *final(self))
  ens: r is Ok ==> word(final(self).rest(), final(s).text@, final(s).had_escape) == word(old(self).rest(), old(s).text@, old(s).had_escape)
  ens: r is Ok ==> final(s).text@.len() > 0
  ens: r is Ok ==> final(self).rest().len() < old(self).rest().len()
  ens: r matches Err(e) ==> (word(old(self).rest(), old(s).text@, old(s).had_escape) matches Out::Er(x) && err_ok(e, x))

fn Lexer::read_word() -> r
  req: old(self).wf()
  req: old(self).rest().len() > 0 && (old(self).rest()[0] == '\\' || id_start(old(self).rest()[0]))
  ens: go(*old(self), *final(self))
  ens[C08]: word_tok(old(self).rest()) matches Out::Ok(t, s) ==> r is Ok && td_is(r->Ok_0.value, t)
  ens[C03,C08]: word_tok(old(self).rest()) matches Out::Ok(t, s) ==> final(self).rest() == s
  ens[C08,C12]: word_tok(old(self).rest()) matches Out::Er(e) ==> r is Err && err_ok(r->Err_0, e)
  ens[C02]: r is Ok ==> r->Ok_0.location == (Span { start: old(self).p(), end: final(self).p() })
  ens: r is Ok ==> !r->Ok_0.newline

fn Lexer::read_word_escape(s) -> r
  entry: lemma_char_of();
  req: old(self).wf()
  ens: go(*old(self), *final(self))
  ens[C08]: word_esc(old(self).rest(), old(s).text@) matches Out::Ok(c, t) ==> r is Ok && final(s).text@ == old(s).text@.push(c) && final(s).had_escape && final(self).rest() == t
  ens[C08,C12]: word_esc(old(self).rest(), old(s).text@) matches Out::Er(e) ==> r is Err && err_ok(r->Err_0, e)

# ---- lexer.rs: punctuators
fn Lexer::read_punc(value) -> r
  req: old(self).wf() && old(self).rest().len() >= 1
  ens: go(*old(self), *final(self))
  ens[C05]: r.value == value
  ens[C03,C05]: final(self).rest() =~= old(self).rest().skip(1)
  ens[C02]: r.location == (Span { start: old(self).p(), end: final(self).p() })
  ens: !r.newline

fn Lexer::read_punc2(value) -> r
  req: old(self).wf() && old(self).rest().len() >= 2
  ens: go(*old(self), *final(self))
  ens[C05]: r.value == value
  ens[C03,C05]: final(self).rest() =~= old(self).rest().skip(2)
  ens[C02]: r.location == (Span { start: old(self).p(), end: final(self).p() })
  ens: !r.newline

fn Lexer::read_punc3(value) -> r
  req: old(self).wf() && old(self).rest().len() >= 3
  ens: go(*old(self), *final(self))
  ens[C05]: r.value == value
  ens[C03,C05]: final(self).rest() =~= old(self).rest().skip(3)
  ens[C02]: r.location == (Span { start: old(self).p(), end: final(self).p() })
  ens: !r.newline

fn Lexer::read_punc2_3(ch, value2, value3) -> r
  req: old(self).wf() && old(self).rest().len() >= 2
  ens: go(*old(self), *final(self))
  ens[C05]: r.value == (if at(old(self).rest(), 2, ch) { value3 } else { value2 })
  ens[C03,C05]: final(self).rest() =~= old(self).rest().skip(if at(old(self).rest(), 2, ch) { 3 } else { 2 })
  ens[C02]: r.location == (Span { start: old(self).p(), end: final(self).p() })
  ens: !r.newline

# ---- lexer.rs: tokens
fn Lexer::read_next_token(operator) -> r
  attr: #[verifier::spinoff_prover]
  attr: #[verifier::rlimit(100)]
  hide: posn_after, td_is, str_body, re_body, word, number_text, block, classify
  use: lemma_trivia_ws, lemma_trivia_nl, lemma_td_is, lemma_skip_skip
  req: old(self).wf()
  ens: adv(old(self).reader, final(self).reader)
  ens[C10]: final(self).lookahead == old(self).lookahead
  ens: final(self).wordmap == old(self).wordmap
  ens[C03]: nt_value(Class::Eof, *old(self), *final(self), r, operator)
  ens[C09]: nt_value(Class::Re, *old(self), *final(self), r, operator)
  ens[C07]: nt_value(Class::Num, *old(self), *final(self), r, operator)
  ens[C06]: nt_value(Class::Str, *old(self), *final(self), r, operator)
  ens[C08]: nt_value(Class::Word, *old(self), *final(self), r, operator)
  ens[C05]: nt_value(Class::Punc, *old(self), *final(self), r, operator)
  ens[C03]: nt_rest(*old(self), *final(self), r, operator)
  ens[C12]: nt_err(*old(self), *final(self), r, operator)
  ens[C09]: nt_rest_k(Class::Re, *old(self), *final(self), r, operator)
  ens[C09]: nt_err_k(Class::Re, *old(self), *final(self), r, operator)
  ens[C07]: nt_rest_k(Class::Num, *old(self), *final(self), r, operator)
  ens[C07]: nt_err_k(Class::Num, *old(self), *final(self), r, operator)
  ens[C06]: nt_rest_k(Class::Str, *old(self), *final(self), r, operator)
  ens[C06]: nt_err_k(Class::Str, *old(self), *final(self), r, operator)
  ens[C08]: nt_rest_k(Class::Word, *old(self), *final(self), r, operator)
  ens[C08]: nt_err_k(Class::Word, *old(self), *final(self), r, operator)
  ens[C05]: nt_rest_k(Class::Punc, *old(self), *final(self), r, operator)
  ens[C13,C12]: nt_open(*old(self), *final(self), r)
  ens[C02]: nt_span(*old(self), *final(self), r)
  ens[C04]: nt_newline(*old(self), r)
  ens[C13]: r is Ok ==> !final(self).empty_line
  let found_newline = /^false$/
  let pair = /^$/
  loop 0
    inv: adv(old(self).reader, self.reader) && self.wf()
    inv: self.lookahead == old(self).lookahead
    inv: self.wordmap == old(self).wordmap
    invx[C13,C04]: trivia(self.rest(), self.empty_line, found_newline) == nt_trivia(*old(self))
    ens[C13,C04]: nt_trivia(*old(self)) matches Trivia::Done { rest, newline, line_start } && rest == self.rest() && newline == found_newline
    ens: pair == (if self.rest().len() > 0 { Some(self.rest()[0]) } else { None::<char> }, if self.rest().len() > 1 { Some(self.rest()[1]) } else { None::<char> })
    dec: self.rest().len()

fn Lexer::peek_token(operator) -> r
  req: old(self).wf()
  ens: final(self).wf()
  ens[C10]: old(self).lookahead@.len() > 0 ==> r is Ok && *r->Ok_0 == old(self).lookahead@[0] && final(self).lookahead@ == old(self).lookahead@ && final(self).reader == old(self).reader && final(self).empty_line == old(self).empty_line
  ens[C10]: old(self).lookahead@.len() == 0 ==> (r matches Ok(t) ==> final(self).lookahead@ =~= seq![*t] && next_ok(*old(self), *final(self), Ok(*t), operator))
  ens[C10]: old(self).lookahead@.len() == 0 ==> (r matches Err(e) ==> final(self).lookahead@ =~= old(self).lookahead@ && next_ok(*old(self), *final(self), Err(e), operator))

fn Lexer::repeek_token() -> r
  req: old(self).lookahead@.len() > 0
  ens[C10]: *r == old(self).lookahead@[0]
  ens[C10]: *final(self) == *old(self)

fn Lexer::skip_token(operator) -> r
  req: old(self).wf()
  ens: final(self).wf()
  ens[C10]: old(self).lookahead@.len() > 0 ==> r is Ok && final(self).lookahead@ == old(self).lookahead@.skip(1) && final(self).reader == old(self).reader && final(self).empty_line == old(self).empty_line
  ens[C10]: old(self).lookahead@.len() == 0 ==> final(self).lookahead@ =~= old(self).lookahead@ && (r matches Err(e) ==> next_ok(*old(self), *final(self), Err(e), operator)) && (r is Ok ==> exists|t: Token| next_ok(*old(self), *final(self), Ok(t), operator))

fn Lexer::reread_token() -> r
  req: old(self).lookahead@.len() > 0
  req: old(self).wf()
  ens: final(self).wf()
  ens[C10]: r == old(self).lookahead@[0]
  ens[C10]: final(self).lookahead@ == old(self).lookahead@.skip(1)
  ens[C10]: final(self).reader == old(self).reader && final(self).empty_line == old(self).empty_line && final(self).wordmap == old(self).wordmap

fn Lexer::read_token(operator) -> r
  req: old(self).wf()
  ens: final(self).wf()
  ens[C10]: old(self).lookahead@.len() > 0 ==> r == Ok::<Token, Error>(old(self).lookahead@[0]) && final(self).lookahead@ == old(self).lookahead@.skip(1) && final(self).reader == old(self).reader && final(self).empty_line == old(self).empty_line
  ens[C10]: old(self).lookahead@.len() == 0 ==> final(self).lookahead@ =~= old(self).lookahead@ && next_ok(*old(self), *final(self), r, operator)

fn Lexer::unread_token(token)
  req: old(self).wf()
  req: old(self).lookahead@.len() < old(self).lookahead.cap()
  ens: final(self).wf()
  ens[C10]: final(self).lookahead@ =~= seq![token] + old(self).lookahead@
  ens[C10]: final(self).reader == old(self).reader && final(self).empty_line == old(self).empty_line && final(self).wordmap == old(self).wordmap
