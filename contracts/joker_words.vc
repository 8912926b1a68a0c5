# ---- token.rs
fn Token::new(start, end, value) -> r
  ens[C02]: r.location == (Span { start: start, end: end })
  ens[C04]: r.newline == false
  ens: r.value == value

fn TokenData::is_string() -> r
  ens[C06]: r == (*self is String)

fn Radix::value() -> r
  ens[C07]: r == radix_of(*self)
  ens: r == 2 || r == 8 || r == 16

fn format_sign(sign) -> r
  ens[C07]: r@ == sign_text(*sign)

fn format_int(src) -> r
  entry: reveal_strlit("");
  ens[C07]: r@ == opt_text(ostr_view(*src))

fn NumberSource::value() -> r
  req: num_wf(num_view(*self))
  ens[C07]: r == num_value(num_view(*self))
  entry: let vp_n = num_view(*self);
    if !(vp_n is Radix) { assert(float_shape(num_text(vp_n), vp_n)); assert(f64_ok(num_text(vp_n))); }
    axiom_f64_zero(); reveal_strlit("");
    assert(""@ =~= Seq::<char>::empty());
    assert(num_digits(vp_n).take(num_digits(vp_n).len() as int) =~= num_digits(vp_n));
  let res = /^0f64/
  let radix = /\. value \(/
  let mult = /f64/
  loop 0 iter vp_it
    inv: vp_cs@ == num_digits(num_view(*self))
    inv: num_wf(num_view(*self)) && num_view(*self) is Radix
    inv: radix == num_radix(num_view(*self)) && (radix == 2 || radix == 8 || radix == 16)
    inv: mult == f64_int(radix as nat)
    inv[C07]: res == radix_f64(vp_cs@.take(vp_it.index@ as int), radix as nat)
    start: assert(vp_cs@.take(vp_it.index@ + 1).drop_last() =~= vp_cs@.take(vp_it.index@ as int));

fn NumberSource::into_token_data() -> r
  req: num_wf(num_view(self))
  ens[C07]: td_is(r, STok::Num(num_view(self)))

# ---- word.rs
fn Word::new() -> r
  ens: r.text@ == Seq::<char>::empty()
  ens: r.had_escape == false

fn Word::had_escape() -> r
  ens: r == self.had_escape

fn Word::set_had_escape()
  ens: final(self).had_escape == true
  ens: final(self).text == old(self).text

fn Reserved::name() -> r
  ens[C08]: r@ == res_name(*self)

fn Reserved::into_string() -> r
  ens[C08]: r@ == res_name(self)

fn Atom::name() -> r
  ens[C08]: r@ == atom_name(self)

fn Name::atom() -> r
  ens[C08]: r == (match *self { Name::Atom(a) => Some(a), _ => None::<Atom> })

fn Name::into_string() -> r
  ens[C08]: r@ == name_text(self)

fn Name:AsRef<str>::as_ref() -> r
  ens[C08]: r@ == name_text(*self)

fn Name:From<String>::from(s) -> r
  ens[C08]: contextual(s@) is Some ==> r == Name::Atom(contextual(s@)->0)
  ens[C08]: contextual(s@) is None ==> (r matches Name::String(t) && t@ == s@)
  ens[C08]: name_text(r) == s@
  entry: lemma_words(); lemma_tables(); axiom_str_ext();

fn Map::new() -> r
  ens[C08]: map_ok(r)
  entry: lemma_words();

fn Map::tokenize(s) -> r
  req: map_ok(*self)
  ens[C08]: classify(s.text@, s.had_escape) matches Out::Ok(t, _) ==> r is Ok && td_is(r->Ok_0, t)
  ens[C08,C12]: classify(s.text@, s.had_escape) matches Out::Er(e) ==> r == Err::<TokenData, Error>(e)
  ens[C08]: r is Ok ==> name_text_of(r->Ok_0) == s.text@
  entry: lemma_words(); lemma_tables();
