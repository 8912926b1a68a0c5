# ---- track.rs
fn Posn::origin() -> r
  ens[C02]: r == (Posn { offset: 0, line: 0, column: 0 })

# ---- char.rs
inject trait ESCharExt
  spec fn ch(self) -> char;
  spec fn sp_nl(self) -> bool;
  spec fn sp_ws(self) -> bool;
  spec fn sp_id_start(self) -> bool;
  spec fn sp_id_cont(self) -> bool;
  spec fn sp_hexd(self) -> bool;
  spec fn sp_decd(self) -> bool;
  spec fn sp_octd(self) -> bool;
  spec fn sp_bind(self) -> bool;

inject impl char:ESCharExt
  spec fn ch(self) -> char { self }
  spec fn sp_nl(self) -> bool { nl(self) }
  spec fn sp_ws(self) -> bool { ws(self) }
  spec fn sp_id_start(self) -> bool { id_start(self) }
  spec fn sp_id_cont(self) -> bool { id_cont(self) }
  spec fn sp_hexd(self) -> bool { hexd(self) }
  spec fn sp_decd(self) -> bool { decd(self) }
  spec fn sp_octd(self) -> bool { octd(self) }
  spec fn sp_bind(self) -> bool { bind(self) }

fn ESCharExt::is_es_newline() -> r
  ens[C11]: r == nl(self.ch())

fn ESCharExt::is_es_whitespace() -> r
  ens[C11]: r == ws(self.ch())

fn ESCharExt::is_es_identifier_start() -> r
  ens[C11]: r == id_start(self.ch())

fn ESCharExt::is_es_identifier_continue() -> r
  ens[C11]: r == id_cont(self.ch())

fn ESCharExt::unescape() -> r
  ens[C11,C06]: r == single_escape(self.ch())

fn ESCharExt::is_es_hex_digit() -> r
  ens[C11]: r == hexd(self.ch())

fn ESCharExt::is_es_dec_digit() -> r
  ens[C11]: r == decd(self.ch())

fn ESCharExt::is_es_oct_digit() -> r
  ens[C11]: r == octd(self.ch())

fn ESCharExt::is_es_bin_digit() -> r
  ens[C11]: r == bind(self.ch())

# ---- reader.rs
fn Reader::new(chars) -> r
  req: chars.rest().len() < u32::MAX
  ens[C02]: r.p() == (Posn { offset: 0, line: 0, column: 0 })
  ens[C03]: r.rest() == chars.rest()
  ens: r.wf()
  entry: assert(Seq::<char>::empty() + chars.rest() =~= chars.rest());

fn Reader::peek(n) -> r
  use: lemma_adv_same
  req: n < 4
  req: old(self).wf()
  ens: final(self).wf()
  ens[C02]: final(self).p() == old(self).p()
  ens[C03]: final(self).rest() =~= old(self).rest()
  ens[C03]: r == (if n < old(self).rest().len() { Some(old(self).rest()[n as int]) } else { None::<char> })
  ens: adv(*old(self), *final(self))
  loop 0 iter vp_it
    inv: self.wf()
    inv: self.p() == old(self).p()
    inv: self.rest() =~= old(self).rest()
    inv: n < 4
    inv: self.ahead@.len() == old(self).ahead@.len() + vp_it.index@

fn Reader::curr_posn() -> r
  ens[C02]: r == self.p()

fn Reader:Iterator::next() -> r
  use: lemma_adv_step
  req: old(self).wf()
  req: old(self).rest().len() > 0
  ens[C03]: r == Some(old(self).rest()[0])
  ens[C03]: final(self).rest() =~= old(self).rest().skip(1)
  ens[C02]: final(self).p() == step(old(self).p(), old(self).rest())
  ens: final(self).wf()
  ens: adv(*old(self), *final(self))
