# Early errors (C20) and strict mode (C24).  Layered on esprit.vc; the rules are in
# esprit_jump_spec.rs.  Every function: what it parses satisfies the rules of every mode the
# parser is then known to have judged it by (okm).

fn Deref::append_to(expr) -> r
  ens[C20]: ((XE(expr, 0) && x_deref(self, 0)) ==> XE(r, 0))
  ens[C24]: ((XE(expr, 1) && x_deref(self, 1)) ==> XE(r, 1)) && ((XE(expr, 2) && x_deref(self, 2)) ==> XE(r, 2)) && ((XE(expr, 3) && x_deref(self, 3)) ==> XE(r, 3))
fn Arguments::append_to(expr) -> r
  ens[C20]: ((XE(expr, 0) && x_items(self.args@, 0)) ==> XE(r, 0))
  ens[C24]: ((XE(expr, 1) && x_items(self.args@, 1)) ==> XE(r, 1)) && ((XE(expr, 2) && x_items(self.args@, 2)) ==> XE(r, 2)) && ((XE(expr, 3) && x_items(self.args@, 3)) ==> XE(r, 3))
fn Arguments::append_to_new(new, expr) -> r
  ens[C20]: ((XE(expr, 0) && x_items(self.args@, 0)) ==> XE(r, 0))
  ens[C24]: ((XE(expr, 1) && x_items(self.args@, 1)) ==> XE(r, 1)) && ((XE(expr, 2) && x_items(self.args@, 2)) ==> XE(r, 2)) && ((XE(expr, 3) && x_items(self.args@, 3)) ==> XE(r, 3))
fn Suffix::append_to(expr) -> r
  ens[C20]: ((XE(expr, 0) && x_suffix(self, 0)) ==> XE(r, 0))
  ens[C24]: ((XE(expr, 1) && x_suffix(self, 1)) ==> XE(r, 1)) && ((XE(expr, 2) && x_suffix(self, 2)) ==> XE(r, 2)) && ((XE(expr, 3) && x_suffix(self, 3)) ==> XE(r, 3))
fn Frame::fill(right) -> r
  ens[C20]: ((XE(self.left, 0) && XE(right, 0)) ==> XE(r, 0))
  ens[C24]: ((XE(self.left, 1) && XE(right, 1)) ==> XE(r, 1)) && ((XE(self.left, 2) && XE(right, 2)) ==> XE(r, 2)) && ((XE(self.left, 3) && XE(right, 3)) ==> XE(r, 3))
fn Stack::new() -> r
  ens[C20,C24]: r.frames@.len() == 0
fn Stack::extend(left, op)
  ens[C20]: ((all_frames(old(self).frames@, 0) && XE(left, 0)) ==> all_frames(final(self).frames@, 0))
  ens[C24]: ((all_frames(old(self).frames@, 1) && XE(left, 1)) ==> all_frames(final(self).frames@, 1)) && ((all_frames(old(self).frames@, 2) && XE(left, 2)) ==> all_frames(final(self).frames@, 2)) && ((all_frames(old(self).frames@, 3) && XE(left, 3)) ==> all_frames(final(self).frames@, 3))
  loop 0
    inv[C20]: ((all_frames(old(self).frames@, 0) && XE(left0, 0)) ==> all_frames(self.frames@, 0) && XE(left, 0))
    inv[C24]: ((all_frames(old(self).frames@, 1) && XE(left0, 1)) ==> all_frames(self.frames@, 1) && XE(left, 1)) && ((all_frames(old(self).frames@, 2) && XE(left0, 2)) ==> all_frames(self.frames@, 2) && XE(left, 2)) && ((all_frames(old(self).frames@, 3) && XE(left0, 3)) ==> all_frames(self.frames@, 3) && XE(left, 3))
fn Stack::finish(right) -> r
  ens[C20]: ((all_frames(self.frames@, 0) && XE(right, 0)) ==> XE(r, 0))
  ens[C24]: ((all_frames(self.frames@, 1) && XE(right, 1)) ==> XE(r, 1)) && ((all_frames(self.frames@, 2) && XE(right, 2)) ==> XE(r, 2)) && ((all_frames(self.frames@, 3) && XE(right, 3)) ==> XE(r, 3))
  loop 0
    inv[C20]: ((all_frames(self.frames@, 0) && XE(right0, 0)) ==> all_frames(vp_self.frames@, 0) && XE(right, 0))
    inv[C24]: ((all_frames(self.frames@, 1) && XE(right0, 1)) ==> all_frames(vp_self.frames@, 1) && XE(right, 1)) && ((all_frames(self.frames@, 2) && XE(right0, 2)) ==> all_frames(vp_self.frames@, 2) && XE(right, 2)) && ((all_frames(self.frames@, 3) && XE(right0, 3)) ==> all_frames(vp_self.frames@, 3) && XE(right, 3))
fn Program::script() -> r
  ens[C24]: r is Ok <==> self is Ambiguous
  ens[C20,C24]: r matches Ok(x) ==> (self matches Program::Ambiguous(_, s) && s == x)
fn Program::strict() -> r
  ens[C24]: r is Ok <==> (self matches Program::Ambiguous(c, _) && no_strict(c@))
  ens[C20,C24]: r matches Ok(x) ==> (self matches Program::Ambiguous(_, s) && s == x)
  loop 0
    inv[C24]: self is Ambiguous && vp_it0@.len() <= self->Ambiguous_0@.len()
    inv[C24]: vp_it0@ =~= self->Ambiguous_0@.skip(self->Ambiguous_0@.len() - vp_it0@.len())
    inv[C24]: forall|k: int| 0 <= k < self->Ambiguous_0@.len() - vp_it0@.len() ==> !(#[trigger] self->Ambiguous_0@[k] is Strict)
    ens[C24]: vp_it0@.len() == 0
fn Program::module() -> r
  ens[C24]: r is Ok <==> (self is Module || self->Ambiguous_0@.len() == 0)
  loop 0
    inv[C24]: self is Ambiguous && vp_it0@ == self->Ambiguous_0@
    ens[C24]: vp_it0@.len() == 0
fn Parser::take_deferred() -> r
fn Parser::module() -> r
  ens[C20]: r matches Ok(x) ==> x_mlist(x.items@, 0)
  ens[C24]: r matches Ok(x) ==> old(self).validate ==> x_mlist(x.items@, 2)
fn Parser::program() -> r
  ens[C20]: r matches Ok(x) ==> (x matches Program::Ambiguous(_, s) && top_ok(s, 0))
  ens[C24]: r matches Ok(x) ==> (x matches Program::Ambiguous(c, s) && (old(self).validate ==> top_ok(s, 3)) && (no_strict(c@) ==> top_ok(s, 1)) && (c@.len() == 0 ==> top_ok(s, 2)))
fn Parser::script(strict) -> r
  ens[C20]: r matches Ok(x) ==> top_ok(x, 0)
  ens[C24]: r matches Ok(x) ==> old(self).validate ==> top_ok(x, 3) && (strict ==> top_ok(x, 1))
fn Parser::script_body() -> r
  ens[C20]: r matches Ok(x) ==> x_list(x.items@, cxs(old(self).context), 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> x_list(x.items@, cxs(old(self).context), 1)) && (okm(*final(self), 2) ==> x_list(x.items@, cxs(old(self).context), 2)) && (okm(*final(self), 3) ==> x_list(x.items@, cxs(old(self).context), 3))
  ens[C24]: r matches Ok(x) ==> dirs_done(*old(self), *final(self), x.dirs@)
fn Parser::body_directives() -> r
  use: axiom_str_ext, has_push
  ens[C24]: r matches Ok(x) ==> dirs_done(*old(self), *final(self), x@)
  loop 0
    inv[C24]: dirs_done(*old(self), *self, dirs@)
fn Parser::program_items() -> r
  ens[C20]: r matches Ok(x) ==> x_list(x->Script_0@, cxs(old(self).context), 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> x_list(x->Script_0@, cxs(old(self).context), 1)) && (okm(*final(self), 2) ==> x_list(x->Script_0@, cxs(old(self).context), 2)) && (okm(*final(self), 3) ==> x_list(x->Script_0@, cxs(old(self).context), 3))
  ens[C20,C24]: r matches Ok(x) ==> x is Script
  loop 0
    inv[C20]: x_list(stmts@, cxs(old(self).context), 0)
    inv[C24]: (okm(*self, 1) ==> x_list(stmts@, cxs(old(self).context), 1)) && (okm(*self, 2) ==> x_list(stmts@, cxs(old(self).context), 2)) && (okm(*self, 3) ==> x_list(stmts@, cxs(old(self).context), 3))
fn Parser::module_items() -> r
  ens[C20]: r matches Ok(x) ==> x_mlist(x@, 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> x_mlist(x@, 1)) && (okm(*final(self), 2) ==> x_mlist(x@, 2)) && (okm(*final(self), 3) ==> x_mlist(x@, 3))
  req[C20,C24]: cxs(old(self).context) == cx_top()
fn Parser::more_module_items(items) -> r
  ens[C20]: (x_mlist(items@, 0) && cxs(old(self).context) == cx_top()) ==> (r matches Ok(x) ==> (x_mlist(x@, 0)))
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) && (x_mlist(items@, 1) && cxs(old(self).context) == cx_top()) ==> x_mlist(x@, 1)) && (okm(*final(self), 2) && (x_mlist(items@, 2) && cxs(old(self).context) == cx_top()) ==> x_mlist(x@, 2)) && (okm(*final(self), 3) && (x_mlist(items@, 3) && cxs(old(self).context) == cx_top()) ==> x_mlist(x@, 3))
  ens[C20,C24]: cur(*old(self)) == resv(Reserved::Import) || cur(*old(self)) == resv(Reserved::Export) ==> r is Err
  ghost: items0 = items
  loop 0
    inv[C20]: (x_mlist(items0@, 0) && cxs(old(self).context) == cx_top()) ==> (x_mlist(items@, 0))
    inv[C24]: (okm(*self, 1) && (x_mlist(items0@, 1) && cxs(old(self).context) == cx_top()) ==> x_mlist(items@, 1)) && (okm(*self, 2) && (x_mlist(items0@, 2) && cxs(old(self).context) == cx_top()) ==> x_mlist(items@, 2)) && (okm(*self, 3) && (x_mlist(items0@, 3) && cxs(old(self).context) == cx_top()) ==> x_mlist(items@, 3))
    inv[C20,C24]: cur(*old(self)) == resv(Reserved::Import) || cur(*old(self)) == resv(Reserved::Export) ==> self.lexer.pos() == old(self).lexer.pos()
    ens[C20,C24]: cur(*self) is EOF
fn Parser::statement_list() -> r
  ens[C20]: r matches Ok(x) ==> x_list(x@, cxs(old(self).context), 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> x_list(x@, cxs(old(self).context), 1)) && (okm(*final(self), 2) ==> x_list(x@, cxs(old(self).context), 2)) && (okm(*final(self), 3) ==> x_list(x@, cxs(old(self).context), 3))
  loop 0
    inv[C20]: x_list(items@, cxs(old(self).context), 0)
    inv[C24]: (okm(*self, 1) ==> x_list(items@, cxs(old(self).context), 1)) && (okm(*self, 2) ==> x_list(items@, cxs(old(self).context), 2)) && (okm(*self, 3) ==> x_list(items@, cxs(old(self).context), 3))
fn Parser::function_declaration() -> r
  ens[C20]: r matches Ok(x) ==> x_decl(x, 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> x_decl(x, 1)) && (okm(*final(self), 2) ==> x_decl(x, 2)) && (okm(*final(self), 3) ==> x_decl(x, 3))
fn Parser::formal_parameters() -> r
  ens[C20]: r matches Ok(x) ==> x_params(x, 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> x_params(x, 1)) && (okm(*final(self), 2) ==> x_params(x, 2)) && (okm(*final(self), 3) ==> x_params(x, 3))
  loop 0
    inv[C20]: x_patts(list@, 0)
    inv[C24]: (okm(*self, 1) ==> x_patts(list@, 1)) && (okm(*self, 2) ==> x_patts(list@, 2)) && (okm(*self, 3) ==> x_patts(list@, 3))
    inv[C20]: x_rest(rest, 0)
    inv[C24]: (okm(*self, 1) ==> x_rest(rest, 1)) && (okm(*self, 2) ==> x_rest(rest, 2)) && (okm(*self, 3) ==> x_rest(rest, 3))
fn Parser::pattern() -> r
  ens[C20]: r matches Ok(x) ==> x_patt(x, 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> x_patt(x, 1)) && (okm(*final(self), 2) ==> x_patt(x, 2)) && (okm(*final(self), 3) ==> x_patt(x, 3))
fn Parser::function_body(params) -> r
  ens[C20]: r matches Ok(x) ==> XB(x, 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> XB(x, 1)) && (okm(*final(self), 2) ==> XB(x, 2)) && (okm(*final(self), 3) ==> XB(x, 3))
fn Parser::stmt_list_item(allow_decl) -> r
  ens[C20]: r matches Ok(x) ==> x_sitem(x, cxs(old(self).context), 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> x_sitem(x, cxs(old(self).context), 1)) && (okm(*final(self), 2) ==> x_sitem(x, cxs(old(self).context), 2)) && (okm(*final(self), 3) ==> x_sitem(x, cxs(old(self).context), 3))
  ens[C20]: r matches Ok(StmtListItem::Stmt(s)) ==> is_loop(s) == (sp_label_type(cur(*old(self))) is Iteration) || cur(*old(self)) is Identifier && nxt(*old(self)) is Colon
fn Parser::statement() -> r
  ens[C20]: r matches Ok(x) ==> XS(x, cxs(old(self).context), 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> XS(x, cxs(old(self).context), 1)) && (okm(*final(self), 2) ==> XS(x, cxs(old(self).context), 2)) && (okm(*final(self), 3) ==> XS(x, cxs(old(self).context), 3))
  ens[C20]: r matches Ok(s) ==> is_loop(s) == (sp_label_type(cur(*old(self))) is Iteration) || cur(*old(self)) is Identifier && nxt(*old(self)) is Colon
fn Parser::expression_statement() -> r
  ens[C20]: r matches Ok(x) ==> XS(x, cxs(old(self).context), 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> XS(x, cxs(old(self).context), 1)) && (okm(*final(self), 2) ==> XS(x, cxs(old(self).context), 2)) && (okm(*final(self), 3) ==> XS(x, cxs(old(self).context), 3))
  ens[C20]: r matches Ok(x) ==> !is_loop(x)
fn Parser::block() -> r
  ens[C20]: r matches Ok(x) ==> x_list(x.items@, cxs(old(self).context), 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> x_list(x.items@, cxs(old(self).context), 1)) && (okm(*final(self), 2) ==> x_list(x.items@, cxs(old(self).context), 2)) && (okm(*final(self), 3) ==> x_list(x.items@, cxs(old(self).context), 3))
fn Parser::var_statement() -> r
  ens[C20]: r matches Ok(x) ==> XS(x, cxs(old(self).context), 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> XS(x, cxs(old(self).context), 1)) && (okm(*final(self), 2) ==> XS(x, cxs(old(self).context), 2)) && (okm(*final(self), 3) ==> XS(x, cxs(old(self).context), 3))
  ens[C20]: r matches Ok(x) ==> !is_loop(x)
fn Parser::let_declaration(start) -> r
  ens[C20]: r matches Ok(x) ==> x_decl(x, 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> x_decl(x, 1)) && (okm(*final(self), 2) ==> x_decl(x, 2)) && (okm(*final(self), 3) ==> x_decl(x, 3))
fn Parser::const_declaration() -> r
  ens[C20]: r matches Ok(x) ==> x_decl(x, 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> x_decl(x, 1)) && (okm(*final(self), 2) ==> x_decl(x, 2)) && (okm(*final(self), 3) ==> x_decl(x, 3))
fn Parser::new_id_from_token(binding, token) -> r
  ens[C20]: r matches Ok(x) ==> x_id(x, binding, 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> x_id(x, binding, 1)) && (okm(*final(self), 2) ==> x_id(x, binding, 2)) && (okm(*final(self), 3) ==> x_id(x, binding, 3))
fn Parser::new_id(binding, name, location) -> r
  ens[C20]: r matches Err(e) ==> !jump_err(e)
  ens[C24]: r is Err ==> old(self).validate && (old(self).context.strict == Strict::Yes && sp_id_check(binding, norm(name), location) is Some && sp_id_check(binding, norm(name), location)->0 is Strict || old(self).goal == Goal::Module && sp_id_check(binding, norm(name), location) is Some && sp_id_check(binding, norm(name), location)->0 is Module)
  ens[C24]: r is Ok ==> final(self).deferred@ == (if put_off(*old(self), sp_id_check(binding, norm(name), location)) { old(self).deferred@.push(sp_id_check(binding, norm(name), location)->0) } else { old(self).deferred@ })
  ens[C20]: r matches Ok(x) ==> x_id(x, binding, 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> x_id(x, binding, 1)) && (okm(*final(self), 2) ==> x_id(x, binding, 2)) && (okm(*final(self), 3) ==> x_id(x, binding, 3))
fn Parser::id(binding) -> r
  ens[C20]: r matches Err(e) ==> !jump_err(e)
  ens[C20]: r matches Ok(x) ==> x_id(x, binding, 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> x_id(x, binding, 1)) && (okm(*final(self), 2) ==> x_id(x, binding, 2)) && (okm(*final(self), 3) ==> x_id(x, binding, 3))
fn Parser::id_opt(binding) -> r
  ens[C20]: r matches Ok(Some(x)) ==> x_id(x, binding, 0)
  ens[C24]: r matches Ok(Some(x)) ==> (okm(*final(self), 1) ==> x_id(x, binding, 1)) && (okm(*final(self), 2) ==> x_id(x, binding, 2)) && (okm(*final(self), 3) ==> x_id(x, binding, 3))
fn Parser::declarator() -> r
  ens[C20]: r matches Ok(x) ==> x_dtor(x, 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> x_dtor(x, 1)) && (okm(*final(self), 2) ==> x_dtor(x, 2)) && (okm(*final(self), 3) ==> x_dtor(x, 3))
fn Parser::const_declarator() -> r
  ens[C20]: r matches Ok(x) ==> x_cdtor(x, 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> x_cdtor(x, 1)) && (okm(*final(self), 2) ==> x_cdtor(x, 2)) && (okm(*final(self), 3) ==> x_cdtor(x, 3))
fn Parser::more_comma__declarator(first) -> r
  ens[C20]: (x_dtor(first, 0)) ==> (r matches Ok(x) ==> (x_dtors(x@, 0)))
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) && (x_dtor(first, 1)) ==> x_dtors(x@, 1)) && (okm(*final(self), 2) && (x_dtor(first, 2)) ==> x_dtors(x@, 2)) && (okm(*final(self), 3) && (x_dtor(first, 3)) ==> x_dtors(x@, 3))
  ghost: first0 = first
  loop 0
    inv[C20]: (x_dtor(first0, 0)) ==> (x_dtors(items@, 0))
    inv[C24]: (okm(*self, 1) && (x_dtor(first0, 1)) ==> x_dtors(items@, 1)) && (okm(*self, 2) && (x_dtor(first0, 2)) ==> x_dtors(items@, 2)) && (okm(*self, 3) && (x_dtor(first0, 3)) ==> x_dtors(items@, 3))
fn Parser::more_comma__const_declarator(first) -> r
  ens[C20]: (x_cdtor(first, 0)) ==> (r matches Ok(x) ==> (x_cdtors(x@, 0)))
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) && (x_cdtor(first, 1)) ==> x_cdtors(x@, 1)) && (okm(*final(self), 2) && (x_cdtor(first, 2)) ==> x_cdtors(x@, 2)) && (okm(*final(self), 3) && (x_cdtor(first, 3)) ==> x_cdtors(x@, 3))
  ghost: first0 = first
  loop 0
    inv[C20]: (x_cdtor(first0, 0)) ==> (x_cdtors(items@, 0))
    inv[C24]: (okm(*self, 1) && (x_cdtor(first0, 1)) ==> x_cdtors(items@, 1)) && (okm(*self, 2) && (x_cdtor(first0, 2)) ==> x_cdtors(items@, 2)) && (okm(*self, 3) && (x_cdtor(first0, 3)) ==> x_cdtors(items@, 3))
fn Parser::more_comma__assignment_expression(first) -> r
  ens[C20]: (XE(first, 0)) ==> (r matches Ok(x) ==> (x_exprs(x@, 0)))
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) && (XE(first, 1)) ==> x_exprs(x@, 1)) && (okm(*final(self), 2) && (XE(first, 2)) ==> x_exprs(x@, 2)) && (okm(*final(self), 3) && (XE(first, 3)) ==> x_exprs(x@, 3))
  ghost: first0 = first
  loop 0
    inv[C20]: (XE(first0, 0)) ==> (x_exprs(items@, 0))
    inv[C24]: (okm(*self, 1) && (XE(first0, 1)) ==> x_exprs(items@, 1)) && (okm(*self, 2) && (XE(first0, 2)) ==> x_exprs(items@, 2)) && (okm(*self, 3) && (XE(first0, 3)) ==> x_exprs(items@, 3))
fn Parser::comma_separated__declarator() -> r
  ens[C20]: r matches Ok(x) ==> x_dtors(x@, 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> x_dtors(x@, 1)) && (okm(*final(self), 2) ==> x_dtors(x@, 2)) && (okm(*final(self), 3) ==> x_dtors(x@, 3))
fn Parser::comma_separated__const_declarator() -> r
  ens[C20]: r matches Ok(x) ==> x_cdtors(x@, 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> x_cdtors(x@, 1)) && (okm(*final(self), 2) ==> x_cdtors(x@, 2)) && (okm(*final(self), 3) ==> x_cdtors(x@, 3))
fn Parser::empty_statement() -> r
  ens[C20]: r matches Ok(x) ==> XS(x, cxs(old(self).context), 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> XS(x, cxs(old(self).context), 1)) && (okm(*final(self), 2) ==> XS(x, cxs(old(self).context), 2)) && (okm(*final(self), 3) ==> XS(x, cxs(old(self).context), 3))
  ens[C20]: r matches Ok(x) ==> !is_loop(x)
fn Parser::if_statement() -> r
  ens[C20]: r matches Ok(x) ==> XS(x, cxs(old(self).context), 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> XS(x, cxs(old(self).context), 1)) && (okm(*final(self), 2) ==> XS(x, cxs(old(self).context), 2)) && (okm(*final(self), 3) ==> XS(x, cxs(old(self).context), 3))
  ens[C20]: r matches Ok(x) ==> !is_loop(x)
fn Parser::iteration_body() -> r
  ens[C20]: r matches Ok(x) ==> XS(x, cx_loop(cxs(old(self).context)), 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> XS(x, cx_loop(cxs(old(self).context)), 1)) && (okm(*final(self), 2) ==> XS(x, cx_loop(cxs(old(self).context)), 2)) && (okm(*final(self), 3) ==> XS(x, cx_loop(cxs(old(self).context)), 3))
fn Parser::do_statement() -> r
  ens[C20]: r matches Ok(x) ==> XS(x, cxs(old(self).context), 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> XS(x, cxs(old(self).context), 1)) && (okm(*final(self), 2) ==> XS(x, cxs(old(self).context), 2)) && (okm(*final(self), 3) ==> XS(x, cxs(old(self).context), 3))
  ens[C20]: r matches Ok(x) ==> is_loop(x)
fn Parser::while_statement() -> r
  ens[C20]: r matches Ok(x) ==> XS(x, cxs(old(self).context), 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> XS(x, cxs(old(self).context), 1)) && (okm(*final(self), 2) ==> XS(x, cxs(old(self).context), 2)) && (okm(*final(self), 3) ==> XS(x, cxs(old(self).context), 3))
  ens[C20]: r matches Ok(x) ==> is_loop(x)
fn Parser::for_statement() -> r
  ens[C20]: r matches Ok(x) ==> XS(x, cxs(old(self).context), 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> XS(x, cxs(old(self).context), 1)) && (okm(*final(self), 2) ==> XS(x, cxs(old(self).context), 2)) && (okm(*final(self), 3) ==> XS(x, cxs(old(self).context), 3))
  ens[C20]: r matches Ok(x) ==> is_loop(x)
fn Parser::for_var() -> r
  ens[C20]: r matches Ok(x) ==> XS(x, cxs(old(self).context), 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> XS(x, cxs(old(self).context), 1)) && (okm(*final(self), 2) ==> XS(x, cxs(old(self).context), 2)) && (okm(*final(self), 3) ==> XS(x, cxs(old(self).context), 3))
  ens[C20]: r matches Ok(x) ==> is_loop(x)
fn Parser::for_let() -> r
  ens[C20]: r matches Ok(x) ==> XS(x, cxs(old(self).context), 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> XS(x, cxs(old(self).context), 1)) && (okm(*final(self), 2) ==> XS(x, cxs(old(self).context), 2)) && (okm(*final(self), 3) ==> XS(x, cxs(old(self).context), 3))
  ens[C20]: r matches Ok(x) ==> is_loop(x)
fn Parser::for_const() -> r
  ens[C20]: r matches Ok(x) ==> XS(x, cxs(old(self).context), 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> XS(x, cxs(old(self).context), 1)) && (okm(*final(self), 2) ==> XS(x, cxs(old(self).context), 2)) && (okm(*final(self), 3) ==> XS(x, cxs(old(self).context), 3))
  ens[C20]: r matches Ok(x) ==> is_loop(x)
fn Parser::for_expr() -> r
  ens[C20]: r matches Ok(x) ==> XS(x, cxs(old(self).context), 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> XS(x, cxs(old(self).context), 1)) && (okm(*final(self), 2) ==> XS(x, cxs(old(self).context), 2)) && (okm(*final(self), 3) ==> XS(x, cxs(old(self).context), 3))
  ens[C20]: r matches Ok(x) ==> is_loop(x)
fn Parser::more_for_head__ForHead_Var(start, dtor) -> r
  ens[C20]: (x_dtor(dtor, 0)) ==> (r matches Ok(x) ==> (XS(x, cxs(old(self).context), 0)))
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) && (x_dtor(dtor, 1)) ==> XS(x, cxs(old(self).context), 1)) && (okm(*final(self), 2) && (x_dtor(dtor, 2)) ==> XS(x, cxs(old(self).context), 2)) && (okm(*final(self), 3) && (x_dtor(dtor, 3)) ==> XS(x, cxs(old(self).context), 3))
  ens[C20]: r matches Ok(x) ==> is_loop(x)
fn Parser::more_for_head__ForHead_Let(start, dtor) -> r
  ens[C20]: (x_dtor(dtor, 0)) ==> (r matches Ok(x) ==> (XS(x, cxs(old(self).context), 0)))
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) && (x_dtor(dtor, 1)) ==> XS(x, cxs(old(self).context), 1)) && (okm(*final(self), 2) && (x_dtor(dtor, 2)) ==> XS(x, cxs(old(self).context), 2)) && (okm(*final(self), 3) && (x_dtor(dtor, 3)) ==> XS(x, cxs(old(self).context), 3))
  ens[C20]: r matches Ok(x) ==> is_loop(x)
fn Parser::more_for(head) -> r
  ens[C20]: (x_ofor(head, 0)) ==> (r matches Ok(x) ==> (XS(x, cxs(old(self).context), 0)))
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) && (x_ofor(head, 1)) ==> XS(x, cxs(old(self).context), 1)) && (okm(*final(self), 2) && (x_ofor(head, 2)) ==> XS(x, cxs(old(self).context), 2)) && (okm(*final(self), 3) && (x_ofor(head, 3)) ==> XS(x, cxs(old(self).context), 3))
  ens[C20]: r matches Ok(x) ==> is_loop(x)
fn Parser::more_for_in(head) -> r
  ens[C20]: (x_ihead(*head, 0)) ==> (r matches Ok(x) ==> (XS(x, cxs(old(self).context), 0)))
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) && (x_ihead(*head, 1)) ==> XS(x, cxs(old(self).context), 1)) && (okm(*final(self), 2) && (x_ihead(*head, 2)) ==> XS(x, cxs(old(self).context), 2)) && (okm(*final(self), 3) && (x_ihead(*head, 3)) ==> XS(x, cxs(old(self).context), 3))
  ens[C20]: r matches Ok(x) ==> is_loop(x)
fn Parser::more_for_of(head) -> r
  ens[C20]: (x_ohead(*head, 0)) ==> (r matches Ok(x) ==> (XS(x, cxs(old(self).context), 0)))
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) && (x_ohead(*head, 1)) ==> XS(x, cxs(old(self).context), 1)) && (okm(*final(self), 2) && (x_ohead(*head, 2)) ==> XS(x, cxs(old(self).context), 2)) && (okm(*final(self), 3) && (x_ohead(*head, 3)) ==> XS(x, cxs(old(self).context), 3))
  ens[C20]: r matches Ok(x) ==> is_loop(x)
fn Parser::expression_opt_semi() -> r
  ens[C20]: r matches Ok(Some(x)) ==> XE(x, 0)
  ens[C24]: r matches Ok(Some(x)) ==> (okm(*final(self), 1) ==> XE(x, 1)) && (okm(*final(self), 2) ==> XE(x, 2)) && (okm(*final(self), 3) ==> XE(x, 3))
fn Parser::switch_statement() -> r
  ens[C20]: r matches Ok(x) ==> XS(x, cxs(old(self).context), 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> XS(x, cxs(old(self).context), 1)) && (okm(*final(self), 2) ==> XS(x, cxs(old(self).context), 2)) && (okm(*final(self), 3) ==> XS(x, cxs(old(self).context), 3))
  ens[C20]: r matches Ok(x) ==> !is_loop(x)
fn Parser::switch_cases() -> r
  ens[C20]: r matches Ok(x) ==> x_cases(x@, cxs(old(self).context), 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> x_cases(x@, cxs(old(self).context), 1)) && (okm(*final(self), 2) ==> x_cases(x@, cxs(old(self).context), 2)) && (okm(*final(self), 3) ==> x_cases(x@, cxs(old(self).context), 3))
  ens[C20]: r matches Ok(x) ==> one_default(x@)
  loop 0
    inv[C20]: x_cases(cases@, cxs(old(self).context), 0)
    inv[C24]: (okm(*self, 1) ==> x_cases(cases@, cxs(old(self).context), 1)) && (okm(*self, 2) ==> x_cases(cases@, cxs(old(self).context), 2)) && (okm(*self, 3) ==> x_cases(cases@, cxs(old(self).context), 3))
    inv[C20]: one_default(cases@) && (!found_default ==> forall|i: int| 0 <= i < cases@.len() ==> (#[trigger] cases@[i]).test is Some)
fn Parser::case() -> r
  ens[C20]: r matches Ok(x) ==> x_case(x, cxs(old(self).context), 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> x_case(x, cxs(old(self).context), 1)) && (okm(*final(self), 2) ==> x_case(x, cxs(old(self).context), 2)) && (okm(*final(self), 3) ==> x_case(x, cxs(old(self).context), 3))
  ens[C20]: r matches Ok(x) ==> x.test is Some
fn Parser::default() -> r
  ens[C20]: r matches Ok(x) ==> x_case(x, cxs(old(self).context), 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> x_case(x, cxs(old(self).context), 1)) && (okm(*final(self), 2) ==> x_case(x, cxs(old(self).context), 2)) && (okm(*final(self), 3) ==> x_case(x, cxs(old(self).context), 3))
  ens[C20]: r matches Ok(x) ==> x.test is None
fn Parser::break_statement() -> r
  ens[C20]: r matches Ok(x) ==> XS(x, cxs(old(self).context), 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> XS(x, cxs(old(self).context), 1)) && (okm(*final(self), 2) ==> XS(x, cxs(old(self).context), 2)) && (okm(*final(self), 3) ==> XS(x, cxs(old(self).context), 3))
  ens[C20]: r matches Ok(x) ==> !is_loop(x)
  ens[C20]: r matches Err(Error::IllegalBreak(_)) ==> !old(self).context.iteration && !old(self).context.switch
  ens[C20]: r matches Err(Error::InvalidLabel(id)) ==> !old(self).context.labels@.contains_key(id.name)
  ens[C20]: !(r matches Err(Error::InvalidLabelType(_)))
fn Parser::continue_statement() -> r
  ens[C20]: r matches Ok(x) ==> XS(x, cxs(old(self).context), 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> XS(x, cxs(old(self).context), 1)) && (okm(*final(self), 2) ==> XS(x, cxs(old(self).context), 2)) && (okm(*final(self), 3) ==> XS(x, cxs(old(self).context), 3))
  ens[C20]: r matches Ok(x) ==> !is_loop(x)
  ens[C20]: r matches Err(Error::IllegalContinue(_)) ==> !old(self).context.iteration
  ens[C20]: r matches Err(Error::InvalidLabel(id)) ==> !old(self).context.labels@.contains_key(id.name)
  ens[C20]: r matches Err(Error::InvalidLabelType(id)) ==> old(self).context.labels@.contains_key(id.name) && old(self).context.labels@[id.name] == LabelType::Statement
fn Parser::return_statement() -> r
  ens[C20]: r matches Ok(x) ==> XS(x, cxs(old(self).context), 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> XS(x, cxs(old(self).context), 1)) && (okm(*final(self), 2) ==> XS(x, cxs(old(self).context), 2)) && (okm(*final(self), 3) ==> XS(x, cxs(old(self).context), 3))
  ens[C20]: r matches Ok(x) ==> !is_loop(x)
fn Parser::with_statement() -> r
  ens[C20]: r matches Ok(x) ==> XS(x, cxs(old(self).context), 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> XS(x, cxs(old(self).context), 1)) && (okm(*final(self), 2) ==> XS(x, cxs(old(self).context), 2)) && (okm(*final(self), 3) ==> XS(x, cxs(old(self).context), 3))
  ens[C20]: r matches Ok(x) ==> !is_loop(x)
fn Parser::throw_statement() -> r
  ens[C20]: r matches Ok(x) ==> XS(x, cxs(old(self).context), 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> XS(x, cxs(old(self).context), 1)) && (okm(*final(self), 2) ==> XS(x, cxs(old(self).context), 2)) && (okm(*final(self), 3) ==> XS(x, cxs(old(self).context), 3))
  ens[C20]: r matches Ok(x) ==> !is_loop(x)
fn Parser::try_statement() -> r
  ens[C20]: r matches Ok(x) ==> XS(x, cxs(old(self).context), 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> XS(x, cxs(old(self).context), 1)) && (okm(*final(self), 2) ==> XS(x, cxs(old(self).context), 2)) && (okm(*final(self), 3) ==> XS(x, cxs(old(self).context), 3))
  ens[C20]: r matches Ok(x) ==> !is_loop(x)
fn Parser::catch_opt() -> r
  ens[C20]: r matches Ok(Some(x)) ==> x_catch(x, cxs(old(self).context), 0)
  ens[C24]: r matches Ok(Some(x)) ==> (okm(*final(self), 1) ==> x_catch(x, cxs(old(self).context), 1)) && (okm(*final(self), 2) ==> x_catch(x, cxs(old(self).context), 2)) && (okm(*final(self), 3) ==> x_catch(x, cxs(old(self).context), 3))
fn Parser::finally_opt() -> r
  ens[C20]: r matches Ok(Some(x)) ==> x_list(x.items@, cxs(old(self).context), 0)
  ens[C24]: r matches Ok(Some(x)) ==> (okm(*final(self), 1) ==> x_list(x.items@, cxs(old(self).context), 1)) && (okm(*final(self), 2) ==> x_list(x.items@, cxs(old(self).context), 2)) && (okm(*final(self), 3) ==> x_list(x.items@, cxs(old(self).context), 3))
fn Parser::debugger_statement() -> r
  ens[C20]: r matches Ok(x) ==> XS(x, cxs(old(self).context), 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> XS(x, cxs(old(self).context), 1)) && (okm(*final(self), 2) ==> XS(x, cxs(old(self).context), 2)) && (okm(*final(self), 3) ==> XS(x, cxs(old(self).context), 3))
  ens[C20]: r matches Ok(x) ==> !is_loop(x)
fn Parser::labelled_statement(id) -> r
  use: labs_rev_up, labs_rnew_up
  ens[C20]: (x_id(id, false, 0)) ==> (r matches Ok(x) ==> (XS(x, cxs(old(self).context), 0)))
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) && (x_id(id, false, 1)) ==> XS(x, cxs(old(self).context), 1)) && (okm(*final(self), 2) && (x_id(id, false, 2)) ==> XS(x, cxs(old(self).context), 2)) && (okm(*final(self), 3) && (x_id(id, false, 3)) ==> XS(x, cxs(old(self).context), 3))
  ghost: id0 = id
  loop 0
    inv[C20]: (x_id(id0, false, 0)) ==> (x_labels(labels@, 0))
    inv[C24]: (okm(*self, 1) && (x_id(id0, false, 1)) ==> x_labels(labels@, 1)) && (okm(*self, 2) && (x_id(id0, false, 2)) ==> x_labels(labels@, 2)) && (okm(*self, 3) && (x_id(id0, false, 3)) ==> x_labels(labels@, 3))
    ens[C20]: !(cur(*self) is Identifier && nxt(*self) is Colon)
  loop 1
    inv[C20]: (x_id(id0, false, 0)) ==> (x_labels(labels__h@, 0))
    inv[C24]: (okm(*self, 1) && (x_id(id0, false, 1)) ==> x_labels(labels__h@, 1)) && (okm(*self, 2) && (x_id(id0, false, 2)) ==> x_labels(labels__h@, 2)) && (okm(*self, 3) && (x_id(id0, false, 3)) ==> x_labels(labels__h@, 3))
    inv[C20,C24]: cxs(self.context) == cx_labs(cxs(old(self).context), labels__h@, vp_i0 as int, label_type__h)
    inv[C20,C24]: labs_new(old(self).context.labels@, labels__h@, vp_i0 as int, label_type__h) && vp_i0 <= labels__h@.len()
    inv[C20,C24]: !(cur(*self) is Identifier && nxt(*self) is Colon) && label_type__h == sp_label_type(cur(*self))
  loop 2
    inv[C20]: result is Ok ==> (x_id(id0, false, 0)) ==> (x_labels(labels__h@, 0) && XS(result->Ok_0, cx_labs(cxs(old(self).context), labels__h@, labels__h@.len() as int, label_type__h), 0))
    inv[C24]: result is Ok ==> (okm(*self, 1) && (x_id(id0, false, 1)) ==> x_labels(labels__h@, 1) && XS(result->Ok_0, cx_labs(cxs(old(self).context), labels__h@, labels__h@.len() as int, label_type__h), 1)) && (okm(*self, 2) && (x_id(id0, false, 2)) ==> x_labels(labels__h@, 2) && XS(result->Ok_0, cx_labs(cxs(old(self).context), labels__h@, labels__h@.len() as int, label_type__h), 2)) && (okm(*self, 3) && (x_id(id0, false, 3)) ==> x_labels(labels__h@, 3) && XS(result->Ok_0, cx_labs(cxs(old(self).context), labels__h@, labels__h@.len() as int, label_type__h), 3))
    inv[C20,C24]: labs_new(old(self).context.labels@, labels__h@, labels__h@.len() as int, label_type__h)
    inv[C20,C24]: result is Ok ==> lab_type(result->Ok_0) == label_type__h
  loop 3
    inv[C20]: (x_id(id0, false, 0)) ==> (x_labels(vp_it2@, 0) && XS(body, cx_lrev(cxs(old(self).context), vp_it2@, label_type__h), 0))
    inv[C24]: (okm(*self, 1) && (x_id(id0, false, 1)) ==> x_labels(vp_it2@, 1) && XS(body, cx_lrev(cxs(old(self).context), vp_it2@, label_type__h), 1)) && (okm(*self, 2) && (x_id(id0, false, 2)) ==> x_labels(vp_it2@, 2) && XS(body, cx_lrev(cxs(old(self).context), vp_it2@, label_type__h), 2)) && (okm(*self, 3) && (x_id(id0, false, 3)) ==> x_labels(vp_it2@, 3) && XS(body, cx_lrev(cxs(old(self).context), vp_it2@, label_type__h), 3))
    inv[C20,C24]: labs_rnew(old(self).context.labels@, vp_it2@, label_type__h)
    inv[C20,C24]: lab_type(body) == label_type__h
    ens[C20,C24]: vp_it2@.len() == 0
fn Parser::paren_expression() -> r
  ens[C20]: r matches Ok(x) ==> XE(x, 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> XE(x, 1)) && (okm(*final(self), 2) ==> XE(x, 2)) && (okm(*final(self), 3) ==> XE(x, 3))
fn Parser::primary_expression() -> r
  ens[C20]: r matches Ok(x) ==> XE(x, 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> XE(x, 1)) && (okm(*final(self), 2) ==> XE(x, 2)) && (okm(*final(self), 3) ==> XE(x, 3))
fn Parser::member_base_expression() -> r
  ens[C20]: r matches Ok(x) ==> XE(x, 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> XE(x, 1)) && (okm(*final(self), 2) ==> XE(x, 2)) && (okm(*final(self), 3) ==> XE(x, 3))
fn Parser::call_expression() -> r
  ens[C20]: r matches Ok(x) ==> XE(x, 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> XE(x, 1)) && (okm(*final(self), 2) ==> XE(x, 2)) && (okm(*final(self), 3) ==> XE(x, 3))
fn Parser::lhs_expression() -> r
  ens[C20]: r matches Ok(x) ==> XE(x, 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> XE(x, 1)) && (okm(*final(self), 2) ==> XE(x, 2)) && (okm(*final(self), 3) ==> XE(x, 3))
fn Parser::conditional_expression() -> r
  ens[C20]: r matches Ok(x) ==> XE(x, 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> XE(x, 1)) && (okm(*final(self), 2) ==> XE(x, 2)) && (okm(*final(self), 3) ==> XE(x, 3))
fn Parser::assignment_expression() -> r
  ens[C20]: r matches Ok(x) ==> XE(x, 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> XE(x, 1)) && (okm(*final(self), 2) ==> XE(x, 2)) && (okm(*final(self), 3) ==> XE(x, 3))
fn Parser::expression() -> r
  ens[C20]: r matches Ok(x) ==> XE(x, 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> XE(x, 1)) && (okm(*final(self), 2) ==> XE(x, 2)) && (okm(*final(self), 3) ==> XE(x, 3))
fn Parser::unary_expression() -> r
  ens[C20]: r matches Ok(x) ==> XE(x, 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> XE(x, 1)) && (okm(*final(self), 2) ==> XE(x, 2)) && (okm(*final(self), 3) ==> XE(x, 3))
  loop 1
    inv[C20]: XE(arg, 0)
    inv[C24]: (okm(*self, 1) ==> XE(arg, 1)) && (okm(*self, 2) ==> XE(arg, 2)) && (okm(*self, 3) ==> XE(arg, 3))
fn Parser::array_literal(start) -> r
  ens[C20]: r matches Ok(x) ==> XE(x, 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> XE(x, 1)) && (okm(*final(self), 2) ==> XE(x, 2)) && (okm(*final(self), 3) ==> XE(x, 3))
fn Parser::array_literal__c0(start) -> r
  ens[C20]: r matches Ok(x) ==> XE(x, 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> XE(x, 1)) && (okm(*final(self), 2) ==> XE(x, 2)) && (okm(*final(self), 3) ==> XE(x, 3))
  loop 0
    inv[C20]: x_elts(elts@, 0)
    inv[C24]: (okm(*self, 1) ==> x_elts(elts@, 1)) && (okm(*self, 2) ==> x_elts(elts@, 2)) && (okm(*self, 3) ==> x_elts(elts@, 3))
fn Parser::expr_list_item() -> r
  ens[C20]: r matches Ok(x) ==> x_item(x, 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> x_item(x, 1)) && (okm(*final(self), 2) ==> x_item(x, 2)) && (okm(*final(self), 3) ==> x_item(x, 3))
fn Parser::array_element() -> r
  ens[C20]: r matches Ok(x) ==> x_elt(x, 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> x_elt(x, 1)) && (okm(*final(self), 2) ==> x_elt(x, 2)) && (okm(*final(self), 3) ==> x_elt(x, 3))
fn Parser::object_literal(start) -> r
  ens[C20]: r matches Ok(x) ==> XE(x, 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> XE(x, 1)) && (okm(*final(self), 2) ==> XE(x, 2)) && (okm(*final(self), 3) ==> XE(x, 3))
  loop 0
    inv[C20]: x_props(props@, 0)
    inv[C24]: (okm(*self, 1) ==> x_props(props@, 1)) && (okm(*self, 2) ==> x_props(props@, 2)) && (okm(*self, 3) ==> x_props(props@, 3))
fn Parser::more_prop_init(key) -> r
  ens[C20]: r matches Ok(x) ==> x_prop(x, 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> x_prop(x, 1)) && (okm(*final(self), 2) ==> x_prop(x, 2)) && (okm(*final(self), 3) ==> x_prop(x, 3))
fn Parser::object_property() -> r
  ens[C20]: r matches Ok(x) ==> x_prop(x, 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> x_prop(x, 1)) && (okm(*final(self), 2) ==> x_prop(x, 2)) && (okm(*final(self), 3) ==> x_prop(x, 3))
fn Parser::new_expression(news) -> r
  ens[C20]: r matches Ok(x) ==> XE(x, 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> XE(x, 1)) && (okm(*final(self), 2) ==> XE(x, 2)) && (okm(*final(self), 3) ==> XE(x, 3))
fn Parser::more_derefs(base) -> r
  ens[C20]: (XE(base, 0)) ==> (r matches Ok(x) ==> (XE(x, 0)))
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) && (XE(base, 1)) ==> XE(x, 1)) && (okm(*final(self), 2) && (XE(base, 2)) ==> XE(x, 2)) && (okm(*final(self), 3) && (XE(base, 3)) ==> XE(x, 3))
  ghost: base0 = base
  loop 0
    inv[C20]: (XE(base0, 0)) ==> (XE(base, 0))
    inv[C24]: (okm(*self, 1) && (XE(base0, 1)) ==> XE(base, 1)) && (okm(*self, 2) && (XE(base0, 2)) ==> XE(base, 2)) && (okm(*self, 3) && (XE(base0, 3)) ==> XE(base, 3))
fn Parser::more_suffixes(result) -> r
  ens[C20]: (XE(result, 0)) ==> (r matches Ok(x) ==> (XE(x, 0)))
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) && (XE(result, 1)) ==> XE(x, 1)) && (okm(*final(self), 2) && (XE(result, 2)) ==> XE(x, 2)) && (okm(*final(self), 3) && (XE(result, 3)) ==> XE(x, 3))
  ghost: result0 = result
  loop 0
    inv[C20]: (XE(result0, 0)) ==> (XE(result, 0))
    inv[C24]: (okm(*self, 1) && (XE(result0, 1)) ==> XE(result, 1)) && (okm(*self, 2) && (XE(result0, 2)) ==> XE(result, 2)) && (okm(*self, 3) && (XE(result0, 3)) ==> XE(result, 3))
fn Parser::more_new_expression(news, base) -> r
  ens[C20]: (XE(base, 0)) ==> (r matches Ok(x) ==> (XE(x, 0)))
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) && (XE(base, 1)) ==> XE(x, 1)) && (okm(*final(self), 2) && (XE(base, 2)) ==> XE(x, 2)) && (okm(*final(self), 3) && (XE(base, 3)) ==> XE(x, 3))
  ghost: base0 = base
  loop 0
    inv[C20]: (XE(base0, 0)) ==> (XE(base, 0))
    inv[C24]: (okm(*self, 1) && (XE(base0, 1)) ==> XE(base, 1)) && (okm(*self, 2) && (XE(base0, 2)) ==> XE(base, 2)) && (okm(*self, 3) && (XE(base0, 3)) ==> XE(base, 3))
fn Parser::suffix_opt() -> r
  ens[C20]: r matches Ok(Some(x)) ==> x_suffix(x, 0)
  ens[C24]: r matches Ok(Some(x)) ==> (okm(*final(self), 1) ==> x_suffix(x, 1)) && (okm(*final(self), 2) ==> x_suffix(x, 2)) && (okm(*final(self), 3) ==> x_suffix(x, 3))
fn Parser::deref_opt() -> r
  ens[C20]: r matches Ok(Some(x)) ==> x_deref(x, 0)
  ens[C24]: r matches Ok(Some(x)) ==> (okm(*final(self), 1) ==> x_deref(x, 1)) && (okm(*final(self), 2) ==> x_deref(x, 2)) && (okm(*final(self), 3) ==> x_deref(x, 3))
fn Parser::deref_brack() -> r
  ens[C20]: r matches Ok(x) ==> x_deref(x, 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> x_deref(x, 1)) && (okm(*final(self), 2) ==> x_deref(x, 2)) && (okm(*final(self), 3) ==> x_deref(x, 3))
fn Parser::deref_dot() -> r
  ens[C20]: r matches Ok(x) ==> x_deref(x, 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> x_deref(x, 1)) && (okm(*final(self), 2) ==> x_deref(x, 2)) && (okm(*final(self), 3) ==> x_deref(x, 3))
fn Parser::arguments() -> r
  ens[C20]: r matches Ok(x) ==> x_items(x.args@, 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> x_items(x.args@, 1)) && (okm(*final(self), 2) ==> x_items(x.args@, 2)) && (okm(*final(self), 3) ==> x_items(x.args@, 3))
fn Parser::arguments__c0() -> r
  ens[C20]: r matches Ok(x) ==> x_items(x.args@, 0)
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) ==> x_items(x.args@, 1)) && (okm(*final(self), 2) ==> x_items(x.args@, 2)) && (okm(*final(self), 3) ==> x_items(x.args@, 3))
  loop 0
    inv[C20]: x_items(args@, 0)
    inv[C24]: (okm(*self, 1) ==> x_items(args@, 1)) && (okm(*self, 2) ==> x_items(args@, 2)) && (okm(*self, 3) ==> x_items(args@, 3))
fn Parser::more_conditional(left) -> r
  ens[C20]: (XE(left, 0)) ==> (r matches Ok(x) ==> (XE(x, 0)))
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) && (XE(left, 1)) ==> XE(x, 1)) && (okm(*final(self), 2) && (XE(left, 2)) ==> XE(x, 2)) && (okm(*final(self), 3) && (XE(left, 3)) ==> XE(x, 3))
fn Parser::more_assignment(left) -> r
  ens[C20]: (XE(left, 0)) ==> (r matches Ok(x) ==> (XE(x, 0)))
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) && (XE(left, 1)) ==> XE(x, 1)) && (okm(*final(self), 2) && (XE(left, 2)) ==> XE(x, 2)) && (okm(*final(self), 3) && (XE(left, 3)) ==> XE(x, 3))
fn Parser::more_infix_expressions(left) -> r
  ens[C20]: (XE(left, 0)) ==> (r matches Ok(x) ==> (XE(x, 0)))
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) && (XE(left, 1)) ==> XE(x, 1)) && (okm(*final(self), 2) && (XE(left, 2)) ==> XE(x, 2)) && (okm(*final(self), 3) && (XE(left, 3)) ==> XE(x, 3))
  loop 0
    inv[C20]: (XE(left, 0)) ==> (XE(operand, 0) && all_frames(stack.frames@, 0))
    inv[C24]: (okm(*self, 1) && (XE(left, 1)) ==> XE(operand, 1) && all_frames(stack.frames@, 1)) && (okm(*self, 2) && (XE(left, 2)) ==> XE(operand, 2) && all_frames(stack.frames@, 2)) && (okm(*self, 3) && (XE(left, 3)) ==> XE(operand, 3) && all_frames(stack.frames@, 3))
fn Parser::more_expressions(first) -> r
  ens[C20]: (XE(first, 0)) ==> (r matches Ok(x) ==> (XE(x, 0)))
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) && (XE(first, 1)) ==> XE(x, 1)) && (okm(*final(self), 2) && (XE(first, 2)) ==> XE(x, 2)) && (okm(*final(self), 3) && (XE(first, 3)) ==> XE(x, 3))
fn Parser::for_const__c0(lhs) -> r
  ens[C20]: (x_patt(lhs, 0)) ==> (r matches Ok(x) ==> (x_cdtors(x@, 0)))
  ens[C24]: r matches Ok(x) ==> (okm(*final(self), 1) && (x_patt(lhs, 1)) ==> x_cdtors(x@, 1)) && (okm(*final(self), 2) && (x_patt(lhs, 2)) ==> x_cdtors(x@, 2)) && (okm(*final(self), 3) && (x_patt(lhs, 3)) ==> x_cdtors(x@, 3))
fn Parser:State::skip() -> r
  ens[C20]: r matches Err(e) ==> !jump_err(e)
fn Parser:State::read() -> r
  ens[C20]: r matches Err(e) ==> !jump_err(e)
fn Parser:State::read_op() -> r
  ens[C20]: r matches Err(e) ==> !jump_err(e)
fn Parser:State::peek() -> r
  ens[C20]: r matches Err(e) ==> !jump_err(e)
fn Parser:State::peek_op() -> r
  ens[C20]: r matches Err(e) ==> !jump_err(e)
fn Parser:State::has_arg_same_line() -> r
  ens[C20]: r matches Err(e) ==> !jump_err(e)
fn script(s) -> r
  ens[C20]: r matches Ok(x) ==> top_ok(x, 0)
  ens[C24]: r matches Ok(x) ==> top_ok(x, 3)
fn strict(s) -> r
  ens[C20]: r matches Ok(x) ==> top_ok(x, 0)
  ens[C24]: r matches Ok(x) ==> top_ok(x, 1) && top_ok(x, 3)
fn module(s) -> r
  ens[C20]: r matches Ok(x) ==> x_mlist(x.items@, 0)
  ens[C24]: r matches Ok(x) ==> x_mlist(x.items@, 2)
fn program(s) -> r
  ens[C20]: r matches Ok(x) ==> (x matches Program::Ambiguous(_, s) && top_ok(s, 0))
  ens[C24]: r matches Ok(x) ==> (x matches Program::Ambiguous(c, s) && top_ok(s, 3) && (no_strict(c@) ==> top_ok(s, 1)) && (c@.len() == 0 ==> top_ok(s, 2)))
