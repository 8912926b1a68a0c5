# The tree is a derivation of the tokens (C19), and so operators have the operands the
# source gives them (C18).  Layered on esprit.vc; the productions are in esprit_tree_spec.rs.

# ------------------------------------------------------------ small parts
fn Deref::append_to(expr) -> r
  ens[C19]: self matches Deref::Brack(x, _) ==> (r matches Expr::Brack(_, o, y) && *o == expr && *y == x)
  ens[C19]: self matches Deref::Dot(k) ==> (r matches Expr::Dot(_, o, y) && *o == expr && y == k)
fn Arguments::append_to(expr) -> r
  ens[C19]: r matches Expr::Call(_, o, a) && *o == expr && a == self.args
fn Arguments::append_to_new(new, expr) -> r
  ens[C19]: r matches Expr::New(_, o, Some(a)) && *o == expr && a == self.args
fn Suffix::append_to(expr) -> r
  ens[C19]: self matches Suffix::Deref(Deref::Brack(x, _)) ==> (r matches Expr::Brack(_, o, y) && *o == expr && *y == x)
  ens[C19]: self matches Suffix::Deref(Deref::Dot(k)) ==> (r matches Expr::Dot(_, o, y) && *o == expr && y == k)
  ens[C19]: self matches Suffix::Arguments(x) ==> (r matches Expr::Call(_, o, a) && *o == expr && a == x.args)

# ------------------------------------------------------------ entry points
fn Program::script() -> r
  ens[C19]: self matches Program::Ambiguous(_, s) ==> r == Ok::<Script, Error>(s)
fn Program::strict() -> r
  ens[C19]: r is Ok ==> (self matches Program::Ambiguous(_, s) && r == Ok::<Script, Error>(s))
fn Program::module() -> r
  ens[C19]: self matches Program::Ambiguous(_, s) ==> (r matches Ok(m) ==> m.dirs == s.dirs && is_mod(s.items@, m.items@))
  ens[C19]: self matches Program::Module(m) ==> r == Ok::<Module, Error>(m)
  loop 0
    inv[C19]: self is Ambiguous
  loop 1
    inv[C19]: vp_it1@.len() <= self->Ambiguous_1.items@.len() && vp_it1@ =~= self->Ambiguous_1.items@.skip(self->Ambiguous_1.items@.len() - vp_it1@.len())
    inv[C19]: is_mod(self->Ambiguous_1.items@.take(self->Ambiguous_1.items@.len() - vp_it1@.len()), vp_o0@)
    ens[C19]: vp_it1@.len() == 0
fn Parser::module() -> r
  ens[C19]: r matches Ok(m) ==> whole_module(*old(self), m)
fn Parser::program() -> r
  ens[C19]: r matches Ok(Program::Ambiguous(_, s)) ==> whole_script(*old(self), s)
  ens[C19]: r matches Ok(Program::Module(m)) ==> whole_module(*old(self), m)
fn Parser::script(strict) -> r
  ens[C19]: r matches Ok(s) ==> whole_script(*old(self), s)
fn Parser::script_body() -> r
  req[C19]: old(self).context.allow_in
  ens[C19]: r matches Ok(s) ==> script_at(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), s)
fn Parser::match_directive_opt() -> r
  ens[C19]: r matches Ok(Some(d)) ==> dir_(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), d)
  ens[C19]: r matches Ok(None) ==> !dir_like(old(self).lexer.h(), old(self).lexer.pos())
fn Parser::body_directives() -> r
  use: dirs_nil, dirs_push
  ens[C19]: r matches Ok(s) ==> dirs_s(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), s@) && !dir_like(old(self).lexer.h(), final(self).lexer.pos())
  loop 0
    inv[C19]: dirs_s(old(self).lexer.h(), old(self).lexer.pos(), self.lexer.pos(), dirs@)
    ens[C19]: !dir_like(old(self).lexer.h(), self.lexer.pos())
fn Parser::program_items() -> r
  use: items_nil, items_push
  req[C19]: old(self).context.allow_in
  ens[C19]: r matches Ok(ProgramItems::Script(s)) ==> items_s(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), s@) && cur(*final(self)) is EOF
  ens[C19]: !(r matches Ok(ProgramItems::Module(_)))
  loop 0
    inv[C19]: old(self).context.allow_in
    inv[C19]: items_s(old(self).lexer.h(), old(self).lexer.pos(), self.lexer.pos(), stmts@)
    ens[C19]: cur(*self) is EOF
fn Parser::module_items() -> r
  req[C19]: old(self).context.allow_in
  ens[C19]: r matches Ok(s) ==> mitems_s(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), s@) && cur(*final(self)) is EOF
fn Parser::more_module_items(items) -> r
  entry: assert(items@.len() == 0 ==> mitems_s(old(self).lexer.h(), old(self).lexer.pos(), old(self).lexer.pos(), items@));
  ens[C19]: items@.len() == 0 ==> (r matches Ok(s) ==> mitems_s(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), s@) && cur(*final(self)) is EOF)
  ghost: items0 = items
  use: mitems_nil, mitems_push
  req[C19]: old(self).context.allow_in
  ens[C19]: cur(*old(self)) == resv(Reserved::Import) || cur(*old(self)) == resv(Reserved::Export) ==> r is Err
  ens[C19]: forall|a: int| #[trigger] mitems_s(old(self).lexer.h(), a, old(self).lexer.pos(), items@) ==> (r matches Ok(s) ==> mitems_s(old(self).lexer.h(), a, final(self).lexer.pos(), s@) && cur(*final(self)) is EOF)
  loop 0
    inv[C19]: old(self).context.allow_in
    inv[C19]: forall|a: int| #[trigger] mitems_s(old(self).lexer.h(), a, old(self).lexer.pos(), items0@) ==> mitems_s(old(self).lexer.h(), a, self.lexer.pos(), items@)
    inv[C19]: cur(*old(self)) == resv(Reserved::Import) || cur(*old(self)) == resv(Reserved::Export) ==> self.lexer.pos() == old(self).lexer.pos()
    ens[C19]: cur(*self) is EOF
fn Parser::statement_list() -> r
  use: items_nil, items_push
  req[C19]: old(self).context.allow_in
  ens[C19]: r matches Ok(s) ==> items_s(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), s@)
  loop 0
    inv[C19]: old(self).context.allow_in
    inv[C19]: items_s(old(self).lexer.h(), old(self).lexer.pos(), self.lexer.pos(), items@)

# ------------------------------------------------------------ functions
fn Parser::function_declaration() -> r
  req[C19]: old(self).context.allow_in
  ens[C19]: r matches Ok(d) ==> decl_at(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), d)
fn Parser::formal_parameters() -> r
  use: patts_next
  ens[C19]: r matches Ok(p) ==> params_at(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), p)
  loop 0
    inv[C19]: tv(old(self).lexer.h(), old(self).lexer.pos()) is LParen
    invx[C19]: no_rest(rest) && patts_c(old(self).lexer.h(), old(self).lexer.pos() + 1, self.lexer.pos(), list@)
    ens[C19]: params_in(old(self).lexer.h(), old(self).lexer.pos() + 1, self.lexer.pos(), list@, rest)
fn Parser::pattern() -> r
  ens[C19]: r matches Ok(p) ==> patt_at(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), p)
fn Parser::function_body(params) -> r
  ens[C19]: r matches Ok(b) ==> body_at(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), b)

# ------------------------------------------------------------ statements
fn Parser::stmt_list_item(allow_decl) -> r
  req[C19]: old(self).context.allow_in
  ens[C19]: r matches Ok(x) ==> stmt_item(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), x)
fn Parser::statement() -> r
  req[C19]: old(self).context.allow_in
  ens[C19]: r matches Ok(x) ==> S(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), x)
fn Parser::labelled_statement(id) -> r
  use: labels_push
  req[C19]: old(self).context.allow_in && id_at(old(self).lexer.h(), old(self).lexer.pos() - 1, id)
  ens[C19]: r matches Ok(x) ==> S(old(self).lexer.h(), old(self).lexer.pos() - 1, final(self).lexer.pos(), x)
  loop 0
    inv[C19]: labels_at(old(self).lexer.h(), old(self).lexer.pos() - 1, labels@) && self.lexer.pos() == old(self).lexer.pos() - 1 + 2 * labels@.len()
  loop 1
    inv[C19]: labels_at(old(self).lexer.h(), old(self).lexer.pos() - 1, labels__h@)
  loop 3
    ens[C19]: vp_it2@.len() == 0
    inv[C19]: labels_rev(old(self).lexer.h(), old(self).lexer.pos() - 1, vp_it2@)
    inv[C19]: S(old(self).lexer.h(), old(self).lexer.pos() - 1 + 2 * vp_it2@.len(), self.lexer.pos(), body)
fn Parser::expression_statement() -> r
  req[C19]: expr_start(old(self).lexer.h(), old(self).lexer.pos())
  ens[C19]: r matches Ok(x) ==> S(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), x)
fn Parser::block() -> r
  req[C19]: old(self).context.allow_in
  ens[C19]: r matches Ok(x) ==> block_at(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), x)
fn Parser::var_statement() -> r
  req[C19]: old(self).context.allow_in
  ens[C19]: r matches Ok(x) ==> S(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), x)
fn Parser::let_declaration(start) -> r
  req[C19]: old(self).context.allow_in
  ens[C19]: r matches Ok(x) ==> (x matches Decl::Let(_, s, semi) && dtors_semi(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), s@, semi))
fn Parser::const_declaration() -> r
  req[C19]: old(self).context.allow_in
  ens[C19]: r matches Ok(x) ==> decl_at(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), x)
fn Parser::declarator() -> r
  ens[C19]: r matches Ok(x) ==> dtor_at(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), x, old(self).context.allow_in)
fn Parser::const_declarator() -> r
  ens[C19]: r matches Ok(x) ==> cdtor_at(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), x, old(self).context.allow_in)
fn Parser::more_comma__declarator(first) -> r
  entry: assert(forall|b: int, x: Expr| (#[trigger] E(old(self).lexer.h(), b, old(self).lexer.pos(), x, 0, old(self).context.allow_in)) && id_at(old(self).lexer.h(), b - 2, first->Simple_1) && tv(old(self).lexer.h(), b - 1) is Assign && first is Simple && first->Simple_2 == Some(x) ==> dtor_at(old(self).lexer.h(), b - 2, old(self).lexer.pos(), first, old(self).context.allow_in)); assert(first is Simple && first->Simple_2 is None && id_at(old(self).lexer.h(), old(self).lexer.pos() - 1, first->Simple_1) ==> dtor_at(old(self).lexer.h(), old(self).lexer.pos() - 1, old(self).lexer.pos(), first, old(self).context.allow_in));
  ens[C19]: forall|b: int, x: Expr| (#[trigger] E(old(self).lexer.h(), b, old(self).lexer.pos(), x, 0, old(self).context.allow_in)) && id_at(old(self).lexer.h(), b - 2, first->Simple_1) && tv(old(self).lexer.h(), b - 1) is Assign && first is Simple && first->Simple_2 == Some(x) ==> (r matches Ok(s) ==> dtors_l(old(self).lexer.h(), b - 2, final(self).lexer.pos(), s@, old(self).context.allow_in))
  ens[C19]: first is Simple && first->Simple_2 is None && id_at(old(self).lexer.h(), old(self).lexer.pos() - 1, first->Simple_1) ==> (r matches Ok(s) ==> dtors_l(old(self).lexer.h(), old(self).lexer.pos() - 1, final(self).lexer.pos(), s@, old(self).context.allow_in))
  ghost: first0 = first
  use: dtors_one, dtors_push
  ens[C19]: forall|a: int| #[trigger] dtor_at(old(self).lexer.h(), a, old(self).lexer.pos(), first, old(self).context.allow_in) ==> (r matches Ok(s) ==> dtors_l(old(self).lexer.h(), a, final(self).lexer.pos(), s@, old(self).context.allow_in))
  loop 0
    inv[C19]: forall|a: int| #[trigger] dtor_at(old(self).lexer.h(), a, old(self).lexer.pos(), first0, old(self).context.allow_in) ==> dtors_l(old(self).lexer.h(), a, self.lexer.pos(), items@, old(self).context.allow_in)
fn Parser::more_comma__const_declarator(first) -> r
  entry: assert(forall|b: int, x: Expr| (#[trigger] E(old(self).lexer.h(), b, old(self).lexer.pos(), x, 0, old(self).context.allow_in)) && x == first.value && patt_at(old(self).lexer.h(), b - 2, b - 1, first.patt) && tv(old(self).lexer.h(), b - 1) is Assign ==> cdtor_at(old(self).lexer.h(), b - 2, old(self).lexer.pos(), first, old(self).context.allow_in));
  ens[C19]: forall|b: int, x: Expr| (#[trigger] E(old(self).lexer.h(), b, old(self).lexer.pos(), x, 0, old(self).context.allow_in)) && x == first.value && patt_at(old(self).lexer.h(), b - 2, b - 1, first.patt) && tv(old(self).lexer.h(), b - 1) is Assign ==> (r matches Ok(s) ==> cdtors_l(old(self).lexer.h(), b - 2, final(self).lexer.pos(), s@, old(self).context.allow_in))
  ghost: first0 = first
  use: cdtors_one, cdtors_push
  ens[C19]: forall|a: int| #[trigger] cdtor_at(old(self).lexer.h(), a, old(self).lexer.pos(), first, old(self).context.allow_in) ==> (r matches Ok(s) ==> cdtors_l(old(self).lexer.h(), a, final(self).lexer.pos(), s@, old(self).context.allow_in))
  loop 0
    inv[C19]: forall|a: int| #[trigger] cdtor_at(old(self).lexer.h(), a, old(self).lexer.pos(), first0, old(self).context.allow_in) ==> cdtors_l(old(self).lexer.h(), a, self.lexer.pos(), items@, old(self).context.allow_in)
fn Parser::more_comma__assignment_expression(first) -> r
  ghost: first0 = first
  use: exprs_one, exprs_push
  ens[C19]: forall|a: int, l: int| (#[trigger] E(old(self).lexer.h(), a, old(self).lexer.pos(), first, l, old(self).context.allow_in)) && l >= 0 ==> (r matches Ok(s) ==> exprs_l(old(self).lexer.h(), a, final(self).lexer.pos(), s@, old(self).context.allow_in))
  ens[C19]: cur(*old(self)) is Comma ==> (r matches Ok(s) ==> s@.len() >= 2)
  loop 0
    inv[C19]: forall|a: int, l: int| (#[trigger] E(old(self).lexer.h(), a, old(self).lexer.pos(), first0, l, old(self).context.allow_in)) && l >= 0 ==> exprs_l(old(self).lexer.h(), a, self.lexer.pos(), items@, old(self).context.allow_in)
    inv[C19]: items@.len() >= 1 && (items@.len() == 1 ==> self.lexer.pos() == old(self).lexer.pos())
    ens[C19]: !(cur(*self) is Comma)
fn Parser::comma_separated__declarator() -> r
  ens[C19]: r matches Ok(s) ==> dtors_l(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), s@, old(self).context.allow_in)
fn Parser::comma_separated__const_declarator() -> r
  ens[C19]: r matches Ok(s) ==> cdtors_l(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), s@, old(self).context.allow_in)
fn Parser::empty_statement() -> r
  ens[C19]: r matches Ok(x) ==> S(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), x)
fn Parser::if_statement() -> r
  req[C19]: old(self).context.allow_in
  ens[C19]: r matches Ok(x) ==> S(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), x)
fn Parser::iteration_body() -> r
  req[C19]: old(self).context.allow_in
  ens[C19]: r matches Ok(x) ==> S(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), x)
fn Parser::do_statement() -> r
  req[C19]: old(self).context.allow_in
  ens[C19]: r matches Ok(x) ==> S(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), x)
fn Parser::while_statement() -> r
  req[C19]: old(self).context.allow_in
  ens[C19]: r matches Ok(x) ==> S(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), x)
fn Parser::for_statement() -> r
  req[C19]: old(self).context.allow_in
  ens[C19]: r matches Ok(x) ==> S(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), x)
fn Parser::for_var() -> r
  req[C19]: old(self).context.allow_in
  ens[C19]: r matches Ok(x) ==> for_at(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), x)
fn Parser::for_let() -> r
  req[C19]: old(self).context.allow_in
  ens[C19]: r matches Ok(x) ==> for_at(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), x)
fn Parser::for_const() -> r
  req[C19]: old(self).context.allow_in
  ens[C19]: r matches Ok(x) ==> for_at(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), x)
fn Parser::for_const__c0(lhs) -> r
  req[C19]: tv(old(self).lexer.h(), old(self).lexer.pos() - 1) is Assign
  ens[C19]: patt_at(old(self).lexer.h(), old(self).lexer.pos() - 2, old(self).lexer.pos() - 1, lhs) ==> (r matches Ok(s) ==> cdtors_l(old(self).lexer.h(), old(self).lexer.pos() - 2, final(self).lexer.pos(), s@, old(self).context.allow_in))
fn Parser::for_expr() -> r
  req[C19]: old(self).context.allow_in
  ens[C19]: r matches Ok(x) ==> for_at(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), x)
  ens[C22]: r matches Ok(x) ==> head_ok(old(self).lexer.h(), old(self).lexer.pos(), x)
fn Parser::more_for_head__ForHead_Var(start, dtor) -> r
  req[C19]: old(self).context.allow_in
  ens[C19]: forall|b: int, x: Expr| (#[trigger] E(old(self).lexer.h(), b, old(self).lexer.pos(), x, 0, false)) && id_at(old(self).lexer.h(), b - 2, dtor->Simple_1) && tv(old(self).lexer.h(), b - 1) is Assign && dtor is Simple && dtor->Simple_2 == Some(x) && res_at(old(self).lexer.h(), b - 3, Reserved::Var) ==> (r matches Ok(x) ==> for_at(old(self).lexer.h(), b - 3, final(self).lexer.pos(), x))
  ens[C19]: dtor is Simple && dtor->Simple_2 is None && id_at(old(self).lexer.h(), old(self).lexer.pos() - 1, dtor->Simple_1) && res_at(old(self).lexer.h(), old(self).lexer.pos() - 2, Reserved::Var) ==> (r matches Ok(x) ==> for_at(old(self).lexer.h(), old(self).lexer.pos() - 2, final(self).lexer.pos(), x))
fn Parser::more_for_head__ForHead_Let(start, dtor) -> r
  req[C19]: old(self).context.allow_in
  ens[C19]: forall|b: int, x: Expr| (#[trigger] E(old(self).lexer.h(), b, old(self).lexer.pos(), x, 0, false)) && id_at(old(self).lexer.h(), b - 2, dtor->Simple_1) && tv(old(self).lexer.h(), b - 1) is Assign && dtor is Simple && dtor->Simple_2 == Some(x) && atom_at(old(self).lexer.h(), b - 3, Atom::Let) ==> (r matches Ok(x) ==> for_at(old(self).lexer.h(), b - 3, final(self).lexer.pos(), x))
  ens[C19]: dtor is Simple && dtor->Simple_2 is None && id_at(old(self).lexer.h(), old(self).lexer.pos() - 1, dtor->Simple_1) && atom_at(old(self).lexer.h(), old(self).lexer.pos() - 2, Atom::Let) ==> (r matches Ok(x) ==> for_at(old(self).lexer.h(), old(self).lexer.pos() - 2, final(self).lexer.pos(), x))
fn Parser::more_for(head) -> r
  req[C19]: old(self).context.allow_in
  ens[C19]: r matches Ok(x) ==> (x matches Stmt::For(_, hd, test, update, body) && hd == head && for_rest(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), test, update, *body))
fn Parser::more_for_in(head) -> r
  req[C19]: old(self).context.allow_in
  ens[C19]: r matches Ok(x) ==> (x matches Stmt::ForIn(_, hd, obj, body) && hd == head && in_rest(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), obj, *body))
fn Parser::more_for_of(head) -> r
  req[C19]: old(self).context.allow_in
  ens[C19]: r matches Ok(x) ==> (x matches Stmt::ForOf(_, hd, obj, body) && hd == head && of_rest(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), obj, *body))
fn Parser::expression_opt_semi() -> r
  ens[C19]: r matches Ok(x) ==> opt_semi(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), x)
fn Parser::switch_statement() -> r
  req[C19]: old(self).context.allow_in
  ens[C19]: r matches Ok(x) ==> S(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), x)
fn Parser::switch_cases() -> r
  use: cases_nil, cases_push
  req[C19]: old(self).context.allow_in
  ens[C19]: r matches Ok(s) ==> tv(old(self).lexer.h(), old(self).lexer.pos()) is LBrace && tv(old(self).lexer.h(), final(self).lexer.pos() - 1) is RBrace && cases_s(old(self).lexer.h(), old(self).lexer.pos() + 1, final(self).lexer.pos() - 1, s@)
  loop 0
    inv[C19]: old(self).context.allow_in
    inv[C19]: tv(old(self).lexer.h(), old(self).lexer.pos()) is LBrace && cases_s(old(self).lexer.h(), old(self).lexer.pos() + 1, self.lexer.pos(), cases@)
fn Parser::case() -> r
  req[C19]: old(self).context.allow_in
  ens[C19]: r matches Ok(c) ==> case_(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), c)
fn Parser::default() -> r
  req[C19]: old(self).context.allow_in
  ens[C19]: r matches Ok(c) ==> case_(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), c)
fn Parser::break_statement() -> r
  ens[C19]: r matches Ok(x) ==> S(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), x)
fn Parser::continue_statement() -> r
  ens[C19]: r matches Ok(x) ==> S(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), x)
fn Parser::return_statement() -> r
  ens[C19]: r matches Ok(x) ==> S(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), x)
fn Parser::with_statement() -> r
  req[C19]: old(self).context.allow_in
  ens[C19]: r matches Ok(x) ==> S(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), x)
fn Parser::throw_statement() -> r
  ens[C19]: r matches Ok(x) ==> S(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), x)
fn Parser::try_statement() -> r
  req[C19]: old(self).context.allow_in
  ens[C19]: r matches Ok(x) ==> S(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), x)
fn Parser::catch_opt() -> r
  req[C19]: old(self).context.allow_in
  ens[C19]: r matches Ok(Some(c)) ==> catch_at(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), c)
fn Parser::finally_opt() -> r
  req[C19]: old(self).context.allow_in
  ens[C19]: r matches Ok(Some(b)) ==> res_at(old(self).lexer.h(), old(self).lexer.pos(), Reserved::Finally) && block_at(old(self).lexer.h(), old(self).lexer.pos() + 1, final(self).lexer.pos(), b)
fn Parser::debugger_statement() -> r
  ens[C19]: r matches Ok(x) ==> S(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), x)

# ------------------------------------------------------------ expressions
fn Parser::paren_expression() -> r
  ens[C18,C19]: r matches Ok(e) ==> parens(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), e)
fn Parser::primary_expression() -> r
  ens[C19]: r matches Ok(e) ==> E(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), e, 18, old(self).context.allow_in)
fn Parser::array_literal(start) -> r
  ens[C19]: r matches Ok(e) ==> (e matches Expr::Arr(_, s) && array_rest(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), s@))
fn Parser::array_literal__c0(start) -> r
  use: elts_next
  req[C18,C19]: old(self).context.allow_in
  ens[C19]: r matches Ok(e) ==> (e matches Expr::Arr(_, s) && array_rest(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), s@))
  loop 0
    inv[C18,C19]: old(self).context.allow_in
    invx[C19]: elts_c(old(self).lexer.h(), old(self).lexer.pos(), self.lexer.pos(), elts@)
    ens[C19]: elts_c(old(self).lexer.h(), old(self).lexer.pos(), self.lexer.pos(), elts@) || elts_l(old(self).lexer.h(), old(self).lexer.pos(), self.lexer.pos(), elts@) && elts@.last() is Some
fn Parser::expr_list_item() -> r
  req[C18,C19]: old(self).context.allow_in
  ens[C19]: r matches Ok(x) ==> item_at(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), x)
fn Parser::array_element() -> r
  req[C18,C19]: old(self).context.allow_in
  ens[C19]: r matches Ok(x) ==> elt_at(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), x)
fn Parser::object_literal(start) -> r
  use: props_next
  ens[C19]: r matches Ok(e) ==> (e matches Expr::Obj(_, s) && object_rest(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), s@))
  loop 0
    invx[C19]: props_c(old(self).lexer.h(), old(self).lexer.pos(), self.lexer.pos(), props@)
    ens[C19]: props_c(old(self).lexer.h(), old(self).lexer.pos(), self.lexer.pos(), props@) || props_l(old(self).lexer.h(), old(self).lexer.pos(), self.lexer.pos(), props@)
fn Parser::more_prop_init(key) -> r
  req[C19]: key_at(old(self).lexer.h(), old(self).lexer.pos() - 1, key)
  req[C19]: tv(old(self).lexer.h(), old(self).lexer.pos() - 1) is Reserved ==> !(cur(*old(self)) is Comma) && !(cur(*old(self)) is RBrace)
  ens[C19]: r matches Ok(x) ==> prop_at(old(self).lexer.h(), old(self).lexer.pos() - 1, final(self).lexer.pos(), x)
fn Parser::property_key_opt() -> r
  ens[C19]: r matches Ok(Some(k)) ==> key_at(old(self).lexer.h(), old(self).lexer.pos(), k)
fn Parser::property_key() -> r
  ens[C19]: r matches Ok(k) ==> key_at(old(self).lexer.h(), old(self).lexer.pos(), k)
fn Parser::object_property() -> r
  use: axiom_get_set
  ens[C19]: r matches Ok(x) ==> prop_at(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), x)
fn Parser::member_base_expression() -> r
  ens[C19]: r matches Ok(e) ==> E(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), e, 17, old(self).context.allow_in)
fn Parser::new_expression(news) -> r
  ens[C19]: news_at(old(self).lexer.h(), old(self).lexer.pos() - news@.len(), old(self).lexer.pos()) ==> (r matches Ok(e) ==> E(old(self).lexer.h(), old(self).lexer.pos() - news@.len(), final(self).lexer.pos(), e, 14, old(self).context.allow_in))
fn Parser::more_new_expression(news, base) -> r
  entry: assert(new_target(old(self).lexer.h(), old(self).lexer.pos(), base) ==> E(old(self).lexer.h(), old(self).lexer.pos() - 3, old(self).lexer.pos(), base, 17, old(self).context.allow_in));
  ens[C19]: new_target(old(self).lexer.h(), old(self).lexer.pos(), base) && news_at(old(self).lexer.h(), old(self).lexer.pos() - 3 - news@.len(), old(self).lexer.pos() - 3) ==> (r matches Ok(e) ==> E(old(self).lexer.h(), old(self).lexer.pos() - 3 - news@.len(), final(self).lexer.pos(), e, 14, old(self).context.allow_in))
  ghost: base0 = base
  ens[C19]: forall|a: int, l: int| (#[trigger] E(old(self).lexer.h(), a, old(self).lexer.pos(), base, l, old(self).context.allow_in)) && l >= 17 && news_at(old(self).lexer.h(), a - news@.len(), a) ==> (r matches Ok(e) ==> E(old(self).lexer.h(), a - news@.len(), final(self).lexer.pos(), e, 14, old(self).context.allow_in))
  loop 0
    inv[C19]: vp_it0@.len() <= news@.len()
    inv[C19]: forall|a: int, l: int| (#[trigger] E(old(self).lexer.h(), a, old(self).lexer.pos(), base0, l, old(self).context.allow_in)) && l >= 17 && news_at(old(self).lexer.h(), a - news@.len(), a) ==> E(old(self).lexer.h(), a - news@.len() + vp_it0@.len(), self.lexer.pos(), base, if has_args { 17int } else { 16 }, old(self).context.allow_in)
    inv[C19]: !(cur(*self) is Dot) && !(cur(*self) is LBrack) && (!has_args ==> !(cur(*self) is LParen))
    ens[C19]: vp_it0@.len() == 0
fn Parser::more_derefs(base) -> r
  entry: assert(forall|a: int, k: int, x: Expr, l: int| (#[trigger] E(old(self).lexer.h(), a, k, x, l, old(self).context.allow_in)) && x == *(base->New_1) && l >= 17 && base is New && base->New_2 is Some && res_at(old(self).lexer.h(), a - 1, Reserved::New) && args_at(old(self).lexer.h(), k, old(self).lexer.pos(), base->New_2->0@) ==>  E(old(self).lexer.h(), a - 1, old(self).lexer.pos(), base, 17, old(self).context.allow_in));
  ens[C19]: forall|a: int, k: int, x: Expr, l: int| (#[trigger] E(old(self).lexer.h(), a, k, x, l, old(self).context.allow_in)) && x == *(base->New_1) && l >= 17 && base is New && base->New_2 is Some && res_at(old(self).lexer.h(), a - 1, Reserved::New) && args_at(old(self).lexer.h(), k, old(self).lexer.pos(), base->New_2->0@) ==> (r matches Ok(e) ==> E(old(self).lexer.h(), a - 1, final(self).lexer.pos(), e, 17, old(self).context.allow_in))
  ghost: base0 = base
  ens[C19]: forall|a: int, l: int| (#[trigger] E(old(self).lexer.h(), a, old(self).lexer.pos(), base, l, old(self).context.allow_in)) && l >= 17 ==> (r matches Ok(e) ==> E(old(self).lexer.h(), a, final(self).lexer.pos(), e, 17, old(self).context.allow_in))
  ens[C19]: r is Ok ==> !(cur(*final(self)) is Dot) && !(cur(*final(self)) is LBrack)
  loop 0
    inv[C19]: forall|a: int, l: int| (#[trigger] E(old(self).lexer.h(), a, old(self).lexer.pos(), base0, l, old(self).context.allow_in)) && l >= 17 ==> E(old(self).lexer.h(), a, self.lexer.pos(), base, 17, old(self).context.allow_in)
    ens[C19]: !(cur(*self) is Dot) && !(cur(*self) is LBrack)
fn Parser::call_expression() -> r
  ens[C19]: r matches Ok(e) ==> E(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), e, 15, old(self).context.allow_in)
fn Parser::suffix_opt() -> r
  ens[C19]: r matches Ok(Some(Suffix::Deref(d))) ==> deref_at(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), d)
  ens[C19]: r matches Ok(Some(Suffix::Arguments(x))) ==> args_at(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), x.args@)
  ens[C19]: r is Ok ==> (r matches Ok(None)) == !(cur(*old(self)) is Dot || cur(*old(self)) is LBrack || cur(*old(self)) is LParen)
fn Parser::arguments() -> r
  ens[C19]: r matches Ok(x) ==> args_at(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), x.args@)
fn Parser::arguments__c0() -> r
  use: args_next
  req[C18,C19]: old(self).context.allow_in
  ens[C19]: r matches Ok(x) ==> args_at(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), x.args@)
  loop 0
    inv[C18,C19]: old(self).context.allow_in
    inv[C19]: tv(old(self).lexer.h(), old(self).lexer.pos()) is LParen
    invx[C19]: args_c(old(self).lexer.h(), old(self).lexer.pos() + 1, self.lexer.pos(), args@)
    ens[C19]: args_l(old(self).lexer.h(), old(self).lexer.pos() + 1, self.lexer.pos(), args@)
fn Parser::deref_opt() -> r
  ens[C19]: r matches Ok(Some(d)) ==> deref_at(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), d)
  ens[C19]: r is Ok ==> (r matches Ok(None)) == !(cur(*old(self)) is Dot || cur(*old(self)) is LBrack)
fn Parser::deref_brack() -> r
  ens[C18,C19]: r matches Ok(d) ==> d is Brack && deref_at(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), d)
fn Parser::id_name() -> r
  ens[C19]: r matches Ok(k) ==> word_at(old(self).lexer.h(), old(self).lexer.pos(), k.value@)
fn Parser::deref_dot() -> r
  ens[C19]: r matches Ok(d) ==> d is Dot && deref_at(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), d)
fn Parser::more_suffixes(result) -> r
  entry: assert(new_target(old(self).lexer.h(), old(self).lexer.pos(), result) ==> E(old(self).lexer.h(), old(self).lexer.pos() - 3, old(self).lexer.pos(), result, 17, old(self).context.allow_in));
  ens[C19]: new_target(old(self).lexer.h(), old(self).lexer.pos(), result) ==> (r matches Ok(e) ==> E(old(self).lexer.h(), old(self).lexer.pos() - 3, final(self).lexer.pos(), e, 15, old(self).context.allow_in))
  ghost: result0 = result
  ens[C19]: forall|a: int, l: int| (#[trigger] E(old(self).lexer.h(), a, old(self).lexer.pos(), result, l, old(self).context.allow_in)) && l >= 15 && l != 16 ==> (r matches Ok(e) ==> E(old(self).lexer.h(), a, final(self).lexer.pos(), e, 15, old(self).context.allow_in))
  ens[C19]: !(cur(*old(self)) is Dot || cur(*old(self)) is LBrack || cur(*old(self)) is LParen) ==> (r matches Ok(e) ==> e == result && final(self).lexer.pos() == old(self).lexer.pos())
  loop 0
    inv[C19]: forall|a: int, l: int| (#[trigger] E(old(self).lexer.h(), a, old(self).lexer.pos(), result0, l, old(self).context.allow_in)) && l >= 15 && l != 16 ==> E(old(self).lexer.h(), a, self.lexer.pos(), result, 15, old(self).context.allow_in)
    inv[C19]: !(cur(*old(self)) is Dot || cur(*old(self)) is LBrack || cur(*old(self)) is LParen) ==> result == result0 && self.lexer.pos() == old(self).lexer.pos()
fn Parser::lhs_expression() -> r
  ens[C19]: r matches Ok(e) ==> E(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), e, 14, old(self).context.allow_in)
  loop 0
    inv[C19]: news_at(old(self).lexer.h(), old(self).lexer.pos(), self.lexer.pos()) && self.lexer.pos() == old(self).lexer.pos() + news@.len()
fn Parser::unary_expression() -> r
  ens[C18,C19]: r matches Ok(e) ==> E(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), e, 12, old(self).context.allow_in)
  ens[C22]: r matches Ok(e) ==> (incdec(cur(*old(self))) ==> pre_inc(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), e, old(self).context.allow_in))
  ens[C22]: r matches Ok(e) ==> (operand_at(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), e, old(self).context.allow_in) || incdec(cur(*old(self))) || sp_unop(cur(*old(self))) is Some)
  loop 0
    inv[C18,C19]: prefixes_at(old(self).lexer.h(), old(self).lexer.pos(), prefixes@) && self.lexer.pos() == old(self).lexer.pos() + prefixes@.len()
    ens[C22]: !incdec(tv(self.lexer.h(), self.lexer.pos()))
  loop 1
    inv[C18,C19]: prefixes_at(old(self).lexer.h(), old(self).lexer.pos(), vp_it0@)
    inv[C18,C19]: E(old(self).lexer.h(), old(self).lexer.pos() + vp_it0@.len(), self.lexer.pos(), arg, 12, old(self).context.allow_in)
    inv[C22]: operand_at(old(self).lexer.h(), old(self).lexer.pos() + vp_it0@.len(), self.lexer.pos(), arg, old(self).context.allow_in)
        || incdec(tv(old(self).lexer.h(), old(self).lexer.pos() + vp_it0@.len())) || sp_unop(tv(old(self).lexer.h(), old(self).lexer.pos() + vp_it0@.len())) is Some
    inv[C22]: incdec(tv(old(self).lexer.h(), old(self).lexer.pos() + vp_it0@.len())) ==> pre_inc(old(self).lexer.h(), old(self).lexer.pos() + vp_it0@.len(), self.lexer.pos(), arg, old(self).context.allow_in)
    ens[C18,C19]: vp_it0@.len() == 0
fn Parser::match_prefix() -> r
  ens[C22]: r matches Ok(None) ==> !incdec(cur(*old(self)))
  ens[C19]: r matches Ok(Some(p)) ==> final(self).lexer.pos() == old(self).lexer.pos() + 1 && prefix_at(old(self).lexer.h(), old(self).lexer.pos(), p)
fn Parser::match_unop() -> r
  ens[C19]: r matches Ok(Some(op)) ==> final(self).lexer.pos() == old(self).lexer.pos() + 1 && sp_unop(cur(*old(self))) == Some(op.tag)
fn Parser::match_postfix_operator_opt() -> r
  ens[C19]: r matches Ok(Some(Postfix::Inc(_))) ==> final(self).lexer.pos() == old(self).lexer.pos() + 1 && cur(*old(self)) is Inc
  ens[C19]: r matches Ok(Some(Postfix::Dec(_))) ==> final(self).lexer.pos() == old(self).lexer.pos() + 1 && cur(*old(self)) is Dec
  ens[C19]: r matches Ok(None) ==> final(self).lexer.pos() == old(self).lexer.pos()
fn Parser::conditional_expression() -> r
  ens[C19]: r matches Ok(e) ==> E(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), e, 1, old(self).context.allow_in)
fn Parser::more_conditional(left) -> r
  ens[C18,C19]: forall|a: int, l: int| (#[trigger] E(old(self).lexer.h(), a, old(self).lexer.pos(), left, l, old(self).context.allow_in)) && l >= 2 ==> (r matches Ok(e) ==> E(old(self).lexer.h(), a, final(self).lexer.pos(), e, 1, old(self).context.allow_in))
fn Parser::assignment_expression() -> r
  ens[C19]: r matches Ok(e) ==> E(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), e, 0, old(self).context.allow_in)
fn Parser::more_assignment(left) -> r
  ens[C19]: forall|a: int, l: int| (#[trigger] E(old(self).lexer.h(), a, old(self).lexer.pos(), left, l, old(self).context.allow_in)) && l >= 1 ==> (r matches Ok(e) ==> E(old(self).lexer.h(), a, final(self).lexer.pos(), e, 0, old(self).context.allow_in))
  ens[C22]: r matches Ok(e) ==> e == left || (e matches Expr::Assign(_, p, _) && is_patt(left, p)) || (e matches Expr::BinAssign(_, op, t, _) && sp_target(left) == Some(t) && sp_assop(cur(*old(self))) == Some(op.tag))
fn Parser::more_infix_expressions(left) -> r
  use: sq_push, infixed_one
  ens[C18,C19]: forall|a: int, l: int| (#[trigger] E(old(self).lexer.h(), a, old(self).lexer.pos(), left, l, old(self).context.allow_in)) && l >= 12 ==> (r matches Ok(e) ==> E(old(self).lexer.h(), a, final(self).lexer.pos(), e, 2, old(self).context.allow_in))
  loop 0
    inv[C18,C19]: forall|a: int, l: int| (#[trigger] E(old(self).lexer.h(), a, old(self).lexer.pos(), left, l, old(self).context.allow_in)) && l >= 12 ==> infixed(old(self).lexer.h(), a, self.lexer.pos(), stack.frames@, operand, old(self).context.allow_in)
fn Parser::match_infix() -> r
  ens[C18,C19]: r matches Ok(Some(op)) ==> op_at(old(self).lexer.h(), old(self).lexer.pos(), op, old(self).context.allow_in) && final(self).lexer.pos() == old(self).lexer.pos() + 1
  ens[C18,C19]: r matches Ok(None) ==> final(self).lexer.pos() == old(self).lexer.pos()
fn Parser::expression() -> r
  ens[C19]: r matches Ok(e) ==> E(old(self).lexer.h(), old(self).lexer.pos(), final(self).lexer.pos(), e, -1, old(self).context.allow_in)
fn Parser::more_expressions(first) -> r
  ens[C19]: forall|a: int, l: int| (#[trigger] E(old(self).lexer.h(), a, old(self).lexer.pos(), first, l, old(self).context.allow_in)) && l >= 0 ==> (r matches Ok(e) ==> E(old(self).lexer.h(), a, final(self).lexer.pos(), e, -1, old(self).context.allow_in))
fn script(s) -> r
  ens[C19]: r matches Ok(x) ==> exists|p: Parser<VpChars<'static>>| #[trigger] starts(p, s@) && whole_script(p, x)
fn strict(s) -> r
  ens[C19]: r matches Ok(x) ==> exists|p: Parser<VpChars<'static>>| #[trigger] starts(p, s@) && whole_script(p, x)
fn module(s) -> r
  ens[C19]: r matches Ok(x) ==> exists|p: Parser<VpChars<'static>>| #[trigger] starts(p, s@) && whole_module(p, x)
fn program(s) -> r
  ens[C19]: r matches Ok(Program::Ambiguous(_, x)) ==> exists|p: Parser<VpChars<'static>>| #[trigger] starts(p, s@) && whole_script(p, x)
  ens[C19]: r matches Ok(Program::Module(x)) ==> exists|p: Parser<VpChars<'static>>| #[trigger] starts(p, s@) && whole_module(p, x)
