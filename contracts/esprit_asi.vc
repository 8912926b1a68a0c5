# Automatic semicolon insertion (C23).  Layered on esprit.vc.

fn Parser::match_directive_opt() -> r
  ens[C23]: r matches Ok(Some(d)) ==> semi_req(old(self).lexer.h(), final(self).lexer.pos(), d.semi)
  ens[C23]: r matches Ok(Some(d)) ==> d.semi is Inserted ==> !sp_cont(tk(old(self).lexer.h(), final(self).lexer.pos()))
fn Parser::expression_statement() -> r
  ens[C23]: r matches Ok(x) ==> (x matches Stmt::Expr(_, _, semi) && semi_req(old(self).lexer.h(), final(self).lexer.pos(), semi) && (semi is Inserted ==> stop_e(old(self).lexer.h(), final(self).lexer.pos(), true)))
fn Parser::var_statement() -> r
  ens[C23]: r matches Ok(x) ==> (x matches Stmt::Var(_, s, semi) && semi_req(old(self).lexer.h(), final(self).lexer.pos(), semi) && (semi is Inserted ==> !(tv(old(self).lexer.h(), final(self).lexer.pos()) is Comma) && s@.len() > 0 && dtor_stop(old(self).lexer.h(), final(self).lexer.pos(), s@.last(), old(self).context.allow_in)))
fn Parser::let_declaration(start) -> r
  ens[C23]: r matches Ok(x) ==> (x matches Decl::Let(_, s, semi) && semi_req(old(self).lexer.h(), final(self).lexer.pos(), semi) && (semi is Inserted ==> !(tv(old(self).lexer.h(), final(self).lexer.pos()) is Comma) && s@.len() > 0 && dtor_stop(old(self).lexer.h(), final(self).lexer.pos(), s@.last(), old(self).context.allow_in)))
fn Parser::const_declaration() -> r
  ens[C23]: r matches Ok(x) ==> (x matches Decl::Const(_, s, semi) && semi_req(old(self).lexer.h(), final(self).lexer.pos(), semi) && (semi is Inserted ==> stop_e(old(self).lexer.h(), final(self).lexer.pos(), old(self).context.allow_in)))
fn Parser::declarator() -> r
  ens[C23]: r matches Ok(x) ==> dtor_stop(old(self).lexer.h(), final(self).lexer.pos(), x, old(self).context.allow_in)
fn Parser::const_declarator() -> r
  ens[C23]: r matches Ok(x) ==> stop_a(old(self).lexer.h(), final(self).lexer.pos(), old(self).context.allow_in)
fn Parser::more_comma__declarator(first) -> r
  ens[C23]: dtor_stop(old(self).lexer.h(), old(self).lexer.pos(), first, old(self).context.allow_in) ==> (r matches Ok(s) ==> s@.len() > 0 && !(tv(old(self).lexer.h(), final(self).lexer.pos()) is Comma) && dtor_stop(old(self).lexer.h(), final(self).lexer.pos(), s@.last(), old(self).context.allow_in))
  ghost: first0 = first
  loop 0
    inv[C23]: dtor_stop(old(self).lexer.h(), old(self).lexer.pos(), first0, old(self).context.allow_in) ==> items@.len() > 0 && dtor_stop(old(self).lexer.h(), self.lexer.pos(), items@.last(), old(self).context.allow_in)
    ens[C23]: !(cur(*self) is Comma)
fn Parser::more_comma__const_declarator(first) -> r
  ens[C23]: stop_a(old(self).lexer.h(), old(self).lexer.pos(), old(self).context.allow_in) ==> (r is Ok ==> stop_e(old(self).lexer.h(), final(self).lexer.pos(), old(self).context.allow_in))
  loop 0
    inv[C23]: stop_a(old(self).lexer.h(), old(self).lexer.pos(), old(self).context.allow_in) ==> stop_a(old(self).lexer.h(), self.lexer.pos(), old(self).context.allow_in)
    ens[C23]: !(cur(*self) is Comma)
fn Parser::more_comma__assignment_expression(first) -> r
  ens[C23]: stop_a(old(self).lexer.h(), old(self).lexer.pos(), old(self).context.allow_in) ==> (r is Ok ==> stop_e(old(self).lexer.h(), final(self).lexer.pos(), old(self).context.allow_in))
  loop 0
    inv[C23]: stop_a(old(self).lexer.h(), old(self).lexer.pos(), old(self).context.allow_in) ==> stop_a(old(self).lexer.h(), self.lexer.pos(), old(self).context.allow_in)
    ens[C23]: !(cur(*self) is Comma)
fn Parser::comma_separated__declarator() -> r
  ens[C23]: r matches Ok(s) ==> s@.len() > 0 && !(tv(old(self).lexer.h(), final(self).lexer.pos()) is Comma) && dtor_stop(old(self).lexer.h(), final(self).lexer.pos(), s@.last(), old(self).context.allow_in)
fn Parser::comma_separated__const_declarator() -> r
  ens[C23]: r is Ok ==> stop_e(old(self).lexer.h(), final(self).lexer.pos(), old(self).context.allow_in)
fn Parser::do_statement() -> r
  ens[C23]: r matches Ok(x) ==> (x matches Stmt::DoWhile(_, _, _, semi) && semi_any(old(self).lexer.h(), final(self).lexer.pos(), semi))
fn Parser::break_statement() -> r
  ens[C23]: r matches Ok(x) ==> (x matches Stmt::Break(_, arg, semi) && semi_req(old(self).lexer.h(), final(self).lexer.pos(), semi) && (arg is None) == ends_line(old(self).lexer.h(), old(self).lexer.pos() + 1))
fn Parser::continue_statement() -> r
  ens[C23]: r matches Ok(x) ==> (x matches Stmt::Cont(_, arg, semi) && semi_req(old(self).lexer.h(), final(self).lexer.pos(), semi) && (arg is None) == ends_line(old(self).lexer.h(), old(self).lexer.pos() + 1))
fn Parser::return_statement() -> r
  ens[C23]: r matches Ok(x) ==> (x matches Stmt::Return(_, arg, semi) && semi_req(old(self).lexer.h(), final(self).lexer.pos(), semi) && (arg is None) == ends_line(old(self).lexer.h(), old(self).lexer.pos() + 1) && (semi is Inserted && arg is Some ==> stop_e(old(self).lexer.h(), final(self).lexer.pos(), true)))
fn Parser::throw_statement() -> r
  ens[C23]: r matches Ok(x) ==> (x matches Stmt::Throw(_, _, semi) && semi_req(old(self).lexer.h(), final(self).lexer.pos(), semi) && !ends_line(old(self).lexer.h(), old(self).lexer.pos() + 1) && (semi is Inserted ==> stop_e(old(self).lexer.h(), final(self).lexer.pos(), true)))
fn Parser::debugger_statement() -> r
  ens[C23]: r matches Ok(x) ==> (x matches Stmt::Debugger(_, semi) && semi_req(old(self).lexer.h(), final(self).lexer.pos(), semi))
fn Parser::match_postfix_operator_opt() -> r
  ens[C23]: r matches Ok(Some(_)) ==> (cur(*old(self)) is Inc || cur(*old(self)) is Dec) && !tk(old(self).lexer.h(), old(self).lexer.pos()).newline && final(self).lexer.pos() == old(self).lexer.pos() + 1
  ens[C23]: r matches Ok(None) ==> ((cur(*old(self)) is Inc || cur(*old(self)) is Dec) ==> tk(old(self).lexer.h(), old(self).lexer.pos()).newline) && final(self).lexer.pos() == old(self).lexer.pos()
fn Parser::deref_opt() -> r
  ens[C23]: r matches Ok(None) ==> !(cur(*final(self)) is Dot) && !(cur(*final(self)) is LBrack)
fn Parser::suffix_opt() -> r
  ens[C23]: r matches Ok(None) ==> stop_l(old(self).lexer.h(), final(self).lexer.pos())
fn Parser::more_suffixes(result) -> r
  ens[C23]: r is Ok ==> stop_l(old(self).lexer.h(), final(self).lexer.pos())
  loop 0
    ens[C23]: stop_l(old(self).lexer.h(), self.lexer.pos())
fn Parser::more_new_expression(news, base) -> r
  ens[C23]: r is Ok ==> stop_l(old(self).lexer.h(), final(self).lexer.pos())
fn Parser::new_expression(news) -> r
  ens[C23]: r is Ok ==> stop_l(old(self).lexer.h(), final(self).lexer.pos())
fn Parser::call_expression() -> r
  ens[C23]: r is Ok ==> stop_l(old(self).lexer.h(), final(self).lexer.pos())
fn Parser::lhs_expression() -> r
  ens[C23]: r is Ok ==> stop_l(old(self).lexer.h(), final(self).lexer.pos())
fn Parser::unary_expression() -> r
  ens[C23]: r is Ok ==> stop_u(old(self).lexer.h(), final(self).lexer.pos())
  loop 1
    inv[C23]: stop_u(old(self).lexer.h(), self.lexer.pos())
fn Parser::match_infix() -> r
  ens[C23]: r matches Ok(None) ==> sp_binop(cur(*final(self)), old(self).context.allow_in) is None && sp_logop(cur(*final(self))) is None && final(self).lexer.pos() == old(self).lexer.pos()
fn Parser::more_infix_expressions(left) -> r
  ens[C23]: stop_u(old(self).lexer.h(), old(self).lexer.pos()) ==> (r is Ok ==> stop_i(old(self).lexer.h(), final(self).lexer.pos(), old(self).context.allow_in))
  loop 0
    inv[C23]: stop_u(old(self).lexer.h(), old(self).lexer.pos()) ==> stop_u(old(self).lexer.h(), self.lexer.pos())
    ens[C23]: stop_u(old(self).lexer.h(), old(self).lexer.pos()) ==> stop_i(old(self).lexer.h(), self.lexer.pos(), old(self).context.allow_in)
fn Parser::conditional_expression() -> r
  ens[C23]: r is Ok ==> stop_i(old(self).lexer.h(), final(self).lexer.pos(), old(self).context.allow_in) && !(cur(*final(self)) is Question)
fn Parser::more_conditional(left) -> r
  ens[C23]: stop_i(old(self).lexer.h(), old(self).lexer.pos(), old(self).context.allow_in) ==> (r is Ok ==> stop_i(old(self).lexer.h(), final(self).lexer.pos(), old(self).context.allow_in) && !(cur(*final(self)) is Question))
fn Parser::assignment_expression() -> r
  ens[C23]: r is Ok ==> stop_a(old(self).lexer.h(), final(self).lexer.pos(), old(self).context.allow_in)
fn Parser::more_assignment(left) -> r
  ens[C23]: stop_i(old(self).lexer.h(), old(self).lexer.pos(), old(self).context.allow_in) && !(cur(*old(self)) is Question) ==> (r is Ok ==> stop_a(old(self).lexer.h(), final(self).lexer.pos(), old(self).context.allow_in))
fn Parser::expression() -> r
  ens[C23]: r is Ok ==> stop_e(old(self).lexer.h(), final(self).lexer.pos(), old(self).context.allow_in)
fn Parser::more_expressions(first) -> r
  ens[C23]: stop_a(old(self).lexer.h(), old(self).lexer.pos(), old(self).context.allow_in) ==> (r is Ok ==> stop_e(old(self).lexer.h(), final(self).lexer.pos(), old(self).context.allow_in))
