# Contracts of the parser.

fn Parser:State::skip() -> r
  ens: r is Ok ==> rd(*old(self), *final(self), false)

fn Parser:State::read() -> r
  ens: r matches Ok(t) ==> rd(*old(self), *final(self), false) && t == tk(old(self).lexer.h(), old(self).lexer.pos())

fn Parser:State::read_op() -> r
  ens: r matches Ok(t) ==> rd(*old(self), *final(self), true) && t == tk(old(self).lexer.h(), old(self).lexer.pos())

fn Parser:State::peek() -> r
  ens: r matches Ok(t) ==> pk(*old(self), *final(self), false) && *t == tk(old(self).lexer.h(), old(self).lexer.pos())

fn Parser:State::peek_op() -> r
  ens: r matches Ok(t) ==> pk(*old(self), *final(self), true) && *t == tk(old(self).lexer.h(), old(self).lexer.pos())

fn Parser:State::expect(expected) -> r
  ens: r matches Ok(t) ==> rd(*old(self), *final(self), false) && t == tk(old(self).lexer.h(), old(self).lexer.pos()) && td_eq(t.value, expected)

fn Parser:State::matches_token(expected) -> r
  req: old(self).lexer.q() <= 2
  ens: r matches Ok(Some(t)) ==> rd(*old(self), *final(self), false) && t == tk(old(self).lexer.h(), old(self).lexer.pos()) && td_eq(t.value, expected)
  ens: r matches Ok(None) ==> pk(*old(self), *final(self), false) && !td_eq(cur(*old(self)), expected)

fn Parser:State::matches(expected) -> r
  req: old(self).lexer.q() <= 2
  ens: r == Ok::<bool, Error>(true) ==> rd(*old(self), *final(self), false) && td_eq(cur(*old(self)), expected)
  ens: r == Ok::<bool, Error>(false) ==> pk(*old(self), *final(self), false) && !td_eq(cur(*old(self)), expected)

fn Parser:State::matches_op(expected) -> r
  req: old(self).lexer.q() <= 2
  ens: r == Ok::<bool, Error>(true) ==> rd(*old(self), *final(self), true) && td_eq(cur(*old(self)), expected)
  ens: r == Ok::<bool, Error>(false) ==> pk(*old(self), *final(self), true) && !td_eq(cur(*old(self)), expected)

fn Parser:State::reread(expected) -> r
  req: old(self).lexer.q() >= 1 && td_eq(cur(*old(self)), expected)
  ens: rd(*old(self), *final(self), false) && r == tk(old(self).lexer.h(), old(self).lexer.pos())

fn Parser:State::has_arg_same_line() -> r
  ens: r is Ok ==> pk(*old(self), *final(self), false)
  ens: r matches Ok(b) ==> b == (!tk(old(self).lexer.h(), old(self).lexer.pos()).newline && !(cur(*old(self)) is Semi) && !(cur(*old(self)) is RBrace) && !(cur(*old(self)) is EOF))

# ------------------------------------------------------------ small parts
fn Parser:Tracking::posn() -> r
fn Parser:Tracking::start() -> r
fn Parser:Tracking::vec_span(v) -> r

fn SpanTracker::new(start) -> r
  ens: r.start == start

fn span(left, right) -> r

fn Dir::pragma() -> r
  ens: r@ =~= sp_pragma(*self)

fn StmtListItem::into_mod_item() -> r
  ens: r == ModItem::StmtListItem(self)

fn Check::perform(module) -> r
  ens: r is Ok <==> (self is Module && !module)

fn Name:AtomExt::is_strict_reserved() -> r
  ens: r == (match *self { Name::Atom(a) => sp_reserved(a), _ => TriState::No })

fn Name:AtomExt::is_illegal_strict_binding() -> r
  ens: r == (match *self { Name::Atom(a) => sp_restricted(a), _ => false })

fn Atom:AtomExt::is_strict_reserved() -> r
  ens: r == sp_reserved(*self)

fn Atom:AtomExt::is_illegal_strict_binding() -> r
  ens: r == sp_restricted(*self)

fn Token:First::first_binding() -> r
  ens: r == (self.value is LBrace || self.value is LBrack || self.value is Identifier)

fn Token:First::pragma() -> r

fn Token:Follows::follow_statement_list() -> r
  ens: r == sp_follow(self.value)

fn Token:Follows::expression_continuation() -> r
  ens: r == sp_cont(*self)

fn Token:HasLabelType::label_type() -> r
  ens: r == sp_label_type(self.value)

fn Context::new() -> r
  ens: r.strict == Strict::Unknown && !r.function && !r.iteration && !r.switch && r.allow_in && r.labels@ == Map::<Name, LabelType>::empty()

fn Context::new_function() -> r
  ens: r.strict == self.strict && r.function && !r.iteration && !r.switch && r.allow_in && r.labels@ == Map::<Name, LabelType>::empty()

fn Deref::append_to(expr) -> r
fn Arguments::append_to(expr) -> r
fn Arguments::append_to_new(new, expr) -> r
fn Suffix::append_to(expr) -> r

fn Infix::groups_left(right) -> r
  ens[C18]: r == (sp_prec(*self) >= sp_prec(*right))
fn Frame::fill(right) -> r
  ens[C18]: filled(r, self, right)
fn Stack::new() -> r
  ens[C18]: r.frames@.len() == 0
fn Stack::extend(left, op)
  ens[C18]: forall|os: Seq<Expr>, ops: Seq<Infix>| #[trigger] stk(old(self).frames@, os, ops) ==> stk(final(self).frames@, os.push(left), ops.push(op))
  ghost: left0 = left
  loop 0
    inv[C18]: forall|os: Seq<Expr>, ops: Seq<Infix>| #[trigger] stk(old(self).frames@, os, ops) ==> ext(self.frames@, left, sp_prec(op), os.push(left0), ops)
    ens[C18]: self.frames@.len() == 0 || sp_prec(self.frames@.last().op) < sp_prec(op)
    dec: self.frames@.len()
fn Stack::finish(right) -> r
  ens[C18]: forall|os: Seq<Expr>, ops: Seq<Infix>| #[trigger] stk(self.frames@, os, ops) ==> tree(r, os.push(right), ops)
  ghost: right0 = right
  loop 0
    inv[C18]: forall|os: Seq<Expr>, ops: Seq<Infix>| #[trigger] stk(self.frames@, os, ops) ==> ext(vp_self.frames@, right, 0, os.push(right0), ops)
    dec: vp_self.frames@.len()

# ------------------------------------------------------------ entry points
fn unexpected_module(module) -> r
  loop 0
    dec: vp_it0@.len()
  loop 1
    dec: vp_it1@.len()
fn Program::script() -> r
fn Program::strict() -> r
  loop 0
    dec: vp_it0@.len()
fn Program::module() -> r
  loop 0
    dec: vp_it0@.len()
  loop 1
    dec: vp_it1@.len()

fn Parser::from_chars(i) -> r
  ens: starts(r, i.text())

fn Parser::new(validate, lexer) -> r
  req: lexer.q() == 0
  ens: fresh(r) && r.validate == validate && r.lexer == lexer

fn Parser::take_deferred() -> r
  ens: r@ == old(self).deferred@ && final(self).deferred@.len() == 0
  ens: final(self).lexer == old(self).lexer && final(self).validate == old(self).validate && final(self).goal == old(self).goal && final(self).context == old(self).context

fn Parser::unexpected() -> r
  req: old(self).lexer.q() >= 1
  ens: r is Err

fn Parser::set_module()
  ens: final(self).goal == Goal::Module && same_but_strict(old(self).context, final(self).context) && final(self).context.strict == Strict::Yes
  ens: final(self).lexer == old(self).lexer && final(self).validate == old(self).validate && final(self).deferred == old(self).deferred

fn Parser::module() -> r
  req: fresh(*old(self))

fn Parser::program() -> r
  req: fresh(*old(self))

fn Parser::script(strict) -> r
  req: fresh(*old(self))

fn Parser::script_body() -> r
  req: pre(*old(self)) && old(self).lexer.q() == 0
  dec: fu(*old(self)), 15nat
  ens: r is Ok ==> kpd(*old(self), *final(self)) && pre(*final(self)) && final(self).lexer.q() == 1 && sp_follow(cur(*final(self)))

fn Parser::match_directive_opt() -> r
  req: pre(*old(self)) && old(self).lexer.q() <= 1
  ens: r matches Ok(Some(_)) ==> post_s(*old(self), *final(self))
  ens: r matches Ok(None) ==> kp(*old(self), *final(self)) && pre(*final(self)) && final(self).lexer.pos() == old(self).lexer.pos()

fn Parser::body_directives() -> r
  req: pre(*old(self)) && old(self).lexer.q() <= 1
  ens: r is Ok ==> kpd(*old(self), *final(self)) && pre(*final(self))
  loop 0
    inv: kpd(*old(self), *self) && pre(*self)
    invx: self.lexer.q() <= 1
    dec: fu(*self)

fn Parser::force_deferred_module_validation() -> r
  ens: r is Ok ==> final(self).context == old(self).context && final(self).goal == old(self).goal && final(self).validate == old(self).validate && final(self).lexer == old(self).lexer
  ens: r is Ok ==> if old(self).validate { old(self).deferred@.len() == 0 && final(self).deferred@.len() == 0 } else { final(self).deferred == old(self).deferred }
  loop 0
    inv: self.lexer == old(self).lexer && self.context == old(self).context && self.goal == old(self).goal && self.validate == old(self).validate && self.deferred@.len() == 0 && (old(self).validate ==> old(self).deferred@.len() == vp_it0@.len()) && self.validate
    ens: vp_it0@.len() == 0
    dec: vp_it0@.len()

fn Parser::program_items() -> r
  req: pre(*old(self))
  ens: r is Ok ==> kp(*old(self), *final(self)) && pre(*final(self))
  loop 0
    inv: kp(*old(self), *self) && pre(*self)
    dec: fu(*self)
  loop 1
    dec: vp_it0@.len()

fn Parser::module_items() -> r
  req: pre(*old(self))
  ens: r is Ok ==> kp(*old(self), *final(self)) && pre(*final(self))

fn Parser::more_module_items(items) -> r
  req: pre(*old(self))
  ens: r is Ok ==> kp(*old(self), *final(self)) && pre(*final(self))
  loop 0
    inv: kp(*old(self), *self) && pre(*self)
    dec: fu(*self)

fn Parser::statement_list() -> r
  req: pre(*old(self))
  dec: fu(*old(self)), 14nat
  ens: r is Ok ==> kp(*old(self), *final(self)) && pre(*final(self)) && final(self).lexer.q() == 1 && sp_follow(cur(*final(self)))
  loop 0
    inv: kp(*old(self), *self) && pre(*self)
    ens: self.lexer.q() == 1 && sp_follow(cur(*self))
    dec: fu(*self)

# ------------------------------------------------------------ functions
fn Parser::function_declaration() -> r
  req: pre(*old(self)) && at(*old(self), resv(Reserved::Function))
  dec: fu(*old(self)), 1nat
  ens: r is Ok ==> post_s(*old(self), *final(self))

fn Parser::formal_parameters() -> r
  req: pre(*old(self))
  ens: r is Ok ==> adv(*old(self), *final(self)) && sane(*final(self)) && final(self).lexer.q() == 0
  loop 0
    inv: adv(*old(self), *self) && pre(*self) && self.lexer.q() <= 1
    dec: fu(*self)

fn Parser::pattern() -> r
  req: pre(*old(self))
  ens: r is Ok ==> adv(*old(self), *final(self)) && sane(*final(self)) && final(self).lexer.q() == dec1(old(self).lexer.q()) && r->Ok_0 is Simple && cur(*old(self)) is Identifier

fn Parser::binding_pattern() -> r
  ens: r is Err

fn Parser::function_body(params) -> r
  req: pre(*old(self))
  dec: fu(*old(self)), 1nat
  ens: r is Ok ==> adv(*old(self), *final(self)) && sane(*final(self)) && final(self).lexer.q() == 0

# ------------------------------------------------------------ statements
fn Parser::stmt_list_item(allow_decl) -> r
  req: pre(*old(self))
  dec: fu(*old(self)), 11nat
  ens: r is Ok ==> post_s(*old(self), *final(self)) && (!allow_decl ==> r->Ok_0 is Stmt)

fn Parser::statement() -> r
  req: pre(*old(self))
  dec: fu(*old(self)), 12nat
  ens: r is Ok ==> post_s(*old(self), *final(self))

fn Parser::labelled_statement(id) -> r
  req: pre(*old(self)) && at1(*old(self), TokenData::Colon)
  dec: fu(*old(self)), 1nat
  ens: r is Ok ==> post_s(*old(self), *final(self))
  loop 0
    inv: adv(*old(self), *self) && pre(*self)
    invx: self.lexer.q() <= 1
    dec: fu(*self)
  loop 1
    inv: lkp(*old(self), *self)
    inv: labs_in(old(self).context.labels@, self.context.labels@, label_strings@, label_type__h) && label_type__h == label_type
    dec: labels__h@.len() - vp_i0
  loop 2
    inv: result is Ok ==> lkp(*old(self), *self) && self.lexer.q() <= 1
    inv: result is Ok ==> labs_in(old(self).context.labels@, self.context.labels@, vp_it1@, label_type__h)
    ens: vp_it1@.len() == 0
    dec: vp_it1@.len()
  loop 3
    dec: vp_it2@.len()

fn Parser::expression_statement() -> r
  req: pre(*old(self))
  dec: fu(*old(self)), 10nat
  ens: r is Ok ==> post_s(*old(self), *final(self))

fn Parser::block() -> r
  req: pre(*old(self))
  dec: fu(*old(self)), 1nat
  ens: r is Ok ==> post_s(*old(self), *final(self)) && final(self).lexer.q() == 0

fn Parser::var_statement() -> r
  req: pre(*old(self)) && at(*old(self), resv(Reserved::Var))
  dec: fu(*old(self)), 1nat
  ens: r is Ok ==> post_s(*old(self), *final(self))

fn Parser::let_declaration(start) -> r
  req: pre(*old(self)) && old(self).lexer.q() == 1
  dec: fu(*old(self)), 12nat
  ens: r is Ok ==> post_s(*old(self), *final(self))

fn Parser::const_declaration() -> r
  req: pre(*old(self)) && at(*old(self), resv(Reserved::Const))
  dec: fu(*old(self)), 1nat
  ens: r is Ok ==> post_s(*old(self), *final(self))

fn Parser::new_id_from_token(binding, token) -> r
  req: sane(*old(self)) && token.value is Identifier
  ens: r matches Ok(id) ==> chk(*old(self), *final(self)) && id == (Id { location: Some(token.location), name: norm(token.value->Identifier_0) })

fn Parser::new_id(binding, name, location) -> r
  req: sane(*old(self))
  ens: r matches Ok(id) ==> chk(*old(self), *final(self)) && id == (Id { location: Some(location), name: norm(name) })

fn Parser::id(binding) -> r
  req: sane(*old(self))
  ens: r matches Ok(id) ==> kp(*old(self), *final(self)) && sane(*final(self)) && final(self).lexer.pos() == old(self).lexer.pos() + 1 && final(self).lexer.q() == dec1(old(self).lexer.q()) && (cur(*old(self)) matches TokenData::Identifier(n) && id.name == norm(n))

fn Parser::id_opt(binding) -> r
  req: sane(*old(self)) && old(self).lexer.q() <= 2
  ens: r matches Ok(Some(id)) ==> kp(*old(self), *final(self)) && sane(*final(self)) && final(self).lexer.pos() == old(self).lexer.pos() + 1 && final(self).lexer.q() == dec1(old(self).lexer.q()) && (cur(*old(self)) matches TokenData::Identifier(n) && id.name == norm(n))
  ens: r matches Ok(None) ==> pk(*old(self), *final(self), false) && !(cur(*old(self)) is Identifier)

fn Parser::declarator() -> r
  req: pre(*old(self)) && old(self).lexer.q() <= 1
  dec: fu(*old(self)), 9nat
  ens: r is Ok ==> post_d(*old(self), *final(self))

fn Parser::const_declarator() -> r
  req: pre(*old(self)) && old(self).lexer.q() <= 1
  dec: fu(*old(self)), 9nat
  ens: r is Ok ==> post_d(*old(self), *final(self))

fn Parser::more_comma__declarator(first) -> r
  req: pre(*old(self)) && old(self).lexer.q() == 1
  dec: fu(*old(self)), 10nat
  ens: r is Ok ==> kp(*old(self), *final(self)) && pre(*final(self)) && final(self).lexer.q() == 1
  loop 0
    inv: kp(*old(self), *self) && pre(*self) && self.lexer.q() == 1
    dec: fu(*self)

fn Parser::more_comma__const_declarator(first) -> r
  req: pre(*old(self)) && old(self).lexer.q() == 1
  dec: fu(*old(self)), 10nat
  ens: r is Ok ==> kp(*old(self), *final(self)) && pre(*final(self)) && final(self).lexer.q() == 1
  loop 0
    inv: kp(*old(self), *self) && pre(*self) && self.lexer.q() == 1
    dec: fu(*self)

fn Parser::more_comma__assignment_expression(first) -> r
  req: mid(*old(self)) && no_slash(*old(self)) && old(self).lexer.q() == 1
  dec: fu(*old(self)), 10nat
  ens: r is Ok ==> kp(*old(self), *final(self)) && mid(*final(self)) && no_slash(*final(self)) && final(self).lexer.q() == 1
  loop 0
    inv: kp(*old(self), *self) && mid(*self) && no_slash(*self) && self.lexer.q() == 1
    dec: fu(*self)

fn Parser::comma_separated__declarator() -> r
  req: pre(*old(self)) && old(self).lexer.q() <= 1
  dec: fu(*old(self)), 11nat
  ens: r is Ok ==> post_d(*old(self), *final(self))

fn Parser::comma_separated__const_declarator() -> r
  req: pre(*old(self)) && old(self).lexer.q() <= 1
  dec: fu(*old(self)), 11nat
  ens: r is Ok ==> post_d(*old(self), *final(self))

fn Parser::empty_statement() -> r
  req: pre(*old(self))
  ens: r is Ok ==> post_s(*old(self), *final(self))

fn Parser::if_statement() -> r
  req: pre(*old(self))
  dec: fu(*old(self)), 1nat
  ens: r is Ok ==> post_s(*old(self), *final(self))

fn Parser::iteration_body() -> r
  req: pre(*old(self))
  dec: fu(*old(self)), 13nat
  ens: r is Ok ==> post_s(*old(self), *final(self))

fn Parser::do_statement() -> r
  req: pre(*old(self)) && at(*old(self), resv(Reserved::Do))
  dec: fu(*old(self)), 1nat
  ens: r is Ok ==> post_s(*old(self), *final(self))

fn Parser::while_statement() -> r
  req: pre(*old(self)) && at(*old(self), resv(Reserved::While))
  dec: fu(*old(self)), 1nat
  ens: r is Ok ==> post_s(*old(self), *final(self))

fn Parser::for_statement() -> r
  req: pre(*old(self)) && at(*old(self), resv(Reserved::For))
  dec: fu(*old(self)), 1nat
  ens: r is Ok ==> post_s(*old(self), *final(self))

fn Parser::for_var() -> r
  req: pre(*old(self)) && at1(*old(self), resv(Reserved::Var))
  dec: fu(*old(self)), 11nat
  ens: r is Ok ==> post_s(*old(self), *final(self))

fn Parser::for_let() -> r
  req: pre(*old(self)) && at1(*old(self), TokenData::Identifier(Name::Atom(Atom::Let)))
  dec: fu(*old(self)), 11nat
  ens: r is Ok ==> post_s(*old(self), *final(self))

fn Parser::for_const() -> r
  req: pre(*old(self)) && at1(*old(self), resv(Reserved::Const))
  dec: fu(*old(self)), 11nat
  ens: r is Ok ==> post_s(*old(self), *final(self))

fn Parser::for_expr() -> r
  req: pre(*old(self))
  dec: fu(*old(self)), 10nat
  ens: r is Ok ==> post_s(*old(self), *final(self))

fn Parser::more_for_head__ForHead_Var(start, dtor) -> r
  req: pre(*old(self)) && old(self).lexer.q() == 1
  dec: fu(*old(self)), 15nat
  ens: r is Ok ==> post_s(*old(self), *final(self))

fn Parser::more_for_head__ForHead_Let(start, dtor) -> r
  req: pre(*old(self)) && old(self).lexer.q() == 1
  dec: fu(*old(self)), 15nat
  ens: r is Ok ==> post_s(*old(self), *final(self))

fn Parser::more_for(head) -> r
  req: pre(*old(self)) && old(self).lexer.q() <= 1
  dec: fu(*old(self)), 14nat
  ens: r is Ok ==> post_s(*old(self), *final(self))

fn Parser::more_for_in(head) -> r
  req: pre(*old(self))
  dec: fu(*old(self)), 14nat
  ens: r is Ok ==> post_s(*old(self), *final(self))

fn Parser::more_for_of(head) -> r
  req: pre(*old(self))
  dec: fu(*old(self)), 14nat
  ens: r is Ok ==> post_s(*old(self), *final(self))

fn Parser::expression_opt_semi() -> r
  req: pre(*old(self)) && old(self).lexer.q() <= 1
  dec: fu(*old(self)), 10nat
  ens: r is Ok ==> adv(*old(self), *final(self)) && sane(*final(self)) && final(self).lexer.q() == 0

fn Parser::switch_statement() -> r
  req: pre(*old(self)) && at(*old(self), resv(Reserved::Switch))
  dec: fu(*old(self)), 1nat
  ens: r is Ok ==> post_s(*old(self), *final(self))

fn Parser::switch_cases() -> r
  req: pre(*old(self))
  dec: fu(*old(self)), 2nat
  ens: r is Ok ==> post_s(*old(self), *final(self))
  loop 0
    inv: adv(*old(self), *self) && pre(*self) && self.lexer.q() <= 1
    dec: fu(*self)

fn Parser::case() -> r
  req: pre(*old(self)) && at1(*old(self), resv(Reserved::Case))
  dec: fu(*old(self)), 1nat
  ens: r is Ok ==> post_s(*old(self), *final(self))

fn Parser::default() -> r
  req: pre(*old(self)) && at1(*old(self), resv(Reserved::Default))
  dec: fu(*old(self)), 1nat
  ens: r is Ok ==> post_s(*old(self), *final(self))

fn Parser::break_statement() -> r
  req: pre(*old(self)) && at(*old(self), resv(Reserved::Break))
  ens: r is Ok ==> post_s(*old(self), *final(self))

fn Parser::continue_statement() -> r
  req: pre(*old(self)) && at(*old(self), resv(Reserved::Continue))
  ens: r is Ok ==> post_s(*old(self), *final(self))

fn Parser::return_statement() -> r
  req: pre(*old(self)) && at(*old(self), resv(Reserved::Return))
  dec: fu(*old(self)), 1nat
  ens: r is Ok ==> post_s(*old(self), *final(self))

fn Parser::with_statement() -> r
  req: pre(*old(self)) && at(*old(self), resv(Reserved::With))
  dec: fu(*old(self)), 1nat
  ens: r is Ok ==> post_s(*old(self), *final(self))

fn Parser::throw_statement() -> r
  req: pre(*old(self)) && at(*old(self), resv(Reserved::Throw))
  dec: fu(*old(self)), 1nat
  ens: r is Ok ==> post_s(*old(self), *final(self))

fn Parser::try_statement() -> r
  req: pre(*old(self)) && at(*old(self), resv(Reserved::Try))
  dec: fu(*old(self)), 1nat
  ens: r is Ok ==> post_s(*old(self), *final(self))

fn Parser::catch_opt() -> r
  req: pre(*old(self)) && old(self).lexer.q() == 1
  dec: fu(*old(self)), 1nat
  ens: r matches Ok(Some(_)) ==> post_s(*old(self), *final(self))
  ens: r matches Ok(None) ==> kp(*old(self), *final(self)) && final(self).lexer.pos() == old(self).lexer.pos() && final(self).lexer.q() == 1 && pre(*final(self)) && cur(*final(self)) != resv(Reserved::Catch)

fn Parser::finally_opt() -> r
  req: pre(*old(self)) && old(self).lexer.q() <= 1
  dec: fu(*old(self)), 1nat
  ens: r matches Ok(Some(_)) ==> post_s(*old(self), *final(self))
  ens: r matches Ok(None) ==> kp(*old(self), *final(self)) && final(self).lexer.pos() == old(self).lexer.pos() && pre(*final(self)) && final(self).lexer.q() == 1 && cur(*final(self)) != resv(Reserved::Finally)

fn Parser::debugger_statement() -> r
  req: pre(*old(self)) && at(*old(self), resv(Reserved::Debugger))
  ens: r is Ok ==> post_s(*old(self), *final(self))

# ------------------------------------------------------------ expressions
fn Parser::paren_expression() -> r
  req: pre(*old(self))
  dec: fu(*old(self)), 1nat
  ens: r is Ok ==> adv(*old(self), *final(self)) && sane(*final(self)) && final(self).lexer.q() == 0

fn Parser::primary_expression() -> r
  req: pre(*old(self))
  dec: fu(*old(self)), 2nat
  ens: r is Ok ==> post_o(*old(self), *final(self))

fn Parser::array_literal(start) -> r
  req: pre(*old(self)) && old(self).lexer.q() <= 1
  dec: fu(*old(self)), 12nat
  ens: r is Ok ==> adv(*old(self), *final(self)) && sane(*final(self)) && final(self).lexer.q() == 0

fn Parser::expr_list_item() -> r
  req: pre(*old(self)) && old(self).lexer.q() <= 1
  dec: fu(*old(self)), 9nat
  ens: r is Ok ==> post_e(*old(self), *final(self))

fn Parser::array_element() -> r
  req: pre(*old(self)) && old(self).lexer.q() <= 1
  dec: fu(*old(self)), 10nat
  ens: r matches Ok(Some(_)) ==> post_e(*old(self), *final(self))
  ens: r matches Ok(None) ==> kp(*old(self), *final(self)) && pre(*final(self)) && mid(*final(self)) && final(self).lexer.pos() == old(self).lexer.pos() && at1(*final(self), TokenData::Comma)

fn Parser::object_literal(start) -> r
  req: pre(*old(self)) && old(self).lexer.q() <= 1
  dec: fu(*old(self)), 12nat
  ens: r is Ok ==> adv(*old(self), *final(self)) && sane(*final(self)) && final(self).lexer.q() == 0
  loop 0
    inv: kp(*old(self), *self) && sane(*self) && self.lexer.q() <= 1
    dec: fu(*self)

fn Parser::more_prop_init(key) -> r
  req: sane(*old(self)) && old(self).lexer.q() <= 1 && (key is Id ==> key.loc() is Some)
  dec: fu(*old(self)), 10nat
  ens: r is Ok ==> kp(*old(self), *final(self)) && sane(*final(self)) && final(self).lexer.q() <= 1

fn Parser::property_key_opt() -> r
  req: sane(*old(self)) && old(self).lexer.q() <= 2
  ens: r matches Ok(Some(k)) ==> rd(*old(self), *final(self), false) && k.loc() is Some && !(cur(*old(self)) is EOF)
  ens: r matches Ok(None) ==> pk(*old(self), *final(self), false)

fn Parser::property_key() -> r
  req: sane(*old(self)) && old(self).lexer.q() <= 2
  ens: r matches Ok(k) ==> rd(*old(self), *final(self), false) && k.loc() is Some && !(cur(*old(self)) is EOF)

fn Parser::object_property() -> r
  req: sane(*old(self)) && old(self).lexer.q() == 1
  dec: fu(*old(self)), 11nat
  ens: r is Ok ==> adv(*old(self), *final(self)) && sane(*final(self)) && final(self).lexer.q() <= 1

fn Parser::member_base_expression() -> r
  req: pre(*old(self))
  dec: fu(*old(self)), 3nat
  ens: r is Ok ==> post_o(*old(self), *final(self))

fn Parser::new_expression(news) -> r
  req: pre(*old(self))
  dec: fu(*old(self)), 7nat
  ens: r is Ok ==> post_o(*old(self), *final(self))

fn Parser::more_new_expression(news, base) -> r
  req: mid(*old(self))
  dec: fu(*old(self)), 6nat
  ens: r is Ok ==> kp(*old(self), *final(self)) && mid(*final(self))
  loop 0
    inv: kp(*old(self), *self) && mid(*self)
    dec: vp_it0@.len()

fn Parser::more_derefs(base) -> r
  req: mid(*old(self))
  dec: fu(*old(self)), 5nat
  ens: r is Ok ==> kp(*old(self), *final(self)) && mid(*final(self))
  loop 0
    inv: kp(*old(self), *self) && mid(*self)
    dec: fu(*self)

fn Parser::call_expression() -> r
  req: pre(*old(self))
  dec: fu(*old(self)), 4nat
  ens: r is Ok ==> post_o(*old(self), *final(self))

fn Parser::suffix_opt() -> r
  req: mid(*old(self))
  dec: fu(*old(self)), 4nat
  ens: r matches Ok(Some(_)) ==> post_o(*old(self), *final(self))
  ens: r matches Ok(None) ==> pk(*old(self), *final(self), true) && mid(*final(self))

fn Parser::arguments() -> r
  req: mid(*old(self))
  dec: fu(*old(self)), 3nat
  ens: r is Ok ==> adv(*old(self), *final(self)) && sane(*final(self)) && final(self).lexer.q() == 0

fn Parser::deref_opt() -> r
  req: mid(*old(self))
  dec: fu(*old(self)), 4nat
  ens: r matches Ok(Some(_)) ==> post_o(*old(self), *final(self))
  ens: r matches Ok(None) ==> pk(*old(self), *final(self), true) && mid(*final(self))

fn Parser::deref_brack() -> r
  req: mid(*old(self)) && at1(*old(self), TokenData::LBrack)
  dec: fu(*old(self)), 3nat
  ens: r is Ok ==> adv(*old(self), *final(self)) && sane(*final(self)) && final(self).lexer.q() == 0

fn Parser::id_name() -> r
  req: old(self).lexer.q() == 0
  ens: r is Ok ==> rd(*old(self), *final(self), false) && !(cur(*old(self)) is EOF)

fn Parser::deref_dot() -> r
  req: mid(*old(self)) && at1(*old(self), TokenData::Dot)
  ens: r is Ok ==> adv(*old(self), *final(self)) && sane(*final(self)) && final(self).lexer.q() == 0

fn Parser::more_suffixes(result) -> r
  req: mid(*old(self))
  dec: fu(*old(self)), 5nat
  ens: r is Ok ==> kp(*old(self), *final(self)) && mid(*final(self))
  loop 0
    inv: kp(*old(self), *self) && mid(*self)
    dec: fu(*self)

fn Parser::lhs_expression() -> r
  req: pre(*old(self))
  dec: fu(*old(self)), 5nat
  ens: r is Ok ==> post_o(*old(self), *final(self))
  loop 0
    inv: kp(*old(self), *self) && pre(*self) && (news@.len() > 0 ==> self.lexer.q() <= 1) && (news@.len() > 0 ==> fu(*self) < fu(*old(self)))
    ens: self.lexer.q() >= 1
    dec: fu(*self)

fn Parser::unary_expression() -> r
  req: pre(*old(self))
  dec: fu(*old(self)), 6nat
  ens: r is Ok ==> post_o(*old(self), *final(self))
  loop 0
    inv: kp(*old(self), *self) && pre(*self)
    dec: fu(*self)
  loop 1
    inv: adv(*old(self), *self) && mid(*self)
    dec: vp_it0@.len()

fn Parser::match_prefix() -> r
  req: pre(*old(self))
  ens: r matches Ok(Some(_)) ==> adv(*old(self), *final(self)) && pre(*final(self))
  ens: r matches Ok(None) ==> kp(*old(self), *final(self)) && pre(*final(self)) && final(self).lexer.pos() == old(self).lexer.pos()

fn Parser::match_unop() -> r
  req: pre(*old(self))
  ens: r matches Ok(Some(_)) ==> adv(*old(self), *final(self)) && pre(*final(self))
  ens: r matches Ok(None) ==> kp(*old(self), *final(self)) && pre(*final(self)) && final(self).lexer.pos() == old(self).lexer.pos()

fn Parser::match_postfix_operator_opt() -> r
  req: mid(*old(self))
  ens: r is Ok ==> kp(*old(self), *final(self)) && mid(*final(self))

fn Parser::conditional_expression() -> r
  req: pre(*old(self))
  dec: fu(*old(self)), 7nat
  ens: r is Ok ==> adv(*old(self), *final(self)) && mid(*final(self)) && final(self).lexer.q() == 1 && !(cur(*final(self)) is Slash)

fn Parser::more_conditional(left) -> r
  req: mid(*old(self)) && old(self).lexer.q() == 1 && !(cur(*old(self)) is Slash)
  dec: fu(*old(self)), 7nat
  ens: r is Ok ==> kp(*old(self), *final(self)) && mid(*final(self)) && final(self).lexer.q() == 1 && !(cur(*final(self)) is Slash)

fn Parser::assignment_expression() -> r
  req: pre(*old(self))
  dec: fu(*old(self)), 8nat
  ens: r is Ok ==> post_e(*old(self), *final(self))

fn Parser::more_assignment(left) -> r
  req: mid(*old(self)) && old(self).lexer.q() == 1 && !(cur(*old(self)) is Slash)
  dec: fu(*old(self)), 7nat
  ens: r is Ok ==> kp(*old(self), *final(self)) && mid(*final(self)) && final(self).lexer.q() == 1 && no_slash(*final(self))

fn Parser::more_infix_expressions(left) -> r
  req: mid(*old(self))
  dec: fu(*old(self)), 7nat
  ens: r is Ok ==> kp(*old(self), *final(self)) && mid(*final(self)) && final(self).lexer.q() == 1 && !(cur(*final(self)) is Slash)
  loop 0
    inv: kp(*old(self), *self) && mid(*self)
    ens: self.lexer.q() == 1 && !(cur(*self) is Slash)
    dec: fu(*self)

fn Parser::match_infix() -> r
  req: mid(*old(self))
  ens: r matches Ok(Some(_)) ==> adv(*old(self), *final(self)) && sane(*final(self)) && final(self).lexer.q() == 0
  ens: r matches Ok(None) ==> kp(*old(self), *final(self)) && mid(*final(self)) && final(self).lexer.q() == 1 && !(cur(*final(self)) is Slash)

fn Parser::expression() -> r
  req: pre(*old(self))
  dec: fu(*old(self)), 9nat
  ens: r is Ok ==> post_e(*old(self), *final(self))

fn Parser::more_expressions(first) -> r
  req: mid(*old(self)) && old(self).lexer.q() == 1 && no_slash(*old(self))
  dec: fu(*old(self)), 11nat
  ens: r is Ok ==> kp(*old(self), *final(self)) && mid(*final(self)) && final(self).lexer.q() == 1 && no_slash(*final(self))

fn Token:ToOp::to_binop(allow_in) -> r
  ens[C18]: r == (match sp_binop(self.value, allow_in) { Some(tag) => Some(Op { location: Some(self.location), tag: tag }), None => None })
fn Token:ToOp::to_logop() -> r
  ens[C18]: r == (match sp_logop(self.value) { Some(tag) => Some(Op { location: Some(self.location), tag: tag }), None => None })
fn Token:ToOp::to_assop() -> r
  ens[C18]: r == (match sp_assop(self.value) { Some(tag) => Some(Op { location: Some(self.location), tag: tag }), None => None })

fn Precedence::precedence() -> r
  ens[C18]: r == self.lev()
fn BinopTag:Precedence::precedence() -> r
fn LogopTag:Precedence::precedence() -> r
fn AssopTag:Precedence::precedence() -> r
fn Op:Precedence::precedence() -> r
fn Infix:Precedence::precedence() -> r
fn Frame:Precedence::precedence() -> r

inject trait Precedence
    spec fn lev(&self) -> int;
inject impl BinopTag:Precedence
    spec fn lev(&self) -> int { sp_bin_level(*self) }
inject impl LogopTag:Precedence
    spec fn lev(&self) -> int { if *self is Or { 2 } else { 3 } }
inject impl AssopTag:Precedence
    spec fn lev(&self) -> int { 0 }
inject impl Op:Precedence
    spec fn lev(&self) -> int { self.tag.lev() }
inject impl Infix:Precedence
    spec fn lev(&self) -> int { sp_prec(*self) }
inject impl Frame:Precedence
    spec fn lev(&self) -> int { sp_prec(self.op) }

fn Parser::new_id__c0(binding, name, location) -> r
  sig: (&mut self, binding: bool, name: &Name, location: Span) -> Option<Check>
  ens: *final(self) == *old(self)
  ens: r == sp_id_check(binding, *name, location)

fn Parser::function_body__c0(body, params) -> r
  sig: (&mut self, body: &Script, params: &Vec<Patt<Id>>) -> Option<Check>
  ens: *final(self) == *old(self)
  loop 0
    inv: *self == *old(self)
    dec: body.dirs@.len() - vp_j0
  loop 1
    inv: *self == *old(self)
    dec: params@.len() - vp_i0

fn Parser::array_literal__c0(start) -> r
  sig: (&mut self, start: Token) -> Result<Expr>
  req: pre(*old(self)) && old(self).lexer.q() <= 1
  dec: fu(*old(self)), 11nat
  ens: r is Ok ==> adv(*old(self), *final(self)) && sane(*final(self)) && final(self).lexer.q() == 0
  loop 0
    inv: kp(*old(self), *self) && sane(*self) && self.lexer.q() <= 1 && no_slash(*self)
    dec: fu(*self)

fn Parser::arguments__c0() -> r
  sig: (&mut self) -> Result<Arguments>
  req: mid(*old(self))
  dec: fu(*old(self)), 2nat
  ens: r is Ok ==> adv(*old(self), *final(self)) && sane(*final(self)) && final(self).lexer.q() == 0
  loop 0
    inv: adv(*old(self), *self) && pre(*self) && self.lexer.q() <= 1
    dec: fu(*self)

fn Parser::for_const__c0(lhs) -> r
  sig: (&mut self, lhs: Patt<Id>) -> Result<Vec<ConstDtor>>
  req: pre(*old(self)) && old(self).lexer.q() <= 1
  dec: fu(*old(self)), 11nat
  ens: r is Ok ==> post_d(*old(self), *final(self))
