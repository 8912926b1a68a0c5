# Rejected for the lack of a semicolon: only where none can be inserted
fn Parser:State::skip() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser:State::read() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser:State::read_op() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser:State::peek() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser:State::peek_op() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser:State::expect(expected) -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser:State::matches_token(expected) -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser:State::matches(expected) -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser:State::matches_op(expected) -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser:State::has_arg_same_line() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::unexpected() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::module() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::script(strict) -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::script_body() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::match_directive_opt() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::body_directives() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::module_items() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::more_module_items(items) -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::statement_list() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::function_declaration() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::formal_parameters() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::pattern() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::binding_pattern() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::function_body(params) -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::stmt_list_item(allow_decl) -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::statement() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::labelled_statement(id) -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::expression_statement() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::block() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::var_statement() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::let_declaration(start) -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::const_declaration() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::new_id_from_token(binding, token) -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::new_id(binding, name, location) -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::id(binding) -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::id_opt(binding) -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::declarator() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::const_declarator() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::more_comma__declarator(first) -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::more_comma__const_declarator(first) -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::more_comma__assignment_expression(first) -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::comma_separated__declarator() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::comma_separated__const_declarator() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::empty_statement() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::if_statement() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::iteration_body() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::do_statement() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::while_statement() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::for_statement() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::for_var() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::for_let() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::for_const() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::for_expr() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::more_for_head__ForHead_Var(start, dtor) -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::more_for_head__ForHead_Let(start, dtor) -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::more_for(head) -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::more_for_in(head) -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::more_for_of(head) -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::expression_opt_semi() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::switch_statement() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::switch_cases() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::case() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::default() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::break_statement() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::continue_statement() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::return_statement() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::with_statement() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::throw_statement() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::try_statement() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::catch_opt() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::finally_opt() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::debugger_statement() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::paren_expression() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::primary_expression() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::array_literal(start) -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::expr_list_item() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::array_element() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::object_literal(start) -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::more_prop_init(key) -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::property_key_opt() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::property_key() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::object_property() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::member_base_expression() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::new_expression(news) -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::more_new_expression(news, base) -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::more_derefs(base) -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::call_expression() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::suffix_opt() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::arguments() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::deref_opt() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::deref_brack() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::id_name() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::deref_dot() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::more_suffixes(result) -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::lhs_expression() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::unary_expression() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::match_prefix() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::match_unop() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::match_postfix_operator_opt() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::conditional_expression() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::more_conditional(left) -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::assignment_expression() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::more_assignment(left) -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::more_infix_expressions(left) -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::match_infix() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::expression() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::more_expressions(first) -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::array_literal__c0(start) -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::arguments__c0() -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::for_const__c0(lhs) -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn Parser::function_body__c0(body, params) -> r
  ens[C23]: !(r matches Some(Check::Strict(Error::FailedASI(_)))) && !(r matches Some(Check::Module(Error::FailedASI(_))))
fn script(s) -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn strict(s) -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
fn module(s) -> r
  ens[C23]: r matches Err(e) ==> asi_failed(e)
