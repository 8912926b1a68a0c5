// ---------------------------------------------------------------- the grammar (ECMA-262, as far as the parser goes)
// E(h, i, j, e, lv, n): the tokens i .. j-1 derive the expression e at level lv, where `in`
// is an operator exactly if n.  S(h, i, j, s): they derive the statement s;
// body_at(h, i, j, b): the function body b.
// They are known by their productions only: rule_e, rule_sub, rule_s and rule_b state that
// they are closed under the productions of the grammar, nothing states
// that anything else holds of them.  So what is proved holds of every relation closed
// under the productions, and hence of the least one, which is derivability.
uninterp spec fn E(h: Hist, i: int, j: int, e: Expr, lv: int, n: bool) -> bool;
uninterp spec fn S(h: Hist, i: int, j: int, s: Stmt) -> bool;
uninterp spec fn body_at(h: Hist, i: int, j: int, b: Script) -> bool;
// levels: -1 Expression, 0 AssignmentExpression, 1 ConditionalExpression, 2 binary operators,
// 12 UnaryExpression, 13 PostfixExpression, 14 LeftHandSideExpression, 15 CallExpression or
// MemberExpression, 16 NewExpression, 17 MemberExpression, 18 PrimaryExpression
#[verifier::external_body]
broadcast proof fn rule_e(h: Hist, i: int, j: int, e: Expr, lv: int, n: bool)
    requires e_rule(h, i, j, e, lv, n) || parens(h, i, j, e) || lv <= 2 && chain(h, i, j, e, n),
    ensures #[trigger] E(h, i, j, e, lv, n) { }
// every level includes the tighter ones (a NewExpression without arguments is no CallExpression)
#[verifier::external_body]
broadcast proof fn rule_sub(h: Hist, i: int, j: int, e: Expr, lv: int, l2: int, n: bool)
    requires E(h, i, j, e, lv, n), l2 <= lv, !(lv == 16 && l2 == 15),
    ensures #![trigger E(h, i, j, e, lv, n), E(h, i, j, e, l2, n)] E(h, i, j, e, l2, n) { }
#[verifier::external_body]
broadcast proof fn rule_s(h: Hist, i: int, j: int, s: Stmt)
    requires s_rule(h, i, j, s),
    ensures #[trigger] S(h, i, j, s) { }
// "{" directives and statements "}"
#[verifier::external_body]
broadcast proof fn rule_b(h: Hist, i: int, j: int, b: Script)
    requires tv(h, i) is LBrace && tv(h, j - 1) is RBrace && script_at(h, i + 1, j - 1, b),
    ensures #[trigger] body_at(h, i, j, b) { }
// "get" and "set" are spelled so (C08)
#[verifier::external_body]
broadcast proof fn axiom_get_set(n: Name)
    ensures n == Name::Atom(Atom::Get) ==> #[trigger] name_str(n) == "get"@, n == Name::Atom(Atom::Set) ==> name_str(n) == "set"@ { }

spec fn sp_unop(t: TokenData) -> Option<UnopTag> {
    match t {
        TokenData::Reserved(Reserved::Delete) => Some(UnopTag::Delete),
        TokenData::Reserved(Reserved::Void) => Some(UnopTag::Void),
        TokenData::Reserved(Reserved::Typeof) => Some(UnopTag::Typeof),
        TokenData::Plus => Some(UnopTag::Plus),
        TokenData::Minus => Some(UnopTag::Minus),
        TokenData::Tilde => Some(UnopTag::BitNot),
        TokenData::Bang => Some(UnopTag::Not),
        _ => None,
    }
}
spec fn expr0(h: Hist, i: int, j: int, e: Expr, n: bool) -> bool { E(h, i, j, e, 0, n) }
// "(" Expression ")"
spec fn parens(h: Hist, i: int, j: int, e: Expr) -> bool {
    tv(h, i) is LParen && exists|i1: int, j1: int| i1 == i + 1 && j == j1 + 1 && #[trigger] E(h, i1, j1, e, -1, true) && tv(h, j1) is RParen
}
// "[" Expression "]"
spec fn bracks(h: Hist, i: int, j: int, e: Expr) -> bool {
    tv(h, i) is LBrack && exists|i1: int, j1: int| i1 == i + 1 && j == j1 + 1 && #[trigger] E(h, i1, j1, e, -1, true) && tv(h, j1) is RBrack
}
spec fn op_at(h: Hist, m: int, op: Infix, n: bool) -> bool {
    match op {
        Infix::Binop(b) => sp_binop(tv(h, m), n) == Some(b.tag),
        Infix::Logop(b) => sp_logop(tv(h, m)) == Some(b.tag),
    }
}
// operands os and operators ops alternate from i on, an operator last
spec fn sq(h: Hist, i: int, j: int, os: Seq<Expr>, ops: Seq<Infix>, n: bool) -> bool
    decreases ops.len()
{
    os.len() == ops.len() && if ops.len() == 0 { i == j } else {
        exists|k: int| #[trigger] mk(k) && sq(h, i, k, os.drop_last(), ops.drop_last(), n) && E(h, k, j - 1, os.last(), 12, n) && op_at(h, j - 1, ops.last(), n)
    }
}
broadcast proof fn sq_nil(h: Hist, i: int, os: Seq<Expr>, ops: Seq<Infix>, n: bool)
    requires os.len() == 0, ops.len() == 0,
    ensures #[trigger] sq(h, i, i, os, ops, n)
{ }
broadcast proof fn sq_push(h: Hist, i: int, k: int, m: int, os: Seq<Expr>, ops: Seq<Infix>, o: Expr, op: Infix, n: bool)
    requires sq(h, i, k, os, ops, n), E(h, k, m, o, 12, n), op_at(h, m, op, n),
    ensures #![trigger sq(h, i, k, os, ops, n), E(h, k, m, o, 12, n), op_at(h, m, op, n)] sq(h, i, m + 1, os.push(o), ops.push(op), n)
{
    assert(os.push(o).drop_last() =~= os);
    assert(ops.push(op).drop_last() =~= ops);
    assert(mk(k));
}
// UnaryExpression (Infix UnaryExpression)*, grouped by precedence
spec fn chain(h: Hist, i: int, j: int, e: Expr, n: bool) -> bool {
    exists|k: int, os: Seq<Expr>, ops: Seq<Infix>, o: Expr| #[trigger] sq(h, i, k, os, ops, n) && #[trigger] E(h, k, j, o, 12, n) && tree(e, os.push(o), ops)
}
spec fn word_at(h: Hist, i: int, s: Seq<char>) -> bool {
    match tv(h, i) {
        TokenData::Identifier(n) => s == name_str(n),
        TokenData::Reserved(w) => s == res_str(w),
        _ => false,
    }
}
spec fn id_at(h: Hist, i: int, id: Id) -> bool { tv(h, i) matches TokenData::Identifier(n) && id.name == norm(n) }
spec fn atom_at(h: Hist, i: int, a: Atom) -> bool { tv(h, i) == TokenData::Identifier(Name::Atom(a)) }
spec fn res_at(h: Hist, i: int, r: Reserved) -> bool { tv(h, i) == TokenData::Reserved(r) }
spec fn item_at(h: Hist, i: int, j: int, x: ExprListItem) -> bool {
    match x {
        ExprListItem::Expr(e) => E(h, i, j, e, 0, true),
        ExprListItem::Spread(_, e) => tv(h, i) is Ellipsis && E(h, i + 1, j, e, 0, true),
    }
}
spec fn elt_at(h: Hist, i: int, j: int, x: Option<ExprListItem>) -> bool {
    match x {
        Some(y) => item_at(h, i, j, y),
        None => i == j,
    }
}
spec fn args_at(h: Hist, i: int, j: int, s: Seq<ExprListItem>) -> bool {
    tv(h, i) is LParen && (s.len() == 0 && tv(h, i + 1) is RParen && j == i + 2
        || exists|i1: int, j1: int| i1 == i + 1 && j == j1 + 1 && #[trigger] args_l(h, i1, j1, s) && tv(h, j1) is RParen)
}
// an array literal after its "[": a trailing comma adds no element, other empty places are holes
spec fn array_rest(h: Hist, i: int, j: int, s: Seq<Option<ExprListItem>>) -> bool {
    tv(h, j - 1) is RBrack && (elts_c(h, i, j - 1, s) || elts_l(h, i, j - 1, s) && s.last() is Some)
}
spec fn key_at(h: Hist, i: int, k: PropKey) -> bool {
    match k {
        PropKey::Id(_, s) => word_at(h, i, s@),
        PropKey::String(_, s) => tv(h, i) == TokenData::String(s),
        PropKey::Number(_, x) => tv(h, i) == TokenData::Number(x),
    }
}
spec fn prop_at(h: Hist, i: int, j: int, p: Prop) -> bool {
    match p {
        Prop::Regular(_, key, PropVal::Init(e)) => key_at(h, i, key) && tv(h, i + 1) is Colon && E(h, i + 2, j, e, 0, true),
        Prop::Regular(_, key, PropVal::Get(_, body)) => atom_at(h, i, Atom::Get) && key_at(h, i + 1, key) && tv(h, i + 2) is LParen && tv(h, i + 3) is RParen && body_at(h, i + 4, j, body),
        Prop::Regular(_, key, PropVal::Set(_, param, body)) => atom_at(h, i, Atom::Set) && key_at(h, i + 1, key) && tv(h, i + 2) is LParen && patt_at(h, i + 3, i + 4, param) && tv(h, i + 4) is RParen && body_at(h, i + 5, j, body),
        Prop::Method(f) => if f.generator { tv(h, i) is Star && key_at(h, i + 1, f.id) && fun_rest(h, i + 2, j, f.params, f.body) } else { key_at(h, i, f.id) && fun_rest(h, i + 1, j, f.params, f.body) },
        Prop::Shorthand(id) => j == i + 1 && (tv(h, i) matches TokenData::Identifier(n) && id.name == norm(str_name(name_str(n)))),
    }
}
spec fn object_rest(h: Hist, i: int, j: int, s: Seq<Prop>) -> bool {
    tv(h, j - 1) is RBrace && (props_c(h, i, j - 1, s) || props_l(h, i, j - 1, s))
}
spec fn patt_at(h: Hist, i: int, j: int, p: Patt<Id>) -> bool { j == i + 1 && (p matches Patt::Simple(id) && id_at(h, i, id)) }
// between the parentheses of the formal parameters
spec fn params_in(h: Hist, i: int, j: int, list: Seq<Patt<Id>>, rest: Option<RestPatt<Id>>) -> bool {
    match rest {
        None => patts_c(h, i, j, list) || patts_l(h, i, j, list),
        Some(r) => patts_c(h, i, j - 2, list) && tv(h, j - 2) is Ellipsis && patt_at(h, j - 1, j, r.patt),
    }
}
spec fn no_rest(rest: Option<RestPatt<Id>>) -> bool { rest is None }
spec fn params_rest(h: Hist, i: int, j: int, p: Params) -> bool { tv(h, j - 1) is RParen && params_in(h, i, j - 1, p.list@, p.rest) }
spec fn params_at(h: Hist, i: int, j: int, p: Params) -> bool { tv(h, i) is LParen && params_rest(h, i + 1, j, p) }
spec fn fun_rest(h: Hist, i: int, j: int, p: Params, body: Script) -> bool {
    exists|k: int, q: Params| #[trigger] params_at(h, i, k, q) && q == p && body_at(h, k, j, body)
}
// a generator has a "*" after "function"
spec fn star(generator: bool) -> int { if generator { 1 } else { 0 } }
spec fn fun_head(h: Hist, i: int, generator: bool) -> bool { res_at(h, i, Reserved::Function) && generator == (tv(h, i + 1) is Star) }
spec fn fun_expr(h: Hist, i: int, j: int, f: Fun<Option<Id>>) -> bool {
    fun_head(h, i, f.generator) && match f.id {
        Some(id) => id_at(h, i + 1 + star(f.generator), id) && fun_rest(h, i + 2 + star(f.generator), j, f.params, f.body),
        None => fun_rest(h, i + 1 + star(f.generator), j, f.params, f.body),
    }
}
spec fn fun_decl(h: Hist, i: int, j: int, f: Fun<Id>) -> bool {
    fun_head(h, i, f.generator) && id_at(h, i + 1 + star(f.generator), f.id) && fun_rest(h, i + 2 + star(f.generator), j, f.params, f.body)
}
// the next token starts a directive
spec fn dir_like(h: Hist, k: int) -> bool { tv(h, k) is String && !sp_cont(tk(h, k + 1)) }
spec fn dir_(h: Hist, i: int, j: int, d: Dir) -> bool { dir_like(h, i) && tv(h, i) == TokenData::String(d.string) && semi_at(h, i + 1, j, d.semi) }
spec fn script_at(h: Hist, i: int, j: int, b: Script) -> bool {
    exists|k: int, d: Seq<Dir>| #[trigger] dirs_s(h, i, k, d) && d == b.dirs@ && !dir_like(h, k) && items_s(h, k, j, b.items@)
}
// an inserted semicolon takes no token (where one may be inserted is C23's matter)
spec fn semi_at(h: Hist, i: int, j: int, s: Semi) -> bool {
    match s {
        Semi::Explicit(_) => tv(h, i) is Semi && j == i + 1,
        Semi::Inserted => j == i,
    }
}
// the object of a member expression is a call expression where the whole may be one
spec fn obj_lv(lv: int) -> int { if lv <= 15 { 15 } else { 17 } }
spec fn e_rule(h: Hist, i: int, j: int, e: Expr, lv: int, n: bool) -> bool {
    match e {
        Expr::This(_) => j == i + 1 && res_at(h, i, Reserved::This),
        Expr::Null(_) => j == i + 1 && res_at(h, i, Reserved::Null),
        Expr::True(_) => j == i + 1 && res_at(h, i, Reserved::True),
        Expr::False(_) => j == i + 1 && res_at(h, i, Reserved::False),
        Expr::Id(id) => j == i + 1 && id_at(h, i, id),
        Expr::Number(_, x) => j == i + 1 && tv(h, i) == TokenData::Number(x),
        Expr::String(_, x) => j == i + 1 && tv(h, i) == TokenData::String(x),
        Expr::RegExp(_, x) => j == i + 1 && tv(h, i) == TokenData::RegExp(x),
        Expr::Arr(_, s) => tv(h, i) is LBrack && array_rest(h, i + 1, j, s@),
        Expr::Obj(_, s) => tv(h, i) is LBrace && object_rest(h, i + 1, j, s@),
        Expr::Fun(f) => fun_expr(h, i, j, f),
        Expr::NewTarget(_) => lv <= 17 && res_at(h, i, Reserved::New) && tv(h, i + 1) is Dot && atom_at(h, i + 2, Atom::Target) && j == i + 3,
        Expr::Dot(_, o, key) => lv <= 17 && tv(h, j - 2) is Dot && word_at(h, j - 1, key.value@) && E(h, i, j - 2, *o, obj_lv(lv), n),
        Expr::Brack(_, o, x) => lv <= 17 && exists|k: int, l: int, v1: Expr| l == obj_lv(lv) && #[trigger] E(h, i, k, v1, l, n) && v1 == *o && bracks(h, k, j, *x),
        Expr::New(_, c, Some(a)) => lv <= 17 && res_at(h, i, Reserved::New) && exists|i1: int, k: int, l: int, v1: Expr| i1 == i + 1 && l >= 17 && #[trigger] E(h, i1, k, v1, l, n) && v1 == *c && args_at(h, k, j, a@),
        Expr::New(_, c, None) => (lv <= 14 || lv == 16) && res_at(h, i, Reserved::New) && E(h, i + 1, j, *c, 16, n),
        Expr::Call(_, c, a) => lv <= 15 && exists|k: int, v1: Expr| #[trigger] E(h, i, k, v1, 15, n) && v1 == *c && args_at(h, k, j, a@),
        Expr::PostInc(_, t) => lv <= 13 && tv(h, j - 1) is Inc && exists|x: Expr, k: int| k == j - 1 && #[trigger] E(h, i, k, x, 14, n) && sp_target(x) == Some(*t),
        Expr::PostDec(_, t) => lv <= 13 && tv(h, j - 1) is Dec && exists|x: Expr, k: int| k == j - 1 && #[trigger] E(h, i, k, x, 14, n) && sp_target(x) == Some(*t),
        Expr::PreInc(_, t) => lv <= 12 && tv(h, i) is Inc && exists|x: Expr, k: int| k == i + 1 && #[trigger] E(h, k, j, x, 12, n) && sp_target(x) == Some(*t),
        Expr::PreDec(_, t) => lv <= 12 && tv(h, i) is Dec && exists|x: Expr, k: int| k == i + 1 && #[trigger] E(h, k, j, x, 12, n) && sp_target(x) == Some(*t),
        Expr::Unop(_, op, x) => lv <= 12 && sp_unop(tv(h, i)) == Some(op.tag) && E(h, i + 1, j, *x, 12, n),
        Expr::Cond(_, t, c, a) => lv <= 1 && exists|k: int, k1: int, m: int, m1: int, l: int, v1: Expr| k1 == k + 1 && m1 == m + 1 && l >= 2 && #[trigger] E(h, i, k, v1, l, n) && v1 == *t && tv(h, k) is Question
            && #[trigger] E(h, k1, m, *c, 0, true) && tv(h, m) is Colon && #[trigger] E(h, m1, j, *a, 0, n),
        Expr::Assign(_, p, r) => lv <= 0 && exists|x: Expr, k: int, k1: int, l: int, v1: Expr| k1 == k + 1 && l >= 1 && #[trigger] E(h, i, k, x, l, n) && is_patt(x, p) && tv(h, k) is Assign && #[trigger] E(h, k1, j, v1, 0, n) && v1 == *r,
        Expr::BinAssign(_, op, t, r) => lv <= 0 && exists|x: Expr, k: int, k1: int, l: int, v1: Expr| k1 == k + 1 && l >= 1 && #[trigger] E(h, i, k, x, l, n) && sp_target(x) == Some(t) && sp_assop(tv(h, k)) == Some(op.tag) && #[trigger] E(h, k1, j, v1, 0, n) && v1 == *r,
        Expr::Seq(_, s) => lv <= -1 && s@.len() >= 2 && exprs_l(h, i, j, s@, n),
        Expr::Binop(_, _, _, _) | Expr::Logop(_, _, _, _) => false,
    }
}
// ---------------------------------------------------------------- statements
spec fn dtor_at(h: Hist, i: int, j: int, d: Dtor, n: bool) -> bool {
    match d {
        Dtor::Simple(_, id, None) => id_at(h, i, id) && j == i + 1,
        Dtor::Simple(_, id, Some(e)) => id_at(h, i, id) && tv(h, i + 1) is Assign && E(h, i + 2, j, e, 0, n),
        Dtor::Compound(_, _, _) => false,
    }
}
spec fn cdtor_at(h: Hist, i: int, j: int, d: ConstDtor, n: bool) -> bool {
    patt_at(h, i, i + 1, d.patt) && tv(h, i + 1) is Assign && E(h, i + 2, j, d.value, 0, n)
}
spec fn dtors_semi(h: Hist, i: int, j: int, s: Seq<Dtor>, semi: Semi) -> bool {
    exists|k: int, t: Seq<Dtor>| #[trigger] dtors_l(h, i, k, t, true) && t == s && semi_at(h, k, j, semi)
}
spec fn decl_at(h: Hist, i: int, j: int, d: Decl) -> bool {
    match d {
        Decl::Fun(f) => fun_decl(h, i, j, f),
        Decl::Let(_, s, semi) => atom_at(h, i, Atom::Let) && dtors_semi(h, i + 1, j, s@, semi),
        Decl::Const(_, s, semi) => res_at(h, i, Reserved::Const) && exists|i1: int, k: int, v1: Seq<ConstDtor>| i1 == i + 1 && #[trigger] cdtors_l(h, i1, k, v1, true) && v1 == s@ && semi_at(h, k, j, semi),
    }
}
spec fn stmt_item(h: Hist, i: int, j: int, x: StmtListItem) -> bool {
    match x {
        StmtListItem::Decl(d) => decl_at(h, i, j, d),
        StmtListItem::Stmt(s) => S(h, i, j, s),
    }
}
spec fn mod_item(h: Hist, i: int, j: int, x: ModItem) -> bool { x matches ModItem::StmtListItem(y) && stmt_item(h, i, j, y) }
spec fn block_at(h: Hist, i: int, j: int, b: Block) -> bool { tv(h, i) is LBrace && tv(h, j - 1) is RBrace && items_s(h, i + 1, j - 1, b.items@) }
// what an expression statement does not start with
spec fn expr_start(h: Hist, i: int) -> bool {
    !(tv(h, i) is LBrace) && !res_at(h, i, Reserved::Function)
    && !(atom_at(h, i, Atom::Let) && (tv(h, i + 1) is Identifier || tv(h, i + 1) is LBrace || tv(h, i + 1) is LBrack))
}
spec fn case_(h: Hist, i: int, j: int, c: Case) -> bool {
    match c.test {
        Some(e) => res_at(h, i, Reserved::Case) && exists|i1: int, k: int, k1: int, b: Seq<StmtListItem>, v1: Expr| i1 == i + 1 && k1 == k + 1 && #[trigger] E(h, i1, k, v1, -1, true) && v1 == e && tv(h, k) is Colon && #[trigger] items_s(h, k1, j, b) && b == c.body@,
        None => res_at(h, i, Reserved::Default) && tv(h, i + 1) is Colon && items_s(h, i + 2, j, c.body@),
    }
}
// an optional expression and the token after it
spec fn opt_semi(h: Hist, i: int, j: int, e: Option<Expr>) -> bool {
    tv(h, j - 1) is Semi && match e { None => j == i + 1, Some(x) => E(h, i, j - 1, x, -1, true) }
}
spec fn opt_rparen(h: Hist, i: int, j: int, e: Option<Expr>) -> bool {
    tv(h, j - 1) is RParen && match e { None => j == i + 1, Some(x) => E(h, i, j - 1, x, -1, true) }
}
// the for statement after the first ";" / after "in" / after "of"
spec fn for_rest(h: Hist, i: int, j: int, test: Option<Expr>, update: Option<Expr>, body: Stmt) -> bool {
    exists|k: int, m: int, v1: Option<Expr>, v2: Stmt| #[trigger] opt_semi(h, i, k, v1) && v1 == test && opt_rparen(h, k, m, update) && #[trigger] S(h, m, j, v2) && v2 == body
}
spec fn in_rest(h: Hist, i: int, j: int, obj: Expr, body: Stmt) -> bool {
    exists|k: int, k1: int, v1: Expr, v2: Stmt| k1 == k + 1 && #[trigger] E(h, i, k, v1, -1, true) && v1 == obj && tv(h, k) is RParen && #[trigger] S(h, k1, j, v2) && v2 == body
}
spec fn of_rest(h: Hist, i: int, j: int, obj: Expr, body: Stmt) -> bool {
    exists|k: int, k1: int, v1: Expr, v2: Stmt| k1 == k + 1 && #[trigger] E(h, i, k, v1, 0, true) && v1 == obj && tv(h, k) is RParen && #[trigger] S(h, k1, j, v2) && v2 == body
}
// the head of a for statement up to its ";"
spec fn for_head(h: Hist, i: int, j: int, x: ForHead) -> bool {
    match x {
        ForHead::Var(_, s) => res_at(h, i, Reserved::Var) && dtors_l(h, i + 1, j, s@, false),
        ForHead::Let(_, s) => atom_at(h, i, Atom::Let) && dtors_l(h, i + 1, j, s@, false),
        ForHead::Const(_, s) => res_at(h, i, Reserved::Const) && cdtors_l(h, i + 1, j, s@, false),
        ForHead::Expr(_, e) => E(h, i, j, e, -1, false),
    }
}
spec fn patt_head(h: Hist, i: int, j: int, p: Patt<AssignTarget>) -> bool { exists|x: Expr| #[trigger] E(h, i, j, x, -1, false) && is_patt(x, p) }
spec fn in_head(h: Hist, i: int, j: int, x: ForInHead) -> bool {
    match x {
        ForInHead::VarInit(_, id, e) => res_at(h, i, Reserved::Var) && id_at(h, i + 1, id) && tv(h, i + 2) is Assign && E(h, i + 3, j, e, 0, false),
        ForInHead::Var(_, p) => res_at(h, i, Reserved::Var) && patt_at(h, i + 1, j, p),
        ForInHead::Let(_, p) => atom_at(h, i, Atom::Let) && patt_at(h, i + 1, j, p),
        ForInHead::Const(_, p) => res_at(h, i, Reserved::Const) && patt_at(h, i + 1, j, p),
        ForInHead::Patt(p) => patt_head(h, i, j, p),
    }
}
spec fn of_head(h: Hist, i: int, j: int, x: ForOfHead) -> bool {
    match x {
        ForOfHead::Var(_, p) => res_at(h, i, Reserved::Var) && patt_at(h, i + 1, j, p),
        ForOfHead::Let(_, p) => atom_at(h, i, Atom::Let) && patt_at(h, i + 1, j, p),
        ForOfHead::Const(_, p) => res_at(h, i, Reserved::Const) && patt_at(h, i + 1, j, p),
        ForOfHead::Patt(p) => patt_head(h, i, j, p),
    }
}
// the head of an enumeration without a declaration (C22)
spec fn head_ok(h: Hist, i: int, s: Stmt) -> bool {
    match s {
        Stmt::ForIn(_, hd, _, _) => *hd matches ForInHead::Patt(p) && exists|k: int, x: Expr| #[trigger] E(h, i, k, x, -1, false) && res_at(h, k, Reserved::In) && is_patt(x, p),
        Stmt::ForOf(_, hd, _, _) => *hd matches ForOfHead::Patt(p) && exists|k: int, x: Expr| #[trigger] E(h, i, k, x, -1, false) && atom_at(h, k, Atom::Of) && is_patt(x, p),
        _ => true,
    }
}
// a for statement after "for" "("
spec fn for_at(h: Hist, i: int, j: int, s: Stmt) -> bool {
    match s {
        Stmt::For(_, None, test, update, body) => tv(h, i) is Semi && for_rest(h, i + 1, j, test, update, *body),
        Stmt::For(_, Some(x), test, update, body) => exists|k: int, v1: Option<Expr>, v2: Option<Expr>, v3: Stmt| #[trigger] for_rest(h, k, j, v1, v2, v3) && v1 == test && v2 == update && v3 == *body && tv(h, k - 1) is Semi && for_head(h, i, k - 1, *x),
        Stmt::ForIn(_, x, obj, body) => exists|k: int, v1: Expr, v2: Stmt| #[trigger] in_rest(h, k, j, v1, v2) && v1 == obj && v2 == *body && res_at(h, k - 1, Reserved::In) && in_head(h, i, k - 1, *x),
        Stmt::ForOf(_, x, obj, body) => exists|k: int, v1: Expr, v2: Stmt| #[trigger] of_rest(h, k, j, v1, v2) && v1 == obj && v2 == *body && atom_at(h, k - 1, Atom::Of) && of_head(h, i, k - 1, *x),
        _ => false,
    }
}
spec fn catch_at(h: Hist, i: int, j: int, c: Catch) -> bool {
    res_at(h, i, Reserved::Catch) && tv(h, i + 1) is LParen && patt_at(h, i + 2, i + 3, c.param) && tv(h, i + 3) is RParen && block_at(h, i + 4, j, c.body)
}
// "break" / "continue" and what follows
spec fn jump_rest(h: Hist, i: int, j: int, id: Option<Id>, semi: Semi) -> bool {
    match id { None => semi_at(h, i, j, semi), Some(x) => id_at(h, i, x) && semi_at(h, i + 1, j, semi) }
}
spec fn s_rule(h: Hist, i: int, j: int, s: Stmt) -> bool {
    match s {
        Stmt::Empty(_) => tv(h, i) is Semi && j == i + 1,
        Stmt::Block(b) => block_at(h, i, j, b),
        Stmt::Var(_, s, semi) => res_at(h, i, Reserved::Var) && dtors_semi(h, i + 1, j, s@, semi),
        Stmt::Expr(_, e, semi) => expr_start(h, i) && exists|k: int, v1: Expr| #[trigger] E(h, i, k, v1, -1, true) && v1 == e && semi_at(h, k, j, semi),
        Stmt::If(_, t, c, alt) => res_at(h, i, Reserved::If) && exists|i1: int, k: int, m: int, v1: Expr, v2: Stmt| i1 == i + 1 && #[trigger] parens(h, i1, k, v1) && v1 == t && #[trigger] S(h, k, m, v2) && v2 == *c
            && match alt { None => m == j && !res_at(h, m, Reserved::Else), Some(a) => res_at(h, m, Reserved::Else) && S(h, m + 1, j, *a) },
        Stmt::Label(_, id, b) => id_at(h, i, id) && tv(h, i + 1) is Colon && S(h, i + 2, j, *b),
        Stmt::Break(_, id, semi) => res_at(h, i, Reserved::Break) && jump_rest(h, i + 1, j, id, semi),
        Stmt::Cont(_, id, semi) => res_at(h, i, Reserved::Continue) && jump_rest(h, i + 1, j, id, semi),
        Stmt::With(_, e, b) => res_at(h, i, Reserved::With) && exists|i1: int, k: int, v1: Expr| i1 == i + 1 && #[trigger] parens(h, i1, k, v1) && v1 == e && S(h, k, j, *b),
        Stmt::Switch(_, e, cs) => res_at(h, i, Reserved::Switch) && tv(h, j - 1) is RBrace && exists|i1: int, k: int, v1: Expr| i1 == i + 1 && #[trigger] parens(h, i1, k, v1) && v1 == e && tv(h, k) is LBrace && cases_s(h, k + 1, j - 1, cs@),
        Stmt::Return(_, e, semi) => res_at(h, i, Reserved::Return) && match e { None => semi_at(h, i + 1, j, semi), Some(x) => exists|i1: int, k: int, v1: Expr| i1 == i + 1 && #[trigger] E(h, i1, k, v1, -1, true) && v1 == x && semi_at(h, k, j, semi) },
        Stmt::Throw(_, x, semi) => res_at(h, i, Reserved::Throw) && exists|i1: int, k: int, v1: Expr| i1 == i + 1 && #[trigger] E(h, i1, k, v1, -1, true) && v1 == x && semi_at(h, k, j, semi),
        Stmt::Try(_, b, c, f) => res_at(h, i, Reserved::Try) && exists|i1: int, k: int, v1: Block| i1 == i + 1 && #[trigger] block_at(h, i1, k, v1) && v1 == b && match (c, f) {
            (None, Some(x)) => res_at(h, k, Reserved::Finally) && block_at(h, k + 1, j, x),
            (Some(x), None) => catch_at(h, k, j, *x) && !res_at(h, j, Reserved::Finally),
            (Some(x), Some(y)) => exists|m: int, v1: Catch| #[trigger] catch_at(h, k, m, v1) && v1 == *x && res_at(h, m, Reserved::Finally) && block_at(h, m + 1, j, y),
            (None, None) => false,
        },
        Stmt::While(_, e, b) => res_at(h, i, Reserved::While) && exists|i1: int, k: int, v1: Expr| i1 == i + 1 && #[trigger] parens(h, i1, k, v1) && v1 == e && S(h, k, j, *b),
        Stmt::DoWhile(_, b, e, semi) => res_at(h, i, Reserved::Do) && exists|i1: int, k: int, k1: int, m: int, v1: Stmt, v2: Expr| i1 == i + 1 && k1 == k + 1 && #[trigger] S(h, i1, k, v1) && v1 == *b && res_at(h, k, Reserved::While) && #[trigger] parens(h, k1, m, v2) && v2 == e && semi_at(h, m, j, semi),
        Stmt::For(_, _, _, _, _) | Stmt::ForIn(_, _, _, _) | Stmt::ForOf(_, _, _, _) => res_at(h, i, Reserved::For) && tv(h, i + 1) is LParen && for_at(h, i + 2, j, s),
        Stmt::Debugger(_, semi) => res_at(h, i, Reserved::Debugger) && semi_at(h, i + 1, j, semi),
    }
}
spec fn is_mod(s: Seq<StmtListItem>, m: Seq<ModItem>) -> bool { m.len() == s.len() && forall|t: int| 0 <= t < s.len() ==> #[trigger] m[t] == ModItem::StmtListItem(s[t]) }
// directives, then statements, then the end of the source
spec fn whole_script<I>(p: Parser<I>, s: Script) -> bool {
    exists|k: int, m: int, d: Seq<Dir>, t: Seq<StmtListItem>| #[trigger] dirs_s(p.lexer.h(), p.lexer.pos(), k, d) && d == s.dirs@ && !dir_like(p.lexer.h(), k)
        && #[trigger] items_s(p.lexer.h(), k, m, t) && t == s.items@ && tv(p.lexer.h(), m) is EOF
}
spec fn whole_module<I>(p: Parser<I>, s: Module) -> bool {
    exists|k: int, m: int, d: Seq<Dir>, t: Seq<ModItem>| #[trigger] dirs_s(p.lexer.h(), p.lexer.pos(), k, d) && d == s.dirs@ && !dir_like(p.lexer.h(), k)
        && #[trigger] mitems_s(p.lexer.h(), k, m, t) && t == s.items@ && tv(p.lexer.h(), m) is EOF
}
spec fn labels_at(h: Hist, i: int, ls: Seq<Id>) -> bool { forall|t: int| 0 <= t < ls.len() ==> id_at(h, i + 2 * t, #[trigger] ls[t]) && tv(h, i + 2 * t + 1) is Colon }
broadcast proof fn labels_push(h: Hist, i: int, ls: Seq<Id>, x: Id)
    requires labels_at(h, i, ls), id_at(h, i + 2 * ls.len(), x), tv(h, i + 2 * ls.len() + 1) is Colon,
    ensures #[trigger] labels_at(h, i, ls.push(x))
{ }
// the labels still to be put around the statement, the innermost first
spec fn labels_rev(h: Hist, i: int, ls: Seq<Id>) -> bool { forall|t: int| 0 <= t < ls.len() ==> id_at(h, i + 2 * (ls.len() - 1 - t), #[trigger] ls[t]) && tv(h, i + 2 * (ls.len() - 1 - t) + 1) is Colon }
spec fn news_at(h: Hist, i: int, j: int) -> bool { forall|t: int| i <= t < j ==> (#[trigger] tv(h, t)) == TokenData::Reserved(Reserved::New) }
spec fn deref_at(h: Hist, i: int, j: int, d: Deref) -> bool {
    match d {
        Deref::Brack(e, _) => bracks(h, i, j, e),
        Deref::Dot(k) => tv(h, i) is Dot && word_at(h, i + 1, k.value@) && j == i + 2,
    }
}
spec fn prefix_at(h: Hist, i: int, p: Prefix) -> bool {
    match p {
        Prefix::Unop(op) => sp_unop(tv(h, i)) == Some(op.tag),
        Prefix::Inc(_) => tv(h, i) is Inc,
        Prefix::Dec(_) => tv(h, i) is Dec,
    }
}
// ++ and -- and what they apply to (C22)
spec fn incdec(t: TokenData) -> bool { t is Inc || t is Dec }
spec fn pre_inc(h: Hist, i: int, j: int, e: Expr, n: bool) -> bool {
    match e {
        Expr::PreInc(_, t) => tv(h, i) is Inc && exists|x: Expr, k: int| k == i + 1 && #[trigger] E(h, k, j, x, 12, n) && sp_target(x) == Some(*t),
        Expr::PreDec(_, t) => tv(h, i) is Dec && exists|x: Expr, k: int| k == i + 1 && #[trigger] E(h, k, j, x, 12, n) && sp_target(x) == Some(*t),
        _ => false,
    }
}
spec fn post_of(t: TokenData, x: Expr, e: Expr) -> bool {
    match e {
        Expr::PostInc(_, g) => t is Inc && sp_target(x) == Some(*g),
        Expr::PostDec(_, g) => t is Dec && sp_target(x) == Some(*g),
        _ => false,
    }
}
spec fn operand_at(h: Hist, i: int, j: int, e: Expr, n: bool) -> bool {
    exists|k: int, x: Expr| #[trigger] E(h, i, k, x, 14, n) && (k == j && e == x || k + 1 == j && post_of(tv(h, k), x, e))
}
spec fn prefixes_at(h: Hist, i: int, ps: Seq<Prefix>) -> bool { forall|t: int| 0 <= t < ps.len() ==> prefix_at(h, i + t, #[trigger] ps[t]) }
// the frames and the operand hold what was read from i to j
spec fn infixed(h: Hist, i: int, j: int, fs: Seq<Frame>, e: Expr, n: bool) -> bool {
    exists|k: int, os: Seq<Expr>, ops: Seq<Infix>| #[trigger] sq(h, i, k, os, ops, n) && E(h, k, j, e, 12, n) && stk(fs, os, ops)
}
// "new" "." "target", just read
spec fn new_target(h: Hist, j: int, e: Expr) -> bool { e is NewTarget && res_at(h, j - 3, Reserved::New) && tv(h, j - 2) is Dot && atom_at(h, j - 1, Atom::Target) }
broadcast proof fn infixed_one(h: Hist, i: int, j: int, fs: Seq<Frame>, e: Expr, l: int, n: bool)
    requires E(h, i, j, e, l, n), l >= 12, fs.len() == 0,
    ensures #![trigger infixed(h, i, j, fs, e, n), E(h, i, j, e, l, n)] infixed(h, i, j, fs, e, n)
{
    broadcast use {sq_nil, rule_sub};
    assert(sq(h, i, i, Seq::empty(), Seq::empty(), n) && E(h, i, j, e, 12, n) && stk(fs, Seq::empty(), Seq::empty()));
}

spec fn args_l(h: Hist, i: int, j: int, s: Seq<ExprListItem>) -> bool
    decreases s.len()
{
    if s.len() == 0 { false } else if s.len() == 1 { item_at(h, i, j, s[0]) } else {
        exists|k: int| #[trigger] mk(k) && args_l(h, i, k, s.drop_last()) && tv(h, k) is Comma && item_at(h, k + 1, j, s.last())
    }
}
// .. each followed by a comma
spec fn args_c(h: Hist, i: int, j: int, s: Seq<ExprListItem>) -> bool {
    s.len() == 0 && i == j || exists|k: int| j == k + 1 && #[trigger] args_l(h, i, k, s) && tv(h, k) is Comma
}
broadcast proof fn args_one(h: Hist, i: int, j: int, x: ExprListItem)
    requires item_at(h, i, j, x),
    ensures #![trigger item_at(h, i, j, x), seq![x]] args_l(h, i, j, seq![x])
{ }
broadcast proof fn args_push(h: Hist, i: int, k: int, k1: int, j: int, s: Seq<ExprListItem>, x: ExprListItem)
    requires args_l(h, i, k, s), item_at(h, k1, j, x), tv(h, k) is Comma, k1 == k + 1,
    ensures #![trigger args_l(h, i, k, s), item_at(h, k1, j, x)] args_l(h, i, j, s.push(x))
{
    assert(s.push(x).drop_last() =~= s);
    assert(s.len() > 0);
    assert(mk(k));
}
broadcast proof fn args_next(h: Hist, i: int, k: int, j: int, s: Seq<ExprListItem>, x: ExprListItem)
    requires args_c(h, i, k, s), item_at(h, k, j, x),
    ensures #![trigger args_c(h, i, k, s), item_at(h, k, j, x)] args_l(h, i, j, s.push(x))
{
    if s.len() == 0 { assert(s.push(x) =~= seq![x]); } else {
        let m = choose|m: int| k == m + 1 && #[trigger] args_l(h, i, m, s) && tv(h, m) is Comma;
        args_push(h, i, m, k, j, s, x);
    }
}

spec fn elts_l(h: Hist, i: int, j: int, s: Seq<Option<ExprListItem>>) -> bool
    decreases s.len()
{
    if s.len() == 0 { false } else if s.len() == 1 { elt_at(h, i, j, s[0]) } else {
        exists|k: int| #[trigger] mk(k) && elts_l(h, i, k, s.drop_last()) && tv(h, k) is Comma && elt_at(h, k + 1, j, s.last())
    }
}
// .. each followed by a comma
spec fn elts_c(h: Hist, i: int, j: int, s: Seq<Option<ExprListItem>>) -> bool {
    s.len() == 0 && i == j || exists|k: int| j == k + 1 && #[trigger] elts_l(h, i, k, s) && tv(h, k) is Comma
}
broadcast proof fn elts_one(h: Hist, i: int, j: int, x: Option<ExprListItem>)
    requires elt_at(h, i, j, x),
    ensures #![trigger elt_at(h, i, j, x), seq![x]] elts_l(h, i, j, seq![x])
{ }
broadcast proof fn elts_push(h: Hist, i: int, k: int, k1: int, j: int, s: Seq<Option<ExprListItem>>, x: Option<ExprListItem>)
    requires elts_l(h, i, k, s), elt_at(h, k1, j, x), tv(h, k) is Comma, k1 == k + 1,
    ensures #![trigger elts_l(h, i, k, s), elt_at(h, k1, j, x)] elts_l(h, i, j, s.push(x))
{
    assert(s.push(x).drop_last() =~= s);
    assert(s.len() > 0);
    assert(mk(k));
}
broadcast proof fn elts_next(h: Hist, i: int, k: int, j: int, s: Seq<Option<ExprListItem>>, x: Option<ExprListItem>)
    requires elts_c(h, i, k, s), elt_at(h, k, j, x),
    ensures #![trigger elts_c(h, i, k, s), elt_at(h, k, j, x)] elts_l(h, i, j, s.push(x))
{
    if s.len() == 0 { assert(s.push(x) =~= seq![x]); } else {
        let m = choose|m: int| k == m + 1 && #[trigger] elts_l(h, i, m, s) && tv(h, m) is Comma;
        elts_push(h, i, m, k, j, s, x);
    }
}

spec fn props_l(h: Hist, i: int, j: int, s: Seq<Prop>) -> bool
    decreases s.len()
{
    if s.len() == 0 { false } else if s.len() == 1 { prop_at(h, i, j, s[0]) } else {
        exists|k: int| #[trigger] mk(k) && props_l(h, i, k, s.drop_last()) && tv(h, k) is Comma && prop_at(h, k + 1, j, s.last())
    }
}
// .. each followed by a comma
spec fn props_c(h: Hist, i: int, j: int, s: Seq<Prop>) -> bool {
    s.len() == 0 && i == j || exists|k: int| j == k + 1 && #[trigger] props_l(h, i, k, s) && tv(h, k) is Comma
}
broadcast proof fn props_one(h: Hist, i: int, j: int, x: Prop)
    requires prop_at(h, i, j, x),
    ensures #![trigger prop_at(h, i, j, x), seq![x]] props_l(h, i, j, seq![x])
{ }
broadcast proof fn props_push(h: Hist, i: int, k: int, k1: int, j: int, s: Seq<Prop>, x: Prop)
    requires props_l(h, i, k, s), prop_at(h, k1, j, x), tv(h, k) is Comma, k1 == k + 1,
    ensures #![trigger props_l(h, i, k, s), prop_at(h, k1, j, x)] props_l(h, i, j, s.push(x))
{
    assert(s.push(x).drop_last() =~= s);
    assert(s.len() > 0);
    assert(mk(k));
}
broadcast proof fn props_next(h: Hist, i: int, k: int, j: int, s: Seq<Prop>, x: Prop)
    requires props_c(h, i, k, s), prop_at(h, k, j, x),
    ensures #![trigger props_c(h, i, k, s), prop_at(h, k, j, x)] props_l(h, i, j, s.push(x))
{
    if s.len() == 0 { assert(s.push(x) =~= seq![x]); } else {
        let m = choose|m: int| k == m + 1 && #[trigger] props_l(h, i, m, s) && tv(h, m) is Comma;
        props_push(h, i, m, k, j, s, x);
    }
}

spec fn patts_l(h: Hist, i: int, j: int, s: Seq<Patt<Id>>) -> bool
    decreases s.len()
{
    if s.len() == 0 { false } else if s.len() == 1 { patt_at(h, i, j, s[0]) } else {
        exists|k: int| #[trigger] mk(k) && patts_l(h, i, k, s.drop_last()) && tv(h, k) is Comma && patt_at(h, k + 1, j, s.last())
    }
}
// .. each followed by a comma
spec fn patts_c(h: Hist, i: int, j: int, s: Seq<Patt<Id>>) -> bool {
    s.len() == 0 && i == j || exists|k: int| j == k + 1 && #[trigger] patts_l(h, i, k, s) && tv(h, k) is Comma
}
broadcast proof fn patts_one(h: Hist, i: int, j: int, x: Patt<Id>)
    requires patt_at(h, i, j, x),
    ensures #![trigger patt_at(h, i, j, x), seq![x]] patts_l(h, i, j, seq![x])
{ }
broadcast proof fn patts_push(h: Hist, i: int, k: int, k1: int, j: int, s: Seq<Patt<Id>>, x: Patt<Id>)
    requires patts_l(h, i, k, s), patt_at(h, k1, j, x), tv(h, k) is Comma, k1 == k + 1,
    ensures #![trigger patts_l(h, i, k, s), patt_at(h, k1, j, x)] patts_l(h, i, j, s.push(x))
{
    assert(s.push(x).drop_last() =~= s);
    assert(s.len() > 0);
    assert(mk(k));
}
broadcast proof fn patts_next(h: Hist, i: int, k: int, j: int, s: Seq<Patt<Id>>, x: Patt<Id>)
    requires patts_c(h, i, k, s), patt_at(h, k, j, x),
    ensures #![trigger patts_c(h, i, k, s), patt_at(h, k, j, x)] patts_l(h, i, j, s.push(x))
{
    if s.len() == 0 { assert(s.push(x) =~= seq![x]); } else {
        let m = choose|m: int| k == m + 1 && #[trigger] patts_l(h, i, m, s) && tv(h, m) is Comma;
        patts_push(h, i, m, k, j, s, x);
    }
}

spec fn dtors_l(h: Hist, i: int, j: int, s: Seq<Dtor>, n: bool) -> bool
    decreases s.len()
{
    if s.len() == 0 { false } else if s.len() == 1 { dtor_at(h, i, j, s[0], n) } else {
        exists|k: int| #[trigger] mk(k) && dtors_l(h, i, k, s.drop_last(), n) && tv(h, k) is Comma && dtor_at(h, k + 1, j, s.last(), n)
    }
}
// .. each followed by a comma
spec fn dtors_c(h: Hist, i: int, j: int, s: Seq<Dtor>, n: bool) -> bool {
    s.len() == 0 && i == j || exists|k: int| j == k + 1 && #[trigger] dtors_l(h, i, k, s, n) && tv(h, k) is Comma
}
broadcast proof fn dtors_one(h: Hist, i: int, j: int, x: Dtor, n: bool)
    requires dtor_at(h, i, j, x, n),
    ensures #![trigger dtor_at(h, i, j, x, n), seq![x]] dtors_l(h, i, j, seq![x], n)
{ }
broadcast proof fn dtors_push(h: Hist, i: int, k: int, k1: int, j: int, s: Seq<Dtor>, x: Dtor, n: bool)
    requires dtors_l(h, i, k, s, n), dtor_at(h, k1, j, x, n), tv(h, k) is Comma, k1 == k + 1,
    ensures #![trigger dtors_l(h, i, k, s, n), dtor_at(h, k1, j, x, n)] dtors_l(h, i, j, s.push(x), n)
{
    assert(s.push(x).drop_last() =~= s);
    assert(s.len() > 0);
    assert(mk(k));
}
broadcast proof fn dtors_next(h: Hist, i: int, k: int, j: int, s: Seq<Dtor>, x: Dtor, n: bool)
    requires dtors_c(h, i, k, s, n), dtor_at(h, k, j, x, n),
    ensures #![trigger dtors_c(h, i, k, s, n), dtor_at(h, k, j, x, n)] dtors_l(h, i, j, s.push(x), n)
{
    if s.len() == 0 { assert(s.push(x) =~= seq![x]); } else {
        let m = choose|m: int| k == m + 1 && #[trigger] dtors_l(h, i, m, s, n) && tv(h, m) is Comma;
        dtors_push(h, i, m, k, j, s, x, n);
    }
}

spec fn cdtors_l(h: Hist, i: int, j: int, s: Seq<ConstDtor>, n: bool) -> bool
    decreases s.len()
{
    if s.len() == 0 { false } else if s.len() == 1 { cdtor_at(h, i, j, s[0], n) } else {
        exists|k: int| #[trigger] mk(k) && cdtors_l(h, i, k, s.drop_last(), n) && tv(h, k) is Comma && cdtor_at(h, k + 1, j, s.last(), n)
    }
}
// .. each followed by a comma
spec fn cdtors_c(h: Hist, i: int, j: int, s: Seq<ConstDtor>, n: bool) -> bool {
    s.len() == 0 && i == j || exists|k: int| j == k + 1 && #[trigger] cdtors_l(h, i, k, s, n) && tv(h, k) is Comma
}
broadcast proof fn cdtors_one(h: Hist, i: int, j: int, x: ConstDtor, n: bool)
    requires cdtor_at(h, i, j, x, n),
    ensures #![trigger cdtor_at(h, i, j, x, n), seq![x]] cdtors_l(h, i, j, seq![x], n)
{ }
broadcast proof fn cdtors_push(h: Hist, i: int, k: int, k1: int, j: int, s: Seq<ConstDtor>, x: ConstDtor, n: bool)
    requires cdtors_l(h, i, k, s, n), cdtor_at(h, k1, j, x, n), tv(h, k) is Comma, k1 == k + 1,
    ensures #![trigger cdtors_l(h, i, k, s, n), cdtor_at(h, k1, j, x, n)] cdtors_l(h, i, j, s.push(x), n)
{
    assert(s.push(x).drop_last() =~= s);
    assert(s.len() > 0);
    assert(mk(k));
}
broadcast proof fn cdtors_next(h: Hist, i: int, k: int, j: int, s: Seq<ConstDtor>, x: ConstDtor, n: bool)
    requires cdtors_c(h, i, k, s, n), cdtor_at(h, k, j, x, n),
    ensures #![trigger cdtors_c(h, i, k, s, n), cdtor_at(h, k, j, x, n)] cdtors_l(h, i, j, s.push(x), n)
{
    if s.len() == 0 { assert(s.push(x) =~= seq![x]); } else {
        let m = choose|m: int| k == m + 1 && #[trigger] cdtors_l(h, i, m, s, n) && tv(h, m) is Comma;
        cdtors_push(h, i, m, k, j, s, x, n);
    }
}

spec fn exprs_l(h: Hist, i: int, j: int, s: Seq<Expr>, n: bool) -> bool
    decreases s.len()
{
    if s.len() == 0 { false } else if s.len() == 1 { expr0(h, i, j, s[0], n) } else {
        exists|k: int| #[trigger] mk(k) && exprs_l(h, i, k, s.drop_last(), n) && tv(h, k) is Comma && expr0(h, k + 1, j, s.last(), n)
    }
}
// .. each followed by a comma
spec fn exprs_c(h: Hist, i: int, j: int, s: Seq<Expr>, n: bool) -> bool {
    s.len() == 0 && i == j || exists|k: int| j == k + 1 && #[trigger] exprs_l(h, i, k, s, n) && tv(h, k) is Comma
}
broadcast proof fn exprs_one(h: Hist, i: int, j: int, x: Expr, l: int, n: bool)
    requires E(h, i, j, x, l, n), l >= 0,
    ensures #![trigger E(h, i, j, x, l, n), seq![x]] exprs_l(h, i, j, seq![x], n)
{ assert(expr0(h, i, j, x, n)) by { broadcast use rule_sub; } }
broadcast proof fn exprs_push(h: Hist, i: int, k: int, k1: int, j: int, s: Seq<Expr>, x: Expr, n: bool)
    requires exprs_l(h, i, k, s, n), expr0(h, k1, j, x, n), tv(h, k) is Comma, k1 == k + 1,
    ensures #![trigger exprs_l(h, i, k, s, n), E(h, k1, j, x, 0, n)] exprs_l(h, i, j, s.push(x), n)
{
    assert(s.push(x).drop_last() =~= s);
    assert(s.len() > 0);
    assert(mk(k));
}
broadcast proof fn exprs_next(h: Hist, i: int, k: int, j: int, s: Seq<Expr>, x: Expr, n: bool)
    requires exprs_c(h, i, k, s, n), expr0(h, k, j, x, n),
    ensures #![trigger exprs_c(h, i, k, s, n), expr0(h, k, j, x, n)] exprs_l(h, i, j, s.push(x), n)
{
    if s.len() == 0 { assert(s.push(x) =~= seq![x]); } else {
        let m = choose|m: int| k == m + 1 && #[trigger] exprs_l(h, i, m, s, n) && tv(h, m) is Comma;
        exprs_push(h, i, m, k, j, s, x, n);
    }
}

spec fn items_s(h: Hist, i: int, j: int, s: Seq<StmtListItem>) -> bool
    decreases s.len()
{
    if s.len() == 0 { i == j } else {
        exists|k: int| #[trigger] mk(k) && items_s(h, i, k, s.drop_last()) && stmt_item(h, k, j, s.last())
    }
}
broadcast proof fn items_nil(h: Hist, i: int, j: int, s: Seq<StmtListItem>)
    requires s.len() == 0, i == j,
    ensures #[trigger] items_s(h, i, j, s)
{ }
broadcast proof fn items_push(h: Hist, i: int, k: int, j: int, s: Seq<StmtListItem>, x: StmtListItem)
    requires items_s(h, i, k, s), stmt_item(h, k, j, x),
    ensures #![trigger items_s(h, i, k, s), stmt_item(h, k, j, x)] items_s(h, i, j, s.push(x))
{
    assert(s.push(x).drop_last() =~= s);
    assert(mk(k));
}

spec fn cases_s(h: Hist, i: int, j: int, s: Seq<Case>) -> bool
    decreases s.len()
{
    if s.len() == 0 { i == j } else {
        exists|k: int| #[trigger] mk(k) && cases_s(h, i, k, s.drop_last()) && case_(h, k, j, s.last())
    }
}
broadcast proof fn cases_nil(h: Hist, i: int, j: int, s: Seq<Case>)
    requires s.len() == 0, i == j,
    ensures #[trigger] cases_s(h, i, j, s)
{ }
broadcast proof fn cases_push(h: Hist, i: int, k: int, j: int, s: Seq<Case>, x: Case)
    requires cases_s(h, i, k, s), case_(h, k, j, x),
    ensures #![trigger cases_s(h, i, k, s), case_(h, k, j, x)] cases_s(h, i, j, s.push(x))
{
    assert(s.push(x).drop_last() =~= s);
    assert(mk(k));
}

spec fn dirs_s(h: Hist, i: int, j: int, s: Seq<Dir>) -> bool
    decreases s.len()
{
    if s.len() == 0 { i == j } else {
        exists|k: int| #[trigger] mk(k) && dirs_s(h, i, k, s.drop_last()) && dir_(h, k, j, s.last())
    }
}
broadcast proof fn dirs_nil(h: Hist, i: int, j: int, s: Seq<Dir>)
    requires s.len() == 0, i == j,
    ensures #[trigger] dirs_s(h, i, j, s)
{ }
broadcast proof fn dirs_push(h: Hist, i: int, k: int, j: int, s: Seq<Dir>, x: Dir)
    requires dirs_s(h, i, k, s), dir_(h, k, j, x),
    ensures #![trigger dirs_s(h, i, k, s), dir_(h, k, j, x)] dirs_s(h, i, j, s.push(x))
{
    assert(s.push(x).drop_last() =~= s);
    assert(mk(k));
}

spec fn mitems_s(h: Hist, i: int, j: int, s: Seq<ModItem>) -> bool
    decreases s.len()
{
    if s.len() == 0 { i == j } else {
        exists|k: int| #[trigger] mk(k) && mitems_s(h, i, k, s.drop_last()) && mod_item(h, k, j, s.last())
    }
}
broadcast proof fn mitems_nil(h: Hist, i: int, j: int, s: Seq<ModItem>)
    requires s.len() == 0, i == j,
    ensures #[trigger] mitems_s(h, i, j, s)
{ }
broadcast proof fn mitems_push(h: Hist, i: int, k: int, j: int, s: Seq<ModItem>, y: StmtListItem)
    requires mitems_s(h, i, k, s), stmt_item(h, k, j, y),
    ensures #![trigger mitems_s(h, i, k, s), stmt_item(h, k, j, y)] mitems_s(h, i, j, s.push(ModItem::StmtListItem(y)))
{
    let x = ModItem::StmtListItem(y);
    assert(mod_item(h, k, j, x));
    assert(s.push(x).drop_last() =~= s);
    assert(mk(k));
}
