// ================================================================ ESTree documents
// How deep a JSON value goes (JSON documents are finite trees).
uninterp spec fn osz(o: Object) -> nat;
uninterp spec fn asz(a: Seq<Value>) -> nat;
spec fn vsz(v: Value) -> nat { match v { Value::Object(c) => osz(c) + 1, Value::Array(a) => asz(a@), _ => 0 } }
#[verifier::external_body]
broadcast proof fn axiom_osz_field(o: Object, k: Seq<char>)
    ensures #[trigger] o@.contains_key(k) ==> vsz(o@[k]) <= osz(o) { }
#[verifier::external_body]
broadcast proof fn axiom_asz(a: Seq<Value>, i: int)
    ensures 0 <= i < a.len() ==> vsz(#[trigger] a[i]) <= #[trigger] asz(a) { }
// a smaller set of fields is not deeper
#[verifier::external_body]
broadcast proof fn axiom_osz_rest(a: Object, b: Object, k: Seq<char>)
    ensures a@ == #[trigger] b@.remove(k) ==> #[trigger] osz(a) <= osz(b) { }

// fields
spec fn fld(o: Object, k: Seq<char>) -> Option<Value> {
    if o@.contains_key(k) && vsz(o@[k]) <= osz(o) { Some(o@[k]) } else { None }
}
spec fn fsz(f: Option<Value>) -> nat { match f { Some(v) => vsz(v), None => 0 } }
spec fn obj(f: Option<Value>) -> Option<Object> { match f { Some(Value::Object(c)) => Some(c), _ => None } }
spec fn arr(f: Option<Value>) -> Option<Seq<Value>> { match f { Some(Value::Array(a)) => Some(a@), _ => None } }
spec fn sub(o: Object, k: Seq<char>) -> Option<Object> { obj(fld(o, k)) }
spec fn nul(o: Object, k: Seq<char>) -> bool { o@.contains_key(k) && o@[k] is Null }
spec fn fstr(o: Object, k: Seq<char>) -> Option<Seq<char>> {
    if o@.contains_key(k) { match o@[k] { Value::String(s) => Some(s@), _ => None } } else { None }
}
spec fn fbool(o: Object, k: Seq<char>) -> Option<bool> {
    if o@.contains_key(k) { match o@[k] { Value::Bool(b) => Some(b), _ => None } } else { None }
}
spec fn obj_of(v: Value) -> Option<Object> { match v { Value::Object(c) => Some(c), _ => None } }
// a function's "generator" field: absent is null
spec fn gflag(o: Object) -> Option<bool> {
    if nul(o, "generator"@) { Some(false) } else { fbool(o, "generator"@) }
}

// what the type tags and the operators are called
#[verifier::opaque]
spec fn tag_named(s: Seq<char>) -> Option<Tag> {
    if s == "Identifier"@ { Some(Tag::Identifier) }
    else if s == "Literal"@ { Some(Tag::Literal) }
    else if s == "BinaryExpression"@ { Some(Tag::BinaryExpression) }
    else if s == "AssignmentExpression"@ { Some(Tag::AssignmentExpression) }
    else if s == "LogicalExpression"@ { Some(Tag::LogicalExpression) }
    else if s == "UnaryExpression"@ { Some(Tag::UnaryExpression) }
    else if s == "UpdateExpression"@ { Some(Tag::UpdateExpression) }
    else if s == "MemberExpression"@ { Some(Tag::MemberExpression) }
    else if s == "CallExpression"@ { Some(Tag::CallExpression) }
    else if s == "NewExpression"@ { Some(Tag::NewExpression) }
    else if s == "ArrayExpression"@ { Some(Tag::ArrayExpression) }
    else if s == "FunctionExpression"@ { Some(Tag::FunctionExpression) }
    else if s == "SequenceExpression"@ { Some(Tag::SequenceExpression) }
    else if s == "ObjectExpression"@ { Some(Tag::ObjectExpression) }
    else if s == "ConditionalExpression"@ { Some(Tag::ConditionalExpression) }
    else if s == "ThisExpression"@ { Some(Tag::ThisExpression) }
    else if s == "MetaProperty"@ { Some(Tag::MetaProperty) }
    else if s == "FunctionDeclaration"@ { Some(Tag::FunctionDeclaration) }
    else if s == "VariableDeclaration"@ { Some(Tag::VariableDeclaration) }
    else if s == "SpreadElement"@ { Some(Tag::SpreadElement) }
    else if s == "RestElement"@ { Some(Tag::RestElement) }
    else if s == "EmptyStatement"@ { Some(Tag::EmptyStatement) }
    else if s == "ExpressionStatement"@ { Some(Tag::ExpressionStatement) }
    else if s == "IfStatement"@ { Some(Tag::IfStatement) }
    else if s == "DoWhileStatement"@ { Some(Tag::DoWhileStatement) }
    else if s == "WhileStatement"@ { Some(Tag::WhileStatement) }
    else if s == "ForStatement"@ { Some(Tag::ForStatement) }
    else if s == "ForInStatement"@ { Some(Tag::ForInStatement) }
    else if s == "ForOfStatement"@ { Some(Tag::ForOfStatement) }
    else if s == "BlockStatement"@ { Some(Tag::BlockStatement) }
    else if s == "ReturnStatement"@ { Some(Tag::ReturnStatement) }
    else if s == "LabeledStatement"@ { Some(Tag::LabeledStatement) }
    else if s == "BreakStatement"@ { Some(Tag::BreakStatement) }
    else if s == "ContinueStatement"@ { Some(Tag::ContinueStatement) }
    else if s == "SwitchStatement"@ { Some(Tag::SwitchStatement) }
    else if s == "WithStatement"@ { Some(Tag::WithStatement) }
    else if s == "ThrowStatement"@ { Some(Tag::ThrowStatement) }
    else if s == "DebuggerStatement"@ { Some(Tag::DebuggerStatement) }
    else if s == "TryStatement"@ { Some(Tag::TryStatement) }
    else { None }
}
#[verifier::opaque]
spec fn unop_named(s: Seq<char>) -> Option<UnopTag> {
    if s == "-"@ { Some(UnopTag::Minus) }
    else if s == "+"@ { Some(UnopTag::Plus) }
    else if s == "!"@ { Some(UnopTag::Not) }
    else if s == "~"@ { Some(UnopTag::BitNot) }
    else if s == "typeof"@ { Some(UnopTag::Typeof) }
    else if s == "void"@ { Some(UnopTag::Void) }
    else if s == "delete"@ { Some(UnopTag::Delete) }
    else { None }
}
#[verifier::opaque]
spec fn binop_named(s: Seq<char>) -> Option<BinopTag> {
    if s == "=="@ { Some(BinopTag::Eq) }
    else if s == "!="@ { Some(BinopTag::NEq) }
    else if s == "==="@ { Some(BinopTag::StrictEq) }
    else if s == "!=="@ { Some(BinopTag::StrictNEq) }
    else if s == "<"@ { Some(BinopTag::Lt) }
    else if s == "<="@ { Some(BinopTag::LEq) }
    else if s == ">"@ { Some(BinopTag::Gt) }
    else if s == ">="@ { Some(BinopTag::GEq) }
    else if s == "<<"@ { Some(BinopTag::LShift) }
    else if s == ">>"@ { Some(BinopTag::RShift) }
    else if s == ">>>"@ { Some(BinopTag::URShift) }
    else if s == "+"@ { Some(BinopTag::Plus) }
    else if s == "-"@ { Some(BinopTag::Minus) }
    else if s == "*"@ { Some(BinopTag::Times) }
    else if s == "/"@ { Some(BinopTag::Div) }
    else if s == "%"@ { Some(BinopTag::Mod) }
    else if s == "|"@ { Some(BinopTag::BitOr) }
    else if s == "^"@ { Some(BinopTag::BitXor) }
    else if s == "&"@ { Some(BinopTag::BitAnd) }
    else if s == "in"@ { Some(BinopTag::In) }
    else if s == "instanceof"@ { Some(BinopTag::Instanceof) }
    else { None }
}
#[verifier::opaque]
spec fn logop_named(s: Seq<char>) -> Option<LogopTag> {
    if s == "||"@ { Some(LogopTag::Or) }
    else if s == "&&"@ { Some(LogopTag::And) }
    else { None }
}
#[verifier::opaque]
spec fn assop_named(s: Seq<char>) -> Option<AssopTag> {
    if s == "+="@ { Some(AssopTag::PlusEq) }
    else if s == "-="@ { Some(AssopTag::MinusEq) }
    else if s == "*="@ { Some(AssopTag::TimesEq) }
    else if s == "/="@ { Some(AssopTag::DivEq) }
    else if s == "%="@ { Some(AssopTag::ModEq) }
    else if s == "<<="@ { Some(AssopTag::LShiftEq) }
    else if s == ">>="@ { Some(AssopTag::RShiftEq) }
    else if s == ">>>="@ { Some(AssopTag::URShiftEq) }
    else if s == "|="@ { Some(AssopTag::BitOrEq) }
    else if s == "^="@ { Some(AssopTag::BitXorEq) }
    else if s == "&="@ { Some(AssopTag::BitAndEq) }
    else { None }
}
spec fn tag_of(o: Object) -> Option<Tag> {
    match fstr(o, "type"@) { Some(s) => tag_named(s), None => None }
}
spec fn is_unop(o: Object, op: Op<UnopTag>) -> bool { fstr(o, "operator"@) matches Some(s) && unop_named(s) == Some(op.tag) }
spec fn wf_unop(o: Object) -> bool { fstr(o, "operator"@) matches Some(s) && unop_named(s) is Some }
spec fn is_binop(o: Object, op: Op<BinopTag>) -> bool { fstr(o, "operator"@) matches Some(s) && binop_named(s) == Some(op.tag) }
spec fn wf_binop(o: Object) -> bool { fstr(o, "operator"@) matches Some(s) && binop_named(s) is Some }
spec fn is_logop(o: Object, op: Op<LogopTag>) -> bool { fstr(o, "operator"@) matches Some(s) && logop_named(s) == Some(op.tag) }
spec fn wf_logop(o: Object) -> bool { fstr(o, "operator"@) matches Some(s) && logop_named(s) is Some }
spec fn is_assop(o: Object, op: Op<AssopTag>) -> bool { fstr(o, "operator"@) matches Some(s) && assop_named(s) == Some(op.tag) }
spec fn wf_assop(o: Object) -> bool { fstr(o, "operator"@) matches Some(s) && assop_named(s) is Some }

// ---------------------------------------------------------------- which tree a document describes
spec fn d_id(o: Object, id: Id) -> bool {
    tag_of(o) == Some(Tag::Identifier) && fstr(o, "name"@) == Some(name_str(id.name))
}
spec fn d_idx(f: Option<Value>, id: Id) -> bool { obj(f) matches Some(c) && d_id(c, id) }
spec fn d_ido(f: Option<Value>, id: Option<Id>) -> bool {
    match id { Some(i) => d_idx(f, i), None => f == Some(Value::Null) }
}
// a binding: only a plain identifier
spec fn d_bind(o: Object, p: Patt<Id>) -> bool { p matches Patt::Simple(id) && d_id(o, id) }
spec fn d_bindx(f: Option<Value>, p: Patt<Id>) -> bool { obj(f) matches Some(c) && d_bind(c, p) }

spec fn d_regex(o: Object, e: Expr) -> bool {
    sub(o, "regex"@) matches Some(r) && e matches Expr::RegExp(_, lit)
        && fstr(r, "pattern"@) == Some(lit.pattern@) && fstr(r, "flags"@) == Some(lit.flags@)
}
spec fn d_lit(o: Object, e: Expr) -> bool {
    o@.contains_key("value"@) && match o@["value"@] {
        Value::Null => if o@.contains_key("regex"@) { d_regex(o, e) } else { e is Null },
        Value::Bool(b) => if b { e is True } else { e is False },
        Value::String(s) => e matches Expr::String(_, lit) && lit.source is None && lit.value == s,
        Value::I64(n) => e matches Expr::Number(_, lit) && lit.value == f64_of_i64(n),
        Value::U64(n) => e matches Expr::Number(_, lit) && lit.value == f64_of_u64(n),
        Value::F64(n) => e matches Expr::Number(_, lit) && lit.source is None && lit.value == n,
        Value::Object(_) => d_regex(o, e),
        Value::Array(_) => false,
    }
}
spec fn d_key(o: Object, k: PropKey) -> bool {
    match k {
        PropKey::Id(_, s) => tag_of(o) == Some(Tag::Identifier) && fstr(o, "name"@) == Some(s@),
        PropKey::String(_, lit) => tag_of(o) is Some && tag_of(o) != Some(Tag::Identifier) && d_lit(o, Expr::String(None, lit)),
        PropKey::Number(_, lit) => tag_of(o) is Some && tag_of(o) != Some(Tag::Identifier) && d_lit(o, Expr::Number(None, lit)),
    }
}
spec fn d_keyx(o: Object, k: PropKey) -> bool { sub(o, "key"@) matches Some(c) && d_key(c, k) }

spec fn d_x(f: Option<Value>, e: Expr) -> bool
    decreases fsz(f), 0int
{ obj(f) matches Some(c) && d_expr(c, e) }
spec fn d_xo(f: Option<Value>, e: Option<Expr>) -> bool
    decreases fsz(f), 1int
{ match e { Some(x) => obj(f) matches Some(c) && d_expr(c, x), None => f == Some(Value::Null) } }
spec fn back(t: AssignTarget) -> Expr {
    match t { AssignTarget::Id(id) => Expr::Id(id), AssignTarget::Dot(l, o, k) => Expr::Dot(l, o, k), AssignTarget::Brack(l, o, k) => Expr::Brack(l, o, k) }
}
// what is assigned to: the expression at that place, read as a pattern
spec fn d_patt(f: Option<Value>, p: Patt<AssignTarget>) -> bool
    decreases fsz(f), 1int
{ exists|e: Expr| #[trigger] is_patt(e, p) && d_x(f, e) }
spec fn d_target(f: Option<Value>, t: AssignTarget) -> bool
    decreases fsz(f), 1int
{ d_x(f, back(t)) }
spec fn d_exprs(f: Option<Value>, xs: Seq<Expr>) -> bool
    decreases fsz(f), 0int
{
    arr(f) matches Some(a) && a.len() == xs.len()
        && forall|i: int| 0 <= i < a.len() ==> (obj_of(#[trigger] a[i]) matches Some(c) && osz(c) < fsz(f) && d_expr(c, xs[i]))
}
spec fn d_items(f: Option<Value>, xs: Seq<ExprListItem>) -> bool
    decreases fsz(f), 0int
{
    arr(f) matches Some(a) && a.len() == xs.len()
        && forall|i: int| 0 <= i < a.len() ==> (obj_of(#[trigger] a[i]) matches Some(c) && osz(c) < fsz(f) && d_item(c, xs[i]))
}
spec fn d_itemos(f: Option<Value>, xs: Seq<Option<ExprListItem>>) -> bool
    decreases fsz(f), 0int
{
    arr(f) matches Some(a) && a.len() == xs.len()
        && forall|i: int| 0 <= i < a.len() ==> match #[trigger] a[i] {
            Value::Null => xs[i] is None,
            Value::Object(c) => osz(c) < fsz(f) && (xs[i] matches Some(x) && d_item(c, x)),
            _ => false,
        }
}
spec fn itemo(v: Value, x: Option<ExprListItem>) -> bool {
    match v { Value::Null => x is None, Value::Object(c) => x matches Some(y) && d_item(c, y), _ => false }
}
spec fn objs_upto(a: Seq<Value>, os: Seq<Object>) -> bool {
    os.len() <= a.len() && forall|i: int| #![trigger a[i]] #![trigger os[i]] 0 <= i < os.len() ==> obj_of(a[i]) == Some(os[i])
}
// a declarator with an initializer, as a constant
spec fn const_of(d: Dtor, c: ConstDtor) -> bool {
    match d {
        Dtor::Simple(_, id, Some(e)) => c.patt == Patt::Simple(id) && c.value == e,
        Dtor::Simple(_, _, None) => false,
        Dtor::Compound(_, p, e) => c.patt == Patt::<Id>::Compound(p) && c.value == e,
    }
}
spec fn d_props(f: Option<Value>, xs: Seq<Prop>) -> bool
    decreases fsz(f), 0int
{
    arr(f) matches Some(a) && a.len() == xs.len()
        && forall|i: int| 0 <= i < a.len() ==> (obj_of(#[trigger] a[i]) matches Some(c) && osz(c) < fsz(f) && d_prop(c, xs[i]))
}
spec fn d_dtors(f: Option<Value>, xs: Seq<Dtor>) -> bool
    decreases fsz(f), 0int
{
    arr(f) matches Some(a) && a.len() == xs.len()
        && forall|i: int| 0 <= i < a.len() ==> (obj_of(#[trigger] a[i]) matches Some(c) && osz(c) < fsz(f) && d_dtor(c, xs[i]))
}
spec fn d_consts(f: Option<Value>, xs: Seq<ConstDtor>) -> bool
    decreases fsz(f), 0int
{
    arr(f) matches Some(a) && a.len() == xs.len()
        && forall|i: int| 0 <= i < a.len() ==> (obj_of(#[trigger] a[i]) matches Some(c) && osz(c) < fsz(f) && d_const(c, xs[i]))
}
spec fn d_cases(f: Option<Value>, xs: Seq<Case>) -> bool
    decreases fsz(f), 0int
{
    arr(f) matches Some(a) && a.len() == xs.len()
        && forall|i: int| 0 <= i < a.len() ==> (obj_of(#[trigger] a[i]) matches Some(c) && osz(c) < fsz(f) && d_case(c, xs[i]))
}
spec fn d_sis(f: Option<Value>, xs: Seq<StmtListItem>) -> bool
    decreases fsz(f), 0int
{
    arr(f) matches Some(a) && a.len() == xs.len()
        && forall|i: int| 0 <= i < a.len() ==> (obj_of(#[trigger] a[i]) matches Some(c) && osz(c) < fsz(f) && d_si(c, xs[i]))
}
// the leading string-literal statements are the directives
spec fn dir_item(d: Dir) -> StmtListItem { StmtListItem::Stmt(Stmt::Expr(d.location, Expr::String(None, d.string), d.semi)) }
spec fn is_dir(x: StmtListItem) -> bool { x matches StmtListItem::Stmt(Stmt::Expr(_, Expr::String(_, _), _)) }
spec fn d_script(f: Option<Value>, s: Script) -> bool
    decreases fsz(f), 0int
{
    arr(f) matches Some(a) && a.len() == s.dirs@.len() + s.items@.len()
        && (forall|i: int| 0 <= i < s.dirs@.len() ==> (obj_of(#[trigger] a[i]) matches Some(c) && osz(c) < fsz(f) && d_si(c, dir_item(s.dirs@[i]))))
        && (forall|i: int| s.dirs@.len() <= i < a.len() ==> (obj_of(#[trigger] a[i]) matches Some(c) && osz(c) < fsz(f) && d_si(c, s.items@[i - s.dirs@.len()])))
        && (s.items@.len() > 0 ==> !is_dir(s.items@[0]))
}
spec fn d_params(f: Option<Value>, list: Seq<Patt<Id>>, rest: Option<RestPatt<Id>>) -> bool {
    arr(f) matches Some(a) && a.len() == list.len() + (if rest is Some { 1int } else { 0int })
        && (forall|i: int| 0 <= i < list.len() ==> (obj_of(#[trigger] a[i]) matches Some(c) && osz(c) < fsz(f) && d_bind(c, list[i])))
        && (rest matches Some(r) ==> (obj_of(a[list.len() as int]) matches Some(c) && tag_of(c) == Some(Tag::RestElement) && d_bindx(fld(c, "argument"@), r.patt)))
}
spec fn d_fun(o: Object, params: Params, body: Script, generator: bool) -> bool
    decreases osz(o), 1int
{
    gflag(o) == Some(generator) && d_params(fld(o, "params"@), params.list@, params.rest)
        && (sub(o, "body"@) matches Some(b) && d_script(fld(b, "body"@), body))
}
spec fn d_expr(o: Object, e: Expr) -> bool
    decreases osz(o), 3int
{
    match e {
        Expr::This(_) => tag_of(o) == Some(Tag::ThisExpression),
        Expr::Id(id) => d_id(o, id),
        Expr::Arr(_, xs) => tag_of(o) == Some(Tag::ArrayExpression) && d_itemos(fld(o, "elements"@), xs@),
        Expr::Obj(_, ps) => tag_of(o) == Some(Tag::ObjectExpression) && d_props(fld(o, "properties"@), ps@),
        Expr::Fun(f) => tag_of(o) == Some(Tag::FunctionExpression) && d_ido(fld(o, "id"@), f.id) && d_fun(o, f.params, f.body, f.generator),
        Expr::Seq(_, xs) => tag_of(o) == Some(Tag::SequenceExpression) && d_exprs(fld(o, "expressions"@), xs@),
        Expr::Unop(_, op, x) => tag_of(o) == Some(Tag::UnaryExpression) && is_unop(o, op) && d_x(fld(o, "argument"@), *x),
        Expr::Binop(_, op, x, y) => tag_of(o) == Some(Tag::BinaryExpression) && is_binop(o, op) && d_x(fld(o, "left"@), *x) && d_x(fld(o, "right"@), *y),
        Expr::Logop(_, op, x, y) => tag_of(o) == Some(Tag::LogicalExpression) && is_logop(o, op) && d_x(fld(o, "left"@), *x) && d_x(fld(o, "right"@), *y),
        Expr::PreInc(_, t) => is_update(o, "++"@, true) && d_target(fld(o, "argument"@), *t),
        Expr::PostInc(_, t) => is_update(o, "++"@, false) && d_target(fld(o, "argument"@), *t),
        Expr::PreDec(_, t) => is_update(o, "--"@, true) && d_target(fld(o, "argument"@), *t),
        Expr::PostDec(_, t) => is_update(o, "--"@, false) && d_target(fld(o, "argument"@), *t),
        Expr::Assign(_, p, x) => tag_of(o) == Some(Tag::AssignmentExpression) && fstr(o, "operator"@) == Some("="@) && d_patt(fld(o, "left"@), p) && d_x(fld(o, "right"@), *x),
        Expr::BinAssign(_, op, t, x) => tag_of(o) == Some(Tag::AssignmentExpression) && is_assop(o, op) && d_target(fld(o, "left"@), t) && d_x(fld(o, "right"@), *x),
        Expr::Cond(_, x, y, z) => tag_of(o) == Some(Tag::ConditionalExpression) && d_x(fld(o, "test"@), *x) && d_x(fld(o, "consequent"@), *y) && d_x(fld(o, "alternate"@), *z),
        Expr::Call(_, f, xs) => tag_of(o) == Some(Tag::CallExpression) && d_x(fld(o, "callee"@), *f) && d_items(fld(o, "arguments"@), xs@),
        Expr::New(_, f, xs) => tag_of(o) == Some(Tag::NewExpression) && d_x(fld(o, "callee"@), *f) && (xs matches Some(ys) && d_items(fld(o, "arguments"@), ys@)),
        Expr::Dot(_, x, key) => tag_of(o) == Some(Tag::MemberExpression) && fbool(o, "computed"@) == Some(false) && d_x(fld(o, "object"@), *x)
            && (sub(o, "property"@) matches Some(c) && tag_of(c) == Some(Tag::Identifier) && fstr(c, "name"@) == Some(key.value@)),
        Expr::Brack(_, x, y) => tag_of(o) == Some(Tag::MemberExpression) && fbool(o, "computed"@) == Some(true) && d_x(fld(o, "object"@), *x) && d_x(fld(o, "property"@), *y),
        Expr::NewTarget(_) => tag_of(o) == Some(Tag::MetaProperty) && d_word(fld(o, "meta"@), "new"@) && d_word(fld(o, "property"@), "target"@),
        _ => tag_of(o) == Some(Tag::Literal) && d_lit(o, e),
    }
}
// an identifier node that spells s
spec fn d_word(f: Option<Value>, s: Seq<char>) -> bool {
    obj(f) matches Some(c) && tag_of(c) == Some(Tag::Identifier) && fstr(c, "name"@) == Some(s)
}
spec fn is_update(o: Object, op: Seq<char>, prefix: bool) -> bool {
    tag_of(o) == Some(Tag::UpdateExpression) && fstr(o, "operator"@) == Some(op) && fbool(o, "prefix"@) == Some(prefix)
}
spec fn d_item(o: Object, x: ExprListItem) -> bool
    decreases osz(o), 4int
{
    match x {
        ExprListItem::Spread(_, e) => tag_of(o) == Some(Tag::SpreadElement) && d_x(fld(o, "argument"@), e),
        ExprListItem::Expr(e) => tag_of(o) != Some(Tag::SpreadElement) && d_expr(o, e),
    }
}
spec fn d_prop(o: Object, p: Prop) -> bool
    decreases osz(o), 4int
{
    &&& o@.contains_key("computed"@) ==> fbool(o, "computed"@) == Some(false)
    &&& match p {
        Prop::Method(f) => fstr(o, "kind"@) == Some("init"@) && fbool(o, "method"@) == Some(true) && d_keyx(o, f.id)
            && (sub(o, "value"@) matches Some(v) && d_fun(v, f.params, f.body, f.generator)),
        Prop::Shorthand(id) => fstr(o, "kind"@) == Some("init"@) && fbool(o, "method"@) == Some(false) && fbool(o, "shorthand"@) == Some(true)
            && d_idx(fld(o, "key"@), id) && sub(o, "value"@) is Some,
        Prop::Regular(_, key, val) => d_keyx(o, key) && match val {
            PropVal::Init(e) => fstr(o, "kind"@) == Some("init"@) && fbool(o, "method"@) == Some(false) && fbool(o, "shorthand"@) == Some(false) && d_x(fld(o, "value"@), e),
            PropVal::Get(_, s) => fstr(o, "kind"@) == Some("get"@)
                && (sub(o, "value"@) matches Some(v) && (sub(v, "body"@) matches Some(b) && d_script(fld(b, "body"@), s))),
            PropVal::Set(_, q, s) => fstr(o, "kind"@) == Some("set"@)
                && (sub(o, "value"@) matches Some(v) && gflag(v) is Some && d_params(fld(v, "params"@), seq![q], None)
                    && (sub(v, "body"@) matches Some(b) && d_script(fld(b, "body"@), s))),
        },
    }
}
spec fn d_dtor(o: Object, d: Dtor) -> bool
    decreases osz(o), 4int
{ d matches Dtor::Simple(_, id, e) && d_idx(fld(o, "id"@), id) && d_xo(fld(o, "init"@), e) }
spec fn d_const(o: Object, d: ConstDtor) -> bool
    decreases osz(o), 4int
{ d_bindx(fld(o, "id"@), d.patt) && d_x(fld(o, "init"@), d.value) }
spec fn d_case(o: Object, c: Case) -> bool
    decreases osz(o), 4int
{ d_xo(fld(o, "test"@), c.test) && d_sis(fld(o, "consequent"@), c.body@) }
spec fn d_block(o: Object, b: Block) -> bool
    decreases osz(o), 4int
{ tag_of(o) == Some(Tag::BlockStatement) && d_sis(fld(o, "body"@), b.items@) }
spec fn d_blockx(f: Option<Value>, b: Block) -> bool
    decreases fsz(f), 0int
{ obj(f) matches Some(c) && d_block(c, b) }
spec fn d_catch(o: Object, c: Catch) -> bool
    decreases osz(o), 4int
{ d_bindx(fld(o, "param"@), c.param) && d_blockx(fld(o, "body"@), c.body) }
spec fn d_catcho(f: Option<Value>, h: Option<Catch>) -> bool
    decreases fsz(f), 0int
{ match h { Some(x) => obj(f) matches Some(c) && d_catch(c, x), None => f == Some(Value::Null) } }
spec fn d_stx(f: Option<Value>, s: Stmt) -> bool
    decreases fsz(f), 0int
{ obj(f) matches Some(c) && d_stmt(c, s) }
spec fn d_sto(f: Option<Value>, s: Option<Stmt>) -> bool
    decreases fsz(f), 1int
{ match s { Some(x) => obj(f) matches Some(c) && d_stmt(c, x), None => f == Some(Value::Null) } }

spec fn is_decls(o: Object, kind: Seq<char>) -> bool { tag_of(o) == Some(Tag::VariableDeclaration) && fstr(o, "kind"@) == Some(kind) }
spec fn d_for_head(o: Object, h: ForHead) -> bool
    decreases osz(o), 4int
{
    match h {
        ForHead::Var(_, ds) => is_decls(o, "var"@) && d_dtors(fld(o, "declarations"@), ds@),
        ForHead::Let(_, ds) => is_decls(o, "let"@) && d_dtors(fld(o, "declarations"@), ds@),
        ForHead::Const(_, ds) => is_decls(o, "const"@) && d_consts(fld(o, "declarations"@), ds@),
        ForHead::Expr(_, e) => tag_of(o) != Some(Tag::VariableDeclaration) && d_expr(o, e),
    }
}
// the declaration of a for-in or for-of head: one declarator
spec fn d_one(o: Object, kind: Seq<char>, p: Patt<Id>, e: Option<Expr>) -> bool
    decreases osz(o), 2int
{
    is_decls(o, kind) && (arr(fld(o, "declarations"@)) matches Some(a) && a.len() == 1
        && (obj_of(a[0]) matches Some(c) && osz(c) < osz(o) && d_bindx(fld(c, "id"@), p) && d_xo(fld(c, "init"@), e)))
}
spec fn d_lhs(o: Object, p: Patt<AssignTarget>) -> bool
    decreases osz(o), 4int
{ tag_of(o) != Some(Tag::VariableDeclaration) && exists|e: Expr| #[trigger] is_patt(e, p) && d_expr(o, e) }
spec fn d_in_head(o: Object, h: ForInHead) -> bool
    decreases osz(o), 5int
{
    match h {
        ForInHead::VarInit(_, id, e) => d_one(o, "var"@, Patt::Simple(id), Some(e)),
        ForInHead::Var(_, p) => d_one(o, "var"@, p, None),
        ForInHead::Let(_, p) => d_one(o, "let"@, p, None),
        ForInHead::Const(_, p) => d_one(o, "const"@, p, None),
        ForInHead::Patt(p) => d_lhs(o, p),
    }
}
spec fn d_of_head(o: Object, h: ForOfHead) -> bool
    decreases osz(o), 5int
{
    match h {
        ForOfHead::Var(_, p) => d_one(o, "var"@, p, None),
        ForOfHead::Let(_, p) => d_one(o, "let"@, p, None),
        ForOfHead::Const(_, p) => d_one(o, "const"@, p, None),
        ForOfHead::Patt(p) => d_lhs(o, p),
    }
}
spec fn semi_ok(s: Semi) -> bool { s is Explicit }
spec fn d_stmt(o: Object, s: Stmt) -> bool
    decreases osz(o), 5int
{
    match s {
        Stmt::Empty(_) => tag_of(o) == Some(Tag::EmptyStatement),
        Stmt::Block(b) => d_block(o, b),
        Stmt::Var(_, ds, m) => semi_ok(m) && is_decls(o, "var"@) && d_dtors(fld(o, "declarations"@), ds@),
        Stmt::Expr(_, e, m) => semi_ok(m) && tag_of(o) == Some(Tag::ExpressionStatement) && d_x(fld(o, "expression"@), e),
        Stmt::If(_, e, t, f) => tag_of(o) == Some(Tag::IfStatement) && d_x(fld(o, "test"@), e) && d_stx(fld(o, "consequent"@), *t)
            && d_sto(fld(o, "alternate"@), unbox(f)),
        Stmt::Label(_, id, b) => tag_of(o) == Some(Tag::LabeledStatement) && d_idx(fld(o, "label"@), id) && d_stx(fld(o, "body"@), *b),
        Stmt::Break(_, id, m) => semi_ok(m) && tag_of(o) == Some(Tag::BreakStatement) && d_ido(fld(o, "label"@), id),
        Stmt::Cont(_, id, m) => semi_ok(m) && tag_of(o) == Some(Tag::ContinueStatement) && d_ido(fld(o, "label"@), id),
        Stmt::With(_, e, b) => tag_of(o) == Some(Tag::WithStatement) && d_x(fld(o, "object"@), e) && d_stx(fld(o, "body"@), *b),
        Stmt::Switch(_, e, cs) => tag_of(o) == Some(Tag::SwitchStatement) && d_x(fld(o, "discriminant"@), e) && d_cases(fld(o, "cases"@), cs@),
        Stmt::Return(_, e, m) => semi_ok(m) && tag_of(o) == Some(Tag::ReturnStatement) && d_xo(fld(o, "argument"@), e),
        Stmt::Throw(_, e, m) => semi_ok(m) && tag_of(o) == Some(Tag::ThrowStatement) && d_x(fld(o, "argument"@), e),
        Stmt::Try(_, b, h, f) => tag_of(o) == Some(Tag::TryStatement) && d_blockx(fld(o, "block"@), b) && d_catcho(fld(o, "handler"@), unbox(h))
            && (match f { Some(x) => d_blockx(fld(o, "finalizer"@), x), None => nul(o, "finalizer"@) }),
        Stmt::While(_, e, b) => tag_of(o) == Some(Tag::WhileStatement) && d_x(fld(o, "test"@), e) && d_stx(fld(o, "body"@), *b),
        Stmt::DoWhile(_, b, e, m) => semi_ok(m) && tag_of(o) == Some(Tag::DoWhileStatement) && d_x(fld(o, "test"@), e) && d_stx(fld(o, "body"@), *b),
        Stmt::For(_, h, e, u, b) => tag_of(o) == Some(Tag::ForStatement)
            && (match h { Some(x) => sub(o, "init"@) matches Some(c) && d_for_head(c, *x), None => nul(o, "init"@) })
            && d_xo(fld(o, "test"@), e) && d_xo(fld(o, "update"@), u) && d_stx(fld(o, "body"@), *b),
        Stmt::ForIn(_, h, e, b) => tag_of(o) == Some(Tag::ForInStatement) && (sub(o, "left"@) matches Some(c) && d_in_head(c, *h)) && d_x(fld(o, "right"@), e) && d_stx(fld(o, "body"@), *b),
        Stmt::ForOf(_, h, e, b) => tag_of(o) == Some(Tag::ForOfStatement) && (sub(o, "left"@) matches Some(c) && d_of_head(c, *h)) && d_x(fld(o, "right"@), e) && d_stx(fld(o, "body"@), *b),
        Stmt::Debugger(_, m) => semi_ok(m) && tag_of(o) == Some(Tag::DebuggerStatement),
    }
}
spec fn unbox<T>(x: Option<Box<T>>) -> Option<T> { match x { Some(b) => Some(*b), None => None } }
spec fn d_si(o: Object, x: StmtListItem) -> bool
    decreases osz(o), 6int
{
    match x {
        StmtListItem::Decl(Decl::Fun(f)) => tag_of(o) == Some(Tag::FunctionDeclaration) && d_idx(fld(o, "id"@), f.id) && d_fun(o, f.params, f.body, f.generator),
        StmtListItem::Decl(Decl::Let(_, ds, m)) => semi_ok(m) && is_decls(o, "let"@) && d_dtors(fld(o, "declarations"@), ds@),
        StmtListItem::Decl(Decl::Const(_, ds, m)) => semi_ok(m) && is_decls(o, "const"@) && d_consts(fld(o, "declarations"@), ds@),
        StmtListItem::Stmt(s) => d_stmt(o, s),
    }
}

// ---------------------------------------------------------------- which documents are well formed
spec fn wf_id(o: Object) -> bool { tag_of(o) == Some(Tag::Identifier) && fstr(o, "name"@) is Some }
spec fn wf_idx(f: Option<Value>) -> bool { obj(f) matches Some(c) && wf_id(c) }
spec fn wf_ido(f: Option<Value>) -> bool { f == Some(Value::Null) || wf_idx(f) }
spec fn wf_regex(o: Object) -> bool { sub(o, "regex"@) matches Some(r) && fstr(r, "pattern"@) is Some && fstr(r, "flags"@) is Some }
spec fn wf_lit(o: Object) -> bool {
    o@.contains_key("value"@) && match o@["value"@] {
        Value::Null => o@.contains_key("regex"@) ==> wf_regex(o),
        Value::Object(_) => wf_regex(o),
        Value::Array(_) => false,
        _ => true,
    }
}
spec fn wf_key(o: Object) -> bool {
    wf_id(o) || tag_of(o) is Some && tag_of(o) != Some(Tag::Identifier) && o@.contains_key("value"@) && match o@["value"@] {
        Value::String(_) | Value::I64(_) | Value::U64(_) | Value::F64(_) => true,
        _ => false,
    }
}
spec fn wf_keyx(o: Object) -> bool { sub(o, "key"@) matches Some(c) && wf_key(c) }
spec fn wf_params(f: Option<Value>) -> bool {
    arr(f) matches Some(a) && forall|i: int| 0 <= i < a.len() ==> (obj_of(#[trigger] a[i]) matches Some(c)
        && (wf_id(c) || i == a.len() - 1 && tag_of(c) == Some(Tag::RestElement) && wf_idx(fld(c, "argument"@))))
}
spec fn wf_fun(o: Object) -> bool
    decreases osz(o), 1int
{ gflag(o) is Some && wf_params(fld(o, "params"@)) && (sub(o, "body"@) matches Some(b) && wf_sis(fld(b, "body"@))) }
spec fn wf_x(f: Option<Value>) -> bool
    decreases fsz(f), 0int
{ obj(f) matches Some(c) && wf_expr(c) }
spec fn wf_xo(f: Option<Value>) -> bool
    decreases fsz(f), 0int
{ f == Some(Value::Null) || (obj(f) matches Some(c) && wf_expr(c)) }
spec fn wf_exprs(f: Option<Value>) -> bool
    decreases fsz(f), 0int
{ arr(f) matches Some(a) && forall|i: int| 0 <= i < a.len() ==> (obj_of(#[trigger] a[i]) matches Some(c) && osz(c) < fsz(f) && wf_expr(c)) }
spec fn wf_items(f: Option<Value>) -> bool
    decreases fsz(f), 0int
{ arr(f) matches Some(a) && forall|i: int| 0 <= i < a.len() ==> (obj_of(#[trigger] a[i]) matches Some(c) && osz(c) < fsz(f) && wf_item(c)) }
spec fn wf_props(f: Option<Value>) -> bool
    decreases fsz(f), 0int
{ arr(f) matches Some(a) && forall|i: int| 0 <= i < a.len() ==> (obj_of(#[trigger] a[i]) matches Some(c) && osz(c) < fsz(f) && wf_prop(c)) }
spec fn wf_dtors(f: Option<Value>) -> bool
    decreases fsz(f), 0int
{ arr(f) matches Some(a) && forall|i: int| 0 <= i < a.len() ==> (obj_of(#[trigger] a[i]) matches Some(c) && osz(c) < fsz(f) && wf_dtor(c)) }
spec fn wf_consts(f: Option<Value>) -> bool
    decreases fsz(f), 0int
{ arr(f) matches Some(a) && forall|i: int| 0 <= i < a.len() ==> (obj_of(#[trigger] a[i]) matches Some(c) && osz(c) < fsz(f) && wf_const(c)) }
spec fn wf_cases(f: Option<Value>) -> bool
    decreases fsz(f), 0int
{ arr(f) matches Some(a) && forall|i: int| 0 <= i < a.len() ==> (obj_of(#[trigger] a[i]) matches Some(c) && osz(c) < fsz(f) && wf_case(c)) }
spec fn wf_sis(f: Option<Value>) -> bool
    decreases fsz(f), 0int
{ arr(f) matches Some(a) && forall|i: int| 0 <= i < a.len() ==> (obj_of(#[trigger] a[i]) matches Some(c) && osz(c) < fsz(f) && wf_si(c)) }
spec fn wf_itemos(f: Option<Value>) -> bool
    decreases fsz(f), 0int
{
    arr(f) matches Some(a) && forall|i: int| 0 <= i < a.len() ==> match #[trigger] a[i] {
        Value::Null => true,
        Value::Object(c) => osz(c) < fsz(f) && wf_item(c),
        _ => false,
    }
}
// something that an assignment may go to
spec fn pat(o: Object) -> bool
    decreases osz(o)
{
    match tag_of(o) {
        Some(Tag::Identifier) | Some(Tag::MemberExpression) => true,
        Some(Tag::ObjectExpression) => arr(fld(o, "properties"@)) matches Some(a) && forall|i: int| 0 <= i < a.len() ==> (obj_of(#[trigger] a[i]) matches Some(c)
            && fstr(c, "kind"@) == Some("init"@) && fbool(c, "method"@) == Some(false)
            && (fbool(c, "shorthand"@) == Some(true) || (sub(c, "value"@) matches Some(v) && osz(v) < osz(o) && pat(v)))),
        Some(Tag::ArrayExpression) => arr(fld(o, "elements"@)) matches Some(a) && forall|i: int| 0 <= i < a.len() ==> match #[trigger] a[i] {
            Value::Object(c) => if tag_of(c) == Some(Tag::SpreadElement) {
                    i == a.len() - 1 && (sub(c, "argument"@) matches Some(v) && osz(v) < osz(o) && pat(v))
                } else { osz(c) < osz(o) && pat(c) },
            _ => true,
        },
        _ => false,
    }
}
spec fn simple(o: Object) -> bool { tag_of(o) == Some(Tag::Identifier) || tag_of(o) == Some(Tag::MemberExpression) }
spec fn wf_patt(f: Option<Value>) -> bool
    decreases fsz(f), 0int
{ obj(f) matches Some(c) && wf_expr(c) && pat(c) }
spec fn wf_target(f: Option<Value>) -> bool
    decreases fsz(f), 0int
{ obj(f) matches Some(c) && wf_expr(c) && simple(c) }
spec fn wf_expr(o: Object) -> bool
    decreases osz(o), 3int
{
    match tag_of(o) {
        Some(Tag::Identifier) => wf_id(o),
        Some(Tag::Literal) => wf_lit(o),
        Some(Tag::ThisExpression) => true,
        Some(Tag::ArrayExpression) => wf_itemos(fld(o, "elements"@)),
        Some(Tag::ObjectExpression) => wf_props(fld(o, "properties"@)),
        Some(Tag::FunctionExpression) => wf_ido(fld(o, "id"@)) && wf_fun(o),
        Some(Tag::SequenceExpression) => wf_exprs(fld(o, "expressions"@)),
        Some(Tag::UnaryExpression) => wf_unop(o) && wf_x(fld(o, "argument"@)),
        Some(Tag::BinaryExpression) => wf_binop(o) && wf_x(fld(o, "left"@)) && wf_x(fld(o, "right"@)),
        Some(Tag::LogicalExpression) => wf_logop(o) && wf_x(fld(o, "left"@)) && wf_x(fld(o, "right"@)),
        Some(Tag::UpdateExpression) => (fstr(o, "operator"@) == Some("++"@) || fstr(o, "operator"@) == Some("--"@))
            && fbool(o, "prefix"@) is Some && wf_target(fld(o, "argument"@)),
        Some(Tag::AssignmentExpression) => wf_x(fld(o, "right"@)) && (if fstr(o, "operator"@) == Some("="@) { wf_patt(fld(o, "left"@)) }
            else { wf_assop(o) && wf_target(fld(o, "left"@)) }),
        Some(Tag::ConditionalExpression) => wf_x(fld(o, "test"@)) && wf_x(fld(o, "consequent"@)) && wf_x(fld(o, "alternate"@)),
        Some(Tag::CallExpression) | Some(Tag::NewExpression) => wf_x(fld(o, "callee"@)) && wf_items(fld(o, "arguments"@)),
        Some(Tag::MemberExpression) => wf_x(fld(o, "object"@)) && (fbool(o, "computed"@) matches Some(b)
            && if b { wf_x(fld(o, "property"@)) } else { wf_idx(fld(o, "property"@)) }),
        Some(Tag::MetaProperty) => d_word(fld(o, "meta"@), "new"@) && d_word(fld(o, "property"@), "target"@),
        _ => false,
    }
}
spec fn wf_item(o: Object) -> bool
    decreases osz(o), 4int
{ if tag_of(o) == Some(Tag::SpreadElement) { wf_x(fld(o, "argument"@)) } else { wf_expr(o) } }
spec fn wf_prop(o: Object) -> bool
    decreases osz(o), 4int
{
    &&& o@.contains_key("computed"@) ==> fbool(o, "computed"@) == Some(false)
    &&& sub(o, "value"@) matches Some(v) && match fstr(o, "kind"@) {
        Some(s) => if s == "init"@ {
                fbool(o, "method"@) matches Some(m) && if m { wf_keyx(o) && wf_fun(v) } else {
                    fbool(o, "shorthand"@) matches Some(h) && if h { wf_idx(fld(o, "key"@)) } else { wf_keyx(o) && wf_expr(v) }
                }
            } else if s == "get"@ { wf_keyx(o) && (sub(v, "body"@) matches Some(b) && wf_sis(fld(b, "body"@))) }
            else if s == "set"@ {
                wf_keyx(o) && wf_fun(v) && (arr(fld(v, "params"@)) matches Some(a) && a.len() == 1
                    && (obj_of(a[0]) matches Some(c) && tag_of(c) != Some(Tag::RestElement)))
            } else { false },
        None => false,
    }
}
spec fn wf_dtor(o: Object) -> bool
    decreases osz(o), 4int
{ wf_idx(fld(o, "id"@)) && wf_xo(fld(o, "init"@)) }
spec fn wf_const(o: Object) -> bool
    decreases osz(o), 4int
{ wf_idx(fld(o, "id"@)) && wf_x(fld(o, "init"@)) }
spec fn wf_case(o: Object) -> bool
    decreases osz(o), 4int
{ wf_xo(fld(o, "test"@)) && wf_sis(fld(o, "consequent"@)) }
spec fn wf_block(o: Object) -> bool
    decreases osz(o), 4int
{ tag_of(o) == Some(Tag::BlockStatement) && wf_sis(fld(o, "body"@)) }
spec fn wf_blockx(f: Option<Value>) -> bool
    decreases fsz(f), 0int
{ obj(f) matches Some(c) && wf_block(c) }
spec fn wf_catch(o: Object) -> bool
    decreases osz(o), 4int
{ wf_idx(fld(o, "param"@)) && wf_blockx(fld(o, "body"@)) }
spec fn wf_catcho(f: Option<Value>) -> bool
    decreases fsz(f), 0int
{ f == Some(Value::Null) || (obj(f) matches Some(c) && wf_catch(c)) }
spec fn wf_stx(f: Option<Value>) -> bool
    decreases fsz(f), 0int
{ obj(f) matches Some(c) && wf_stmt(c) }
spec fn wf_sto(f: Option<Value>) -> bool
    decreases fsz(f), 0int
{ f == Some(Value::Null) || (obj(f) matches Some(c) && wf_stmt(c)) }
spec fn decl_kind(o: Object) -> Option<int> {
    match fstr(o, "kind"@) {
        Some(s) => if s == "var"@ { Some(0) } else if s == "let"@ { Some(1) } else if s == "const"@ { Some(2) } else { None },
        None => None,
    }
}
spec fn wf_for_head(o: Object) -> bool
    decreases osz(o), 4int
{
    if tag_of(o) == Some(Tag::VariableDeclaration) {
        match decl_kind(o) { Some(k) => if k == 2 { wf_consts(fld(o, "declarations"@)) } else { wf_dtors(fld(o, "declarations"@)) }, None => false }
    } else { wf_expr(o) }
}
// the head of a for-in or for-of loop; only "for (var x = e in ...)" has an initializer
spec fn wf_enum_head(o: Object, is_in: bool) -> bool
    decreases osz(o), 4int
{
    if tag_of(o) == Some(Tag::VariableDeclaration) {
        decl_kind(o) matches Some(k) && (arr(fld(o, "declarations"@)) matches Some(a) && a.len() == 1
            && (obj_of(a[0]) matches Some(c) && osz(c) < osz(o) && wf_idx(fld(c, "id"@))
                && if is_in && k == 0 { wf_xo(fld(c, "init"@)) } else { nul(c, "init"@) }))
    } else { wf_expr(o) && pat(o) }
}
spec fn wf_stmt(o: Object) -> bool
    decreases osz(o), 5int
{ wf_st(o, false) }
spec fn wf_si(o: Object) -> bool
    decreases osz(o), 5int
{ wf_st(o, true) }
spec fn wf_st(o: Object, decls: bool) -> bool
    decreases osz(o), 4int
{
    match tag_of(o) {
        Some(Tag::FunctionDeclaration) => decls && wf_idx(fld(o, "id"@)) && wf_fun(o),
        Some(Tag::VariableDeclaration) => decl_kind(o) matches Some(k) && (k == 0 || decls)
            && if k == 2 { wf_consts(fld(o, "declarations"@)) } else { wf_dtors(fld(o, "declarations"@)) },
        Some(Tag::EmptyStatement) | Some(Tag::DebuggerStatement) => true,
        Some(Tag::ExpressionStatement) => wf_x(fld(o, "expression"@)),
        Some(Tag::IfStatement) => wf_x(fld(o, "test"@)) && wf_stx(fld(o, "consequent"@)) && wf_sto(fld(o, "alternate"@)),
        Some(Tag::DoWhileStatement) | Some(Tag::WhileStatement) => wf_stx(fld(o, "body"@)) && wf_x(fld(o, "test"@)),
        Some(Tag::ForStatement) => (nul(o, "init"@) || (sub(o, "init"@) matches Some(c) && wf_for_head(c)))
            && wf_xo(fld(o, "test"@)) && wf_xo(fld(o, "update"@)) && wf_stx(fld(o, "body"@)),
        Some(Tag::ForInStatement) => (sub(o, "left"@) matches Some(c) && wf_enum_head(c, true)) && wf_x(fld(o, "right"@)) && wf_stx(fld(o, "body"@)),
        Some(Tag::ForOfStatement) => (sub(o, "left"@) matches Some(c) && wf_enum_head(c, false)) && wf_x(fld(o, "right"@)) && wf_stx(fld(o, "body"@)),
        Some(Tag::BlockStatement) => wf_sis(fld(o, "body"@)),
        Some(Tag::ReturnStatement) => wf_xo(fld(o, "argument"@)),
        Some(Tag::LabeledStatement) => wf_idx(fld(o, "label"@)) && wf_stx(fld(o, "body"@)),
        Some(Tag::BreakStatement) | Some(Tag::ContinueStatement) => wf_ido(fld(o, "label"@)),
        Some(Tag::SwitchStatement) => wf_x(fld(o, "discriminant"@)) && wf_cases(fld(o, "cases"@)),
        Some(Tag::WithStatement) => wf_x(fld(o, "object"@)) && wf_stx(fld(o, "body"@)),
        Some(Tag::ThrowStatement) => wf_x(fld(o, "argument"@)),
        Some(Tag::TryStatement) => wf_blockx(fld(o, "block"@)) && wf_catcho(fld(o, "handler"@))
            && (nul(o, "finalizer"@) || wf_blockx(fld(o, "finalizer"@))),
        _ => false,
    }
}
// an expression read from something that an assignment may go to is a pattern
proof fn lemma_pat(o: Object, e: Expr)
    requires d_expr(o, e), pat(o),
    ensures can_patt(e),
    decreases osz(o)
{
    keys();
    match e {
        Expr::Obj(_, ps) => {
            let f = fld(o, "properties"@);
            let a = arr(f)->0;
            assert(d_props(f, ps@));
            assert forall|i: int| 0 <= i < ps@.len() implies can_prop(#[trigger] ps@[i]) by {
                let c = obj_of(a[i])->0;
                assert(d_prop(c, ps@[i]));
                match ps@[i] {
                    Prop::Regular(_, _, PropVal::Init(x)) => {
                        assert(d_x(fld(c, "value"@), x));
                        lemma_pat(sub(c, "value"@)->0, x);
                    }
                    _ => { }
                }
            }
        }
        Expr::Arr(_, xs) => {
            let f = fld(o, "elements"@);
            let a = arr(f)->0;
            assert(d_itemos(f, xs@));
            assert forall|i: int| 0 <= i < xs@.len() implies (can_elt(#[trigger] xs@[i]) || i == xs@.len() - 1 && can_rest(xs@[i])) by {
                match a[i] {
                    Value::Object(c) => {
                        assert(d_item(c, xs@[i]->0));
                        match xs@[i]->0 {
                            ExprListItem::Expr(x) => { lemma_pat(c, x); }
                            ExprListItem::Spread(_, x) => {
                                assert(d_x(fld(c, "argument"@), x));
                                lemma_pat(sub(c, "argument"@)->0, x);
                            }
                        }
                    }
                    _ => { }
                }
            }
        }
        _ => { }
    }
}
proof fn lemma_pats(o: Object)
    ensures
        forall|e: Expr| pat(o) && #[trigger] d_expr(o, e) ==> can_patt(e),
        forall|e: Expr| simple(o) && #[trigger] d_expr(o, e) ==> sp_target(e) is Some,
{
    assert forall|e: Expr| pat(o) && #[trigger] d_expr(o, e) implies can_patt(e) by { lemma_pat(o, e); }
    assert forall|e: Expr| simple(o) && #[trigger] d_expr(o, e) implies sp_target(e) is Some by { keys(); }
}
proof fn lemma_patx(f: Option<Value>)
    ensures
        forall|e: Expr| wf_patt(f) && #[trigger] d_x(f, e) ==> can_patt(e),
        forall|e: Expr| wf_target(f) && #[trigger] d_x(f, e) ==> sp_target(e) is Some,
{
    if obj(f) is Some { let c = obj(f)->0; lemma_pats(c);
        assert forall|e: Expr| wf_patt(f) && #[trigger] d_x(f, e) implies can_patt(e) by { assert(d_expr(c, e)); }
        assert forall|e: Expr| wf_target(f) && #[trigger] d_x(f, e) implies sp_target(e) is Some by { assert(d_expr(c, e)); }
    }
}
spec fn consts_of(xs: Seq<Dtor>, ys: Seq<ConstDtor>) -> bool {
    ys.len() == xs.len() && forall|i: int| 0 <= i < ys.len() ==> const_of(#[trigger] xs[i], ys[i])
}
// a constant needs an initializer
proof fn lemma_consts(f: Option<Value>)
    ensures
        forall|xs: Seq<Dtor>, i: int| #[trigger] d_dtors(f, xs) && 0 <= i < xs.len() && (#[trigger] xs[i] matches Dtor::Simple(_, _, None)) ==> !wf_consts(f),
        wf_consts(f) ==> wf_dtors(f),
        forall|xs: Seq<Dtor>, ys: Seq<ConstDtor>| #[trigger] d_dtors(f, xs) && #[trigger] consts_of(xs, ys) ==> d_consts(f, ys),
{
    keys();
    assert forall|xs: Seq<Dtor>, i: int| #[trigger] d_dtors(f, xs) && 0 <= i < xs.len() && (#[trigger] xs[i] matches Dtor::Simple(_, _, None)) implies !wf_consts(f) by {
        let a = arr(f)->0;
        let c = obj_of(a[i])->0;
        assert(d_dtor(c, xs[i]));
        assert(d_xo(fld(c, "init"@), None));
        if wf_consts(f) { assert(wf_const(c)); assert(wf_x(fld(c, "init"@))); }
    }
    if wf_consts(f) {
        let a = arr(f)->0;
        assert forall|i: int| 0 <= i < a.len() implies (obj_of(#[trigger] a[i]) matches Some(c) && osz(c) < fsz(f) && wf_dtor(c)) by {
            let c = obj_of(a[i])->0;
            assert(wf_const(c)); assert(wf_x(fld(c, "init"@)));
            assert(wf_xo(fld(c, "init"@)));
        }
    }
    assert forall|xs: Seq<Dtor>, ys: Seq<ConstDtor>| #[trigger] d_dtors(f, xs) && #[trigger] consts_of(xs, ys) implies d_consts(f, ys) by {
        let a = arr(f)->0;
        assert forall|i: int| 0 <= i < a.len() implies (obj_of(#[trigger] a[i]) matches Some(c) && osz(c) < fsz(f) && d_const(c, ys[i])) by {
            let c = obj_of(a[i])->0;
            assert(d_dtor(c, xs[i]));
            assert(const_of(xs[i], ys[i]));
            assert(d_xo(fld(c, "init"@), Some(ys[i].value)));
            assert(d_x(fld(c, "init"@), ys[i].value));
        }
    }
}
// ---------------------------------------------------------------- the field names are different
#[verifier::opaque]
spec fn kid(s: Seq<char>) -> int {
    if s.len() == 0 { 0 } else { s.len() + (s[0] as int) * 100 + (s[s.len() - 1] as int) * 100000 + (s[s.len() as int / 2] as int) * 100000000 }
}
proof fn keys()
    ensures kid("type"@) == 11210111604,
        kid("name"@) == 10910111004,
        kid("generator"@) == 11411410309,
        kid("params"@) == 9711511206,
        kid("body"@) == 10012109804,
        kid("id"@) == 10010010502,
        kid("init"@) == 10511610504,
        kid("key"@) == 10112110703,
        kid("value"@) == 10810111805,
        kid("kind"@) == 11010010704,
        kid("method"@) == 10410010906,
        kid("shorthand"@) == 11610011509,
        kid("computed"@) == 11710009908,
        kid("operator"@) == 9711411108,
        kid("left"@) == 10211610804,
        kid("right"@) == 10311611405,
        kid("argument"@) == 10911609708,
        kid("prefix"@) == 10212011206,
        kid("object"@) == 10111611106,
        kid("property"@) == 10112111208,
        kid("callee"@) == 10810109906,
        kid("arguments"@) == 10911509709,
        kid("elements"@) == 10111510108,
        kid("expressions"@) == 11511510111,
        kid("properties"@) == 11411511210,
        kid("test"@) == 11511611604,
        kid("consequent"@) == 11311609910,
        kid("alternate"@) == 11410109709,
        kid("meta"@) == 11609710904,
        kid("regex"@) == 10312011405,
        kid("pattern"@) == 11611011207,
        kid("flags"@) == 9711510205,
        kid("declarations"@) == 9711510012,
        kid("expression"@) == 11511010110,
        kid("update"@) == 9710111706,
        kid("label"@) == 9810810805,
        kid("discriminant"@) == 10911610012,
        kid("cases"@) == 11511509905,
        kid("block"@) == 11110709805,
        kid("handler"@) == 10011410407,
        kid("finalizer"@) == 10811410209,
        kid("param"@) == 11410911205,
        kid("get"@) == 10111610303,
        kid("set"@) == 10111611503,
        kid("var"@) == 9711411803,
        kid("let"@) == 10111610803,
        kid("const"@) == 11011609905,
        kid("new"@) == 10111911003,
        kid("target"@) == 10311611606,
        kid("="@) == 6106106101,
        kid("++"@) == 4304304302,
        kid("--"@) == 4504504502,
        assop_named("="@) is None,
{
    reveal(kid); reveal(assop_named);
    reveal_strlit("type"); assert("type"@.len() == 4);
    reveal_strlit("name"); assert("name"@.len() == 4);
    reveal_strlit("generator"); assert("generator"@.len() == 9);
    reveal_strlit("params"); assert("params"@.len() == 6);
    reveal_strlit("body"); assert("body"@.len() == 4);
    reveal_strlit("id"); assert("id"@.len() == 2);
    reveal_strlit("init"); assert("init"@.len() == 4);
    reveal_strlit("key"); assert("key"@.len() == 3);
    reveal_strlit("value"); assert("value"@.len() == 5);
    reveal_strlit("kind"); assert("kind"@.len() == 4);
    reveal_strlit("method"); assert("method"@.len() == 6);
    reveal_strlit("shorthand"); assert("shorthand"@.len() == 9);
    reveal_strlit("computed"); assert("computed"@.len() == 8);
    reveal_strlit("operator"); assert("operator"@.len() == 8);
    reveal_strlit("left"); assert("left"@.len() == 4);
    reveal_strlit("right"); assert("right"@.len() == 5);
    reveal_strlit("argument"); assert("argument"@.len() == 8);
    reveal_strlit("prefix"); assert("prefix"@.len() == 6);
    reveal_strlit("object"); assert("object"@.len() == 6);
    reveal_strlit("property"); assert("property"@.len() == 8);
    reveal_strlit("callee"); assert("callee"@.len() == 6);
    reveal_strlit("arguments"); assert("arguments"@.len() == 9);
    reveal_strlit("elements"); assert("elements"@.len() == 8);
    reveal_strlit("expressions"); assert("expressions"@.len() == 11);
    reveal_strlit("properties"); assert("properties"@.len() == 10);
    reveal_strlit("test"); assert("test"@.len() == 4);
    reveal_strlit("consequent"); assert("consequent"@.len() == 10);
    reveal_strlit("alternate"); assert("alternate"@.len() == 9);
    reveal_strlit("meta"); assert("meta"@.len() == 4);
    reveal_strlit("regex"); assert("regex"@.len() == 5);
    reveal_strlit("pattern"); assert("pattern"@.len() == 7);
    reveal_strlit("flags"); assert("flags"@.len() == 5);
    reveal_strlit("declarations"); assert("declarations"@.len() == 12);
    reveal_strlit("expression"); assert("expression"@.len() == 10);
    reveal_strlit("update"); assert("update"@.len() == 6);
    reveal_strlit("label"); assert("label"@.len() == 5);
    reveal_strlit("discriminant"); assert("discriminant"@.len() == 12);
    reveal_strlit("cases"); assert("cases"@.len() == 5);
    reveal_strlit("block"); assert("block"@.len() == 5);
    reveal_strlit("handler"); assert("handler"@.len() == 7);
    reveal_strlit("finalizer"); assert("finalizer"@.len() == 9);
    reveal_strlit("param"); assert("param"@.len() == 5);
    reveal_strlit("get"); assert("get"@.len() == 3);
    reveal_strlit("set"); assert("set"@.len() == 3);
    reveal_strlit("var"); assert("var"@.len() == 3);
    reveal_strlit("let"); assert("let"@.len() == 3);
    reveal_strlit("const"); assert("const"@.len() == 5);
    reveal_strlit("new"); assert("new"@.len() == 3);
    reveal_strlit("target"); assert("target"@.len() == 6);
    reveal_strlit("="); assert("="@.len() == 1);
    reveal_strlit("++"); assert("++"@.len() == 2);
    reveal_strlit("--"); assert("--"@.len() == 2);
    reveal_strlit("="); reveal_strlit("+="); assert("+="@.len() != 1); reveal_strlit("-="); assert("-="@.len() != 1); reveal_strlit("*="); assert("*="@.len() != 1); reveal_strlit("/="); assert("/="@.len() != 1); reveal_strlit("%="); assert("%="@.len() != 1); reveal_strlit("<<="); assert("<<="@.len() != 1); reveal_strlit(">>="); assert(">>="@.len() != 1); reveal_strlit(">>>="); assert(">>>="@.len() != 1); reveal_strlit("|="); assert("|="@.len() != 1); reveal_strlit("^="); assert("^="@.len() != 1); reveal_strlit("&="); assert("&="@.len() != 1);
}

spec fn as_dir(x: StmtListItem, d: Dir) -> bool {
    x matches StmtListItem::Stmt(Stmt::Expr(l, Expr::String(_, s), m)) && d.location == l && d.string == s && d.semi == m
}
proof fn lemma_dir(o: Object, x: StmtListItem, d: Dir)
    requires d_si(o, x), as_dir(x, d),
    ensures d_si(o, dir_item(d)),
{
    let c = sub(o, "expression"@)->0;
    let e = x->Stmt_0->Expr_1;
    assert(d_x(fld(o, "expression"@), e));
    assert(d_expr(c, e));
    assert(d_expr(c, Expr::String(None, d.string)));
    assert(d_x(fld(o, "expression"@), Expr::String(None, d.string)));
}
spec fn splits(xs: Seq<StmtListItem>, s: Script) -> bool {
    &&& xs.len() == s.dirs@.len() + s.items@.len()
    &&& forall|i: int| 0 <= i < s.dirs@.len() ==> as_dir(xs[i], #[trigger] s.dirs@[i])
    &&& forall|i: int| 0 <= i < s.items@.len() ==> #[trigger] s.items@[i] == xs[i + s.dirs@.len()]
    &&& s.items@.len() > 0 ==> !is_dir(s.items@[0])
}
// a statement list, with its directives taken out, is a script
proof fn lemma_script(f: Option<Value>)
    ensures forall|xs: Seq<StmtListItem>, s: Script| #[trigger] d_sis(f, xs) && splits(xs, s) ==> #[trigger] d_script(f, s),
{
    assert forall|xs: Seq<StmtListItem>, s: Script| #[trigger] d_sis(f, xs) && splits(xs, s) implies #[trigger] d_script(f, s) by {
        let a = arr(f)->0;
        assert forall|i: int| 0 <= i < s.dirs@.len() implies (obj_of(#[trigger] a[i]) matches Some(c) && osz(c) < fsz(f) && d_si(c, dir_item(s.dirs@[i]))) by {
            let c = obj_of(a[i])->0;
            assert(d_si(c, xs[i]));
            assert(as_dir(xs[i], s.dirs@[i]));
            lemma_dir(c, xs[i], s.dirs@[i]);
        }
        assert forall|i: int| s.dirs@.len() <= i < a.len() implies (obj_of(#[trigger] a[i]) matches Some(c) && osz(c) < fsz(f) && d_si(c, s.items@[i - s.dirs@.len()])) by {
            let c = obj_of(a[i])->0;
            assert(d_si(c, xs[i]));
            assert(s.items@[i - s.dirs@.len()] == xs[i]);
        }
    }
}

spec fn small(os: Seq<Object>, f: Option<Value>) -> bool { forall|i: int| 0 <= i < os.len() ==> osz(#[trigger] os[i]) < fsz(f) }
spec fn fits(f: Option<Value>, o: Object) -> bool { arr(f) matches Some(a) && fsz(f) == asz(a) && asz(a) <= osz(o) }
// taking one field out leaves the others
spec fn rest(b: Object, a: Object, k: Seq<char>) -> bool { a@ == b@.remove(k) }
broadcast proof fn lemma_fld(a: Object, b: Object, k: Seq<char>, j: Seq<char>)
    ensures #[trigger] rest(b, a, k) && kid(k) != kid(j) ==> #[trigger] fld(a, j) == fld(b, j),
{ broadcast use axiom_osz_field; }
proof fn lemma_ops()
    ensures
        forall|s: Seq<char>| (#[trigger] unop_named(s)) matches Some(t) ==> (Op::<UnopTag> { location: None, tag: t }).spelled(s),
        forall|s: Seq<char>| (#[trigger] binop_named(s)) matches Some(t) ==> (Op::<BinopTag> { location: None, tag: t }).spelled(s),
        forall|s: Seq<char>| (#[trigger] logop_named(s)) matches Some(t) ==> (Op::<LogopTag> { location: None, tag: t }).spelled(s),
        forall|s: Seq<char>| (#[trigger] assop_named(s)) matches Some(t) ==> (Op::<AssopTag> { location: None, tag: t }).spelled(s),
{ }
proof fn lit(l: &str)
    ensures forall|a: &str| #[trigger] a@ == l@ ==> a == l
{ broadcast use axiom_str; }


impl vstd::std_specs::convert::FromSpecImpl<Error> for EError {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: Error) -> Self { arbitrary() }
}
