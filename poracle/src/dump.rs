//! Print an easter tree the way refp does.
use easter::decl::*;
use easter::expr::*;
use easter::fun::*;
use easter::id::Id;
use easter::obj::*;
use easter::patt::*;
use easter::punc::*;
use easter::stmt::*;
use joker::token::{NumberLiteral, StringLiteral};

fn semi(s: &Semi) -> &'static str { match *s { Semi::Inserted => "!", Semi::Explicit(_) => ";" } }
fn id(i: &Id) -> String { format!("{:?}", i.name) }
fn num(l: &NumberLiteral) -> String { format!("(num {:?} {:?})", l.value.to_bits(), l.source) }
fn st(l: &StringLiteral) -> String { format!("(str {:?} {:?})", l.value, l.source) }

pub fn script(b: &Script) -> String {
    let mut s = String::new();
    for d in b.dirs.iter() { s.push_str(&format!("(dir {:?} {:?} {})", d.string.value, d.string.source, semi(&d.semi))) }
    s + &items(&b.items)
}
pub fn module(b: &Module) -> String {
    let mut s = String::new();
    for d in b.dirs.iter() { s.push_str(&format!("(dir {:?} {:?} {})", d.string.value, d.string.source, semi(&d.semi))) }
    s.push('<');
    for i in b.items.iter() {
        match *i {
            ModItem::StmtListItem(ref i) => { s.push_str(&item(i)); s.push(' ') }
            ModItem::Import(ref i) => s.push_str(&format!("(import {:?})", i)),
            ModItem::Export(ref i) => s.push_str(&format!("(export {:?})", i)),
        }
    }
    s.push('>');
    s
}
fn items(v: &Vec<StmtListItem>) -> String {
    let mut s = String::from("<");
    for i in v.iter() { s.push_str(&item(i)); s.push(' ') }
    s.push('>');
    s
}
fn item(i: &StmtListItem) -> String {
    match *i {
        StmtListItem::Stmt(ref s) => stmt(s),
        StmtListItem::Decl(Decl::Fun(ref f)) => format!("(fundecl {})", fun(f, id(&f.id))),
        StmtListItem::Decl(Decl::Let(_, ref d, ref e)) => format!("(let {} {})", dtors(d), semi(e)),
        StmtListItem::Decl(Decl::Const(_, ref d, ref e)) => format!("(const {} {})", const_dtors(d), semi(e)),
    }
}
fn dtors(v: &Vec<Dtor>) -> String {
    v.iter().map(|d| match *d {
        Dtor::Simple(_, ref i, None) => format!("({} -)", id(i)),
        Dtor::Simple(_, ref i, Some(ref e)) => format!("({} {})", id(i), expr(e)),
        Dtor::Compound(_, ref p, ref e) => format!("({:?} {})", p, expr(e)),
    }).collect()
}
fn const_dtors(v: &Vec<ConstDtor>) -> String { v.iter().map(|d| format!("({} {})", ipatt(&d.patt), expr(&d.value))).collect() }
fn ipatt(p: &Patt<Id>) -> String { match *p { Patt::Simple(ref i) => id(i), Patt::Compound(ref c) => format!("{:?}", c) } }
fn block(b: &Block) -> String { format!("{{{}}}", items(&b.items)) }
fn oexpr(e: &Option<Expr>) -> String { match *e { Some(ref e) => expr(e), None => "-".into() } }
fn oid(e: &Option<Id>) -> String { match *e { Some(ref e) => id(e), None => "-".into() } }

fn stmt(s: &Stmt) -> String {
    match *s {
        Stmt::Empty(_) => "(empty)".into(),
        Stmt::Block(ref b) => block(b),
        Stmt::Var(_, ref d, ref e) => format!("(var {} {})", dtors(d), semi(e)),
        Stmt::Expr(_, ref x, ref e) => format!("(expr {} {})", expr(x), semi(e)),
        Stmt::If(_, ref c, ref a, ref b) => format!("(if {} {} {})", expr(c), stmt(a), match *b { Some(ref b) => stmt(b), None => "-".into() }),
        Stmt::Label(_, ref l, ref b) => format!("(label {} {})", id(l), stmt(b)),
        Stmt::Break(_, ref l, ref e) => format!("(break {} {})", oid(l), semi(e)),
        Stmt::Cont(_, ref l, ref e) => format!("(continue {} {})", oid(l), semi(e)),
        Stmt::With(_, ref o, ref b) => format!("(with {} {})", expr(o), stmt(b)),
        Stmt::Switch(_, ref d, ref cs) => format!("(switch {} {})", expr(d), cs.iter().map(|c| match c.test {
            Some(ref t) => format!("(case {} {})", expr(t), items(&c.body)),
            None => format!("(default {})", items(&c.body)),
        }).collect::<String>()),
        Stmt::Return(_, ref a, ref e) => format!("(return {} {})", oexpr(a), semi(e)),
        Stmt::Throw(_, ref a, ref e) => format!("(throw {} {})", expr(a), semi(e)),
        Stmt::Try(_, ref b, ref c, ref f) => format!("(try {} {} {})", block(b),
            match *c { Some(ref c) => format!("({} {})", ipatt(&c.param), block(&c.body)), None => "-".into() },
            match *f { Some(ref f) => block(f), None => "-".into() }),
        Stmt::While(_, ref c, ref b) => format!("(while {} {})", expr(c), stmt(b)),
        Stmt::DoWhile(_, ref b, ref c, ref e) => format!("(do {} {} {})", stmt(b), expr(c), semi(e)),
        Stmt::For(_, ref h, ref t, ref u, ref b) => format!("(for {} {} {} {})", match *h {
            None => "-".to_string(),
            Some(ref h) => match **h {
                ForHead::Var(_, ref d) => format!("(var {})", dtors(d)),
                ForHead::Let(_, ref d) => format!("(let {})", dtors(d)),
                ForHead::Const(_, ref d) => format!("(const {})", const_dtors(d)),
                ForHead::Expr(_, ref e) => expr(e),
            },
        }, oexpr(t), oexpr(u), stmt(b)),
        Stmt::ForIn(_, ref h, ref o, ref b) => format!("(forin {} {} {})", match **h {
            ForInHead::VarInit(_, ref i, ref e) => format!("(varinit {} {})", id(i), expr(e)),
            ForInHead::Var(_, ref p) => format!("(var {})", ipatt(p)),
            ForInHead::Let(_, ref p) => format!("(let {})", ipatt(p)),
            ForInHead::Const(_, ref p) => format!("(const {})", ipatt(p)),
            ForInHead::Patt(ref p) => format!("(patt {})", apatt(p)),
        }, expr(o), stmt(b)),
        Stmt::ForOf(_, ref h, ref o, ref b) => format!("(forof {} {} {})", match **h {
            ForOfHead::Var(_, ref p) => format!("(var {})", ipatt(p)),
            ForOfHead::Let(_, ref p) => format!("(let {})", ipatt(p)),
            ForOfHead::Const(_, ref p) => format!("(const {})", ipatt(p)),
            ForOfHead::Patt(ref p) => format!("(patt {})", apatt(p)),
        }, expr(o), stmt(b)),
        Stmt::Debugger(_, ref e) => format!("(debugger {})", semi(e)),
    }
}
fn params(p: &Params) -> String {
    let mut s: String = p.list.iter().map(|p| format!("{},", ipatt(p))).collect();
    if let Some(ref r) = p.rest { s.push_str(&format!("...{}", ipatt(&r.patt))) }
    s
}
fn fun<I>(f: &Fun<I>, name: String) -> String { format!("(fun{} {} ({}) {})", if f.generator { "*" } else { "" }, name, params(&f.params), script(&f.body)) }
fn target(t: &AssignTarget) -> String {
    match *t {
        AssignTarget::Id(ref i) => format!("(id {})", id(i)),
        AssignTarget::Dot(_, ref o, ref k) => format!("{}.{}", expr(o), k.value),
        AssignTarget::Brack(_, ref o, ref k) => format!("{}[{}]", expr(o), expr(k)),
    }
}
fn apatt(p: &Patt<AssignTarget>) -> String {
    match *p {
        Patt::Simple(ref t) => target(t),
        Patt::Compound(CompoundPatt::Obj(_, ref ps)) => format!("patt{{{}}}", ps.iter().map(|p| match *p {
            PropPatt::Regular(_, ref k, ref p) => format!("{}:{},", key(k), apatt(p)),
            PropPatt::Shorthand(ref i) => format!("(short {}),", id(i)),
        }).collect::<String>()),
        Patt::Compound(CompoundPatt::Arr(_, ref xs, ref r)) => format!("patt[{}{}]", xs.iter().map(|x| match *x {
            None => "_,".to_string(),
            Some(ref p) => format!("{},", apatt(p)),
        }).collect::<String>(), match *r { None => String::new(), Some(ref r) => format!("...{}", apatt(&r.patt)) }),
    }
}
fn key(k: &PropKey) -> String {
    match *k { PropKey::Id(_, ref s) => format!("k{:?}", s), PropKey::String(_, ref l) => st(l), PropKey::Number(_, ref l) => num(l) }
}
fn args(v: &Vec<ExprListItem>) -> String {
    let mut s = String::from("(");
    for a in v.iter() {
        match *a { ExprListItem::Expr(ref e) => s.push_str(&expr(e)), ExprListItem::Spread(_, ref e) => { s.push_str("..."); s.push_str(&expr(e)) } }
        s.push(',');
    }
    s.push(')');
    s
}
pub fn expr(e: &Expr) -> String {
    match *e {
        Expr::This(_) => "this".into(),
        Expr::Id(ref i) => format!("(id {})", id(i)),
        Expr::Arr(_, ref xs) => format!("[{}]", xs.iter().map(|x| match *x {
            None => "_,".to_string(),
            Some(ExprListItem::Expr(ref e)) => format!("{},", expr(e)),
            Some(ExprListItem::Spread(_, ref e)) => format!("...{},", expr(e)),
        }).collect::<String>()),
        Expr::Obj(_, ref ps) => format!("{{{}}}", ps.iter().map(|p| match *p {
            Prop::Regular(_, ref k, PropVal::Init(ref e)) => format!("{}:{},", key(k), expr(e)),
            Prop::Regular(_, ref k, PropVal::Get(_, ref b)) => format!("(get {} () {}),", key(k), script(b)),
            Prop::Regular(_, ref k, PropVal::Set(_, ref p, ref b)) => format!("(set {} ({}) {}),", key(k), ipatt(p), script(b)),
            Prop::Method(ref f) => format!("(method{} {} ({}) {}),", if f.generator { "*" } else { "" }, key(&f.id), params(&f.params), script(&f.body)),
            Prop::Shorthand(ref i) => format!("(short {}),", id(i)),
        }).collect::<String>()),
        Expr::Fun(ref f) => fun(f, oid(&f.id)),
        Expr::Seq(_, ref v) => format!("(seq {})", v.iter().map(expr).collect::<Vec<_>>().join(" , ")),
        Expr::Unop(_, ref o, ref x) => format!("(un{} {})", match o.tag {
            UnopTag::Minus => "-", UnopTag::Plus => "+", UnopTag::Not => "!", UnopTag::BitNot => "~",
            UnopTag::Typeof => "typeof", UnopTag::Void => "void", UnopTag::Delete => "delete" }, expr(x)),
        Expr::Binop(_, ref o, ref l, ref r) => format!("\u{ab}{} {} {}\u{bb}", expr(l), match o.tag {
            BinopTag::Eq => "==", BinopTag::NEq => "!=", BinopTag::StrictEq => "===", BinopTag::StrictNEq => "!==",
            BinopTag::Lt => "<", BinopTag::LEq => "<=", BinopTag::Gt => ">", BinopTag::GEq => ">=",
            BinopTag::LShift => "<<", BinopTag::RShift => ">>", BinopTag::URShift => ">>>", BinopTag::Plus => "+", BinopTag::Minus => "-",
            BinopTag::Times => "*", BinopTag::Div => "/", BinopTag::Mod => "%", BinopTag::BitOr => "|", BinopTag::BitXor => "^", BinopTag::BitAnd => "&",
            BinopTag::In => "in", BinopTag::Instanceof => "instanceof" }, expr(r)),
        Expr::Logop(_, ref o, ref l, ref r) => format!("\u{ab}{} {} {}\u{bb}", expr(l), match o.tag { LogopTag::Or => "||", LogopTag::And => "&&" }, expr(r)),
        Expr::PreInc(_, ref t) => format!("(pre++ {})", target(t)),
        Expr::PreDec(_, ref t) => format!("(pre-- {})", target(t)),
        Expr::PostInc(_, ref t) => format!("(post++ {})", target(t)),
        Expr::PostDec(_, ref t) => format!("(post-- {})", target(t)),
        Expr::Assign(_, ref p, ref r) => format!("(= {} {})", apatt(p), expr(r)),
        Expr::BinAssign(_, ref o, ref t, ref r) => format!("({} {} {})", match o.tag {
            AssopTag::PlusEq => "+=", AssopTag::MinusEq => "-=", AssopTag::TimesEq => "*=", AssopTag::DivEq => "/=", AssopTag::ModEq => "%=",
            AssopTag::LShiftEq => "<<=", AssopTag::RShiftEq => ">>=", AssopTag::URShiftEq => ">>>=",
            AssopTag::BitOrEq => "|=", AssopTag::BitXorEq => "^=", AssopTag::BitAndEq => "&=" }, target(t), expr(r)),
        Expr::Cond(_, ref c, ref a, ref b) => format!("(? {} {} {})", expr(c), expr(a), expr(b)),
        Expr::Call(_, ref f, ref a) => format!("(call {} {})", expr(f), args(a)),
        Expr::New(_, ref f, None) => format!("(new {} -)", expr(f)),
        Expr::New(_, ref f, Some(ref a)) => format!("(new {} {})", expr(f), args(a)),
        Expr::Dot(_, ref o, ref k) => format!("{}.{}", expr(o), k.value),
        Expr::Brack(_, ref o, ref k) => format!("{}[{}]", expr(o), expr(k)),
        Expr::NewTarget(_) => "newtarget".into(),
        Expr::True(_) => "true".into(),
        Expr::False(_) => "false".into(),
        Expr::Null(_) => "null".into(),
        Expr::Number(_, ref l) => num(l),
        Expr::RegExp(_, ref l) => format!("(re {:?} {:?})", l.pattern, l.flags),
        Expr::String(_, ref l) => st(l),
    }
}
