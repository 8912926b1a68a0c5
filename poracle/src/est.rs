//! The ESTree reader against an independent reading of the document.
//!
//! `read` gives the tree a JSON document describes, in the notation of `dump`, or says that
//! the document is no ESTree script. Where a document is read although it is not quite what
//! the ESTree specification asks for (`soft`), a rejection is no mismatch either.
use crate::gen::Rng;
use joker::token::NumberSource;
use joker::word::Name;
use serde_json::{Map, Value};
use std::cell::Cell;

type Obj = Map<String, Value>;
type Res<T> = Result<T, ()>;

pub struct Reader { pub soft: Cell<bool> }

fn unops() -> &'static [&'static str] { &["-", "+", "!", "~", "typeof", "void", "delete"] }
fn binops() -> &'static [&'static str] {
    &["==", "!=", "===", "!==", "<", "<=", ">", ">=", "<<", ">>", ">>>", "+", "-", "*", "/", "%", "|", "^", "&", "in", "instanceof"]
}
fn logops() -> &'static [&'static str] { &["||", "&&"] }
fn assops() -> &'static [&'static str] { &["+=", "-=", "*=", "/=", "%=", "<<=", ">>=", ">>>=", "|=", "^=", "&="] }
const TYPES: &'static [&'static str] = &[
    "Identifier", "Literal", "BinaryExpression", "AssignmentExpression", "LogicalExpression", "UnaryExpression", "UpdateExpression",
    "MemberExpression", "CallExpression", "NewExpression", "ArrayExpression", "FunctionExpression", "SequenceExpression", "ObjectExpression",
    "ConditionalExpression", "ThisExpression", "MetaProperty", "SpreadElement", "RestElement", "FunctionDeclaration", "VariableDeclaration",
    "EmptyStatement", "ExpressionStatement", "IfStatement", "DoWhileStatement", "WhileStatement", "ForStatement", "ForInStatement",
    "ForOfStatement", "BlockStatement", "ReturnStatement", "LabeledStatement", "BreakStatement", "ContinueStatement", "SwitchStatement",
    "WithStatement", "ThrowStatement", "DebuggerStatement", "TryStatement",
];

fn has<'a>(o: &'a Obj, k: &str) -> Res<&'a Value> { o.get(k).ok_or(()) }
fn obj<'a>(o: &'a Obj, k: &str) -> Res<&'a Obj> { ob(has(o, k)?) }
fn ob<'a>(v: &'a Value) -> Res<&'a Obj> { match *v { Value::Object(ref m) => Ok(m), _ => Err(()) } }
fn arr<'a>(o: &'a Obj, k: &str) -> Res<&'a Vec<Value>> { match *has(o, k)? { Value::Array(ref a) => Ok(a), _ => Err(()) } }
fn text<'a>(o: &'a Obj, k: &str) -> Res<&'a str> { match *has(o, k)? { Value::String(ref s) => Ok(s), _ => Err(()) } }
fn flag(o: &Obj, k: &str) -> Res<bool> { match *has(o, k)? { Value::Bool(b) => Ok(b), _ => Err(()) } }
fn null(o: &Obj, k: &str) -> Res<bool> { match *has(o, k)? { Value::Null => Ok(true), Value::Object(_) => Ok(false), _ => Err(()) } }
fn ty<'a>(o: &'a Obj) -> Res<&'a str> { let t = text(o, "type")?; if TYPES.contains(&t) { Ok(t) } else { Err(()) } }
fn name(s: &str) -> String { format!("{:?}", Name::from(s.to_string())) }
fn one_of<'a>(o: &'a Obj, set: &[&str]) -> Res<&'a str> { let s = text(o, "operator")?; if set.contains(&s) { Ok(s) } else { Err(()) } }

impl Reader {
    pub fn script(&self, o: &Obj) -> Res<String> { self.body(arr(o, "body")?) }
    fn body(&self, v: &Vec<Value>) -> Res<String> {
        let (mut dirs, mut items, mut prolog) = (String::new(), String::from("<"), true);
        for x in v {
            let s = ob(x)?;
            let t = self.item(s, true)?;
            if prolog {
                if ty(s)? == "ExpressionStatement" {
                    let e = obj(s, "expression")?;
                    if ty(e)? == "Literal" {
                        if let Value::String(ref w) = *has(e, "value")? { dirs.push_str(&format!("(dir {:?} None ;)", w)); continue }
                    }
                }
                prolog = false;
            }
            items.push_str(&t);
            items.push(' ');
        }
        Ok(dirs + &items + ">")
    }
    fn items(&self, v: &Vec<Value>) -> Res<String> {
        let mut s = String::from("<");
        for x in v { s.push_str(&self.item(ob(x)?, true)?); s.push(' ') }
        Ok(s + ">")
    }
    fn id(&self, o: &Obj) -> Res<String> { if ty(o)? == "Identifier" { Ok(name(text(o, "name")?)) } else { Err(()) } }
    fn oid(&self, o: &Obj, k: &str) -> Res<String> { if null(o, k)? { Ok("-".into()) } else { self.id(obj(o, k)?) } }
    fn block(&self, o: &Obj) -> Res<String> {
        if ty(o)? != "BlockStatement" { return Err(()) }
        Ok(format!("{{{}}}", self.items(arr(o, "body")?)?))
    }
    fn x(&self, o: &Obj, k: &str) -> Res<String> { self.expr(obj(o, k)?) }
    fn xo(&self, o: &Obj, k: &str) -> Res<String> { if null(o, k)? { Ok("-".into()) } else { self.x(o, k) } }
    fn st(&self, o: &Obj, k: &str) -> Res<String> { self.item(obj(o, k)?, false) }

    fn dtors(&self, o: &Obj, must: bool) -> Res<String> {
        let mut s = String::new();
        for d in arr(o, "declarations")? {
            let d = ob(d)?;
            let i = self.id(obj(d, "id")?)?;
            let e = self.xo(d, "init")?;
            if must && null(d, "init")? { return Err(()) }
            s.push_str(&format!("({} {})", i, e));
        }
        Ok(s)
    }
    fn one(&self, o: &Obj, vars: bool) -> Res<String> {
        let k = text(o, "kind")?;
        let a = arr(o, "declarations")?;
        if a.len() != 1 || !["var", "let", "const"].contains(&k) { return Err(()) }
        let d = ob(&a[0])?;
        let i = self.id(obj(d, "id")?)?;
        if null(d, "init")? { return Ok(format!("({} {})", k, i)) }
        let e = self.x(d, "init")?;
        if vars && k == "var" { Ok(format!("(varinit {} {})", i, e)) } else { Err(()) }
    }
    fn head(&self, o: &Obj, vars: bool) -> Res<String> {
        if ty(o)? == "VariableDeclaration" { self.one(o, vars) } else { self.expr(o)?; Ok(format!("(patt {})", self.patt(o)?)) }
    }
    fn params(&self, o: &Obj) -> Res<(usize, bool, String)> {
        let a = arr(o, "params")?;
        let mut s = String::new();
        let mut rest = false;
        for (i, p) in a.iter().enumerate() {
            let p = ob(p)?;
            if ty(p)? == "RestElement" {
                if i + 1 != a.len() { return Err(()) }
                rest = true;
                s.push_str(&format!("...{}", self.id(obj(p, "argument")?)?));
            } else { s.push_str(&self.id(p)?); s.push(',') }
        }
        Ok((a.len(), rest, s))
    }
    /// generator, parameters, body
    fn fun(&self, o: &Obj) -> Res<(bool, String, String)> {
        let g = match *has(o, "generator")? { Value::Bool(b) => b, Value::Null => { self.soft.set(true); false } _ => return Err(()) };
        let (_, _, p) = self.params(o)?;
        Ok((g, p, self.fbody(o)?))
    }
    fn fbody(&self, o: &Obj) -> Res<String> {
        let b = obj(o, "body")?;
        if b.get("type") != Some(&Value::String("BlockStatement".into())) { self.soft.set(true) }
        self.body(arr(b, "body")?)
    }
    fn is_fun(&self, o: &Obj) {
        if o.get("type") != Some(&Value::String("FunctionExpression".into())) { self.soft.set(true) }
        match o.get("id") { Some(&Value::Null) => {} _ => self.soft.set(true) }
        match o.get("generator") { Some(&Value::Bool(_)) => {} _ => self.soft.set(true) }
    }

    fn item(&self, o: &Obj, decls: bool) -> Res<String> {
        Ok(match ty(o)? {
            "FunctionDeclaration" if decls => {
                let (g, p, b) = self.fun(o)?;
                format!("(fundecl (fun{} {} ({}) {}))", if g { "*" } else { "" }, self.id(obj(o, "id")?)?, p, b)
            }
            "VariableDeclaration" => {
                let k = text(o, "kind")?;
                if k != "var" && !(decls && (k == "let" || k == "const")) { return Err(()) }
                if arr(o, "declarations")?.len() == 0 { self.soft.set(true) }
                format!("({} {} ;)", k, self.dtors(o, k == "const")?)
            }
            "EmptyStatement" => "(empty)".into(),
            "ExpressionStatement" => format!("(expr {} ;)", self.x(o, "expression")?),
            "IfStatement" => format!("(if {} {} {})", self.x(o, "test")?, self.st(o, "consequent")?, if null(o, "alternate")? { "-".into() } else { self.st(o, "alternate")? }),
            "DoWhileStatement" => format!("(do {} {} ;)", self.st(o, "body")?, self.x(o, "test")?),
            "WhileStatement" => format!("(while {} {})", self.x(o, "test")?, self.st(o, "body")?),
            "ForStatement" => {
                let h = if null(o, "init")? { "-".to_string() } else {
                    let i = obj(o, "init")?;
                    if ty(i)? == "VariableDeclaration" {
                        let k = text(i, "kind")?;
                        if !["var", "let", "const"].contains(&k) { return Err(()) }
                        if arr(i, "declarations")?.len() == 0 { self.soft.set(true) }
                        format!("({} {})", k, self.dtors(i, k == "const")?)
                    } else { self.expr(i)? }
                };
                format!("(for {} {} {} {})", h, self.xo(o, "test")?, self.xo(o, "update")?, self.st(o, "body")?)
            }
            "ForInStatement" => format!("(forin {} {} {})", self.head(obj(o, "left")?, true)?, self.x(o, "right")?, self.st(o, "body")?),
            "ForOfStatement" => format!("(forof {} {} {})", self.head(obj(o, "left")?, false)?, self.x(o, "right")?, self.st(o, "body")?),
            "BlockStatement" => self.block(o)?,
            "ReturnStatement" => format!("(return {} ;)", self.xo(o, "argument")?),
            "LabeledStatement" => format!("(label {} {})", self.id(obj(o, "label")?)?, self.st(o, "body")?),
            "BreakStatement" => format!("(break {} ;)", self.oid(o, "label")?),
            "ContinueStatement" => format!("(continue {} ;)", self.oid(o, "label")?),
            "SwitchStatement" => {
                let d = self.x(o, "discriminant")?;
                let (mut s, mut defaults) = (String::new(), 0);
                for c in arr(o, "cases")? {
                    let c = ob(c)?;
                    if c.get("type") != Some(&Value::String("SwitchCase".into())) { self.soft.set(true) }
                    let b = self.items(arr(c, "consequent")?)?;
                    if null(c, "test")? { defaults += 1; s.push_str(&format!("(default {})", b)) } else { s.push_str(&format!("(case {} {})", self.x(c, "test")?, b)) }
                }
                if defaults > 1 { self.soft.set(true) }
                format!("(switch {} {})", d, s)
            }
            "WithStatement" => format!("(with {} {})", self.x(o, "object")?, self.st(o, "body")?),
            "ThrowStatement" => format!("(throw {} ;)", self.x(o, "argument")?),
            "DebuggerStatement" => "(debugger ;)".into(),
            "TryStatement" => {
                let b = self.block(obj(o, "block")?)?;
                let c = if null(o, "handler")? { "-".into() } else {
                    let h = obj(o, "handler")?;
                    if h.get("type") != Some(&Value::String("CatchClause".into())) { self.soft.set(true) }
                    format!("({} {})", self.id(obj(h, "param")?)?, self.block(obj(h, "body")?)?)
                };
                let f = if null(o, "finalizer")? { "-".into() } else { self.block(obj(o, "finalizer")?)? };
                if c == "-" && f == "-" { self.soft.set(true) }
                format!("(try {} {} {})", b, c, f)
            }
            _ => return Err(()),
        })
    }

    fn arg(&self, o: &Obj) -> Res<String> {
        if ty(o)? == "SpreadElement" { Ok(format!("...{}", self.x(o, "argument")?)) } else { self.expr(o) }
    }
    fn args(&self, o: &Obj) -> Res<String> {
        let mut s = String::from("(");
        for a in arr(o, "arguments")? { s.push_str(&self.arg(ob(a)?)?); s.push(',') }
        Ok(s + ")")
    }
    fn literal(&self, v: &Value) -> Res<String> {
        let int = |s: String, f: f64| format!("(num {:?} {:?})", f.to_bits(), Some(NumberSource::DecimalInt(s, None)));
        Ok(match *v {
            Value::String(ref s) => format!("(str {:?} None)", s),
            Value::I64(n) => int(n.to_string(), n as f64),
            Value::U64(n) => int(n.to_string(), n as f64),
            Value::F64(n) => format!("(num {:?} None)", n.to_bits()),
            _ => return Err(()),
        })
    }
    fn key(&self, o: &Obj) -> Res<String> {
        if ty(o)? == "Identifier" { return Ok(format!("k{:?}", text(o, "name")?)) }
        if ty(o)? != "Literal" { self.soft.set(true) }
        self.literal(has(o, "value")?)
    }
    fn target(&self, o: &Obj) -> Res<String> {
        match ty(o)? { "Identifier" | "MemberExpression" => self.expr(o), _ => Err(()) }
    }
    fn patt(&self, o: &Obj) -> Res<String> {
        let mut s = String::new();
        match ty(o)? {
            "ObjectExpression" => {
                for p in arr(o, "properties")? {
                    let p = ob(p)?;
                    if text(p, "kind")? != "init" || flag(p, "method")? { return Err(()) }
                    if flag(p, "shorthand")? { s.push_str(&format!("(short {}),", self.id(obj(p, "key")?)?)) }
                    else { s.push_str(&format!("{}:{},", self.key(obj(p, "key")?)?, self.patt(obj(p, "value")?)?)) }
                }
                Ok(format!("patt{{{}}}", s))
            }
            "ArrayExpression" => {
                let a = arr(o, "elements")?;
                for (i, e) in a.iter().enumerate() {
                    if *e == Value::Null { s.push_str("_,"); continue }
                    let e = ob(e)?;
                    if ty(e)? == "SpreadElement" {
                        if i + 1 != a.len() { return Err(()) }
                        s.push_str(&format!("...{}", self.patt(obj(e, "argument")?)?));
                    } else { s.push_str(&format!("{},", self.patt(e)?)) }
                }
                Ok(format!("patt[{}]", s))
            }
            _ => self.target(o),
        }
    }
    fn prop(&self, o: &Obj) -> Res<String> {
        if let Some(c) = o.get("computed") { if *c != Value::Bool(false) { return Err(()) } }
        if o.get("type") != Some(&Value::String("Property".into())) { self.soft.set(true) }
        let k = obj(o, "key")?;
        let v = obj(o, "value")?;
        Ok(match text(o, "kind")? {
            "init" => {
                if flag(o, "method")? {
                    self.is_fun(v);
                    let (g, p, b) = self.fun(v)?;
                    format!("(method{} {} ({}) {}),", if g { "*" } else { "" }, self.key(k)?, p, b)
                } else if flag(o, "shorthand")? {
                    if k != v { self.soft.set(true) }
                    format!("(short {}),", self.id(k)?)
                } else { format!("{}:{},", self.key(k)?, self.expr(v)?) }
            }
            "get" => {
                self.is_fun(v);
                match self.params(v) { Ok((0, _, _)) => {} _ => self.soft.set(true) }
                format!("(get {} () {}),", self.key(k)?, self.fbody(v)?)
            }
            "set" => {
                self.is_fun(v);
                let (n, rest, p) = self.params(v)?;
                if n != 1 || rest { return Err(()) }
                let (_, _, b) = self.fun(v)?;
                format!("(set {} ({}) {}),", self.key(k)?, &p[..p.len() - 1], b)
            }
            _ => return Err(()),
        })
    }
    fn expr(&self, o: &Obj) -> Res<String> {
        Ok(match ty(o)? {
            "Identifier" => format!("(id {})", self.id(o)?),
            "Literal" => match *has(o, "value")? {
                Value::Null if o.get("regex").is_none() => "null".into(),
                Value::Bool(b) => b.to_string(),
                Value::Null | Value::Object(_) => {
                    let r = obj(o, "regex")?;
                    format!("(re {:?} {:?})", text(r, "pattern")?, text(r, "flags")?.chars().collect::<Vec<char>>())
                }
                ref v => { if o.get("regex").is_some() { self.soft.set(true) } self.literal(v)? }
            },
            "BinaryExpression" => format!("\u{ab}{} {} {}\u{bb}", self.x(o, "left")?, one_of(o, binops())?, self.x(o, "right")?),
            "LogicalExpression" => format!("\u{ab}{} {} {}\u{bb}", self.x(o, "left")?, one_of(o, logops())?, self.x(o, "right")?),
            "UnaryExpression" => format!("(un{} {})", one_of(o, unops())?, self.x(o, "argument")?),
            "UpdateExpression" => {
                let op = one_of(o, &["++", "--"])?;
                let p = flag(o, "prefix")?;
                format!("({}{} {})", if p { "pre" } else { "post" }, op, self.target(obj(o, "argument")?)?)
            }
            "AssignmentExpression" => {
                let r = self.x(o, "right")?;
                let l = obj(o, "left")?;
                if text(o, "operator")? == "=" { self.expr(l)?; format!("(= {} {})", self.patt(l)?, r) }
                else { format!("({} {} {})", one_of(o, assops())?, self.target(l)?, r) }
            }
            "MemberExpression" => {
                let x = self.x(o, "object")?;
                if flag(o, "computed")? { format!("{}[{}]", x, self.x(o, "property")?) }
                else { let p = obj(o, "property")?; self.id(p)?; format!("{}.{}", x, text(p, "name")?) }
            }
            "CallExpression" => format!("(call {} {})", self.x(o, "callee")?, self.args(o)?),
            "NewExpression" => format!("(new {} {})", self.x(o, "callee")?, self.args(o)?),
            "ArrayExpression" => {
                let mut s = String::from("[");
                for e in arr(o, "elements")? {
                    if *e == Value::Null { s.push_str("_,") } else { s.push_str(&self.arg(ob(e)?)?); s.push(',') }
                }
                s + "]"
            }
            "FunctionExpression" => {
                let i = self.oid(o, "id")?;
                let (g, p, b) = self.fun(o)?;
                format!("(fun{} {} ({}) {})", if g { "*" } else { "" }, i, p, b)
            }
            "SequenceExpression" => {
                let mut v = Vec::new();
                for e in arr(o, "expressions")? { v.push(self.expr(ob(e)?)?) }
                if v.len() < 2 { self.soft.set(true) }
                format!("(seq {})", v.join(" , "))
            }
            "ObjectExpression" => {
                let mut s = String::from("{");
                for p in arr(o, "properties")? { s.push_str(&self.prop(ob(p)?)?) }
                s + "}"
            }
            "ConditionalExpression" => format!("(? {} {} {})", self.x(o, "test")?, self.x(o, "consequent")?, self.x(o, "alternate")?),
            "ThisExpression" => "this".into(),
            "MetaProperty" => {
                if self.id(obj(o, "meta")?)? == name("new") && self.id(obj(o, "property")?)? == name("target") { "newtarget".into() } else { return Err(()) }
            }
            _ => return Err(()),
        })
    }
}

// ------------------------------------------------------------------ documents
pub fn parse(text: &str) -> Option<Obj> {
    match ::serde_json::from_str::<Value>(text) { Ok(Value::Object(m)) => Some(m), _ => None }
}
pub fn show(o: &Obj) -> String { ::serde_json::to_string(&Value::Object(o.clone())).unwrap() }

fn node(t: &str, fs: &[(&str, Value)]) -> Value {
    let mut m = Obj::new();
    m.insert("type".into(), s(t));
    for &(k, ref v) in fs { m.insert(k.into(), v.clone()); }
    Value::Object(m)
}
fn s(t: &str) -> Value { Value::String(t.into()) }
fn b(x: bool) -> Value { Value::Bool(x) }
fn ident(n: &str) -> Value { node("Identifier", &[("name", s(n))]) }
fn lit(v: Value) -> Value { node("Literal", &[("value", v)]) }
fn block(v: Vec<Value>) -> Value { node("BlockStatement", &[("body", Value::Array(v))]) }
fn program(v: Vec<Value>) -> Value { node("Program", &[("body", Value::Array(v))]) }

pub struct Docs<'a> { pub g: &'a mut Rng, pub fuel: i32 }
impl<'a> Docs<'a> {
    fn spend(&mut self) -> bool { self.fuel -= 1; self.fuel > 0 }
    fn nm(&mut self) -> String { self.g.pick(&["a", "b", "c", "eval", "arguments", "let", "yield", "new", "target", "use strict", "", "x1", "if"]).to_string() }
    fn name(&mut self) -> Value { let n = self.nm(); ident(&n) }
    fn string(&mut self) -> Value { s(self.g.pick(&["use strict", "s", "", "\u{e9}", "a\nb"])) }
    fn num(&mut self) -> Value {
        match self.g.below(6) {
            0 => Value::U64(self.g.below(5) as u64), 1 => Value::U64(u64::max_value() - self.g.below(3000) as u64), 2 => Value::I64(-1 - self.g.below(9) as i64),
            3 => Value::U64(9007199254740993), 4 => Value::F64(0.5), _ => Value::F64(1e300),
        }
    }
    fn literal(&mut self) -> Value {
        match self.g.below(8) {
            0 => lit(Value::Null), 1 => lit(b(true)), 2 => lit(b(false)), 3 | 4 => { let v = self.string(); lit(v) }
            5 | 6 => { let v = self.num(); lit(v) }
            _ => {
                let mut m = Obj::new();
                m.insert("pattern".into(), s(self.g.pick(&["a", "[/]", "", "\\/"])));
                m.insert("flags".into(), s(self.g.pick(&["", "g", "gi", "igmuy"])));
                let v = if self.g.p(50) { Value::Null } else { Value::Object(Obj::new()) };
                node("Literal", &[("value", v), ("regex", Value::Object(m))])
            }
        }
    }
    fn list(&mut self, max: usize, f: &mut dyn FnMut(&mut Docs) -> Value) -> Value {
        let n = self.g.below(max + 1);
        let mut v = Vec::new();
        for _ in 0..n { v.push(f(self)) }
        Value::Array(v)
    }
    fn opt(&mut self, pc: usize, f: &mut dyn FnMut(&mut Docs) -> Value) -> Value { if self.g.p(pc) { f(self) } else { Value::Null } }
    fn params(&mut self) -> Value {
        let mut v = match self.list(3, &mut |d| d.name()) { Value::Array(v) => v, _ => vec![] };
        if self.g.p(30) { let n = self.name(); v.push(node("RestElement", &[("argument", n)])) }
        Value::Array(v)
    }
    fn fun(&mut self, t: &str, id: Value, params: Value) -> Value {
        let mut v = Vec::new();
        for _ in 0..self.g.below(3) { let x = if self.g.p(30) { self.directive() } else { self.stmt(true) }; v.push(x) }
        let g = self.g.p(40);
        node(t, &[("id", id), ("params", params), ("body", block(v)), ("generator", b(g)), ("expression", b(false))])
    }
    fn directive(&mut self) -> Value { let x = self.string(); node("ExpressionStatement", &[("expression", lit(x))]) }
    fn key(&mut self) -> Value { match self.g.below(4) { 0 => { let v = self.string(); lit(v) } 1 => { let v = self.num(); lit(v) } _ => self.name() } }
    fn prop(&mut self, patt: bool) -> Value {
        let p = |k: Value, v: Value, kind: &str, m: bool, sh: bool| node("Property", &[("key", k), ("value", v), ("kind", s(kind)), ("method", b(m)), ("shorthand", b(sh)), ("computed", b(false))]);
        let k = self.key();
        match self.g.below(if patt { 2 } else { 6 }) {
            0 => { let n = self.name(); p(n.clone(), n, "init", false, true) }
            1 => { let v = if patt { self.patt() } else { self.expr() }; p(k, v, "init", false, false) }
            2 => { let ps = self.params(); let f = self.fun("FunctionExpression", Value::Null, ps); p(k, f, "init", true, false) }
            3 => { let f = self.fun("FunctionExpression", Value::Null, Value::Array(vec![])); p(k, f, "get", false, false) }
            4 => { let n = self.name(); let f = self.fun("FunctionExpression", Value::Null, Value::Array(vec![n])); p(k, f, "set", false, false) }
            _ => { let v = self.expr(); p(k, v, "init", false, false) }
        }
    }
    fn target(&mut self) -> Value { if self.g.p(50) || !self.spend() { self.name() } else { self.member() } }
    fn member(&mut self) -> Value {
        let x = self.expr();
        let c = self.g.p(50);
        let p = if c { self.expr() } else { self.name() };
        node("MemberExpression", &[("object", x), ("property", p), ("computed", b(c))])
    }
    fn patt(&mut self) -> Value {
        if !self.spend() { return self.name() }
        match self.g.below(4) {
            0 => { let ps = self.list(3, &mut |d| d.prop(true)); node("ObjectExpression", &[("properties", ps)]) }
            1 => {
                let mut v = match self.list(3, &mut |d| d.opt(75, &mut |d| d.patt())) { Value::Array(v) => v, _ => vec![] };
                if self.g.p(35) { let a = self.patt(); v.push(node("SpreadElement", &[("argument", a)])) }
                node("ArrayExpression", &[("elements", Value::Array(v))])
            }
            _ => self.target(),
        }
    }
    fn arg(&mut self) -> Value { let e = self.expr(); if self.g.p(20) { node("SpreadElement", &[("argument", e)]) } else { e } }
    fn expr(&mut self) -> Value {
        if !self.spend() { return if self.g.p(60) { self.name() } else { self.literal() } }
        match self.g.below(20) {
            0 | 1 => self.name(),
            2 | 3 => self.literal(),
            4 => { let (l, r) = (self.expr(), self.expr()); node("BinaryExpression", &[("operator", s(self.g.pick(binops()))), ("left", l), ("right", r)]) }
            5 => { let (l, r) = (self.expr(), self.expr()); node("LogicalExpression", &[("operator", s(self.g.pick(logops()))), ("left", l), ("right", r)]) }
            6 => { let x = self.expr(); node("UnaryExpression", &[("operator", s(self.g.pick(unops()))), ("argument", x), ("prefix", b(true))]) }
            7 => { let x = self.target(); let p = self.g.p(50); node("UpdateExpression", &[("operator", s(self.g.pick(&["++", "--"]))), ("argument", x), ("prefix", b(p))]) }
            8 => { let (l, r) = (self.patt(), self.expr()); node("AssignmentExpression", &[("operator", s("=")), ("left", l), ("right", r)]) }
            9 => { let (l, r) = (self.target(), self.expr()); node("AssignmentExpression", &[("operator", s(self.g.pick(assops()))), ("left", l), ("right", r)]) }
            10 => self.member(),
            11 => { let f = self.expr(); let a = self.list(3, &mut |d| d.arg()); node("CallExpression", &[("callee", f), ("arguments", a)]) }
            12 => { let f = self.expr(); let a = self.list(3, &mut |d| d.arg()); node("NewExpression", &[("callee", f), ("arguments", a)]) }
            13 => { let a = self.list(4, &mut |d| d.opt(80, &mut |d| d.arg())); node("ArrayExpression", &[("elements", a)]) }
            14 => { let i = self.opt(50, &mut |d| d.name()); let p = self.params(); self.fun("FunctionExpression", i, p) }
            15 => { let (x, y) = (self.expr(), self.expr()); let mut v = vec![x, y]; if self.g.p(40) { let z = self.expr(); v.push(z) } node("SequenceExpression", &[("expressions", Value::Array(v))]) }
            16 | 17 => { let ps = self.list(3, &mut |d| d.prop(false)); node("ObjectExpression", &[("properties", ps)]) }
            18 => { let (x, y, z) = (self.expr(), self.expr(), self.expr()); node("ConditionalExpression", &[("test", x), ("consequent", y), ("alternate", z)]) }
            _ => if self.g.p(50) { node("ThisExpression", &[]) } else { node("MetaProperty", &[("meta", ident("new")), ("property", ident("target"))]) },
        }
    }
    fn dtor(&mut self, init: usize) -> Value {
        let i = self.name();
        let e = self.opt(init, &mut |d| d.expr());
        node("VariableDeclarator", &[("id", i), ("init", e)])
    }
    fn decl(&mut self, kinds: &[&str]) -> Value {
        let k = self.g.pick(kinds).to_string();
        let mut v = Vec::new();
        for _ in 0..1 + self.g.below(3) { let d = self.dtor(if k == "const" { 100 } else { 60 }); v.push(d) }
        node("VariableDeclaration", &[("kind", s(&k)), ("declarations", Value::Array(v))])
    }
    fn head(&mut self, vars: bool) -> Value {
        if self.g.p(45) { return self.patt() }
        let k = self.g.pick(&["var", "let", "const"]).to_string();
        let d = self.dtor(if vars && k == "var" { 50 } else { 0 });
        node("VariableDeclaration", &[("kind", s(&k)), ("declarations", Value::Array(vec![d]))])
    }
    fn blk(&mut self) -> Value { let mut v = Vec::new(); for _ in 0..self.g.below(3) { let x = if self.g.p(15) { self.directive() } else { self.stmt(true) }; v.push(x) } block(v) }
    fn stmt(&mut self, decls: bool) -> Value {
        if !self.spend() { return if self.g.p(50) { node("EmptyStatement", &[]) } else { let e = self.name(); node("ExpressionStatement", &[("expression", e)]) } }
        match self.g.below(if decls { 22 } else { 19 }) {
            0 => node("EmptyStatement", &[]),
            1 | 2 => { let e = self.expr(); node("ExpressionStatement", &[("expression", e)]) }
            3 => { let (e, t) = (self.expr(), self.stmt(false)); let f = self.opt(50, &mut |d| d.stmt(false)); node("IfStatement", &[("test", e), ("consequent", t), ("alternate", f)]) }
            4 => { let (t, e) = (self.stmt(false), self.expr()); node("DoWhileStatement", &[("body", t), ("test", e)]) }
            5 => { let (t, e) = (self.stmt(false), self.expr()); node("WhileStatement", &[("body", t), ("test", e)]) }
            6 => {
                let i = self.opt(75, &mut |d| if d.g.p(60) { d.decl(&["var", "let", "const"]) } else { d.expr() });
                let (t, u) = (self.opt(60, &mut |d| d.expr()), self.opt(60, &mut |d| d.expr()));
                let x = self.stmt(false);
                node("ForStatement", &[("init", i), ("test", t), ("update", u), ("body", x)])
            }
            7 => { let (l, r, x) = (self.head(true), self.expr(), self.stmt(false)); node("ForInStatement", &[("left", l), ("right", r), ("body", x)]) }
            8 => { let (l, r, x) = (self.head(false), self.expr(), self.stmt(false)); node("ForOfStatement", &[("left", l), ("right", r), ("body", x)]) }
            9 => self.blk(),
            10 => { let e = self.opt(60, &mut |d| d.expr()); node("ReturnStatement", &[("argument", e)]) }
            11 => { let (l, x) = (self.name(), self.stmt(false)); node("LabeledStatement", &[("label", l), ("body", x)]) }
            12 => { let l = self.opt(50, &mut |d| d.name()); node(self.g.pick(&["BreakStatement", "ContinueStatement"]), &[("label", l)]) }
            13 => {
                let e = self.expr();
                let mut def = false;
                let cs = self.list(3, &mut |d| {
                    let t = if !def && d.g.p(30) { def = true; Value::Null } else { d.expr() };
                    let x = d.list(2, &mut |d| d.stmt(true));
                    node("SwitchCase", &[("test", t), ("consequent", x)])
                });
                node("SwitchStatement", &[("discriminant", e), ("cases", cs), ("lexical", b(false))])
            }
            14 => { let (e, x) = (self.expr(), self.stmt(false)); node("WithStatement", &[("object", e), ("body", x)]) }
            15 => { let e = self.expr(); node("ThrowStatement", &[("argument", e)]) }
            16 => node("DebuggerStatement", &[]),
            17 => {
                let x = self.blk();
                let which = self.g.below(3);
                let h = if which != 1 { let (p, y) = (self.name(), self.blk()); node("CatchClause", &[("param", p), ("body", y)]) } else { Value::Null };
                let f = if which != 0 { self.blk() } else { Value::Null };
                node("TryStatement", &[("block", x), ("handler", h), ("finalizer", f)])
            }
            18 => self.decl(&["var"]),
            19 => self.decl(&["let", "const"]),
            _ => { let i = self.name(); let p = self.params(); self.fun("FunctionDeclaration", i, p) }
        }
    }
    pub fn doc(g: &mut Rng, fuel: i32) -> Obj {
        let mut d = Docs { g, fuel };
        let mut v = Vec::new();
        for _ in 0..d.g.below(3) { if d.g.p(40) { let x = d.directive(); v.push(x) } }
        let n = d.g.below(4);
        for _ in 0..n { let x = d.stmt(true); v.push(x) }
        if d.g.p(10) { let x = d.directive(); v.push(x) }
        match program(v) { Value::Object(m) => m, _ => unreachable!() }
    }
    /// one statement, and one thing in it, of every kind
    pub fn small(g: &mut Rng) -> Obj {
        let mut d = Docs { g, fuel: 2 };
        d.fuel = 2 + d.g.below(3) as i32;
        let x = if d.g.p(50) { let e = d.expr(); node("ExpressionStatement", &[("expression", e)]) } else { d.stmt(true) };
        match program(vec![x]) { Value::Object(m) => m, _ => unreachable!() }
    }
}

// every place in a document, in order
fn visit(v: &mut Value, at: &mut usize, f: &mut dyn FnMut(&mut Value)) {
    if *at == 0 { *at = usize::max_value(); f(v); return }
    *at -= 1;
    match *v {
        Value::Object(ref mut m) => for (_, x) in m.iter_mut() { if *at == usize::max_value() { return } visit(x, at, f) },
        Value::Array(ref mut a) => for x in a.iter_mut() { if *at == usize::max_value() { return } visit(x, at, f) },
        _ => {}
    }
}
pub fn places(v: &Value) -> usize {
    1 + match *v {
        Value::Object(ref m) => m.iter().map(|(_, x)| places(x)).sum(),
        Value::Array(ref a) => a.iter().map(places).sum::<usize>(),
        _ => 0,
    }
}
const SPARE: &'static [&'static str] = &["computed", "regex", "generator", "extra", "init", "alternate"];
/// how many ways `change` knows
pub const CHANGES: usize = 26;
pub fn change(doc: &Obj, place: usize, how: usize, g: &mut Rng) -> Option<Obj> {
    let mut v = Value::Object(doc.clone());
    let mut done = false;
    {
        let mut at = place;
        let d = &mut done;
        visit(&mut v, &mut at, &mut |x| {
            *d = true;
            *x = match how {
                0 => Value::Null, 1 => b(true), 2 => b(false), 3 => s("x"), 4 => Value::U64(1), 5 => Value::Array(vec![]), 6 => Value::Object(Obj::new()),
                7 => ident("y"), 8 => lit(s("z")), 9 => lit(Value::Null), 10 => node("EmptyStatement", &[]), 11 => Value::Array(vec![ident("y"), ident("z")]),
                12 => node("ExpressionStatement", &[("expression", lit(s("d")))]), 13 => block(vec![]), 14 => node("SpreadElement", &[("argument", ident("y"))]),
                15 => node("RestElement", &[("argument", ident("y"))]), 16 => node("ArrayExpression", &[("elements", Value::Array(vec![Value::Null]))]),
                17 => Value::F64(1.5),
                18 => { let t = g.pick(TYPES); match *x { Value::Object(ref m) => { let mut m = m.clone(); m.insert("type".into(), s(t)); Value::Object(m) } _ => s(t) } }
                19 | 20 => match *x {
                    Value::Object(ref m) if m.len() > 0 => { let k = m.keys().nth(g.below(m.len())).unwrap().clone(); let mut m = m.clone(); m.remove(&k); Value::Object(m) }
                    Value::Array(ref a) if a.len() > 0 => { let mut a = a.clone(); let i = g.below(a.len()); a.remove(i); Value::Array(a) }
                    Value::String(ref t) => s(g.pick(&["init", "get", "set", "var", "let", "const", "=", "++", "--", "+", "in", "", "Program", "||=", "**", "??"][..]).to_string().as_str()).clone().max_of(t),
                    _ => return,
                },
                21 | 22 => match *x {
                    Value::Object(ref m) => { let mut m = m.clone(); let k = g.pick(SPARE); let w = match g.below(3) { 0 => b(true), 1 => Value::Null, _ => ident("w") }; m.insert(k.into(), w); Value::Object(m) }
                    Value::Array(ref a) => {
                        let mut a = a.clone();
                        let w = if a.len() > 0 && g.p(50) { a[g.below(a.len())].clone() } else { [ident("w"), Value::Null, node("SpreadElement", &[("argument", ident("w"))]), node("RestElement", &[("argument", ident("w"))])][g.below(4)].clone() };
                        let i = g.below(a.len() + 1);
                        a.insert(i, w);
                        Value::Array(a)
                    }
                    Value::Bool(t) => b(!t),
                    _ => return,
                },
                23 => match *x { Value::Array(ref a) if a.len() > 1 => { let mut a = a.clone(); a.reverse(); Value::Array(a) } Value::Bool(t) => b(!t), _ => return },
                24 => node("VariableDeclaration", &[("kind", s(g.pick(&["var", "let", "const"]))), ("declarations", Value::Array(vec![node("VariableDeclarator", &[("id", ident("y")), ("init", Value::Null)])]))]),
                _ => match *x { Value::String(_) => s(g.pick(&["init", "get", "set", "var", "let", "const", "=", "++", "--", "-", "<<=", "&&", "instanceof"])), _ => return },
            };
        });
    }
    if !done { return None }
    match v { Value::Object(m) => Some(m), _ => None }
}
trait MaxOf { fn max_of(self, t: &str) -> Value; }
impl MaxOf for Value { fn max_of(self, t: &str) -> Value { if self == Value::String(t.into()) { Value::String(format!("{}x", t)) } else { self } } }

const WORDS: &'static [&'static str] = &[
    "", "=", "**", "**=", "&&", "&&=", "||", "||=", "??", "??=", "!", "!=", "!==", "==", "===", "=>", "?", "?.", ".", "...", ",", ":", ";",
    "<", "<=", ">", ">=", "<<", ">>", ">>>", "<<=", ">>=", ">>>=", "<<<", "<>", "+", "-", "*", "/", "%", "|", "^", "&", "~", "++", "--", "+++",
    "+=", "-=", "*=", "/=", "%=", "|=", "^=", "&=", "~=", "in", "instanceof", "of", "typeof", "void", "delete", "new", "target", "this", "super",
    "yield", "await", "async", "init", "get", "set", "method", "value", "constructor", "var", "let", "const", "using", "null", "true", "false", "0", "1",
    "In", "IN", "Typeof", " +", "+ ", " ", "\u{0}", "use strict", "a", "Var", "VAR", "Init", "Get", "default", "case", "eval", "arguments",
    "Property", "SwitchCase", "CatchClause", "VariableDeclarator", "Program", "Super", "ArrayPattern", "ObjectPattern", "AssignmentPattern",
    "ClassDeclaration", "ClassExpression", "ArrowFunctionExpression", "YieldExpression", "AwaitExpression", "TemplateLiteral", "TemplateElement",
    "TaggedTemplateExpression", "ImportDeclaration", "ExportNamedDeclaration", "ExportDefaultDeclaration", "ChainExpression", "PrivateIdentifier",
    "StaticBlock", "ForStatements", "Statement", "Expression", "identifier", "Directive", "ParenthesizedExpression", "RegExpLiteral",
];
/// one document for each kind of node with a word in it
pub fn fixed() -> Vec<Obj> {
    let y = || ident("y");
    let one = || lit(Value::U64(1));
    let dtor = |i: Value| node("VariableDeclarator", &[("id", ident("v")), ("init", i)]);
    let decl = |k: &str, i: Value| node("VariableDeclaration", &[("kind", s(k)), ("declarations", Value::Array(vec![dtor(i)]))]);
    let empty = || node("EmptyStatement", &[]);
    let prop = |k: &str, key: Value, v: Value| node("Property", &[("kind", s(k)), ("key", key), ("value", v), ("computed", b(false)), ("method", b(false)), ("shorthand", b(false))]);
    let f = |ps: Vec<Value>, body: Vec<Value>| node("FunctionExpression", &[("id", Value::Null), ("params", Value::Array(ps)), ("body", block(body)), ("generator", b(false)), ("expression", b(false))]);
    let ops = |t: &str, op: &str| node(t, &[("operator", s(op)), ("left", y()), ("right", one())]);
    let objp = |v: Vec<Value>| node("ObjectPattern", &[("properties", Value::Array(v))]);
    let arrp = |v: Vec<Value>| node("ArrayPattern", &[("elements", Value::Array(v))]);
    let spread = |t: &str| node(t, &[("argument", y())]);
    let mem = |c: bool| node("MemberExpression", &[("object", y()), ("property", ident("p")), ("computed", b(c))]);
    let regex = { let mut r = Obj::new(); r.insert("pattern".into(), s("a")); r.insert("flags".into(), s("g")); Value::Object(r) };
    let exprs = vec![
        y(), one(), lit(s("x")), node("Literal", &[("value", Value::Null), ("regex", regex)]), ops("BinaryExpression", "+"), ops("LogicalExpression", "&&"),
        ops("AssignmentExpression", "+="), ops("AssignmentExpression", "="),
        node("AssignmentExpression", &[("operator", s("=")), ("left", arrp(vec![y(), Value::Null, spread("RestElement")])), ("right", one())]),
        node("AssignmentExpression", &[("operator", s("=")), ("left", objp(vec![prop("init", ident("k"), y())])), ("right", one())]),
        node("AssignmentExpression", &[("operator", s("-=")), ("left", mem(true)), ("right", one())]),
        node("UnaryExpression", &[("operator", s("-")), ("argument", y()), ("prefix", b(true))]), node("UpdateExpression", &[("operator", s("++")), ("argument", y()), ("prefix", b(true))]),
        node("UpdateExpression", &[("operator", s("--")), ("argument", mem(false)), ("prefix", b(false))]), mem(false), mem(true),
        node("CallExpression", &[("callee", y()), ("arguments", Value::Array(vec![one(), spread("SpreadElement")]))]), node("NewExpression", &[("callee", y()), ("arguments", Value::Array(vec![spread("SpreadElement"), one()]))]),
        node("ArrayExpression", &[("elements", Value::Array(vec![Value::Null, y(), spread("SpreadElement"), Value::Null]))]), f(vec![y(), arrp(vec![Value::Null]), spread("RestElement")], vec![]),
        f(vec![], vec![node("ExpressionStatement", &[("expression", lit(s("use strict")))]), node("ExpressionStatement", &[("expression", y())])]),
        node("SequenceExpression", &[("expressions", Value::Array(vec![y(), one()]))]), node("ConditionalExpression", &[("test", y()), ("consequent", one()), ("alternate", y())]),
        node("ObjectExpression", &[("properties", Value::Array(vec![prop("init", ident("k"), one()), prop("get", lit(s("g")), f(vec![], vec![])), prop("set", one(), f(vec![y()], vec![])), prop("init", lit(Value::F64(1.5)), f(vec![], vec![]))]))]),
        node("ThisExpression", &[]), node("MetaProperty", &[("meta", ident("new")), ("property", ident("target"))]),
    ];
    let mut v: Vec<Value> = exprs.into_iter().map(|e| node("ExpressionStatement", &[("expression", e)])).collect();
    for k in &["var", "let", "const"] {
        v.push(decl(k, one()));
        v.push(decl(k, Value::Null));
        v.push(node("IfStatement", &[("test", y()), ("consequent", decl(k, one())), ("alternate", Value::Null)]));
        v.push(node("ForInStatement", &[("left", decl(k, Value::Null)), ("right", y()), ("body", empty())]));
        v.push(node("ForInStatement", &[("left", decl(k, one())), ("right", y()), ("body", empty())]));
        v.push(node("ForOfStatement", &[("left", decl(k, Value::Null)), ("right", y()), ("body", empty())]));
        v.push(node("ForStatement", &[("init", decl(k, one())), ("test", y()), ("update", y()), ("body", empty())]));
    }
    v.push(node("ForInStatement", &[("left", mem(false)), ("right", y()), ("body", empty())]));
    v.push(node("ForOfStatement", &[("left", arrp(vec![y()])), ("right", y()), ("body", empty())]));
    v.push(node("ForStatement", &[("init", y()), ("test", Value::Null), ("update", Value::Null), ("body", empty())]));
    v.push(node("FunctionDeclaration", &[("id", y()), ("params", Value::Array(vec![])), ("body", block(vec![empty()])), ("generator", b(false)), ("expression", b(false))]));
    v.push(node("LabeledStatement", &[("label", ident("l")), ("body", node("BreakStatement", &[("label", ident("l"))]))]));
    v.push(node("WhileStatement", &[("test", y()), ("body", node("ContinueStatement", &[("label", Value::Null)]))]));
    v.push(node("DoWhileStatement", &[("test", y()), ("body", block(vec![y_stmt(), decl("let", one())]))]));
    v.push(node("IfStatement", &[("test", y()), ("consequent", empty()), ("alternate", y_stmt())]));
    v.push(node("ReturnStatement", &[("argument", y())]));
    v.push(node("ThrowStatement", &[("argument", y())]));
    v.push(node("WithStatement", &[("object", y()), ("body", empty())]));
    v.push(node("DebuggerStatement", &[]));
    v.push(node("SwitchStatement", &[("discriminant", y()), ("cases", Value::Array(vec![
        node("SwitchCase", &[("test", one()), ("consequent", Value::Array(vec![y_stmt(), decl("const", one())]))]), node("SwitchCase", &[("test", Value::Null), ("consequent", Value::Array(vec![]))])]))]));
    v.push(node("TryStatement", &[("block", block(vec![])), ("handler", node("CatchClause", &[("param", y()), ("body", block(vec![y_stmt()]))])), ("finalizer", block(vec![empty()]))]));
    v.into_iter().map(|x| match program(vec![x]) { Value::Object(m) => m, _ => unreachable!() }).collect()
}
fn y_stmt() -> Value { node("ExpressionStatement", &[("expression", ident("y"))]) }
/// the document with each of a list of words, and of small edits, for the word at this place
pub fn reword(doc: &Obj, place: usize) -> Vec<Obj> {
    let mut v = Value::Object(doc.clone());
    let mut now: Option<String> = None;
    { let mut at = place; visit(&mut v, &mut at, &mut |x| if let Value::String(ref t) = *x { now = Some(t.clone()) }); }
    let t = match now { Some(t) => t, None => return vec![] };
    let mut ws: Vec<String> = WORDS.iter().chain(TYPES.iter()).map(|w| w.to_string()).collect();
    for w in &["=", " ", "x", "\u{0}"] { ws.push(format!("{}{}", t, w)); ws.push(format!("{}{}", w, t)) }
    let cs: Vec<char> = t.chars().collect();
    if cs.len() > 0 { ws.push(cs[1..].iter().collect()); ws.push(cs[..cs.len() - 1].iter().collect()); ws.push(cs.iter().rev().collect()) }
    ws.push(t.to_uppercase());
    ws.push(t.to_lowercase());
    ws.into_iter().filter_map(|w| {
        let mut c = Value::Object(doc.clone());
        let mut at = place;
        visit(&mut c, &mut at, &mut |x| *x = s(&w));
        match c { Value::Object(m) => Some(m), _ => None }
    }).collect()
}

/// documents like this one, with less in them
pub fn smaller(text: &str) -> Vec<String> {
    let d = match parse(text) { Some(d) => d, None => return vec![] };
    let v = Value::Object(d);
    let mut out: Vec<String> = Vec::new();
    for i in 1..places(&v) {
        let mut alts: Vec<Value> = Vec::new();
        { let mut w = v.clone(); let mut at = i; visit(&mut w, &mut at, &mut |x| match *x {
            Value::Array(ref a) => for j in 0..a.len() { let mut c = a.clone(); c.remove(j); alts.push(Value::Array(c)) },
            Value::Object(ref m) => {
                alts.push(ident("y"));
                alts.push(node("EmptyStatement", &[]));
                alts.push(Value::Null);
                for (k, y) in m.iter() {
                    if let Value::Object(_) = *y { alts.push(y.clone()) }
                    if k != "type" { let mut c = m.clone(); c.remove(k); alts.push(Value::Object(c)) }
                }
            }
            _ => {}
        }); }
        for a in alts {
            let mut w = v.clone();
            let mut at = i;
            visit(&mut w, &mut at, &mut |x| *x = a.clone());
            out.push(::serde_json::to_string(&w).unwrap());
        }
    }
    out.retain(|t| t.len() < text.len());
    out.sort_by_key(|t| t.len());
    out
}
