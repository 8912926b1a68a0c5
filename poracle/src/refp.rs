//! An independent recursive-descent recognizer for the language the parser implements
//! (ES5, let/const, labels, for-of, methods, generators' stars, shorthand, rest, spread,
//! new.target, assignment patterns), written from the grammar, with a token position
//! and an explicit goal (after an operand or not) instead of a lookahead buffer.
//! It prints the tree it recognizes.
use joker::lexer::Lexer;
use joker::token::{Token, TokenData as T};
use joker::word::{Name, Reserved as R};
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum No {
    Bad(&'static str),      // not a program; the property that says so
    Skip,                   // no opinion: known leniency, or outside what is claimed
}
type Res<A> = Result<A, No>;

#[derive(Clone)]
pub struct Tok { pub t: T, pub nl: bool, pub end: usize }

/// expressions that may still turn into a target, and finished ones
#[derive(Clone)]
enum E { Id(String), Dot(Box<E>, String), Brack(Box<E>, String), Obj(Vec<Pr>), Arr(Vec<It>), Par(Box<E>), Done(String) }
#[derive(Clone)]
enum It { Hole, One(E), Spread(E) }
#[derive(Clone)]
enum Pr { Init(String, E), Short(String), Other(String) }

impl E {
    fn s(&self) -> String {
        match *self {
            E::Id(ref n) => format!("(id {})", n),
            E::Dot(ref o, ref k) => format!("{}.{}", o.s(), k),
            E::Brack(ref o, ref k) => format!("{}[{}]", o.s(), k),
            E::Obj(ref ps) => format!("{{{}}}", ps.iter().map(|p| match *p {
                Pr::Init(ref k, ref e) => format!("{}:{},", k, e.s()),
                Pr::Short(ref n) => format!("(short {}),", n),
                Pr::Other(ref s) => format!("{},", s),
            }).collect::<String>()),
            E::Arr(ref xs) => format!("[{}]", xs.iter().map(|x| match *x {
                It::Hole => "_,".to_string(),
                It::One(ref e) => format!("{},", e.s()),
                It::Spread(ref e) => format!("...{},", e.s()),
            }).collect::<String>()),
            E::Par(ref e) => e.s(),
            E::Done(ref s) => s.clone(),
        }
    }
    fn bare(&self) -> &E { match *self { E::Par(ref e) => e.bare(), _ => self } }
    fn target(&self) -> Res<String> {
        match *self.bare() {
            ref e @ E::Id(_) | ref e @ E::Dot(_, _) | ref e @ E::Brack(_, _) => Ok(e.s()),
            _ => Err(No::Bad("C22")),
        }
    }
    fn patt(&self) -> Res<String> {
        // a parenthesized pattern: the tree has no parentheses, so it passes; no opinion
        if let E::Par(_) = *self { if let E::Obj(_) | E::Arr(_) = *self.bare() { return Err(No::Skip) } }
        match *self.bare() {
            E::Obj(ref ps) => {
                let mut s = String::from("patt{");
                for p in ps {
                    match *p {
                        Pr::Init(ref k, ref e) => s.push_str(&format!("{}:{},", k, e.patt()?)),
                        Pr::Short(ref n) => s.push_str(&format!("(short {}),", n)),
                        Pr::Other(_) => return Err(No::Bad("C22")),
                    }
                }
                s.push('}');
                Ok(s)
            }
            E::Arr(ref xs) => {
                let mut s = String::from("patt[");
                let mut rest = String::new();
                for (i, x) in xs.iter().enumerate() {
                    match *x {
                        It::Hole => s.push_str("_,"),
                        It::One(ref e) => s.push_str(&format!("{},", e.patt()?)),
                        It::Spread(ref e) => {
                            if i + 1 != xs.len() { return Err(No::Bad("C22")) }
                            rest = format!("...{}", e.patt()?);
                        }
                    }
                }
                Ok(format!("{}{}]", s, rest))
            }
            _ => self.target(),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Goal { Script, Strict, Module, Program }

#[derive(Clone)]
struct Cx { strict: bool, function: bool, iter: bool, switch: bool, labels: Vec<(String, bool)> }

pub struct P { src: Vec<char>, pos: usize, cx: Cx, module: bool, program: bool, memo: HashMap<(usize, bool), Option<Tok>> }

pub fn parse(src: &[char], goal: Goal) -> Res<String> {
    let strict = goal == Goal::Strict || goal == Goal::Module;
    let mut p = P {
        src: src.to_vec(), pos: 0, module: goal == Goal::Module, program: goal == Goal::Program || goal == Goal::Module, memo: HashMap::new(),
        cx: Cx { strict, function: false, iter: false, switch: false, labels: vec![] },
    };
    let b = p.body()?;
    match p.tok(false)?.t { T::EOF => Ok(b), _ => Err(No::Bad("C19")) }
}

fn syn<A>() -> Res<A> { Err(No::Bad("C19")) }
// a name is its characters, however they are spelled ..
fn name(n: &Name) -> String { format!("{:?}", Name::from(n.clone().into_string())) }
// .. but a word spelled with escapes is no keyword
fn is(n: &T, s: &str) -> bool { match *n { T::Identifier(Name::Atom(ref n)) => n.name() == s, _ => false } }

const PREC: &'static [(&'static [&'static str], u32)] = &[
    (&["||"], 1), (&["&&"], 2), (&["|"], 3), (&["^"], 4), (&["&"], 5), (&["==", "!=", "===", "!=="], 6),
    (&["<", ">", "<=", ">=", "instanceof", "in"], 7), (&["<<", ">>", ">>>"], 8), (&["+", "-"], 9), (&["*", "/", "%"], 10)];

fn infix(t: &T, allow_in: bool) -> Option<&'static str> {
    Some(match *t {
        T::LogicalOr => "||", T::LogicalAnd => "&&", T::BitOr => "|", T::BitXor => "^", T::BitAnd => "&",
        T::Eq => "==", T::NEq => "!=", T::StrictEq => "===", T::StrictNEq => "!==",
        T::LAngle => "<", T::RAngle => ">", T::LEq => "<=", T::GEq => ">=",
        T::Reserved(R::Instanceof) => "instanceof", T::Reserved(R::In) if allow_in => "in",
        T::LShift => "<<", T::RShift => ">>", T::URShift => ">>>", T::Plus => "+", T::Minus => "-",
        T::Star => "*", T::Slash => "/", T::Mod => "%",
        _ => return None,
    })
}
fn assop(t: &T) -> Option<&'static str> {
    Some(match *t {
        T::PlusAssign => "+=", T::MinusAssign => "-=", T::StarAssign => "*=", T::SlashAssign => "/=", T::ModAssign => "%=",
        T::LShiftAssign => "<<=", T::RShiftAssign => ">>=", T::URShiftAssign => ">>>=",
        T::BitAndAssign => "&=", T::BitOrAssign => "|=", T::BitXorAssign => "^=",
        _ => return None,
    })
}
fn prec(op: &str) -> u32 { PREC.iter().find(|r| r.0.contains(&op)).unwrap().1 }

impl P {
    /// the next token, lexed for the goal (`op`: an operator may come)
    fn tok(&mut self, op: bool) -> Res<Tok> {
        let key = (self.pos, op);
        if !self.memo.contains_key(&key) {
            let rest = &self.src[self.pos..];
            let r: Option<Token> = if self.pos == 0 {
                Lexer::new(rest.iter().cloned()).read_token(op).ok()
            } else {
                // a ';' stands for what came before: same line, not an operand's tail
                let mut lx = Lexer::new(Some(';').into_iter().chain(rest.iter().cloned()));
                lx.read_token(false).ok().and_then(|_| lx.read_token(op).ok())
            };
            let base = if self.pos == 0 { 0 } else { self.pos - 1 };
            let v = r.map(|t| Tok { nl: t.newline, end: base + t.location.end.offset as usize, t: t.value });
            self.memo.insert(key, v);
        }
        match self.memo[&key] { Some(ref t) => Ok(t.clone()), None => Err(No::Bad("C19")) }
    }
    fn take(&mut self, op: bool) -> Res<Tok> { let t = self.tok(op)?; self.pos = t.end; Ok(t) }
    fn at(&mut self, t: &T) -> Res<bool> { Ok(self.tok(false)?.t == *t) }
    fn eat(&mut self, t: T) -> Res<bool> { if self.at(&t)? { self.take(false)?; Ok(true) } else { Ok(false) } }
    fn need(&mut self, t: T) -> Res<()> { if self.eat(t)? { Ok(()) } else { syn() } }
    fn need_op(&mut self, t: T) -> Res<()> { if self.tok(true)?.t == t { self.take(true)?; Ok(()) } else { syn() } }

    /// the end of a statement; `op`: an operand has just ended
    fn semi(&mut self, op: bool, optional: bool) -> Res<&'static str> {
        let t = self.tok(op)?;
        match t.t {
            T::Semi => { self.take(op)?; Ok(";") }
            T::RBrace | T::EOF => Ok("!"),
            _ if t.nl || optional => Ok("!"),
            _ => Err(No::Bad("C23")),
        }
    }

    fn check_id(&self, n: &Name, binding: bool) -> Res<()> {
        let s = n.clone().into_string();
        if self.cx.strict {
            if binding && (s == "eval" || s == "arguments") { return Err(No::Bad("C24")) }
            if ["implements", "interface", "let", "package", "private", "protected", "public", "static", "yield"].contains(&&s[..]) { return Err(No::Bad("C24")) }
            if self.module && s == "await" { return Err(No::Bad("C24")) }
        }
        Ok(())
    }
    fn id(&mut self, binding: bool) -> Res<String> {
        match self.take(false)?.t { T::Identifier(ref n) => { self.check_id(n, binding)?; Ok(name(n)) } _ => syn() }
    }

    fn body(&mut self) -> Res<String> {
        let mut s = String::new();
        loop {
            let t = self.tok(false)?;
            let lit = match t.t { T::String(ref l) => l.clone(), _ => break };
            let save = self.pos;
            self.pos = t.end;
            let n = self.tok(true)?;
            let goes_on = match n.t {
                T::Dot | T::LBrack | T::LParen | T::Question | T::Comma | T::Assign => true,
                T::Inc | T::Dec => !n.nl,
                ref x => infix(x, true).is_some() || assop(x).is_some(),
            };
            if goes_on { self.pos = save; break }
            let e = self.semi(true, false)?;
            s.push_str(&format!("(dir {:?} {:?} {})", lit.value, lit.source, e));
            let src: Vec<char> = match lit.source { Some(ref x) => x.chars().collect(), None => return Err(No::Skip) };
            let inner: String = src[1..src.len() - 1].iter().collect();
            if inner == "use strict" { self.cx.strict = true }
            if inner == "use module" && !self.cx.function {
                if !self.program { return Err(No::Skip) }
                self.module = true;
                self.cx.strict = true;
            }
        }
        Ok(format!("{}{}", s, self.stmts()?))
    }
    fn stmts(&mut self) -> Res<String> {
        let mut s = String::from("<");
        loop {
            match self.tok(false)?.t {
                T::EOF | T::RBrace | T::Reserved(R::Case) | T::Reserved(R::Default) => { s.push('>'); return Ok(s) }
                _ => { s.push_str(&self.item(true)?); s.push(' '); }
            }
        }
    }
    fn block(&mut self) -> Res<String> {
        self.need(T::LBrace)?;
        let s = self.stmts()?;
        self.need(T::RBrace)?;
        Ok(format!("{{{}}}", s))
    }
    fn stmt(&mut self) -> Res<String> { self.item(false) }
    fn loop_body(&mut self) -> Res<String> {
        let o = self.cx.iter;
        self.cx.iter = true;
        let r = self.stmt();
        self.cx.iter = o;
        r
    }

    fn item(&mut self, decl: bool) -> Res<String> {
        let t = self.tok(false)?;
        let kw = match t.t {
            T::LBrace => return self.block(),
            T::Semi => { self.take(false)?; return Ok("(empty)".into()) }
            T::Identifier(_) => {
                let save = self.pos;
                self.take(false)?;
                let n = self.tok(true)?;
                if n.t == T::Colon { self.pos = save; return self.labelled() }
                if is(&t.t, "let") {
                    match n.t {
                        T::Identifier(_) if decl => { let d = self.dtors(true)?; let e = self.semi(true, false)?; return Ok(format!("(let {} {})", d, e)) }
                        // a statement position: the grammar forbids only `let [`; the parser forbids more
                        T::Identifier(_) if n.nl => return Err(No::Skip),
                        T::LBrace if n.nl && !decl => return Err(No::Skip),
                        T::Identifier(_) | T::LBrace | T::LBrack => return syn(),
                        _ => { }
                    }
                }
                self.pos = save;
                return self.expr_stmt();
            }
            T::Reserved(w) => w,
            _ => return self.expr_stmt(),
        };
        match kw {
            R::Function => {
                if !decl { return syn() }
                let f = self.function(true)?;
                Ok(format!("(fundecl {})", f))
            }
            R::Var => { self.take(false)?; let d = self.dtors(true)?; let e = self.semi(true, false)?; Ok(format!("(var {} {})", d, e)) }
            R::Const => {
                if !decl { return syn() }
                self.take(false)?;
                let d = self.const_dtors(true)?;
                let e = self.semi(true, false)?;
                Ok(format!("(const {} {})", d, e))
            }
            R::If => {
                self.take(false)?;
                let c = self.paren()?;
                let a = self.stmt()?;
                let b = if self.eat(T::Reserved(R::Else))? { self.stmt()? } else { "-".into() };
                Ok(format!("(if {} {} {})", c, a, b))
            }
            R::Continue | R::Break => {
                self.take(false)?;
                let brk = kw == R::Break;
                let n = self.tok(false)?;
                let arg = if n.nl || n.t == T::Semi || n.t == T::RBrace || n.t == T::EOF {
                    if !(self.cx.iter || brk && self.cx.switch) { return Err(No::Bad("C20")) }
                    "-".to_string()
                } else {
                    let id = self.id(false)?;
                    match self.cx.labels.iter().find(|l| l.0 == id) {
                        None => return Err(No::Bad("C20")),
                        Some(l) => if !brk && !l.1 { return Err(No::Bad("C20")) },
                    }
                    id
                };
                let e = self.semi(false, false)?;
                Ok(format!("({} {} {})", if brk { "break" } else { "continue" }, arg, e))
            }
            R::Return => {
                self.take(false)?;
                let n = self.tok(false)?;
                let (arg, op) = if n.nl || n.t == T::Semi || n.t == T::RBrace || n.t == T::EOF { ("-".to_string(), false) } else { (self.expr(true)?.s(), true) };
                let e = self.semi(op, false)?;
                if !self.cx.function { return Err(No::Bad("C20")) }
                Ok(format!("(return {} {})", arg, e))
            }
            R::With => {
                self.take(false)?;
                if self.cx.strict { return Err(No::Bad("C24")) }
                let o = self.paren()?;
                let b = self.stmt()?;
                Ok(format!("(with {} {})", o, b))
            }
            R::Switch => {
                self.take(false)?;
                let d = self.paren()?;
                let o = self.cx.switch;
                self.cx.switch = true;
                let c = self.cases();
                self.cx.switch = o;
                Ok(format!("(switch {} {})", d, c?))
            }
            R::Throw => {
                self.take(false)?;
                let n = self.tok(false)?;
                if n.nl || n.t == T::Semi || n.t == T::RBrace || n.t == T::EOF { return Err(No::Bad("C23")) }
                let a = self.expr(true)?.s();
                let e = self.semi(true, false)?;
                Ok(format!("(throw {} {})", a, e))
            }
            R::Try => {
                self.take(false)?;
                let b = self.block()?;
                let mut c = "-".to_string();
                let mut f = "-".to_string();
                if self.eat(T::Reserved(R::Catch))? {
                    self.need(T::LParen)?;
                    let p = self.id(true)?;
                    self.need(T::RParen)?;
                    c = format!("({} {})", p, self.block()?);
                }
                if self.eat(T::Reserved(R::Finally))? { f = self.block()?; }
                if c == "-" && f == "-" { return Err(No::Bad("C20")) }
                Ok(format!("(try {} {} {})", b, c, f))
            }
            R::While => { self.take(false)?; let c = self.paren()?; let b = self.loop_body()?; Ok(format!("(while {} {})", c, b)) }
            R::Do => {
                self.take(false)?;
                let b = self.loop_body()?;
                self.need(T::Reserved(R::While))?;
                let c = self.paren()?;
                let e = self.semi(false, true)?;
                Ok(format!("(do {} {} {})", b, c, e))
            }
            R::For => self.for_stmt(),
            R::Debugger => { self.take(false)?; let e = self.semi(false, false)?; Ok(format!("(debugger {})", e)) }
            _ => self.expr_stmt(),
        }
    }
    fn expr_stmt(&mut self) -> Res<String> { let x = self.expr(true)?.s(); let e = self.semi(true, false)?; Ok(format!("(expr {} {})", x, e)) }

    fn labelled(&mut self) -> Res<String> {
        let mut ls = Vec::new();
        loop {
            if let T::Identifier(_) = self.tok(false)?.t { } else { break }
            let save = self.pos;
            let raw = self.take(false)?;
            if self.tok(true)?.t != T::Colon { self.pos = save; break }
            self.take(true)?;
            if let T::Identifier(ref n) = raw.t { self.check_id(n, false)?; ls.push(name(n)); }
        }
        let iter = match self.tok(false)?.t { T::Reserved(R::Do) | T::Reserved(R::While) | T::Reserved(R::For) => true, _ => false };
        let n = self.cx.labels.len();
        for l in ls.iter() {
            if self.cx.labels.iter().any(|m| m.0 == *l) { return Err(No::Bad("C20")) }
            self.cx.labels.push((l.clone(), iter));
        }
        let b = self.stmt();
        self.cx.labels.truncate(n);
        let mut b = b?;
        for l in ls.iter().rev() { b = format!("(label {} {})", l, b) }
        Ok(b)
    }
    fn cases(&mut self) -> Res<String> {
        self.need(T::LBrace)?;
        let mut s = String::new();
        let mut seen = false;
        loop {
            if self.eat(T::Reserved(R::Case))? {
                let t = self.expr(true)?.s();
                self.need_op(T::Colon)?;
                s.push_str(&format!("(case {} {})", t, self.stmts()?));
            } else if self.eat(T::Reserved(R::Default))? {
                if seen { return Err(No::Bad("C20")) }
                seen = true;
                self.need(T::Colon)?;
                s.push_str(&format!("(default {})", self.stmts()?));
            } else { break }
        }
        self.need(T::RBrace)?;
        Ok(s)
    }
    fn dtor(&mut self, inn: bool) -> Res<String> {
        let id = self.id(true)?;
        let init = if self.eat(T::Assign)? { self.assign(inn)?.s() } else { "-".into() };
        Ok(format!("({} {})", id, init))
    }
    fn dtors(&mut self, inn: bool) -> Res<String> {
        let mut s = self.dtor(inn)?;
        while self.tok(true)?.t == T::Comma { self.take(true)?; s.push_str(&self.dtor(inn)?) }
        Ok(s)
    }
    fn const_dtors(&mut self, inn: bool) -> Res<String> {
        let mut s = String::new();
        loop {
            let id = self.id(true)?;
            self.need(T::Assign)?;
            let v = self.assign(inn)?.s();
            s.push_str(&format!("({} {})", id, v));
            if self.tok(true)?.t == T::Comma { self.take(true)?; } else { return Ok(s) }
        }
    }
    fn paren(&mut self) -> Res<String> {
        self.need(T::LParen)?;
        let e = self.expr(true)?.s();
        self.need_op(T::RParen)?;
        Ok(e)
    }

    fn for_stmt(&mut self) -> Res<String> {
        self.take(false)?;
        self.need(T::LParen)?;
        let t = self.tok(false)?;
        let (kind, save) = match t.t {
            T::Reserved(R::Var) => ("var", self.pos),
            T::Reserved(R::Const) => ("const", self.pos),
            _ if is(&t.t, "let") => ("let", self.pos),
            T::Semi => { self.take(false)?; return self.for_rest("-".into()) }
            _ => ("", self.pos),
        };
        if kind != "" {
            self.take(false)?;
            let n = self.tok(true)?;
            match n.t {
                T::Identifier(_) => {
                    let id = self.id(true)?;
                    let n = self.tok(true)?;
                    match n.t {
                        T::Reserved(R::In) => { self.take(true)?; return self.for_in(format!("({} {})", kind, id)) }
                        ref x if is(x, "of") => { self.take(true)?; return self.for_of(format!("({} {})", kind, id)) }
                        T::Assign => {
                            self.take(true)?;
                            let v = self.assign(false)?.s();
                            let n = self.tok(true)?;
                            match n.t {
                                T::Reserved(R::In) if kind == "var" => { self.take(true)?; return self.for_in(format!("(varinit {} {})", id, v)) }
                                T::Comma => {
                                    self.take(true)?;
                                    let r = if kind == "const" { self.const_dtors(false)? } else { self.dtors(false)? };
                                    self.need_op(T::Semi)?;
                                    return self.for_rest(format!("({} ({} {}){})", kind, id, v, r));
                                }
                                T::Semi => { self.take(true)?; return self.for_rest(format!("({} ({} {}))", kind, id, v)) }
                                _ => return syn(),
                            }
                        }
                        T::Comma if kind != "const" => {
                            self.take(true)?;
                            let r = self.dtors(false)?;
                            self.need_op(T::Semi)?;
                            return self.for_rest(format!("({} ({} -){})", kind, id, r));
                        }
                        T::Semi if kind != "const" => { self.take(true)?; return self.for_rest(format!("({} ({} -))", kind, id)) }
                        _ => return syn(),
                    }
                }
                T::LBrace | T::LBrack => return syn(),
                _ => if kind == "let" { self.pos = save } else { return syn() },
            }
        }
        let e = self.expr(false)?;
        let n = self.tok(true)?;
        match n.t {
            T::Semi => { self.take(true)?; self.for_rest(e.s()) }
            T::Reserved(R::In) => { self.take(true)?; let p = e.patt()?; self.for_in(format!("(patt {})", p)) }
            ref x if is(x, "of") => {
                if kind == "let" { return Err(No::Skip) }
                self.take(true)?;
                let p = e.patt()?;
                self.for_of(format!("(patt {})", p))
            }
            _ => syn(),
        }
    }
    fn for_rest(&mut self, head: String) -> Res<String> {
        let test = if self.eat(T::Semi)? { "-".to_string() } else { let e = self.expr(true)?.s(); self.need_op(T::Semi)?; e };
        let upd = if self.eat(T::RParen)? { "-".to_string() } else { let e = self.expr(true)?.s(); self.need_op(T::RParen)?; e };
        let b = self.loop_body()?;
        Ok(format!("(for {} {} {} {})", head, test, upd, b))
    }
    fn for_in(&mut self, head: String) -> Res<String> {
        let o = self.expr(true)?.s();
        self.need_op(T::RParen)?;
        let b = self.loop_body()?;
        Ok(format!("(forin {} {} {})", head, o, b))
    }
    fn for_of(&mut self, head: String) -> Res<String> {
        let o = self.assign(true)?.s();
        self.need_op(T::RParen)?;
        let b = self.loop_body()?;
        Ok(format!("(forof {} {} {})", head, o, b))
    }

    fn params(&mut self) -> Res<String> {
        self.need(T::LParen)?;
        let mut s = String::new();
        loop {
            if self.eat(T::RParen)? { return Ok(s) }
            if self.eat(T::Ellipsis)? {
                s.push_str(&format!("...{}", self.id(true)?));
                self.need(T::RParen)?;
                return Ok(s);
            }
            s.push_str(&format!("{},", self.id(true)?));
            if !self.eat(T::Comma)? { self.need(T::RParen)?; return Ok(s) }
        }
    }
    fn fun_body(&mut self) -> Res<String> {
        let inner = Cx { strict: self.cx.strict, function: true, iter: false, switch: false, labels: vec![] };
        let outer = std::mem::replace(&mut self.cx, inner);
        let r = (|| { self.need(T::LBrace)?; let b = self.body()?; self.need(T::RBrace)?; Ok(b) })();
        self.cx = outer;
        r
    }
    fn function(&mut self, named: bool) -> Res<String> {
        self.need(T::Reserved(R::Function))?;
        let star = if self.eat(T::Star)? { "*" } else { "" };
        let id = match self.tok(false)?.t { T::Identifier(_) => self.id(true)?, _ => if named { return syn() } else { "-".into() } };
        let p = self.params()?;
        let b = self.fun_body()?;
        Ok(format!("(fun{} {} ({}) {})", star, id, p, b))
    }

    fn expr(&mut self, inn: bool) -> Res<E> {
        let e = self.assign(inn)?;
        if self.tok(true)?.t != T::Comma { return Ok(e) }
        let mut s = format!("(seq {}", e.s());
        while self.tok(true)?.t == T::Comma { self.take(true)?; s.push_str(&format!(" , {}", self.assign(inn)?.s())) }
        s.push(')');
        Ok(E::Done(s))
    }
    fn assign(&mut self, inn: bool) -> Res<E> {
        let l = self.cond(inn)?;
        let t = self.tok(true)?;
        if t.t == T::Assign {
            let p = l.patt()?;
            self.take(true)?;
            let r = self.assign(inn)?.s();
            return Ok(E::Done(format!("(= {} {})", p, r)));
        }
        if let Some(op) = assop(&t.t) {
            let p = l.target()?;
            self.take(true)?;
            let r = self.assign(inn)?.s();
            return Ok(E::Done(format!("({} {} {})", op, p, r)));
        }
        Ok(l)
    }
    fn cond(&mut self, inn: bool) -> Res<E> {
        let t = self.binary(1, inn)?;
        if self.tok(true)?.t != T::Question { return Ok(t) }
        self.take(true)?;
        let a = self.assign(true)?.s();
        self.need_op(T::Colon)?;
        let b = self.assign(inn)?.s();
        Ok(E::Done(format!("(? {} {} {})", t.s(), a, b)))
    }
    /// left-associative levels, loosest first
    fn binary(&mut self, level: u32, inn: bool) -> Res<E> {
        if level > 10 { return self.unary() }
        let mut l = self.binary(level + 1, inn)?;
        loop {
            let t = self.tok(true)?;
            match infix(&t.t, inn) {
                Some(op) if prec(op) == level => {
                    self.take(true)?;
                    let r = self.binary(level + 1, inn)?;
                    l = E::Done(format!("\u{ab}{} {} {}\u{bb}", l.s(), op, r.s()));
                }
                _ => return Ok(l),
            }
        }
    }
    fn unary(&mut self) -> Res<E> {
        let t = self.tok(false)?;
        let op = match t.t {
            T::Inc | T::Dec => {
                self.take(false)?;
                let x = self.unary()?;
                return Ok(E::Done(format!("(pre{} {})", if t.t == T::Inc { "++" } else { "--" }, x.target()?)));
            }
            T::Plus => "+", T::Minus => "-", T::Bang => "!", T::Tilde => "~",
            T::Reserved(R::Typeof) => "typeof", T::Reserved(R::Void) => "void", T::Reserved(R::Delete) => "delete",
            _ => {
                let x = self.lhs()?;
                let n = self.tok(true)?;
                if !n.nl && (n.t == T::Inc || n.t == T::Dec) {
                    let p = x.target()?;
                    self.take(true)?;
                    return Ok(E::Done(format!("(post{} {})", if n.t == T::Inc { "++" } else { "--" }, p)));
                }
                return Ok(x);
            }
        };
        self.take(false)?;
        let x = self.unary()?.s();
        Ok(E::Done(format!("(un{} {})", op, x)))
    }
    /// LeftHandSideExpression: a member expression, then calls and member accesses
    fn lhs(&mut self) -> Res<E> {
        let mut x = self.member()?;
        loop {
            x = match self.access(&x)? { Some(y) => y, None => {
                if self.tok(true)?.t != T::LParen { return Ok(x) }
                let a = self.args()?;
                E::Done(format!("(call {} {})", x.s(), a))
            } }
        }
    }
    fn access(&mut self, x: &E) -> Res<Option<E>> {
        match self.tok(true)?.t {
            T::Dot => {
                self.take(true)?;
                let k = match self.take(false)?.t { T::Identifier(ref n) => n.clone().into_string(), T::Reserved(w) => w.name().to_string(), _ => return syn() };
                Ok(Some(E::Dot(Box::new(x.clone()), k)))
            }
            T::LBrack => {
                self.take(true)?;
                let k = self.expr(true)?.s();
                self.need_op(T::RBrack)?;
                Ok(Some(E::Brack(Box::new(x.clone()), k)))
            }
            _ => Ok(None),
        }
    }
    /// MemberExpression, or a `new` without arguments
    fn member(&mut self) -> Res<E> {
        let mut x = if self.at(&T::Reserved(R::New))? {
            self.take(false)?;
            if self.tok(true)?.t == T::Dot {
                self.take(true)?;
                if !is(&self.take(false)?.t, "target") { return syn() }
                E::Done("newtarget".into())
            } else {
                let c = self.member()?;
                if self.tok(true)?.t == T::LParen { let a = self.args()?; E::Done(format!("(new {} {})", c.s(), a)) }
                else { return Ok(E::Done(format!("(new {} -)", c.s()))) }
            }
        } else { self.primary()? };
        while let Some(y) = self.access(&x)? { x = y }
        Ok(x)
    }
    fn args(&mut self) -> Res<String> {
        self.take(true)?;
        let mut s = String::from("(");
        if self.eat(T::RParen)? { s.push(')'); return Ok(s) }
        loop {
            if self.eat(T::Ellipsis)? { s.push_str("...") }
            s.push_str(&self.assign(true)?.s());
            s.push(',');
            let n = self.take(true)?;
            match n.t { T::Comma => { } T::RParen => { s.push(')'); return Ok(s) } _ => return syn() }
        }
    }
    fn primary(&mut self) -> Res<E> {
        let t = self.tok(false)?;
        if let T::Reserved(R::Function) = t.t { let f = self.function(false)?; return Ok(E::Done(f)) }
        self.take(false)?;
        Ok(match t.t {
            T::Identifier(ref n) => { self.check_id(n, false)?; E::Id(name(n)) }
            T::Reserved(R::Null) => E::Done("null".into()),
            T::Reserved(R::This) => E::Done("this".into()),
            T::Reserved(R::True) => E::Done("true".into()),
            T::Reserved(R::False) => E::Done("false".into()),
            T::Number(ref l) => E::Done(format!("(num {:?} {:?})", l.value.to_bits(), l.source)),
            T::String(ref l) => E::Done(format!("(str {:?} {:?})", l.value, l.source)),
            T::RegExp(ref l) => E::Done(format!("(re {:?} {:?})", l.pattern, l.flags)),
            T::LParen => { let e = self.expr(true)?; self.need_op(T::RParen)?; E::Par(Box::new(e)) }
            T::LBrack => {
                let mut v = Vec::new();
                loop {
                    if self.eat(T::RBrack)? { break }
                    if self.eat(T::Comma)? { v.push(It::Hole); continue }
                    let sp = self.eat(T::Ellipsis)?;
                    let e = self.assign(true)?;
                    v.push(if sp { It::Spread(e) } else { It::One(e) });
                    let n = self.take(true)?;
                    match n.t { T::Comma => { } T::RBrack => break, _ => return syn() }
                }
                E::Arr(v)
            }
            T::LBrace => {
                let mut v = Vec::new();
                loop {
                    if self.eat(T::RBrace)? { break }
                    let (p, op) = self.prop()?;
                    v.push(p);
                    let n = self.take(op)?;
                    match n.t { T::Comma => { } T::RBrace => break, _ => return syn() }
                }
                E::Obj(v)
            }
            _ => return syn(),
        })
    }
    fn key_opt(&mut self) -> Res<Option<String>> {
        let t = self.tok(false)?;
        let k = match t.t {
            T::Identifier(ref n) => format!("k{:?}", n.clone().into_string()),
            T::Reserved(w) => format!("k{:?}", w.name()),
            T::String(ref l) => format!("(str {:?} {:?})", l.value, l.source),
            T::Number(ref l) => format!("(num {:?} {:?})", l.value.to_bits(), l.source),
            _ => return Ok(None),
        };
        self.take(false)?;
        Ok(Some(k))
    }
    /// a property, and whether an operand has just ended
    fn prop(&mut self) -> Res<(Pr, bool)> {
        if self.eat(T::Star)? {
            let k = match self.key_opt()? { Some(k) => k, None => return syn() };
            let p = self.params()?;
            let b = self.fun_body()?;
            return Ok((Pr::Other(format!("(method* {} ({}) {})", k, p, b)), false));
        }
        let t = self.tok(false)?;
        let k = match self.key_opt()? { Some(k) => k, None => return syn() };
        for acc in ["get", "set"].iter() {
            if !is(&t.t, acc) { continue }
            if let Some(k) = self.key_opt()? {
                self.need(T::LParen)?;
                let p = if *acc == "set" { self.id(true)? } else { String::new() };
                self.need(T::RParen)?;
                let b = self.fun_body()?;
                return Ok((Pr::Other(format!("({} {} ({}) {})", acc, k, p, b)), false));
            }
        }
        match self.tok(false)?.t {
            T::Colon => { self.take(false)?; let e = self.assign(true)?; Ok((Pr::Init(k, e), true)) }
            T::LParen => {
                let p = self.params()?;
                let b = self.fun_body()?;
                Ok((Pr::Other(format!("(method {} ({}) {})", k, p, b)), false))
            }
            T::Comma | T::RBrace => match t.t {
                T::Identifier(ref n) => { self.check_id(n, false)?; Ok((Pr::Short(name(n)), false)) }
                _ => syn(),
            },
            _ => syn(),
        }
    }
}
