//! Runs the real lexer and the reference side by side and says which property a
//! difference violates.
use crate::reflex::{self as r, Class, Lexed, Ref, Tok};
use joker::error::Error;
use joker::lexer::Lexer;
use joker::token::{NumberSource, Token, TokenData, CharCase, Radix, Sign};
use joker::word::Name;
use std::collections::{BTreeSet, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op { Read(bool), Peek(bool), Skip(bool), Repeek, Reread, Unread }

pub type Labels = BTreeSet<&'static str>;

#[derive(Clone, Debug)]
pub struct Mismatch { pub labels: Labels, pub expected: String, pub actual: String, pub at: usize }

fn labels(l: &[&'static str]) -> Labels { l.iter().copied().collect() }

pub fn norm(td: &TokenData) -> String {
    match *td {
        TokenData::Number(ref l) => format!("Number(value={:?} bits={:016x} source={:?})", l.value, l.value.to_bits(), l.source),
        TokenData::String(ref l) => format!("String(value={:?} source={:?})", l.value, l.source),
        TokenData::RegExp(ref l) => format!("RegExp(pattern={:?} flags={:?})", l.pattern, l.flags.iter().collect::<String>()),
        TokenData::Identifier(Name::Atom(a)) => format!("Identifier(Atom({:?}))", a),
        TokenData::Identifier(Name::String(ref s)) => format!("Identifier(String({:?}))", s),
        ref o => format!("{:?}", o),
    }
}
pub fn norm_ref(t: &Tok) -> String {
    match *t {
        Tok::Eof => "EOF".to_string(),
        Tok::Punc(p) => p.to_string(),
        Tok::Num(ref n, v) => format!("Number(value={:?} bits={:016x} source={:?})", v, v.to_bits(), Some(n)),
        Tok::Str(ref s, ref v) => format!("String(value={:?} source={:?})", v, Some(s)),
        Tok::Re(ref p, ref f) => format!("RegExp(pattern={:?} flags={:?})", p, f),
        Tok::Res(w) => format!("Reserved({})", w),
        Tok::Atom(a) => format!("Identifier(Atom({}))", a),
        Tok::Id(ref s) => format!("Identifier(String({:?}))", s),
    }
}
fn err_same(a: &Error, b: &Error) -> bool {
    match (a, b) { (&Error::IllegalUnicode(_), &Error::IllegalUnicode(_)) => true, _ => a == b }
}
fn class_label(c: Class) -> Option<&'static str> {
    match c { Class::Re => Some("C09"), Class::Num => Some("C07"), Class::Str => Some("C06"), Class::Word => Some("C08"), Class::Punc => Some("C05"), Class::Trivia => Some("C13"), _ => None }
}
/// the source text a token must have, where the token determines it
fn text_of(td: &TokenData) -> Option<String> {
    match *td {
        TokenData::EOF => Some(String::new()),
        TokenData::Reserved(w) => Some(w.name().to_string()),
        TokenData::String(ref l) => l.source.clone(),
        TokenData::Identifier(Name::Atom(a)) => Some(a.name().to_string()),
        TokenData::Identifier(_) | TokenData::RegExp(_) => None,     // may contain escapes
        TokenData::Number(ref l) => l.source.as_ref().map(num_text),
        ref p => r::punct_text(&format!("{:?}", p)).map(|s| s.to_string()),
    }
}
fn num_text(n: &NumberSource) -> String {
    fn exp(x: &Option<joker::token::Exp>) -> String {
        match *x { None => String::new(), Some(ref x) => format!("{}{}{}", if x.e == CharCase::LowerCase { "e" } else { "E" },
            match x.sign { Some(Sign::Plus) => "+", Some(Sign::Minus) => "-", None => "" }, x.value) }
    }
    fn cc(c: CharCase, l: &str) -> String { if c == CharCase::LowerCase { l.to_string() } else { l.to_uppercase() } }
    match *n {
        NumberSource::DecimalInt(ref m, ref x) => format!("{}{}", m, exp(x)),
        NumberSource::Float(ref a, ref b, ref x) => format!("{}.{}{}", a.clone().unwrap_or_default(), b.clone().unwrap_or_default(), exp(x)),
        NumberSource::RadixInt(Radix::Oct(None), ref m) => m.clone(),
        NumberSource::RadixInt(ref r, ref m) => format!("0{}{}", match *r { Radix::Bin(c) => cc(c, "b"), Radix::Hex(c) => cc(c, "x"), Radix::Oct(Some(c)) => cc(c, "o"), _ => unreachable!() }, m),
    }
}

fn describe(s: &[char], l: &Lexed) -> String {
    match l.tok {
        Ok(ref t) => { let (a, b) = (r::posn(s, l.start), r::posn(s, l.end)); format!("{} at {}/{:?}..{}/{:?} newline={}", norm_ref(t), a.offset, a, b.offset, b, l.newline) }
        Err(ref e) => format!("error {:?}", e),
    }
}
fn describe_real(t: &Result<Token, Error>) -> String {
    match *t {
        Ok(ref t) => format!("{} at {}/{:?}..{}/{:?} newline={}", norm(&t.value), t.location.start.offset, t.location.start, t.location.end.offset, t.location.end, t.newline),
        Err(ref e) => format!("error {:?}", e),
    }
}

/// which properties does answering `real` instead of `want` violate?
pub fn compare(s: &[char], want: &Lexed, real: &Result<Token, Error>) -> Option<Labels> {
    let mut l = Labels::new();
    match (&want.tok, real) {
        (&Ok(ref w), &Ok(ref t)) => {
            let (ps, pe) = (r::posn(s, want.start), r::posn(s, want.end));
            let same = norm_ref(w) == norm(&t.value);
            if same && ps == t.location.start && pe == t.location.end && t.newline == want.newline { return None }
            if same && ps.offset == t.location.start.offset && t.newline != want.newline { l.insert("C04"); }
            if same {
                if ps != t.location.start || pe != t.location.end { l.insert("C02"); }
                if ps.offset != t.location.start.offset || pe.offset != t.location.end.offset { l.insert("C03"); }
                if ps.offset == t.location.start.offset && pe.offset != t.location.end.offset { l.extend(class_label(want.class)); }
            } else {
                let a = t.location.start.offset as usize;
                if a != want.start {
                    l.extend(skip_labels(s, want.start, a));
                } else {
                    l.extend(class_label(want.class));
                    if want.class == Class::Re || (want.class == Class::Punc && s[want.start] == '/') { l.insert("C09"); }
                    if let TokenData::RegExp(_) = t.value { l.insert("C09"); }
                    // the extent of a word or number is decided by character classes
                    let b = t.location.end.offset as usize;
                    if b != want.end && matches!(want.class, Class::Word) {
                        let d = b.min(want.end);
                        if d < s.len() && (d == 0 || true) && s[d] != '\\' { l.insert("C11"); }
                    }
                }
            }
            // a token's extent must be its own text, whatever token it is
            if let Some(t2) = text_of(&t.value) {
                let (a, b) = (t.location.start.offset as usize, t.location.end.offset as usize);
                if a <= b && b <= s.len() { if s[a..b].iter().collect::<String>() != t2 { l.insert("C03"); } }
            }
            if l.is_empty() { l.insert("C03"); }
        }
        (&Ok(ref w), &Err(ref e)) => {
            l.insert("C12");
            match *e {
                Error::IllegalChar(c) if !(want.start < s.len() && s[want.start] == c) => {
                    if r::ws(c) || r::nl(c) { l.insert("C11"); } else { l.insert("C13"); }
                }
                Error::UnterminatedComment => { l.insert("C13"); }
                _ => { l.extend(class_label(want.class)); }
            }
            if let Error::IllegalChar(c) = *e { if r::id_start(c) { l.insert("C11"); } }
            if let Error::InvalidDigit(c) = *e { if r::hex(c) { l.insert("C11"); } }
            if *w == Tok::Eof && l.len() == 1 { l.insert("C13"); }
        }
        (&Err(ref w), &Ok(ref t)) => {
            l.insert("C12");
            l.extend(class_label(want.class));
            if let Error::IllegalChar(_) = *w {
                l.insert("C11");
                if t.location.start.offset as usize > want.start { l.extend(skip_labels(s, want.start, t.location.start.offset as usize)); }
            }
            if let Error::InvalidDigit(_) = *w { l.insert("C11"); }
        }
        (&Err(ref w), &Err(ref e)) => {
            if err_same(w, e) { return None }
            l.insert("C12");
            match *e {
                Error::IllegalChar(c) if r::ws(c) || r::nl(c) => { l.insert("C11"); }
                _ => { l.extend(class_label(want.class)); }
            }
        }
    }
    Some(l)
}
/// the lexer started a token at `real` where trivia ends at `want`
fn skip_labels(s: &[char], want: usize, real: usize) -> Labels {
    let mut l = Labels::new();
    let d = want.min(real);
    if d >= s.len() { return labels(&["C13", "C03"]) }
    let c = s[d];
    if real < want {
        if r::ws(c) || r::nl(c) { l.insert("C11"); l.insert("C13"); } else { l.insert("C13"); }
    } else if c == '/' || c == '<' || c == '-' { l.insert("C13"); l.insert("C03"); }
    else { l.insert("C11"); l.insert("C03"); l.insert("C13"); }
    l
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "panic".to_string() }
}

/// what goes wrong when the answer is a panic or no answer at all
pub fn no_answer(s: &[char], ops: &[Op], done: usize, what: &str) -> Mismatch {
    // replay the reference up to the operation that did not answer
    let mut l = labels(&["C01"]);
    let mut expected = "an answer".to_string();
    let mut m = Model::new(s);
    for (k, op) in ops.iter().enumerate() {
        let e = m.step(*op);
        if k == done {
            if let Some(x) = e.and_then(|e| e.token) {
                expected = describe(s, &x);
                match x.tok { Ok(_) => l.extend(class_label(x.class)), Err(_) => { l.insert("C12"); l.extend(class_label(x.class)); } }
                if x.class == Class::Eof { l.insert("C13"); }
            }
            if !matches!(op, Op::Read(_)) { l.insert("C10"); }
            break;
        }
    }
    Mismatch { labels: l, expected, actual: what.to_string(), at: done }
}

/// the reference: a queue of tokens in front of the reference lexer
pub struct Model<'a> { lex: Ref<'a>, queue: VecDeque<Lexed>, last: Option<Lexed>, dead: bool, /// the reads that lex the same tokens
    plain: Vec<Op> }
pub struct Expect { pub token: Option<Lexed> }
impl<'a> Model<'a> {
    pub fn new(s: &'a [char]) -> Self { Model { lex: Ref::new(s), queue: VecDeque::new(), last: None, dead: false, plain: Vec::new() } }
    fn fetch(&mut self, op: bool) -> Lexed { self.plain.push(Op::Read(op)); let x = self.lex.next(op); if x.tok.is_err() { self.dead = true } x }
    /// None: the operation is not allowed in this state
    pub fn step(&mut self, op: Op) -> Option<Expect> {
        if self.dead { return None }
        match op {
            Op::Read(f) | Op::Skip(f) => {
                let t = match self.queue.pop_front() { Some(t) => t, None => self.fetch(f) };
                if !self.dead { self.last = Some(t.clone()) }
                if let Op::Skip(_) = op { self.last = None; if !self.dead { return Some(Expect { token: None }) } }
                Some(Expect { token: Some(t) })
            }
            Op::Peek(f) => {
                if self.queue.is_empty() { let t = self.fetch(f); if self.dead { return Some(Expect { token: Some(t) }) } self.queue.push_front(t); }
                Some(Expect { token: self.queue.front().cloned() })
            }
            Op::Repeek => self.queue.front().cloned().map(|t| Expect { token: Some(t) }),
            Op::Reread => self.queue.pop_front().map(|t| { self.last = Some(t.clone()); Expect { token: Some(t) } }),
            Op::Unread => {
                if self.queue.len() >= 2 || self.last.is_none() { return None }
                let t = self.last.take().unwrap();
                self.queue.push_front(t);
                Some(Expect { token: None })
            }
        }
    }
}

/// run one history on the real lexer, against the model
pub fn run_case(s: &[char], ops: &[Op]) -> Option<Mismatch> {
    run_from(s, ops, s.iter().cloned())
}
pub fn run_from<I: Iterator<Item = char>>(s: &[char], ops: &[Op], src: I) -> Option<Mismatch> {
    let mut m = Model::new(s);
    let mut done = 0usize;
    let res = catch_unwind(AssertUnwindSafe(|| -> Option<Mismatch> {
        let mut lex = Lexer::new(src);
        let mut last: Option<Token> = None;
        let mut errors = 0;
                for (k, op) in ops.iter().enumerate() {
            done = k;
            if m.dead {
                // after an error: only that the lexer keeps answering
                errors += 1;
                if errors > 3 { break }
                if let Op::Read(f) = *op { let _ = lex.read_token(f); }
                continue;
            }
            let want = match m.step(*op) { None => continue, Some(e) => e };
            let real: Option<Result<Token, Error>> = match *op {
                Op::Read(f) => { let t = lex.read_token(f); last = t.clone().ok(); Some(t) }
                Op::Peek(f) => { let _ = lex.posn(); Some(lex.peek_token(f).map(|t| t.clone())) }
                Op::Skip(f) => { last = None; match lex.skip_token(f) { Ok(()) => None, Err(e) => Some(Err(e)) } }
                Op::Repeek => Some(Ok(lex.repeek_token().clone())),
                Op::Reread => { let t = lex.reread_token(); last = Some(t.clone()); Some(Ok(t)) }
                Op::Unread => { lex.unread_token(last.take().unwrap()); None }
            };
            let bad = match (&want.token, &real) {
                (&Some(ref w), &Some(ref t)) => compare(s, w, t).map(|l| (l, describe(s, w), describe_real(t))),
                (&None, &None) => None,
                (&Some(ref w), &None) => Some((labels(&["C12"]), describe(s, w), "ok".to_string())),
                (&None, &Some(ref t)) => Some((labels(&["C12"]), "ok".to_string(), describe_real(t))),
            };
            let bad = bad.or_else(|| {
                let p = lex.posn();
                let w = r::posn(s, m.lex.i);
                if m.dead || p == w { return None }
                let mut l = labels(&["C02"]);
                if p.offset != w.offset { l.insert("C03"); }
                Some((l, format!("position {}/{:?}", w.offset, w), format!("position {}/{:?}", p.offset, p)))
            });
            if let Some((l, expected, actual)) = bad {
                // is it the queue, or the tokens themselves?
                let simple = ops.iter().all(|o| matches!(o, Op::Read(_)));
                if !simple {
                    return Some(match run_plain(s, &m.plain) {
                        Some(p) => Mismatch { labels: p, expected, actual, at: k },
                        None => Mismatch { labels: labels(&["C10"]), expected, actual, at: k },
                    });
                }
                return Some(Mismatch { labels: l, expected, actual, at: k });
            }
        }
        None
    }));
    match res {
        Ok(x) => x,
        Err(e) => {
            let simple = ops.iter().all(|o| matches!(o, Op::Read(_)));
            let mut x = no_answer(s, ops, done, &format!("panic: {}", panic_text(e)));
            if !simple && run_plain(s, &m.plain).is_some() || simple { x.labels.remove("C10"); }
            Some(x)
        }
    }
}
fn run_plain(s: &[char], plain: &[Op]) -> Option<Labels> {
    run_from(s, plain, s.iter().cloned()).map(|m| m.labels)
}
