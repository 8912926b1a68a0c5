//! Reference lexer: ECMAScript 2015 clause 11 and annex B, written from the
//! standard, sharing no code with the crate under test except the ucd tables
//! and the plain data types its answers are compared in.
use joker::error::Error;
use joker::token::{CharCase, Exp, NumberSource, Radix, Sign};
use joker::track::Posn;
use ucd::Codepoint;

pub fn nl(c: char) -> bool { matches!(c as u32, 0xA | 0xD | 0x2028 | 0x2029) }
pub fn ws(c: char) -> bool {
    matches!(c as u32, 9 | 0xB | 0xC | 0x20 | 0xA0 | 0xFEFF | 0x1680 | 0x2000..=0x200A | 0x202F | 0x205F | 0x3000)
}
pub fn id_start(c: char) -> bool { c == '$' || c == '_' || c.is_id_start() }
pub fn id_cont(c: char) -> bool { c == '$' || c == '_' || c == '\u{200C}' || c == '\u{200D}' || c.is_id_continue() }
pub fn dec(c: char) -> bool { c.is_ascii_digit() }
pub fn oct(c: char) -> bool { ('0'..='7').contains(&c) }
pub fn bin(c: char) -> bool { c == '0' || c == '1' }
pub fn hex(c: char) -> bool { c.is_ascii_hexdigit() }
fn dv(c: char) -> u32 {
    match c { '0'..='9' => c as u32 - 48, 'a'..='f' => c as u32 - 87, 'A'..='F' => c as u32 - 55, _ => unreachable!() }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Class { Eof, Re, Num, Str, Word, Punc, Bad, Trivia }

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Eof,
    Punc(&'static str),
    Num(NumberSource, f64),
    Str(String, String),
    Re(String, String),
    Res(&'static str),
    Atom(&'static str),
    Id(String),
}

/// one token: where it starts and ends (indices), what it is
#[derive(Clone, Debug)]
pub struct Lexed {
    pub start: usize,
    pub end: usize,
    pub newline: bool,
    pub class: Class,
    pub tok: Result<Tok, Error>,
}

pub struct Ref<'a> { pub s: &'a [char], pub i: usize, pub line_start: bool }

pub fn posn(s: &[char], n: usize) -> Posn {
    let (mut line, mut column) = (0u32, 0u32);
    for k in 0..n {
        if nl(s[k]) && !(s[k] == '\r' && k + 1 < s.len() && s[k + 1] == '\n') { line += 1; column = 0 } else { column += 1 }
    }
    Posn { offset: n as u32, line, column }
}

const KEYWORDS: &[(&str, &str)] = &[
    ("null", "Null"), ("true", "True"), ("false", "False"), ("break", "Break"), ("case", "Case"), ("catch", "Catch"),
    ("class", "Class"), ("const", "Const"), ("continue", "Continue"), ("debugger", "Debugger"), ("default", "Default"),
    ("delete", "Delete"), ("do", "Do"), ("else", "Else"), ("export", "Export"), ("extends", "Extends"), ("finally", "Finally"),
    ("for", "For"), ("function", "Function"), ("if", "If"), ("import", "Import"), ("in", "In"), ("instanceof", "Instanceof"),
    ("new", "New"), ("return", "Return"), ("super", "Super"), ("switch", "Switch"), ("this", "This"), ("throw", "Throw"),
    ("try", "Try"), ("typeof", "Typeof"), ("var", "Var"), ("void", "Void"), ("while", "While"), ("with", "With"), ("enum", "Enum"),
];
const CONTEXTUAL: &[(&str, &str)] = &[
    ("arguments", "Arguments"), ("eval", "Eval"), ("yield", "Yield"), ("await", "Await"), ("implements", "Implements"),
    ("interface", "Interface"), ("let", "Let"), ("package", "Package"), ("private", "Private"), ("protected", "Protected"),
    ("public", "Public"), ("static", "Static"), ("async", "Async"), ("from", "From"), ("of", "Of"), ("get", "Get"),
    ("set", "Set"), ("target", "Target"),
];
pub fn words() -> Vec<&'static str> {
    KEYWORDS.iter().chain(CONTEXTUAL).map(|x| x.0).collect()
}

/// longest first
const PUNCTUATORS: &[(&str, &str)] = &[
    (">>>=", "URShiftAssign"),
    ("...", "Ellipsis"), ("===", "StrictEq"), ("!==", "StrictNEq"), (">>>", "URShift"), ("<<=", "LShiftAssign"), (">>=", "RShiftAssign"),
    ("<=", "LEq"), (">=", "GEq"), ("==", "Eq"), ("!=", "NEq"), ("++", "Inc"), ("--", "Dec"), ("<<", "LShift"), (">>", "RShift"),
    ("&&", "LogicalAnd"), ("||", "LogicalOr"), ("+=", "PlusAssign"), ("-=", "MinusAssign"), ("*=", "StarAssign"), ("%=", "ModAssign"),
    ("&=", "BitAndAssign"), ("|=", "BitOrAssign"), ("^=", "BitXorAssign"), ("/=", "SlashAssign"), ("=>", "Arrow"),
    ("{", "LBrace"), ("}", "RBrace"), ("(", "LParen"), (")", "RParen"), ("[", "LBrack"), ("]", "RBrack"), (".", "Dot"), (";", "Semi"),
    (",", "Comma"), ("<", "LAngle"), (">", "RAngle"), ("+", "Plus"), ("-", "Minus"), ("*", "Star"), ("%", "Mod"), ("&", "BitAnd"),
    ("|", "BitOr"), ("^", "BitXor"), ("!", "Bang"), ("~", "Tilde"), ("?", "Question"), (":", "Colon"), ("=", "Assign"), ("/", "Slash"),
];
pub fn punctuators() -> Vec<&'static str> { PUNCTUATORS.iter().map(|x| x.0).collect() }
pub fn punct_text(name: &str) -> Option<&'static str> { PUNCTUATORS.iter().find(|x| x.1 == name).map(|x| x.0) }

impl<'a> Ref<'a> {
    pub fn new(s: &'a [char]) -> Self { Ref { s, i: 0, line_start: true } }
    fn at(&self, k: usize) -> Option<char> { self.s.get(self.i + k).copied() }
    fn has(&self, t: &str) -> bool { t.chars().enumerate().all(|(k, c)| self.at(k) == Some(c)) }
    fn to_line_end(&mut self) { while let Some(c) = self.at(0) { if nl(c) { break } self.i += 1 } }

    pub fn trivia(&mut self) -> Result<bool, Error> {
        let mut newline = false;
        loop {
            match self.at(0) {
                None => return Ok(newline),
                Some(c) if ws(c) => self.i += 1,
                Some(c) if nl(c) => { self.i += 1; newline = true; self.line_start = true }
                _ if self.has("//") => self.to_line_end(),
                _ if self.has("/*") => {
                    let mut j = self.i + 2;
                    let mut found = false;
                    loop {
                        if j + 1 >= self.s.len() { return Err(Error::UnterminatedComment) }
                        if self.s[j] == '*' && self.s[j + 1] == '/' { break }
                        found |= nl(self.s[j]);
                        j += 1;
                    }
                    self.i = j + 2;
                    newline |= found;
                    self.line_start |= found;
                }
                _ if self.has("<!--") => self.to_line_end(),
                _ if self.line_start && self.has("-->") => self.to_line_end(),
                _ => return Ok(newline),
            }
        }
    }

    pub fn class(&self, operator: bool) -> Class {
        match self.at(0) {
            None => Class::Eof,
            Some('/') if !operator => Class::Re,
            Some(c) if dec(c) => Class::Num,
            Some('.') if self.at(1).map_or(false, dec) => Class::Num,
            Some('"') | Some('\'') => Class::Str,
            Some(c) if c == '\\' || id_start(c) => Class::Word,
            _ => if PUNCTUATORS.iter().any(|p| self.has(p.0)) { Class::Punc } else { Class::Bad },
        }
    }

    pub fn next(&mut self, operator: bool) -> Lexed {
        let newline = match self.trivia() {
            Ok(f) => f,
            Err(e) => return Lexed { start: self.i, end: self.i, newline: false, class: Class::Trivia, tok: Err(e) },
        };
        self.line_start = false;
        let start = self.i;
        let class = self.class(operator);
        let tok = match class {
            Class::Eof => Ok(Tok::Eof),
            Class::Re => self.regexp(),
            Class::Num => self.number(),
            Class::Str => self.string(),
            Class::Word => self.word_token(),
            Class::Punc => {
                let p = PUNCTUATORS.iter().find(|p| self.has(p.0)).unwrap();
                self.i += p.0.len();
                Ok(Tok::Punc(p.1))
            }
            _ => Err(Error::IllegalChar(self.at(0).unwrap())),
        };
        Lexed { start, end: self.i, newline, class, tok }
    }

    // ---- escapes
    fn hexdigit(&mut self) -> Result<u64, Error> {
        match self.at(0) {
            None => Err(Error::MissingHexDigits),
            Some(c) if hex(c) => { self.i += 1; Ok(dv(c) as u64) }
            Some(c) => Err(Error::InvalidDigit(c)),
        }
    }
    fn uesc(&mut self) -> Result<u64, Error> {
        let mut v: u64 = 0;
        if self.at(0) == Some('{') {
            self.i += 1;
            v = self.hexdigit()?;
            loop {
                if self.at(0) == Some('}') { self.i += 1; return Ok(v) }
                v = (v * 16 + self.hexdigit()?).min(1 << 40);
            }
        }
        for _ in 0..4 { v = v * 16 + self.hexdigit()? }
        Ok(v)
    }
    fn cp(v: u64) -> char { char::from_u32(v as u32).unwrap_or('?') }   // surrogates: known finding

    fn string(&mut self) -> Result<Tok, Error> {
        let start = self.i;
        let q = self.at(0).unwrap();
        self.i += 1;
        let mut v = String::new();
        loop {
            let c = match self.at(0) { None => return Err(Error::UnterminatedString(None)), Some(c) => c };
            if c == q { self.i += 1; break }
            if nl(c) { return Err(Error::UnterminatedString(Some(c))) }
            self.i += 1;
            if c != '\\' { v.push(c); continue }
            let d = match self.at(0) { None => return Err(Error::UnterminatedString(None)), Some(d) => d };
            if oct(d) {
                // Annex B.1.2: up to three digits, at most 255
                let mut val = 0;
                for _ in 0..3 {
                    match self.at(0) { Some(e) if oct(e) && val * 8 + dv(e) <= 255 => { val = val * 8 + dv(e); self.i += 1 } _ => break }
                }
                v.push(Self::cp(val as u64));
                continue;
            }
            self.i += 1;
            match d {
                'x' => { let a = self.hexdigit()?; let b = self.hexdigit()?; v.push(Self::cp(a * 16 + b)) }
                'u' => { let c = self.uesc()?; if c > 0x10FFFF { return Err(Error::IllegalUnicode(0)) } v.push(Self::cp(c)) }
                '\r' => { if self.at(0) == Some('\n') { self.i += 1 } }
                _ if nl(d) => {}
                'n' => v.push('\n'), 'r' => v.push('\r'), 't' => v.push('\t'),
                'b' => v.push('\u{8}'), 'v' => v.push('\u{B}'), 'f' => v.push('\u{C}'),
                _ => v.push(d),
            }
        }
        Ok(Tok::Str(self.s[start..self.i].iter().collect(), v))
    }

    fn regexp(&mut self) -> Result<Tok, Error> {
        self.i += 1;
        let start = self.i;
        let mut class = false;
        loop {
            let c = match self.at(0) { None => return Err(Error::UnterminatedRegExp(None)), Some(c) => c };
            if nl(c) { return Err(Error::UnterminatedRegExp(Some(c))) }
            if c == '/' && !class { break }
            self.i += 1;
            match c {
                '\\' => match self.at(0) {
                    None => return Err(Error::UnterminatedRegExp(None)),
                    Some(d) if nl(d) => return Err(Error::UnterminatedRegExp(Some(d))),
                    Some(_) => self.i += 1,
                },
                '[' => class = true,
                ']' => class = false,
                _ => {}
            }
        }
        let pattern = self.s[start..self.i].iter().collect();
        self.i += 1;
        let (flags, _) = self.word()?;      // escapes in flags: known finding
        Ok(Tok::Re(pattern, flags))
    }

    fn word(&mut self) -> Result<(String, bool), Error> {
        let mut t = String::new();
        let mut esc = false;
        loop {
            match self.at(0) {
                Some('\\') => {
                    self.i += 1;
                    esc = true;
                    match self.at(0) { Some('u') => self.i += 1, x => return Err(Error::IncompleteWordEscape(x)) }
                    let v = self.uesc()?;
                    match if v > 0x10FFFF { None } else { char::from_u32(v as u32) } {
                        Some(c) if id_start(c) || (!t.is_empty() && id_cont(c)) => t.push(c),
                        _ => return Err(Error::IllegalUnicode(0)),
                    }
                }
                Some(c) if id_cont(c) => { t.push(c); self.i += 1 }
                _ => return Ok((t, esc)),
            }
        }
    }
    fn word_token(&mut self) -> Result<Tok, Error> {
        let (t, esc) = self.word()?;
        if let Some(k) = KEYWORDS.iter().find(|k| k.0 == t) {
            if esc { return Err(Error::ReservedWordWithEscapes(reserved(k.1))) }
            return Ok(Tok::Res(k.1));
        }
        if !esc { if let Some(k) = CONTEXTUAL.iter().find(|k| k.0 == t) { return Ok(Tok::Atom(k.1)) } }
        Ok(Tok::Id(t))
    }

    // ---- numbers
    fn run(&mut self, f: fn(char) -> bool) -> String {
        let a = self.i;
        while self.at(0).map_or(false, f) { self.i += 1 }
        self.s[a..self.i].iter().collect()
    }
    fn exponent(&mut self) -> Result<Option<Exp>, Error> {
        let e = match self.at(0) { Some('e') => CharCase::LowerCase, Some('E') => CharCase::UpperCase, _ => return Ok(None) };
        self.i += 1;
        let sign = match self.at(0) { Some('+') => { self.i += 1; Some(Sign::Plus) } Some('-') => { self.i += 1; Some(Sign::Minus) } _ => None };
        match self.at(0) { Some(c) if dec(c) => Ok(Some(Exp { e, sign, value: self.run(dec) })), x => Err(Error::MissingExponent(x)) }
    }
    fn number_text(&mut self) -> Result<NumberSource, Error> {
        if self.at(0) == Some('0') {
            if let Some(r) = self.at(1) {
                let cc = if r.is_ascii_lowercase() { CharCase::LowerCase } else { CharCase::UpperCase };
                let k: Option<(Radix, fn(char) -> bool, Error)> = match r {
                    'x' | 'X' => Some((Radix::Hex(cc), hex, Error::MissingHexDigits)),
                    'o' | 'O' => Some((Radix::Oct(Some(cc)), oct, Error::MissingOctalDigits)),
                    'b' | 'B' => Some((Radix::Bin(cc), bin, Error::MissingBinaryDigits)),
                    _ => None,
                };
                if let Some((radix, f, missing)) = k {
                    self.i += 2;
                    return match self.at(0) {
                        None => Err(missing),
                        Some(c) if !f(c) => Err(Error::InvalidDigit(c)),
                        _ => Ok(NumberSource::RadixInt(radix, self.run(f))),
                    };
                }
            }
        }
        if self.at(0) == Some('.') {
            self.i += 1;
            let f = self.run(dec);
            return Ok(NumberSource::Float(None, Some(f), self.exponent()?));
        }
        let m = self.run(dec);
        if m.len() > 1 && m.starts_with('0') && m.chars().all(oct) { return Ok(NumberSource::RadixInt(Radix::Oct(None), m)) }
        if self.at(0) == Some('.') {
            self.i += 1;
            let f = self.run(dec);
            return Ok(NumberSource::Float(Some(m), Some(f), self.exponent()?));
        }
        Ok(NumberSource::DecimalInt(m, self.exponent()?))
    }
    fn number(&mut self) -> Result<Tok, Error> {
        let start = self.i;
        let n = self.number_text()?;
        let end = self.i;
        match self.at(0) {
            Some(c) if c == '\\' || id_start(c) => return Err(Error::IdAfterNumber(c)),
            Some(c) if dec(c) => return Err(Error::DigitAfterNumber(c)),
            _ => {}
        }
        let v = match n {
            NumberSource::RadixInt(r, ref m) => {
                let radix = match r { Radix::Bin(_) => 2u32, Radix::Oct(_) => 8, Radix::Hex(_) => 16 };
                let mut exact: u128 = 0;
                let mut folded = 0f64;
                let mut small = true;
                for c in m.chars() {
                    folded = folded.mul_add(radix as f64, dv(c) as f64);
                    exact = exact.saturating_mul(radix as u128).saturating_add(dv(c) as u128);
                    small = small && exact <= 1 << 53;
                }
                // beyond 2^53 the fold may round twice: known finding
                if small { exact as f64 } else { folded }
            }
            // a trailing or leading point means the same number without it
            _ => {
                let text: String = self.s[start..end].iter().collect();
                text.replace('E', "e").replace(".e", ".0e").parse().unwrap()
            }
        };
        Ok(Tok::Num(n, v))
    }
}

fn reserved(name: &str) -> joker::word::Reserved {
    use joker::word::Reserved::*;
    match name {
        "Null" => Null, "True" => True, "False" => False, "Break" => Break, "Case" => Case, "Catch" => Catch, "Class" => Class,
        "Const" => Const, "Continue" => Continue, "Debugger" => Debugger, "Default" => Default, "Delete" => Delete, "Do" => Do,
        "Else" => Else, "Export" => Export, "Extends" => Extends, "Finally" => Finally, "For" => For, "Function" => Function,
        "If" => If, "Import" => Import, "In" => In, "Instanceof" => Instanceof, "New" => New, "Return" => Return, "Super" => Super,
        "Switch" => Switch, "This" => This, "Throw" => Throw, "Try" => Try, "Typeof" => Typeof, "Var" => Var, "Void" => Void,
        "While" => While, "With" => With, _ => Enum,
    }
}
