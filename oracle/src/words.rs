//! The word tables: lexing, naming and Name::from agree on every word.
use crate::lexcheck::Mismatch;
use crate::{Found, Shared};
use crate::reflex as r;
use joker::lexer::Lexer;
use joker::token::TokenData;
use joker::word::Name;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn bad(sh: &Shared, word: &str, expected: String, actual: String) {
    let m = Mismatch { labels: ["C08"].iter().copied().collect(), expected, actual, at: 0 };
    sh.report(Found { input: word.chars().collect(), ops: vec![], m, note: "word functions".to_string() });
}
pub fn check(sh: &Shared) {
    let mut all: Vec<String> = r::words().iter().map(|s| s.to_string()).collect();
    let n = all.len();
    for w in r::words() {
        for k in 0..w.len() { all.push(w[..k].to_string()); let mut t = w.to_string(); t.remove(k); all.push(t); }
        all.push(format!("{}x", w)); all.push(format!("x{}", w)); all.push(w.to_uppercase());
        let mut c = w.chars(); let f = c.next().unwrap(); all.push(f.to_uppercase().chain(c).collect());
    }
    for x in ["", "foo", "of2", "\u{e9}", "undefined", "as", "constructor", "prototype", "static ", "NaN"] { all.push(x.to_string()) }
    for (i, w) in all.iter().enumerate() {
        let res = catch_unwind(AssertUnwindSafe(|| one(sh, w, i < n)));
        if res.is_err() { bad(sh, w, "an answer".to_string(), "panic".to_string()) }
    }
}
fn one(sh: &Shared, w: &String, table: bool) {
    let contextual = r::words()[36..].contains(&&w[..]);
    let n = Name::from(w.clone());
    let s: &str = n.as_ref();
    if s != w { bad(sh, w, format!("Name::from(w).as_ref() = {:?}", w), format!("{:?}", s)) }
    if n.atom().is_some() != contextual { bad(sh, w, format!("Name::from({:?}) is an atom: {}", w, contextual), format!("{:?}", n)) }
    let t = n.clone().into_string();
    if t != *w { bad(sh, w, format!("Name::from(w).into_string() = {:?}", w), format!("{:?}", t)) }
    let st = Name::String(w.clone());
    if st.atom().is_some() || st.as_ref() != &w[..] || st.clone().into_string() != *w { bad(sh, w, "Name::String(w) names w".to_string(), format!("{:?}", st.into_string())) }
    if !table { return }
    match Lexer::new(w.chars()).read_token(true).map(|t| t.value) {
        Ok(TokenData::Reserved(k)) => {
            if contextual || k.name() != w || k.into_string() != *w { bad(sh, w, format!("reserved word named {:?}", w), format!("{:?} named {:?}", k, k.name())) }
        }
        Ok(TokenData::Identifier(Name::Atom(a))) => {
            if !contextual || a.name() != w || n != Name::Atom(a) { bad(sh, w, format!("contextual word named {:?}, the same as Name::from gives", w), format!("{:?} named {:?}, {:?}", a, a.name(), n)) }
        }
        o => bad(sh, w, "a reserved or contextual word".to_string(), format!("{:?}", o)),
    }
}
