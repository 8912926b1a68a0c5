//! The parser against the reference recognizer (refp), on concrete programs.
mod dump;
#[cfg(feature = "reader")]
mod est;
mod gen;
mod refp;

use gen::*;
use refp::{Goal, No};
use serde_json::builder::ObjectBuilder;
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Mismatch { labels: BTreeSet<&'static str>, expected: String, actual: String, entry: &'static str }
#[derive(Clone)]
struct Found { input: String, m: Mismatch, note: String }

fn kind(e: &esprit::error::Error) -> &'static str {
    use esprit::error::Error::*;
    match *e {
        FailedASI(_) | ThrowArgument(_) => "C23",
        TopLevelReturn(_) | IllegalBreak(_) | IllegalContinue(_) | InvalidLabel(_) | InvalidLabelType(_) | DuplicateDefault(_) | OrphanTry(_) => "C20",
        ContextualKeyword(_, _) | IllegalStrictBinding(_, _) | StrictWith(_) | UnexpectedDirective(_, _) | UnexpectedModule(_) => "C24",
        InvalidLHS(_, _) => "C22",
        _ => "C19",
    }
}
fn mm(l: &'static str, entry: &'static str, expected: String, actual: String) -> Option<Mismatch> {
    Some(Mismatch { labels: [l].iter().cloned().collect(), expected, actual, entry })
}
fn unsemi(s: &str) -> String { s.replace(" !)", " ;)") }
fn ungroup(s: &str) -> String { s.chars().filter(|c| *c != '\u{ab}' && *c != '\u{bb}').collect() }
/// the tree without what its assignment patterns hold
fn unpatt(s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    let (mut out, mut i) = (String::new(), 0);
    while i < c.len() {
        if c[i..].starts_with(&['p', 'a', 't', 't', '{']) || c[i..].starts_with(&['p', 'a', 't', 't', '[']) {
            let (mut depth, mut quoted) = (0, false);
            i += 4;
            while i < c.len() {
                match c[i] {
                    '\\' if quoted => i += 1,
                    '"' => quoted = !quoted,
                    '{' | '[' | '(' if !quoted => depth += 1,
                    '}' | ']' | ')' if !quoted => depth -= 1,
                    _ => {}
                }
                i += 1;
                if depth == 0 { break }
            }
            out.push('P');
        } else { out.push(c[i]); i += 1 }
    }
    out
}

fn compare(entry: &'static str, want: &Result<String, No>, got: &Result<String, esprit::error::Error>) -> Option<Mismatch> {
    match (want, got) {
        (&Err(No::Skip), _) => None,
        (&Err(No::Bad(_)), &Err(_)) => None,
        (&Err(No::Bad(l)), &Ok(ref t)) => mm(l, entry, format!("rejected ({})", l), format!("accepted as {}", t)),
        (&Ok(ref t), &Err(ref e)) => mm(kind(e), entry, t.clone(), format!("rejected: {:?}", e)),
        (&Ok(ref a), &Ok(ref b)) => {
            if a == b { return None }
            let l = if ungroup(a) == ungroup(b) { "C18" } else if unsemi(a) == unsemi(b) { "C23" } else { "C19" };
            let mut m = mm(l, entry, a.clone(), b.clone());
            if l == "C19" && unpatt(a) == unpatt(b) { m.as_mut().map(|m| m.labels.insert("C22")); }
            m
        }
    }
}

#[cfg(not(feature = "reader"))]
pub fn run_case(text: &str) -> Option<Mismatch> { parse_case(text) }
#[cfg(feature = "reader")]
pub fn run_case(text: &str) -> Option<Mismatch> { read_case(text) }

/// the reader of ESTree documents
#[cfg(feature = "reader")]
fn read_case(text: &str) -> Option<Mismatch> {
    use estree::IntoScript;
    let doc = match est::parse(text) { Some(d) => d, None => return None };
    let r = est::Reader { soft: std::cell::Cell::new(false) };
    let want = r.script(&doc);
    let got = catch_unwind(AssertUnwindSafe(|| doc.into_script().map(|s| dump::script(&s)).map_err(|e| e.to_string())));
    match (want, got) {
        (_, Err(_)) => mm("C25", "estree", "an answer".into(), "a panic".into()),
        (Ok(ref a), Ok(Ok(ref b))) if a == b => None,
        (Ok(a), Ok(Ok(b))) => mm("C25", "estree", a, b),
        (Ok(a), Ok(Err(e))) => if r.soft.get() { None } else { mm("C25", "estree", a, format!("rejected: {}", e)) },
        (Err(()), Ok(Ok(b))) => mm("C25", "estree", "rejected".into(), format!("accepted as {}", b)),
        (Err(()), Ok(Err(_))) => None,
    }
}

#[allow(dead_code)]
fn parse_case(text: &str) -> Option<Mismatch> {
    let r = catch_unwind(AssertUnwindSafe(|| run(text)));
    match r {
        Ok(r) => r.map(|m| about_in(m, text)),
        Err(p) => {
            let s = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            mm("C21", "?", "an answer".to_string(), format!("panic: {}", s))
        }
    }
}
/// a disagreement that goes away when an operator `in` is written `<` is about where `in`
/// is an operator
fn about_in(mut m: Mismatch, text: &str) -> Mismatch {
    if !m.labels.contains("C19") { return m }
    let mut at = 0;
    while let Some(i) = text[at..].find(" in ") {
        let i = at + i;
        let t = format!("{} < {}", &text[..i], &text[i + 4..]);
        let ok = refp::parse(&t.chars().collect::<Vec<_>>(), Goal::Script).is_ok();
        if ok && catch_unwind(AssertUnwindSafe(|| run(&t))).map(|r| r.is_none()).unwrap_or(false) { m.labels.insert("C18"); break }
        at = i + 4;
    }
    m
}
fn run(text: &str) -> Option<Mismatch> {
    let src: Vec<char> = text.chars().collect();
    let sloppy = refp::parse(&src, Goal::Script);
    let strict = refp::parse(&src, Goal::Strict);
    let module = refp::parse(&src, Goal::Module);
    let prog = refp::parse(&src, Goal::Program);
    if let Some(m) = compare("script", &sloppy, &esprit::script(text).map(|s| dump::script(&s))) { return Some(m) }
    if let Some(m) = compare("strict", &strict, &esprit::strict(text).map(|s| dump::script(&s))) { return Some(m) }
    if let Some(m) = compare("module", &module, &esprit::module(text).map(|s| dump::module(&s))) { return Some(m) }
    if prog == Err(No::Skip) { return None }
    match esprit::program(text) {
        Err(e) => compare("program", &prog, &Err(e)),
        Ok(p) => {
            if prog.is_err() { return compare("program", &prog, &Ok("a program".to_string())) }
            // the three readings of an ambiguous program
            if let Some(m) = compare("program.script", &prog, &p.clone().script().map(|s| dump::script(&s))) { return Some(m) }
            // "use module" makes the program a module: every strict check has been made
            let is_mod = text.contains("use module");
            if !is_mod {
                if let Some(m) = compare("program.strict", &strict, &p.clone().strict().map(|s| dump::script(&s))) { return Some(relabel(m)) }
                if let Some(m) = compare("program.module", &module, &p.clone().module().map(|s| dump::module(&s))) { return Some(relabel(m)) }
            }
            None
        }
    }
}
/// what the readings of a program accept is strictness's business
fn relabel(mut m: Mismatch) -> Mismatch {
    if m.labels.contains("C19") && (m.expected.starts_with("rejected") || m.actual.starts_with("rejected")) { m.labels.insert("C24"); }
    m
}

struct Shared {
    best: Mutex<BTreeMap<&'static str, Found>>, count: AtomicU64, accepted: AtomicU64, bad: AtomicU64, start: Instant,
    now: Vec<(AtomicU64, Mutex<String>)>, sample: Mutex<Vec<String>>, trace: Option<String>,
}
impl Shared {
    fn ms(&self) -> u64 { self.start.elapsed().as_millis() as u64 + 1 }
    fn report(&self, f: Found) {
        self.bad.fetch_add(1, Ordering::Relaxed);
        let mut b = self.best.lock().unwrap();
        for l in f.m.labels.iter() {
            let better = match b.get(l) { None => true, Some(o) => f.input.len() < o.input.len() };
            if better { b.insert(l, f.clone()); }
        }
    }
    fn case(&self, th: usize, text: &str) {
        { let mut g = self.now[th].1.lock().unwrap(); g.clear(); g.push_str(text); }
        self.now[th].0.store(self.ms(), Ordering::SeqCst);
        if let Some(ref d) = self.trace {
            let f = Found { input: text.to_string(), m: mm("C21", "?", "an answer".into(), "the process dies".into()).unwrap(), note: "crash".to_string() };
            let _ = std::fs::write(format!("{}/{}", d, th), serde_json::to_string(&found_json("C21", &f)).unwrap());
        }
        let r = run_case(text);
        self.now[th].0.store(0, Ordering::SeqCst);
        let n = self.count.fetch_add(1, Ordering::Relaxed);
        if n % 20011 == 17 { self.sample.lock().unwrap().push(format!("{:?}", text)); }
        if esprit_ok(text) { self.accepted.fetch_add(1, Ordering::Relaxed); }
        if let Some(m) = r { self.report(Found { input: text.to_string(), m, note: String::new() }) }
    }
}
#[cfg(feature = "reader")]
fn esprit_ok(text: &str) -> bool { est::parse(text).map(|d| est::Reader { soft: std::cell::Cell::new(false) }.script(&d).is_ok()).unwrap_or(false) }
#[cfg(not(feature = "reader"))]
fn esprit_ok(text: &str) -> bool { text.len() > 2 && refp::parse(&text.chars().collect::<Vec<_>>(), Goal::Script).is_ok() }

#[cfg(not(feature = "reader"))]
fn minimize(f: &Found, label: &str, end: Instant) -> Found {
    let mut best = f.clone();
    if f.note == "hang" || f.input.len() > 4000 { return best }
    let mut progress = true;
    while progress && Instant::now() < end {
        progress = false;
        let mut size = best.input.chars().count() / 2;
        while size >= 1 {
            let mut i = 0;
            loop {
                let v: Vec<char> = best.input.chars().collect();
                if i + size > v.len() || Instant::now() > end { break }
                let t: String = v[..i].iter().chain(v[i + size..].iter()).collect();
                match run_case(&t) { Some(ref m) if m.labels.contains(label) => { best.input = t; best.m = m.clone(); progress = true } _ => i += 1 }
            }
            size /= 2;
        }
    }
    best
}
fn found_json(label: &str, f: &Found) -> Value {
    ObjectBuilder::new()
        .insert("property", label)
        .insert("labels", f.m.labels.iter().map(|s| s.to_string()).collect::<Vec<_>>())
        .insert("input", f.input.clone())
        .insert("ops", vec![f.m.entry.to_string()])
        .insert("expected", f.m.expected.clone())
        .insert("actual", f.m.actual.clone())
        .insert("note", f.note.clone())
        .build()
}

#[cfg(feature = "reader")]
fn worker(sh: &Shared, th: usize, threads: usize, seed: u64, scale: u64, limit: Duration) {
    let mut g = Rng::new(seed.wrapping_add(th as u64 * 7919));
    // a document for each kind of node: every word replaced by every other, and every change at every place
    for (n, d) in est::fixed().iter().enumerate() {
        if n % threads != th { continue }
        sh.case(th, &est::show(d));
        for i in 1..est::places(&Value::Object(d.clone())) {
            for c in est::reword(d, i) { sh.case(th, &est::show(&c)) }
            for how in 0..est::CHANGES { for _ in 0..4 { if let Some(c) = est::change(d, i, how, &mut g) { sh.case(th, &est::show(&c)) } } }
        }
    }
    for n in 0..1500 * scale {
        if sh.start.elapsed() > limit { return }
        // small documents with every change made to every place of some, and large ones with one or two
        let d = if n % 3 == 0 { est::Docs::doc(&mut g, 4 + (n % 40) as i32) } else { est::Docs::small(&mut g) };
        sh.case(th, &est::show(&d));
        let v = Value::Object(d.clone());
        let places = est::places(&v);
        if places < 60 && n % 3 == 1 {
            for i in 1..places { for how in 0..est::CHANGES { if let Some(c) = est::change(&d, i, how, &mut g) { sh.case(th, &est::show(&c)) } } }
        } else {
            for _ in 0..6 {
                if let Some(c) = est::change(&d, 1 + g.below(places), g.next() as usize % est::CHANGES, &mut g) {
                    sh.case(th, &est::show(&c));
                    let w = Value::Object(c.clone());
                    if let Some(c) = est::change(&c, 1 + g.below(est::places(&w)), g.next() as usize % est::CHANGES, &mut g) { sh.case(th, &est::show(&c)) }
                }
            }
        }
    }
}
#[cfg(feature = "reader")]
fn minimize(f: &Found, label: &str, end: Instant) -> Found {
    let mut best = f.clone();
    let mut progress = true;
    while progress && Instant::now() < end {
        progress = false;
        for t in est::smaller(&best.input) {
            if Instant::now() > end { break }
            match run_case(&t) { Some(ref m) if m.labels.contains(label) => { best.input = t; best.m = m.clone(); progress = true; break } _ => {} }
        }
    }
    best
}
#[cfg(not(feature = "reader"))]
fn worker(sh: &Shared, th: usize, threads: usize, seed: u64, scale: u64, limit: Duration) {
    let mut g = Rng::new(seed.wrapping_add(th as u64 * 7919));
    let over = || sh.start.elapsed() > limit;
    let mut k = 0;
    // 1. hand-picked programs, each blank a blank or a line break
    for s in SEEDS {
        let v: Vec<String> = s.split(' ').map(|s| s.to_string()).collect();
        for i in 0..=v.len() {
            k += 1;
            if k % threads != th { continue }
            let mut t = String::new();
            for (j, x) in v.iter().enumerate() { t.push_str(x); t.push_str(if j + 1 == i { "\n" } else { " " }) }
            sh.case(th, &t);
            sh.case(th, &format!("function f ( ) {{ {} }}", t));
            sh.case(th, &format!("'use strict' ; {}", t));
            sh.case(th, &format!("for ( ; ; ) {{ {} }}", t));
        }
    }
    // 2. all short token sequences
    let a = SHORT.len();
    for d in 1..=3u32 {
        let total = a.pow(d);
        let mut i = th;
        while i < total {
            if i & 255 == th & 255 && over() { return }
            let mut t = String::new();
            let mut x = i;
            for _ in 0..d { t.push_str(SHORT[x % a]); t.push(' '); x /= a }
            sh.case(th, &t);
            i += threads;
        }
    }
    // 3. random programs, plain and mutated
    for n in 0..4000 * scale {
        if over() { return }
        let fuel = 4 + g.below(if n % 8 == 0 { 120 } else { 30 }) as i32;
        let v = Gen::program(&mut g, fuel);
        if v.len() > 600 { continue }
        let nl = if g.p(50) { 0 } else { g.below(40) };
        let t = join(&mut g, &v, nl);
        sh.case(th, &t);
        let mut m = v.clone();
        mutate(&mut g, &mut m);
        let t = join(&mut g, &m, nl);
        sh.case(th, &t);
        for kind in 0..6 {
            let fuel = 6 + g.below(20) as i32;
            let v = Gen::focus(&mut g, kind, fuel);
            let t = join(&mut g, &v, if n % 4 == 0 { 6 } else { 0 });
            sh.case(th, &t);
            if n % 4 == 1 { let mut m = v.clone(); mutate(&mut g, &mut m); let t = join(&mut g, &m, nl); sh.case(th, &t); }
        }
        let s = g.pick(SEEDS);
        let mut m: Vec<String> = s.split(' ').map(|s| s.to_string()).collect();
        mutate(&mut g, &mut m);
        let t = join(&mut g, &m, 8);
        sh.case(th, &t);
        let l = 1 + g.below(8);
        let m: Vec<String> = (0..l).map(|_| g.pick(TOKENS).to_string()).collect();
        let t = join(&mut g, &m, 8);
        sh.case(th, &t);
    }
}

fn go(seed: u64, scale: u64, limit: Duration, trace: Option<String>) {
    if let Some(ref d) = trace { std::fs::create_dir_all(d).unwrap(); }
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    let sh = Arc::new(Shared {
        best: Mutex::new(BTreeMap::new()), count: AtomicU64::new(0), accepted: AtomicU64::new(0), bad: AtomicU64::new(0), start: Instant::now(),
        now: (0..threads).map(|_| (AtomicU64::new(0), Mutex::new(String::new()))).collect(), sample: Mutex::new(Vec::new()), trace,
    });
    let mut hs = Vec::new();
    for th in 0..threads {
        let sh = sh.clone();
        hs.push(std::thread::Builder::new().stack_size(256 << 20).spawn(move || worker(&sh, th, threads, seed, scale, limit)).unwrap());
    }
    let mut hung = false;
    while hs.iter().any(|h| !h.is_finished()) {
        std::thread::sleep(Duration::from_millis(20));
        for n in sh.now.iter() {
            let t = n.0.load(Ordering::SeqCst);
            if t != 0 && sh.ms() > t + 10000 {
                let input = n.1.lock().unwrap().clone();
                sh.report(Found { input, m: mm("C21", "?", "an answer".into(), "no answer within 10 s".into()).unwrap(), note: "hang".to_string() });
                hung = true;
            }
        }
        if hung { break }
    }
    if !hung { for h in hs { let _ = h.join(); } }
    let end = Instant::now() + Duration::from_secs(8);
    let best = sh.best.lock().unwrap().clone();
    let mut arr = Vec::new();
    for (l, f) in best.iter() {
        let g = if hung || Instant::now() > end { f.clone() } else { minimize(f, l, end) };
        arr.push(found_json(l, &g));
    }
    let samples: Vec<String> = { let mut s = sh.sample.lock().unwrap().clone(); s.sort(); s.truncate(6); s };
    let out = ObjectBuilder::new()
        .insert("evaluations", sh.count.load(Ordering::Relaxed))
        .insert("nontrivial", sh.accepted.load(Ordering::Relaxed))
        .insert("mismatches", sh.bad.load(Ordering::Relaxed))
        .insert("complete", !hung && sh.start.elapsed() < limit)
        .insert("samples", samples)
        .insert("found", Value::Array(arr))
        .build();
    println!("{}", serde_json::to_string(&out).unwrap());
    std::process::exit(0);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |i: usize, d: u64| a.get(i).and_then(|s| s.parse().ok()).unwrap_or(d);
    std::panic::set_hook(Box::new(|_| {}));
    match a.get(1).map(|s| &s[..]) {
        Some("parse") | Some("estree") => go(get(2, 1), get(3, 1), Duration::from_secs(get(4, 60)), a.get(5).cloned()),
        Some("known") => println!("[]"),
        Some("one") => {
            if !cfg!(feature = "reader") { for g in [Goal::Script, Goal::Strict, Goal::Module, Goal::Program].iter() { println!("{:?}: {:?}", g, refp::parse(&a[2].chars().collect::<Vec<_>>(), *g)) } }
            match run_case(&a[2]) { None => println!("agrees"), Some(m) => println!("{:?} {} expected {}\nactual {}", m.labels, m.entry, m.expected, m.actual) }
        }
        Some("replay") => {
            let t = std::fs::read_to_string(&a[2]).unwrap();
            let v: Value = serde_json::from_str(&t).unwrap();
            let w = v.as_object().and_then(|o| o.get("witness")).unwrap_or(&v).clone();
            let input = w.as_object().unwrap()["input"].as_str().unwrap().to_string();
            let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || run_case(&input)).unwrap();
            match h.join().unwrap() {
                None => println!("no mismatch"),
                Some(m) => { println!("{:?} {}\nexpected {}\nactual   {}", m.labels, m.entry, m.expected, m.actual); std::process::exit(1) }
            }
        }
        _ => { eprintln!("usage: poracle parse|known|replay"); std::process::exit(2) }
    }
}
