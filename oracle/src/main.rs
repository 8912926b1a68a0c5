mod gen;
mod lexcheck;
mod reflex;
mod unj;
mod words;

use gen::*;
use lexcheck::*;
use serde_json::builder::ObjectBuilder;
use serde_json::Value;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Found { pub input: Vec<char>, pub ops: Vec<Op>, pub m: Mismatch, pub note: String }

pub struct Shared {
    best: Mutex<BTreeMap<&'static str, Found>>,     // shortest witness per property
    count: AtomicU64,
    nontrivial: AtomicU64,
    bad: AtomicU64,
    start: Instant,
    now: Vec<(AtomicU64, Mutex<(Vec<char>, Vec<Op>)>)>,
    sample: Mutex<Vec<String>>,
    trace: Option<String>,      // record every case before it runs (after a crash)
}
impl Shared {
    fn ms(&self) -> u64 { self.start.elapsed().as_millis() as u64 + 1 }
    pub fn report(&self, f: Found) {
        self.bad.fetch_add(1, Ordering::Relaxed);
        let mut b = self.best.lock().unwrap();
        for l in f.m.labels.iter() {
            let better = match b.get(l) { None => true, Some(o) => (f.input.len(), f.ops.len()) < (o.input.len(), o.ops.len()) };
            if better { b.insert(l, f.clone()); }
        }
    }
    fn case(&self, th: usize, input: &[char], ops: &[Op]) {
        { let mut g = self.now[th].1.lock().unwrap(); g.0.clear(); g.0.extend_from_slice(input); g.1.clear(); g.1.extend_from_slice(ops); }
        self.now[th].0.store(self.ms(), Ordering::SeqCst);
        if let Some(ref d) = self.trace {
            if input.len() < 2000 {
                let f = Found { input: input.to_vec(), ops: ops.to_vec(), m: no_answer(input, ops, 0, "the process dies"), note: "crash".to_string() };
                let _ = std::fs::write(format!("{}/{}", d, th), serde_json::to_string(&found_json("C01", &f)).unwrap());
            }
        }
        let r = run_case(input, ops);
        self.now[th].0.store(0, Ordering::SeqCst);
        let n = self.count.fetch_add(1, Ordering::Relaxed);
        if input.len() >= 2 { self.nontrivial.fetch_add(1, Ordering::Relaxed); }
        if n % 100003 == 17 { self.sample.lock().unwrap().push(show(input, ops)); }
        if let Some(m) = r { self.report(Found { input: input.to_vec(), ops: ops.to_vec(), m, note: String::new() }) }
    }
}
fn show(input: &[char], ops: &[Op]) -> String { format!("{:?} {:?}", input.iter().collect::<String>(), ops) }

fn minimize(f: &Found, label: &str, end: Instant) -> Found {
    let mut best = f.clone();
    if f.m.actual.starts_with("no answer") || f.input.is_empty() || f.input.len() > 5000 { return best }
    let mut progress = true;
    while progress && Instant::now() < end {
        progress = false;
        for i in (0..best.input.len()).rev() {
            let mut v = best.input.clone();
            v.remove(i);
            if let Some(m) = run_case(&v, &best.ops) { if m.labels.contains(label) { best.input = v; best.m = m; progress = true; } }
        }
        for i in (0..best.ops.len()).rev() {
            let mut v = best.ops.clone();
            v.remove(i);
            if let Some(m) = run_case(&best.input, &v) { if m.labels.contains(label) { best.ops = v; best.m = m; progress = true; } }
        }
    }
    best
}

fn found_json(label: &str, f: &Found) -> Value {
    ObjectBuilder::new()
        .insert("property", label)
        .insert("labels", f.m.labels.iter().map(|s| s.to_string()).collect::<Vec<_>>())
        .insert("input", f.input.iter().collect::<String>())
        .insert("ops", f.ops.iter().map(|o| format!("{:?}", o)).collect::<Vec<_>>())
        .insert("at_op", f.m.at)
        .insert("expected", f.m.expected.clone())
        .insert("actual", f.m.actual.clone())
        .insert("note", f.note.clone())
        .build()
}

fn lex(seed: u64, scale: u64, limit: Duration, trace: Option<String>) {
    if let Some(ref d) = trace { std::fs::create_dir_all(d).unwrap(); }
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    let sh = Arc::new(Shared {
        best: Mutex::new(BTreeMap::new()), count: AtomicU64::new(0), nontrivial: AtomicU64::new(0), bad: AtomicU64::new(0), start: Instant::now(),
        now: (0..threads).map(|_| (AtomicU64::new(0), Mutex::new((Vec::new(), Vec::new())))).collect(), sample: Mutex::new(Vec::new()), trace,
    });
    std::panic::set_hook(Box::new(|_| {}));
    let frags = Arc::new(fragments());
    let mut hs = Vec::new();
    for th in 0..threads {
        let (sh, frags) = (sh.clone(), frags.clone());
        hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || worker(&sh, &frags, th, threads, seed, scale, limit)).unwrap());
    }
    // watchdog: an operation that takes 3 s is not going to answer
    let mut hung = false;
    while hs.iter().any(|h| !h.is_finished()) {
        std::thread::sleep(Duration::from_millis(20));
        for n in sh.now.iter() {
            let t = n.0.load(Ordering::SeqCst);
            if t != 0 && sh.ms() > t + 3000 {
                let (input, ops) = { let g = n.1.lock().unwrap(); (g.0.clone(), g.1.clone()) };
                if input.len() < 1000 {
                    // which operation?  the first one of a prefix that hangs is not searched for
                    let m = no_answer(&input, &ops, ops.len().saturating_sub(1).min(0), "no answer within 3 s");
                    sh.report(Found { input, ops, m, note: "hang".to_string() });
                    hung = true;
                }
            }
        }
        if hung { break }
    }
    if !hung {
        for h in hs { let _ = h.join(); }
    }
    let end = Instant::now() + Duration::from_secs(5);
    let best = sh.best.lock().unwrap().clone();
    let mut arr = Vec::new();
    for (l, f) in best.iter() {
        let g = if hung || Instant::now() > end { f.clone() } else { minimize(f, l, end) };
        arr.push(found_json(l, &g));
    }
    let samples: Vec<String> = { let mut s = sh.sample.lock().unwrap().clone(); s.sort(); s.truncate(6); s };
    let out = ObjectBuilder::new()
        .insert("evaluations", sh.count.load(Ordering::Relaxed))
        .insert("nontrivial", sh.nontrivial.load(Ordering::Relaxed))
        .insert("mismatches", sh.bad.load(Ordering::Relaxed))
        .insert("complete", !hung && sh.start.elapsed() < limit)
        .insert("samples", samples)
        .insert("found", Value::Array(arr))
        .build();
    println!("{}", serde_json::to_string(&out).unwrap());
    std::process::exit(0);
}

fn worker(sh: &Shared, frags: &[String], th: usize, threads: usize, seed: u64, scale: u64, limit: Duration) {
    let mut g = Rng::new(seed.wrapping_add(th as u64 * 7919));
    let over = || sh.start.elapsed() > limit;
    let t = |f| Op::Read(f);
    // 1. words and the functions on them
    if th == 0 { words::check(sh); }
    // 2. every fragment, pair of fragments
    let n = frags.len();
    let mut k = 0;
    for i in 0..n { for j in 0..=n {
        k += 1;
        if k % threads != th { continue }
        if over() { return }
        let mut s = frags[i].clone();
        if j < n { s.push_str(&frags[j]) }
        let v = chars(&s);
        for f in [true, false] { sh.case(th, &v, &[t(f), t(true), t(true), t(true)]); }
    } }
    // 3. all short strings over a small alphabet
    let a = SMALL.len();
    let depth = 4;
    for d in 1..=depth {
        let total = a.pow(d);
        let mut i = th;
        while i < total {
            if i & 1023 == th & 1023 && over() { return }
            let mut v = Vec::with_capacity(d as usize);
            let mut x = i;
            for _ in 0..d { v.push(SMALL[x % a]); x /= a }
            sh.case(th, &v, &[t(true), t(true), t(true), t(true), t(true)]);
            if d < 4 { sh.case(th, &v, &[t(false), t(false), t(true)]); }
            i += threads;
        }
    }
    // 4. characters: quick tier the interesting ranges, thorough all of them
    for c in 0..0x110000u32 {
        if c as usize % threads != th { continue }
        let c = match char::from_u32(c) { None => continue, Some(c) => c };
        if scale == 1 && !(c < '\u{3200}' || c > '\u{fe00}' && c < '\u{10100}' || c as u32 % 61 == 7) { continue }
        if c as u32 & 255 == 0 && over() { return }
        let r4 = [t(true), t(true), t(true), t(true)];
        sh.case(th, &[c], &r4);
        sh.case(th, &['a', c, 'b'], &r4);
        if scale > 1 || c < '\u{3200}' {
            sh.case(th, &['1', c], &r4);
            sh.case(th, &['\'', c, '\''], &r4);
            sh.case(th, &['\'', '\\', c, '\''], &r4);
            sh.case(th, &['/', c, '/'], &[t(false), t(true)]);
            sh.case(th, &['/', '[', c, ']', '/'], &[t(false), t(true)]);
            sh.case(th, &['/', '\\', c, '/'], &[t(false), t(true)]);
            sh.case(th, &['/', '/', c, 'z'], &r4);
            sh.case(th, &['/', '*', c, '*', '/', 'z'], &r4);
            sh.case(th, &['x', c, '-', '-', '>', 'z'], &r4);
            sh.case(th, &['0', 'x', '1', c], &r4);
            sh.case(th, &['0', c, '1'], &r4);
            let e: Vec<char> = format!("a\\u{{{:x}}}", c as u32).chars().collect();
            sh.case(th, &e, &r4);
            sh.case(th, &e[1..], &r4);
            let e: Vec<char> = format!("'\\u{{{:x}}}\\x{:02x}\\{:o}'", c as u32, c as u32 & 255, c as u32 & 511).chars().collect();
            sh.case(th, &e, &r4);
        }
    }
    // 5. long inputs: counters
    if th == 1 % threads {
        for unit in ["a ", "\n", "\r\n", "x\u{2028}", " ", "'\\\r\n'"] {
            for reps in [300usize, 70000] {
                if over() { return }
                let v: Vec<char> = unit.repeat(reps).chars().chain("zz".chars()).collect();
                let n = if reps > 1000 { 12 } else { 400 };
                let mut ops = vec![t(true); n];
                if reps > 1000 && !unit.starts_with(['a', 'x', '\'']) { ops.truncate(3) }
                sh.case(th, &v, &ops);
            }
        }
        for long in ["a", "1", "\\u0061"] {
            let v: Vec<char> = long.repeat(70001).chars().chain(" b".chars()).collect();
            sh.case(th, &v, &[t(true), t(true), t(true)]);
        }
        let mut v: Vec<char> = vec!['"'; 1]; v.extend(std::iter::repeat('q').take(70000)); v.push('"'); v.push(';');
        sh.case(th, &v, &[t(true), t(true), t(true)]);
        let mut v: Vec<char> = "/*".chars().collect(); v.extend(std::iter::repeat('\n').take(70000)); v.extend("*/ q".chars());
        sh.case(th, &v, &[t(true), t(true), t(true)]);
    }
    // 6. random texts, plain and with lookahead
    for i in 0..60000 * scale {
        if i & 63 == 0 && over() { return }
        let v = random_text(&mut g, frags);
        let ops = if i % 3 == 0 { random_ops(&mut g, 14) } else { reads(&mut g, 10) };
        sh.case(th, &v, &ops);
    }
}

fn parse_ops(v: &Value) -> Vec<Op> {
    v.as_array().map(|a| a.iter().filter_map(|x| x.as_str()).map(|s| {
        let f = s.contains("true");
        if s.starts_with("Read") { Op::Read(f) } else if s.starts_with("Peek") { Op::Peek(f) } else if s.starts_with("Skip") { Op::Skip(f) }
        else if s.starts_with("Repeek") { Op::Repeek } else if s.starts_with("Reread") { Op::Reread } else { Op::Unread }
    }).collect()).unwrap_or_default()
}
fn replay(path: &str) {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let v = v.find("witness").cloned().unwrap_or(v);
    let input: Vec<char> = v.find("input").and_then(|x| x.as_str()).unwrap_or("").chars().collect();
    let ops = v.find("ops").map(parse_ops).unwrap_or_default();
    match run_case(&input, &ops) {
        None => println!("no difference"),
        Some(m) => println!("violates {:?}\n input:    {}\n expected: {}\n actual:   {}", m.labels, show(&input, &ops), m.expected, m.actual),
    }
}

/// the inputs of known_findings.json: do they still go wrong?
fn known() {
    let one = |src: &str, op: bool| -> String {
        let src = src.to_string();
        std::panic::catch_unwind(move || match joker::lexer::Lexer::new(src.chars()).read_token(op) { Ok(t) => norm(&t.value), Err(e) => format!("error {:?}", e) }).unwrap_or("panic".to_string())
    };
    let mut v: Vec<Value> = Vec::new();
    let mut add = |id: &str, still: bool, actual: String| v.push(ObjectBuilder::new().insert("id", id).insert("still", still).insert("actual", actual).build());
    let a = one("'\\uD83D\\uDE00'", true);
    add("string-surrogates", a.starts_with("String(value=\"??\""), a);
    let a = one("0x200000000000011", true);
    add("radix-double-rounding", a.starts_with("Number(value=1.4411518807585587e17"), a);
    let a = one("/a/\\u0067", false);
    add("regexp-flag-escapes", a.starts_with("RegExp("), a);
    println!("{}", serde_json::to_string(&v).unwrap());
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let num = |i: usize, d: u64| a.get(i).and_then(|s| s.parse().ok()).unwrap_or(d);
    match a.get(1).map(|s| &s[..]) {
        Some("lex") => lex(num(2, 1), num(3, 1), Duration::from_secs(num(4, 60)), a.get(5).cloned()),
        Some("known") => known(),
        Some("unj") => unj::main(),
        Some("replay") => replay(&a[2]),
        _ => { eprintln!("usage: oracle lex SEED SCALE SECS | replay FILE"); std::process::exit(2) }
    }
}
