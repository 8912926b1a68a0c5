//! Inputs: exhaustive short combinations, every character, and seeded random texts.
use crate::lexcheck::Op;
use crate::reflex as r;

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn chance(&mut self, a: usize, b: usize) -> bool { self.below(b) < a }
}

/// single characters for exhaustive enumeration
pub const SMALL: &[char] = &[
    ' ', '\n', '\r', '\t', '\u{2028}', '/', '*', '<', '!', '-', '>', '=', '+', '&', '.', '\\', '"', '\'', '[', ']', '{', '}', 'u', 'x', 'X', 'o', 'b', 'e', 'n', 'a', '0', '1', '7', '8', '9', '_', ';', 'F', '\u{e9}', '#',
];
pub fn fragments() -> Vec<String> {
    let mut v: Vec<String> = [
        " ", "\t", "\n", "\r", "\r\n", "\n\r", "\u{2028}", "\u{2029}", "\u{a0}", "\u{feff}", "\u{2003}", "\u{2007}", "\u{3000}", "\u{b}", "\u{c}", "\u{85}", "\u{180e}", "\u{200b}", "\u{200c}", "\u{200d}",
        "//", "/*", "*/", "<!--", "-->", "<!-", "<!", "->", "/**/", "/*\n*/", "/*\r\n*/", "/*\u{2028}*/", "// x\n", "<!-- x\n", "--> x\n", "/* a */", "/*/", "**/",
        "\"", "'", "\"a\"", "'b'", "\"\\n\"", "'\\", "\\\n", "\\\r\n", "\\\r", "\\\u{2028}", "\\x41", "\\x4", "\\xg", "\\x", "\\xFf", "\\u0041", "\\u004", "\\u00e9", "\\u{41}", "\\u{1F600}", "\\u{10FFFF}", "\\u{110000}", "\\u{}", "\\u{4", "\\u{000000041}", "\\u{FFFFFFFFFF}", "\\u{100000041}", "\\uFFFF", "\\u", "\\0", "\\7", "\\77", "\\377", "\\400", "\\477", "\\78", "\\8", "\\9", "\\1a", "\\01", "\\012", "\\b", "\\v", "\\f", "\\t", "\\r", "\\n", "\\'", "\\\"", "\\\\", "\\a", "\\z",
        "/", "/a/", "/a/g", "/[/]/", "/\\//", "/[\\]]/im", "/[", "/a", "/=/", "/=", "/\\", "/[\n", "/a\n", "/]/", "/[a/", "/(?:)/y",
        "0", "00", "01", "07", "08", "09", "010", "019", "0x", "0X", "0xF", "0Xff", "0xg", "0o7", "0O17", "0o8", "0o", "0b1", "0B10", "0b2", "0b", "1", "12", "9", "1.", ".5", "1.5", "0.5", "00.5", "08.5", "01.5", "1e5", "1E5", "1e+5", "1e-5", "1e", "1e+", "1.e5", ".5e1", ".5E-2", ".e", "1a", "1_", "1$", "1\\", "3in", "0x1g", "07a", "078", "0777", "1..", "1.a", "5.", "1e400", "1e-400", "9007199254740993", "0x1fffffffffffff", "0x20000000000001", "0b11111111111111111111111111111111", "037777777777", "123456789012345678901234567890", "0.1", "4.9e-324", "2.2250738585072011e-308", "1.7976931348623157e308",
        "a", "b", "$", "_", "x1", "aB", "\u{e9}", "\u{3b1}", "\u{4e2d}", "a\u{300}", "\u{300}", "a\u{200c}", "\\u0061", "\\u{61}", "a\\u0062", "\\u0031", "a\\u0031", "l\\u0065t", "v\\u0061r", "\\u0020", "a\\u0020", "\\u{200c}", "a\\u{200c}", "a\\", "\\a", "\u{1d49c}", "\\u{1d49c}", "\u{2118}", "\u{b7}", "a\u{b7}", "#", "@", "`", "\u{1F600}", "\u{0}", "\u{7f}", "\\u{ZZ}", "\\u{2F}", "i\\u006e", "\\u2028", "a\\u00b7",
    ].iter().map(|s| s.to_string()).collect();
    v.extend(r::punctuators().iter().map(|s| s.to_string()));
    v.extend(r::words().iter().map(|s| s.to_string()));
    v
}
pub fn chars(s: &str) -> Vec<char> { s.chars().collect() }

fn some_char(g: &mut Rng) -> char {
    match g.below(12) {
        0..=4 => char::from_u32(32 + g.below(95) as u32).unwrap(),
        5 => char::from_u32(g.below(256) as u32).unwrap(),
        6 => SMALL[g.below(SMALL.len())],
        7 => char::from_u32(g.below(0x3100) as u32).unwrap(),
        8 => ['\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{feff}', '\u{2027}', '\u{202a}', '\u{1680}', '\u{205f}', '\u{2fff}', '\u{3001}'][g.below(12)],
        9 => ['\n', '\r', '\u{2028}', '\u{2029}'][g.below(4)],
        _ => loop { if let Some(c) = char::from_u32(g.below(0x110000) as u32) { break c } },
    }
}
fn digits(g: &mut Rng, set: &str, max: usize, out: &mut String) {
    let v: Vec<char> = set.chars().collect();
    for _ in 0..g.below(max + 1) { out.push(v[g.below(v.len())]) }
}
fn literal(g: &mut Rng, frags: &[String], out: &mut String) {
    match g.below(9) {
        0 | 1 => {
            let q = if g.chance(1, 2) { '"' } else { '\'' };
            out.push(q);
            for _ in 0..g.below(6) { piece(g, frags, out, q) }
            if !g.chance(1, 12) { out.push(q) }
        }
        2 => {
            out.push('/');
            for _ in 0..g.below(6) {
                match g.below(6) { 0 => { out.push('\\'); out.push(some_char(g)) } 1 => { out.push('['); for _ in 0..g.below(4) { out.push(some_char(g)) } if !g.chance(1, 8) { out.push(']') } } _ => out.push(some_char(g)) }
            }
            if !g.chance(1, 12) { out.push('/') }
            digits(g, "gimyus", 3, out);
        }
        3 => { out.push('0'); out.push(['x', 'X'][g.below(2)]); digits(g, "0123456789abcdefABCDEF", 18, out) }
        4 => { out.push('0'); out.push(['o', 'O', 'b', 'B'][g.below(4)]); digits(g, "01", 60, out); digits(g, "01234567", 3, out) }
        5 => { out.push('0'); digits(g, "01234567", 25, out); digits(g, "0123456789", 1, out) }
        6 => {
            digits(g, "0123456789", 22, out);
            if g.chance(1, 2) { out.push('.'); digits(g, "0123456789", 22, out) }
            if g.chance(1, 2) { out.push(['e', 'E'][g.below(2)]); if g.chance(1, 2) { out.push(['+', '-'][g.below(2)]) } digits(g, "0123456789", 3, out) }
        }
        7 => {
            let w = r::words();
            let t: Vec<char> = w[g.below(w.len())].chars().collect();
            let k = g.below(t.len());
            for (i, c) in t.iter().enumerate() {
                if i == k && g.chance(1, 2) { match g.below(3) { 0 => out.push_str(&format!("\\u{:04x}", *c as u32)), 1 => out.push_str(&format!("\\u{{{:x}}}", *c as u32)), _ => out.push(some_char(g)) } } else { out.push(*c) }
            }
            if g.chance(1, 4) { out.push(some_char(g)) }
        }
        _ => { out.push(if g.chance(1, 2) { '$' } else { 'q' }); for _ in 0..g.below(5) { out.push(some_char(g)) } }
    }
}
fn piece(g: &mut Rng, frags: &[String], out: &mut String, q: char) {
    match g.below(10) {
        0 => { out.push('\\'); digits(g, "01234567", 4, out) }
        1 => { out.push_str("\\x"); digits(g, "0123456789abcdefABCDEF", 2, out) }
        2 => { out.push_str("\\u"); digits(g, "0123456789abcdefABCDEF", 4, out) }
        3 => { out.push_str("\\u{"); digits(g, "0123456789abcdefABCDEF", 9, out); if !g.chance(1, 9) { out.push('}') } }
        4 => { out.push('\\'); out.push(some_char(g)) }
        5 => out.push_str(["\\\r\n", "\\\n", "\\\r", "\\\u{2028}", "\\\u{2029}"][g.below(5)]),
        6 => { out.push('\\'); out.push(q) }
        7 => out.push_str(&frags[g.below(frags.len())]),
        _ => { let c = some_char(g); if c != q && !r::nl(c) || g.chance(1, 9) { out.push(c) } }
    }
}
pub fn random_text(g: &mut Rng, frags: &[String]) -> Vec<char> {
    let mut s = String::new();
    for _ in 0..1 + g.below(9) {
        match g.below(8) {
            0 | 1 => literal(g, frags, &mut s),
            2 => s.push(some_char(g)),
            _ => s.push_str(&frags[g.below(frags.len())]),
        }
        if g.chance(1, 4) { s.push_str([" ", "\n", "\r\n", "  ", "\u{a0}", "\u{2029}"][g.below(6)]) }
    }
    chars(&s)
}
pub fn random_ops(g: &mut Rng, n: usize) -> Vec<Op> {
    let mut v = Vec::new();
    for _ in 0..n {
        let f = g.chance(1, 2);
        v.push(match g.below(10) { 0 | 1 | 2 => Op::Read(f), 3 | 4 => Op::Peek(f), 5 => Op::Skip(f), 6 => Op::Repeek, 7 => Op::Reread, _ => Op::Unread });
    }
    v
}
pub fn reads(g: &mut Rng, n: usize) -> Vec<Op> { (0..n).map(|_| Op::Read(g.chance(2, 3))).collect() }
