//! Inputs: sequences of token texts.
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Rng { Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 11 }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn p(&mut self, pc: usize) -> bool { self.below(100) < pc }
    pub fn pick<'a>(&mut self, xs: &[&'a str]) -> &'a str { xs[self.below(xs.len())] }
}

pub const TOKENS: &'static [&'static str] = &[
    "a", "b", "let", "of", "get", "set", "eval", "arguments", "static", "await", "yield", "target", "1", "'s'", "'use strict'", "/r/g",
    "(", ")", "[", "]", "{", "}", ".", "...", ";", ",", ":", "?", "=", "+=", "/=", "+", "-", "*", "/", "%", "++", "--", "!", "~", "<", ">>", "==", "&", "^", "|", "&&", "||",
    "in", "instanceof", "typeof", "void", "delete", "new", "this", "null", "true", "function", "var", "const", "if", "else", "for", "while", "do",
    "break", "continue", "return", "with", "switch", "case", "default", "throw", "try", "catch", "finally", "debugger", "import", "class", "\n",
];
pub const SHORT: &'static [&'static str] = &[
    "a", "let", "1", "'use strict'", "(", ")", "[", "]", "{", "}", ".", "...", ";", ",", ":", "?", "=", "+=", "+", "*", "/", "++", "!", "<", "||",
    "in", "of", "new", "this", "function", "var", "const", "if", "else", "for", "while", "do", "break", "continue", "return", "switch", "case", "default", "throw", "try", "catch", "get", "eval", "static", "\n",
];
pub const SEEDS: &'static [&'static str] = &[
    "new new X().y()", "new new a.b(c)[d](e)", "new new.target", "new a\n()", "new new new a()()", "new new new a()()()()", "new a.b.c", "new a[b](c).d(e)",
    "a = b ? c : d = e", "a ? b : c ? d : e", "a ? b ? c : d : e", "a = b = c", "a += b -= c", "a, b = c, d",
    "- - a", "typeof - a * b", "! a ++", "- a ++", "++ a . b", "-- a [ b ] ( c )", "++ a [ b ]", "delete a . b", "void 0 , a",
    "a - b - c", "a * b + c", "a + b * c", "a || b && c | d ^ e & f == g < h << i + j * k", "k * j + i << h < g == f & e ^ d | c && b || a",
    "a\n++b", "a\n++\nb", "a ++\nb", "a\n( b )", "a\n[ b ]", "a = b\n/ c /\nd", "a\n/b/\nc", "{ a\n}", "if ( a ) b ; else c", "if ( a ) if ( b ) c ; else d",
    "return", "throw\na", "throw a", "break", "continue", "for ( ; ; ) { break }", "while ( a ) continue", "do a\nwhile ( b ) c", "do ; while ( a ) b", "do a while ( b )",
    "a : for ( ; ; ) { continue a }", "a : { break a }", "a : { continue a }", "a : b : while ( c ) continue a", "a : a : b", "a : { a : b }", "a : { } a : { }", "a : while ( b ) { ( function ( ) { break a } ) }", "function f ( ) { break }",
    "switch ( a ) { case b : break ; default : c }", "switch ( a ) { default : default : }", "switch ( a ) { case b : continue }", "while ( a ) switch ( b ) { case c : continue }", "switch ( a ) { case b : function f ( ) { break } }",
    "function f ( ) { return }", "function f ( ) { return\na }", "function f ( ) { return a }", "function f ( ) { } return", "( function ( ) { return / a / } )",
    "try { } catch ( e ) { }", "try { } finally { }", "try { }", "try { } catch ( e ) { } finally { }", "try { } catch ( eval ) { }",
    "for ( var i = 0 , j = 1 ; i < j ; i ++ ) a", "for ( var i in a ) b", "for ( var i = 0 in a ) b", "for ( var i of a ) b", "for ( let i of a ) b", "for ( const i of a ) b", "for ( let i = 0 , j ; ; ) a", "for ( const i = 0 ; ; ) a", "for ( const i ; ; ) a",
    "for ( a in b ) c", "for ( a . b in c ) d", "for ( a of b ) c", "for ( [ a , b ] of c ) d", "for ( { a : b } in c ) d", "for ( a + b in c ) d", "for ( a in b , c ) d", "for ( a of b , c ) d", "for ( ( a in b ) ; ; ) c", "for ( a ( b in c ) ; ; ) d", "for ( a [ b in c ] ; ; ) d", "for ( var a = b ? c in d : e ; ; ) f",
    "for ( let in a ) b", "for ( let ; ; ) a", "for ( let = 1 ; ; ) a", "for ( let / 1 ; ; ) a", "for ( let of ; ; ) a", "for ( let a ; ; ) b", "for ( var a = { b : c in d } ; ; ) e", "for ( a = function ( ) { b in c } ; ; ) d", "for ( [ a in b ] ; ; ) c",
    "[ a , b ] = c", "[ a , ... b ] = c", "[ ... a , b ] = c", "{ } [ a ] = b", "( { a : b , c } = d )", "( { get a ( ) { } } = b )", "[ [ a ] , { b : c } ] = d", "[ a , , b ] = c", "[ ... [ a , b ] ] = c", "[ 1 ] = a", "a ( ) = b", "1 = a", "a ( ) ++", "++ a ( )", "[ a ] += b", "( a ) = b", "this = a", "[ a . b , c [ d ] ] = e", "new . target = a", "- a = b", "a + b = c",
    "[ , ]", "[ a , ]", "[ , a ]", "[ a , , b ]", "[ ... a ]", "f ( ... a , b )", "f ( a , )", "f ( )", "( { } )", "( { a } )", "( { a , b : c , } )", "( { if : a } )", "( { if } )", "( { 's' : a } )", "( { 's' } )", "( { 1 : a } )", "( { get } )", "( { get : a } )", "( { get ( ) { } } )", "( { get a ( ) { } , set a ( b ) { } } )", "( { set a ( ) { } } )", "( { * a ( ) { } } )", "( { a ( b ) { return b } } )", "( { get if ( ) { } } )", "( { get 's' ( ) { } , set 1 ( a ) { } } )",
    "function f ( a , b ) { }", "function f ( a , ... b ) { }", "function f ( ... a , b ) { }", "function f ( a , ) { }", "function * f ( ) { }", "( function * ( ) { } )", "( function f ( ) { } )", "function ( ) { }", "( function ( ) { } ) ( )",
    "'use strict' ; with ( a ) b", "'use strict'\nwith ( a ) b", "'use strict' + 1 ; with ( a ) b", "'use strict' . a ; with ( b ) c", "'use strict'\n/ a ; with ( b ) c", "'a' ; 'use strict' ; static", "a ; 'use strict' ; static", "function f ( ) { 'use strict' ; with ( a ) b }", "function f ( ) { 'use strict' } with ( a ) b", "function f ( ) { 'use strict' } static", "'use strict' ; function f ( ) { with ( a ) b }", "'use strict' ; var eval", "'use strict' ; function f ( eval ) { }", "'use strict' ; function arguments ( ) { }", "'use strict' ; ( function eval ( ) { } )", "'use strict' ; a . static", "'use strict' ; ( { static : a } )", "'use strict' ; ( { static } )", "'use strict' ; static : a", "'use strict' ; await", "'use module' ; await", "'use\\x20strict' ; static", "await", "var await", "eval = 1", "var eval", "( { set a ( eval ) { } } )", "let a", "let a = b , c", "let\na", "let = a", "let", "let . a", "const a = b", "const a", "if ( a ) let b", "if ( a ) const b = c", "if ( a ) function f ( ) { }", "a : function f ( ) { }", "a : let b", "yield", "implements",
    "/ a /", "a / b / c", "( a ) / b", "a ++ / b", "{ } / a /", "( { } ) / a", "if ( a ) / b /", "function f ( ) { } / a /", "( function ( ) { } / a )", "[ ] / a", "a [ / b / ]", "a = / b /", "typeof / a /", "return / a /", "this / a", "null / a", "new a / b", "x = a\n/ b", "a ? / b / : / c /", "do / a / ; while ( b ) / c /", "case / a / :",
    "import 'a'", "export var a", "export function f ( ) { }", "debugger", "debugger a", "debugger\na", ";", "", "}", "a }", "( a", "a b", "var", "var a b", "var a = ", "var a , ", "var [ a ] = b", "function f ( [ a ] ) { }", "class A { }", "a => b",
];

pub struct Gen<'a> { pub g: &'a mut Rng, pub out: Vec<String>, fuel: i32, labels: Vec<String>, fun: bool, iter: bool, sw: bool, noin: bool }
impl<'a> Gen<'a> {
    pub fn program(g: &'a mut Rng, fuel: i32) -> Vec<String> {
        let mut x = Gen { g, out: vec![], fuel, labels: vec![], fun: false, iter: false, sw: false, noin: false };
        x.body();
        x.out
    }
    fn t(&mut self, s: &str) { self.out.push(s.to_string()) }

    /// programs about one thing, denser in it than `program` makes them
    pub fn focus(g: &'a mut Rng, kind: usize, fuel: i32) -> Vec<String> {
        let mut x = Gen { g, out: vec![], fuel, labels: vec![], fun: false, iter: false, sw: false, noin: false };
        match kind {
            0 => for _ in 0..1 + x.g.below(3) { x.jump(4) },
            1 => x.mode(3),
            2 => x.pairs(),
            3 => x.ops(),
            4 => x.targets(),
            _ => x.news(),
        }
        x.out
    }
    // labels, loops, switches, functions and jumps
    fn jump(&mut self, d: usize) {
        self.fuel -= 1;
        if d == 0 || self.fuel < 0 || self.g.p(30) {
            match self.g.below(8) {
                0 | 1 | 2 => { let l = self.g.pick(&["l", "m", "n", "o"]); self.t("break"); self.t(l) }
                3 | 4 | 5 => { let l = self.g.pick(&["l", "m", "n", "o"]); self.t("continue"); self.t(l) }
                6 => { let k = self.g.pick(&["break", "continue", "return"]); self.t(k) }
                _ => self.t("a"),
            }
            return self.t(";");
        }
        match self.g.below(16) {
            0 | 1 | 2 | 3 | 4 => {
                let n = 1 + self.g.below(4);
                let o = self.g.below(4);
                for i in 0..n { let l = if self.g.p(90) { ["l", "m", "n", "o"][(o + i) % 4] } else { "l" }; self.t(l); self.t(":") }
                self.jump(d - 1)
            }
            5 => { self.t("while"); self.t("("); self.t("a"); self.t(")"); self.jump(d - 1) }
            6 => { self.t("do"); self.jump(d - 1); self.t("while"); self.t("("); self.t("a"); self.t(")"); self.t(";") }
            7 => { let h = self.g.pick(&["for ( ; ; )", "for ( a in b )", "for ( a of b )", "for ( var a in b )", "for ( var a of b )", "for ( const a of b )", "for ( let a in b )", "for ( let a ; ; )", "for ( var a = 1 ; ; )"]); self.t(h); self.jump(d - 1) }
            8 | 9 => { self.t("{"); for _ in 0..self.g.below(4) { self.jump(d - 1) } self.t("}") }
            10 => { self.t("if"); self.t("("); self.t("a"); self.t(")"); self.jump(d - 1); if self.g.p(40) { self.t("else"); self.jump(d - 1) } }
            11 | 12 => {
                self.t("switch"); self.t("("); self.t("a"); self.t(")"); self.t("{");
                for _ in 0..self.g.below(6) {
                    if self.g.p(70) { self.t("case"); self.t("b") } else { self.t("default") }
                    self.t(":");
                    for _ in 0..self.g.below(3) { if self.g.p(60) { self.t("a"); self.t(";") } else { self.jump(d - 1) } }
                }
                self.t("}")
            }
            13 => {
                let h = self.g.pick(&["function f ( ) {", "( function ( ) {", "a = { get b ( ) {", "a = { set b ( c ) {", "a = { b ( ) {"]);
                self.t(h);
                for _ in 0..1 + self.g.below(2) { self.jump(d - 1) }
                self.t(match h.split(' ').next() { Some("function") => "}", Some("(") => "} ) ;", _ => "} } ;" })
            }
            14 => { self.t("try"); self.t("{"); self.jump(d - 1); self.t("}"); if self.g.p(60) { self.t("catch"); self.t("("); self.t("e"); self.t(")"); self.t("{"); self.jump(d - 1); self.t("}") } if self.g.p(60) { self.t("finally"); self.t("{"); self.jump(d - 1); self.t("}") } }
            _ => { self.t("with"); self.t("("); self.t("a"); self.t(")"); self.jump(d - 1) }
        }
    }
    fn word(&mut self) {
        let w = if self.g.p(55) { self.g.pick(&["a", "b", "c"]) } else {
            self.g.pick(&["let", "static", "yield", "implements", "interface", "package", "private", "protected", "public", "await", "eval", "arguments",
                "st\\u0061tic", "\\u0061wait", "ev\\u{61}l", "implement\\u0073", "yiel\\u0064", "argument\\u0073", "l\\u0065t", "async", "of", "target"]) };
        self.t(w)
    }
    // directives at any depth and what they forbid
    fn mode(&mut self, d: usize) {
        for _ in 0..self.g.below(4) {
            let s = self.g.pick(&["'use strict'", "\"use strict\"", "'a'", "'use stric'", "'use strict '", "'use\\x20strict'", "'use module'", "''", "'use strict' . a", "'a' + b"]);
            self.t(s);
            let e = if self.g.p(70) { ";" } else { "\n" };
            self.t(e)
        }
        for _ in 0..1 + self.g.below(3) {
            self.fuel -= 1;
            if self.fuel < 0 { return }
            match self.g.below(18) {
                0 => { self.t("with"); self.t("("); self.word(); self.t(")"); self.word(); self.t(";") }
                1 => { let k = self.g.pick(&["var", "let", "const"]); self.t(k); self.word(); self.t("="); self.word(); if self.g.p(30) { self.t(","); self.word(); self.t("="); self.t("1") } self.t(";") }
                2 => { self.word(); self.t(":"); self.t(";") }
                3 => { self.t("for"); self.t("("); let k = self.g.pick(&["var", "let", "const", ""]); self.t(k); self.word(); let o = self.g.pick(&["in", "of"]); self.t(o); self.word(); self.t(")"); self.word(); self.t(";") }
                4 => { self.t("try"); self.t("{"); self.t("}"); self.t("catch"); self.t("("); self.word(); self.t(")"); self.t("{"); self.t("}") }
                5 => { self.t("a"); self.t("="); self.t("{"); self.word(); self.t(","); self.word(); self.t(":"); self.word(); self.t("}"); self.t(";") }
                6 => { self.t("a"); self.t("."); self.word(); self.t(";") }
                7 => { self.t("["); self.word(); self.t(","); self.t("..."); self.word(); self.t("]"); self.t("="); self.t("a"); self.t(";") }
                8 => { self.t("for"); self.t("("); self.t("var"); self.word(); self.t("="); self.t("1"); self.t(";"); self.word(); self.t(";"); self.t(")"); self.word(); self.t(";") }
                9 | 10 if d > 0 => { self.t("function"); self.word(); self.params(); self.t("{"); self.mode(d - 1); self.t("}") }
                11 | 12 if d > 0 => { self.t("a"); self.t("="); self.t("function"); if self.g.p(50) { self.word() } self.params(); self.t("{"); self.mode(d - 1); self.t("}"); self.t(";") }
                13 if d > 0 => { self.t("a"); self.t("="); self.t("{"); self.t("set"); self.word(); self.t("("); self.word(); self.t(")"); self.t("{"); self.mode(d - 1); self.t("}"); self.t("}"); self.t(";") }
                14 if d > 0 => { self.t("a"); self.t("="); self.t("{"); self.t("get"); self.word(); self.t("("); self.t(")"); self.t("{"); self.mode(d - 1); self.t("}"); self.t("}"); self.t(";") }
                15 if d > 0 => { self.t("a"); self.t("="); self.t("{"); self.word(); self.params(); self.t("{"); self.mode(d - 1); self.t("}"); self.t("}"); self.t(";") }
                16 if d > 0 => { self.t("{"); self.mode(d - 1); self.t("}") }
                _ => { self.word(); self.t(";") }
            }
        }
    }
    fn params(&mut self) { self.t("("); self.word(); if self.g.p(40) { self.t(","); self.word() } if self.g.p(30) { self.t(","); self.t("..."); self.word() } if self.g.p(6) { self.t(",") } self.t(")") }
    // a statement's end, a line break or none, and any token
    fn pairs(&mut self) {
        let e = |g: &mut Rng| g.pick(&["a", "b ( )", "a ++", "a . b", "[ a ]", "1", "'s'", "this", "function ( ) { }", "{ a : b }", "a = b", "new A", "new A ( )", "a ? b : c", "- a", "/ r /", "typeof a", "a , b"]);
        let h = self.g.pick(&["%", "var a = %", "var a", "var a , b = %", "let a = %", "let a", "const a = %", "const a = b , c = %", "return %", "return", "throw %", "break", "continue", "break l", "continue l", "debugger", "do a ; while ( % )", "do { } while ( % )",
            "'use strict'", "'a'", "if ( a ) %", "if ( a ) % ; else %", "while ( a ) %", "for ( ; ; ) %", "l : %", "with ( a ) %", "case"]);
        let mut s = String::new();
        for c in h.chars() { if c == '%' { s.push_str(e(self.g)) } else { s.push(c) } }
        let w = self.g.below(5);
        if w == 1 { self.t("{") } else if w == 2 { self.t("function f ( ) {") } else if w == 3 { self.t("l : for ( ; ; ) {") } else if w == 4 { self.t("function f ( ) { l : while ( a ) {") }
        for x in s.split(' ') { self.t(x); if self.g.p(6) { self.t("\n") } }
        if self.g.p(55) { self.t("\n") } else if self.g.p(15) { self.t(";") }
        for _ in 0..self.g.below(3) { let x = self.g.pick(TOKENS); self.t(x) }
        if self.g.p(40) { let x = e(self.g); self.t(x) }
        match w { 0 => {} 4 => { self.t("}"); self.t("}") } _ => self.t("}") }
    }
    fn ops(&mut self) {
        if self.g.p(25) { self.t("a"); self.t("=") }
        let f = self.g.p(15);
        if f { self.t("for"); self.t("(") }
        for i in 0..2 + self.g.below(8) {
            if i > 0 {
                let o = self.g.pick(&["+", "-", "*", "/", "%", "<<", ">>", ">>>", "<", ">", "<=", ">=", "==", "!=", "===", "!==", "&", "|", "^", "&&", "||", "in", "instanceof", "?"]);
                if o == "?" { self.t("?"); self.t("p"); self.t(":") } else if !(f && o == "in") || self.g.p(5) { self.t(o) } else { self.t("<") }
            }
            if self.g.p(15) { let o = self.g.pick(&["-", "+", "!", "typeof", "--", "delete"]); self.t(o) }
            let x = self.g.pick(&["a", "b", "c", "d", "e", "f ( )", "( g )", "( a in b )", "h [ a in b ]", "i . j", "new k", "l ++", "1", "/ m /", "{ }", "{ n : a in b }", "[ a in b ]"]);
            self.t(x);
        }
        if f { self.t(";"); self.t(";"); self.t(")") }
        self.t(";");
    }
    fn targets(&mut self) {
        let f = self.g.below(5);
        if f == 1 { self.t("for"); self.t("(") }
        if f == 2 { let o = self.g.pick(&["++", "--"]); self.t(o) }
        if self.g.p(15) { self.t("(") }
        self.fuel = 8;
        self.target(3);
        if self.g.p(30) { if let Some(i) = self.out.iter().rposition(|x| x == "," || x == "[" || x == ":") { let x = self.g.pick(&["... a", "a = b", "a + b", "( a )", "f ( )", "- a", "this", "get b ( ) { }", "( [ a ] )", "( { a } )", "... [ a ]", "... a , b", "new a", "new a . b", "new . target", "f ( ) . c", "a ++", "{ }", "[ ]", ""]); self.out.insert(i + 1, x.to_string()) } }
        if self.g.p(10) { self.t(")") }
        match f { 1 => { if self.g.p(12) { self.t("="); self.t("x") } let o = self.g.pick(&["in", "of", "in", "of", ";"]); self.t(o); self.t("x"); self.t(")"); self.t("y"); self.t(";") } 2 => self.t(";"), 3 => { let o = self.g.pick(&["++", "--"]); self.t(o); self.t(";") } _ => { let o = self.g.pick(&["=", "=", "=", "+=", "/=", ">>>="]); self.t(o); self.t("x"); self.t(";") } }
        if self.out[0] == "{" && f != 1 { self.out.insert(0, "(".to_string()); self.out.pop(); self.t(")") }
    }
    fn news(&mut self) {
        for _ in 0..self.g.below(5) { self.t("new") }
        let x = self.g.pick(&["a", "( a )", "this", ". target", "function ( ) { }", "{ }", "[ ]", "/ r /"]);
        self.t(x);
        for _ in 0..self.g.below(6) { let x = self.g.pick(&["( )", "( a )", "( ... a , b )", ". b", ". new", "[ c ]", "[ c in d ]", "++", "\n"]); self.t(x) }
        self.t(";");
    }
    fn body(&mut self) {
        while self.g.p(12) { let d = self.g.pick(&["'use strict'", "'use strict'", "'d'", "\"use strict\"", "'use module'"]); self.t(d); self.end() }
        let n = 1 + self.g.below(3);
        for _ in 0..n { self.item() }
    }
    fn end(&mut self) { if self.g.p(55) { self.t(";") } else if self.g.p(85) { self.t("\n") } }
    fn idn(&mut self) { let s = if self.g.p(85) { self.g.pick(&["a", "b", "c", "x", "y"]) } else { self.g.pick(&["let", "of", "get", "set", "eval", "arguments", "static", "await", "yield", "target", "\\u0061", "caf\u{e9}"]) }; self.t(s) }
    fn block(&mut self) { self.t("{"); for _ in 0..self.g.below(3) { self.item() } self.t("}") }
    fn item(&mut self) {
        match self.g.below(12) {
            0 => { self.t("function"); if self.g.p(20) { self.t("*") } self.idn(); self.fun_rest() }
            1 => { self.t("let"); self.dtors(); self.end() }
            2 => { self.t("const"); self.cdtors(); self.end() }
            _ => self.stmt(),
        }
    }
    fn dtors(&mut self) { loop { self.idn(); if self.g.p(60) { self.t("="); self.assign() } if self.g.p(75) { return } self.t(",") } }
    fn cdtors(&mut self) { loop { self.idn(); self.t("="); self.assign(); if self.g.p(80) { return } self.t(",") } }
    fn in_loop(&mut self) { let o = self.iter; self.iter = true; self.stmt(); self.iter = o }
    fn stmt(&mut self) {
        self.fuel -= 1;
        if self.fuel < 0 { self.t("a"); self.t(";"); return }
        match self.g.below(26) {
            0 => self.block(),
            1 => { self.t("var"); self.dtors(); self.end() }
            2 => self.t(";"),
            3 => { self.t("if"); self.paren(); self.stmt(); if self.g.p(50) { self.t("else"); self.stmt() } }
            4 => { self.t("while"); self.paren(); self.in_loop() }
            5 => { self.t("do"); self.in_loop(); self.t("while"); self.paren(); if self.g.p(50) { self.end() } }
            6 | 7 | 8 | 9 => self.for_stmt(),
            10 => { if self.iter || self.g.p(8) { self.t("continue"); self.end() } else { self.expr_stmt() } }
            11 => { if self.iter || self.sw || self.g.p(8) { self.t("break"); self.end() } else { self.expr_stmt() } }
            12 => { if !self.labels.is_empty() { let s = self.g.pick(&["break", "continue", "break"]); self.t(s); let i = self.g.below(self.labels.len()); let l = self.labels[i].clone(); self.t(&l); self.end() } else { self.expr_stmt() } }
            13 => { if self.fun || self.g.p(8) { self.t("return"); if self.g.p(60) { self.expr() } self.end() } else { self.expr_stmt() } }
            14 => { if self.g.p(40) { self.t("with"); self.paren(); self.stmt() } else { self.expr_stmt() } }
            15 => {
                self.t("switch"); self.paren(); self.t("{");
                let o = self.sw; self.sw = true;
                for _ in 0..self.g.below(4) { if self.g.p(75) { self.t("case"); self.expr() } else { self.t("default") } self.t(":"); for _ in 0..self.g.below(3) { self.item() } }
                self.sw = o; self.t("}");
            }
            16 => { self.t("throw"); self.expr(); self.end() }
            17 => { self.t("try"); self.block(); if self.g.p(70) { self.t("catch"); self.t("("); self.idn(); self.t(")"); self.block(); } if self.g.p(50) { self.t("finally"); self.block() } }
            18 => { let s = self.g.pick(&["l", "m", "n"]); self.t(s); self.t(":"); self.labels.push(s.to_string()); self.stmt(); self.labels.pop(); }
            19 => { let s = self.g.pick(&["l", "m", "n"]); self.t(s); self.t(":"); self.labels.push(s.to_string()); if self.g.p(50) { self.t("for"); self.t("("); self.t(";"); self.t(";"); self.t(")") } else { self.t("while"); self.paren() } self.in_loop(); self.labels.pop(); }
            20 => { self.t("debugger"); self.end() }
            _ => self.expr_stmt(),
        }
    }
    fn expr_stmt(&mut self) { self.expr(); self.end() }
    fn paren(&mut self) { self.t("("); self.expr_in(); self.t(")") }
    fn expr_in(&mut self) { let o = self.noin; self.noin = false; self.expr(); self.noin = o }
    fn assign_in(&mut self) { let o = self.noin; self.noin = false; self.assign(); self.noin = o }
    fn for_stmt(&mut self) {
        self.t("for"); self.t("(");
        let k = self.g.pick(&["var", "let", "const", ""]);
        match self.g.below(3) {
            0 => {
                let o = self.noin; self.noin = !self.g.p(4);
                if k != "" { self.t(k); if k == "const" { self.cdtors() } else { self.dtors() } } else if self.g.p(70) { self.expr() }
                self.noin = o;
                self.t(";"); if self.g.p(60) { self.expr() } self.t(";"); if self.g.p(60) { self.expr() }
            }
            1 => { if k != "" { self.t(k); self.idn(); if k == "var" && self.g.p(15) { self.t("="); let o = self.noin; self.noin = true; self.assign(); self.noin = o } } else { self.target(2) } self.t("in"); self.expr() }
            _ => { if k != "" { self.t(k); self.idn() } else { self.target(2) } self.t("of"); self.assign() }
        }
        self.t(")");
        self.in_loop();
    }
    fn fun_rest(&mut self) {
        self.t("(");
        for _ in 0..self.g.below(3) { self.idn(); self.t(",") }
        if self.g.p(15) { self.t("..."); self.idn() } else if self.g.p(90) { self.idn() }
        self.t(")");
        self.fbody();
    }
    fn fbody(&mut self) {
        self.t("{");
        let o = (std::mem::replace(&mut self.labels, vec![]), self.fun, self.iter, self.sw, self.noin);
        self.fun = true; self.iter = false; self.sw = false; self.noin = false;
        if self.fuel > 0 { self.body() }
        self.labels = o.0; self.fun = o.1; self.iter = o.2; self.sw = o.3; self.noin = o.4;
        self.t("}");
    }
    fn expr(&mut self) { self.assign(); while self.g.p(6) { self.t(","); self.assign() } }
    fn target(&mut self, d: usize) {
        match self.g.below(if d > 0 { 8 } else { 4 }) {
            0 | 1 => self.idn(),
            2 => { self.postfix_base(); self.t("."); self.idn() }
            3 => { self.postfix_base(); self.t("["); self.expr_in(); self.t("]") }
            4 | 5 => {
                self.t("[");
                for _ in 0..self.g.below(3) { if self.g.p(15) { self.t(",") } else { self.target(d - 1); self.t(",") } }
                if self.g.p(25) { self.t("..."); self.target(d - 1); if self.g.p(5) { self.t(",") } }
                self.t("]");
            }
            _ => {
                self.t("{");
                for _ in 0..self.g.below(3) { if self.g.p(30) { self.idn() } else { self.key(); self.t(":"); self.target(d - 1) } self.t(",") }
                self.t("}");
            }
        }
    }
    fn assign(&mut self) {
        self.fuel -= 1;
        if self.g.p(14) {
            if self.g.p(60) { self.target(2); self.t("=") } else { self.target(0); let o = self.g.pick(&["+=", "-=", "*=", "/=", "%=", "<<=", ">>=", ">>>=", "&=", "|=", "^="]); self.t(o) }
            return self.assign();
        }
        self.bin();
        if self.fuel > 0 && self.g.p(8) { self.t("?"); self.assign_in(); self.t(":"); self.assign() }
    }
    fn bin(&mut self) {
        self.un();
        while self.fuel > 0 && self.g.p(28) {
            let o = loop {
                let o = self.g.pick(&["+", "-", "*", "/", "%", "<<", ">>", ">>>", "<", ">", "<=", ">=", "==", "!=", "===", "!==", "&", "|", "^", "&&", "||", "in", "instanceof"]);
                if o != "in" || !self.noin { break o }
            };
            self.t(o);
            self.un();
        }
    }
    fn un(&mut self) {
        self.fuel -= 1;
        if self.g.p(14) { let o = self.g.pick(&["+", "-", "!", "~", "typeof", "void", "delete"]); self.t(o); return self.un() }
        if self.g.p(4) { let o = self.g.pick(&["++", "--"]); self.t(o); return self.target(0) }
        if self.g.p(5) { self.target(0); let o = self.g.pick(&["++", "--"]); return self.t(o) }
        self.postfix_base();
    }
    fn args(&mut self) {
        self.t("(");
        let n = self.g.below(3);
        for i in 0..n { if i > 0 { self.t(",") } if self.g.p(12) { self.t("...") } self.assign_in() }
        self.t(")");
    }
    fn postfix_base(&mut self) {
        self.fuel -= 1;
        let n = if self.g.p(12) { 1 + self.g.below(3) } else { 0 };
        for _ in 0..n { self.t("new") }
        if n > 0 && self.g.p(8) { self.t("."); self.t("target") } else { self.primary() }
        while self.fuel > 0 && self.g.p(30) {
            match self.g.below(3) {
                0 => { self.t("."); if self.g.p(20) { let k = self.g.pick(&["if", "new", "class", "static"]); self.t(k) } else { self.idn() } }
                1 => { self.t("["); self.expr_in(); self.t("]") }
                _ => self.args(),
            }
        }
    }
    fn key(&mut self) { if self.g.p(60) { self.idn() } else { let k = self.g.pick(&["if", "'k'", "1", "0x1f", "get", "set", "null", "'use strict'"]); self.t(k) } }
    fn primary(&mut self) {
        if self.fuel < 0 { return self.idn() }
        match self.g.below(16) {
            0 => { let l = self.g.pick(&["this", "null", "true", "false"]); self.t(l) }
            1 => { let l = self.g.pick(&["1", "0x1F", "1.5e3", ".5", "017"]); self.t(l) }
            2 => { let l = self.g.pick(&["'s'", "\"t\"", "'\\n'"]); self.t(l) }
            3 => { let l = self.g.pick(&["/r/", "/[/]/g", "/=/i"]); self.t(l) }
            4 => {
                self.t("[");
                for _ in 0..self.g.below(4) { if self.g.p(20) { self.t(",") } else { if self.g.p(15) { self.t("...") } self.assign_in(); self.t(",") } }
                if self.g.p(50) { self.assign_in() }
                self.t("]");
            }
            5 | 6 => {
                if self.g.p(60) { self.t("(") ; self.obj(); self.t(")") } else { self.obj() }
            }
            7 => { self.t("function"); if self.g.p(15) { self.t("*") } if self.g.p(50) { self.idn() } self.fun_rest() }
            8 => { self.t("("); self.expr_in(); self.t(")") }
            _ => self.idn(),
        }
    }
    fn obj(&mut self) {
        self.t("{");
        for _ in 0..self.g.below(4) {
            match self.g.below(8) {
                0 => { self.t("get"); self.key(); self.t("("); self.t(")"); self.fbody() }
                1 => { self.t("set"); self.key(); self.t("("); self.idn(); self.t(")"); self.fbody() }
                2 => { if self.g.p(30) { self.t("*") } self.key(); self.fun_rest() }
                3 => self.idn(),
                _ => { self.key(); self.t(":"); self.assign_in() }
            }
            self.t(",");
        }
        if self.g.p(50) { if let Some(l) = self.out.last() { if l == "," { self.out.pop(); } } }
        self.t("}");
    }
}

/// join token texts: usually a blank, sometimes a line break or a comment
pub fn join(g: &mut Rng, v: &[String], nl: usize) -> String {
    let mut s = String::new();
    for t in v { s.push_str(t); s.push_str(if g.below(100) < nl { "\n" } else if g.p(2) { "/* \n */" } else if g.p(2) { "/* */" } else { " " }) }
    s
}
pub fn mutate(g: &mut Rng, v: &mut Vec<String>) {
    for _ in 0..1 + g.below(2) {
        if v.is_empty() { v.push("a".to_string()) }
        let i = g.below(v.len());
        match g.below(5) {
            0 => { v.remove(i); }
            1 => { let t = g.pick(TOKENS); v.insert(i, t.to_string()) }
            2 => { let t = g.pick(TOKENS); v[i] = t.to_string() }
            3 => { let j = g.below(v.len()); v.swap(i, j) }
            _ => { let t = v[i].clone(); v.insert(i, t) }
        }
    }
}
