// ---------------------------------------------------------------- token comparison
uninterp spec fn lit_eq(a: TokenData, b: TokenData) -> bool;
spec fn is_lit(t: TokenData) -> bool { t is Number || t is String || t is RegExp }
spec fn td_eq(a: TokenData, b: TokenData) -> bool {
    if is_lit(a) { lit_eq(a, b) && is_lit(b) } else { a == b }
}
impl PartialEq for TokenData {
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> (r: bool) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for TokenData {
    closed spec fn obeys_eq_spec() -> bool { true }
    closed spec fn eq_spec(&self, other: &Self) -> bool { td_eq(*self, *other) }
}
impl Clone for Name { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Id { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for StringLiteral { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T> Clone for Patt<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T> Clone for CompoundPatt<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }

#[verifier::external_body]
fn vp_replace<T>(x: &mut T, v: T) -> (r: T)
    ensures r == *old(x), *final(x) == v
{ std::mem::replace(x, v) }

// ---------------------------------------------------------------- parser states
spec fn fu<I>(p: Parser<I>) -> nat {
    let n = hend(p.lexer.h()) as int;
    if p.lexer.pos() < n { (n - p.lexer.pos()) as nat } else { 0 }
}
spec fn cur<I>(p: Parser<I>) -> TokenData { tv(p.lexer.h(), p.lexer.pos()) }
spec fn nxt<I>(p: Parser<I>) -> TokenData { tv(p.lexer.h(), p.lexer.pos() + 1) }
spec fn dec1(q: nat) -> nat { if q > 0 { (q - 1) as nat } else { 0 } }
spec fn inc1(q: nat) -> nat { if q > 0 { q } else { 1 } }

// everything but the lexer is as it was
spec fn fr<I>(a: Parser<I>, b: Parser<I>) -> bool {
    b.lexer.h() == a.lexer.h() && b.validate == a.validate && b.goal == a.goal && b.deferred == a.deferred && b.context == a.context
}
// one token read / looked at
spec fn rd<I>(a: Parser<I>, b: Parser<I>, op: bool) -> bool {
    fr(a, b) && b.lexer.pos() == a.lexer.pos() + 1 && b.lexer.q() == dec1(a.lexer.q())
    && (a.lexer.q() == 0 ==> opm(a.lexer.h(), a.lexer.pos()) == op)
}
spec fn pk<I>(a: Parser<I>, b: Parser<I>, op: bool) -> bool {
    fr(a, b) && b.lexer.pos() == a.lexer.pos() && b.lexer.q() == inc1(a.lexer.q())
    && (a.lexer.q() == 0 ==> opm(a.lexer.h(), a.lexer.pos()) == op)
}
// the strict mode check list is known to be empty / free of strict checks
spec fn no_strict(s: Seq<Check>) -> bool { forall|i: int| 0 <= i < s.len() ==> !(#[trigger] s[i] is Strict) }
spec fn adm<I>(p: Parser<I>, m: int) -> bool {
    if m == 0 { true }
    else if m == 1 { p.context.strict == Strict::Yes || p.context.strict == Strict::Unknown && no_strict(p.deferred@) }
    else { p.goal == Goal::Module || p.goal == Goal::Unknown && p.context.strict != Strict::No && p.deferred@.len() == 0 }
}
spec fn same_cx(a: Context, b: Context) -> bool {
    a.strict == b.strict && a.function == b.function && a.iteration == b.iteration && a.switch == b.switch
    && a.allow_in == b.allow_in && a.labels@ =~= b.labels@
}
// checks are put off, never dropped
spec fn mono<I>(a: Parser<I>, b: Parser<I>) -> bool {
    (no_strict(b.deferred@) ==> no_strict(a.deferred@)) && (b.deferred@.len() == 0 ==> a.deferred@.len() == 0)
}
// what every parsing step preserves
spec fn kp<I>(a: Parser<I>, b: Parser<I>) -> bool {
    b.lexer.h() == a.lexer.h() && b.validate == a.validate && b.goal == a.goal && same_cx(a.context, b.context)
    && a.lexer.pos() <= b.lexer.pos()
    && mono(a, b)
}
spec fn sane<I>(p: Parser<I>) -> bool {
    (p.context.strict == Strict::No ==> p.goal == Goal::Script) && (p.goal == Goal::Module ==> p.context.strict == Strict::Yes)
}
// where an operand may start
spec fn pre<I>(p: Parser<I>) -> bool {
    sane(p) && p.lexer.q() <= 2
    && (p.lexer.q() >= 1 ==> !slashy(cur(p)))
    && (p.lexer.q() == 2 ==> ((cur(p) is Identifier || cur(p) is String) && !(nxt(p) is RegExp)) || cur(p) == TokenData::Reserved(Reserved::Const) && !slashy(nxt(p)))
}
// after an operand
spec fn mid<I>(p: Parser<I>) -> bool {
    sane(p) && p.lexer.q() <= 1 && (p.lexer.q() == 1 ==> !(cur(p) is RegExp))
}
spec fn adv<I>(a: Parser<I>, b: Parser<I>) -> bool { kp(a, b) && fu(b) < fu(a) }
spec fn post_o<I>(a: Parser<I>, b: Parser<I>) -> bool { adv(a, b) && mid(b) }
spec fn post_e<I>(a: Parser<I>, b: Parser<I>) -> bool { post_o(a, b) && b.lexer.q() == 1 && !slashy(cur(b)) }
spec fn post_s<I>(a: Parser<I>, b: Parser<I>) -> bool { adv(a, b) && pre(b) && b.lexer.q() <= 1 }
spec fn at<I>(p: Parser<I>, t: TokenData) -> bool { p.lexer.q() >= 1 && cur(p) == t }
spec fn at1<I>(p: Parser<I>, t: TokenData) -> bool { p.lexer.q() == 1 && cur(p) == t }
spec fn resv(r: Reserved) -> TokenData { TokenData::Reserved(r) }
spec fn no_slash<I>(p: Parser<I>) -> bool { p.lexer.q() >= 1 ==> !slashy(cur(p)) }
spec fn post_d<I>(a: Parser<I>, b: Parser<I>) -> bool { adv(a, b) && pre(b) && b.lexer.q() == 1 }
spec fn fresh<I>(p: Parser<I>) -> bool {
    sane(p) && p.goal == Goal::Unknown && p.lexer.q() == 0 && p.deferred@.len() == 0 && p.context.strict == Strict::Unknown && !p.context.function && !p.context.iteration
    && !p.context.switch && p.context.allow_in && p.context.labels@ == Map::<Name, LabelType>::empty()
}
// a parser about to read the text
spec fn starts<I>(p: Parser<I>, t: Seq<char>) -> bool { fresh(p) && p.validate && p.lexer.src() == t }
spec fn same_but_strict(a: Context, b: Context) -> bool {
    a.function == b.function && a.iteration == b.iteration && a.switch == b.switch && a.allow_in == b.allow_in && a.labels@ =~= b.labels@
}
// a body may declare itself strict, or a module
spec fn kpd<I>(a: Parser<I>, b: Parser<I>) -> bool {
    b.lexer.h() == a.lexer.h() && b.validate == a.validate && same_but_strict(a.context, b.context)
    && a.lexer.pos() <= b.lexer.pos() && mono(a, b)
    && (b.context.strict == a.context.strict && b.goal == a.goal
        || b.context.strict == Strict::Yes && (b.goal == a.goal || !a.context.function && b.goal == Goal::Module))
}
// only the list of deferred checks may have grown
spec fn chk<I>(a: Parser<I>, b: Parser<I>) -> bool {
    b.lexer == a.lexer && b.validate == a.validate && b.goal == a.goal && b.context == a.context && mono(a, b)
}
spec fn sp_follow(t: TokenData) -> bool { t == resv(Reserved::Case) || t == resv(Reserved::Default) || t is EOF || t is RBrace }
// tokens that cannot be what a directive's string is continued with
spec fn sp_cont(t: Token) -> bool {
    match t.value {
        TokenData::Semi | TokenData::RBrace | TokenData::EOF => false,
        TokenData::Reserved(r) => r is In || r is Instanceof,
        TokenData::Inc | TokenData::Dec => !t.newline,
        TokenData::LBrace | TokenData::RBrack | TokenData::RParen | TokenData::Bang | TokenData::Tilde | TokenData::Colon | TokenData::Arrow => false,
        TokenData::Number(_) | TokenData::String(_) | TokenData::RegExp(_) | TokenData::Identifier(_) => false,
        _ => true,
    }
}
spec fn sp_label_type(t: TokenData) -> LabelType {
    if t == resv(Reserved::Do) || t == resv(Reserved::While) || t == resv(Reserved::For) { LabelType::Iteration } else { LabelType::Statement }
}
// the name of an identifier: escapes in its spelling do not count (11.6.1.2)
spec fn norm(n: Name) -> Name {
    match n {
        Name::String(s) => str_name(s@),
        a => a,
    }
}
// ECMA-262 11.6.2.2, 12.1.1
spec fn sp_reserved(a: Atom) -> TriState {
    match a {
        Atom::Await => TriState::Unknown,
        Atom::Implements | Atom::Interface | Atom::Let | Atom::Package | Atom::Private | Atom::Protected | Atom::Public | Atom::Static | Atom::Yield => TriState::Yes,
        _ => TriState::No,
    }
}
spec fn sp_restricted(a: Atom) -> bool { a is Eval || a is Arguments }
// the text of a directive, without its quotes (14.1.1: escapes do not count)
spec fn sp_pragma(d: Dir) -> Seq<char> {
    match d.string.source {
        Some(s) => if s@.len() >= 2 { s@.subrange(1, s@.len() - 1) } else { s@ },
        None => d.string.value@,
    }
}
spec fn sp_id_check(binding: bool, name: Name, location: Span) -> Option<Check> {
    match name {
        Name::Atom(a) =>
            if binding && sp_restricted(a) { Some(Check::Strict(Error::IllegalStrictBinding(location, a))) }
            else if sp_reserved(a) == TriState::Yes { Some(Check::Strict(Error::ContextualKeyword(location, a))) }
            else if sp_reserved(a) == TriState::Unknown { Some(Check::Module(Error::ContextualKeyword(location, a))) }
            else { None },
        _ => None,
    }
}

broadcast proof fn lemma_push_strict(s: Seq<Check>, c: Check)
    ensures #[trigger] no_strict(s.push(c)) == (no_strict(s) && !(c is Strict))
{
    if no_strict(s.push(c)) {
        assert forall|i: int| 0 <= i < s.len() implies !(#[trigger] s[i] is Strict) by { assert(s.push(c)[i] == s[i]); }
        assert(s.push(c)[s.len() as int] == c);
    }
}

// while labels are in scope
spec fn lkp<I>(a: Parser<I>, b: Parser<I>) -> bool {
    b.lexer.h() == a.lexer.h() && b.validate == a.validate && b.goal == a.goal && mono(a, b)
    && a.context.strict == b.context.strict && a.context.function == b.context.function && a.context.iteration == b.context.iteration
    && a.context.switch == b.context.switch && a.context.allow_in == b.context.allow_in
    && fu(b) < fu(a) && a.lexer.pos() <= b.lexer.pos() && pre(b)
}
// m is m0 with the labels ls[lo..]
spec fn labs_in(m0: Map<Name, LabelType>, m: Map<Name, LabelType>, ls: Seq<Rc<Name>>, t: LabelType) -> bool {
    (forall|i: int| 0 <= i < ls.len() ==> !m0.contains_key(*#[trigger] ls[i]) && m.contains_key(*ls[i]) && m[*ls[i]] == t)
    && (forall|i: int, j: int| 0 <= i < j < ls.len() ==> *#[trigger] ls[i] != *#[trigger] ls[j])
    && (forall|n: Name| #[trigger] m0.contains_key(n) ==> m.contains_key(n) && m[n] == m0[n])
    && (forall|n: Name| #[trigger] m.contains_key(n) ==> m0.contains_key(n) || exists|i: int| 0 <= i < ls.len() && *#[trigger] ls[i] == n)
}
broadcast proof fn lemma_labs_end(m0: Map<Name, LabelType>, m: Map<Name, LabelType>, ls: Seq<Rc<Name>>, t: LabelType)
    requires #[trigger] labs_in(m0, m, ls, t), ls.len() == 0,
    ensures m == m0
{
    assert(m =~= m0);
}
broadcast proof fn lemma_labs_start(m0: Map<Name, LabelType>, ls: Seq<Rc<Name>>, t: LabelType)
    requires ls.len() == 0,
    ensures #[trigger] labs_in(m0, m0, ls, t)
{ }
broadcast proof fn lemma_labs_add(m0: Map<Name, LabelType>, m: Map<Name, LabelType>, ls: Seq<Rc<Name>>, t: LabelType, x: Rc<Name>, n: Name)
    requires labs_in(m0, m, ls, t), !m.contains_key(n), n == *x,
    ensures #[trigger] labs_in(m0, m.insert(n, t), ls.push(x), t)
{
    let l2 = ls.push(x);
    let m2 = m.insert(n, t);
    assert forall|i: int| 0 <= i < l2.len() implies !m0.contains_key(*#[trigger] l2[i]) && m2.contains_key(*l2[i]) && m2[*l2[i]] == t by {
        if i < ls.len() { assert(l2[i] == ls[i]); }
    }
    assert forall|i: int, j: int| 0 <= i < j < l2.len() implies *#[trigger] l2[i] != *#[trigger] l2[j] by {
        assert(l2[i] == ls[i]);
        if j < ls.len() { assert(l2[j] == ls[j]); }
    }
    assert forall|y: Name| #[trigger] m2.contains_key(y) implies m0.contains_key(y) || exists|i: int| 0 <= i < l2.len() && *#[trigger] l2[i] == y by {
        if y == n { assert(*l2[ls.len() as int] == y); }
        else if !m0.contains_key(y) {
            assert(m.contains_key(y));
            let i = choose|i: int| 0 <= i < ls.len() && *#[trigger] ls[i] == y;
            assert(*l2[i] == y);
        }
    }
}
broadcast proof fn lemma_labs_del(m0: Map<Name, LabelType>, m: Map<Name, LabelType>, ls: Seq<Rc<Name>>, t: LabelType, n: Name, k: int)
    requires labs_in(m0, m, ls, t), ls.len() > 0, n == *ls[0], k == ls.len(),
    ensures #[trigger] labs_in(m0, m.remove(n), ls.subrange(1, k), t)
{
    let l2 = ls.subrange(1, k);
    let m2 = m.remove(n);
    assert forall|i: int| 0 <= i < l2.len() implies !m0.contains_key(*#[trigger] l2[i]) && m2.contains_key(*l2[i]) && m2[*l2[i]] == t by {
        assert(l2[i] == ls[i + 1]);
    }
    assert forall|i: int, j: int| 0 <= i < j < l2.len() implies *#[trigger] l2[i] != *#[trigger] l2[j] by {
        assert(l2[i] == ls[i + 1] && l2[j] == ls[j + 1]);
    }
    assert forall|y: Name| #[trigger] m2.contains_key(y) implies m0.contains_key(y) || exists|i: int| 0 <= i < l2.len() && *#[trigger] l2[i] == y by {
        if !m0.contains_key(y) {
            assert(m.contains_key(y));
            let i = choose|i: int| 0 <= i < ls.len() && *#[trigger] ls[i] == y;
            assert(i != 0);
            assert(*l2[i - 1] == y);
        }
    }
    assert forall|y: Name| #[trigger] m0.contains_key(y) implies m2.contains_key(y) && m2[y] == m0[y] by {
        assert(y != n);
    }
}

// ---------------------------------------------------------------- operators (11.5 - 11.13)
spec fn sp_binop(t: TokenData, allow_in: bool) -> Option<BinopTag> {
    match t {
        TokenData::Star => Some(BinopTag::Times),
        TokenData::Slash => Some(BinopTag::Div),
        TokenData::Mod => Some(BinopTag::Mod),
        TokenData::Plus => Some(BinopTag::Plus),
        TokenData::Minus => Some(BinopTag::Minus),
        TokenData::LShift => Some(BinopTag::LShift),
        TokenData::RShift => Some(BinopTag::RShift),
        TokenData::URShift => Some(BinopTag::URShift),
        TokenData::LAngle => Some(BinopTag::Lt),
        TokenData::RAngle => Some(BinopTag::Gt),
        TokenData::LEq => Some(BinopTag::LEq),
        TokenData::GEq => Some(BinopTag::GEq),
        TokenData::Reserved(Reserved::Instanceof) => Some(BinopTag::Instanceof),
        TokenData::Reserved(Reserved::In) => if allow_in { Some(BinopTag::In) } else { None },
        TokenData::Eq => Some(BinopTag::Eq),
        TokenData::NEq => Some(BinopTag::NEq),
        TokenData::StrictEq => Some(BinopTag::StrictEq),
        TokenData::StrictNEq => Some(BinopTag::StrictNEq),
        TokenData::BitAnd => Some(BinopTag::BitAnd),
        TokenData::BitXor => Some(BinopTag::BitXor),
        TokenData::BitOr => Some(BinopTag::BitOr),
        _ => None,
    }
}
spec fn sp_logop(t: TokenData) -> Option<LogopTag> {
    match t {
        TokenData::LogicalAnd => Some(LogopTag::And),
        TokenData::LogicalOr => Some(LogopTag::Or),
        _ => None,
    }
}
spec fn sp_assop(t: TokenData) -> Option<AssopTag> {
    match t {
        TokenData::StarAssign => Some(AssopTag::TimesEq),
        TokenData::SlashAssign => Some(AssopTag::DivEq),
        TokenData::ModAssign => Some(AssopTag::ModEq),
        TokenData::PlusAssign => Some(AssopTag::PlusEq),
        TokenData::MinusAssign => Some(AssopTag::MinusEq),
        TokenData::LShiftAssign => Some(AssopTag::LShiftEq),
        TokenData::RShiftAssign => Some(AssopTag::RShiftEq),
        TokenData::URShiftAssign => Some(AssopTag::URShiftEq),
        TokenData::BitAndAssign => Some(AssopTag::BitAndEq),
        TokenData::BitXorAssign => Some(AssopTag::BitXorEq),
        TokenData::BitOrAssign => Some(AssopTag::BitOrEq),
        _ => None,
    }
}
// the levels of the grammar, loosest first
spec fn sp_bin_level(t: BinopTag) -> int {
    match t {
        BinopTag::BitOr => 4,
        BinopTag::BitXor => 5,
        BinopTag::BitAnd => 6,
        BinopTag::Eq | BinopTag::NEq | BinopTag::StrictEq | BinopTag::StrictNEq => 7,
        BinopTag::Lt | BinopTag::Gt | BinopTag::LEq | BinopTag::GEq | BinopTag::In | BinopTag::Instanceof => 8,
        BinopTag::LShift | BinopTag::RShift | BinopTag::URShift => 9,
        BinopTag::Plus | BinopTag::Minus => 10,
        BinopTag::Times | BinopTag::Div | BinopTag::Mod => 11,
    }
}
spec fn sp_prec(op: Infix) -> int {
    match op {
        Infix::Binop(b) => sp_bin_level(b.tag),
        Infix::Logop(l) => if l.tag is Or { 2 } else { 3 },
    }
}
spec fn joined(e: Expr, op: Infix, l: Expr, r: Expr) -> bool {
    match op {
        Infix::Binop(b) => e matches Expr::Binop(_, b2, l2, r2) && b2 == b && *l2 == l && *r2 == r,
        Infix::Logop(b) => e matches Expr::Logop(_, b2, l2, r2) && b2 == b && *l2 == l && *r2 == r,
    }
}
spec fn filled(e: Expr, f: Frame, r: Expr) -> bool { joined(e, f.op, f.left, r) }
// all operators of ops are at least at level p / above level p
spec fn all_ge(ops: Seq<Infix>, p: int) -> bool { forall|i: int| 0 <= i < ops.len() ==> sp_prec(#[trigger] ops[i]) >= p }
spec fn all_gt(ops: Seq<Infix>, p: int) -> bool { forall|i: int| 0 <= i < ops.len() ==> sp_prec(#[trigger] ops[i]) > p }
spec fn to<A>(s: Seq<A>, k: int) -> Seq<A> { s.subrange(0, k) }
spec fn from<A>(s: Seq<A>, k: int) -> Seq<A> { s.subrange(k, s.len() as int) }
// e is the one way to group  os[0] ops[0] os[1] .. ops[n-1] os[n]: its root is the last of the
// loosest operators, and so on down
spec fn tree(e: Expr, os: Seq<Expr>, ops: Seq<Infix>) -> bool
    decreases ops.len()
{
    os.len() == ops.len() + 1 && if ops.len() == 0 { e == os[0] } else {
        exists|k: int| #[trigger] mk(k) && 0 <= k < ops.len() && all_ge(to(ops, k), sp_prec(ops[k])) && all_gt(from(ops, k + 1), sp_prec(ops[k]))
            && match ops[k] {
                Infix::Binop(b) => e matches Expr::Binop(_, b2, l, r) && b2 == b && tree(*l, to(os, k + 1), to(ops, k)) && tree(*r, from(os, k + 1), from(ops, k + 1)),
                Infix::Logop(b) => e matches Expr::Logop(_, b2, l, r) && b2 == b && tree(*l, to(os, k + 1), to(ops, k)) && tree(*r, from(os, k + 1), from(ops, k + 1)),
            }
    }
}
spec fn mk(k: int) -> bool { true }

proof fn lemma_join(e: Expr, op: Infix, l: Expr, r: Expr, los: Seq<Expr>, lops: Seq<Infix>, ros: Seq<Expr>, rops: Seq<Infix>)
    requires joined(e, op, l, r), tree(l, los, lops), tree(r, ros, rops), all_ge(lops, sp_prec(op)), all_gt(rops, sp_prec(op)),
    ensures tree(e, los + ros, lops.push(op) + rops)
{
    let os = los + ros;
    let ops = lops.push(op) + rops;
    let k = lops.len() as int;
    assert(to(ops, k) =~= lops);
    assert(from(ops, k + 1) =~= rops);
    assert(to(os, k + 1) =~= los);
    assert(from(os, k + 1) =~= ros);
    assert(ops[k] == op);
    assert(mk(k));
}
// the frames hold the operands os and operators ops read so far, each operand with the operator after it
spec fn stk(fs: Seq<Frame>, os: Seq<Expr>, ops: Seq<Infix>) -> bool
    decreases fs.len()
{
    os.len() == ops.len() && if fs.len() == 0 { os.len() == 0 } else {
        exists|k: int| #[trigger] mk(k) && stk_top(fs, os, ops, k) && stk(fs.drop_last(), to(os, k), to(ops, k))
    }
}
spec fn stk_top(fs: Seq<Frame>, os: Seq<Expr>, ops: Seq<Infix>, k: int) -> bool {
    let f = fs.last();
    fs.len() > 0 && 0 <= k < ops.len() && ops.last() == f.op
    && (k > 0 ==> sp_prec(ops[k - 1]) < sp_prec(f.op)) && (k > 0 <==> fs.len() > 1)
    && all_ge(from(ops, k), sp_prec(f.op))
    && tree(f.left, from(os, k), to(from(ops, k), ops.len() - k - 1))
}
// .. and e groups the operands from the k-th on, whose operators are at least at level p
spec fn ext(fs: Seq<Frame>, e: Expr, p: int, os: Seq<Expr>, ops: Seq<Infix>) -> bool {
    exists|k: int| #[trigger] ext_at(fs, e, p, os, ops, k)
}
spec fn ext_at(fs: Seq<Frame>, e: Expr, p: int, os: Seq<Expr>, ops: Seq<Infix>, k: int) -> bool {
    0 <= k <= ops.len() && os.len() == ops.len() + 1
    && stk(fs, to(os, k), to(ops, k)) && tree(e, from(os, k), from(ops, k))
    && all_ge(from(ops, k), p) && (k > 0 ==> all_gt(from(ops, k), sp_prec(ops[k - 1])))
}
broadcast proof fn lemma_ext_start(fs: Seq<Frame>, e: Expr, p: int, os: Seq<Expr>, ops: Seq<Infix>)
    requires stk(fs, os, ops),
    ensures #[trigger] ext(fs, e, p, os.push(e), ops)
{
    let k = ops.len() as int;
    let os1 = os.push(e);
    assert(to(os1, k) =~= os);
    assert(to(ops, k) =~= ops);
    assert(from(os1, k) =~= seq![e]);
    assert(from(ops, k) =~= Seq::<Infix>::empty());
    assert(ext_at(fs, e, p, os1, ops, k));
}
#[verifier::rlimit(60)]
broadcast proof fn lemma_ext_step(fs: Seq<Frame>, e: Expr, p: int, os: Seq<Expr>, ops: Seq<Infix>, e2: Expr, n: int)
    requires ext(fs, e, p, os, ops), fs.len() > 0, n == fs.len() - 1, filled(e2, fs[n], e), sp_prec(fs[n].op) >= p,
    ensures #![trigger ext(fs.subrange(0, n), e2, p, os, ops), filled(e2, fs[n], e)] ext(fs.subrange(0, n), e2, p, os, ops)
{
    let f = fs.last();
    let k = choose|k: int| #[trigger] ext_at(fs, e, p, os, ops, k);
    let os0 = to(os, k);
    let ops0 = to(ops, k);
    let j = choose|j: int| #[trigger] mk(j) && stk_top(fs, os0, ops0, j) && stk(fs.drop_last(), to(os0, j), to(ops0, j));
    let lops = to(from(ops0, j), ops0.len() - j - 1);
    let los = from(os0, j);
    assert(ops[k - 1] == f.op);
    assert forall|i: int| 0 <= i < lops.len() implies sp_prec(#[trigger] lops[i]) >= sp_prec(f.op) by { assert(lops[i] == from(ops0, j)[i]); }
    lemma_join(e2, f.op, f.left, e, los, lops, from(os, k), from(ops, k));
    assert(from(os, j) =~= los + from(os, k));
    assert(from(ops, j) =~= lops.push(f.op) + from(ops, k));
    assert(to(os0, j) =~= to(os, j));
    assert(to(ops0, j) =~= to(ops, j));
    assert(fs.drop_last() =~= fs.subrange(0, n));
    let q = from(ops, j);
    assert forall|i: int| 0 <= i < q.len() implies sp_prec(#[trigger] q[i]) >= sp_prec(f.op) by {
        if i < k - j { assert(q[i] == from(ops0, j)[i]); } else { assert(q[i] == from(ops, k)[i - (k - j)]); }
    }
    assert(ext_at(fs.subrange(0, n), e2, p, os, ops, j));
}
broadcast proof fn lemma_ext_push(fs: Seq<Frame>, e: Expr, op: Infix, p: int, os: Seq<Expr>, ops: Seq<Infix>)
    requires #[trigger] ext(fs, e, p, os, ops), p == sp_prec(op), fs.len() == 0 || sp_prec(fs.last().op) < p,
    ensures #[trigger] stk(fs.push(Frame { left: e, op: op }), os, ops.push(op))
{
    let k = choose|k: int| #[trigger] ext_at(fs, e, p, os, ops, k);
    let f2 = fs.push(Frame { left: e, op: op });
    let ops2 = ops.push(op);
    assert(f2.drop_last() =~= fs);
    assert(to(ops2, k) =~= to(ops, k));
    assert(to(from(ops2, k), ops2.len() - k - 1) =~= from(ops, k));
    let q = from(ops2, k);
    assert forall|i: int| 0 <= i < q.len() implies sp_prec(#[trigger] q[i]) >= p by {
        if i < q.len() - 1 { assert(q[i] == from(ops, k)[i]); }
    }
    if fs.len() > 0 {
        let j = choose|j: int| #[trigger] mk(j) && stk_top(fs, to(os, k), to(ops, k), j) && stk(fs.drop_last(), to(to(os, k), j), to(to(ops, k), j));
        assert(ops2[k - 1] == to(ops, k).last());
    }
    assert(mk(k) && stk_top(f2, os, ops2, k) && stk(f2.drop_last(), to(os, k), to(ops2, k)));
}
broadcast proof fn lemma_ext_end(fs: Seq<Frame>, e: Expr, p: int, os: Seq<Expr>, ops: Seq<Infix>)
    requires #[trigger] ext(fs, e, p, os, ops), fs.len() == 0,
    ensures tree(e, os, ops)
{
    let k = choose|k: int| #[trigger] ext_at(fs, e, p, os, ops, k);
    assert(from(os, k) =~= os);
    assert(from(ops, k) =~= ops);
}

