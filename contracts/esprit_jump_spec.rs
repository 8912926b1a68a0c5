// ---------------------------------------------------------------- what a tree must satisfy (C20, C24)
// m: 0 the rules that hold everywhere (13.5, 13.8 - 13.15), 1 strict mode code, 2 module code,
// 3 code whose mode only its own directives say.
ghost struct Cx { labs: Map<Name, LabelType>, iter: bool, sw: bool, fun: bool }
spec fn cxs(k: Context) -> Cx { Cx { labs: k.labels@, iter: k.iteration, sw: k.switch, fun: k.function } }
spec fn cx_fun() -> Cx { Cx { labs: Map::empty(), iter: false, sw: false, fun: true } }
spec fn cx_top() -> Cx { Cx { labs: Map::empty(), iter: false, sw: false, fun: false } }
spec fn cx_loop(c: Cx) -> Cx { Cx { iter: true, ..c } }
spec fn cx_switch(c: Cx) -> Cx { Cx { sw: true, ..c } }

// the parser is known to have judged what it has read so far as code of mode m
spec fn okm<I>(p: Parser<I>, m: int) -> bool {
    if m == 1 { p.context.strict == Strict::Yes && p.validate || p.context.strict != Strict::No && no_strict(p.deferred@) }
    else if m == 2 { p.goal == Goal::Module && p.validate || p.goal != Goal::Script && p.context.strict != Strict::No && p.deferred@.len() == 0 }
    else { p.validate }
}

// 11.6.2.2, 12.1.1: the words a mode reserves
spec fn x_id(id: Id, binding: bool, m: int) -> bool {
    match id.name {
        Name::Atom(a) =>
            (m == 1 ==> !(binding && sp_restricted(a)) && sp_reserved(a) != TriState::Yes)
            && (m == 2 ==> !(binding && sp_restricted(a)) && sp_reserved(a) == TriState::No),
        _ => true,
    }
}
spec fn x_patt(p: Patt<Id>, m: int) -> bool { p matches Patt::Simple(id) && x_id(id, true, m) }
spec fn x_patts(s: Seq<Patt<Id>>, m: int) -> bool { forall|i: int| 0 <= i < s.len() ==> x_patt(#[trigger] s[i], m) }
spec fn x_rest(r: Option<RestPatt<Id>>, m: int) -> bool { r matches Some(p) ==> x_patt(p.patt, m) }
spec fn x_params(p: Params, m: int) -> bool { x_patts(p.list@, m) && x_rest(p.rest, m) }

// 14.1.1: the directives of a body
spec fn has_dir(ds: Seq<Dir>, t: Seq<char>) -> bool { exists|i: int| 0 <= i < ds.len() && sp_pragma(#[trigger] ds[i]) == t }
spec fn use_strict() -> Seq<char> { "use strict"@ }
spec fn use_module() -> Seq<char> { "use module"@ }
spec fn body_mode(ds: Seq<Dir>, m: int) -> int { if m == 3 && has_dir(ds, use_strict()) { 1 } else { m } }
spec fn top_mode(ds: Seq<Dir>, m: int) -> int {
    if m == 3 && has_dir(ds, use_module()) { 2 } else { body_mode(ds, m) }
}

spec fn x_exprs(s: Seq<Expr>, m: int) -> bool
    decreases s
{ forall|i: int| 0 <= i < s.len() ==> XE(#[trigger] s[i], m) }
spec fn x_item(x: ExprListItem, m: int) -> bool
    decreases x
{ match x { ExprListItem::Expr(e) => XE(e, m), ExprListItem::Spread(_, e) => XE(e, m) } }
spec fn x_elt(x: Option<ExprListItem>, m: int) -> bool
    decreases x
{ match x { Some(ExprListItem::Expr(e)) => XE(e, m), Some(ExprListItem::Spread(_, e)) => XE(e, m), None => true } }
spec fn x_items(s: Seq<ExprListItem>, m: int) -> bool
    decreases s
{ forall|i: int| 0 <= i < s.len() ==> x_item(#[trigger] s[i], m) }
spec fn x_elts(s: Seq<Option<ExprListItem>>, m: int) -> bool
    decreases s
{ forall|i: int| 0 <= i < s.len() ==> x_elt(#[trigger] s[i], m) }
spec fn x_prop(p: Prop, m: int) -> bool
    decreases p
{
    match p {
        Prop::Regular(_, _, PropVal::Init(e)) => XE(e, m),
        Prop::Regular(_, _, PropVal::Get(_, b)) => XB(b, m),
        Prop::Regular(_, _, PropVal::Set(_, q, b)) => x_patt(q, m) && XB(b, m),
        Prop::Method(f) => x_params(f.params, m) && XB(f.body, m),
        Prop::Shorthand(id) => x_id(id, false, m),
    }
}
spec fn x_props(s: Seq<Prop>, m: int) -> bool
    decreases s
{ forall|i: int| 0 <= i < s.len() ==> x_prop(#[trigger] s[i], m) }
spec fn x_tgt(t: AssignTarget, m: int) -> bool
    decreases t
{
    match t {
        AssignTarget::Id(id) => x_id(id, false, m),
        AssignTarget::Dot(_, o, _) => XE(*o, m),
        AssignTarget::Brack(_, o, k) => XE(*o, m) && XE(*k, m),
    }
}
spec fn x_pt(p: Patt<AssignTarget>, m: int) -> bool
    decreases p
{
    match p {
        Patt::Simple(t) => x_tgt(t, m),
        Patt::Compound(CompoundPatt::Obj(_, ps)) => forall|i: int| 0 <= i < ps@.len() ==> x_ppt(#[trigger] ps@[i], m),
        Patt::Compound(CompoundPatt::Arr(_, ps, rest)) => (forall|i: int| 0 <= i < ps@.len() ==> x_opt_pt(#[trigger] ps@[i], m)) && (rest matches Some(r) ==> x_pt(r.patt, m)),
    }
}
spec fn x_opt_pt(p: Option<Patt<AssignTarget>>, m: int) -> bool
    decreases p
{ p matches Some(q) ==> x_pt(q, m) }
spec fn x_ppt(p: PropPatt<AssignTarget>, m: int) -> bool
    decreases p
{ match p { PropPatt::Regular(_, _, q) => x_pt(q, m), PropPatt::Shorthand(id) => x_id(id, false, m) } }

spec fn XE(e: Expr, m: int) -> bool
    decreases e
{
    match e {
        Expr::This(_) | Expr::NewTarget(_) | Expr::True(_) | Expr::False(_) | Expr::Null(_) | Expr::Number(_, _) | Expr::RegExp(_, _) | Expr::String(_, _) => true,
        Expr::Id(id) => x_id(id, false, m),
        Expr::Arr(_, s) => x_elts(s@, m),
        Expr::Obj(_, s) => x_props(s@, m),
        Expr::Fun(f) => (f.id matches Some(id) ==> x_id(id, true, m)) && x_params(f.params, m) && XB(f.body, m),
        Expr::Seq(_, s) => x_exprs(s@, m),
        Expr::Unop(_, _, a) => XE(*a, m),
        Expr::Binop(_, _, a, b) => XE(*a, m) && XE(*b, m),
        Expr::Logop(_, _, a, b) => XE(*a, m) && XE(*b, m),
        Expr::PreInc(_, t) => x_tgt(*t, m),
        Expr::PostInc(_, t) => x_tgt(*t, m),
        Expr::PreDec(_, t) => x_tgt(*t, m),
        Expr::PostDec(_, t) => x_tgt(*t, m),
        Expr::Assign(_, p, a) => x_pt(p, m) && XE(*a, m),
        Expr::BinAssign(_, _, t, a) => x_tgt(t, m) && XE(*a, m),
        Expr::Cond(_, a, b, c) => XE(*a, m) && XE(*b, m) && XE(*c, m),
        Expr::Call(_, f, s) => XE(*f, m) && x_items(s@, m),
        Expr::New(_, f, s) => XE(*f, m) && (s matches Some(s) ==> x_items(s@, m)),
        Expr::Dot(_, a, _) => XE(*a, m),
        Expr::Brack(_, a, b) => XE(*a, m) && XE(*b, m),
    }
}
// a function body: neither the labels nor the loops around it count
spec fn XB(b: Script, m: int) -> bool
    decreases b
{ x_list(b.items@, cx_fun(), body_mode(b.dirs@, m)) }
spec fn x_list(s: Seq<StmtListItem>, c: Cx, m: int) -> bool
    decreases s
{ forall|i: int| 0 <= i < s.len() ==> x_sitem(#[trigger] s[i], c, m) }
spec fn x_sitem(x: StmtListItem, c: Cx, m: int) -> bool
    decreases x
{ match x { StmtListItem::Stmt(s) => XS(s, c, m), StmtListItem::Decl(d) => x_decl(d, m) } }
spec fn x_decl(d: Decl, m: int) -> bool
    decreases d
{
    match d {
        Decl::Fun(f) => x_id(f.id, true, m) && x_params(f.params, m) && XB(f.body, m),
        Decl::Let(_, s, _) => x_dtors(s@, m),
        Decl::Const(_, s, _) => x_cdtors(s@, m),
    }
}
spec fn x_dtor(d: Dtor, m: int) -> bool
    decreases d
{ match d { Dtor::Simple(_, id, x) => x_id(id, true, m) && (x matches Some(e) ==> XE(e, m)), Dtor::Compound(_, _, _) => false } }
spec fn x_cdtor(d: ConstDtor, m: int) -> bool
    decreases d
{ x_patt(d.patt, m) && XE(d.value, m) }
spec fn x_dtors(s: Seq<Dtor>, m: int) -> bool
    decreases s
{ forall|i: int| 0 <= i < s.len() ==> x_dtor(#[trigger] s[i], m) }
spec fn x_cdtors(s: Seq<ConstDtor>, m: int) -> bool
    decreases s
{ forall|i: int| 0 <= i < s.len() ==> x_cdtor(#[trigger] s[i], m) }
spec fn x_case(k: Case, c: Cx, m: int) -> bool
    decreases k
{ (k.test matches Some(e) ==> XE(e, m)) && x_list(k.body@, c, m) }
spec fn x_cases(s: Seq<Case>, c: Cx, m: int) -> bool
    decreases s
{ forall|i: int| 0 <= i < s.len() ==> x_case(#[trigger] s[i], c, m) }
spec fn x_catch(k: Catch, c: Cx, m: int) -> bool
    decreases k
{ x_patt(k.param, m) && x_list(k.body.items@, c, m) }
spec fn x_head(h: ForHead, m: int) -> bool
    decreases h
{
    match h {
        ForHead::Var(_, s) => x_dtors(s@, m),
        ForHead::Let(_, s) => x_dtors(s@, m),
        ForHead::Const(_, s) => x_cdtors(s@, m),
        ForHead::Expr(_, e) => XE(e, m),
    }
}
spec fn x_ihead(h: ForInHead, m: int) -> bool
    decreases h
{
    match h {
        ForInHead::VarInit(_, id, e) => x_id(id, true, m) && XE(e, m),
        ForInHead::Var(_, p) => x_patt(p, m),
        ForInHead::Let(_, p) => x_patt(p, m),
        ForInHead::Const(_, p) => x_patt(p, m),
        ForInHead::Patt(p) => x_pt(p, m),
    }
}
spec fn x_ohead(h: ForOfHead, m: int) -> bool
    decreases h
{
    match h {
        ForOfHead::Var(_, p) => x_patt(p, m),
        ForOfHead::Let(_, p) => x_patt(p, m),
        ForOfHead::Const(_, p) => x_patt(p, m),
        ForOfHead::Patt(p) => x_pt(p, m),
    }
}
spec fn one_default(s: Seq<Case>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).test is Some || (#[trigger] s[j]).test is Some }
// what a label names
spec fn is_loop(s: Stmt) -> bool
    decreases s
{
    match s {
        Stmt::Label(_, _, b) => is_loop(*b),
        Stmt::While(_, _, _) | Stmt::DoWhile(_, _, _, _) | Stmt::For(_, _, _, _, _) | Stmt::ForIn(_, _, _, _) | Stmt::ForOf(_, _, _, _) => true,
        _ => false,
    }
}
spec fn lab_type(s: Stmt) -> LabelType { if is_loop(s) { LabelType::Iteration } else { LabelType::Statement } }
spec fn cx_label(c: Cx, n: Name, t: LabelType) -> Cx { Cx { labs: c.labs.insert(n, t), ..c } }

spec fn XS(s: Stmt, c: Cx, m: int) -> bool
    decreases s
{
    match s {
        Stmt::Empty(_) | Stmt::Debugger(_, _) => true,
        Stmt::Block(b) => x_list(b.items@, c, m),
        Stmt::Var(_, ds, _) => x_dtors(ds@, m),
        Stmt::Expr(_, e, _) => XE(e, m),
        Stmt::If(_, e, a, b) => XE(e, m) && XS(*a, c, m) && (b matches Some(b) ==> XS(*b, c, m)),
        Stmt::Label(_, id, b) => x_id(id, false, m) && (m == 0 ==> !c.labs.contains_key(id.name)) && XS(*b, cx_label(c, id.name, lab_type(*b)), m),
        Stmt::Break(_, Some(id), _) => x_id(id, false, m) && (m == 0 ==> c.labs.contains_key(id.name)),
        Stmt::Break(_, None, _) => m == 0 ==> c.iter || c.sw,
        Stmt::Cont(_, Some(id), _) => x_id(id, false, m) && (m == 0 ==> c.labs.contains_key(id.name) && c.labs[id.name] == LabelType::Iteration),
        Stmt::Cont(_, None, _) => m == 0 ==> c.iter,
        Stmt::With(_, e, b) => m != 1 && m != 2 && XE(e, m) && XS(*b, c, m),
        Stmt::Switch(_, e, s) => XE(e, m) && x_cases(s@, cx_switch(c), m) && (m == 0 ==> one_default(s@)),
        Stmt::Return(_, e, _) => (m == 0 ==> c.fun) && (e matches Some(e) ==> XE(e, m)),
        Stmt::Throw(_, e, _) => XE(e, m),
        Stmt::Try(_, b, k, f) => x_list(b.items@, c, m) && (m == 0 ==> k is Some || f is Some)
            && (k matches Some(k) ==> x_catch(*k, c, m)) && (f matches Some(f) ==> x_list(f.items@, c, m)),
        Stmt::While(_, e, b) => XE(e, m) && XS(*b, cx_loop(c), m),
        Stmt::DoWhile(_, b, e, _) => XE(e, m) && XS(*b, cx_loop(c), m),
        Stmt::For(_, h, t, u, b) => (h matches Some(h) ==> x_head(*h, m)) && (t matches Some(t) ==> XE(t, m)) && (u matches Some(u) ==> XE(u, m)) && XS(*b, cx_loop(c), m),
        Stmt::ForIn(_, h, e, b) => x_ihead(*h, m) && XE(e, m) && XS(*b, cx_loop(c), m),
        Stmt::ForOf(_, h, e, b) => x_ohead(*h, m) && XE(e, m) && XS(*b, cx_loop(c), m),
    }
}
spec fn top_ok(b: Script, m: int) -> bool { x_list(b.items@, cx_top(), top_mode(b.dirs@, m)) }
spec fn x_mitem(x: ModItem, m: int) -> bool { match x { ModItem::StmtListItem(i) => x_sitem(i, cx_top(), m), _ => true } }
spec fn x_mlist(s: Seq<ModItem>, m: int) -> bool { forall|i: int| 0 <= i < s.len() ==> x_mitem(#[trigger] s[i], m) }

// ---------------------------------------------------------------- parts of expressions and statements
spec fn x_deref(d: Deref, m: int) -> bool { d matches Deref::Brack(e, _) ==> XE(e, m) }
spec fn x_suffix(s: Suffix, m: int) -> bool { match s { Suffix::Deref(d) => x_deref(d, m), Suffix::Arguments(a) => x_items(a.args@, m) } }
spec fn all_frames(fs: Seq<Frame>, m: int) -> bool { forall|i: int| 0 <= i < fs.len() ==> XE((#[trigger] fs[i]).left, m) }
// the labels of a labelled statement, up to the k-th
spec fn labs_up(m0: Map<Name, LabelType>, ls: Seq<Id>, k: int, t: LabelType) -> Map<Name, LabelType>
    decreases k
{ if k <= 0 { m0 } else { labs_up(m0, ls, k - 1, t).insert(ls[k - 1].name, t) } }
spec fn cx_labs(c: Cx, ls: Seq<Id>, k: int, t: LabelType) -> Cx { Cx { labs: labs_up(c.labs, ls, k, t), ..c } }
spec fn labs_new(m0: Map<Name, LabelType>, ls: Seq<Id>, k: int, t: LabelType) -> bool { forall|i: int| 0 <= i < k ==> !labs_up(m0, ls, i, t).contains_key((#[trigger] ls[i]).name) }
spec fn x_labels(ls: Seq<Id>, m: int) -> bool { forall|i: int| 0 <= i < ls.len() ==> x_id(#[trigger] ls[i], false, m) }
// .. and in reverse
spec fn labs_rev(m0: Map<Name, LabelType>, s: Seq<Id>, t: LabelType) -> Map<Name, LabelType>
    decreases s.len()
{ if s.len() == 0 { m0 } else { labs_rev(m0, s.subrange(1, s.len() as int), t).insert(s[0].name, t) } }
spec fn labs_rnew(m0: Map<Name, LabelType>, s: Seq<Id>, t: LabelType) -> bool
    decreases s.len()
{ s.len() > 0 ==> !labs_rev(m0, s.subrange(1, s.len() as int), t).contains_key(s[0].name) && labs_rnew(m0, s.subrange(1, s.len() as int), t) }
spec fn cx_lrev(c: Cx, s: Seq<Id>, t: LabelType) -> Cx { Cx { labs: labs_rev(c.labs, s, t), ..c } }
proof fn labs_up_ext(m0: Map<Name, LabelType>, a: Seq<Id>, b: Seq<Id>, k: int, t: LabelType)
    requires 0 <= k <= a.len(), k <= b.len(), forall|i: int| 0 <= i < k ==> a[i] == b[i],
    ensures labs_up(m0, a, k, t) == labs_up(m0, b, k, t)
    decreases k
{ if k > 0 { labs_up_ext(m0, a, b, k - 1, t); } }
broadcast proof fn labs_rev_up(m0: Map<Name, LabelType>, ls: Seq<Id>, t: LabelType)
    requires labs_new(m0, ls, ls.len() as int, t),
    ensures #[trigger] labs_rev(m0, ls.reverse(), t) == labs_up(m0, ls, ls.len() as int, t), labs_rnew(m0, ls.reverse(), t)
    decreases ls.len()
{
    let n = ls.len() as int;
    if n > 0 {
        let l2 = ls.subrange(0, n - 1);
        assert(ls.reverse().subrange(1, n) =~= l2.reverse());
        assert forall|i: int| 0 <= i < n - 1 implies !labs_up(m0, l2, i, t).contains_key((#[trigger] l2[i]).name) by {
            labs_up_ext(m0, ls, l2, i, t);
            assert(l2[i] == ls[i]);
        }
        labs_rev_up(m0, l2, t);
        labs_up_ext(m0, ls, l2, n - 1, t);
        assert(!labs_up(m0, ls, n - 1, t).contains_key(ls[n - 1].name));
    }
}
broadcast proof fn labs_rnew_up(m0: Map<Name, LabelType>, ls: Seq<Id>, t: LabelType)
    requires labs_new(m0, ls, ls.len() as int, t),
    ensures #[trigger] labs_rnew(m0, ls.reverse(), t)
{ labs_rev_up(m0, ls, t); }
spec fn x_ofor(h: Option<Box<ForHead>>, m: int) -> bool { h matches Some(h) ==> x_head(*h, m) }
// a check that is neither failed at once nor dropped
spec fn put_off<I>(p: Parser<I>, c: Option<Check>) -> bool {
    p.context.strict != Strict::No && c is Some && (c->0 is Strict || p.goal != Goal::Script)
}
spec fn dirs_done<I>(a: Parser<I>, b: Parser<I>, ds: Seq<Dir>) -> bool {
    (has_dir(ds, use_strict()) ==> b.context.strict == Strict::Yes)
    && (has_dir(ds, use_module()) && !a.context.function ==> b.goal == Goal::Module && b.context.strict == Strict::Yes)
    && (!has_dir(ds, use_strict()) && !(has_dir(ds, use_module()) && !a.context.function) ==> b.context.strict == a.context.strict && b.goal == a.goal)
}
broadcast proof fn has_push(s: Seq<Dir>, d: Dir, t: Seq<char>)
    ensures #[trigger] has_dir(s.push(d), t) == (has_dir(s, t) || sp_pragma(d) == t)
{
    let s2 = s.push(d);
    if has_dir(s, t) {
        let i = choose|i: int| 0 <= i < s.len() && sp_pragma(#[trigger] s[i]) == t;
        assert(sp_pragma(s2[i]) == t);
    }
    if sp_pragma(d) == t { assert(sp_pragma(s2[s.len() as int]) == t); }
}
// two strings are equal if their characters are
#[verifier::external_body]
broadcast proof fn axiom_str_ext(a: &str, b: &str)
    requires #[trigger] a@ == #[trigger] b@,
    ensures a == b { }

// an assignment's left-hand side is judged as the expression it is spelled as
proof fn x_cover_tgt(e: Expr, t: AssignTarget, m: int)
    requires XE(e, m), sp_target(e) == Some(t),
    ensures x_tgt(t, m)
{ }
broadcast proof fn x_cover_target(e: Expr, m: int)
    requires sp_target(e) is Some, #[trigger] XE(e, m),
    ensures x_tgt((#[trigger] sp_target(e))->0, m)
{ x_cover_tgt(e, sp_target(e)->0, m); }
broadcast proof fn x_cover(e: Expr, p: Patt<AssignTarget>, m: int)
    requires #[trigger] is_patt(e, p), #[trigger] XE(e, m),
    ensures x_pt(p, m)
    decreases e
{
    match e {
        Expr::Obj(_, props) => {
            let ps = p->Compound_0->Obj_1;
            assert(x_props(props@, m));
            assert forall|i: int| 0 <= i < ps@.len() implies x_ppt(#[trigger] ps@[i], m) by {
                assert(x_prop(props@[i], m));
                assert(is_prop_patt(props@[i], ps@[i]));
                match props@[i] {
                    Prop::Regular(_, _, PropVal::Init(e2)) => { x_cover(e2, ps@[i]->Regular_2, m); }
                    _ => { }
                }
            }
        }
        Expr::Arr(_, xs) => {
            let ps = p->Compound_0->Arr_1;
            let rest = p->Compound_0->Arr_2;
            assert(x_elts(xs@, m));
            assert forall|i: int| 0 <= i < ps@.len() implies x_opt_pt(#[trigger] ps@[i], m) by {
                assert(x_elt(xs@[i], m));
                assert(is_elt_patt(xs@[i], ps@[i]));
                match xs@[i] {
                    Some(ExprListItem::Expr(e2)) => { x_cover(e2, ps@[i]->0, m); }
                    _ => { }
                }
            }
            if rest is Some {
                assert(x_elt(xs@[xs@.len() - 1], m));
                let e2 = xs@[xs@.len() - 1]->0->Spread_1;
                x_cover(e2, rest->0.patt, m);
            }
        }
        _ => { x_cover_tgt(e, p->Simple_0, m); }
    }
}

// errors that only the rules of jumps give
spec fn jump_err(e: Error) -> bool {
    e is IllegalBreak || e is IllegalContinue || e is InvalidLabel || e is InvalidLabelType || e is DuplicateDefault || e is OrphanTry || e is TopLevelReturn
}
