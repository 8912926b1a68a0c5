// ---------------------------------------------------------------- what an assignment may go to
spec fn sp_target(e: Expr) -> Option<AssignTarget> {
    match e {
        Expr::Id(id) => Some(AssignTarget::Id(id)),
        Expr::Dot(l, o, k) => Some(AssignTarget::Dot(l, o, k)),
        Expr::Brack(l, o, k) => Some(AssignTarget::Brack(l, o, k)),
        _ => None,
    }
}
// p is the pattern that e spells
spec fn is_patt(e: Expr, p: Patt<AssignTarget>) -> bool
    decreases e
{
    match e {
        Expr::Obj(l, props) => p matches Patt::Compound(CompoundPatt::Obj(l2, ps)) && l2 == l && ps@.len() == props@.len()
            && forall|i: int| 0 <= i < props@.len() ==> is_prop_patt(props@[i], #[trigger] ps@[i]),
        Expr::Arr(l, xs) => p matches Patt::Compound(CompoundPatt::Arr(l2, ps, rest)) && l2 == l
            && ps@.len() == xs@.len() - (if rest is Some { 1int } else { 0int })
            && is_rest(xs@, rest)
            && forall|i: int| 0 <= i < ps@.len() ==> is_elt_patt(xs@[i], #[trigger] ps@[i]),
        _ => p matches Patt::Simple(t) && sp_target(e) == Some(t),
    }
}
spec fn is_prop_patt(x: Prop, p: PropPatt<AssignTarget>) -> bool
    decreases x
{
    match x {
        Prop::Regular(l, key, PropVal::Init(e)) => p matches PropPatt::Regular(l2, key2, q) && l2 == l && key2 == key && is_patt(e, q),
        Prop::Shorthand(id) => p == PropPatt::<AssignTarget>::Shorthand(id),
        _ => false,
    }
}
spec fn is_elt_patt(x: Option<ExprListItem>, p: Option<Patt<AssignTarget>>) -> bool
    decreases x
{
    match x {
        None => p is None,
        Some(ExprListItem::Expr(e)) => p matches Some(q) && is_patt(e, q),
        Some(ExprListItem::Spread(_, _)) => false,
    }
}
// the last element is the rest of the pattern exactly if it is a spread
spec fn is_rest(xs: Seq<Option<ExprListItem>>, rest: Option<Box<RestPatt<AssignTarget>>>) -> bool
    decreases xs
{
    if xs.len() == 0 { rest is None } else {
        match xs[xs.len() - 1] {
            Some(ExprListItem::Spread(l, e)) => rest matches Some(r) && r.location == l && is_patt(e, r.patt),
            _ => rest is None,
        }
    }
}
spec fn can_patt(e: Expr) -> bool
    decreases e
{
    match e {
        Expr::Obj(_, props) => forall|i: int| 0 <= i < props@.len() ==> can_prop(#[trigger] props@[i]),
        Expr::Arr(_, xs) => forall|i: int| 0 <= i < xs@.len() ==> (can_elt(#[trigger] xs@[i]) || i == xs@.len() - 1 && can_rest(xs@[i])),
        _ => sp_target(e) is Some,
    }
}
spec fn can_prop(x: Prop) -> bool
    decreases x
{
    match x {
        Prop::Regular(_, _, PropVal::Init(e)) => can_patt(e),
        Prop::Shorthand(_) => true,
        _ => false,
    }
}
spec fn can_elt(x: Option<ExprListItem>) -> bool
    decreases x
{
    match x {
        None => true,
        Some(ExprListItem::Expr(e)) => can_patt(e),
        Some(ExprListItem::Spread(_, _)) => false,
    }
}
spec fn can_rest(x: Option<ExprListItem>) -> bool
    decreases x
{
    x matches Some(ExprListItem::Spread(_, e)) && can_patt(e)
}
