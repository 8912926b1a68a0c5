# Constructors of the tree and the cover grammar (C22); shared by the parser and the estree units

fn Id:IdExt::new(name, location) -> r
  ens: r == (Id { location: location, name: name })

fn Id:IdExt::into_patt() -> r
  ens: r == Patt::<Id>::Simple(self)

fn Id:IdExt::into_expr() -> r
  ens: r == Expr::Id(self)

fn Patt::is_simple() -> r
  ens: r == (self is Simple)

fn Dtor:DtorExt::from_compound_init(lhs, rhs) -> r
  ens: r matches Dtor::Compound(_, p, e) && p == lhs && e == rhs

fn Dtor:DtorExt::from_simple_init(lhs, rhs) -> r
  ens: r matches Dtor::Simple(_, p, e) && p == lhs && e == Some(rhs)

fn Dtor:DtorExt::from_init(lhs, rhs) -> r
  ens: lhs matches Patt::Simple(id) ==> r matches Dtor::Simple(_, p, e) && p == id && e == Some(rhs)
  ens: lhs matches Patt::Compound(c) ==> r matches Dtor::Compound(_, p, e) && p == c && e == rhs

fn Dtor:DtorExt::from_init_opt(lhs, rhs) -> r
  ens: lhs matches Patt::Simple(id) ==> r matches Ok(Dtor::Simple(_, p, e)) && p == id && e == rhs
  ens: lhs matches Patt::Compound(c) ==> if rhs is Some { r matches Ok(Dtor::Compound(_, p, e)) && p == c && e == rhs->0 } else { r == Err::<Dtor, Patt<Id>>(lhs) }

fn ConstDtor:DtorExt::from_compound_init(lhs, rhs) -> r
  ens: r.patt == Patt::<Id>::Compound(lhs) && r.value == rhs

fn ConstDtor:DtorExt::from_simple_init(lhs, rhs) -> r
  ens: r.patt == Patt::Simple(lhs) && r.value == rhs

fn ConstDtor:DtorExt::from_init(lhs, rhs) -> r
  ens: r.patt == lhs && r.value == rhs

fn ConstDtor:DtorExt::from_init_opt(lhs, rhs) -> r
  ens: rhs matches Some(e) ==> r matches Ok(d) && d.patt == lhs && d.value == e
  ens: rhs is None ==> r == Err::<ConstDtor, Patt<Id>>(lhs)

fn Expr:IntoAssignTarget::into_assign_target() -> r
  ens[C22]: r matches Ok(t) ==> sp_target(self) == Some(t)
  ens[C22]: r matches Err(e) ==> sp_target(self) is None && e == CoverError::InvalidAssignTarget(self.loc())
fn Expr:IntoAssignPatt::into_assign_patt() -> r
  dec: self
  ens[C22]: r matches Ok(p) ==> is_patt(self, p)
  ens[C22]: r is Ok <==> can_patt(self)
  loop 0
    inv: self matches Expr::Obj(_, ps) && vp_it0@.len() <= ps@.len()
    inv[C22]: forall|k: int| 0 <= k < vp_it0@.len() ==> #[trigger] vp_it0@[k] == self->Obj_1@[self->Obj_1@.len() - vp_it0@.len() + k]
    inv[C22]: prop_patts@.len() == self->Obj_1@.len() - vp_it0@.len()
    inv[C22]: forall|k: int| 0 <= k < prop_patts@.len() ==> is_prop_patt(self->Obj_1@[k], #[trigger] prop_patts@[k])
    inv[C22]: forall|k: int| 0 <= k < prop_patts@.len() ==> can_prop(#[trigger] self->Obj_1@[k])
    ens: vp_it0@.len() == 0
    dec: vp_it0@.len()
  loop 1
    inv: self matches Expr::Arr(_, xs) && vp_it1@.len() <= xs@.len()
    inv[C22]: is_rest(self->Arr_1@, rest)
    inv[C22]: vp_it1@.len() + patts@.len() == self->Arr_1@.len() - (if rest is Some { 1int } else { 0int })
    inv[C22]: forall|k: int| 0 <= k < vp_it1@.len() ==> #[trigger] vp_it1@[k] == self->Arr_1@[patts@.len() + k]
    inv[C22]: forall|k: int| 0 <= k < patts@.len() ==> is_elt_patt(self->Arr_1@[k], #[trigger] patts@[k])
    inv[C22]: forall|k: int| 0 <= k < patts@.len() ==> can_elt(#[trigger] self->Arr_1@[k])
    ens: vp_it1@.len() == 0
    dec: vp_it1@.len()
fn Prop:IntoAssignProp::into_assign_prop() -> r
  dec: self
  ens[C22]: r matches Ok(p) ==> is_prop_patt(self, p)
  ens[C22]: r is Ok <==> can_prop(self)

