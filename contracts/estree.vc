# An ESTree document is read into exactly the tree it describes (C25)

inject impl Tag:FromStr
    open spec fn spelled(self, s: Seq<char>) -> bool { tag_named(s) == Some(self) }

inject impl UnopTag:FromStr
    open spec fn spelled(self, s: Seq<char>) -> bool { unop_named(s) == Some(self) }

inject impl BinopTag:FromStr
    open spec fn spelled(self, s: Seq<char>) -> bool { binop_named(s) == Some(self) }

inject impl LogopTag:FromStr
    open spec fn spelled(self, s: Seq<char>) -> bool { logop_named(s) == Some(self) }

inject impl AssopTag:FromStr
    open spec fn spelled(self, s: Seq<char>) -> bool { assop_named(s) == Some(self) }

inject impl Op:FromStr
    open spec fn spelled(self, s: Seq<char>) -> bool { self.tag.spelled(s) }

fn e_type_error(expected, actual) -> r
  ens: r is Err

fn e_field_error(name) -> r
  ens: r is Err

fn e_array_error(expected, actual) -> r
  ens: r is Err

fn e_index_error(len, index) -> r
  ens: r is Err

fn e_string_error(expected, actual) -> r
  ens: r is Err

fn node_type_error(expected, actual) -> r
  ens: r is Err

fn tag_error(actual) -> r
  ens: r is Err

fn Tag:FromStr::from_str(s) -> r
  ens: r is Err ==> tag_named(s@) is None
  use: axiom_str
  entry: reveal(tag_named);

fn UnopTag:FromStr::from_str(s) -> r
  ens: r is Err ==> unop_named(s@) is None
  use: axiom_str
  entry: reveal(unop_named);

fn BinopTag:FromStr::from_str(s) -> r
  ens: r is Err ==> binop_named(s@) is None
  use: axiom_str
  entry: reveal(binop_named);

fn LogopTag:FromStr::from_str(s) -> r
  ens: r is Err ==> logop_named(s@) is None
  use: axiom_str
  entry: reveal(logop_named);

fn AssopTag:FromStr::from_str(s) -> r
  ens: r is Err ==> assop_named(s@) is None
  use: axiom_str
  entry: reveal(assop_named);

fn Op:FromStr::from_str(s) -> r
  ens: true

fn EError:From<Error>::from(error) -> r
  ens: true

fn Object:TagOf::tag() -> r
  entry: keys();
  ens[C25]: r matches Ok(t) ==> tag_of(*self) == Some(t)
  ens[C25]: r is Err ==> tag_of(*self) is None

fn Object:IntoId::into_id() -> r
  entry: keys();
  ens[C25]: r matches Ok(x) ==> d_id(self, x)
  ens[C25]: r is Err ==> !wf_id(self)

fn Object:IntoPatt::into_patt() -> r
  entry: keys();
  ens[C25]: r matches Ok(x) ==> d_bind(self, x)
  ens[C25]: r is Err ==> !wf_id(self)

fn Object:IntoScript::into_script() -> r
  dec: osz(self), 2int
  entry: keys();
  ens[C25]: r matches Ok(x) ==> d_script(fld(self, "body"@), x)
  ens[C25]: r is Err ==> !wf_sis(fld(self, "body"@))

fn String:IntoStringLiteral::into_string_literal() -> r
  ens[C25]: r.source is None && r.value == self

fn i64:IntoNumberLiteral::into_number_literal() -> r
  ens[C25]: r.value == f64_of_i64(self)

fn u64:IntoNumberLiteral::into_number_literal() -> r
  ens[C25]: r.value == f64_of_u64(self)

fn f64:IntoNumberLiteral::into_number_literal() -> r
  ens[C25]: r.value == self && r.source is None

fn Object:IntoFun<Id>::into_fun(id) -> r
  dec: osz(self), 2int
  entry: keys();
  ens[C25]: r matches Ok(f) ==> f.id == id && d_fun(self, f.params, f.body, f.generator)
  ens[C25]: r is Err ==> !wf_fun(self)

fn Object:IntoDecl::into_dtor() -> r
  dec: osz(self), 4int
  entry: keys();
  ens[C25]: r matches Ok(x) ==> d_dtor(self, x)
  ens[C25]: r is Err ==> !wf_dtor(self)

fn Object:IntoObj::into_prop() -> r
  dec: osz(self), 4int
  entry: lit("init"); lit("get"); lit("set");
  entry: keys();
  ens[C25]: r matches Ok(x) ==> d_prop(self, x)
  ens[C25]: r is Err ==> !wf_prop(self)

fn Object:IntoObj::into_prop_key() -> r
  entry: keys();
  ens[C25]: r matches Ok(x) ==> d_key(self, x)
  ens[C25]: r is Err ==> !wf_key(self)

fn Object:IntoExpr::into_expr() -> r
  attr: #[verifier::rlimit(300)]
  entry: lemma_ops();
  dec: osz(self), 3int
  entry: lit("="); lit("++"); lit("--"); lit("new"); lit("target");
  entry: keys();
  ens[C25]: r matches Ok(x) ==> d_expr(self, x)
  ens[C25]: r is Err ==> !wf_expr(self)

fn Object:IntoExpr::into_expr_list_item() -> r
  dec: osz(self), 4int
  entry: keys();
  ens[C25]: r matches Ok(x) ==> d_item(self, x)
  ens[C25]: r is Err ==> !wf_item(self)

fn Object:IntoExpr::into_lit() -> r
  entry: keys();
  ens[C25]: r matches Ok(x) ==> d_lit(self, x)
  ens[C25]: r is Err ==> !wf_lit(self)

fn Object:IntoForHead::into_for_head() -> r
  entry: lemma_consts(fld(self, "declarations"@));
  dec: osz(self), 4int
  entry: lit("var"); lit("let"); lit("const");
  entry: keys();
  ens[C25]: r matches Ok(x) ==> d_for_head(self, x)
  ens[C25]: r is Err ==> !wf_for_head(self)

fn Object:IntoForInHead::into_for_in_head() -> r
  entry: reveal_with_fuel(d_in_head, 2);
  entry: lemma_pats(self);
  dec: osz(self), 4int
  entry: lit("var"); lit("let"); lit("const");
  entry: keys();
  ens[C25]: r matches Ok(x) ==> d_in_head(self, x)
  ens[C25]: r is Err ==> !wf_enum_head(self, true)

fn Object:IntoForOfHead::into_for_of_head() -> r
  entry: reveal_with_fuel(d_of_head, 2);
  entry: lemma_pats(self);
  dec: osz(self), 4int
  entry: lit("var"); lit("let"); lit("const");
  entry: keys();
  ens[C25]: r matches Ok(x) ==> d_of_head(self, x)
  ens[C25]: r is Err ==> !wf_enum_head(self, false)

fn Object:IntoStmt::into_stmt() -> r
  dec: osz(self), 6int
  entry: keys();
  ens[C25]: r matches Ok(x) ==> d_stmt(self, x)
  ens[C25]: r is Err ==> !wf_stmt(self)

fn Object:IntoStmt::into_stmt_list_item() -> r
  dec: osz(self), 6int
  entry: keys();
  ens[C25]: r matches Ok(x) ==> d_si(self, x)
  ens[C25]: r is Err ==> !wf_si(self)

fn Object:IntoStmt::into_case() -> r
  dec: osz(self), 4int
  entry: keys();
  ens[C25]: r matches Ok(x) ==> d_case(self, x)
  ens[C25]: r is Err ==> !wf_case(self)

fn Object:IntoStmt::into_catch() -> r
  dec: osz(self), 4int
  entry: keys();
  ens[C25]: r matches Ok(x) ==> d_catch(self, x)
  ens[C25]: r is Err ==> !wf_catch(self)

fn Object:IntoStmt::into_block() -> r
  dec: osz(self), 4int
  entry: keys();
  ens[C25]: r matches Ok(x) ==> d_block(self, x)
  ens[C25]: r is Err ==> !wf_block(self)

fn into_stmt_list_item(this, allow_decl) -> r
  attr: #[verifier::rlimit(300)]
  entry: lemma_consts(fld(this, "declarations"@));
  dec: osz(this), 5int
  entry: lit("var"); lit("let"); lit("const");
  entry: keys();
  ens[C25]: r matches Ok(x) ==> allow_decl || x is Stmt
  ens[C25]: r matches Ok(x) ==> match x { StmtListItem::Stmt(s) => d_stmt(this, s), StmtListItem::Decl(_) => d_si(this, x) }
  ens[C25]: r is Err ==> !wf_st(this, allow_decl)

fn Vec:IntoConst::into_const() -> r
  ens[C25]: r matches Ok(x) ==> consts_of(self@, x@)
  ens[C25]: r is Err ==> exists|i: int| 0 <= i < self@.len() && (#[trigger] self@[i] matches Dtor::Simple(_, _, None))
  loop 0
    inv: vp_it0@.len() + vp_o0@.len() == self@.len()
    inv: vp_it0@ == self@.skip(self@.len() - vp_it0@.len())
    inv[C25]: forall|i: int| 0 <= i < vp_o0@.len() ==> const_of(#[trigger] self@[i], vp_o0@[i])
    ens: vp_it0@.len() == 0
    dec: vp_it0@.len()

fn Stmt::is_directive() -> r
  ens[C25]: r == (*self matches Stmt::Expr(_, Expr::String(_, _), _))

fn Stmt::to_directive() -> r
  ens[C25]: r matches Some(d) ==> as_dir(StmtListItem::Stmt(*self), d)
  ens[C25]: r is None ==> !is_dir(StmtListItem::Stmt(*self))

fn StmtListItem::is_directive() -> r
  ens[C25]: r == is_dir(*self)

fn StmtListItem::to_directive() -> r
  ens[C25]: r matches Some(d) ==> as_dir(*self, d)
  ens[C25]: r is None ==> !is_dir(*self)

fn Object:ExtractNode::extract_id(name) -> r
  entry: keys();
  ens: rest(*old(self), *final(self), name@)
  ens[C25]: r matches Ok(x) ==> d_idx(fld(*old(self), name@), x)
  ens[C25]: r is Err ==> !wf_idx(fld(*old(self), name@))

fn Object:ExtractNode::extract_id_opt(name) -> r
  entry: keys();
  ens: rest(*old(self), *final(self), name@)
  ens[C25]: r matches Ok(x) ==> d_ido(fld(*old(self), name@), x)
  ens[C25]: r is Err ==> !wf_ido(fld(*old(self), name@))

fn Object:ExtractNode::extract_assign_target(name) -> r
  entry: lemma_patx(fld(*old(self), name@));
  dec: osz(*old(self)), 1int
  entry: keys();
  ens: rest(*old(self), *final(self), name@)
  ens[C25]: r matches Ok(x) ==> d_target(fld(*old(self), name@), x)
  ens[C25]: r is Err ==> !wf_target(fld(*old(self), name@))

fn Object:ExtractNode::extract_assign_patt(name) -> r
  entry: lemma_patx(fld(*old(self), name@));
  dec: osz(*old(self)), 1int
  entry: keys();
  ens: rest(*old(self), *final(self), name@)
  ens[C25]: r matches Ok(x) ==> d_patt(fld(*old(self), name@), x)
  ens[C25]: r is Err ==> !wf_patt(fld(*old(self), name@))

fn Object:ExtractNode::extract_stmt(name) -> r
  dec: osz(*old(self)), 0int
  entry: keys();
  ens: rest(*old(self), *final(self), name@)
  ens[C25]: r matches Ok(x) ==> d_stx(fld(*old(self), name@), x)
  ens[C25]: r is Err ==> !wf_stx(fld(*old(self), name@))

fn Object:ExtractNode::extract_expr(name) -> r
  dec: osz(*old(self)), 0int
  entry: keys();
  ens: rest(*old(self), *final(self), name@)
  ens[C25]: r matches Ok(x) ==> d_x(fld(*old(self), name@), x)
  ens[C25]: r is Err ==> !wf_x(fld(*old(self), name@))

fn Object:ExtractNode::extract_expr_opt(name) -> r
  dec: osz(*old(self)), 0int
  entry: keys();
  ens: rest(*old(self), *final(self), name@)
  ens[C25]: r matches Ok(x) ==> d_xo(fld(*old(self), name@), x)
  ens[C25]: r is Err ==> !wf_xo(fld(*old(self), name@))

fn Object:ExtractNode::extract_stmt_opt(name) -> r
  dec: osz(*old(self)), 0int
  entry: keys();
  ens: rest(*old(self), *final(self), name@)
  ens[C25]: r matches Ok(x) ==> d_sto(fld(*old(self), name@), x)
  ens[C25]: r is Err ==> !wf_sto(fld(*old(self), name@))

fn Object:ExtractNode::extract_block(name) -> r
  dec: osz(*old(self)), 0int
  entry: keys();
  ens: rest(*old(self), *final(self), name@)
  ens[C25]: r matches Ok(x) ==> d_blockx(fld(*old(self), name@), x)
  ens[C25]: r is Err ==> !wf_blockx(fld(*old(self), name@))

fn Object:ExtractNode::extract_patt(name) -> r
  entry: keys();
  ens: rest(*old(self), *final(self), name@)
  ens[C25]: r matches Ok(x) ==> d_bindx(fld(*old(self), name@), x)
  ens[C25]: r is Err ==> !wf_idx(fld(*old(self), name@))

fn Object:ExtractNode::extract_catch_opt(name) -> r
  dec: osz(*old(self)), 0int
  entry: keys();
  ens: rest(*old(self), *final(self), name@)
  ens[C25]: r matches Ok(x) ==> d_catcho(fld(*old(self), name@), x)
  ens[C25]: r is Err ==> !wf_catcho(fld(*old(self), name@))

fn Object:ExtractNode::extract_script(name) -> r
  dec: osz(*old(self)), 1int
  entry: keys();
  ens: rest(*old(self), *final(self), name@)
  ens[C25]: r matches Ok(x) ==> d_script(fld(*old(self), name@), x)
  ens[C25]: r is Err ==> !wf_sis(fld(*old(self), name@))
  entry: lemma_script(fld(*old(self), name@));
  loop 0
    inv: vp_j0 <= v@.len()
    inv[C25]: forall|i: int| 0 <= i < vp_j0 && vp_q0 is None ==> is_dir(#[trigger] v@[i])
    inv[C25]: vp_q0 matches Some(q) ==> q < v@.len() && !is_dir(v@[q as int]) && forall|i: int| 0 <= i < q ==> is_dir(#[trigger] v@[i])
    dec: v@.len() - vp_j0
  loop 1
    inv: vp_j1 <= list@.len()
    inv[C25]: forall|i: int| 0 <= i < list@.len() ==> is_dir(#[trigger] list@[i])
    inv[C25]: vp_o1@.len() == vp_j1 && forall|i: int| #![trigger list@[i]] #![trigger vp_o1@[i]] 0 <= i < vp_j1 ==> as_dir(list@[i], vp_o1@[i])
    dec: list@.len() - vp_j1

fn Object:ExtractNode::extract_expr_list(name) -> r
  dec: osz(*old(self)), 0int
  entry: keys();
  ens: rest(*old(self), *final(self), name@)
  ens[C25]: r matches Ok(x) ==> d_items(fld(*old(self), name@), x@)
  ens[C25]: r is Err ==> !wf_items(fld(*old(self), name@))
  loop 0
    inv: fits(fld(*old(self), name@), *old(self)) && self@ == old(self)@.remove(name@)
    inv: vp_it0@.len() + list__h@.len() == arr(fld(*old(self), name@))->0.len()
    inv: vp_it0@ == arr(fld(*old(self), name@))->0.skip(arr(fld(*old(self), name@))->0.len() - vp_it0@.len())
    inv[C25]: objs_upto(arr(fld(*old(self), name@))->0, list__h@)
    inv: small(list__h@, fld(*old(self), name@))
    ens: vp_it0@.len() == 0
    dec: vp_it0@.len()
  loop 1
    inv: fits(fld(*old(self), name@), *old(self)) && self@ == old(self)@.remove(name@)
    inv: vp_it1@.len() + list@.len() == arr(fld(*old(self), name@))->0.len()
    inv: vp_it1@ == objs@.skip(objs@.len() - vp_it1@.len())
    inv: objs@.len() == arr(fld(*old(self), name@))->0.len() && objs_upto(arr(fld(*old(self), name@))->0, objs@) && small(objs@, fld(*old(self), name@))
    inv[C25]: forall|i: int| 0 <= i < list@.len() ==> (obj_of(#[trigger] arr(fld(*old(self), name@))->0[i]) matches Some(c) && d_item(c, list@[i]))
    ens: vp_it1@.len() == 0
    dec: vp_it1@.len()

fn Object:ExtractNode::extract_exprs(name) -> r
  dec: osz(*old(self)), 0int
  entry: keys();
  ens: rest(*old(self), *final(self), name@)
  ens[C25]: r matches Ok(x) ==> d_exprs(fld(*old(self), name@), x@)
  ens[C25]: r is Err ==> !wf_exprs(fld(*old(self), name@))
  loop 0
    inv: fits(fld(*old(self), name@), *old(self)) && self@ == old(self)@.remove(name@)
    inv: vp_it0@.len() + list__h@.len() == arr(fld(*old(self), name@))->0.len()
    inv: vp_it0@ == arr(fld(*old(self), name@))->0.skip(arr(fld(*old(self), name@))->0.len() - vp_it0@.len())
    inv[C25]: objs_upto(arr(fld(*old(self), name@))->0, list__h@)
    inv: small(list__h@, fld(*old(self), name@))
    ens: vp_it0@.len() == 0
    dec: vp_it0@.len()
  loop 1
    inv: fits(fld(*old(self), name@), *old(self)) && self@ == old(self)@.remove(name@)
    inv: vp_it1@.len() + list@.len() == arr(fld(*old(self), name@))->0.len()
    inv: vp_it1@ == objs@.skip(objs@.len() - vp_it1@.len())
    inv: objs@.len() == arr(fld(*old(self), name@))->0.len() && objs_upto(arr(fld(*old(self), name@))->0, objs@) && small(objs@, fld(*old(self), name@))
    inv[C25]: forall|i: int| 0 <= i < list@.len() ==> (obj_of(#[trigger] arr(fld(*old(self), name@))->0[i]) matches Some(c) && d_expr(c, list@[i]))
    ens: vp_it1@.len() == 0
    dec: vp_it1@.len()

fn Object:ExtractNode::extract_stmt_list(name) -> r
  dec: osz(*old(self)), 0int
  entry: keys();
  ens: rest(*old(self), *final(self), name@)
  ens[C25]: r matches Ok(x) ==> d_sis(fld(*old(self), name@), x@)
  ens[C25]: r is Err ==> !wf_sis(fld(*old(self), name@))
  loop 0
    inv: fits(fld(*old(self), name@), *old(self)) && self@ == old(self)@.remove(name@)
    inv: vp_it0@.len() + list__h@.len() == arr(fld(*old(self), name@))->0.len()
    inv: vp_it0@ == arr(fld(*old(self), name@))->0.skip(arr(fld(*old(self), name@))->0.len() - vp_it0@.len())
    inv[C25]: objs_upto(arr(fld(*old(self), name@))->0, list__h@)
    inv: small(list__h@, fld(*old(self), name@))
    ens: vp_it0@.len() == 0
    dec: vp_it0@.len()
  loop 1
    inv: fits(fld(*old(self), name@), *old(self)) && self@ == old(self)@.remove(name@)
    inv: vp_it1@.len() + list@.len() == arr(fld(*old(self), name@))->0.len()
    inv: vp_it1@ == objs@.skip(objs@.len() - vp_it1@.len())
    inv: objs@.len() == arr(fld(*old(self), name@))->0.len() && objs_upto(arr(fld(*old(self), name@))->0, objs@) && small(objs@, fld(*old(self), name@))
    inv[C25]: forall|i: int| 0 <= i < list@.len() ==> (obj_of(#[trigger] arr(fld(*old(self), name@))->0[i]) matches Some(c) && d_si(c, list@[i]))
    ens: vp_it1@.len() == 0
    dec: vp_it1@.len()

fn Object:ExtractNode::extract_prop_list(name) -> r
  dec: osz(*old(self)), 0int
  entry: keys();
  ens: rest(*old(self), *final(self), name@)
  ens[C25]: r matches Ok(x) ==> d_props(fld(*old(self), name@), x@)
  ens[C25]: r is Err ==> !wf_props(fld(*old(self), name@))
  loop 0
    inv: fits(fld(*old(self), name@), *old(self)) && self@ == old(self)@.remove(name@)
    inv: vp_it0@.len() + list__h@.len() == arr(fld(*old(self), name@))->0.len()
    inv: vp_it0@ == arr(fld(*old(self), name@))->0.skip(arr(fld(*old(self), name@))->0.len() - vp_it0@.len())
    inv[C25]: objs_upto(arr(fld(*old(self), name@))->0, list__h@)
    inv: small(list__h@, fld(*old(self), name@))
    ens: vp_it0@.len() == 0
    dec: vp_it0@.len()
  loop 1
    inv: fits(fld(*old(self), name@), *old(self)) && self@ == old(self)@.remove(name@)
    inv: vp_it1@.len() + list@.len() == arr(fld(*old(self), name@))->0.len()
    inv: vp_it1@ == objs@.skip(objs@.len() - vp_it1@.len())
    inv: objs@.len() == arr(fld(*old(self), name@))->0.len() && objs_upto(arr(fld(*old(self), name@))->0, objs@) && small(objs@, fld(*old(self), name@))
    inv[C25]: forall|i: int| 0 <= i < list@.len() ==> (obj_of(#[trigger] arr(fld(*old(self), name@))->0[i]) matches Some(c) && d_prop(c, list@[i]))
    ens: vp_it1@.len() == 0
    dec: vp_it1@.len()

fn Object:ExtractNode::extract_dtor_list(name) -> r
  dec: osz(*old(self)), 0int
  entry: keys();
  ens: rest(*old(self), *final(self), name@)
  ens[C25]: r matches Ok(x) ==> d_dtors(fld(*old(self), name@), x@)
  ens[C25]: r is Err ==> !wf_dtors(fld(*old(self), name@))
  loop 0
    inv: fits(fld(*old(self), name@), *old(self)) && self@ == old(self)@.remove(name@)
    inv: vp_it0@.len() + list__h@.len() == arr(fld(*old(self), name@))->0.len()
    inv: vp_it0@ == arr(fld(*old(self), name@))->0.skip(arr(fld(*old(self), name@))->0.len() - vp_it0@.len())
    inv[C25]: objs_upto(arr(fld(*old(self), name@))->0, list__h@)
    inv: small(list__h@, fld(*old(self), name@))
    ens: vp_it0@.len() == 0
    dec: vp_it0@.len()
  loop 1
    inv: fits(fld(*old(self), name@), *old(self)) && self@ == old(self)@.remove(name@)
    inv: vp_it1@.len() + list@.len() == arr(fld(*old(self), name@))->0.len()
    inv: vp_it1@ == objs@.skip(objs@.len() - vp_it1@.len())
    inv: objs@.len() == arr(fld(*old(self), name@))->0.len() && objs_upto(arr(fld(*old(self), name@))->0, objs@) && small(objs@, fld(*old(self), name@))
    inv[C25]: forall|i: int| 0 <= i < list@.len() ==> (obj_of(#[trigger] arr(fld(*old(self), name@))->0[i]) matches Some(c) && d_dtor(c, list@[i]))
    ens: vp_it1@.len() == 0
    dec: vp_it1@.len()

fn Object:ExtractNode::extract_case_list(name) -> r
  dec: osz(*old(self)), 0int
  entry: keys();
  ens: rest(*old(self), *final(self), name@)
  ens[C25]: r matches Ok(x) ==> d_cases(fld(*old(self), name@), x@)
  ens[C25]: r is Err ==> !wf_cases(fld(*old(self), name@))
  loop 0
    inv: fits(fld(*old(self), name@), *old(self)) && self@ == old(self)@.remove(name@)
    inv: vp_it0@.len() + list__h@.len() == arr(fld(*old(self), name@))->0.len()
    inv: vp_it0@ == arr(fld(*old(self), name@))->0.skip(arr(fld(*old(self), name@))->0.len() - vp_it0@.len())
    inv[C25]: objs_upto(arr(fld(*old(self), name@))->0, list__h@)
    inv: small(list__h@, fld(*old(self), name@))
    ens: vp_it0@.len() == 0
    dec: vp_it0@.len()
  loop 1
    inv: fits(fld(*old(self), name@), *old(self)) && self@ == old(self)@.remove(name@)
    inv: vp_it1@.len() + list@.len() == arr(fld(*old(self), name@))->0.len()
    inv: vp_it1@ == objs@.skip(objs@.len() - vp_it1@.len())
    inv: objs@.len() == arr(fld(*old(self), name@))->0.len() && objs_upto(arr(fld(*old(self), name@))->0, objs@) && small(objs@, fld(*old(self), name@))
    inv[C25]: forall|i: int| 0 <= i < list@.len() ==> (obj_of(#[trigger] arr(fld(*old(self), name@))->0[i]) matches Some(c) && d_case(c, list@[i]))
    ens: vp_it1@.len() == 0
    dec: vp_it1@.len()

fn Object:ExtractNode::extract_expr_opt_list(name) -> r
  dec: osz(*old(self)), 0int
  entry: keys();
  ens: rest(*old(self), *final(self), name@)
  ens[C25]: r matches Ok(x) ==> d_itemos(fld(*old(self), name@), x@)
  ens[C25]: r is Err ==> !wf_itemos(fld(*old(self), name@))
  loop 0
    inv: fits(fld(*old(self), name@), *old(self)) && self@ == old(self)@.remove(name@)
    inv: vp_it0@.len() + list__h@.len() == arr(fld(*old(self), name@))->0.len()
    inv: vp_it0@ == arr(fld(*old(self), name@))->0.skip(arr(fld(*old(self), name@))->0.len() - vp_it0@.len())
    inv[C25]: forall|i: int| 0 <= i < list__h@.len() ==> itemo(#[trigger] arr(fld(*old(self), name@))->0[i], list__h@[i])
    ens: vp_it0@.len() == 0
    dec: vp_it0@.len()

fn Object:ExtractNode::extract_params(name) -> r
  entry: keys();
  ens: rest(*old(self), *final(self), name@)
  ens[C25]: r matches Ok(x) ==> d_params(fld(*old(self), name@), x.list@, x.rest)
  ens[C25]: r is Err ==> !wf_params(fld(*old(self), name@))
  loop 0
    inv: fits(fld(*old(self), name@), *old(self)) && self@ == old(self)@.remove(name@)
    inv: vp_it0@.len() + list__h@.len() == arr(fld(*old(self), name@))->0.len()
    inv: vp_it0@ == arr(fld(*old(self), name@))->0.skip(arr(fld(*old(self), name@))->0.len() - vp_it0@.len())
    inv[C25]: objs_upto(arr(fld(*old(self), name@))->0, list__h@)
    inv: small(list__h@, fld(*old(self), name@))
    ens: vp_it0@.len() == 0
    dec: vp_it0@.len()
  loop 1
    inv: fits(fld(*old(self), name@), *old(self)) && self@ == old(self)@.remove(name@)
    inv: vp_it1@.len() + list@.len() == objs@.len()
    inv: vp_it1@ == objs@.skip(objs@.len() - vp_it1@.len())
    inv[C25]: objs_upto(arr(fld(*old(self), name@))->0, objs@)
    inv[C25]: objs@.len() == arr(fld(*old(self), name@))->0.len() - (if rest is Some { 1int } else { 0int })
    inv[C25]: arr(fld(*old(self), name@))->0.len() > 0 ==> (obj_of(arr(fld(*old(self), name@))->0[arr(fld(*old(self), name@))->0.len() - 1]) matches Some(c) && (tag_of(c) == Some(Tag::RestElement)) == (rest is Some))
    inv[C25]: forall|i: int| 0 <= i < list@.len() ==> d_bind(#[trigger] objs@[i], list@[i])
    ens: vp_it1@.len() == 0
    dec: vp_it1@.len()

fn Object:ExtractField::extract_field(name) -> r
  ens: rest(*old(self), *final(self), name@)

fn Object:ExtractField::extract_string(name) -> r
  ens: rest(*old(self), *final(self), name@)

fn Object:ExtractField::extract_string_opt(name) -> r
  ens: rest(*old(self), *final(self), name@)

fn Object:ExtractField::extract_array(name) -> r
  ens: rest(*old(self), *final(self), name@)

fn Object:ExtractField::extract_array_opt(name) -> r
  ens: rest(*old(self), *final(self), name@)

fn Object:ExtractField::extract_object(name) -> r
  ens: rest(*old(self), *final(self), name@)

fn Object:ExtractField::extract_object_opt(name) -> r
  ens: rest(*old(self), *final(self), name@)

fn Object:ExtractField::extract_bool(name) -> r
  ens: rest(*old(self), *final(self), name@)

fn Object:ExtractField::extract_bool_opt(name) -> r
  ens: rest(*old(self), *final(self), name@)
