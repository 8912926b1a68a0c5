import os
HERE = os.path.dirname(os.path.abspath(__file__))
CON = os.path.join(os.path.dirname(HERE), "contracts")
EQ = ["#[derive(PartialEq, Eq, Structural, Clone, Copy)]"]
CL = []

def c(*names):
    return [os.path.join(CON, n) for n in names]

SPEC_METHODS = {
    "is_es_newline": "sp_nl", "is_es_whitespace": "sp_ws",
    "is_es_identifier_start": "sp_id_start", "is_es_identifier_continue": "sp_id_cont",
    "is_es_hex_digit": "sp_hexd", "is_es_dec_digit": "sp_decd",
    "is_es_oct_digit": "sp_octd", "is_es_bin_digit": "sp_bind",
}

J = "crates/joker/src/"
A = "crates/easter/src/"
STDRES = [("Result<", "StdResult<")]
UNITS = {
    "joker": dict(
        sources=[dict(path=J + "track.rs", only=["struct *", "impl Posn"]),
                 dict(path=J + "char.rs"),
                 dict(path=J + "reader.rs"),
                 dict(path=J + "error.rs", only=["enum *"]),
                 dict(path=J + "result.rs"),
                 dict(path=J + "token.rs", skip=["trait CharsEx", "impl *CharsEx*", "impl *:PartialEq"]),
                 dict(path=J + "word.rs", subst=[(".as_ref()", ".vp_as_ref()")]),
                 dict(path=J + "lexer.rs", subst=[("WordMap", "Map")]),
                 ],
        skip_fns=["Lexer::read_until_with"],
        canary_entry=["Lexer::read_into2_until", "Lexer::read_into_until", "Lexer::read_regexp/lift0", "Lexer::read_regexp_class/lift0",
                      "Lexer::read_unicode_escape_seq/lift0", "Lexer::read_word_parts/lift0", "Lexer::skip_until"],
        subst=[("I: Iterator<Item=char>", "I: CharSource"), (".parse()", ".vp_parse_f64()"),
               (".to_string()", ".vp_to_string()"), ("String::from(", "vp_string_from("), ("result::Result", "std::result::Result")],
        extern_sigs=["fn vp_chars_all<F: Fn(char) -> bool>(s: &String, n: usize, f: &F) -> bool;"],
        skip=["impl *:Debug", "impl *:Display", "impl *:StdError", "impl *:Untrack"],
        broadcast="{lemma_adv_trans, lemma_adv_refl, axiom_ucd, lemma_run_is, lemma_empty_cat, lemma_cat_empty, lemma_fold_push}",
        openers=[("^Lexer::", "assert(base(old(self).reader));")],
        inherent=["Reader:Iterator", "Name:AsRef<str>", "Name:From<String>"],
        sized=["ESCharExt"],
        type_attrs={"Posn": EQ, "Span": EQ, "Reserved": EQ, "Atom": EQ, "CharCase": EQ, "Sign": EQ, "Radix": EQ},
        spec_methods=SPEC_METHODS,
        preamble=["#![allow(unused_imports, dead_code, unused_variables, unused_parens, unused_braces, unused_mut)]"],
        uses=[],
        prelude=c("joker_prelude.rs", "joker_spec.rs", "joker_lex_spec.rs"),
        contracts=c("joker_base.vc", "joker_words.vc", "joker_lex.vc"),
    ),
    "unjson": dict(
        sources=[dict(path="crates/unjson/src/ty.rs"),
                 dict(path="crates/unjson/src/error.rs"),
                 dict(path="crates/unjson/src/result.rs"),
                 dict(path="crates/unjson/src/unjson.rs")],
        skip=["impl *:Debug", "impl *:Display"],
        subst=[("result::Result", "std::result::Result")],
        comb={"and_then": "result"}, f64_cast="vp_f64",
        preamble=["#![allow(unused_imports, dead_code, unused_variables, unused_parens, unused_braces, unused_mut)]"],
        type_attrs={"Ty": EQ},
        uses=[],
        prelude=c("unjson_prelude.rs", "unjson_spec.rs"),
        contracts=c("unjson.vc"),
    ),
    "esprit": dict(
        sources=[dict(path=J + "track.rs", only=["struct *", "fn span"]),
                 dict(path=J + "token.rs", only=["struct *", "enum *"]),
                 dict(path=J + "word.rs", only=["enum *"]),
                 dict(path=A + "id.rs"), dict(path=A + "fun.rs"), dict(path=A + "obj.rs"),
                 dict(path=A + "patt.rs"), dict(path=A + "decl.rs", subst=STDRES), dict(path=A + "stmt.rs", subst=STDRES),
                 dict(path=A + "expr.rs"), dict(path=A + "punc.rs", subst=STDRES),
                 dict(path=A + "cover.rs", subst=STDRES + [("Error", "CoverError")]),
                 dict(path="src/result.rs"), dict(path="src/error.rs", subst=[("joker::error::Error", "JokerError"), ("cover::Error", "CoverError")]),
                 dict(path="src/atom.rs"), dict(path="src/tokens.rs"), dict(path="src/expr.rs"), dict(path="src/context.rs"),
                 dict(path="src/state.rs"), dict(path="src/track.rs"), dict(path="src/stack.rs"), dict(path="src/parser.rs"),
                 dict(path="src/lib.rs", only=["fn *"])],
        hof=True, loc=True, slices=["params"],
        canary_entry=["unexpected_module"],
        subst=[("I: Iterator<Item=char>", "I: CharSource"), ("HashMap<Rc<Name>, LabelType>", "LabelMap"), ("HashMap::new", "LabelMap::new"),
               ("&[Patt<Id>]", "&Vec<Patt<Id>>"), ("&[param.clone()]", "&vec![param.clone()]"), ("replace(", "vp_replace("),
               ("std::result::Result", "StdResult"), (".to_string()", ".vp_to_string()"), (".chars()", ".vp_chars()"), ("labels.reverse()", "vp_reverse(&mut labels)")],
        skip=["impl *:Debug", "impl *:Display", "impl *:StdError", "impl *:Untrack", "impl *:PartialEq", "impl *:FromStr", "impl *:Default",
              "impl *:TrackingRef", "impl *:TrackingMut",
              "trait Tracking", "trait WithContext", "trait State", "trait First", "trait Follows", "trait HasLabelType", "trait AtomExt", "trait ToOp",
              "trait Into*", "trait IdExt", "trait DtorExt", "trait StringExt", "trait CharsEx", "impl *:StringExt", "struct FrameExpr", "impl FrameExpr*"],
        skip_fns=["Frame::width", "*::is_directive", "*::to_directive", "*::into_directive"],
        inherent=["Parser:State", "Parser:Tracking", "Parser:WithContext", "Token:First", "Token:Follows", "Token:HasLabelType", "Name:AtomExt", "Atom:AtomExt",
                  "Token:ToOp", "Expr:IntoAssignTarget", "Expr:IntoAssignPatt", "Prop:IntoAssignProp", "Id:IdExt", "Dtor:DtorExt", "ConstDtor:DtorExt"],
        type_attrs=dict([(n, EQ) for n in ("Posn", "Span", "Reserved", "Atom", "CharCase", "Sign", "Radix", "LabelType", "Goal", "Newline", "Semi",
                                           "UnopTag", "BinopTag", "LogopTag", "AssopTag")]),
        preamble=["#![allow(unused_imports, dead_code, unused_variables, unused_parens, unused_braces, unused_mut, unused_assignments, unreachable_code, nonstandard_style)]"],
        uses=["use std::rc::Rc;"],
        broadcast="{axiom_end, axiom_mode, lemma_push_strict, lemma_labs_end, lemma_labs_start, lemma_labs_add, lemma_labs_del, lemma_ext_start, lemma_ext_step, lemma_ext_push, lemma_ext_end}",
        prelude=c("esprit_prelude.rs", "esprit_spec.rs", "cover_spec.rs"),
        contracts=c("easter.vc", "esprit.vc"),
    ),
}
# the parser again, with the contracts that tie its tree to the grammar
UNITS["tree"] = dict(UNITS["esprit"],
    prelude=c("esprit_prelude.rs", "esprit_spec.rs", "cover_spec.rs", "esprit_tree_spec.rs"),
    contracts=c("easter.vc", "esprit.vc", "esprit_tree.vc"),
    broadcast=UNITS["esprit"]["broadcast"].rstrip("}") + ", rule_e, rule_sub, rule_s, rule_b}")
# .. and with those of automatic semicolons, early errors and strict mode
UNITS["early"] = dict(UNITS["esprit"],
    prelude=c("esprit_prelude.rs", "esprit_spec.rs", "cover_spec.rs", "esprit_early_spec.rs"),
    contracts=c("easter.vc", "esprit.vc", "esprit_asi.vc", "esprit_asi_err.vc"))
# .. and with those of early errors and strict mode
UNITS["rules"] = dict(UNITS["esprit"],
    prelude=c("esprit_prelude.rs", "esprit_spec.rs", "cover_spec.rs", "esprit_jump_spec.rs"),
    contracts=c("easter.vc", "esprit.vc", "esprit_jump.vc"),
    broadcast=UNITS["esprit"]["broadcast"].rstrip("}") + ", x_cover, x_cover_target}")

# an ESTree document (JSON) -> the same tree
E = "crates/estree/src/"
ERES = [("unjson::error::Error", "VpJsonError"), ("unjson::error::type_error", "vp_ty_e"), ("unjson::error::field_error", "vp_fi_e"),
        ("unjson::error::array_error", "vp_ar_e"), ("unjson::error::index_error", "vp_in_e"), ("unjson::error::string_error", "vp_st_e"),
        ("type_error", "e_type_error"), ("field_error", "e_field_error"), ("array_error", "e_array_error"), ("index_error", "e_index_error"),
        ("string_error", "e_string_error"),
        ("vp_ty_e", "type_error"), ("vp_fi_e", "field_error"), ("vp_ar_e", "array_error"), ("vp_in_e", "index_error"), ("vp_st_e", "string_error"),
        ("result::Result<T, Error>", "StdResult<T, EError>"), ("Result", "EResult"), ("Error", "EError"), ("VpJsonError", "Error"),
        ("IntoExpr::into_lit(self)", "self.into_lit()"), ("params.into_iter().next()", "VpIter::new(params).next()")]
UNITS["estree"] = dict(
    canary_entry=["e_array_error", "e_field_error", "e_index_error", "e_string_error", "e_type_error"],
    sources=[dict(path=J + "track.rs", only=["struct *", "fn span"]),
             dict(path=J + "token.rs", only=["struct *", "enum *"]),
             dict(path=J + "word.rs", only=["enum *"]),
             dict(path=A + "id.rs"), dict(path=A + "fun.rs"), dict(path=A + "obj.rs"),
             dict(path=A + "patt.rs"), dict(path=A + "decl.rs", subst=STDRES), dict(path=A + "stmt.rs", subst=STDRES),
             dict(path=A + "expr.rs"), dict(path=A + "punc.rs", subst=STDRES),
             dict(path=A + "cover.rs", subst=STDRES + [("Error", "CoverError")]),
             dict(path="crates/unjson/src/ty.rs"), dict(path="crates/unjson/src/error.rs"),
             dict(path="crates/unjson/src/result.rs", subst=[("result::Result", "std::result::Result")]), dict(path="crates/unjson/src/unjson.rs")]
            + [dict(path=E + n + ".rs", subst=ERES) for n in ("tag", "error", "result", "id", "fun", "decl", "lit", "obj", "patt", "prog", "expr", "stmt", "node")],
    hof=True, parse=True, loc=True,
    comb={"and_then": "result"}, f64_cast="vp_f64",
    subst=[(".to_string()", ".vp_to_string()")],
    skip=["impl *:Debug", "impl *:Display", "impl *:StdError", "impl *:Untrack", "impl *:PartialEq", "impl *:Default",
          "impl *:TrackingRef", "impl *:TrackingMut", "impl *:Precedence", "trait Precedence", "impl Token:*", "impl Dir",
          "trait IntoId", "trait IntoFun", "trait IntoDecl", "trait IntoObj", "trait IntoPatt", "trait IntoScript", "trait IntoExpr", "trait IntoFor*", "trait IntoStmt", "trait IntoAssign*", "trait IdExt", "trait DtorExt", "trait ToOp", "trait ExtractNode", "trait TagOf", "trait Map"],
    skip_fns=["*::into_directive"],
    inherent=["Expr:IntoAssignTarget", "Expr:IntoAssignPatt", "Prop:IntoAssignProp", "Id:IdExt", "Dtor:DtorExt", "ConstDtor:DtorExt",
              "Object:IntoId", "Object:IntoFun<Id>", "Object:IntoDecl", "Object:IntoObj", "Object:IntoPatt", "Object:IntoScript", "Object:IntoExpr",
              "Object:IntoForHead", "Object:IntoForInHead", "Object:IntoForOfHead", "Object:IntoStmt", "Object:ExtractNode", "Object:TagOf"],
    type_attrs=dict([(n, EQ) for n in ("Posn", "Span", "Reserved", "Atom", "CharCase", "Sign", "Radix", "Semi",
                                       "UnopTag", "BinopTag", "LogopTag", "AssopTag", "Ty", "Tag")]),
    preamble=UNITS["esprit"]["preamble"],
    uses=["use std::rc::Rc;"],
    broadcast="{axiom_osz_field, axiom_asz, axiom_osz_rest, lemma_fld}",
    prelude=c("unjson_prelude.rs", "unjson_spec.rs", "estree_prelude.rs", "cover_spec.rs", "estree_spec.rs"),
    contracts=c("unjson.vc", "easter.vc", "estree.vc"),
)
