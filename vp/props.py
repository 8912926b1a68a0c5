"""What each property is decided by."""
COMMON_ASSUMPTIONS = [
    "the source iterator is finite and fused, yields Unicode scalar values, and is shorter than 2^32-1 characters",
    "the extraction (vp/gen.py, rewrites D1-D19 documented there) keeps the meaning of the code; the bounded cross-check runs the unextracted crates",
    "Verus and Z3 are sound; rustc compiles what was verified",
    "allocation succeeds; stack depth is unbounded",
]
FP = "f64 arithmetic: str::parse::<f64> gives the nearest double, mul_add is the fused operation, u32 as f64 is exact (uninterpreted, three axioms)"
UCD = "crate ucd: ID_Start and ID_Continue are uninterpreted except for ASCII and ID_Start being within ID_Continue"
COLL = "VecDeque, HashMap, String and char methods obey the contracts listed in trusted_base"
PROPS = {}
for _i in range(1, 14):
    PROPS["C%02d" % _i] = dict(units=["joker"], oracle=["lex"], assumptions=[COLL, UCD])
PROPS["C07"]["assumptions"] = [COLL, UCD, FP]
BT = "BTreeMap::get and remove, and serde_json::Value's as_* methods obey the contracts listed in trusted_base; integer-to-double casts are uninterpreted"
for _i in ("C15", "C16", "C17"):
    PROPS[_i] = dict(units=["unjson"], oracle=["unj"], assumptions=[BT])
PAR = "derive(TrackingRef, TrackingMut), HashMap, Rc, Vec, String, Box and the lexer's public methods obey the contracts listed in trusted_base; the lexer's own contracts are discharged in unit joker"
for _i in ("C21",):
    PROPS[_i] = dict(units=["esprit"], oracle=["parse"], assumptions=[PAR])
RULES = "the grammar is given by its productions (rule_e, rule_sub, rule_s, rule_b in contracts/esprit_tree_spec.rs): only that E, S and body_at are closed under them is assumed, so what is proved holds of the least such relations, the derivations"
for _i in ("C18", "C19", "C22"):
    PROPS[_i] = dict(units=["tree"], oracle=["parse"], assumptions=[PAR, RULES])
PROPS["C23"] = dict(units=["early"], oracle=["parse"], assumptions=[PAR])
for _i in ("C20", "C24"):
    PROPS[_i] = dict(units=["rules"], oracle=["parse"], assumptions=[PAR, "string slices with the same characters are equal (axiom_str_ext)"])
EST = "a JSON document is finite: axiom_osz_field, axiom_asz and axiom_osz_rest give nested values a smaller size; Vec, BTreeMap, String, str::parse through FromStr, char and integer formatting obey the contracts listed in trusted_base; unjson's accessors are taken at their contracts, which unit unjson discharges"
PROPS["C25"] = dict(units=["estree"], oracle=["estree"], assumptions=[EST])
# what an unlabelled obligation of a unit belongs to
TOTAL = {"joker": "C01", "esprit": "C21", "tree": "C21", "early": "C21", "rules": "C21", "estree": "C25"}
