import json
L="crates/joker/src/lexer.rs"; 
def P(id,title,st,over,q,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if obs: d["anchors"]["observe_at"]=obs
    return d
WHY="The one stable test feeds a fixed file of short samples (two tokens each) to the lexer and compares token values; "
OBS=["joker::lexer::Lexer::read_token","joker::lexer::Lexer::peek_token"]
ps=[
P("C01","The lexer always answers: no panic, no overflow, no endless loop",
 "For every finite source text and every sequence of read, peek, skip and unread requests (at most two tokens unread at a time), with either reading of a slash, tokenizing one more token ends and yields a token or an error value. It never panics, overflows an integer, indexes out of range or loops for ever, including when the text ends in the middle of a comment, string, regular expression, number, escape or word.",
 ["inputs","histories"],"all finite texts of Unicode scalar values, all request sequences, both values of the slash flag at each request",
 WHY+"every text cut off at any place is another input, and the samples hold none of them.",
 ["crates/joker/src/lexer.rs","crates/joker/src/reader.rs","crates/joker/src/word.rs","crates/joker/src/token.rs","crates/joker/src/char.rs"],
 [("end of input is an explicit case of every scanning loop",L+" read_next_token, read_string, read_regexp, skip_block_comment, read_number"),("decreasing rest of the input","crates/joker/src/reader.rs Reader::next")],None,OBS),
P("C02","Token locations: offset, line and column of both ends are those of the text",
 "Every token and the current position carry offset, line and column equal to what counting the source from its start gives: offset counts characters, LF, CR, CR LF as one, U+2028 and U+2029 each start a new line at column zero, and every other character advances the column by one. A token's start is the position of its first character after white space and comments, its end the position just after its last character, and the end-of-input token is empty and sits at the end of the text.",
 ["inputs","histories"],"all texts mixing the five line terminators with everything else, at every token and every point between tokens",
 WHY+"it never looks at a location, so any error in counting passes.",
 ["crates/joker/src/reader.rs","crates/joker/src/lexer.rs","crates/joker/src/track.rs"],
 [("position is advanced per character","crates/joker/src/reader.rs Reader::next"),("span taken at start and end of a token",L+" start, SpanTracker::end")],[("curr_posn","position of the next unread character","crates/joker/src/reader.rs")],OBS+["joker::lexer::Lexer::posn"]),
P("C03","Tokens tile the source: nothing skipped, nothing read twice",
 "Successive tokens cover the source in order without overlap, and the characters between the end of one token and the start of the next are exactly white space, line terminators and comments. Each token covers exactly the characters that spell it, so reading on from its end continues the text with no character lost or repeated.",
 ["inputs","histories"],"all texts and request sequences; the stretch before, inside and after every token",
 WHY+"it compares at most two token values per sample and no extents.",
 ["crates/joker/src/lexer.rs","crates/joker/src/reader.rs"],
 [("characters are taken one at a time from a bounded lookahead buffer","crates/joker/src/reader.rs Reader::peek, Reader::next"),("skipping of white space and comments",L+" read_next_token")],[("ahead","characters peeked but not consumed","crates/joker/src/reader.rs")],OBS),
P("C04","The newline flag of a token says whether a line terminator precedes it",
 "A token is marked as following a newline exactly when a line terminator occurs between the previous token, or the start of the text, and it. A line terminator inside a block comment counts, and so does the one that ends a line comment.",
 ["inputs"],"all texts: every arrangement of white space, line terminators and the four comment forms between two tokens",
 WHY+"the flag is never compared; automatic semicolon insertion depends on it for every text.",
 ["crates/joker/src/lexer.rs","crates/joker/src/token.rs"],
 [("found_newline accumulates over the skipped stretch",L+" read_next_token"),("block comments report contained line terminators",L+" skip_block_comment")],[("newline","flag of a token","crates/joker/src/token.rs Token")],OBS),
P("C05","Punctuators are the longest that match, and slash obeys the caller's mode",
 "Where a token starts with a punctuation character, the token is the longest ECMAScript punctuator that the text spells there, with its own token kind and its exact length. When the caller says an operator may occur, a slash is division or divide-assign; otherwise it starts a regular expression.",
 ["inputs","histories"],"all texts after every punctuation prefix, both slash modes",
 WHY+"a sample per operator says nothing on what follows it: longest match is about every continuation.",
 ["crates/joker/src/lexer.rs","crates/joker/src/token.rs"],
 [("two-character dispatch and further peeks",L+" read_next_token, read_punc, read_punc2, read_punc3, read_punc2_3")],None,OBS),
P("C06","String literals: source text kept exactly, value as the escapes denote",
 "A string literal ends at the first unescaped matching quote, and its token keeps the exact source text, quotes and escapes included. Its value is the text with each escape replaced by what it denotes: single-character, \\x, \\u, \\u{...} and legacy octal escapes (longest octal value up to 255), a line continuation (CR LF as one) by nothing, any other escaped character by itself.",
 ["inputs"],"all string literals over all characters, both quotes, every escape form and length, except that escapes denoting surrogates are a recorded finding",
 WHY+"escape digits, lengths and their neighbours multiply beyond any sample; source text is not compared.",
 ["crates/joker/src/lexer.rs","crates/joker/src/char.rs","crates/joker/src/token.rs"],
 [("string scanner",L+" read_string, read_string_escape, read_unicode_escape_seq, read_newline_into"),("escape table","crates/joker/src/char.rs unescape")],None,OBS),
P("C07","Numeric literals: form recognized, digits kept, value correct",
 "A numeric literal is split into exactly the digits, sign, exponent marker and radix marker (with letter case) that the source spells, in decimal, fractional, exponent, hexadecimal, octal, binary and legacy-octal form. Its value is the double nearest to the number denoted for decimal forms and the exact value for radix forms that fit a double, and a digit or identifier start directly after it is an error.",
 ["inputs"],"all numeric literals of any length and all characters after them, except that radix literals above 2^53 are a recorded finding",
 WHY+"digit strings are unbounded and every following character matters.",
 ["crates/joker/src/lexer.rs","crates/joker/src/token.rs","crates/joker/src/char.rs"],
 [("number scanner",L+" read_number, read_radix_int, read_exp_part, read_decimal_int"),("value of a spelled number","crates/joker/src/token.rs NumberSource::value")],None,OBS),
P("C08","Words: identifiers, keywords and contextual names are classified exactly",
 "A word is the longest run of identifier characters and unicode escapes; it is a reserved-word token exactly if it spells, without escapes, one of the reserved words, true, false or null, and a reserved word spelled with an escape is an error. Every other word is an identifier holding exactly the characters denoted, interned as the right contextual name when it spells one without escapes, and converting any word back to text gives the same spelling.",
 ["inputs"],"all words over all identifier characters and escapes; all entries of the reserved and contextual tables in both directions",
 WHY+"classification must be right for every word, including those one letter away from a keyword and escaped spellings.",
 ["crates/joker/src/word.rs","crates/joker/src/lexer.rs","crates/joker/src/token.rs"],
 [("reserved and contextual tables","crates/joker/src/word.rs Map::new, Map::tokenize, Name::from, Reserved::name, Atom::name"),("word scanner",L+" read_word, read_word_parts, read_word_escape")],None,OBS+["joker::word::Name","joker::word::Reserved::name"]),
P("C09","Regular expressions end at the right slash and keep body and flags",
 "A regular expression literal ends at the first slash that is neither escaped by a backslash nor inside a bracketed class, and the flags are the identifier characters that follow. Its pattern and flags are exactly the source characters, and a line terminator or the end of the text inside it is an error.",
 ["inputs"],"all regular expression bodies with any nesting of escapes, classes and slashes, except that unicode escapes in the flags are a recorded finding",
 WHY+"where a body ends depends on every backslash and bracket before.",
 ["crates/joker/src/lexer.rs","crates/joker/src/token.rs"],
 [("regular expression scanner",L+" read_regexp, read_regexp_char, read_regexp_backslash, read_regexp_class, read_regexp_class_char")],None,OBS),
P("C10","Peek, skip, unread and read agree: lookahead never changes the token sequence",
 "Peeking yields the token that the next read or skip consumes and changes nothing else; repeated peeks yield the same token; skipping discards exactly one token. Tokens that were unread come back last-unread first, unchanged and before anything new is lexed, and an error leaves the queued tokens as they were.",
 ["histories","inputs"],"all sequences of peek, repeek, skip, reread, read and unread, with either slash mode at each step, over all texts",
 "The one test reads two tokens in a row and never mixes peeking, unreading and skipping.",
 ["crates/joker/src/lexer.rs"],
 [("lookahead queue",L+" peek_token, repeek_token, skip_token, reread_token, read_token, unread_token")],[("lookahead","tokens lexed or unread but not consumed",L)],OBS+["joker::lexer::Lexer::unread_token","joker::lexer::Lexer::skip_token"]),
P("C11","Character classes are those of the language, for every code point",
 "For every character, it is treated as white space, a line terminator, an identifier start, an identifier part or a binary, octal, decimal or hexadecimal digit exactly when it is one, taking the Unicode properties ID_Start and ID_Continue as given. A single-character escape denotes the control character the language gives it, and any other character itself.",
 ["inputs"],"all 1,112,064 Unicode scalar values in each class",
 WHY+"the samples hold a few dozen distinct characters of the 1.1 million.",
 ["crates/joker/src/char.rs","crates/joker/src/lexer.rs"],
 [("class predicates","crates/joker/src/char.rs ESCharExt")],None,["joker::lexer::Lexer::read_token"]),
P("C12","Malformed source is rejected with the error that names the fault",
 "Source that does not spell a token is never turned into one: unterminated strings, comments and regular expressions, incomplete or out-of-range escapes, missing digits or exponents and stray characters yield an error. The error is of the kind that describes the fault and names the offending character or code point, or the end of the text.",
 ["inputs"],"all malformed texts: every token form cut off or corrupted at every position",
 WHY+"error samples are few, and none is cut off at the end of the text.",
 ["crates/joker/src/lexer.rs","crates/joker/src/error.rs"],
 [("error returns of every scanner",L+" read_string, read_regexp, read_number, read_word_escape, read_unicode_escape_seq, skip_block_comment, read_next_token")],None,OBS),
P("C13","Comments are recognized exactly, including the HTML-like ones",
 "A line comment runs up to, not including, the next line terminator; a block comment ends at the first closing mark after its opening, and an unclosed one is an error. <!-- opens a line comment anywhere a token may start, and --> does so only where nothing but white space and comments precedes it on its line, the first line included.",
 ["inputs"],"all texts: every arrangement of comment openers, closers and line terminators around tokens",
 WHY+"whether --> is a comment or an operator depends on everything since the last line terminator.",
 ["crates/joker/src/lexer.rs"],
 [("comment scanners and the empty-line flag",L+" read_next_token, skip_line_comment, skip_block_comment")],[("empty_line","no token yet on this line",L)],OBS),
P("C15","Typed JSON field access yields the field's value or says exactly what is wrong",
 "Reading a field of a JSON object as a string, array, object, boolean, signed or unsigned 64-bit integer, double or number yields exactly the value stored there when it is of that type: an integer counts when it is in the range of the type asked for, and any number counts as a double. Otherwise the result is a missing-field error naming the field, if the object lacks it, or a type-mismatch error naming the type asked for and the type found; nothing panics and the object is unchanged.",
 ["inputs"],"all JSON objects, field names and stored values, including integers at the edges of the signed and unsigned ranges",
 "unjson has no test; the value space (ranges, types, absence) is not sampled at all.",
 ["crates/unjson/src/unjson.rs","crates/unjson/src/ty.rs","crates/unjson/src/error.rs"],
 [("typed getters","crates/unjson/src/unjson.rs GetField for Object"),("type of a value","crates/unjson/src/ty.rs TyOf")],None,["unjson::GetField"]),
P("C16","Optional JSON access: null is absence, everything else is as without the option",
 "The optional form of every accessor yields nothing exactly when the value is null, and otherwise yields the value, or the type-mismatch error, that the plain form yields for it. A field that is not in the object is still a missing-field error naming it, not absence.",
 ["inputs"],"all JSON values and objects, every optional accessor, by reference and by value",
 "unjson has no test.",
 ["crates/unjson/src/unjson.rs"],
 [("optional conversions","crates/unjson/src/unjson.rs ValueEx, Unjson, GetField and ExtractField *_opt")],None,["unjson::GetField","unjson::ExtractField","unjson::Unjson"]),
P("C17","Taking a field out of a JSON object removes it, only it, and yields the same value",
 "Extracting a field as any type removes exactly that field from the object, whether or not it has the type asked for, and leaves every other field as it was; it yields what reading it as that type yields, by value. Converting an owned JSON value to a type yields exactly the value it holds, or a type-mismatch error naming the type asked for and the type found.",
 ["inputs","histories"],"all JSON objects, field names, stored values and sequences of extractions",
 "unjson has no test.",
 ["crates/unjson/src/unjson.rs"],
 [("extraction","crates/unjson/src/unjson.rs ExtractField for Object"),("owned conversions","crates/unjson/src/unjson.rs Unjson for Value")],None,["unjson::ExtractField","unjson::Unjson"]),
]
PW="No test of the parser runs in the stable suite (its test crate does not build offline), and "
PP="src/parser.rs"
EO=["esprit::script","esprit::strict","esprit::module","esprit::program"]
ps+=[
P("C18","Operators group by precedence and associativity",
 "In every expression, binary and logical operators group as the grammar prescribes: a tighter operator's operands never contain a looser operator outside parentheses, operators of one level group to the left, and the tree's operands and operators, read from left to right, are exactly those of the source in order. Each operator token stands for the operator it spells, and `in` is an operator only where the grammar allows it.",
 ["inputs"],"all sequences of operands and operators of any length, all operator tokens, with and without `in` allowed",
 PW+"precedence must hold for every sequence of the 23 operators at every length.",
 ["src/stack.rs","crates/easter/src/punc.rs",PP],
 [("operator stack","src/stack.rs Stack::extend, Stack::finish, Frame::fill, Infix::groups_left"),("precedence tables","crates/easter/src/punc.rs Precedence"),("operator tokens","crates/easter/src/punc.rs ToOp; "+PP+" match_infix, more_infix_expressions")],None,EO),
P("C19","The tree is a derivation of exactly the source's tokens",
 "When a parse succeeds, the tree returned derives, by the grammar's productions, exactly the tokens of the source from the first to the last: no token is dropped, used twice, reordered or given to another construct. Each node is of the construct its tokens spell, and every identifier, literal, property key, label and operator in it is the one written there; a program ends only where the source does. Locations, kinds of semicolon and the early errors are other properties' concern.",
 ["inputs"],"all token sequences at all four entry points, nested to any depth",
 PW+"trees nest without bound, and each construct may meet any other, cut off or followed by anything.",
 [PP,"src/stack.rs","src/expr.rs","src/tokens.rs","crates/easter/src/punc.rs","crates/easter/src/decl.rs","crates/easter/src/cover.rs"],
 [("statements and declarations",PP+" statement_list .. debugger_statement, declarator, function_declaration"),("expressions",PP+" expression .. primary_expression, object_literal, array_literal; src/stack.rs; src/expr.rs"),("a source is read to its end",PP+" script, module_items, program_items; src/lib.rs")],None,EO),
P("C21","The parser always answers: no panic, no endless loop",
 "For every finite source text, parsing it as a script, strict script, module or program, and then reading a program as any of the three, ends with a tree or an error value. It never panics, indexes out of range, hits an unreachable arm, overflows the two-token lookahead, or loops for ever, wherever the text is cut off or malformed.",
 ["inputs"],"all finite texts, at all four entry points, stack depth aside",
 PW+"a sample says nothing on the texts that are cut off or malformed somewhere else.",
 [PP,"src/state.rs","src/context.rs","src/track.rs","src/stack.rs","crates/easter/src/cover.rs","crates/easter/src/decl.rs"],
 [("every loop consumes a token","src/parser.rs statement_list, more_comma, object_literal, formal_parameters, switch_cases"),("tokens are re-read only when they are in the lookahead buffer","src/state.rs reread; src/parser.rs"),("context is restored","src/context.rs allow_in, with_labels")],[("lookahead","at most two tokens","crates/joker/src/lexer.rs")],EO),
P("C22","Only assignable expressions are assigned to, and patterns keep their shape",
 "The left side of an assignment, the operand of ++ and --, and the head of a for-in or for-of without a declaration is, parentheses aside, an identifier, a member access or, where plain = or a for head allows it, an array or object pattern of such, with a rest element only last in an array; anything else is reported as an invalid left-hand side. Conversion to a pattern keeps every element, hole, key, name and their order, and each compound operator stands for the operator its token spells.",
 ["inputs"],"all expressions in target position, patterns nested to any depth",
 PW+"patterns nest without bound and each illegal element may sit anywhere in them.",
 ["crates/easter/src/cover.rs",PP,"crates/easter/src/punc.rs"],
 [("cover grammar conversion","crates/easter/src/cover.rs into_assign_target, into_assign_patt, into_assign_prop"),("uses",PP+" more_assignment, unary_expression, for_expr")],None,EO),
]
ps+=[
P("C23","Semicolons are inserted exactly where the language inserts them",
 "A statement that needs a semicolon ends either with one in the source or, with none there, before a closing brace, the end of the source, or a token on a new line that cannot continue it; after do-while one may be left out anywhere. Nothing is inserted where the next token could continue the statement, and a missing semicolon is an error only if the next token is on the same line and is neither a brace, nor a semicolon, nor the end. A line break after break, continue or return ends the statement there, after throw it is an error, and ++ or -- on a new line does not belong to the expression before it. The tree tells inserted semicolons from written ones.",
 ["inputs"],"all token sequences with every arrangement of line breaks, for every kind of statement that ends in a semicolon",
 PW+"whether a semicolon is inserted depends on every pair of statement end and next token, with and without a line break between.",
 [PP,"src/tokens.rs"],
 [("insertion",PP+" require_semicolon, semicolon, has_explicit_semicolon, has_arg_same_line"),("restricted productions",PP+" match_postfix_operator_opt, break_statement, continue_statement, return_statement, throw_statement")],None,EO),
]
ps+=[
P("C20","Jumps, labels and clauses refer to what encloses them",
 "In every tree returned, a return is inside a function, a break inside a loop or switch, a continue inside a loop, a labelled break or continue names a label that encloses it (for continue, the label of a loop), and no label is declared again inside its own statement; none of these reaches across a function boundary. A switch has at most one default, a try has a catch or a finally. A break or continue that obeys this is not rejected as one that does not, and labels are forgotten once their statement ends.",
 ["inputs"],"all statements nested to any depth, with labels, loops, switches and functions around them in any order",
 PW+"what a jump may name depends on all that encloses it, without bound, and on what was left again before it.",
 [PP,"src/context.rs","src/tokens.rs"],
 [("enclosing loops, switches and labels",PP+" labelled_statement, while_statement, switch_statement, for_statement; src/context.rs with_labels"),("jumps",PP+" break_statement, continue_statement, return_statement"),("clauses",PP+" switch_cases, try_statement")],[("context","what encloses the current token","src/context.rs Context")],EO),
P("C24","Strict and module code obey the rules of their mode, whenever the mode becomes known",
 "In strict mode code no tree holds a with statement, a variable, parameter or function named eval or arguments, or an identifier spelled like one of the words the mode reserves (let, static, yield, implements, interface, package, private, protected, public); in module code await is reserved as well. Code is strict if it was parsed as such, is a module, or follows a \"use strict\" directive, written without escapes, of its own or an enclosing script or function. A program whose mode is not yet known is accepted, and later yields a script always, a strict script exactly if it breaks no strict rule, and a module only if it breaks no module rule.",
 ["inputs","histories"],"all sources at all four entry points, directives at any function depth, and every reading of a program afterwards",
 PW+"the mode depends on directives at any depth, and a rule must hold at every place an identifier can stand.",
 [PP,"src/state.rs","src/context.rs","src/tokens.rs","src/atom.rs","crates/joker/src/token.rs"],
 [("identifiers are judged where they are made","src/state.rs id, new_id, new_id_from_token; src/atom.rs"),("rules of a mode not known yet are put off","src/state.rs more; src/parser.rs take_deferred, Program::strict, Program::module"),("directives",PP+" body_directives, function_body, script_body")],[("context.strict","mode of the code being read","src/context.rs"),("deferred","rules broken by code of unknown mode","src/parser.rs")],EO+["esprit::Program::strict","esprit::Program::module"]),
]
ES="crates/estree/src/"
ps+=[
P("C25","An ESTree document is read into exactly the script it describes, or rejected",
 "Converting a JSON object to a script ends with a tree or an error value and never panics. It succeeds exactly when the document is well formed: every node has a known type that may stand where it does, with all fields the type needs, each of the right JSON type (optional ones null), operators and declaration kinds that exist, targets that can be assigned to, a rest parameter only last, exactly one plain parameter for a setter, one declarator in a for-in or for-of head, with an initializer only after var in for-in, an initializer for every const elsewhere, no computed property keys, and declarations only where statements are listed. The tree then is the one described: each node of the construct its type names, with every name, literal (kind, value, pattern, flags), operator, flag and child in its place and order, holes and absent children kept, leading string statements of a body as its directives and all others as its items.",
 ["inputs"],"all JSON objects, nested to any depth, well formed or not",
 "No stable test reads an ESTree document, and documents nest without bound: each node type may stand anywhere, with any field missing, of another JSON type, or in another order.",
 [ES+"node.rs",ES+"expr.rs",ES+"stmt.rs",ES+"obj.rs",ES+"fun.rs",ES+"decl.rs",ES+"id.rs",ES+"patt.rs",ES+"lit.rs",ES+"tag.rs",ES+"prog.rs","crates/easter/src/cover.rs","crates/easter/src/punc.rs","crates/unjson/src/unjson.rs"],
 [("one arm per node type",ES+"expr.rs into_expr; "+ES+"stmt.rs into_stmt_list_item"),("fields and lists of nodes",ES+"node.rs ExtractNode"),("patterns in target position","crates/easter/src/cover.rs"),("operators by name","crates/easter/src/punc.rs FromStr")],None,["estree::IntoScript"]),
]
ps.sort(key=lambda d: d["id"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(p)+"\n" for p in ps))

# ------------------------------------------------------------------ MANIFEST
TECH = "contract-based deductive verification (Verus) of the functions extracted from /repo, plus a bounded cross-check of the real crate"
NOTE = {
 "joker": "Verus discharges contracts on every lexer function from /repo's current text, for all inputs and iterations. Trusted: the extraction (D1-D12), the stand-ins listed in the evidence (String, VecDeque, HashMap, char, f64 parsing, crate ucd), texts shorter than 2^32-1 characters. The bounded oracle runs the real crate and is not counted as proved.",
 "unjson": "Verus discharges contracts on every accessor from /repo's current text. Trusted: the extraction and the stand-ins for BTreeMap, serde_json::Value and its as_* methods listed in the evidence; int-to-double casts are uninterpreted. The bounded oracle runs the real crate.",
 "tree": "Verus discharges, on every parser function from /repo's current text and for all token sequences, contracts that state which production of the grammar the tokens consumed and the tree returned are an instance of. Trusted: the extraction (D1-D19), the grammar itself (the productions, as closure rules), the lexer's queue behaviour (C10's contract), and the stand-ins listed in the evidence. Soundness only: that every valid program is accepted is left to the bounded oracle, which is not counted as proved.",
 "estree": "Verus discharges, on every function of the ESTree reader from /repo's current text, together with the pattern conversions of crates/easter and the accessors of crates/unjson it calls, contracts for both directions: what is read is what the document describes, and what is rejected is not well formed. Trusted: the extraction (D1-D19), that JSON documents are finite, and the stand-ins listed in the evidence (BTreeMap, Vec, String, str::parse, integer formatting and casts). The bounded oracle runs the real reader against an independent one and is not counted as proved.",
 "rules": "Verus discharges, on every parser function from /repo's current text and for all token sequences, contracts that state which rules the tree returned obeys in which mode. The rules are ordinary recursive functions over the tree; nothing about them is assumed. Trusted: the extraction (D1-D19), the lexer's queue behaviour (C10's contract), and the stand-ins listed in the evidence. That code obeying the rules is accepted is proved only where a rule is judged (break, continue, identifiers, the readings of a program), else left to the bounded oracle, which is not counted as proved.",
 "early": "Verus discharges, on every parser function from /repo's current text and for all token sequences, contracts that state where a semicolon may be inserted, what must not follow it, and when a missing one is an error. Trusted: the extraction (D1-D19), the lexer's queue behaviour and newline flags (C10's and C04's contracts), and the stand-ins listed in the evidence. The bounded oracle runs the real parser against an independent recognizer and is not counted as proved.",
 "esprit": "Verus discharges contracts on every parser function from /repo's current text, for all token sequences. Trusted: the extraction (D1-D19), the lexer's queue behaviour (C10's contract, discharged in unit joker), and the stand-ins listed in the evidence (HashMap, Vec, String, Box, derived location accessors). Stack depth is unbounded. The bounded oracle runs the real parser against an independent recognizer and is not counted as proved.",
}
NA = {}
import sys, os
sys.path.insert(0, "/verif/vp")
import props as PR
man = dict(version=1, setup_cmd="./setup.sh", checks=[], not_applicable=[])
byid = {p["id"]: p for p in ps}
for pid in sorted(PR.PROPS):
    assert pid in byid, pid
    u = PR.PROPS[pid]
    man["checks"].append(dict(property=pid, quick_cmd="./check.sh %s quick" % pid, thorough_cmd="./check.sh %s thorough" % pid,
        technique=TECH, level=u.get("level", "proof"), level_note=u.get("note") or NOTE[u["units"][0]]))
for pid in sorted(byid):
    if pid not in PR.PROPS:
        man["not_applicable"].append(dict(property=pid, reason=NA[pid]))
man["notes"] = "Known findings and repaired defects: known_findings.json. See DESIGN.md."
open("/verif/MANIFEST.json", "w").write(json.dumps(man, indent=1) + "\n")
