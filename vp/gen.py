"""Mechanical extraction: /repo source -> one Verus file per verification unit.

Every executable token of an extracted function comes from /repo's working tree.
What is changed on the way is only what this file does, and it is listed here:

  D1  dropped: comments, attributes and derives (replaced by the unit's own derive
      list), `use`/`mod`/`extern` items, `pub`, #[cfg(test)] items, and the items a
      unit's `skip` list names (formatting impls and the like).
  D2  token substitutions named by the unit (`subst`), e.g. the trait bound
      `I: Iterator<Item=char>` becomes `I: CharSource`, the same trait with a spec.
  D3  `debug_assert!(e)` -> `vp_debug_assert(e)`, whose precondition is `e` (so the
      debug assertion becomes an obligation); `panic!`/`unreachable!` -> a function
      whose precondition is `false`.
  D4  `a...b` patterns -> `a..=b`; `&x` patterns -> `x` with the uses in that arm
      dereferenced; `&s[..]` -> `s.as_str()`.
  D5  Option combinators applied to a literal closure (`map`, `map_or`, `or_else`,
      `and_then`, `unwrap_or_else`) -> the `match` that defines them.
  D6  literal closures passed to a function with an `Fn` bound get their parameter
      types, and an `ensures` that repeats their own body.
  D7  literal closures passed to a method with an `FnMut` bound are lambda-lifted:
      the method's own source is copied once per call site with the call to the
      closure replaced by a call to the lifted body.
  D8  a private helper that has no contract is expanded at its call sites.
  D9  `format!("..{}..", ..)` -> a chain of push_str onto a fresh String.
  D10 iterator chains over `X.chars()`: `.skip(n)`, `.map(c)` ending in `.all(c)`,
      `.any(c)`, `.collect()` or `.fold(i, c)` -> calls of the trusted vp_chars_all /
      vp_chars_collect, and for a fold the loop that defines it.
  D11 `e as f64` -> a trusted function (`vp_u32_f64(e)`, `e.vp_f64()`).
      Parameters that edition 2015 leaves unnamed in trait declarations get a name.
  D12 `for p in a..b { .. break .. }` -> the `while` loop that defines it.
  D13-D16 (hof.py, described in its header) closures passed to `Fn` parameters and the
      helpers that take them are expanded at the call; the trait method `Map::map` too.
  D17 `V.iter().any(c)`, `V.iter().find(c)`, `V.into_iter().map(c).collect()` with a
      literal closure -> the loops that define them.
  D18 `P | Q if g => e` -> one arm for each of P and Q; a `mut self` -> a local.
  D19 `s.parse()` at a type T -> `T::from_str(&s)`.
"""
import fnmatch
import os
import re

import contracts as C
import hof as H
import rustlex as R
from rustlex import Tok, mk, match_close, match_open, split_top, split_types


class Unsupported(Exception):
    """the source left the part of the language the extraction understands"""


def texts(toks):
    return [t.t for t in toks]


def raw(text, info=None):
    t = Tok("raw", text, 0)
    return t


# ----------------------------------------------------------------- D2
def substitute(toks, rules):
    out = list(toks)
    for pat, rep in rules:
        p = texts(R.tokenize(pat))
        i = 0
        res = []
        n = len(p)
        ts = texts(out)
        while i < len(out):
            if ts[i] == p[0] and ts[i:i + n] == p:
                r = mk(rep, out[i].line)
                if r:
                    r[0].nl = out[i].nl
                res.extend(r)
                i += n
            else:
                res.append(out[i])
                i += 1
        out = res
    return out


# ----------------------------------------------------------------- D3
def r_macros(toks):
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.k == "id" and i + 2 < len(toks) and toks[i + 1].t == "!" and toks[i + 2].t in ("(", "[", "{"):
            c = match_close(toks, i + 2)
            inner = toks[i + 3:c]
            if t.t in ("debug_assert", "assert"):
                e = split_top(inner)[0]
                nt = Tok("id", "vp_debug_assert", t.line, t.nl)
                out.extend([nt, Tok("p", "(", t.line)] + r_macros(e) + [Tok("p", ")", t.line)])
                i = c + 1
                continue
            if t.t in ("debug_assert_eq", "assert_eq"):
                a = split_top(inner)
                nt = Tok("id", "vp_debug_assert", t.line, t.nl)
                out.extend([nt, Tok("p", "(", t.line)] + r_macros(a[0]) + [Tok("p", "==", t.line)] + r_macros(a[1]) + [Tok("p", ")", t.line)])
                i = c + 1
                continue
            if t.t in ("unreachable", "panic", "unimplemented"):
                out.extend([Tok("id", "vp_unreachable", t.line, t.nl), Tok("p", "(", t.line), Tok("p", ")", t.line)])
                i = c + 1
                if i < len(toks) and toks[i].t == ";" and (i + 1 == len(toks) or toks[i + 1].t == "}"):
                    i += 1
                continue
            if t.t == "format":
                out.extend(r_format(inner, t))
                i = c + 1
                continue
            out.extend([t, toks[i + 1], toks[i + 2]] + r_macros(inner) + [toks[c]])
            i = c + 1
            continue
        out.append(t)
        i += 1
    return out


def r_format(inner, t0):
    parts = split_top(inner)
    f = parts[0]
    if len(f) != 1 or f[0].k != "str":
        raise Unsupported("format! without a literal")
    lit = f[0].t[1:-1]
    args = parts[1:]
    code = "{ let mut vp_s = String::new();"
    segs = re.split(r"(\{[^{}]*\})", lit)
    out = mk(code, t0.line)
    out[0].nl = t0.nl
    k = 0
    for s in segs:
        if s == "{}":
            out += mk("vp_push_display(&mut vp_s, &", t0.line) + [Tok("p", "(", t0.line)] + r_macros(args[k]) + mk("));", t0.line)
            k += 1
        elif s.startswith("{"):
            raise Unsupported("format! spec " + s)
        elif s:
            out += mk("vp_s.push_str(\"%s\");" % s, t0.line)
    out += mk("vp_s }", t0.line)
    return out


# ----------------------------------------------------------------- D4
def r_ranges(toks):
    for i, t in enumerate(toks):
        if t.t == "..." and t.k == "p":
            t.t = "..="
    return toks


def r_fullrange(toks):
    """& X [ .. ]  ->  X . as_str ( )"""
    out = list(toks)
    i = 0
    while i < len(out):
        if out[i].t == "[" and i + 2 < len(out) and out[i + 1].t == ".." and out[i + 2].t == "]":
            s = recv_start(out, i)
            if s > 0 and out[s - 1].t == "&":
                line = out[i].line
                amp = out[s - 1]
                rec = out[s:i]
                rec[0].nl = amp.nl
                out[s - 1:i + 3] = rec + mk(".as_str()", line)
                i = s - 1
                continue
        i += 1
    return out


def recv_start(toks, dot):
    """start index of the postfix expression that ends just before index `dot`"""
    i = dot - 1
    while i >= 0:
        t = toks[i]
        if t.t in (")", "]", "}"):
            o = match_open(toks, i)
            if t.t == "}":
                # a block-like receiver: `match .. { }` or `{ }`
                return _block_start(toks, o)
            i = o - 1
            if i >= 0 and t.t == ")" and toks[i].t == ">":
                # turbofish
                d = 0
                while i >= 0:
                    if toks[i].t == ">":
                        d += 1
                    elif toks[i].t == "<":
                        d -= 1
                        if d == 0:
                            break
                    i -= 1
                i -= 1
                if toks[i].t == "::":
                    i -= 1
            if i >= 0 and toks[i].k in ("id",) and toks[i].t not in KEYWORDS_EXPR:
                continue
            if i >= 0 and (toks[i].t in (")", "]")):
                continue
            if i >= 0 and toks[i].t == "?":
                continue
            return i + 1 if not (i >= 0 and toks[i].t == "!") else i
        elif t.t == "?":
            i -= 1
            continue
        elif t.k in ("id", "str", "num", "char"):
            if i - 1 >= 0 and toks[i - 1].t in (".", "::"):
                i -= 2
                continue
            return i
        else:
            return i + 1
    return 0


KEYWORDS_EXPR = {"return", "match", "if", "in", "while", "else", "let", "mut", "ref", "move", "break", "as"}


def _block_start(toks, o):
    # walk back from `{` to a `match`/`if` keyword if there is one at this depth
    j = o - 1
    while j >= 0:
        t = toks[j].t
        if t in (")", "]", "}"):
            j = match_open(toks, j) - 1
            continue
        if t in ("match", "if", "loop", "while", "for"):
            return j
        if t in (";", "{", "(", "=", ",", "=>"):
            return o
        j -= 1
    return o


def deref_uses(toks, name):
    out = []
    for i, t in enumerate(toks):
        if t.k == "id" and t.t == name and not (i > 0 and toks[i - 1].t in (".",)) \
                and not (i + 1 < len(toks) and toks[i + 1].t == ":" and i > 0 and toks[i - 1].t in ("{", ",")):
            out.extend([Tok("p", "(", t.line, t.nl), Tok("p", "*", t.line), Tok("id", name, t.line), Tok("p", ")", t.line)])
        else:
            out.append(t)
    return out


HANDED_ON = "{ Ok ( vp_v ) => vp_v , Err ( vp_e ) => return Err ( vp_e ) }".split()


def split_arms(body):
    """body tokens of a match -> list of (pattern, guard or None, expr, sep tokens)"""
    arms, i, n = [], 0, len(body)
    while i < n:
        s = i
        depth = 0
        guard = None
        while True:
            if i >= n:
                raise Unsupported("match arm without =>")
            t = body[i]
            if t.t in ("(", "[", "{"):
                i = match_close(body, i)
            elif t.t == "if" and guard is None:
                guard = i
            elif t.t == "=>":
                break
            i += 1
        arrow = i
        pat = body[s:guard] if guard is not None else body[s:arrow]
        g = body[guard + 1:arrow] if guard is not None else None
        i = arrow + 1
        e = i
        if i < n and body[i].t == "{":
            c = match_close(body, i)
            # block arm, unless it continues as an expression
            if c + 1 >= n or body[c + 1].t not in (".", "?"):
                i = c + 1
                expr = body[e:i]
                if i < n and body[i].t == ",":
                    i += 1
                arms.append((pat, g, expr))
                continue
        while i < n and body[i].t != ",":
            if body[i].t in ("(", "[", "{"):
                i = match_close(body, i)
            i += 1
        expr = body[e:i]
        i += 1
        arms.append((pat, g, expr))
    return arms


def find_block_after(toks, i):
    """index of the `{` that opens the block of a match/if/while header at i"""
    j = i + 1
    while j < len(toks):
        t = toks[j].t
        if t in ("(", "["):
            j = match_close(toks, j)
        elif t == "match" or t == "if":
            o = find_block_after(toks, j)
            j = match_close(toks, o)
        elif t == "{":
            return j
        j += 1
    raise Unsupported("no block")


def _refpat(pat):
    """names bound by `&x` in a pattern; returns (new pattern, names)"""
    out, names, i = [], [], 0
    while i < len(pat):
        if pat[i].t == "&" and i + 1 < len(pat) and pat[i + 1].k == "id" and (i + 2 >= len(pat) or pat[i + 2].t in (")", ",", "|")) \
                and pat[i + 1].t[0].islower():
            pat[i + 1].nl = pat[i].nl
            names.append(pat[i + 1].t)
            i += 1
            continue
        if pat[i].t == "&" and i and i + 1 < len(pat) and pat[i + 1].k == "id" and pat[i + 1].t[0].isupper():
            # `Some(&PATH)`: matched through the reference
            pat[i + 1].nl = pat[i].nl
            i += 1
            continue
        out.append(pat[i])
        i += 1
    return out, names


def split_bar(pat):
    alts, cur, i = [], [], 0
    while i < len(pat):
        if pat[i].t == "|":
            alts.append(cur)
            cur = []
        elif pat[i].t in ("(", "[", "{"):
            c = match_close(pat, i)
            cur.extend(pat[i:c + 1])
            i = c
        else:
            cur.append(pat[i])
        i += 1
    alts.append(cur)
    return [a for a in alts if a]


def strip_amp(pat):
    out = []
    for k, a in enumerate(split_bar(pat)):
        if k:
            out.append(Tok("p", "|", a[0].line))
        if a[0].t == "&":
            a[1].nl = a[0].nl
            a = a[1:]
        out.extend(a)
    return out


def r_refpats(toks):
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.t == "match" and t.k == "id":
            o = find_block_after(toks, i)
            c = match_close(toks, o)
            out.append(t)
            scrut = r_refpats(toks[i + 1:o])
            arms = split_arms(toks[o + 1:c])
            if arms and arms[0][0][0].t == "&" and all(
                    all(a[0].t in ("&", "_") for a in split_bar(pat)) for pat, _, _ in arms):
                # `match e { &P => .. }` is `match *e { P => .. }`
                scrut = mk("*(", t.line) + scrut + mk(")", t.line)
                arms = [(strip_amp(pat), g, ex) for pat, g, ex in arms]
            out.extend(scrut)
            out.append(toks[o])
            arms2 = []
            for pat, g, ex in arms:
                alts = split_bar(pat)
                if g is not None and len(alts) > 1:
                    # D18 `P | Q if G => E`: one arm each
                    arms2 += [(a, [Tok(x.k, x.t, x.line, x.nl) for x in g], [Tok(x.k, x.t, x.line, x.nl) for x in ex]) for a in alts]
                else:
                    arms2.append((pat, g, ex))
            for pat, g, ex in arms2:
                pat, names = _refpat(pat)
                g = r_refpats(g) if g is not None else None
                ex = r_refpats(ex)
                for nme in names:
                    ex = deref_uses(ex, nme)
                    if g is not None:
                        g = deref_uses(g, nme)
                out.extend(pat)
                if g is not None:
                    out.append(Tok("id", "if", t.line))
                    out.extend(g)
                out.append(Tok("p", "=>", t.line))
                out.extend(ex)
                out.append(Tok("p", ",", t.line))
            out.append(toks[c])
            i = c + 1
            continue
        if t.t in ("if", "while") and i + 1 < len(toks) and toks[i + 1].t == "let":
            o = find_block_after(toks, i)
            c = match_close(toks, o)
            hdr = toks[i:o]
            eq = None
            j = 2
            while j < len(hdr):
                if hdr[j].t in ("(", "[", "{"):
                    j = match_close(hdr, j)
                elif hdr[j].t == "=":
                    eq = j
                    break
                j += 1
            if eq is not None:
                pat, names = _refpat(hdr[2:eq])
                body = r_refpats(toks[o + 1:c])
                for nme in names:
                    body = deref_uses(body, nme)
                out.extend(hdr[:2] + pat + [hdr[eq]] + r_refpats(hdr[eq + 1:]) + [toks[o]] + body + [toks[c]])
                i = c + 1
                continue
        out.append(t)
        i += 1
    return out


# ----------------------------------------------------------------- closures
def closure_at(toks, i):
    """if a closure literal starts at i, return (params, body, end) with end exclusive"""
    if toks[i].t == "move":
        i += 1
    if i >= len(toks):
        return None
    if toks[i].t == "||":
        params = []
        j = i + 1
    elif toks[i].t == "|":
        j = i + 1
        while toks[j].t != "|":
            if toks[j].t in ("(", "[", "{"):
                j = match_close(toks, j)
            j += 1
        params = split_types(toks[i + 1:j])
        j += 1
    else:
        return None
    s = j
    if j < len(toks) and toks[j].t == "->":
        while toks[j].t != "{":
            j += 1
    if toks[j].t == "{":
        c = match_close(toks, j)
        if c + 1 >= len(toks) or toks[c + 1].t in (",", ")", ";", "]", "}"):
            return params, toks[j:c + 1], c + 1
    while j < len(toks) and toks[j].t not in (",", ")", ";", "]", "}"):
        if toks[j].t in ("(", "[", "{"):
            j = match_close(toks, j)
        j += 1
    return params, toks[s:j], j


def is_closure_start(toks, i):
    if toks[i].t not in ("|", "||"):
        return False
    if i == 0:
        return True
    p = toks[i - 1]
    return p.t in ("(", ",", "=", "{", ";", "=>", "return", "move", "mut") or (p.t == "&" and (i < 2 or toks[i - 2].t in ("(", ",", "=")))


TYPE_KINDS = ("struct", "enum", "union", "type", "const", "static")

COMB = {"map", "map_or", "or_else", "and_then", "unwrap_or_else", "map_err", "ok_or_else"}


def r_comb(toks, kinds):
    """D5; kinds: method name -> 'option' | 'result' | None"""
    out = list(toks)
    i = 0
    while i < len(out):
        t = out[i]
        if t.k == "id" and t.t in COMB and i > 0 and out[i - 1].t == "." and i + 1 < len(out) and out[i + 1].t == "(":
            kind = kinds.get(t.t, "option")
            c = match_close(out, i + 1)
            args = split_top(out[i + 2:c])
            if kind and args and is_closure_start(args[-1], 0):
                cl = closure_at(args[-1], 0)
                s = recv_start(out, i - 1)
                recv = out[s:i - 1]
                params, body = cl[0], cl[1]
                body = r_comb(body, kinds)
                if params:
                    p, names = _refpat(params[0])
                    # drop a type annotation
                    for q in range(len(p)):
                        if p[q].t == ":":
                            p = p[:q]
                            break
                    for nme in names:
                        body = deref_uses(body, nme)
                else:
                    p = []
                ln = t.line
                nl0 = recv[0].nl if recv else 0
                if recv:
                    recv[0].nl = 0

                def M(x):
                    return mk(x, ln)
                W, E = ("Some", "None") if kind == "option" else ("Ok", "Err")
                head = M("(match") + M("(") + recv + M(")") + M("{")
                if t.t == "map":
                    if kind == "option":
                        new = head + M("Some(") + p + M(") => Some(") + body + M("), None => None })")
                    else:
                        new = head + M("Ok(") + p + M(") => Ok(") + body + M("), Err(vp_e) => Err(vp_e) })")
                elif t.t == "map_err":
                    new = head + M("Ok(vp_v) => Ok(vp_v), Err(") + p + M(") => Err(") + body + M(") })")
                elif t.t == "map_or":
                    new = head + M("Some(") + p + M(") =>") + body + M(", None =>") + args[0] + M("})")
                elif t.t == "or_else":
                    if kind == "option":
                        new = head + M("Some(vp_v) => Some(vp_v), None =>") + body + M("})")
                    else:
                        new = head + M("Ok(vp_v) => Ok(vp_v), Err(") + p + M(") =>") + body + M("})")
                elif t.t == "and_then":
                    if kind == "option":
                        new = head + M("Some(") + p + M(") =>") + body + M(", None => None })")
                    else:
                        new = head + M("Ok(") + p + M(") =>") + body + M(", Err(vp_e) => Err(vp_e) })")
                elif t.t == "unwrap_or_else":
                    if kind == "option":
                        new = head + M("Some(vp_v) => vp_v, None =>") + body + M("})")
                    else:
                        new = head + M("Ok(vp_v) => vp_v, Err(") + p + M(") =>") + body + M("})")
                elif t.t == "ok_or_else":
                    new = head + M("Some(vp_v) => Ok(vp_v), None => Err(") + body + M(") })")
                new[0].nl = nl0
                out[s:c + 1] = new
                i = s + 1
                continue
        i += 1
    return out


# ----------------------------------------------------------------- D10, D11
def r_chains(toks):
    out = list(toks)
    i = 0
    while i < len(out):
        if out[i].t == "chars" and i > 0 and out[i - 1].t == "." and texts(out[i + 1:i + 3]) == ["(", ")"]:
            s = recv_start(out, i - 1)
            recv = out[s:i - 1]
            j = i + 3
            ops = []
            while j + 2 < len(out) and out[j].t == "." and out[j + 1].k == "id" and out[j + 2].t == "(":
                c = match_close(out, j + 2)
                ops.append((out[j + 1].t, split_top_closures(out[j + 3:c])))
                j = c + 1
                if ops[-1][0] in ("all", "any", "collect", "fold"):
                    break
            new = _chain(recv, ops, out[i].line)
            if new is not None:
                new[0].nl = out[s].nl
                out[s:j] = new
                i = s
        i += 1
    return out


def _chain(recv, ops, ln):
    if not ops or ops[-1][0] not in ("all", "any", "collect", "fold"):
        return None
    rv = [Tok(t.k, t.t, t.line, 0) for t in recv]
    M = lambda x: mk(x, ln)
    kind, args = ops[-1]
    mids = ops[:-1]
    if kind == "collect":
        return M("vp_chars_collect(&(") + rv + M("))") if not mids else None
    if kind in ("all", "any"):
        n = M("0")
        if mids and mids[0][0] == "skip":
            n = mids[0][1][0]
            mids = mids[1:]
        if mids or not is_closure_start(args[0], 0):
            return None
        if kind == "all":
            return M("vp_chars_all(&(") + rv + M("),") + n + M(", &") + args[0] + M(")")
        p, b, _ = closure_at(args[0], 0)
        return M("(! vp_chars_all(&(") + rv + M("),") + n + M(", &|") + p[0] + M("| ! (") + b + M(")))")
    if len(mids) > 1 or (mids and mids[0][0] != "map"):
        return None
    acc, body, _ = closure_at(args[1], 0)
    a, d = acc[0], acc[1]
    if mids:
        mp, mb, _ = closure_at(mids[0][1][0], 0)
        bind = M("let") + mp[0] + M("= vp_cs[vp_i]; let") + d + M("=") + mb + M(";")
    else:
        bind = M("let") + d + M("= vp_cs[vp_i];")
    return (M("{ let vp_cs = vp_chars_collect(&(") + rv + M(")); let mut") + a + M("=") + args[0]
            + M("; for vp_i in 0..vp_cs.len() {") + bind + a + M("=") + body + M("; }") + a + M("}"))


def r_f64(toks, method=None):
    out = list(toks)
    i = 0
    while i < len(out):
        if out[i].t == "as" and i + 1 < len(out) and out[i + 1].t == "f64":
            s = recv_start(out, i)
            while s > 0 and out[s - 1].t in ("*", "&", "-", "!") and out[s - 1].k == "p" and (
                    s == 1 or out[s - 2].t in ("(", ",", "=", "=>", "{", ";", "return", "*", "&", "-", "!", "[")):
                s -= 1
            ln = out[i].line
            e = out[s:i]
            nl = e[0].nl
            e[0].nl = 0
            if method:
                new = mk("(", ln) + e + mk(").%s()" % method, ln)
            else:
                new = mk("vp_u32_f64(", ln) + e + mk(")", ln)
            new[0].nl = nl
            out[s:i + 2] = new
            i = s
        i += 1
    return out


# ----------------------------------------------------------------- D12
def r_forbreak(toks, n=None):
    n = n if n is not None else [0]
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.t == "for" and t.k == "id" and i + 1 < len(toks) and toks[i + 1].t != "<":
            o = find_block_after(toks, i)
            c = match_close(toks, o)
            hdr = toks[i + 1:o]
            k = [q for q in range(len(hdr)) if hdr[q].t == "in"][0]
            dots = [q for q in range(k, len(hdr)) if hdr[q].t == ".."]
            body = toks[o + 1:c]
            if len(dots) == 1 and "break" in texts(body):
                a, b = hdr[k + 1:dots[0]], hdr[dots[0] + 1:]
                v = "vp_i%d" % n[0]
                n[0] += 1
                ln = t.line
                h = []
                if len(b) > 1:
                    h = mk("let vp_h%d =" % (n[0] - 1), ln) + b + mk(";", ln)
                    b = mk("vp_h%d" % (n[0] - 1), ln)
                new = mk("{ let mut %s =" % v, ln) + a + mk(";", ln) + h + mk("while %s <" % v, ln) + b + mk("{ let", ln) + hdr[:k] \
                    + mk("= %s; %s += 1;" % (v, v), ln) + r_forbreak(body, n) + mk("} }", ln)
                new[0].nl = t.nl
                for x in new:
                    if x.t == "while":
                        x.vp_index = "(%s as int - (%s) as int)" % (v, R.render([Tok(y.k, y.t, 0, 0) for y in a]))
                        break
                out.extend(new)
                i = c + 1
                continue
        out.append(t)
        i += 1
    return out


# ----------------------------------------------------------------- unit
class Gen(object):
    def __init__(self, unit, repo, contract_paths):
        self.u = unit
        self.repo = repo
        self.notes = []           # what was dropped / expanded / soft hints missed
        self.fncs = {}
        self.injects = []
        self.spec_texts = []
        for p in contract_paths:
            f, inj, tx = C.parse(p)
            for k in f:
                f[k].path = p
                for c in f[k].all_clauses():
                    c.path = p
                if k in self.fncs:
                    self.fncs[k].extend(f[k])      # a later layer adds clauses
                else:
                    self.fncs[k] = f[k]
            self.injects += inj
            self.spec_texts += tx
        self.fns = {}             # key -> Fn
        self.by_name = {}         # method name -> [key]
        self.out = []             # output lines
        self.map = {}             # out line -> dict(kind, fn, label, clause, src)
        self.used_contracts = set()
        self.with_body = set()
        self.lifted = []
        self.files = {}
        self.missing = []
        self.inlined = set()
        self.items = []
        self.assume = set()       # functions taken at their contract: the verifier rejects their text
        self.calls = {}           # function -> names it calls
        self.hof_n = {}
        self.vec_vars = {}

    # ---- reading
    def load(self):
        for src in self.u["sources"]:
            path = os.path.join(self.repo, src["path"])
            with open(path) as fh:
                text = fh.read()
            toks = R.tokenize(text)
            toks = substitute(toks, self.u.get("subst", []) + src.get("subst", []))
            items = R.parse_items(toks)
            self._take(items, src)
        for txt in self.u.get("extern_sigs", []):
            for it in R.parse_items(R.tokenize(txt)):
                it.obj.key = "(extern)" + it.name
                it.obj.path = ""
                it.obj.is_pub = True
                self.fns[it.obj.key] = it.obj
        for key, f in self.fns.items():
            self.by_name.setdefault(f.name, []).append(key)

    def _match(self, pats, name):
        return any(fnmatch.fnmatchcase(name, p) for p in pats)

    def _take(self, items, src):
        only = src.get("only")
        skip = src.get("skip", []) + self.u.get("skip", [])
        for it in items:
            if it.kind in ("use", "extern", "mod"):
                continue
            nm = it.kind + " " + it.name
            if only is not None and not self._match(only, nm):
                continue
            if self._match(skip, nm):
                self.notes.append("dropped item: %s (%s)" % (nm, src["path"]))
                continue
            it.path = src["path"]
            if it.kind == "fn":
                it.obj.key = it.name
                it.obj.path = src["path"]
                it.obj.is_pub = any(q.t == "pub" for q in it.quals)
                self.fns[it.name] = it.obj
            elif it.kind in ("impl", "trait"):
                for sub in it.obj.items:
                    sub.path = src["path"]
                    if sub.kind == "fn":
                        sub.obj.key = it.name + "::" + sub.name
                        sub.obj.path = src["path"]
                        sub.obj.is_pub = any(q.t == "pub" for q in sub.quals) or it.kind == "trait" or bool(it.obj.trait)
                        sub.obj.owner = it
                        self.fns[sub.obj.key] = sub.obj
            self.items.append(it)

    # ---- function bodies
    def kinds(self, key):
        k = dict(self.u.get("comb", {}))
        k.update(self.u.get("comb_fn", {}).get(key, {}))
        return k

    def fn_bounds(self, f):
        """generic name -> token text of its Fn/FnMut bound"""
        res = {}
        for grp in split_types(f.where) + split_types(f.generics):
            if len(grp) > 2 and grp[1].t == ":":
                res.setdefault(grp[0].t, []).extend(grp[2:])
        for part in f.where and [f.where] or []:
            pass
        return {k: v for k, v in res.items() if v and v[0].t in ("Fn", "FnMut", "FnOnce")}

    def sig_of(self, name):
        keys = self.by_name.get(name, [])
        if len(keys) == 1:
            return self.fns[keys[0]]
        return None

    def param_name(self, p):
        # returns (name or 'self', type tokens)
        ts = texts(p)
        if "self" in ts and (ts[-1] == "self" or (":" in ts and ts[ts.index(":") - 1] == "self")):
            return "self", p
        i = ts.index(":")
        nm = p[i - 1].t
        return nm, p[i + 1:]

    def spec_expr(self, toks, closure_params):
        """exec expression text -> spec text, or None; closure params are called through
        fresh existential values"""
        sm = self.u.get("spec_methods", {})
        calls = []
        out = []
        i = 0
        while i < len(toks):
            t = toks[i]
            if t.k == "id" and i + 1 < len(toks) and toks[i + 1].t == "(":
                if t.t in closure_params:
                    c = match_close(toks, i + 1)
                    inner = toks[i + 2:c]
                    v = "vp_v%d" % len(calls)
                    calls.append((v, t.t, inner))
                    out.append(Tok("id", v, t.line))
                    i = c + 1
                    continue
                if t.t in sm:
                    nt = Tok("id", sm[t.t], t.line)
                    out.append(nt)
                    i += 1
                    continue
                if t.t in ("Some", "Ok", "Err", "matches", "match", "if") or t.t[0].isupper():
                    out.append(t)
                    i += 1
                    continue
                return None
            if t.t in ("=", "+=", "-=", "loop", "while", "for", "mut", "return", "?", ";"):
                return None
            out.append(t)
            i += 1
        return out, calls

    def annotate_closures(self, f, toks, con):
        """D6"""
        cps = {}
        for p in f.params:
            nm, ty = self.param_name(p)
            if nm != "self":
                tn = [t.t for t in ty if t.k == "id" and t.t != "mut"]
                if len(tn) == 1 and tn[0] in self.fn_bounds(f):
                    cps[nm] = tn[0]
        state = {"n": 0}

        def walk(ts):
            out, i = [], 0
            while i < len(ts):
                t = ts[i]
                if t.k == "id" and i + 1 < len(ts) and ts[i + 1].t == "(" and (i == 0 or ts[i - 1].t != "fn"):
                    c = match_close(ts, i + 1)
                    inner = ts[i + 2:c]
                    callee = self.sig_of(t.t)
                    if callee is not None and any(is_closure_start(inner, q) for q in range(len(inner))):
                        args = split_top_closures(inner)
                        ps = [p for p in callee.params if self.param_name(p)[0] != "self"]
                        bounds = self.fn_bounds(callee)
                        newargs = []
                        for ai, a in enumerate(args):
                            q = 0
                            while q < len(a) and a[q].t in ("&", "mut"):
                                q += 1
                            if q < len(a) and a[q].t in ("|", "||", "move") and ai < len(ps):
                                ty = self.param_name(ps[ai])[1]
                                g = [x.t for x in ty if x.k == "id" and x.t != "mut"]
                                bound = bounds.get(g[0]) if g else None
                                if bound:
                                    a = a[:q] + one(a[q:], bound)
                            else:
                                a = walk(a)
                            newargs.append(a)
                        out.append(t)
                        out.append(ts[i + 1])
                        for ai, a in enumerate(newargs):
                            if ai:
                                out.append(Tok("p", ",", t.line))
                            out.extend(a)
                        out.append(ts[c])
                        i = c + 1
                        continue
                if is_closure_start(ts, i):
                    state["n"] += 1
                out.append(t)
                i += 1
            return out

        def one(a, bound):
            n = state["n"]
            state["n"] += 1
            params, body, end = closure_at(a, 0)
            # bound: Fn ( T , U ) -> R
            k = match_close(bound, 1)
            tys = split_types(bound[2:k])
            ret = bound[k + 2:] if k + 1 < len(bound) else mk("()")
            # cut the bound at a trailing comma
            line = a[0].line
            ps = []
            names = []
            for p, ty in zip(params, tys):
                if len(p) > 1 and p[1].t == ":":
                    ps.append(p)
                else:
                    ps.append(p + mk(":", line) + ty)
                names.append(p[0].t)
            txt = mk("|", line)
            for q, p in enumerate(ps):
                if q:
                    txt.append(Tok("p", ",", line))
                txt.extend([Tok(x.k, x.t, line) for x in p])
            txt.append(Tok("p", "|", line))
            txt += mk("-> (vp_b:", line) + [Tok(x.k, x.t, line) for x in ret] + mk(")", line)
            sub = con.closures.get(n) if con is not None else None
            if sub is not None and sub.get("req", "ens"):
                rq = [self.rename_con(con, f, c2.text) for c2 in sub.get("req")]
                en = [self.rename_con(con, f, c2.text) for c2 in sub.get("ens")]
                # positional names of the closure's own parameters: $0, $1
                for q, nme in enumerate(names):
                    rq = [x.replace("$%d" % q, nme) for x in rq]
                    en = [x.replace("$%d" % q, nme) for x in en]
                if rq:
                    txt.append(raw("\n        requires " + ",\n          ".join(rq)))
                if en:
                    txt.append(raw("\n        ensures " + ",\n          ".join(en)))
            else:
                sx = self.spec_expr(body, cps)
                if sx is None:
                    self.notes.append("closure without contract in %s" % f.key)
                else:
                    e, calls = sx
                    if calls:
                        rq = ["%s.requires((%s,))" % (cn, R.render(ar)) for v, cn, ar in calls]
                        txt.append(raw("\n        requires " + ", ".join(rq)))
                        ex = " && ".join("%s.ensures((%s,), %s)" % (cn, R.render(ar), v) for v, cn, ar in calls)
                        vs = ", ".join("%s: bool" % v for v, _, _ in calls)
                        txt.append(raw("\n        ensures exists|%s| %s && vp_b == (%s)" % (vs, ex, R.render(e))))
                    else:
                        txt.append(raw("\n        ensures vp_b == (%s)" % R.render(e)))
            if body and body[0].t == "{":
                b = walk(body)
            else:
                b = [Tok("p", "{", line)] + walk(body) + [Tok("p", "}", line)]
            return txt + b

        return walk(toks)

    # ---- D7
    def lift(self, f, toks, con, host):
        """lambda-lift FnMut closures"""
        n = 0
        out = list(toks)
        i = 0
        while i < len(out):
            t = out[i]
            if t.k == "id" and i + 1 < len(out) and out[i + 1].t == "(" and i >= 2 and out[i - 1].t == "." and out[i - 2].t == "self":
                callee = self.sig_of(t.t)
                if callee is not None:
                    bounds = self.fn_bounds(callee)
                    fm = [g for g, b in bounds.items() if b[0].t == "FnMut"]
                    if fm:
                        c = match_close(out, i + 1)
                        args = split_top_closures(out[i + 2:c])
                        new = self._lift_one(f, callee, args, bounds, fm[0], n, con, toks)
                        n += 1
                        out[i:c + 1] = new
            i += 1
        return out

    def _local_types(self, f, toks, con):
        ty = {}
        for p in f.params:
            nm, t = self.param_name(p)
            if nm != "self":
                ty[nm] = ("param", t)
        i = 0
        while i < len(toks):
            if toks[i].t == "let":
                j = i + 1
                if toks[j].t == "mut":
                    j += 1
                if toks[j].k == "id":
                    nm = toks[j].t
                    if toks[j + 1].t == ":":
                        k = j + 2
                        while toks[k].t not in ("=", ";"):
                            k += 1
                        ty[nm] = ("local", toks[j + 2:k])
                    elif toks[j + 1].t == "=":
                        k = j + 2
                        if toks[k].k == "id" and toks[k + 1].t == "::":
                            ty[nm] = ("local", [toks[k]])
                        else:
                            ty[nm] = ("local", None)
            i += 1
        return ty

    def _lift_one(self, f, callee, args, bounds, g, n, con, fulltoks):
        ps = [p for p in callee.params if self.param_name(p)[0] != "self"]
        which = None
        for q, p in enumerate(ps):
            nm, ty = self.param_name(p)
            if g in [x.t for x in ty]:
                which, readname = q, nm
        a = args[which]
        q = 0
        while a[q].t in ("&", "mut"):
            q += 1
        cl = closure_at(a, q)
        if cl is None:
            raise Unsupported("FnMut argument is not a closure literal")
        params, body, _ = cl
        this = params[0][0].t
        ltypes = self._local_types(f, fulltoks, con)
        overrides = {}
        if con is not None:
            for c2 in con.get("types"):
                for part in c2.text.split(";"):
                    if part.strip():
                        a1, b1 = part.split(":", 1)
                        overrides[a1.strip()] = R.tokenize(b1)
        inner = set([this])
        caps = []
        for k, t in enumerate(body):
            if t.k == "id" and t.t in ltypes and t.t not in inner and not (k > 0 and body[k - 1].t in (".", "::")) and t.t not in caps:
                caps.append(t.t)
        base = f.name + "__lift%d" % n
        key = f.key + "/lift%d" % n
        line = a[0].line
        sig_caps, pass_outer, pass_inner = [], [], []
        nb = list(body)
        for cap in caps:
            kind, ty = ltypes[cap]
            if cap in overrides:
                ty = overrides[cap]
            if ty is None:
                # default: first declared `types` entry by position
                raise Unsupported("type of captured %s unknown" % cap)
            if kind == "param":
                sig_caps.append("%s: %s" % (cap, R.render(ty)))
                pass_outer.append(cap)
            else:
                tyt = R.render(ty)
                if tyt == "Vec" and "Vec" not in overrides:
                    tyt = "Vec<u32>"
                sig_caps.append("%s: &mut %s" % (cap, tyt))
                pass_outer.append("&mut " + cap)
                # uses of the local inside the closure body
                nb = cap_uses(nb, cap)
            pass_inner.append(cap)
        nb = [Tok(t.k, "self" if (t.k == "id" and t.t == this) else t.t, t.line, t.nl) for t in nb]
        nb = r_reborrow(nb)
        # lifted body
        bf = R.Fn()
        bf.name = base + "_body"
        bf.key = key + "b"
        bf.path = f.path
        bf.line = line
        bf.params = [mk("&mut self")] + [R.tokenize(s) for s in sig_caps]
        k = match_close(bounds[g], 1)
        bf.ret = bounds[g][k + 2:]
        bf.body = nb if not (nb and nb[0].t == "{" and match_close(nb, 0) == len(nb) - 1) else nb[1:-1]
        bf.owner = f.owner
        bf.transformed = True
        # lifted loop
        lf = R.Fn()
        lf.name = base
        lf.key = key
        lf.path = f.path
        lf.line = line
        lf.params = [p for q2, p in enumerate(callee.params) if self.param_name(p)[0] == "self"]
        others = [p for q2, p in enumerate(ps) if q2 != which]
        lf.params = lf.params + others + [R.tokenize(s) for s in sig_caps]
        lf.generics = [t for grp in split_types(callee.generics) if grp[0].t != g for t in grp + mk(",")]
        w = []
        for grp in split_types(callee.where):
            if grp and grp[0].t != g:
                w += grp + mk(",")
        lf.where = w
        lf.ret = callee.ret
        body2 = []
        cb = [Tok(t.k, t.t, t.line, t.nl) for t in callee.body]
        k = 0
        while k < len(cb):
            t = cb[k]
            if t.k == "id" and t.t == readname and k + 1 < len(cb) and cb[k + 1].t == "(":
                c = match_close(cb, k + 1)
                if texts(cb[k + 2:c]) != ["self"]:
                    raise Unsupported("FnMut parameter called with something other than self")
                body2 += mk("self.%s(%s)" % (bf.name, ", ".join(pass_inner)), t.line)
                k = c + 1
                continue
            body2.append(t)
            k += 1
        lf.body = body2
        lf.owner = f.owner
        self.lifted.append((f.key, lf))
        self.lifted.append((f.key, bf))
        call = mk("%s(" % base, line)
        first = True
        for q2, a2 in enumerate(args):
            if q2 == which:
                continue
            if not first:
                call.append(Tok("p", ",", line))
            call += a2
            first = False
        for pcap in pass_outer:
            call += mk(("" if first else ", ") + pcap, line)
            first = False
        call += mk(")", line)
        # the lifted loop takes the same Fn closures: register its signature
        self.fns[key] = lf
        self.by_name.setdefault(base, []).append(key)
        return call

    # ---- D8
    def inline(self, f, toks, depth=0):
        if depth > 4:
            raise Unsupported("helper expansion too deep")
        out = list(toks)
        i = 0
        changed = False
        while i < len(out):
            t = out[i]
            if t.k == "id" and i + 1 < len(out) and out[i + 1].t == "(":
                key = self._helper_key(f, out, i)
                if key is not None:
                    h = self.fns[key]
                    exp = self._expand(f, h, out, i)
                    if exp is not None:
                        s, e, new = exp
                        out[s:e] = new
                        changed = True
                        i = s
                        self.inlined.add(key)
                        continue
            i += 1
        if changed:
            return self.inline(f, out, depth + 1)
        return out

    def _helper_key(self, f, out, i):
        name = out[i].t
        prev = out[i - 1].t if i else ""
        cands = self.by_name.get(name, [])
        if self.u.get("hof"):
            # a method call can only mean a function with a receiver
            cands = [k for k in cands if (bool(self.fns[k].params) and self.param_name(self.fns[k].params[0])[0] == "self") == (prev == ".")]
        if len(cands) != 1:
            return None
        key = cands[0]
        h = self.fns[key]
        if key in self.fncs or h.body is None or key == f.key:
            return None
        if self._match(self.u.get("keep", []), key):
            return None
        has_self = bool(h.params) and self.param_name(h.params[0])[0] == "self"
        if has_self and prev == ".":
            return key
        if not has_self and prev == "::" and i >= 2 and (out[i - 2].t == "Self" or h.owner is not None and out[i - 2].t == h.owner.name):
            return key
        if not has_self and h.owner is None and prev not in (".", "::"):
            return key
        return None

    def _flow(self, out, s, e):
        """where does the value of the expression out[s:e] go: to the function's result
        ('tail'), straight into a `?` ('q'), or elsewhere (None)"""
        mapped = False
        while True:
            if s == 0 and e == len(out):
                return "q" if mapped else "tail"
            if e >= len(out):
                return ("q" if mapped else "tail") if s > 0 and out[s - 1].t in (";", "}", "return") else None
            nxt, prev = out[e].t, (out[s - 1].t if s else "")
            if nxt == "?":
                return "q"
            if nxt == "." and texts(out[e + 1:e + 3]) == ["map", "("]:
                # Result::map hands errors on
                c = match_close(out, e + 2)
                if any(x.t in ("?", "return") for x in out[e + 2:c]):
                    return None
                mapped, e = True, c + 1
                continue
            if prev == "return" and nxt in (";", "}", ","):
                return "q" if mapped else "tail"
            if prev == "match" and nxt == "{" and texts(out[e:match_close(out, e) + 1]) == HANDED_ON:
                return "q"
            if nxt == ")" and prev == "(" and (s < 2 or out[s - 2].k != "id" or out[s - 2].t in ("match", "return", "in", "if")):
                s, e = s - 1, e + 1
                continue
            o = None
            if prev == "=>" and (nxt in (",", "}") or out[s].t == "{" and match_close(out, s) == e - 1):
                k, d = s - 1, 0
                while k >= 0:
                    if out[k].t in (")", "]", "}"):
                        d += 1
                    elif out[k].t in ("(", "[", "{"):
                        if d == 0:
                            break
                        d -= 1
                    k -= 1
                o = k
            elif nxt == "}" and prev in ("{", ";", "}"):
                o = match_open(out, e)
            if o is None or o < 0 or out[o].t != "{":
                return None
            c = match_close(out, o)
            s, e = o, c + 1
            # what kind of block is it?
            b = out[o - 1].t if o else ""
            if b == "=>" and nxt == "}" and prev != "=>":
                continue                       # block arm: flow on as the arm's value
            if b in ("=", ";", "{", "}", "(", "=>") or o == 0:
                if b == "=":
                    if e < len(out) and out[e].t == "?":
                        return "q"
                    return None
                if o == 0:
                    continue
            if b == "else" or True:
                # `if`/`else`/`match` header: walk back to its keyword
                k = o - 1
                while k >= 0:
                    if out[k].t in (")", "]", "}") and k != o:
                        k = match_open(out, k) - 1
                        continue
                    if out[k].t in ("if", "match") and out[k].k == "id":
                        if k > 0 and out[k - 1].t == "else":
                            k -= 1
                            continue
                        break
                    if out[k].t in (";", "{", "(", "=>", "while", "for", "loop", "fn"):
                        k = -1
                        break
                    k -= 1
                if k < 0:
                    if b in (";", "{", "}", "("):
                        continue               # a plain block
                    return None
                s = k
                while e < len(out) and out[e].t == "else":
                    e = match_close(out, find_block_after(out, e) if out[e + 1].t == "if" else e + 1) + 1

    def _expand(self, f, h, out, i):
        bounded = self.fn_bounds(h)
        ts = texts(h.body)
        hb = h.body
        early = False
        if "return" in ts:
            # a trailing `return e;` is the same as `e`
            if ts.count("return") == 1 and self._tail_return(h.body) is not None:
                hb = self._tail_return(h.body)
            else:
                early = True
        c = match_close(out, i + 1)
        args = split_top(out[i + 2:c])
        ps = list(h.params)
        recv = None
        s = i
        hb = [Tok(t.k, t.t, t.line, t.nl) for t in hb]
        if ps and self.param_name(ps[0])[0] == "self":
            s = recv_start(out, i - 1)
            recv = out[s:i - 1]
            if texts(recv) != ["self"]:
                # a field: its path stands for the helper's self
                if texts(ps[0])[-1] != "self" or texts(ps[0])[0] != "&" or not all(x.k == "id" or x.t == "." for x in recv):
                    return None
                nb = []
                for k, x in enumerate(hb):
                    if x.t == "self" and x.k == "id":
                        if k + 1 >= len(hb) or hb[k + 1].t != ".":
                            return None
                        q = [Tok(y.k, y.t, x.line) for y in recv]
                        q[0].nl = x.nl
                        nb += q
                    else:
                        nb.append(x)
                hb = nb
            ps = ps[1:]
        elif i and out[i - 1].t == "::":
            s = i - 2
        if len(ps) != len(args):
            return None
        e = c + 1
        q = False
        if "?" in texts(hb) or early:
            rets = [k for k, x in enumerate(hb) if x.t == "return" and x.k == "id"]
            only_err = all(k + 1 < len(hb) and hb[k + 1].t == "Err" for k in rets)
            if e < len(out) and out[e].t == "?" and only_err:
                q = True
                e += 1
            else:
                fl = self._flow(out, s, e)
                if not (fl == "tail" or (fl == "q" and only_err)):
                    return None
        line = out[i].line
        generic = set(g[0].t for g in split_types(h.generics) if g)
        new = mk("{", line)
        lets = []
        for k, (p, a) in enumerate(zip(ps, args)):
            nm, ty = self.param_name(p)
            if any(x.t in bounded for x in ty):
                # a predicate handed on: its name stands for the parameter
                if len(a) != 1 or a[0].k != "id" or any(x.t == "let" for x in hb if False):
                    return None
                for x in hb:
                    if x.k == "id" and x.t == nm:
                        x.t = a[0].t
                continue
            if any(x.t in generic for x in ty):
                ty = []
            lets.append((k, p, nm, ty, a))
        for k, p, nm, ty, a in lets:
            new += mk("let vp_a%d" % k, line) + (mk(":", line) + [Tok(x.k, x.t, line) for x in ty] if ty else []) + mk("=", line) + a + mk(";", line)
        for k, p, nm, ty, a in lets:
            mut = "mut " if p[0].t == "mut" else ""
            new += mk("let %s%s" % (mut, nm), line) + (mk(":", line) + [Tok(x.k, x.t, line) for x in ty] if ty else []) + mk("= vp_a%d;" % k, line)
        ret = [Tok(x.k, x.t, line) for x in h.ret] if h.ret else mk("()")
        if any(x.t in generic for x in ret):
            return None
        new += mk("let vp_r:", line) + ret + mk("= {", line) + hb + mk("}; vp_r }", line)
        if q:
            new = mk("(match (", line) + new + mk(") { Ok(vp_v) => vp_v, Err(vp_e) => return Err(vp_e) })", line)
        else:
            # `{ .. }` in statement position followed by `.`/operators needs parentheses
            new = mk("(", line) + new + mk(")", line)
        new[0].nl = out[s].nl
        return s, e, new

    def _tail_return(self, body):
        for k in range(len(body) - 1, -1, -1):
            if body[k].t == "return":
                if body[-1].t == ";" and all(t.t not in ("{", "}") or True for t in body[k:]):
                    # must be at depth 0
                    d = 0
                    for t in body[:k]:
                        if t.t in ("(", "[", "{"):
                            d += 1
                        elif t.t in (")", "]", "}"):
                            d -= 1
                    if d == 0:
                        return body[:k] + body[k + 1:-1]
                return None
        return None

    # ---- contracts
    def rename_con(self, con, f, text):
        """map the contract's parameter and local names onto the source's"""
        sub = {}
        ps = [self.param_name(p)[0] for p in f.params]
        ps = [p for p in ps if p != "self"]
        cps = [p for p in con.params if p != "self"]
        for a, b in zip(cps, ps):
            if a != b:
                sub[a] = b
        sub.update(getattr(f, "local_map", {}))
        if not sub:
            return text
        return re.sub(r"(?<![\w.])([A-Za-z_]\w*)\b(?!\s*!)", lambda m: sub.get(m.group(1), m.group(1)), text)

    def resolve_lets(self, f, toks, con):
        f.local_map = {}
        if con is None:
            return
        flat = []
        for i, t in enumerate(toks):
            if t.t == "let" and t.k == "id":
                j = i + 1
                if toks[j].t == "mut":
                    j += 1
                if toks[j].k != "id" and toks[j].t != "(":
                    continue
                k = j
                while k < len(toks) and toks[k].t not in ("=", ";"):
                    if toks[k].t in ("(", "[", "{"):
                        k = match_close(toks, k)
                    k += 1
                e = k
                while e < len(toks) and toks[e].t != ";":
                    if toks[e].t in ("(", "[", "{"):
                        e = match_close(toks, e)
                    e += 1
                flat.append((toks[j].t, R.render([Tok(x.k, x.t, 0, 0) for x in toks[k + 1:e]])))
        names = [n for n, _ in flat]
        used = set()
        for nm, rx in con.lets:
            hit = None
            cands = [n for n, init in flat if n not in used and re.search(rx, init)]
            if nm in cands:
                hit = nm
            elif cands:
                hit = cands[0]
            elif nm in names:
                hit = nm
            if hit is None:
                self.notes.append("local %s of %s not found" % (nm, f.key))
                continue
            used.add(hit)
            if hit != nm:
                f.local_map[nm] = hit

    def loop_headers(self, toks):
        """indices of loop keywords in body order, with the index of their `{`"""
        res = []
        i = 0
        while i < len(toks):
            t = toks[i]
            if t.k == "id" and t.t in ("loop", "while", "for"):
                if t.t == "for" and i + 1 < len(toks) and toks[i + 1].t == "<":
                    i += 1
                    continue
                o = i + 1 if t.t == "loop" else find_block_after(toks, i)
                res.append((i, o))
            i += 1
        return res

    def annotate_loops(self, f, toks, con):
        heads = self.loop_headers(toks)
        ins = []    # (index, [tokens]) inserted before index
        for n, (i, o) in enumerate(heads):
            blk = con.loops.get(n) if con is not None else None
            if blk is None and self.u.get("default_loop"):
                pass
            if blk is None:
                if heads:
                    self.notes.append("loop %d of %s has no invariant" % (n, f.key))
                continue
            lines = []
            idx = getattr(toks[i], "vp_index", None)

            def ren(text):
                text = self.rename_con(con, f, text)
                if idx is not None and blk.iter:
                    text = text.replace(blk.iter + ".index@", idx)
                return text
            plain_for = toks[i].t == "for"
            kinds = (("invx", "invariant_except_break"), ("inv", "invariant"), ("ens", "ensures"))
            if plain_for:
                kinds = (("inv", "invariant"),)
            for kind, kw in kinds:
                cs = blk.get("inv", "invx") if plain_for else blk.get(kind)
                if cs:
                    lines.append((kw, None))
                    for c2 in cs:
                        lines.append((ren(c2.text) + ",", (f.key, "loop %d %s" % (n, c2.kind), c2)))
            if idx is not None:
                o2 = [q for q in range(i, o) if toks[q].t == "<"][0]
                hi = R.render([Tok(y.k, y.t, 0, 0) for y in toks[o2 + 1:o]])
                v, lo = idx[1:-1].split(" as int - ")
                k = [q for q in range(len(lines)) if lines[q][0] == "invariant"]
                ln = ("%s <= %s <= %s || %s == %s," % (lo, v, hi, v, lo), None)
                if k:
                    lines.insert(k[0] + 1, ln)
                else:
                    lines[:0] = [("invariant", None), ln]
            if idx is not None and not blk.one("dec"):
                lines.append(("decreases", None))
                o2 = [q for q in range(i, o) if toks[q].t == "<"][0]
                lines.append(("%s - %s," % (R.render([Tok(y.k, y.t, 0, 0) for y in toks[o2 + 1:o]]), idx.split(" ")[0][1:]), None))
            d = blk.one("dec")
            if d:
                lines.append(("decreases", None))
                lines.append((self.rename_con(con, f, d) + ",", (f.key, "loop %d dec" % n, blk.get("dec")[0])))
            ins.append((o, [Tok("clauses", lines, 0)]))
            if blk.iter and toks[i].t == "for":
                j = i + 1
                while toks[j].t != "in":
                    j += 1
                ins.append((j + 1, mk(blk.iter + ":", toks[i].line)))
            c = match_close(toks, o)
            op = self.openers(f, con)
            if op:
                ins.append((o + 1, [raw("\n        " + " ".join(op) + "\n")]))
            st = blk.get("start")
            if st:
                ins.append((o + 1, [raw("\n        proof {\n" + "\n".join(ren(x.text) for x in st) + "\n        }\n")]))
            en = blk.get("end")
            if en:
                ins.append((c, [raw("\n        proof {\n" + "\n".join(ren(x.text) for x in en) + "\n        }\n")]))
        for idx, ts in sorted(ins, key=lambda x: -x[0]):
            toks = toks[:idx] + ts + toks[idx:]
        if con is not None:
            for n in con.loops:
                if n >= len(heads):
                    self.notes.append("loop %d of %s no longer exists" % (n, f.key))
        return toks

    def openers(self, f, con):
        """ghost statements at function entry and at the start of every loop body"""
        res = []
        if con is None:
            return res
        for c2 in con.get("use"):
            res.append("broadcast use {%s};" % c2.text)
        for rx, txt in self.u.get("openers", []):
            if re.search(rx, f.key) and f.params and "mut" in texts(f.params[0]) and self.param_name(f.params[0])[0] == "self":
                res.append(txt)
        return res

    def soft_hints(self, f, toks, con):
        for c2 in con.get("before", "after"):
            pat = re.compile(c2.labels[0])
            s, pos = "", []
            for k, t in enumerate(toks):
                pos.append(len(s))
                s += (t.t if t.k not in ("raw", "clauses") else "") + " "
            m = pat.search(s)
            if not m:
                self.notes.append("hint not placed in %s: /%s/" % (f.key, c2.labels[0]))
                continue
            k = max(q for q in range(len(pos)) if pos[q] <= m.start())
            txt = raw("\n        proof {\n" + self.rename_con(con, f, c2.text) + "\n        }\n")
            if c2.kind == "before":
                j, d = k - 1, 0
                while j >= 0:
                    tt = toks[j].t if toks[j].k == "p" else ""
                    if tt in (")", "]", "}"):
                        if d == 0 and tt == "}":
                            break
                        d += 1
                    elif tt in ("(", "[", "{"):
                        if d == 0 and tt == "{":
                            break
                        if d > 0:
                            d -= 1
                    elif tt == ";" and d == 0:
                        break
                    j -= 1
                toks = toks[:j + 1] + [txt] + toks[j + 1:]
            else:
                j = k
                while j < len(toks):
                    tt = toks[j].t if toks[j].k == "p" else ""
                    if tt in ("(", "[", "{"):
                        j = match_close(toks, j)
                    elif tt == ";":
                        break
                    j += 1
                toks = toks[:j + 1] + [txt] + toks[j + 1:]
        return toks

    def transform_body(self, f, con):
        try:
            return self._transform_body(f, con)
        except Exception as e:
            if getattr(e, "vp_fn", None) is None:
                e.vp_fn = f.key
            raise

    def _transform_body(self, f, con):
        toks = [Tok(t.k, t.t, t.line, t.nl) for t in f.body]
        if f.params and texts(f.params[0]) == ["mut", "self"]:
            f.mut_self = True
            f.params = [f.params[0][1:]] + list(f.params[1:])
        if getattr(f, "mut_self", False):
            # D18 `mut self`: a local of that name
            toks = mk("let mut vp_self = self;", f.line) + [Tok(t.k, "vp_self" if t.k == "id" and t.t == "self" else t.t, t.line, t.nl) for t in toks]
        if not getattr(f, "transformed", False):
            toks = r_macros(toks)
            toks = r_ranges(toks)
        if self.u.get("hof"):
            toks = H.expand(self, f, toks, con)
        toks = self.inline(f, toks)
        if self.u.get("hof"):
            if self.u.get("parse"):
                toks = H.parses(self, f, toks)
            toks = H.vecchains(toks, ret=f.ret)
            H.loops.slices = self.u.get("slices", [])
            toks = H.loops(toks)
            toks = H.maps(self, f, toks)
        toks = r_macros(toks)
        toks = r_fullrange(toks)
        toks = r_refpats(toks)
        toks = r_chains(toks)
        toks = r_f64(toks, self.u.get("f64_cast"))
        toks = r_comb(toks, self.kinds(f.key))
        for fn in self.u.get("body_passes", []):
            toks = fn(self, f, toks)
        toks = r_forbreak(toks)
        toks = self.lift(f, toks, con, f)
        self.resolve_lets(f, toks, con)
        toks = self.annotate_closures(f, toks, con)
        toks = self.annotate_loops(f, toks, con)
        if con is not None:
            toks = self.soft_hints(f, toks, con)
        return toks

    # ---- output
    def w(self, text, info=None):
        for ln in text.split("\n"):
            self.out.append(ln)
            if info is not None:
                self.map[len(self.out)] = info

    def emit_toks(self, toks, f, indent):
        """body tokens, one source line per output line"""
        cur = []
        curline = [None]

        def flush():
            if cur:
                self.w(" " * indent + R.render([Tok(t.k, t.t, t.line, 0) for t in cur]),
                       {"fn": f.key, "kind": "body", "src": "%s:%d" % (f.path, curline[0] or f.line)})
                del cur[:]
            curline[0] = None
        for t in toks:
            if t.k == "raw":
                flush()
                self.w(t.t.strip("\n"), {"fn": f.key, "kind": "ghost"})
                continue
            if t.k == "clauses":
                flush()
                self.emit_clauses(t.t, indent + 2)
                continue
            if t.nl:
                flush()
            cur.append(t)
            if curline[0] is None and t.line:
                curline[0] = t.line
        flush()

    def emit_clauses(self, lines, indent):
        for txt, info in lines:
            i2 = None
            if info is not None:
                key, kind, c2 = info
                i2 = {"fn": key, "kind": kind, "labels": c2.labels, "text": " ".join(c2.text.split()), "con_line": c2.line}
            self.w(" " * indent + txt, i2)

    def emit_fn(self, f, indent=2, host_trait=False, in_trait_impl=False):
        con = self.fncs.get(f.key)
        if con is not None:
            self.used_contracts.add(f.key)
        body = None
        if f.body is not None:
            if f.key in self.assume:
                if con is None:
                    f.local_map = {}
                body = mk("unimplemented!()", f.line)
            else:
                self.with_body.add(f.key)
                body = self.transform_body(f, con)
                self.calls[f.key] = set(body[k].t for k in range(len(body) - 1) if body[k].k == "id" and body[k + 1].t == "(")
        elif con is not None:
            f.local_map = {}
        pad = " " * indent
        info = {"fn": f.key, "kind": "sig", "src": "%s:%d" % (f.path, f.line)}
        for a in self.u.get("fn_attrs", {}).get(f.key, []):
            self.w(pad + a, info)
        if f.key in self.assume:
            self.w(pad + "#[verifier::external_body]", info)
        if con is not None:
            for c2 in ([] if f.key in self.assume else con.get("attr")):
                self.w(pad + c2.text, info)
        quals = [t.t for t in f.quals if t.t in ("const", "unsafe")]
        sig = pad + " ".join(quals + ["fn"]) + " " + f.name
        if f.generics:
            sig += "<" + R.render([Tok(t.k, t.t, t.line, 0) for t in f.generics]) + ">"
        sig += "(" + ", ".join(anon_param(p, k) + R.render([Tok(t.k, t.t, t.line, 0) for t in p]) for k, p in enumerate(f.params)) + ")"
        if f.ret:
            rt = R.render([Tok(t.k, t.t, t.line, 0) for t in f.ret])
            if con is not None and con.ret:
                sig += " -> (%s: %s)" % (con.ret, rt)
            else:
                sig += " -> " + rt
        elif con is not None and con.ret:
            sig += " -> (%s: ())" % con.ret
        self.w(sig, info)
        if f.where:
            self.w(pad + "  where " + R.render([Tok(t.k, t.t, t.line, 0) for t in f.where]).rstrip(",") + ",", info)
        if con is not None:
            for kind, kw in (("req", "requires"), ("ens", "ensures")):
                cs = con.get(kind)
                if cs and not (in_trait_impl and kind == "req"):
                    self.w(pad + "  " + kw, info)
                    self.emit_clauses([(self.rename_con(con, f, c2.text) + ",", (f.key, kind, c2)) for c2 in cs], indent + 4)
            d = con.one("dec")
            if d and f.key not in self.assume and not in_trait_impl:
                self.w(pad + "  decreases", info)
                self.w(pad + "    " + self.rename_con(con, f, d) + ",", info)
        if body is None:
            self.w(pad + ";", info)
            return
        self.w(pad + "{", info)
        if f.key in self.assume:
            self.w(pad + "  unimplemented!()", info)
            self.w(pad + "}", info)
            return
        for c2 in (con.get("hide") if con is not None else []):
            self.w(pad + "  " + " ".join("hide(%s);" % x.strip() for x in c2.text.split(",")), {"fn": f.key, "kind": "ghost"})
        for ln in self.openers(f, con):
            self.w(pad + "  " + ln, {"fn": f.key, "kind": "ghost"})
        for c2 in (con.get("ghost") if con is not None else []):
            self.w(pad + "  let ghost " + self.rename_con(con, f, c2.text) + ";", {"fn": f.key, "kind": "ghost"})
        if con is not None:
            en = con.get("entry")
            if en:
                self.w(pad + "  proof {", info)
                for c2 in en:
                    self.w(self.rename_con(con, f, c2.text), {"fn": f.key, "kind": "ghost"})
                self.w(pad + "  }", info)
        ex = con.get("exit") if con is not None else []
        if ex:
            self.w(pad + ("  let vp_ret: %s = {" % rt if f.ret else "  {"), info)
        self.emit_toks(body, f, indent + 2)
        if ex:
            self.w(pad + ("  };" if f.ret else "  }"), info)
            self.w(pad + "  proof {", info)
            for c2 in ex:
                self.w(self.rename_con(con, f, c2.text), {"fn": f.key, "kind": "ghost"})
            self.w(pad + ("  } vp_ret" if f.ret else "  }"), info)
        self.w(pad + "}", info)

    def weak(self, key):
        """functions without a contract that `key` relies on"""
        if key is None:
            return []
        res = [key] if self.has_no_contract(key) else []
        for n in self.calls.get(key, ()):
            if self.by_name.get(n) and all(self.has_no_contract(k) for k in self.by_name[n]):
                res.append(n)
        return sorted(res)

    def has_no_contract(self, key):
        f = self.fns.get(key)
        if f is None or key in self.fncs or key in self.expanded or key.startswith("(extern)"):
            return False
        # a trait method's contract may stand in the trait
        return not any(k in self.fncs for k in self.by_name.get(f.name, []))

    def run(self):
        self.expanded = set()
        text = self._run_once()
        # helpers that were expanded at every call are verified there, not alone
        gone = set()
        for k in self.inlined:
            f = self.fns[k]
            if k in self.fncs or (f.is_pub and not self.fn_bounds(f)):
                continue
            if not re.search(r"(?<!fn )\b%s\s*\(" % re.escape(f.name), text):
                gone.add(k)
        if gone:
            self.expanded = gone
            notes = ["expanded into its callers: %s" % k for k in sorted(gone)]
            self.fns, self.by_name, self.items, self.out, self.map, self.lifted, self.missing = {}, {}, [], [], {}, [], []
            self.used_contracts, self.with_body, self.inlined, self.notes, self.hof_n = set(), set(), set(), notes, {}
            text = self._run_once()
        return text

    def _run_once(self):
        self.load()
        order = self.items
        self.w("// GENERATED from /repo by vp/gen.py; do not edit.")
        for ln in self.u.get("preamble", []):
            self.w(ln)
        self.w("use vstd::prelude::*;")
        for ln in self.u.get("uses", []):
            self.w(ln)
        for it in order:
            if it.kind == "macro_rules":
                self.w(R.render(strip_pub(it.toks)))
        self.w("verus! {")
        for p in self.u.get("prelude", []):
            with open(p) as fh:
                for k, ln in enumerate(fh.read().split("\n")):
                    self.w(ln, {"fn": "(prelude)", "kind": "prelude", "src": "%s:%d" % (os.path.basename(p), k + 1)})
        for tx in self.spec_texts:
            self.w("\n".join(tx), {"fn": "(spec)", "kind": "spec"})
        for it in order:
            if it.kind in TYPE_KINDS:
                self.emit_item(it)
        for key, buf in self.injects:
            if key.startswith("spec "):
                self.w("\n".join(buf), {"fn": "(spec)", "kind": "spec"})
        if self.u.get("loc"):
            for it in order:
                if it.kind in ("struct", "enum"):
                    for ln in loc_impls(it, self.u["loc"] == "body"):
                        self.w(ln, {"fn": "(spec)", "kind": "spec"})
        self.w("mod code {")
        self.w("use super::*;")
        if self.u.get("broadcast"):
            self.w("broadcast use " + self.u["broadcast"] + ";")
        for it in order:
            if it.kind not in TYPE_KINDS:
                self.emit_item(it)
        self.w("} // mod code")
        self.w("fn main() {}")
        self.w("} // verus!")
        for k in self.fncs:
            if k not in self.used_contracts:
                self.missing.append(k)
        return "\n".join(self.out) + "\n"

    def emit_item(self, it):
        info = {"fn": it.name, "kind": "item", "src": "%s:%d" % (it.path, it.line)}
        if it.kind == "macro_rules":
            return
        if it.kind in ("struct", "enum", "union"):
            for a in self.u.get("type_attrs", {}).get(it.name, []):
                self.w(a, info)
            self.w(R.render(strip_pub(strip_attrs(it.toks))), info)
            return
        if it.kind in ("type", "const", "static", "macro"):
            self.w(R.render(strip_pub(it.toks)), info)
            return
        if it.kind == "fn":
            if it.obj.key in self.expanded:
                return
            self.emit_fn(it.obj, 0)
            self.flush_lifted(it.obj.key, free=True)
            return
        im = it.obj
        inherent = it.name in self.u.get("inherent", [])
        gen = ("<" + R.render([Tok(t.k, t.t, t.line, 0) for t in im.generics]) + ">") if im.generics else ""
        hdr = it.kind + (gen if it.kind != "trait" else "") + " "
        if it.kind == "trait":
            hdr += it.name + gen
            if im.ty:
                hdr += R.render([Tok(t.k, t.t, t.line, 0) for t in im.ty])
            if it.name in self.u.get("sized", []):
                hdr += (" + " if im.ty else ": ") + "Sized"
        else:
            if im.trait and not inherent:
                hdr += R.render([Tok(t.k, t.t, t.line, 0) for t in im.trait]) + " for "
            hdr += R.render([Tok(t.k, t.t, t.line, 0) for t in im.ty])
        if im.where:
            hdr += " where " + R.render([Tok(t.k, t.t, t.line, 0) for t in im.where])
        if it.kind == "impl" and im.trait and not inherent and im.items and all(sub.kind == "fn" and (sub.obj.key in self.expanded or self.u.get("hof") and self.fn_bounds(sub.obj)
                and sub.obj.key not in self.fncs) for sub in im.items):
            self.notes.append("expanded into its callers: %s" % it.name)
            return
        if inherent and im.generics and not (idents_of(im.ty) & idents_of(im.generics)):
            hdr = "impl " + R.render([Tok(t.k, t.t, t.line, 0) for t in im.ty])     # a parameter of the trait alone
            for sub in im.items:
                if sub.kind == "fn":
                    sub.obj.generics = list(im.generics) + (mk(",", 0) + sub.obj.generics if sub.obj.generics else [])
        self.w(hdr + " {", info)
        for key, buf in self.injects:
            if key == it.kind + " " + it.name and not getattr(im, "injected", False):
                self.w("\n".join(buf), {"fn": it.name, "kind": "spec"})
        done = getattr(self, "_inj_done", set())
        skip = self.u.get("skip_fns", [])
        for sub in im.items:
            if sub.kind == "fn":
                if sub.obj.key in self.expanded:
                    continue
                if self.u.get("hof") and self.fn_bounds(sub.obj) and sub.obj.key not in self.fncs:
                    self.notes.append("expanded into its callers: %s" % sub.obj.key)
                    continue
                if self._match(skip, sub.obj.key):
                    self.notes.append("dropped fn: %s (%s)" % (sub.obj.key, it.path))
                    continue
                self.emit_fn(sub.obj, 2, it.kind == "trait", bool(im.trait) and not inherent)
                self.flush_lifted(sub.obj.key)
            elif sub.kind in ("type", "const") and not inherent:
                self.w("  " + R.render(sub.toks), info)
        self.w("}", info)

    def flush_lifted(self, key, free=False):
        while True:
            todo = [(k, lf) for k, lf in self.lifted if k == key]
            if not todo:
                return
            self.lifted = [(k, lf) for k, lf in self.lifted if k != key]
            for _, lf in todo:
                self.emit_fn(lf, 0 if free else 2)
                self.flush_lifted(lf.key, free)


def idents_of(toks):
    return set(t.t for t in toks if t.k == "id")


def anon_param(p, k):
    """edition-2015 trait methods may leave a parameter unnamed"""
    ts = texts(p)
    d = 0
    for x in ts:
        d += x in ("(", "<", "[")
        d -= x in (")", ">", "]")
        if x == ":" and d == 0:
            return ""
    return "" if "self" in ts else "vp_a%d: " % k


def split_top_closures(toks):
    """split call arguments at commas, not inside closure parameter lists"""
    out, cur, i = [], [], 0
    while i < len(toks):
        t = toks[i]
        if t.t in ("(", "[", "{"):
            c = match_close(toks, i)
            cur.extend(toks[i:c + 1])
            i = c + 1
            continue
        if is_closure_start(toks, i) and t.t == "|":
            j = i + 1
            while toks[j].t != "|":
                j += 1
            cur.extend(toks[i:j + 1])
            i = j + 1
            continue
        if t.t == ",":
            out.append(cur)
            cur = []
        else:
            cur.append(t)
        i += 1
    if cur:
        out.append(cur)
    return out


def cap_uses(toks, name):
    """captured local -> (*name)"""
    out = []
    for i, t in enumerate(toks):
        if t.k == "id" and t.t == name and not (i > 0 and toks[i - 1].t in (".", "::")):
            out.extend([Tok("p", "(", t.line, t.nl), Tok("p", "*", t.line), Tok("id", name, t.line), Tok("p", ")", t.line)])
        else:
            out.append(t)
    return out


def r_reborrow(toks):
    """&mut (*x)  ->  x"""
    out, i = [], 0
    while i < len(toks):
        if i + 5 < len(toks) and texts(toks[i:i + 4]) == ["&", "mut", "(", "*"] and toks[i + 5].t == ")":
            t = toks[i + 4]
            out.append(Tok(t.k, t.t, t.line, toks[i].nl))
            i += 6
            continue
        out.append(toks[i])
        i += 1
    return out


def derives(it):
    """names in the item's #[derive(..)]"""
    res, toks = set(), it.attrs if it.attrs else []
    for a in toks:
        ts = texts(a) if isinstance(a, list) else [a.t]
        res |= set(ts)
    return res


def loc_impls(it, with_body=False):
    """spec (and trusted exec) TrackingRef/TrackingMut impls with the meaning of the derive:
    a struct's `location` field, a variant's leading Option<Span>, or its only field's"""
    d = derives(it)
    if "TrackingRef" not in d and it.name not in ("Patt", "Program"):     # hand-written, same meaning
        return []
    toks = strip_pub(strip_attrs(it.toks))
    o = [k for k in range(len(toks)) if toks[k].t == "{"][0]
    hdr = toks[2:o]
    gen = [t.t for t in hdr[1:-1]] if hdr and hdr[0].t == "<" else []
    name = toks[1].t
    body = toks[o + 1:match_close(toks, o)]
    g = ("<" + "".join(gen) + ">") if gen else ""
    use_bound = False
    arms, warms = [], []
    if it.kind == "struct":
        loc = "self.location"
        wl = "%s { location: l, ..self }" % name
    else:
        for v in split_top(body):
            if not v:
                continue
            vn = v[0].t
            tys = split_types(v[2:-1]) if len(v) > 1 and v[1].t == "(" else []
            if not tys:
                return []
            rest = ", ".join("x%d" % k for k in range(1, len(tys)))
            first = "".join(texts(tys[0]))
            if first == "Option<Span>":
                arms.append("%s::%s(l, ..) => l," % (name, vn))
                warms.append("%s::%s(x0%s) => %s::%s(l%s)," % (name, vn, ", " + rest if rest else "", name, vn, ", " + rest if rest else ""))
            elif len(tys) == 1:
                if first in gen:
                    use_bound = True
                arms.append("%s::%s(x) => x.loc()," % (name, vn))
                warms.append("%s::%s(x) => %s::%s(x.with_loc(l))," % (name, vn, name, vn))
            elif name == "Program" and len(tys) == 2:
                arms.append("%s::%s(_, x) => x.loc()," % (name, vn))
                warms.append("%s::%s(y, x) => %s::%s(y, x.with_loc(l))," % (name, vn, name, vn))
            else:
                raise Unsupported("no location in %s::%s" % (name, vn))
        loc = "match *self { " + " ".join(arms) + " }"
        wl = "match self { " + " ".join(warms) + " }"
    res = []

    def G(b):
        return "<" + ", ".join("%s: %s" % (x, b) for x in gen if x != ",") + ">" if gen and use_bound else g
    ext = "#[verifier::external_body] fn %s { unimplemented!() }"
    res.append("impl%s TrackingRef for %s%s { spec fn loc(&self) -> Option<Span> { %s } %s }" % (G("TrackingRef"), name, g, loc, ext % "tracking_ref(&self) -> (r: &Option<Span>)"))
    res.append("impl%s TrackingMut for %s%s { spec fn with_loc(self, l: Option<Span>) -> Self { %s } %s }" % (G("TrackingMut"), name, g, wl, ext % "tracking_mut(&mut self) -> (r: &mut Option<Span>)"))
    return res


def strip_attrs(toks):
    out, i = [], 0
    while i < len(toks):
        if toks[i].t == "#" and i + 1 < len(toks) and toks[i + 1].t == "[":
            i = match_close(toks, i + 1) + 1
            continue
        out.append(toks[i])
        i += 1
    return out


def strip_pub(toks):
    out, i = [], 0
    while i < len(toks):
        if toks[i].t == "pub":
            i += 1
            if i < len(toks) and toks[i].t == "(" and i + 1 < len(toks) and toks[i + 1].t in ("crate", "super", "self", "in"):
                i = match_close(toks, i) + 1
            continue
        out.append(toks[i])
        i += 1
    return out
