"""D13-D16: calls that hand a function to a function (part of the extraction, see gen.py).

  D13 a call of a contract-less function that takes an Fn/FnMut/FnOnce, with a literal
      closure: the function's own body is expanded at the call, the closure's body
      standing for the calls of the parameter (`?` and `return Err(..)` inside the closure
      keep their meaning because the expansion is only made where the caller hands the
      error on unchanged; otherwise the closure becomes a method of its own).
  D14 the same with a path (`Self::f`, `Enum::Variant`): an instance of the function for
      that path, a method of its own with its own contract.
  D15 `e.map(path)` and `e.map(closure)` -> `match`; whether `e` is an Option or a Result
      is read off the signature of the function it comes from.
  D16 `for x in V.into_iter().rev()` -> popping loop; `for x in V` -> loop over VpIter (the
      contract of vec::IntoIter); `for x in V.iter()` and `for x in
      SLICE` -> index loop; `while let P = e {..}` and `while` conditions that contain `?`
      or a block -> `loop` with `match`/`if`.
"""
import rustlex as R
from rustlex import Tok, mk, match_close, match_open, split_top, split_types


def texts(toks):
    return [t.t for t in toks]


def copy(toks):
    res = []
    for t in toks:
        x = Tok(t.k, t.t, t.line, t.nl)
        res.append(x)
    return res


def has_jump(toks):
    return any((t.k == "id" and t.t == "return") or (t.k == "p" and t.t == "?") for t in toks)


def returns_only_err(toks):
    return all(k + 1 < len(toks) and toks[k + 1].t == "Err"
               for k, t in enumerate(toks) if t.k == "id" and t.t == "return")


def idents(toks):
    """lower-case identifiers used as variables"""
    res = set()
    for k, t in enumerate(toks):
        if t.k != "id" or not (t.t[0].islower() or t.t[0] == "_"):
            continue
        if k and toks[k - 1].t in (".", "::"):
            continue
        if k + 1 < len(toks) and toks[k + 1].t in ("(", "!", "::"):
            continue
        if field_name(toks, k):
            continue
        res.add(t.t)
    return res - {"let", "mut", "ref", "match", "if", "else", "return", "loop", "while", "for", "in", "break", "self", "true", "false", "_", "continue", "as", "move"}


def field_name(toks, k):
    """the f of `S { f: e }`"""
    return k > 0 and toks[k - 1].t in ("{", ",") and k + 1 < len(toks) and toks[k + 1].t == ":"


def rename(toks, a, b):
    for k, t in enumerate(toks):
        if t.k == "id" and t.t == a and not (k and toks[k - 1].t in (".", "::")) and not field_name(toks, k):
            t.t = b


def strip_block(body):
    if body and body[0].t == "{" and match_close(body, 0) == len(body) - 1:
        return body[1:-1], True
    return body, False


def tail_ok(stmts):
    """if the statement list ends with `Ok(E)`, (everything before, E)"""
    if not stmts or stmts[-1].t != ")":
        return None
    o = match_open(stmts, len(stmts) - 1)
    if o < 1 or stmts[o - 1].t != "Ok":
        return None
    if o - 1 > 0 and stmts[o - 2].t not in (";", "}", "{"):
        return None
    return stmts[:o - 1], stmts[o + 1:-1]


def fn_params(gen, h):
    """[(index, name, type tokens, bound or None)]"""
    b = gen.fn_bounds(h)
    res = []
    for k, p in enumerate(h.params):
        nm, ty = gen.param_name(p)
        g = [t.t for t in ty if t.t in b] if nm != "self" else []
        res.append((k, nm, ty, b[g[0]] if g else None, g[0] if g else None))
    return res


def candidate(gen, f, out, i):
    name = out[i].t
    prev = out[i - 1].t if i else ""
    if prev == "fn":
        return None
    if name in COMBS and prev == ".":
        from gen import recv_start
        s = recv_start(out, i - 1)
        if not (s == i - 2 and out[s].t in gen.vec_vars.get(f.key, ())) and kind_of(gen, f, out, s, i - 1) != "vec":
            return None
    best = []
    for key in gen.by_name.get(name, []):
        h = gen.fns[key]
        if h.body is None or key in gen.fncs or key.startswith("(extern)") or not gen.fn_bounds(h):
            continue
        has_self = bool(h.params) and gen.param_name(h.params[0])[0] == "self"
        if has_self == (prev == "."):
            best.append(key)
    return best[0] if len(best) == 1 else None


class Fail(Exception):
    pass


def expand(gen, f, toks, con):
    """D13/D14 on a function body"""
    from gen import split_top_closures, is_closure_start, closure_at, recv_start, Unsupported
    out = list(toks)
    vv = gen.vec_vars.setdefault(f.key, set())
    for k, t in enumerate(out):
        if t.t == "let" and k + 3 < len(out):
            j = k + 1 + (out[k + 1].t == "mut")
            if out[j].k == "id" and out[j + 1].t == "=" and kind_of(gen, f, out, j, j + 1) == "vec":
                vv.add(out[j].t)
    gen_n = gen.hof_n.setdefault(f.key, [0])
    guard = 0
    again = True
    while again:
        again = False
        i = 0
        while i < len(out):
            t = out[i]
            if t.k == "id" and i + 1 < len(out) and out[i + 1].t == "(":
                key = candidate(gen, f, out, i)
                if key is not None:
                    guard += 1
                    if guard > 60:
                        raise Unsupported("expansion of %s does not end" % key)
                    s, e, new = one(gen, f, gen.fns[key], out, i, gen_n, con)
                    new[0].nl = out[s].nl
                    out[s:e] = new
                    gen.inlined.add(key)
                    again = True
                    i = s
                    continue
            i += 1
    return out


def one(gen, f, h, out, i, gen_n, con):
    from gen import split_top_closures, is_closure_start, closure_at, recv_start, Unsupported, r_macros
    c = match_close(out, i + 1)
    args = split_top_closures(out[i + 2:c])
    line = out[i].line
    ps = fn_params(gen, h)
    s = i
    recv = None
    if ps and ps[0][1] == "self":
        s = recv_start(out, i - 1)
        recv = out[s:i - 1]
        ps = ps[1:]
    elif i and out[i - 1].t == "::":
        s = i - 2
    if len(ps) != len(args):
        raise Unsupported("call of %s with %d arguments" % (h.key, len(args)))
    funs, rest = {}, []
    for (k, nm, ty, bound, g), a in zip(ps, args):
        if bound is None:
            rest.append((nm, ty, a, h.params[k]))
            continue
        a = list(a)
        while a and a[0].t in ("&", "mut", "move"):
            a = a[1:]
        if is_closure_start(a, 0):
            cl = closure_at(a, 0)
            funs[nm] = ("clo", cl[0], cl[1], bound, g)
        elif all(x.k == "id" or x.t == "::" for x in a):
            funs[nm] = ("path", a, None, bound, g)
        else:
            raise Unsupported("function argument of %s" % h.key)
    if all(v[0] == "path" for v in funs.values()):
        return s, c + 1, instance(gen, f, h, recv, funs, rest, line)
    # ---- expansion
    hb = r_macros(copy(h.body))
    e = c + 1
    flow = gen._flow(out, s, e)
    q = e < len(out) and out[e].t == "?"
    host_jumps = has_jump(hb)
    if host_jumps:
        if not returns_only_err(hb) and flow != "tail":
            raise Unsupported("expansion of %s: returns" % h.key)
        if not q and flow not in ("tail", "q"):
            raise Unsupported("expansion of %s: flow" % h.key)
    # names
    used = set()
    for v in funs.values():
        if v[0] == "clo":
            b = set()
            for p in v[1]:
                b |= set(x.t for x in p if x.k == "id")
            used |= idents(v[2]) - b
    for _, _, a, _ in rest:
        used |= idents(a)
    if recv is not None:
        used |= idents(recv) - {"self"}
    own = idents(hb) - set(funs)
    subst = {}
    for nm, ty, a, p in rest:
        if any(x.t == nm and k and hb[k - 1].t in ("let", "mut", "ref") for k, x in enumerate(hb)):
            continue                       # shadowed
        if len(a) == 1 and a[0].k in ("id", "num", "str") and p[0].t != "mut" and (a[0].t in ("self", "this", "true", "false") or a[0].k != "id"):
            subst[nm] = a
    for nm in sorted((own & used)):
        if nm in subst:
            continue
        for k, x in enumerate(hb):
            if x.k == "id" and x.t == nm and k + 1 < len(hb) and hb[k + 1].t in (",", "}") and k and hb[k - 1].t in ("{", ","):
                o = enclosing(hb, k)
                if o is not None and o > 0 and hb[o].t == "{" and hb[o - 1].k == "id" and hb[o - 1].t[0].isupper():
                    raise Unsupported("expansion of %s: the name %s" % (h.key, nm))
        rename(hb, nm, nm + "__h")
        gen.notes.append("renamed %s in the expansion of %s into %s" % (nm, h.key, f.key))
    # receiver
    if recv is not None and texts(recv) != ["self"]:
        if not all(x.k == "id" or x.t == "." for x in recv):
            raise Unsupported("receiver of %s" % h.key)
        nb = []
        for x in hb:
            if x.t == "self" and x.k == "id":
                r = copy(recv)
                for y in r:
                    y.line, y.nl = x.line, 0
                r[0].nl = x.nl
                nb += r
            else:
                nb.append(x)
        hb = nb
    # calls of the function parameters
    k = 0
    while k < len(hb):
        x = hb[k]
        if x.k == "id" and x.t in funs and k + 1 < len(hb) and hb[k + 1].t == "(" and not (k and hb[k - 1].t == "."):
            kind, prm, body, bound, g = funs[x.t]
            cc = match_close(hb, k + 1)
            cargs = split_top(hb[k + 2:cc])
            if kind == "path":
                hb[k:k + 1] = copy(prm)
                k += 1
                continue
            new, width = closure_call(gen, f, h, prm, body, cargs, hb, k, cc, flow, q, gen_n, con, bound, line)
            new[0].nl = x.nl
            hb[k:k + width] = new
            k += len(new)
            continue
        k += 1
    for nm, a in subst.items():
        nb = []
        for k, x in enumerate(hb):
            if x.k == "id" and x.t == nm and not (k and hb[k - 1].t in (".", "::")):
                r = copy(a)
                r[0].nl, r[0].line = x.nl, x.line
                nb += r
            else:
                nb.append(x)
        hb = nb
    new = mk("{", line)
    generic = set(g2[0].t for g2 in split_types(h.generics) if g2)
    lets = [(n2, nm, ty, a, p) for n2, (nm, ty, a, p) in enumerate(rest) if nm not in subst]
    ren = lambda nm: nm + "__h" if nm in own and nm in used else nm
    simple = len(lets) == 1 or all(not (idents(a) & set(ren(l[1]) for l in lets)) for _, _, _, a, _ in lets)
    for n2, nm, ty, a, p in lets:
        tt = [] if any(x.t in generic for x in ty) else ty
        mut = "mut " if p[0].t == "mut" else ""
        if simple:
            new += mk("let %s%s" % (mut, ren(nm)), line) + (mk(":", line) + strip_nl(tt) if tt else []) + mk("=", line) + strip_nl(a) + mk(";", line)
        else:
            new += mk("let vp_a%d =" % n2, line) + strip_nl(a) + mk(";", line)
    if not simple:
        for n2, nm, ty, a, p in lets:
            new += mk("let %s%s = vp_a%d;" % ("mut " if p[0].t == "mut" else "", ren(nm), n2), line)
    if q and host_jumps:
        t_ok = tail_ok(hb)
        if t_ok is not None:
            return s, e + 1, mk("(", line) + new + t_ok[0] + t_ok[1] + mk("})", line)
        return s, e + 1, mk("(match (", line) + new + hb + mk("}) { Ok(vp_v) => vp_v, Err(vp_e) => return Err(vp_e) })", line)
    return s, e, mk("(", line) + new + hb + mk("})", line)


def strip_nl(toks):
    r = copy(toks)
    return r


def enclosing(toks, k):
    d = 0
    while k >= 0:
        if toks[k].t in (")", "]", "}"):
            d += 1
        elif toks[k].t in ("(", "[", "{"):
            if d == 0:
                return k
            d -= 1
        k -= 1
    return None


def subst_params(prm, cargs, body, line):
    """(lets, body) with the closure's parameters replaced by the arguments"""
    lets = []
    body = copy(body)
    for p, a in zip(prm, cargs):
        p = [x for x in p]
        for q in range(len(p)):
            if p[q].t == ":":
                p = p[:q]
                break
        names = [x.t for x in p if x.k == "id" and x.t != "mut"]
        if len(p) == 1 and p[0].t == "_":
            continue
        if len(p) == 1 and len(a) == 1 and a[0].k == "id":
            rename(body, p[0].t, a[0].t)
            continue
        lets += mk("let", line) + copy(p) + mk("=", line) + copy(a) + mk(";", line)
    return lets, body


def closure_call(gen, f, h, prm, body, cargs, hb, k, cc, flow, q, gen_n, con, bound, line):
    from gen import Unsupported
    if len(prm) != len(cargs):
        raise Unsupported("closure arity in %s" % f.key)
    lets, body2 = subst_params(prm, cargs, body, line)
    jumps = has_jump(body2)
    if not jumps:
        inner, blk = strip_block(body2)
        if not lets and not blk:
            return mk("(", line) + body2 + mk(")", line), cc + 1 - k
        return mk("({", line) + lets + inner + mk("})", line), cc + 1 - k
    after = hb[cc + 1].t if cc + 1 < len(hb) else ""
    if after == "?" and returns_only_err(body2) and (q or flow in ("tail", "q")):
        inner, blk = strip_block(body2)
        t_ok = tail_ok(inner) if blk else None
        if t_ok is not None:
            return mk("({", line) + lets + t_ok[0] + t_ok[1] + mk("})", line), cc + 2 - k
        return mk("(match ({", line) + lets + inner + mk("}) { Ok(vp_v) => vp_v, Err(vp_e) => return Err(vp_e) })", line), cc + 2 - k
    # a method of its own
    n = gen_n[0]
    gen_n[0] += 1
    key = "%s__c%d" % (f.key, n)
    kc = gen.fncs.get(key)
    sig = kc.one("sig") if kc is not None else None
    if sig is None:
        raise Unsupported("closure %d of %s has no signature" % (n, f.key))
    name = f.name + "__c%d" % n
    items = R.parse_items(R.tokenize("fn %s%s { }" % (name, sig)))
    lf = items[0].obj
    lf.key, lf.path, lf.line, lf.owner, lf.is_pub = key, f.path, line, f.owner, False
    caps = []
    for p in lf.params[1:]:
        nm, ty = gen.param_name(p)
        caps.append(("&" if ty[0].t == "&" else "") + nm)
    b3 = copy(body)
    lets3, b3 = subst_params(prm, [mk("self", line) if len(a) == 1 and a[0].t in ("self", "this") else a for a in cargs], b3, line)
    inner, blk = strip_block(b3)
    lf.body = lets3 + inner
    lf.transformed = True
    gen.fns[key] = lf
    gen.by_name.setdefault(name, []).append(key)
    gen.lifted.append((f.key, lf))
    owner = "self" if not cargs or cargs[0][0].t not in ("this",) else cargs[0][0].t
    return mk("%s.%s(%s)" % (owner, name, ", ".join(caps)), line), cc + 1 - k


def instance(gen, f, h, recv, funs, rest, line):
    """D14"""
    from gen import Unsupported
    suffix = "_".join(v[1][-1].t if v[1][-1].t[0].islower() else "_".join(x.t for x in v[1] if x.k == "id") for v in funs.values())
    name = "%s__%s" % (h.name, suffix)
    key = "%s__%s" % (h.key, suffix)
    if key not in gen.fns:
        sub = {}
        for nm, v in funs.items():
            b = v[3]
            if b and texts(b).count("->"):
                ret = b[texts(b).index("->") + 1:]
            else:
                ret = []
            last = v[1][-1].t
            keys = [k for k in gen.by_name.get(last, [])]
            if last[0].islower() and len(keys) == 1 and texts(ret)[:1] == ["Result"]:
                unify(ret, gen.fns[keys[0]].ret, sub)
        generics = split_types(h.generics)
        names = set(v[4] for v in funs.values())
        keep = [g for g in generics if g and g[0].t not in names and g[0].t not in sub]

        def S(toks):
            o = []
            for t in toks or []:
                if t.k == "id" and t.t in sub:
                    o += copy(sub[t.t])
                else:
                    o.append(Tok(t.k, t.t, t.line, t.nl))
            return o
        lf = R.Fn()
        lf.name, lf.key, lf.path, lf.line = name, key, h.path, h.line
        lf.params = []
        for p in h.params:
            nm, ty = gen.param_name(p)
            if nm in funs:
                continue
            lf.params.append(S(p))
        lf.generics = [t for g in keep for t in g + mk(",")]
        lf.where = [t for g in split_types(h.where) if g and g[0].t not in names for t in g + mk(",")]
        lf.ret = S(h.ret) if h.ret else None
        body = S(h.body)
        k = 0
        nb = []
        while k < len(body):
            x = body[k]
            if x.k == "id" and x.t in funs and not (k and body[k - 1].t in (".", "::")):
                path = copy(funs[x.t][1])
                if k + 1 < len(body) and body[k + 1].t == "(" and path[0].t == "Self" and texts(body[k + 2:match_close(body, k + 1)])[:1] == ["self"]:
                    cc = match_close(body, k + 1)
                    a = split_top(body[k + 2:cc])
                    new = mk("self.%s(" % path[-1].t, x.line)
                    for q, z in enumerate(a[1:]):
                        new += ([] if q == 0 else mk(",")) + z
                    new += mk(")", x.line)
                    new[0].nl = x.nl
                    nb += new
                    k = cc + 1
                    continue
                path[0].nl = x.nl
                for y in path:
                    y.line = x.line
                nb += path
                k += 1
                continue
            nb.append(x)
            k += 1
        lf.body = nb
        lf.owner = h.owner
        lf.is_pub = False
        gen.fns[key] = lf
        gen.by_name.setdefault(name, []).append(key)
        gen.lifted.append((f.key, lf))
    new = []
    if recv is not None:
        new += copy(recv) + mk(".", line)
    new += mk(name + "(", line)
    for q, (nm, ty, a, p) in enumerate(rest):
        new += ([] if q == 0 else mk(",")) + a
    return new + mk(")", line)


def unify(pat, typ, sub):
    """Result < T > against Result < Dtor >"""
    p, t = texts(pat), texts(typ)
    while p and p[-1] == ",":
        p = p[:-1]
    if p[:2] == ["Result", "<"] and t[:2] == ["Result", "<"] and len(p) == 4:
        sub[p[2]] = [Tok(x.k, x.t, 0, 0) for x in typ[2:-1]]


# ----------------------------------------------------------------- D15
COMBS = {"map", "map_err", "map_or_else"}


def kind_of(gen, f, toks, s, dot):
    """'option' / 'result' of the expression toks[s:dot], or None"""
    e = toks[s:dot]
    if not e:
        return None
    q = e[-1].t == "?"
    while e and e[-1].t == "?":
        e = e[:-1]
    if not e:
        return None
    if e[-1].t == ")":
        o = match_open(e, len(e) - 1)
        if o and e[o - 1].k == "id" and e[o - 1].t not in ("match", "if", "return", "in"):
            name = e[o - 1].t
            if name in ("pop", "get", "last", "first"):
                return "option"
            if name == "map" and e[o - 2].t == ".":
                from gen import recv_start
                k0 = kind_of(gen, f, toks, s + recv_start(e, o - 2), s + o - 2)
                if k0 == "vec":
                    return "vec" if q else "result"
                return k0
            if name in ("from_str", "parse"):
                return "result"
            rets = set()
            for key in gen.by_name.get(name, []):
                r = gen.fns[key].ret
                if r:
                    rets.add(tuple(texts(r)))
            ks = set()
            for r in rets:
                r = list(r)
                if q and r[:2] in (["Result", "<"], ["StdResult", "<"], ["EResult", "<"]):
                    r = r[2:]
                ks.add({"Result": "result", "StdResult": "result", "EResult": "result", "Option": "option", "Vec": "vec", "Array": "vec"}.get(r[0] if r else "", None))
            if not q and "Result" in [r[0] for r in rets if r] or "StdResult" in [r[0] for r in rets if r]:
                pass
            ks.discard(None)    # `.map` is not a method of anything else
            if len(ks) == 1:
                return ks.pop()
            return None
        if o == 0:
            inner = e[1:-1]
            if inner and inner[0].t == "{" and match_close(inner, 0) == len(inner) - 1 and tail_ok(inner[1:-1]) is not None:
                return "result"
            if inner and inner[0].t == "match":
                return "result" if f.ret and f.ret[0].t == "Result" else None
            return kind_of(gen, f, inner, 0, len(inner))
    if len(e) == 1 and e[0].k == "id":
        nm = e[0].t
        for k in range(len(toks)):
            if toks[k].t == "let" and k + 2 < len(toks):
                j = k + 1 + (toks[k + 1].t == "mut")
                if toks[j].t == nm and toks[j + 1].t == "=":
                    z = j + 2
                    while z < len(toks) and toks[z].t != ";":
                        if toks[z].t in ("(", "[", "{"):
                            z = match_close(toks, z)
                        z += 1
                    return kind_of(gen, f, toks, j + 2, z)
    return None


def maps(gen, f, toks):
    from gen import is_closure_start, closure_at, recv_start, Unsupported
    out = list(toks)
    i = 0
    while i < len(out):
        t = out[i]
        if t.k == "id" and t.t in COMBS and i and out[i - 1].t == "." and i + 1 < len(out) and out[i + 1].t == "(":
            s = recv_start(out, i - 1)
            recv = out[s:i - 1]
            if recv and recv[-1].t == ")" and texts(recv)[-3:] in (["into_iter", "(", ")"], ["iter", "(", ")"]):
                i += 1
                continue
            c = match_close(out, i + 1)
            from gen import split_top_closures
            args = split_top_closures(out[i + 2:c])
            kind = "result" if t.t == "map_err" else kind_of(gen, f, out, s, i - 1)
            if kind is None:
                raise Unsupported("%s in %s: Option or Result?" % (t.t, f.key))
            ln = t.line

            def app(a, v):
                if is_closure_start(a, 0):
                    cl = closure_at(a, 0)
                    if not cl[0]:
                        return [], cl[1]
                    p = cl[0][0]
                    for z in range(len(p)):
                        if p[z].t == ":":
                            p = p[:z]
                            break
                    return p, cl[1]
                return mk(v, ln), copy(a) + mk("(%s)" % v, ln)
            nl0 = recv[0].nl
            recv = copy(recv)
            recv[0].nl = 0
            head = mk("(match (", ln) + recv + mk(") {", ln)
            if t.t == "map":
                p, b = app(args[0], "vp_x")
                if kind == "option":
                    new = head + mk("Some(", ln) + p + mk(") => Some(", ln) + b + mk("), None => None })", ln)
                else:
                    new = head + mk("Ok(", ln) + p + mk(") => Ok(", ln) + b + mk("), Err(vp_e) => Err(vp_e) })", ln)
            elif t.t == "map_err":
                p, b = app(args[0], "vp_x")
                new = head + mk("Ok(vp_v) => Ok(vp_v), Err(", ln) + p + mk(") => Err(", ln) + b + mk(") })", ln)
            else:
                p0, b0 = app(args[0], "vp_x")
                p1, b1 = app(args[1], "vp_x")
                if kind == "option":
                    new = head + mk("Some(", ln) + p1 + mk(") => ", ln) + b1 + mk(", None => ", ln) + b0 + mk("})", ln)
                else:
                    new = head + mk("Ok(", ln) + p1 + mk(") => ", ln) + b1 + mk(", Err(", ln) + p0 + mk(") => ", ln) + b0 + mk("})", ln)
            new[0].nl = nl0
            out[s:c + 1] = new
            i = s
            continue
        i += 1
    return out


# ----------------------------------------------------------------- D16
def loops(toks, cnt=None):
    from gen import find_block_after
    cnt = cnt if cnt is not None else [0]
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.k == "id" and t.t == "for" and i + 1 < len(toks) and toks[i + 1].t != "<":
            o = find_block_after(toks, i)
            c = match_close(toks, o)
            hdr = toks[i + 1:o]
            k = texts(hdr).index("in")
            pat, it = hdr[:k], hdr[k + 1:]
            body = loops(toks[o + 1:c], cnt)
            ts = texts(it)
            ln = t.line
            n = cnt[0]
            if ts[-8:] == [".", "into_iter", "(", ")", ".", "rev", "(", ")"]:
                cnt[0] += 1
                new = mk("{ let mut vp_it%d =" % n, ln) + it[:-8] + mk("; loop { match vp_it%d.pop() { None => break, Some(" % n, ln) + pat + mk(") => {", ln) + body + mk("} } } }", ln)
            elif ts[-4:] == [".", "iter", "(", ")"] or (len(it) == 1 and getattr(loops, "slices", None) and it[0].t in loops.slices):
                cnt[0] += 1
                e = it[:-4] if ts[-4:] == [".", "iter", "(", ")"] else it
                new = mk("{ let mut vp_i%d: usize = 0; while vp_i%d <" % (n, n), ln) + e + mk(".len() { let", ln) + pat + mk("= &", ln) + copy(e) + mk("[vp_i%d]; vp_i%d += 1;" % (n, n), ln) + body + mk("} }", ln)
            elif ".." not in ts:
                cnt[0] += 1
                new = mk("{ let mut vp_it%d = VpIter::new(" % n, ln) + it + mk("); loop { match vp_it%d.next() { None => break, Some(" % n, ln) + pat + mk(") => {", ln) + body + mk("} } } }", ln)
            else:
                new = [t] + hdr + [toks[o]] + body + [toks[c]]
            new[0].nl = t.nl
            out += new
            i = c + 1
            continue
        if t.k == "id" and t.t == "while" and i + 1 < len(toks):
            o = find_while_block(toks, i)
            c = match_close(toks, o)
            hdr = toks[i + 1:o]
            body = loops(toks[o + 1:c], cnt)
            ln = t.line
            if hdr[0].t == "let":
                eq = [k for k in range(len(hdr)) if hdr[k].t == "="][0]
                new = mk("loop { match", ln) + hdr[eq + 1:] + mk("{", ln) + hdr[1:eq] + mk("=> {", ln) + body + mk("} _ => { break; } } }", ln)
            elif any(x.t in ("?", "{") for x in hdr):
                new = mk("loop { if", ln) + hdr + mk("{", ln) + body + mk("} else { break; } }", ln)
            else:
                new = [t] + hdr + [toks[o]] + body + [toks[c]]
            new[0].nl = t.nl
            out += new
            i = c + 1
            continue
        out.append(t)
        i += 1
    return out


def find_while_block(toks, i):
    """the `{` of a while body; the condition itself may contain a leading block"""
    j = i + 1
    if toks[j].t == "{":
        j = match_close(toks, j) + 1
    while j < len(toks):
        t = toks[j].t
        if t in ("(", "["):
            j = match_close(toks, j)
        elif t in ("&&", "||") and toks[j + 1].t == "{":
            j = match_close(toks, j + 1)
        elif t == "{":
            return j
        j += 1
    raise Exception("no block")


# ----------------------------------------------------------------- D19
def parses(gen, f, toks):
    """`let x: T = .. s.parse() ..` -> `T::from_str(&s)`; in a function that returns Result<T>
    `s.parse()` in tail position likewise"""
    from gen import recv_start
    out = list(toks)
    i = 0
    while i < len(out):
        if out[i].t == "parse" and i and out[i - 1].t == "." and texts(out[i + 1:i + 3]) == ["(", ")"]:
            s = recv_start(out, i - 1)
            k, ty = s, None
            while k > 0 and out[k].t not in (";", "let"):
                k -= 1
            if out[k].t == "let" and out[k + 1].k == "id" and out[k + 2].t == ":":
                z = k + 3
                while out[z].t != "=":
                    z += 1
                ty = out[k + 3:z]
            elif out[k].t != "let" and f.ret and f.ret[0].t in ("EResult", "Result") and f.ret[1].t == "<":
                ty = f.ret[2:-1]
            if ty is not None and len(ty) == 1:
                recv = out[s:i - 1]
                new = mk("%s::from_str(vp_str(&" % ty[0].t, out[i].line) + recv + mk("))", out[i].line)
                new[0].nl = recv[0].nl
                recv[0].nl = 0
                out[s:i + 3] = new
                i = s
        i += 1
    return out


# ----------------------------------------------------------------- D17
def vecchains(toks, cnt=None, ret=None):
    """`V.iter().any(c)`, `V.into_iter().map(c).collect()`, `V.into_iter().find(c)` -> the
    loops that define them"""
    from gen import is_closure_start, closure_at, recv_start
    cnt = cnt if cnt is not None else [0]
    out = list(toks)
    i = 0
    while i < len(out):
        t = out[i]
        if t.k == "id" and t.t in ("any", "map", "find", "position", "filter_map") and i > 4 and texts(out[i - 4:i])[1:] == ["(", ")", "."] and out[i - 4].t in ("iter", "into_iter") \
                and i + 1 < len(out) and out[i + 1].t == "(":
            c = match_close(out, i + 1)
            a = out[i + 2:c]
            if not is_closure_start(a, 0):
                i += 1
                continue
            end = c + 1
            if t.t in ("map", "filter_map"):
                if texts(out[c + 1:c + 5]) != [".", "collect", "(", ")"]:
                    i += 1
                    continue
                end = c + 5
            s = recv_start(out, i - 5)
            recv = copy(out[s:i - 5])
            by_ref = out[i - 4].t == "iter"
            cl = closure_at(a, 0)
            p, body = copy(cl[0][0]), copy(cl[1])
            ln, n = t.line, cnt[0]
            cnt[0] += 1
            nl0 = out[s].nl
            recv[0].nl = 0
            if t.t == "any" and by_ref:
                new = mk("({ let mut vp_b%d = false; let mut vp_j%d: usize = 0; while vp_j%d <" % (n, n, n), ln) + recv + mk(".len() && !vp_b%d { let" % n, ln) + p \
                    + mk("= &", ln) + copy(recv) + mk("[vp_j%d]; vp_j%d += 1; if" % (n, n), ln) + body + mk("{ vp_b%d = true; } } vp_b%d })" % (n, n), ln)
            elif t.t == "map" and not by_ref and ret is not None and texts(ret)[:3] in (["EResult", "<", "Vec"], ["Result", "<", "Vec"]) and end == len(out) and returns_only_err(body):
                # collect() into a Result stops at the first Err, which is also what the closure returns early
                inner, blk = strip_block(body)
                t_ok = tail_ok(inner)
                if t_ok is None:
                    new = mk("{ let mut vp_o%d = Vec::new(); for" % n, ln) + p + mk("in", ln) + recv + mk("{ vp_o%d.push(match (" % n, ln) + body + mk(") { Ok(vp_v) => vp_v, Err(vp_e) => return Err(vp_e) }); } Ok(vp_o%d) }" % n, ln)
                else:
                    new = mk("{ let mut vp_o%d = Vec::new(); for" % n, ln) + p + mk("in", ln) + recv + mk("{ vp_o%d.push({" % n, ln) + t_ok[0] + t_ok[1] + mk("}); } Ok(vp_o%d) }" % n, ln)
            elif t.t == "position" and by_ref:
                new = mk("({ let mut vp_q%d: Option<usize> = None; let mut vp_j%d: usize = 0; while vp_j%d <" % (n, n, n), ln) + recv + mk(".len() && vp_q%d.is_none() { let" % n, ln) + p \
                    + mk("= &", ln) + copy(recv) + mk("[vp_j%d]; if" % n, ln) + body + mk("{ vp_q%d = Some(vp_j%d); } vp_j%d += 1; } vp_q%d })" % (n, n, n, n), ln)
            elif t.t == "filter_map" and by_ref:
                new = mk("({ let mut vp_o%d = Vec::new(); let mut vp_j%d: usize = 0; while vp_j%d <" % (n, n, n), ln) + recv + mk(".len() { let", ln) + p \
                    + mk("= &", ln) + copy(recv) + mk("[vp_j%d]; vp_j%d += 1; match (" % (n, n), ln) + body + mk(") { Some(vp_v) => { vp_o%d.push(vp_v); } None => { } } } vp_o%d })" % (n, n), ln)
            elif t.t == "map" and not by_ref:
                new = mk("({ let mut vp_o%d = Vec::new(); for" % n, ln) + p + mk("in", ln) + recv + mk("{ vp_o%d.push(" % n, ln) + body + mk("); } vp_o%d })" % n, ln)
            elif t.t == "find" and not by_ref:
                new = mk("({ let mut vp_f%d = None; for vp_x%d in" % (n, n), ln) + recv + mk("{ if vp_f%d.is_none() { let vp_h%d = { let" % (n, n), ln) + p + mk("= &vp_x%d;" % n, ln) + body \
                    + mk("}; if vp_h%d { vp_f%d = Some(vp_x%d); } } } vp_f%d })" % (n, n, n, n), ln)
            else:
                i += 1
                continue
            new[0].nl = nl0
            out[s:end] = new
            i = s
            continue
        i += 1
    return out
