"""A small Rust tokenizer and item splitter.

It knows just enough of Rust's token grammar to cut functions, types and impl
blocks out of a source file without interpreting them, and to match brackets.
"""
import re


class LexError(Exception):
    pass


class Tok(object):
    __slots__ = ("k", "t", "line", "nl", "vp_index")

    def __init__(self, k, t, line, nl=0):
        self.k = k        # id, life, str, char, num, p, raw
        self.t = t        # text
        self.line = line  # source line (1-based)
        self.nl = nl      # newlines before the token in the source

    def __repr__(self):
        return "%s:%r" % (self.k, self.t)


_PUNCS = ["<<=", ">>=", "...", "..=", "::", "->", "=>", "==", "!=", "<=", ">=",
          "&&", "||", "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "<<", ".."]
# '>>' is kept as two tokens so that generics nest; the printer glues it back.
_ID = re.compile(r"[A-Za-z_][A-Za-z0-9_]*")
_NUM = re.compile(r"0[xob][0-9a-fA-F_]+(?:[iu](?:8|16|32|64|128|size))?"
                  r"|[0-9][0-9_]*(?:\.(?![.A-Za-z_])[0-9_]*)?(?:[eE][+-]?[0-9_]+)?(?:[iuf](?:8|16|32|64|128|size))?")


def tokenize(src):
    toks = []
    i, n, line, nl = 0, len(src), 1, 0
    while i < n:
        c = src[i]
        if c == "\n":
            line += 1
            nl += 1
            i += 1
            continue
        if c.isspace():
            i += 1
            continue
        if src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j
            continue
        if src.startswith("/*", i):
            depth, j = 1, i + 2
            while j < n and depth:
                if src.startswith("/*", j):
                    depth += 1
                    j += 2
                elif src.startswith("*/", j):
                    depth -= 1
                    j += 2
                else:
                    if src[j] == "\n":
                        line += 1
                        nl += 1
                    j += 1
            i = j
            continue
        start_line = line
        m = re.compile(r'b?r(#*)"').match(src, i)
        if m:
            end = src.find('"' + m.group(1), m.end())
            if end < 0:
                raise LexError("unterminated raw string")
            j = end + 1 + len(m.group(1))
            text = src[i:j]
            kind = "str"
        elif c == '"' or (c == "b" and i + 1 < n and src[i + 1] == '"'):
            j = i + (2 if c == "b" else 1)
            while j < n and src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            j += 1
            text = src[i:j]
            kind = "str"
        elif c == "'" or (c == "b" and i + 1 < n and src[i + 1] == "'"):
            o = 1 if c == "b" else 0
            m = re.compile(r"'(\\u\{[0-9a-fA-F_]+\}|\\x[0-9a-fA-F]{2}|\\.|[^\\'])'").match(src, i + o)
            if m:
                j = m.end()
                text = src[i:j]
                kind = "char"
            else:
                m = re.compile(r"'[A-Za-z_][A-Za-z0-9_]*").match(src, i)
                if not m:
                    raise LexError("bad quote at line %d" % line)
                j = m.end()
                text = m.group(0)
                kind = "life"
        else:
            m = _ID.match(src, i)
            if m:
                text = m.group(0)
                kind = "id"
                if text == "r" and src.startswith("#", m.end()):
                    m2 = _ID.match(src, m.end() + 1)
                    if m2:
                        text = src[i:m2.end()]
            else:
                m = _NUM.match(src, i)
                if m and c.isdigit():
                    text = m.group(0)
                    # tuple field access: x.0.1
                    if toks and toks[-1].t == "." and "." in text:
                        text = text.split(".")[0]
                    kind = "num"
                else:
                    kind = "p"
                    text = c
                    for p in _PUNCS:
                        if src.startswith(p, i):
                            text = p
                            break
            j = i + len(text)
        toks.append(Tok(kind, text, start_line, nl))
        nl = 0
        line += text.count("\n")
        i = j
    return toks


_OPEN = {"(": ")", "[": "]", "{": "}"}
_CLOSE = {v: k for k, v in _OPEN.items()}


def match_close(toks, i):
    """index of the bracket closing the one at i"""
    depth = 0
    for j in range(i, len(toks)):
        t = toks[j]
        if t.k == "p":
            if t.t in _OPEN:
                depth += 1
            elif t.t in _CLOSE:
                depth -= 1
                if depth == 0:
                    return j
    raise LexError("unbalanced bracket at line %d" % toks[i].line)


def match_open(toks, i):
    depth = 0
    for j in range(i, -1, -1):
        t = toks[j]
        if t.k == "p":
            if t.t in _CLOSE:
                depth += 1
            elif t.t in _OPEN:
                depth -= 1
                if depth == 0:
                    return j
    raise LexError("unbalanced bracket")


def match_angle(toks, i):
    """index of the '>' closing the generic list opened at i"""
    depth = 0
    j = i
    while j < len(toks):
        t = toks[j].t
        if toks[j].k == "p":
            if t == "<":
                depth += 1
            elif t == "<<":
                depth += 2
            elif t == ">":
                depth -= 1
                if depth == 0:
                    return j
            elif t in _OPEN:
                j = match_close(toks, j)
            elif t in (";", "{"):
                break
        j += 1
    raise LexError("unbalanced <")


def split_top(toks, sep=","):
    """split a token list at top-level separators (brackets and generics respected)"""
    out, cur, depth, ang = [], [], 0, 0
    for i, t in enumerate(toks):
        if t.k == "p":
            if t.t in _OPEN:
                depth += 1
            elif t.t in _CLOSE:
                depth -= 1
            elif t.t == sep and depth == 0 and ang == 0:
                out.append(cur)
                cur = []
                continue
        cur.append(t)
    if cur:
        out.append(cur)
    return out


def split_types(toks, sep=","):
    """split at top level, counting <> as brackets (types only)"""
    out, cur, depth = [], [], 0
    for t in toks:
        if t.k == "p":
            if t.t in _OPEN or t.t == "<":
                depth += 1
            elif t.t in _CLOSE or t.t == ">":
                depth -= 1
            elif t.t == sep and depth == 0:
                out.append(cur)
                cur = []
                continue
        cur.append(t)
    if cur:
        out.append(cur)
    return out


_NOSPACE_BEFORE = {")", "]", ",", ";", ".", "?", ":"}
_NOSPACE_AFTER = {"(", "[", ".", "!", "&", "#"}


def render(toks, indent=0):
    """print tokens, keeping the source's line breaks"""
    out = []
    prev = None
    for t in toks:
        if t.nl and prev is not None:
            out.append("\n" + " " * indent)
        elif prev is not None:
            a, b = prev, t
            sp = " "
            if a.k == "p" and b.k == "p" and a.t == ">" and b.t in (">", ">=") and False:
                sp = ""
            if b.t in (")", "]", ",", ";", ".", "?") or a.t in ("(", "[", "."):
                sp = ""
            if a.t == "::" or b.t == "::":
                sp = ""
            if b.t == "(" and a.k == "id":
                sp = ""
            if a.t in ("!", "#") and b.t in ("[", "("):
                sp = ""
            if b.t == "!" and a.k == "id":
                sp = ""
            if a.t == "&" and b.k in ("id", "life"):
                sp = ""
            out.append(sp)
        out.append(t.t)
        prev = t
    return "".join(out)


def mk(text, line=0):
    """tokens of a generated snippet"""
    ts = tokenize(text)
    for t in ts:
        t.line = line
    return ts


class Fn(object):
    def __init__(self):
        self.attrs = []
        self.quals = []      # pub, const, unsafe ...
        self.name = None
        self.generics = []   # tokens inside <>
        self.params = []     # list of token lists
        self.ret = None      # tokens or None
        self.where = []
        self.body = None     # tokens between { } (exclusive) or None
        self.line = 0
        self.key = None
        self.owner = None


class Impl(object):
    def __init__(self):
        self.generics = []
        self.trait = None     # tokens or None
        self.ty = []
        self.where = []
        self.items = []       # list of ("fn", Fn) or ("other", name, tokens)
        self.line = 0
        self.attrs = []


class Item(object):
    def __init__(self, kind, name, toks, attrs, line, obj=None, quals=()):
        self.kind, self.name, self.toks, self.attrs, self.line, self.obj = kind, name, toks, attrs, line, obj
        self.quals = list(quals)


def _is_cfg_test(attr):
    s = "".join(t.t for t in attr)
    return s.startswith("#[cfg(test)") or s.startswith("#[test")


def parse_fn(toks, i, end):
    """toks[i] is the first token after attributes; returns (Fn, next index)"""
    f = Fn()
    f.line = toks[i].line
    while toks[i].t != "fn":
        f.quals.append(toks[i])
        i += 1
    i += 1
    f.name = toks[i].t
    i += 1
    if toks[i].t == "<":
        j = match_angle(toks, i)
        f.generics = toks[i + 1:j]
        i = j + 1
    j = match_close(toks, i)
    f.params = split_types(toks[i + 1:j])
    i = j + 1
    if toks[i].t == "->":
        i += 1
        s = i
        while not (toks[i].t in ("{", ";", "where")):
            if toks[i].t in ("(", "["):
                i = match_close(toks, i)
            elif toks[i].t == "<":
                i = match_angle(toks, i)
            i += 1
        f.ret = toks[s:i]
    if toks[i].t == "where":
        s = i + 1
        while toks[i].t not in ("{", ";"):
            if toks[i].t in ("(", "["):
                i = match_close(toks, i)
            i += 1
        f.where = toks[s:i]
    if toks[i].t == ";":
        return f, i + 1
    j = match_close(toks, i)
    f.body = toks[i + 1:j]
    return f, j + 1


def parse_items(toks, i=0, end=None):
    """split a token list into items; #[cfg(test)] items are dropped"""
    if end is None:
        end = len(toks)
    items = []
    while i < end:
        attrs = []
        while i < end and toks[i].t == "#":
            j = i + 1
            if toks[j].t == "!":
                j += 1
            j = match_close(toks, j)
            attrs.append(toks[i:j + 1])
            i = j + 1
        if i >= end:
            break
        skip = any(_is_cfg_test(a) for a in attrs)
        s = i
        quals = []
        while toks[i].t in ("pub", "unsafe", "const", "async", "default") or (toks[i].t == "(" and quals and quals[-1].t == "pub") \
                or (toks[i].t == "extern" and i + 2 < end and toks[i + 2].t == "fn"):
            if toks[i].t == "const" and toks[i + 1].t not in ("fn", "unsafe"):
                break
            if toks[i].t == "(":
                j = match_close(toks, i)
                quals.extend(toks[i:j + 1])
                i = j + 1
            else:
                quals.append(toks[i])
                i += 1
        kw = toks[i].t
        line = toks[i].line
        if kw == "fn":
            f, nx = parse_fn(toks, s, end)
            f.attrs = attrs
            it = Item("fn", f.name, toks[s:nx], attrs, line, f, quals)
        elif kw in ("use", "extern", "const", "static", "type"):
            nx = i
            while toks[nx].t != ";":
                if toks[nx].t in _OPEN:
                    nx = match_close(toks, nx)
                nx += 1
            nx += 1
            it = Item(kw, toks[i + 1].t, toks[s:nx], attrs, line, None, quals)
        elif kw == "mod":
            if toks[i + 2].t == ";":
                nx = i + 3
            else:
                nx = match_close(toks, i + 2) + 1
            it = Item("mod", toks[i + 1].t, toks[s:nx], attrs, line, None, quals)
        elif kw in ("struct", "enum", "union"):
            nx = i
            while toks[nx].t not in (";", "{"):
                if toks[nx].t == "(":
                    nx = match_close(toks, nx)
                nx += 1
            nx = match_close(toks, nx) + 1 if toks[nx].t == "{" else nx + 1
            it = Item(kw, toks[i + 1].t, toks[s:nx], attrs, line, None, quals)
        elif kw == "trait" or kw == "impl":
            im = Impl()
            im.line = line
            im.attrs = attrs
            j = i + 1
            if kw == "trait":
                name = toks[j].t
                j += 1
            if toks[j].t == "<":
                k = match_angle(toks, j)
                im.generics = toks[j + 1:k]
                j = k + 1
            hs = j
            fo = None
            while toks[j].t not in ("{", "where"):
                if toks[j].t == "<":
                    j = match_angle(toks, j)
                elif toks[j].t in ("(", "["):
                    j = match_close(toks, j)
                elif toks[j].t == "for":
                    fo = j
                j += 1
            if fo is not None:
                im.trait = toks[hs:fo]
                im.ty = toks[fo + 1:j]
            else:
                im.ty = toks[hs:j]
            if toks[j].t == "where":
                ws = j + 1
                while toks[j].t != "{":
                    if toks[j].t in ("(", "["):
                        j = match_close(toks, j)
                    j += 1
                im.where = toks[ws:j]
            close = match_close(toks, j)
            im.items = parse_items(toks, j + 1, close)
            nx = close + 1
            if kw == "impl":
                name = "".join(t.t for t in im.ty[:1])
                if im.ty and im.ty[0].t == "&":
                    name = "".join(t.t for t in im.ty)
                if im.trait:
                    name += ":" + "".join(t.t for t in im.trait if t.t not in ())
            it = Item(kw, name, toks[s:nx], attrs, line, im, quals)
        elif kw == "macro_rules":
            nx = i + 3
            c = match_close(toks, nx)
            nx = c + 1
            if nx < end and toks[nx].t == ";":
                nx += 1
            it = Item("macro_rules", toks[i + 2].t, toks[s:nx], attrs, line, None, quals)
        else:
            # macro invocation item
            j = i
            while toks[j].t not in _OPEN:
                j += 1
            nx = match_close(toks, j) + 1
            if nx < end and toks[nx].t == ";":
                nx += 1
            it = Item("macro", kw, toks[s:nx], attrs, line, None, quals)
        if not skip:
            items.append(it)
        i = nx
    return items
