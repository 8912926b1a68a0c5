"""Reader for the contract files (*.vc).

A contract file is a list of blocks.  Each block starts in column 0:

  fn KEY(p, q) -> r        contract of one function (KEY as the extractor names it;
                           p, q are the contract's names for the parameters and are
                           mapped onto the source's names by position)
  inject impl KEY          ghost items added inside an impl / trait
  text                     ghost items at top level (spec functions, lemmas)

Clauses inside a fn block start with two spaces; continuation lines are deeper.
  req[L]: E     ens[L]: E     dec: E     attr: A      entry: PROOF   exit: PROOF
  ghost: X = E    (a ghost constant, set on entry)
  mute: (functions whose clause is only a soft hint)
  let X = /regex/          name a local by the text of its initialiser
  loop N [iter it]         clauses  inv[L]: ens[L]: dec: start: end:   (4 spaces)
  closure N                clauses  ret: TYPE  req: ens:                (4 spaces)
  lift N (caps)            contract of the N-th lifted FnMut closure
  before /regex/: PROOF    proof text before the statement whose text matches (soft)
  after /regex/: PROOF     same, after it
L is a comma separated list of property ids.
"""
import re


class Clause(object):
    def __init__(self, kind, labels, text, line):
        self.kind, self.labels, self.text, self.line = kind, labels, text, line


class Block(object):
    def __init__(self):
        self.clauses = []

    def get(self, *kinds):
        return [c for c in self.clauses if c.kind in kinds]

    def one(self, kind):
        g = self.get(kind)
        return g[0].text if g else None


class FnContract(Block):
    def __init__(self, key, params, ret, line):
        Block.__init__(self)
        self.key, self.params, self.ret, self.line = key, params, ret, line
        self.loops = {}
        self.closures = {}
        self.lets = []


    def all_clauses(self):
        for b in [self] + list(self.loops.values()) + list(self.closures.values()):
            for c in b.clauses:
                yield c

    def extend(self, o):
        """a later file adds clauses to a function"""
        if o.params != self.params or o.ret != self.ret:
            raise ContractError("%s:%d: %s: other parameters than in %s" % (o.path, o.line, self.key, self.path))
        self.clauses += o.clauses
        for mine, theirs in ((self.loops, o.loops), (self.closures, o.closures)):
            for n in theirs:
                if n in mine:
                    mine[n].clauses += theirs[n].clauses
                else:
                    mine[n] = theirs[n]
        self.lets += o.lets


class ContractError(Exception):
    pass


_CL = re.compile(r"^(req|ens|dec|attr|entry|exit|inv|invx|start|end|ret|sig|types|use|hide|ghost)(?:\[([A-Za-z0-9, ]*)\])?:\s?(.*)$")
_SOFT = re.compile(r"^(before|after)\s+/(.*)/\s*:\s?(.*)$")


def parse(path):
    fns, injects, texts = {}, [], []
    cur, sub, last, mode = None, None, None, None
    with open(path) as f:
        lines = f.read().split("\n")
    i = 0
    while i < len(lines):
        raw = lines[i]
        i += 1
        ln = i
        s = raw.rstrip()
        if mode in ("inject", "text"):
            if s and not s[0].isspace():
                mode = None
            else:
                buf.append(s)
                continue
        if not s.strip() or s.lstrip().startswith("#") and not s.lstrip().startswith("#["):
            continue
        if not s[0].isspace():
            last = None
            sub = None
            m = re.match(r"^fn\s+(\S+?)\((.*?)\)\s*(?:->\s*(\w+))?\s*$", s)
            if m:
                cur = FnContract(m.group(1), [x.strip() for x in m.group(2).split(",") if x.strip()], m.group(3), ln)
                if cur.key in fns:
                    raise ContractError("duplicate contract %s" % cur.key)
                fns[cur.key] = cur
                continue
            m = re.match(r"^inject\s+(\S+(?: \S+)*)$", s)
            if m:
                buf = []
                injects.append((m.group(1), buf))
                mode = "inject"
                continue
            if s == "text":
                buf = []
                texts.append(buf)
                mode = "text"
                continue
            raise ContractError("%s:%d: cannot parse %r" % (path, ln, s))
        ind = len(s) - len(s.lstrip())
        body = s.strip()
        if ind == 2:
            last = None
            m = re.match(r"^let\s+(\w+)\s*=\s*/(.*)/$", body)
            if m:
                cur.lets.append((m.group(1), m.group(2)))
                sub = None
                continue
            m = re.match(r"^loop\s+(\d+)(?:\s+iter\s+(\w+))?$", body)
            if m:
                sub = Block()
                sub.iter = m.group(2)
                cur.loops[int(m.group(1))] = sub
                continue
            m = re.match(r"^closure\s+(\d+)$", body)
            if m:
                sub = Block()
                cur.closures[int(m.group(1))] = sub
                continue
            sub = None
        target = sub if (sub is not None and ind == 4) else cur
        m = _CL.match(body) if ind in (2, 4) else None
        ms = _SOFT.match(body) if ind in (2, 4) else None
        if m and (ind == 2 or sub is not None):
            labels = [x.strip() for x in (m.group(2) or "").split(",") if x.strip()]
            last = Clause(m.group(1), labels, m.group(3), ln)
            target.clauses.append(last)
        elif ms and (ind == 2 or sub is not None):
            last = Clause(ms.group(1), [ms.group(2)], ms.group(3), ln)
            target.clauses.append(last)
        else:
            if last is None:
                raise ContractError("%s:%d: stray line %r" % (path, ln, s))
            last.text += "\n" + body
    return fns, injects, texts
