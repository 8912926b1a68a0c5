"""check.py ID: decide one property on /repo's current tree.

  1. extract the unit(s) the property lives in from /repo and have Verus discharge
     every obligation (proof; all inputs);
  2. run the executable oracle on the real crates (bounded; it cross-checks the
     trusted stand-ins, and looks for a failing input);
  3. judge.  A failing input is a violation.  A failed obligation that carries this
     property's label is a violation (no-failing-input-found when the oracle has
     none).  A tool limit leaves the property to the bounded oracle, labelled so.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props
import units
import verusrun

REPO = os.environ.get("VP_REPO", "/repo")
EVID = os.path.join(ROOT, "evidence")


RULE_LEX = "exhaustive short texts over a small alphabet, pairs of lexical fragments, single characters, seeded random texts and operation histories; non-trivial: at least two characters or fields"
RULE_EST = "seeded random ESTree documents, small ones with each of 26 changes (a field removed or added, a node, list, string or flag replaced) made at each place, large ones with one or two changes, against an independent reader; non-trivial: a script by it"
RULE_PARSE = "hand-picked programs with a line break at each place, all sequences of up to three of 48 tokens, seeded random programs and mutations of them, each through script, strict, module and program, against an independent recognizer; non-trivial: accepted by it"


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


class Oracle(object):
    """build and run /verif/oracle against the repository's crates"""

    def __init__(self, tmp, tier, seed):
        self.tmp, self.tier, self.seed = tmp, tier, seed
        self.error, self.res, self.known, self.wall = None, {}, [], 0.0

    def cargo(self, cwd, *args):
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(self.tmp, "target"), CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings", RUSTC_WRAPPER="")
        env.setdefault("RUSTUP_TOOLCHAIN", "stable")
        p = sh(["cargo", "build", "--offline", "--locked", "--quiet"] + list(args), cwd=cwd, env=env, timeout=600)
        if p.returncode:
            self.error = "the oracle does not build against this tree: " + p.stderr.decode("utf8", "replace")[-600:]
            return None
        return os.path.join(self.tmp, "target", "debug")

    def build(self, mode):
        """the binary for a mode"""
        if mode == "parse":
            d = parser_workspace(self.tmp)
            t = self.cargo(d, "-p", "poracle")
            return t and os.path.join(t, "poracle")
        if mode == "estree":
            d = parser_workspace(self.tmp)
            t = self.cargo(os.path.join(d, "poracle"), "--features", "reader")
            return t and os.path.join(t, "poracle")
        src = os.path.join(ROOT, "oracle")
        if REPO != "/repo":        # development only: judge a copy
            dst = os.path.join(self.tmp, "oracle")
            shutil.copytree(src, dst)
            p = os.path.join(dst, "Cargo.toml")
            t = open(p).read().replace("/repo/", REPO + "/")
            open(p, "w").write(t)
            src = dst
        t = self.cargo(src)
        return t and os.path.join(t, "oracle")

    def run(self, modes):
        t0 = time.time()
        try:
            scale, secs = (1, 60) if self.tier == "quick" else (10, 400)
            for m in modes:
                self.bin = self.build(m)
                if not self.bin:
                    return
                try:
                    p = sh([self.bin, m, str(self.seed), str(scale), str(secs)], timeout=secs + 120)
                    if p.returncode:
                        # the process died: an abort, a stack overflow, or no memory left
                        self.res[m] = self.crashed(m, p)
                        continue
                    self.res[m] = json.loads(p.stdout.decode("utf8"))
                except subprocess.TimeoutExpired:
                    self.error = "oracle %s timed out" % m
                p = sh([self.bin, "known"], timeout=60)
                if p.returncode == 0:
                    self.known += json.loads(p.stdout.decode("utf8"))
        except Exception as e:
            self.error = "oracle: %s: %s" % (type(e).__name__, e)
        finally:
            self.wall = time.time() - t0

    def crashed(self, m, p):
        """run again, recording every case before it runs, to name the one that kills the process"""
        tr = os.path.join(self.tmp, "trace")
        q = sh([self.bin, m, str(self.seed), "1", "60", tr], timeout=200)
        found = []
        if q.returncode and os.path.isdir(tr):
            for f in sorted(os.listdir(tr)):
                try:
                    js = json.load(open(os.path.join(tr, f)))
                except ValueError:
                    continue
                r = subprocess.run([self.bin, "replay", os.path.join(tr, f)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
                if r.returncode < 0 or r.returncode in (134, 139, 101):
                    js.update(actual="the process dies (%s)" % r.returncode, expected=js.get("expected", "an answer"))
                    for l in js.get("labels", []):
                        found.append(dict(js, property=l))
                    break
        if not found:
            self.error = "oracle %s died with %s: %s" % (m, p.returncode, p.stderr.decode("utf8", "replace")[-300:])
        return dict(evaluations=0, nontrivial=0, mismatches=len(found), complete=False, samples=[], found=found)

    def witness(self, pid):
        for m, r in self.res.items():
            for f in r.get("found", []):
                if f["property"] == pid:
                    return dict(f, mode=m)
        return None


def parser_workspace(tmp):
    """The parser's crates, copied from the repository into one workspace that builds
    offline: its dependencies on crates that are not here are replaced (tristate by a
    three-constructor enum, syn 0.10 by syn 0.11 with the three spellings that differ)."""
    d = os.path.join(tmp, "pws")
    shutil.copytree(os.path.join(ROOT, "poracle", "shim"), d)
    os.makedirs(os.path.join(d, "poracle"))
    shutil.copytree(os.path.join(ROOT, "poracle", "src"), os.path.join(d, "poracle", "src"))
    shutil.copy(os.path.join(ROOT, "poracle", "Cargo.toml"), os.path.join(d, "poracle", "Cargo.toml"))
    for c in ("derive", "joker", "easter", "estree", "unjson"):
        shutil.copytree(os.path.join(REPO, "crates", c), os.path.join(d, c), ignore=shutil.ignore_patterns("target", "Cargo.lock"))
    os.makedirs(os.path.join(d, "esprit"))
    shutil.copytree(os.path.join(REPO, "src"), os.path.join(d, "esprit", "src"))
    shutil.copy(os.path.join(REPO, "Cargo.toml"), os.path.join(d, "esprit", "Cargo.toml"))

    def edit(f, *subs):
        p = os.path.join(d, f)
        t = open(p).read()
        for x, y in subs:
            t = re.sub(x, y, t)
        open(p, "w").write(t)
    cut = (r"(?s)\[dev-dependencies\].*", "")
    edit("esprit/Cargo.toml", cut, (r'tristate = .*', 'tristate = { path = "../tristate" }'), (r'path = "crates/', 'path = "../'))
    for c in ("joker", "easter", "estree", "unjson"):
        edit(c + "/Cargo.toml", cut)
    edit("derive/Cargo.toml", cut, (r'syn = .*', 'syn = { version = "0.11", features = ["full", "parsing", "printing"] }'))
    edit("derive/src/lib.rs", (r"is_shorthand: true\b", "is_shorthand: true, attrs: vec![]"), (r"BlockCheckMode::Default, ", ""),
         (r"ExprKind::Block\(Block", "ExprKind::Block(Unsafety::Normal, Block"))
    return d


def scan_trusted(path):
    """every assumption in the generated text"""
    out = []
    lines = open(path).read().split("\n")
    for i, ln in enumerate(lines):
        s = ln.strip()
        if "assume_specification" in s and not s.startswith("//"):
            out.append("assumed contract: " + s.split("ensures")[0].strip()[:110])
        elif re.search(r"\b(assume|admit)\s*\(", s) and not s.startswith("//"):
            out.append("ASSUME: " + s[:110])
        elif "external_body" in s and not s.startswith("//"):
            for k in range(i + 1, min(i + 5, len(lines))):
                t = lines[k].strip()
                if re.search(r"\b(fn|struct|enum)\b", t):
                    out.append("trusted: " + t.split("ensures")[0].rstrip("{ ").strip()[:110])
                    break
        elif re.match(r"(pub )?uninterp spec fn", s):
            out.append("uninterpreted: " + s[:110])
    return out


def canary(unit, pid, tmp, res, assume=()):
    """vacuity: with `assert(false)` at the end of every function that carries the
    property, every one of them must fail"""
    try:
        d = os.path.join(tmp, "canary-" + unit)
        os.makedirs(d)
        res[unit] = verusrun.run_canary(unit, REPO, d, pid, assume)
    except Exception as e:
        res[unit] = dict(error="%s: %s" % (type(e).__name__, e), checked=[], vacuous=[])


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    pr = props.PROPS[pid]
    os.makedirs(EVID, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="vp-%s-" % pid)
    t0 = time.time()
    try:
        return decide(pid, pr, tier, seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(pid, pr, tier, seed, tmp, t0):
    orc = Oracle(tmp, tier, seed)
    th = threading.Thread(target=orc.run, args=(pr["oracle"],))
    th.start()
    can = {}
    cths = []
    for u in pr["units"]:
        t = threading.Thread(target=canary, args=(u, pid if tier == "quick" else None, tmp, can))
        t.start()
        cths.append(t)
    outs = [verusrun.run_unit(u, REPO, tmp) for u in pr["units"]]
    for t in cths:
        t.join()
    for o in outs:
        if o.assumed and not o.error:      # the text changed: look again at what is left
            shutil.rmtree(os.path.join(tmp, "canary-" + o.unit), ignore_errors=True)
            canary(o.unit, pid if tier == "quick" else None, tmp, can, o.assume_keys)
    th.join()

    undecided = []          # why the proof does not speak for this property
    mine, other = [], []
    for o in outs:
        if o.error:
            undecided.append("%s: %s" % (o.unit, o.error))
            continue
        if o.verified == 0:
            undecided.append("%s: no obligations were generated" % o.unit)
        if o.missing:
            undecided.append("%s: functions under contract are gone: %s" % (o.unit, ", ".join(o.missing)))
        carried = dict((a.split(" ")[0], a) for a in o.assumed)
        for k, a in carried.items():
            if pid == props.TOTAL.get(o.unit) or pid in labels_of(o, k) or not labels_of(o, k):
                undecided.append("%s: not verified, taken at its contract: %s" % (o.unit, a))
        for f in o.failures:
            if f["weak"]:
                undecided.append("%s: %s fails, but functions have no contract: %s" % (o.unit, f["fn"], ", ".join(f["weak"])))
            elif f["rlimit"]:
                undecided.append("%s: solver gave up in %s" % (o.unit, f["fn"]))
            elif relevant(pid, f, o):
                mine.append((o, f))
            else:
                other.append((o, f))
    if other:
        undecided.append("obligations of other properties fail: " + "; ".join(sorted(set("%s (%s)" % (f["fn"], ",".join(f["labels"]) or "safety") for _, f in other)))[:400])
    for u, c in can.items():
        if c.get("error"):
            undecided.append("%s: vacuity check did not run: %s" % (u, c["error"]))
        elif c["vacuous"]:
            undecided.append("%s: contracts that hold vacuously: %s" % (u, ", ".join(c["vacuous"])))

    w = orc.witness(pid)
    tool = any(o.error or o.missing for o in outs)
    violation = None
    if w:
        violation = dict(kind="failing input", witness=w, obligations=[describe(f) for _, f in mine])
    elif mine and not tool:
        violation = dict(kind="failed obligation, no failing input found", obligations=[describe(f) for _, f in mine],
                         verifier_output=[o.stderr[-20000:] for o in outs if not o.error])

    kf = load_known()
    for f in kf["findings"]:
        if f["property"] == pid and any(k["id"] == f["id"] and k["still"] for k in orc.known):
            print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))

    for x in undecided:
        print("note: " + x)
    if orc.error:
        print("note: " + orc.error)
    nv, ne = sum(o.verified for o in outs), sum(o.nerrors for o in outs)
    n_eval = sum(r.get("evaluations", 0) for r in orc.res.values())
    print("%s: %d obligations discharged, %d failed, solver %s ms; bounded cross-check: %d cases" %
          (pid, nv, ne, sum((o.smt_ms or 0) for o in outs), n_eval))
    write_evidence(pid, pr, tier, seed, outs, orc, can, undecided, violation, t0, kf)
    if violation is None:
        if undecided:
            print("%s: not decided by proof on this tree; the bounded oracle found no violation in %d cases" % (pid, n_eval))
        return 0
    rp = os.path.join(EVID, "replay-%s.json" % pid)
    with open(rp, "w") as fh:
        json.dump(dict(property=pid, **violation), fh, indent=1, default=str)
    if w:
        print("  input %r, operations %s" % (w.get("input"), w.get("ops")))
        print("  expected %s" % w.get("expected"))
        print("  actual   %s" % w.get("actual"))
    for d in violation["obligations"][:6]:
        print("  failed obligation: " + d)
    print("VIOLATION property=%s replay=%s%s" % (pid, rp, "" if w else " no-failing-input-found"))
    return 1


def relevant(pid, f, o):
    if f["labels"]:
        return pid in f["labels"]
    # an unlabelled obligation (a precondition, overflow, a frame, termination) is
    # totality's, and otherwise belongs to the properties its function carries
    total = props.TOTAL.get(o.unit)
    if pid == total:
        return True
    if f["fn"] and (f["kind"] in ("ens", "inv", "invx") or total is None):
        return pid in labels_of(o, f["fn"])
    return False


def labels_of(o, fn):
    con = o.gen.fncs.get(fn) if o.gen is not None else None
    res = set()
    if con is not None:
        blocks = [con] + list(con.loops.values()) + list(con.closures.values())
        for b in blocks:
            for c in b.clauses:
                res.update(c.labels or [])
    return res


def describe(f):
    return "%s: %s%s%s [%s]" % (f["fn"], f["message"], (": " + f["clause"]) if f["clause"] else "",
                                (" at " + f["src"]) if f["src"] else "", ",".join(f["labels"]) or "safety")


def write_evidence(pid, pr, tier, seed, outs, orc, can, undecided, violation, t0, kf):
    units_ev, trusted, carrying = [], [], []
    nclauses = 0
    for o in outs:
        ev = dict(unit=o.unit, verified=o.verified, failed=o.nerrors, wall_s=round(o.wall, 1), smt_ms=o.smt_ms, tool_limit=o.error, not_verified=o.assumed)
        if o.gen is not None and not o.error:
            ev["functions_under_contract"] = len([k for k in o.gen.used_contracts])
            ev["dropped"] = [n for n in o.notes if n.startswith("dropped")]
            ev["notes"] = [n for n in o.notes if not n.startswith("dropped")]
            trusted += [t for t in scan_trusted(o.path) if t not in trusted]
            for k in sorted(o.gen.used_contracts):
                con = o.gen.fncs.get(k)
                if con is None:
                    continue
                n = sum(1 for b in [con] + list(con.loops.values()) + list(con.closures.values()) for c in b.clauses if pid in (c.labels or []))
                nclauses += n
                if n or pid == props.TOTAL.get(o.unit):
                    carrying.append(k)
        units_ev.append(ev)
    nv, ne = sum(o.verified for o in outs), sum(o.nerrors for o in outs)
    cov = dict(
        obligations=nv + ne, discharged=nv,
        obligation_unit="one verifier query group per function, loop or lemma, as Verus counts them",
        checker_cmd="; ".join(re.sub(r"/tmp/\S*/", "", getattr(o, "cmd", "verus")) for o in outs),
        back_end="Verus (Z3)",
        trusted_base=trusted,
        functions_carrying_the_property=carrying,
        clauses_labelled_with_the_property=nclauses,
        units=units_ev,
        solver_ms=sum((o.smt_ms or 0) for o in outs),
        vacuity={u: dict(functions_checked=len(c["checked"]), vacuous=c["vacuous"], error=c.get("error")) for u, c in can.items()},
        bounded_cross_check=dict(
            label="bounded: not counted as proved",
            rule={"parse": RULE_PARSE, "estree": RULE_EST}.get(pr["oracle"][0], RULE_LEX),
            modes={m: {k: r.get(k) for k in ("evaluations", "nontrivial", "mismatches", "complete", "samples")} for m, r in orc.res.items()},
            error=orc.error, wall_s=round(orc.wall, 1)),
        decided_by="violation" if violation else ("bounded oracle only" if undecided else "proof"),
        undecided=undecided,
        known_findings=[f["what"] for f in kf["findings"] if f["property"] == pid],
    )
    ev = dict(property=pid, tier=tier, seed=seed, level=pr.get("level", "proof"), coverage=cov,
              assumptions=pr.get("assumptions", []) + props.COMMON_ASSUMPTIONS,
              wall_s=round(time.time() - t0, 1), violations=1 if violation else 0)
    with open(os.path.join(EVID, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)


if __name__ == "__main__":
    sys.exit(main())
