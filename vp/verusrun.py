"""Generate one unit from the repository, run Verus on it, map the diagnostics back."""
import concurrent.futures
import json
import os
import subprocess
import time

import gen
import props
import units


class Outcome(object):
    pass


def new_outcome(name):
    o = Outcome()
    o.unit = name
    o.error = None            # tool limit: text, or None
    o.failures = []           # failed obligations
    o.verified = o.nerrors = 0
    o.notes, o.missing, o.gen = [], [], None
    o.assumed = []            # functions the verifier could not read: taken at their contract
    o.wall = 0.0
    o.smt_ms = None
    o.fn_times = {}
    return o


def run_unit(name, repo, outdir, extra=(), timeout=600, multiple=20):
    t0 = time.time()
    assume = {}
    while True:
        o = _run_unit(name, repo, outdir, extra, max(60, timeout - (time.time() - t0)), multiple, assume)
        bad = getattr(o, "rejected", {})
        new = {k: v for k, v in bad.items() if k not in assume}
        if not new or len(assume) > 12:
            break
        assume.update(new)
    if o.failures and not o.error:
        # a proof in any run of the same text is a proof: try once more with every
        # function in a solver of its own, another seed and more resources
        left = timeout - (time.time() - t0)
        if left > 60 and not os.environ.get("NORETRY"):
            strong = list(extra) + ["-V", "spinoff-all", "--rlimit", "60", "--smt-option", "smt.random_seed=7"]
            fails = sorted(set(f["fn"] or "?" for f in o.failures))
            still = _retry_each(name, repo, outdir, strong, left, multiple, assume, fails) if len(fails) <= 8 else None
            if still is None:               # one by one was not possible: the whole unit again
                o2 = _run_unit(name, repo, outdir, strong, max(60, timeout - (time.time() - t0)), multiple, assume)
                still = dict((f, [g for g in o2.failures if g["fn"] == f]) for f in fails) if not o2.error else None
            if still is not None:
                first, o.failures = o.failures, []
                for f in fails:
                    o.failures += still[f]
                    if any(g["rlimit"] for g in still[f]):  # a solver that gave up here may have answered before
                        o.failures += [g for g in first if g["fn"] == f and not g["rlimit"]]
                    if not still[f]:
                        o.verified += 1
                        o.nerrors -= 1
                o.retried = fails
                if not o.failures:
                    o.nerrors = 0
    o.assume_keys = set(assume)
    o.assumed = sorted("%s (%s)" % kv for kv in assume.items())
    o.wall = time.time() - t0
    return o


def _retry_each(name, repo, outdir, strong, timeout, multiple, assume, fails):
    """Each failing function alone, in parallel (other functions keep their contracts, as
    always).  Returns {function: failures left} or None when that cannot be done."""
    if "?" in fails:
        return None

    def one(i, fn):
        d = os.path.join(outdir, "retry%d" % i)
        os.makedirs(d, exist_ok=True)
        last = fn.split("::")[-1].split(":")[-1]
        o = _run_unit(name, repo, d, strong + ["--verify-only-module", "code", "--verify-function", "*%s*" % last], timeout, multiple, assume)
        if o.error or not (o.verified or o.nerrors):
            return None
        try:        # every function of that name was really put to the solver
            ran = [f for m in o.js["times-ms"]["smt"]["smt-run-module-times"] for f in m["function-breakdown"] if f["function"].split("::")[-1] == last]
        except (KeyError, TypeError):
            return None
        if not ran or not all(f.get("rlimit") for f in ran):
            return None
        return [g for g in o.failures if g["fn"] == fn]
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        res = list(ex.map(lambda a: one(*a), enumerate(fails)))
    return None if any(r is None for r in res) else dict(zip(fails, res))


def _run_unit(name, repo, outdir, extra, timeout, multiple, assume):
    o = new_outcome(name)
    t0 = time.time()
    u = units.UNITS[name]
    try:
        g = gen.Gen(u, repo, u["contracts"])
        g.assume = set(assume)
        text = g.run()
    except Exception as e:      # the source left the extractor's language
        key = getattr(e, "vp_fn", None)
        o.error = "extraction: %s: %s" % (type(e).__name__, e)
        if key:
            o.rejected = {key: "not in the extractor's language: %s" % e}
        return o
    o.gen, o.notes, o.missing = g, g.notes, g.missing
    path = os.path.join(outdir, name + ".rs")
    with open(path, "w") as fh:
        fh.write(text)
    o.path = path
    cmd = ["verus", path, "--output-json", "--error-format=json", "--multiple-errors", str(multiple), "--time-expanded"] + list(extra)
    o.cmd = " ".join(cmd)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=outdir)
    except subprocess.TimeoutExpired:
        o.error = "verus timed out after %ds" % timeout
        return o
    out, err = p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    o.stderr = err
    o.wall = time.time() - t0
    try:
        js = json.loads(out[out.index("{"):])
    except ValueError:
        js = None
    res = (js or {}).get("verification-results", {})
    o.verified = res.get("verified", 0)
    o.nerrors = res.get("errors", 0)
    o.js = js
    diags = []
    for ln in err.split("\n"):
        if ln.startswith("{"):
            try:
                diags.append(json.loads(ln))
            except ValueError:
                pass
    if js is None or "verified" not in res or res.get("encountered-vir-error") or not (o.verified or o.nerrors):
        msgs = [d["message"] + _where(g, d) for d in diags if d.get("level") == "error" and not d["message"].startswith("aborting")]
        o.error = "verus rejected the extracted text: " + ("; ".join(msgs[:4]) or err[-400:])
        o.rejected = {}
        for d in diags:
            if d.get("level") != "error" or d["message"].startswith("aborting"):
                continue
            for sp in d.get("spans", []):
                m = g.map.get(sp["line_start"])
                if m and m.get("fn") in g.with_body and m.get("kind") != "sig":
                    o.rejected.setdefault(m["fn"], d["message"][:160])
                    break
        return o
    for d in diags:
        if d.get("level") != "error" or d["message"].startswith("aborting"):
            continue
        f = failure(g, d)
        f["weak"] = g.weak(f["fn"])
        o.failures.append(f)
    if o.nerrors and not o.failures:
        o.error = "verus reports errors that cannot be mapped"
    try:
        o.smt_ms = js["times-ms"]["smt"]["total"]
    except Exception:
        pass
    return o


def _where(g, d):
    for sp in d.get("spans", []):
        m = g.map.get(sp["line_start"])
        if m:
            return " [%s %s]" % (m.get("fn"), m.get("src", m.get("kind")))
    return ""


def failure(g, d):
    f = dict(message=d["message"], fn=None, labels=[], clause=None, kind=None, src=None, rlimit=False)
    if "resource limit" in d["message"] or "rlimit" in d["message"].lower():
        f["rlimit"] = True
    spans = list(d.get("spans", []))
    for c in d.get("children", []):
        spans += c.get("spans", [])
    prim = [s for s in spans if s.get("is_primary")] or spans
    f["lines"] = []
    body_fn = None
    for s in spans:
        m = g.map.get(s["line_start"])
        if not m:
            continue
        f["lines"].append((s.get("label") or "", m.get("fn"), m.get("kind"), m.get("text"), m.get("src")))
        if m.get("labels") is not None and m.get("text"):
            if f["clause"] is None:
                f["clause"], f["labels"], f["kind"] = m["text"], list(m["labels"]), m["kind"]
                f["clause_fn"] = m["fn"]
        if m.get("kind") in ("body", "sig"):
            if body_fn is None or s.get("is_primary"):
                body_fn = m["fn"]
                f["src"] = m.get("src")
    for s in prim:
        m = g.map.get(s["line_start"])
        if m and body_fn is None:
            body_fn = m.get("fn")
    f["fn"] = body_fn or f.get("clause_fn")
    return f


def show(o, out=print):
    for a in o.assumed:
        out("NOT VERIFIED: " + a)
    if o.error:
        out("TOOL: " + o.error)
    for f in o.failures:
        out("FAIL%s %s [%s] %s :: %s (%s)" % (" (weak: %s)" % f["weak"] if f.get("weak") else "", f["fn"], ",".join(f["labels"]), f["message"], f["clause"], f["src"]))
    out("%s: %d verified, %d errors, %.1fs" % (o.unit, o.verified, o.nerrors, o.wall))


def run_canary(name, repo, outdir, pid=None, assume=()):
    """vacuity: append `assert(false)` to the end of functions under contract; the
    verifier must reject every one of them (a contradictory precondition, axiom or
    trusted contract would let it through)"""
    import contracts as C
    u = dict(units.UNITS[name])
    # functions that only leave through `return` inside a loop get it at the start
    entry = set(u.get("canary_entry", []))
    g = gen.Gen(u, repo, u["contracts"])
    g.assume = set(assume)
    chosen = []
    for k, con in g.fncs.items():
        blocks = [con] + list(con.loops.values()) + list(con.closures.values())
        if pid and pid != props.TOTAL.get(name) and not any(pid in (c.labels or []) for b in blocks for c in b.clauses):
            continue
        con.clauses.append(C.Clause("entry" if k in entry else "exit", [], "assert(false);", 0))
        chosen.append(k)
    text = g.run()
    path = os.path.join(outdir, name + ".rs")
    with open(path, "w") as fh:
        fh.write(text)
    cmd = ["verus", path, "--output-json", "--error-format=json", "--multiple-errors", "2"]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600, cwd=outdir)
    hit, other = set(), []
    for ln in p.stderr.decode("utf8", "replace").split("\n"):
        if not ln.startswith("{"):
            continue
        d = json.loads(ln)
        if d.get("level") != "error" or d["message"].startswith("aborting"):
            continue
        if d["message"].startswith("assertion failed") or "rlimit" in d["message"]:
            f = failure(g, d)       # rejected: `false` was not derived
            hit.add(f["fn"])
        else:
            other.append(d["message"])
    chosen = [k for k in chosen if k in g.used_contracts and k in g.with_body]
    res = dict(checked=sorted(chosen), vacuous=sorted(k for k in chosen if k not in hit), error=None)
    if not hit:
        res["error"] = "no canary fired: " + "; ".join(other[:2])
    return res
