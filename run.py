#!/usr/bin/env python3
"""Decides one property:  run.py C01        (VERIF_TIER, VERIF_SEED from the environment)
Repeats a failing input:  run.py --replay FILE
Records the shape of the functions under contract:  run.py --baseline

1. the sources in /repo are extracted into one Verus crate (extract/, contracts/)
   and every obligation of the functions the property depends on is discharged;
2. at the same time the bounded check (harness/) searches for a failing input.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
T = os.path.join(V, "target")
EXTRACT = os.path.join(T, "extract/release/extract")
GH = os.path.join(T, "harness/release/gh")
GIFT = os.path.join(T, "repo/debug/gift")
VERUS = os.environ.get("VERUS", "verus")
RLIMIT = "80"

sys.path.insert(0, V)
from plan import FINITE, PROPS, TRUST_NOTES


class CheckError(Exception):
    pass


def sh(cmd, cwd=None, timeout=880, env=None):
    """in a process group of its own, so that no solver is left behind"""
    pr = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    try:
        out, err = pr.communicate(timeout=timeout)
    finally:
        try:
            os.killpg(pr.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        pr.wait()
    return subprocess.CompletedProcess(cmd, pr.returncode, out, err)


def cargo(args, cwd, target):
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    r = sh(["cargo"] + args, cwd, env=env)
    if r.returncode != 0:
        raise CheckError("cargo %s failed in %s:\n%s" % (" ".join(args), cwd, r.stderr[-4000:]))


def build(prop):
    cargo(["build", "--release", "--offline"], os.path.join(V, "extract"), os.path.join(T, "extract"))
    cargo(["build", "--release", "--offline"], os.path.join(V, "harness"), os.path.join(T, "harness"))
    if prop in ("C19", None):
        cargo(["build", "-p", "gift-bin", "--offline", "--locked"], REPO, os.path.join(T, "repo"))


# ---------------------------------------------------------------- verifier


def extract(work, cli, external=(), probe=()):
    out = os.path.join(work, "gift.rs")
    cmd = [EXTRACT, os.path.join(REPO, "gift/src"), os.path.join(V, "contracts"), out]
    if cli:
        cmd += ["--cli", os.path.join(REPO, "gift-bin/src/main.rs")]
    for k in external:
        cmd += ["--external", k]
    for k in probe:
        cmd += ["--probe", k]
    r = sh(cmd)
    if r.returncode != 0:
        return None, r.stderr
    return json.load(open(out + ".map.json")), ""


def verus(work, verify, extra=(), timeout=300):
    cmd = [VERUS, "--edition", "2024", "gift.rs", "--crate-type=lib", "--output-json", "--time-expanded", "--error-format=json",
           "--multiple-errors", "8", "--rlimit", RLIMIT, "--num-threads", "6", "-V", "spinoff-all"]
    for m in verify:
        cmd += ["--verify-module", m]
    cmd += list(extra)
    t = time.time()
    try:
        r = sh(cmd, work, timeout)
    except subprocess.TimeoutExpired:
        return {"cmd": " ".join(cmd), "timeout": True, "wall": time.time() - t, "diags": [], "json": None, "stderr": "timeout"}
    diags = []
    rest = []
    for l in r.stderr.splitlines():
        if l.startswith("{"):
            try:
                diags.append(json.loads(l))
                continue
            except ValueError:
                pass
        rest.append(l)
    j = None
    i = r.stdout.find("{")
    if i >= 0:
        try:
            j = json.loads(r.stdout[i:])
        except ValueError:
            j = None
    return {"cmd": " ".join(cmd), "timeout": False, "wall": time.time() - t, "diags": diags, "json": j, "stderr": "\n".join(rest), "code": r.returncode}


def spans(d):
    """lines of a diagnostic in the extracted file, those of macro calls and children included"""
    res = []
    for s in d.get("spans", []):
        prim = s.get("is_primary", False)
        while s:
            if s["file_name"].endswith("gift.rs"):
                res.append((s["line_start"], prim))
            s = (s.get("expansion") or {}).get("span")
    for c in d.get("children", []):
        res += [(l, False) for l, _ in spans(c)]
    return res


PROOF_MSG = re.compile(
    r"postcondition not satisfied|precondition not (satisfied|met)|assertion failed|invariant not satisfied|possible (arithmetic|division|bit)|"
    r"decreases not satisfied|could not prove termination|recommendation not met|unreachable|constructed value may fail|possible .*overflow|assert_by|"
    r"requires not satisfied|cannot show|might not be|loop must have a decreases|split assertion|loop ensures not satisfied|may fail")
LIMIT_MSG = re.compile(r"[Rr]esource limit|rlimit|timed? ?out|canceled", re.I)


SAFETY_MSG = re.compile(r"precondition not met: index|possible (arithmetic|division|bit)|possible .*overflow|decreases not satisfied|could not prove termination|loop must have a decreases|unreachable")


def is_safety(d, text):
    """does the obligation stand for a panic, an overflow, an index or a missing end?"""
    m = d["message"]
    if SAFETY_MSG.search(m):
        return True
    if "precondition not satisfied" in m:
        # not the preconditions of lemmas, which only help a proof
        for s in d.get("spans", []):
            if s["file_name"].endswith("gift.rs") and "failed precondition" in (s.get("label") or ""):
                for l in reversed(text[: s["line_start"]]):
                    if re.search(r"\bfn \w+", l):
                        return not re.search(r"\bproof fn \w+", l)
        return True
    if "assertion failed" in m:
        return any(s.get("expansion") for s in d.get("spans", []))
    return False


def owner(map_, line):
    best = None
    for f in map_["functions"]:
        if f["start"] <= line <= f["end"] and (best is None or f["start"] >= best["start"]):
            best = f
    return best


def base_shape():
    try:
        return json.load(open(os.path.join(V, "contracts/baseline.json")))
    except FileNotFoundError:
        return {}


def drift(f, map_, base):
    """reasons why the contract text may no longer fit this function"""
    r = list(f["issues"]) + ["contract text placed elsewhere: " + k for k in f["moved"]]
    b = base.get(f["key"])
    if b is None:
        r.append("function is not in the baseline")
        return r
    if b["sig"] != f["sig"]:
        r.append("signature changed")
    if b["kinds"] != f["kinds"]:
        r.append("loops changed from [%s] to [%s]" % (b["kinds"], f["kinds"]))
    elif b["heads"] != f["heads"]:
        r.append("loops depend on other names: [%s] instead of [%s]" % ("; ".join(f["heads"]), "; ".join(b["heads"])))
    new = {g["key"].split("::")[-1] for g in map_["functions"] if g["key"] not in base}
    for c in f["calls"]:
        if c in new and c not in b["calls"]:
            r.append("calls %s, which has no contract" % c)
    return r


class Proof:
    def __init__(self):
        self.available = True
        self.why = ""
        self.degraded = {}   # key -> reasons
        self.failed = {}     # key -> messages
        self.safety = set()  # keys with a rejected obligation about panics, overflow, bounds or termination
        self.verified = []   # (function name, mode, ms)
        self.failing_queries = []
        self.counts = (0, 0)
        self.cmd = ""
        self.smt_ms = 0
        self.wall = 0.0
        self.rounds = 0
        self.map = None
        self.work = None
        self.scan = {}


def scan_trust(path):
    """assumptions in the extracted crate, found on this run"""
    s = re.sub(r"//[^\n]*", "", open(path).read())
    items, axioms, mods = [], [], []
    lines = s.splitlines()
    depth = 0
    for i, l in enumerate(lines):
        m = re.match(r"\s*(?:pub )?(?:mod (\w+)|impl\b[^{]*?([A-Z]\w*)(?:<[^{]*>)?\s*)\s*\{", l)
        if m:
            mods.append((depth, m.group(1) or m.group(2)))
        here = "::".join(n for _, n in mods)
        if "external_body" in l:
            f = next((re.search(r"\b(?:fn|struct|enum) (\w+)", x) for x in lines[i:i + 6] if re.search(r"\b(?:fn|struct|enum) \w+", x)), None)
            items.append(here + "::" + (f.group(1) if f else "?"))
        f = re.search(r"axiom fn (\w+)", l)
        if f:
            axioms.append(here + "::" + f.group(1))
        depth += l.count("{") - l.count("}")
        while mods and depth <= mods[-1][0]:
            mods.pop()
    return {
        "assume": len(re.findall(r"\bassume\s*\(", s)),
        "admit": len(re.findall(r"\badmit\s*\(", s)),
        "external_body": items,
        "assume_specification": sorted(set(re.sub(r"\s+", " ", m.strip()) for m in re.findall(r"assume_specification\s*(?:<[^\[]*>)?\s*\[((?:[^\[\]]|\[[^\[\]]*\])*)\]\s*\(", s))),
        "axiom": axioms,
    }


def prove(prop, work):
    cfg = PROPS[prop]
    p = Proof()
    p.work = work
    base = base_shape()
    external = set()
    start = time.time()
    while True:
        p.rounds += 1
        if p.rounds > 9 or time.time() - start > 420:
            p.available, p.why = False, "extraction did not settle"
            break
        m, err = extract(work, "cli" in cfg["verify"], sorted(external))
        if m is None:
            p.available, p.why = False, "extraction failed: " + err[-500:]
            break
        p.map = m
        more = {}
        for f in m["functions"]:
            if f["issues"] and f["key"] not in external:
                more[f["key"]] = list(f["issues"])
        if more:
            p.degraded.update(more)
            external |= set(more)
            continue
        r = verus(work, cfg["verify"])
        p.cmd, p.wall = r["cmd"], p.wall + r["wall"]
        if r["timeout"]:
            p.available, p.why = False, "verifier timeout"
            break
        errors = [d for d in r["diags"] if d.get("level") == "error" and (d.get("spans") or not re.search(r"aborting|could not compile", d.get("message", "")))]
        j = r["json"]
        res = (j or {}).get("verification-results") or {}
        ran = j is not None and not res.get("encountered-vir-error") and res.get("verified") is not None
        hard = [d for d in errors if d.get("code") or not (PROOF_MSG.search(d["message"]) or LIMIT_MSG.search(d["message"]))]
        if not ran or hard:
            # the verifier cannot read these functions: leave them out of this run
            bad = {}
            for d in hard or errors:
                ks = [owner(m, l) for l, prim in spans(d) if prim] or [owner(m, l) for l, _ in spans(d)]
                for k in ks:
                    if k is not None and k["key"] not in external:
                        bad.setdefault(k["key"], []).append(d["message"][:200])
            if not bad:
                p.available, p.why = False, "verifier could not read the extracted sources: " + "; ".join(d["message"][:200] for d in (hard or errors)[:3]) + r["stderr"][-300:]
                break
            p.degraded.update(bad)
            external |= set(bad)
            continue
        # the verifier ran
        try:
            for mt in j["times-ms"]["smt"]["smt-run-module-times"]:
                for f in mt.get("function-breakdown", []):
                    (p.verified if f.get("success") else p.failing_queries).append((f["function"], f.get("mode:", ""), f.get("time-micros", 0) / 1000.0))
            p.smt_ms = j["times-ms"]["smt"]["total"]
        except (KeyError, TypeError):
            pass
        p.counts = (res.get("verified", 0), res.get("errors", 0))
        text = open(os.path.join(work, "gift.rs")).read().splitlines()
        for d in errors:
            ls = spans(d)
            ks = [owner(m, l) for l, prim in ls if prim] + [owner(m, l) for l, _ in ls]
            own = None
            # a postcondition error points at the contract and at the exit of the same function;
            # a precondition error points at the call and at the callee: the body is what failed
            names = {q[0].split("::", 1)[1] for q in p.failing_queries}
            for k in ks:
                if k is not None and (k["key"] in names or strip_impl(k["key"]) in {strip_impl(n) for n in names}):
                    own = k
                    break
            if own is None:
                own = next((k for k in ks if k is not None), None)
            key = own["key"] if own else "(specification)"
            if LIMIT_MSG.search(d["message"]):
                p.degraded.setdefault(key, []).append("solver limit: " + d["message"][:120])
            else:
                if is_safety(d, text):
                    p.safety.add(key)
                p.failed.setdefault(key, []).append(d.get("rendered") or d["message"])
        for k in list(p.failed):
            f = next((f for f in m["functions"] if f["key"] == k), None)
            if f is None:
                p.degraded[k] = p.failed.pop(k)
                continue
            why = drift(f, m, base)
            if k in p.degraded:
                why.append("solver limit in the same function")
            if why:
                p.degraded.setdefault(k, []).extend(why)
                p.failed.pop(k)
        break
    if os.path.exists(os.path.join(work, "gift.rs")):
        p.scan = scan_trust(os.path.join(work, "gift.rs"))
    return p


def strip_impl(k):
    return "::".join(x for x in re.sub(r" as [^:]*", "", k).split("::") if not x.startswith("impl"))


def relevant(cfg, key):
    return any(re.fullmatch(r, key) for r in cfg["functions"])


def supports(cfg, key):
    return any(re.fullmatch(r, key) for r in cfg["support"])


def probe(prop, work, p):
    """vacuity: with `assert(false)` at its start every function under contract must be rejected"""
    cfg = PROPS[prop]
    keys = [k for k in in_scope(cfg, p) if k not in p.degraded]
    w = os.path.join(work, "probe")
    os.makedirs(w, exist_ok=True)
    m, err = extract(w, "cli" in cfg["verify"], sorted(k for k in p.degraded if k != "(specification)"), keys)
    if m is None:
        raise CheckError("probe extraction: " + err)
    lemmas = probe_theorems(os.path.join(w, "gift.rs"), cfg["theorems"])
    r = verus(w, cfg["verify"])
    if not ((r["json"] or {}).get("verification-results") or {}).get("errors"):
        raise CheckError("probe: the verifier did not run: " + "; ".join(d["message"][:200] for d in r["diags"][:3]) + r["stderr"][-300:])
    hit = set()
    for d in r["diags"]:
        if d.get("level") == "error":
            for l, _ in spans(d):
                f = owner(m, l)
                if f:
                    hit.add(f["key"])
                hit |= {t for t, (a, b) in lemmas.items() if a <= l <= b}
    keys += sorted(lemmas)
    return keys, [k for k in keys if k not in hit]


def probe_theorems(path, names):
    """`assert(false)` at the start of the theorems; lines they span"""
    lines = open(path).read().split("\n")
    at = {}
    for t in names:
        mod, fn = t.split("::")
        i = next(i for i, l in enumerate(lines) if re.match(r"pub mod %s \{" % mod, l))
        i = next(j for j in range(i, len(lines)) if re.match(r"pub (proof )?fn %s\b" % fn, lines[j]))
        a = next(j for j in range(i, len(lines)) if lines[j] == "{")
        b = next(j for j in range(a, len(lines)) if lines[j] == "}")
        j = a + 1 if lines[a + 1].lstrip().startswith("hide(") else a
        lines[j] += " assert(false);"
        at[t] = (i + 1, b + 1)
    with open(path, "w") as f:
        f.write("\n".join(lines))
    return at


# ---------------------------------------------------------------- bounded check


def bounded_start(prop, seed, secs, work, tag, threads=4):
    out = os.path.join(work, "gh-%s.json" % tag)
    env = dict(os.environ, GH_THREADS=str(threads), GIFT_BIN=GIFT, GH_SCRATCH=work, RUST_BACKTRACE="0")
    pr = subprocess.Popen([GH, "run", prop, str(seed), str(secs), out], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    return pr, out, secs


def bounded_end(b):
    pr, out, secs = b
    try:
        _, err = pr.communicate(timeout=secs + 120)
    except subprocess.TimeoutExpired:
        pr.kill()
        pr.communicate()
        return {"crash": "no end of the bounded check"}
    if not os.path.exists(out):
        return {"crash": "bounded check ended with status %s: %s" % (pr.returncode, (err or "")[-500:])}
    return json.load(open(out))


def known(prop):
    res = []
    for l in open(os.path.join(V, "known_findings.txt")):
        m = re.match(r"finding: property=(\S+) match=\"([^\"]*)\" (.*)", l)
        if m and m.group(1) == prop:
            res.append((m.group(2), m.group(3).strip()))
    return res


def main(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPS[prop]
    ev = os.path.join(V, "evidence")
    os.makedirs(ev, exist_ok=True)
    os.makedirs(T, exist_ok=True)
    build(prop)
    work = tempfile.mkdtemp(prefix="work-", dir=T)
    try:
        secs = cfg.get("secs", 12) if tier == "quick" else cfg.get("secs_thorough", 150)
        b = bounded_start(prop, seed, secs, work, "main")
        p = prove(prop, work) if cfg["verify"] else None
        res = bounded_end(b)
        if "crash" in res and "failure" not in res:
            # the process itself died: a crash of the code under test (stack, memory) or of the harness
            res2 = bounded_end(bounded_start(prop, seed, secs, work, "again"))
            if "crash" in res2:
                raise CheckError(res["crash"])
            res = res2
        failed = {}
        degraded = {}
        if p is not None:
            degraded = {k: v for k, v in p.degraded.items() if relevant(cfg, k) or supports(cfg, k) or k == "(specification)"}
            for k, v in p.failed.items():
                if relevant(cfg, k) and (k in p.safety or not cfg.get("safety")):
                    failed[k] = v
                elif relevant(cfg, k) or supports(cfg, k):
                    degraded[k] = ["contract not proved, which says more than this property: " + v[0]]
        finite = [k for k in failed if any(re.fullmatch(r, k) for r in FINITE)]
        if finite and sh([GH, "finite"]).returncode == 0:
            for k in finite:
                degraded[k] = ["not followed by the solver, but right for all values (tried one by one): " + failed.pop(k)[0]]
        extra = None
        if not res.get("failure") and (failed or degraded or (p is not None and not p.available)):
            # look longer for an input before saying anything
            n = 90 if tier == "quick" else 240
            n = cfg.get("search", n)
            extra = bounded_end(bounded_start(prop, seed + 1000003, n, work, "search", 8))
            if extra.get("failure"):
                res["failure"] = extra["failure"]
            res["evaluations"] = res.get("evaluations", 0) + extra.get("evaluations", 0)
        tried = sh([GH, "assumed"])
        if tried.returncode != 0:
            raise CheckError("an assumed contract of a library does not hold: " + tried.stdout[-500:])
        res["assumed"] = int(tried.stdout)
        vac = None
        if p is not None and p.available and tier == "thorough" and not failed:
            vac = probe(prop, work, p)
            if vac[1]:
                raise CheckError("contracts which hold vacuously: %s" % vac[1])
        return verdict(prop, cfg, tier, seed, p, res, failed, degraded, vac, t0, ev)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def in_scope(cfg, p):
    """functions of the repository under contract for this property"""
    mods = {x for x in cfg["verify"]}
    return sorted(f["key"] for f in p.map["functions"] if f["contract"] and not f["external"] and f["key"].split("::")[0] in mods and (relevant(cfg, f["key"]) or supports(cfg, f["key"])))


def verdict(prop, cfg, tier, seed, p, res, failed, degraded, vac, t0, ev):
    fail = res.get("failure")
    known_hit = None
    if fail:
        for pat, text in known(prop):
            if pat in fail["what"]:
                known_hit = text
    violation = bool(fail and not known_hit) or bool(failed)
    cov = {}
    assumptions = []
    full = p is not None and p.available and not degraded
    bounded = {"evaluations": res.get("evaluations", 0), "distinct_nontrivial": res.get("distinct_nontrivial", 0),
               "finite_domain_cases": res.get("finite_domain_cases", 0), "rule": res.get("rule", ""), "samples": res.get("samples", [])}
    if p is not None and p.available:
        fns = in_scope(cfg, p)
        names = {strip_impl(k) for k in fns}
        q = [x for x in p.verified if strip_impl(x[0].split("::", 1)[1]) in names]
        lem = [x for x in p.verified if x not in q and x[1] in ("proof", "spec")]
        bad = [k for k in failed]
        cov["obligations"] = sum(p.counts)
        cov["discharged"] = p.counts[0]
        cov["obligation_unit"] = "one item the verifier counts: the body of a function or lemma, a loop body, a well-formedness or termination check, in modules " + ", ".join(cfg["verify"])
        cov["checker_cmd"] = p.cmd
        cov["backend"] = "Verus (Z3)"
        cov["functions_under_contract"] = fns
        cov["function_queries_discharged"] = len(q)
        cov["lemma_queries_discharged"] = len(lem)
        cov["rejected_functions"] = bad
        if cfg["theorems"]:
            done = {x[0].split("::", 1)[1] for x in p.verified}
            cov["theorems"] = [t for t in cfg["theorems"] if t in done]
            cov["theorems_not_verified"] = [t for t in cfg["theorems"] if t not in done]
        cov["solver_ms"] = p.smt_ms
        cov["verifier_wall_s"] = round(p.wall, 2)
        cov["slowest"] = [[a, round(c, 1)] for a, _, c in sorted(p.verified, key=lambda x: -x[2])[:5]]
        s = p.scan
        cov["trusted_base"] = TRUST_NOTES + ["assumed contract of %s" % x for x in s.get("assume_specification", [])] + [
            "model with assumed contract: " + ", ".join(s.get("external_body", [])), "axioms: " + ", ".join(s.get("axiom", [])),
            "%d assume statements, %d admit statements in the extracted crate" % (s.get("assume", 0), s.get("admit", 0))]
        cov["library_assumptions_tried"] = res["assumed"]
        if vac:
            cov["vacuity_probes"] = len(vac[0])
            cov["vacuous"] = vac[1]
    if degraded:
        cov["not_decided_by_proof_this_run"] = {k: v[:3] for k, v in degraded.items()}
        assumptions.append("contracts of the functions listed in not_decided_by_proof_this_run are assumed in this run; the bounded check stands in for them")
    if p is not None and not p.available:
        cov["proof_unavailable"] = p.why
        assumptions.append("no proof in this run; the bounded check stands in")
    level = cfg["level"]
    if level == "proof" and not full:
        level = "exploration"
    if level == "exploration":
        cov.update(bounded)
    else:
        cov["bounded_check"] = bounded
    if cfg.get("bounded"):
        cov["bounded_part"] = cfg["bounded"]
        assumptions.append("bounded, not proved: " + cfg["bounded"])
    assumptions += cfg.get("assumptions", [])
    data = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions,
            "wall_s": round(time.time() - t0, 2), "violations": (1 if fail and not known_hit else 0) + len(failed)}
    with open(os.path.join(ev, prop + ".json"), "w") as f:
        json.dump(data, f, indent=1)
    if known_hit:
        print("KNOWN-FINDING: property=%s %s" % (prop, known_hit))
    if not violation:
        for k, v in degraded.items():
            print("note: %s not decided by proof in this run: %s" % (k, v[0].strip().splitlines()[0]))
        if p is not None and not p.available:
            print("note: no proof in this run: " + p.why)
        print("%s held (%s): %s obligations discharged, %s inputs" % (prop, tier, cov.get("discharged", 0), bounded["evaluations"]))
        return 0
    rp = os.path.join(ev, "replay-%s.json" % prop)
    rep = {"property": prop, "seed": seed}
    if fail and not known_hit:
        rep.update({"case": fail["case"], "size": fail["size"], "what": fail["what"], "input": fail["input"],
                    "replay": "cd /verif && python3 run.py --replay " + rp})
    if failed:
        rep["failed_obligations"] = {k: v for k, v in failed.items()}
        rep["verifier"] = p.cmd
    with open(rp, "w") as f:
        json.dump(rep, f, indent=1)
    for k in failed:
        print("obligation not discharged in %s" % k)
        print("  " + failed[k][0].strip().replace("\n", "\n  ")[:1500])
    if fail and not known_hit:
        print("failing input: " + fail["what"][:600])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    else:
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
    return 1


def replay(path):
    d = json.load(open(path))
    prop = d["property"]
    build(prop)
    if "case" not in d:
        print("no failing input; failed obligations:")
        for k, v in d.get("failed_obligations", {}).items():
            print(k)
            print("\n".join(v))
        return 1
    work = tempfile.mkdtemp(prefix="work-", dir=T)
    try:
        env = dict(os.environ, GIFT_BIN=GIFT, GH_SCRATCH=work)
        return subprocess.run([GH, "replay", prop, str(d["case"]), str(d["size"])], env=env).returncode
    finally:
        shutil.rmtree(work, ignore_errors=True)


def baseline():
    build(None)
    work = tempfile.mkdtemp(prefix="work-", dir=T)
    m, err = extract(work, True)
    shutil.rmtree(work, ignore_errors=True)
    if m is None:
        raise CheckError(err)
    b = {f["key"]: {"sig": f["sig"], "kinds": f["kinds"], "heads": f["heads"], "calls": f["calls"], "contract": f["contract"]} for f in m["functions"]}
    with open(os.path.join(V, "contracts/baseline.json"), "w") as f:
        json.dump(b, f, indent=0, sort_keys=True)
    for f in m["functions"]:
        if f["issues"]:
            print(f["key"], f["issues"])
    print(len(b), "functions;", sum(1 for x in b.values() if x["contract"]), "with contract; missing:", m["missing"])


if __name__ == "__main__":
    try:
        if sys.argv[1] == "--replay":
            sys.exit(replay(sys.argv[2]))
        if sys.argv[1] == "--build":
            os.makedirs(T, exist_ok=True)
            build(None)
            sys.exit(0)
        if sys.argv[1] == "--baseline":
            baseline()
            sys.exit(0)
        sys.exit(main(sys.argv[1]))
    except CheckError as e:
        print("ERROR: %s" % e)
        sys.exit(2)
