#!/usr/bin/env python3
"""Decides one property of yamd.

  check.py PROP [--tier quick|thorough]

1. vx extracts the functions from /repo/src and attaches the contracts of overlay/ (units of the property).
2. Verus proves every obligation of the generated files.
3. A concrete search runs the real code against an executable reading of the property: it supplies the
   failing input when an obligation fails, and stands in (bounded, labelled so) where the proof is undecided.
"""
import concurrent.futures as cf
import hashlib, json, os, re, subprocess, sys, time, tempfile, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("YAMD_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
VX = os.path.join(BUILD, "vx", "release", "vx")
YH = os.path.join(BUILD, "harness", "release", "yh")
OVERLAY = os.path.join(VERIF, "overlay")
KNOWN = os.path.join(VERIF, "known_findings.txt")
T0 = time.time()

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)

def build_vx():
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "vx"))
    r = run(["cargo", "build", "--release", "--offline", "-q"], cwd=os.path.join(VERIF, "tools/vx"), env=env)
    if r.returncode != 0 or not os.path.exists(VX):
        raise RuntimeError("vx does not build:\n" + r.stderr)

def build_yh():
    """the harness is linked against /repo's current sources; it may fail to build when the API changed"""
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "harness"))
    src = os.path.join(VERIF, "tools/harness")
    if REPO != "/repo":
        src = os.path.join(BUILD, "harness-src")
        shutil.rmtree(src, ignore_errors=True)
        shutil.copytree(os.path.join(VERIF, "tools/harness"), src)
        p = os.path.join(src, "Cargo.toml")
        t = open(p).read().replace('"/repo"', json.dumps(REPO))
        open(p, "w").write(t)
    r = run(["cargo", "build", "--release", "--offline", "-q"], cwd=src, env=env)
    return (r.returncode == 0 and os.path.exists(YH)), r.stderr

# ---------------------------------------------------------------- proof

PANIC_MSG = re.compile(r"arithmetic|overflow|underflow|decreases|divi|bit shift|unreachable|panic|termination", re.I)
PANIC_FN = re.compile(r"fn (vf_|index|unwrap|expect|swap_remove|remove|truncate|insert|split_off)")
LIMIT = re.compile(r"resource limit|rlimit|timed out|could not finish", re.I)
PROOF_MSG = re.compile(r"(postcondition|precondition|invariant|assertion|decreases|arithmetic|overflow|underflow|shift|divi|failed|not satisfied|recommendation)", re.I)

def scan_trusted(text):
    out = []
    lines = text.split("\n")
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("//"):
            continue
        if "assume_specification" in s:
            out.append("assume_specification " + re.sub(r"\s+", " ", s)[:140])
        elif "external_body" in s or "external_fn_specification" in s:
            for m in lines[i + 1:i + 4]:
                k = re.search(r"\b(fn|struct)\s+\w+", m)
                if k:
                    out.append("external_body " + k.group(0))
                    break
        elif re.search(r"\b(assume|admit)\s*\(", s):
            out.append("assume/admit: " + s[:140])
    return out

def cfg_nocontract():
    return json.load(open(os.path.join(VERIF, "checks/assumptions.json"))).get("no_contract", [])

def verify(unit, tags, tier):
    """-> dict with status proved | failed | undecided"""
    d = tempfile.mkdtemp(prefix="vf-%s-" % unit, dir=os.path.join(BUILD, "tmp"))
    try:
        return verify_in(d, unit, tags, tier)
    finally:
        shutil.rmtree(d, ignore_errors=True)

def probe(unit, tags, where):
    """vacuity: `assert(false)` at the start of every body and loop (where=1) or at the end of every body (where=2)
    has to be refuted: the contracts, the invariants and the trusted assumptions are not contradictory"""
    d = tempfile.mkdtemp(prefix="vp-%s-" % unit, dir=os.path.join(BUILD, "tmp"))
    try:
        rs, mp = os.path.join(d, unit + ".rs"), os.path.join(d, unit + ".json")
        out = {"unit": unit, "at": "start of bodies and loops" if where == 1 else "end of bodies"}
        r = run([VX, "--repo", REPO, "--unit", os.path.join(OVERLAY, unit + ".unit"), "--tags", tags, "--out", rs, "--map", mp, "--probe", str(where)])
        if r.returncode != 0:
            return dict(out, error="extraction failed")
        probes = {l["line"]: "%s %s" % (l["fn"], l["at"]) for l in json.load(open(mp))["lines"] if l["kind"] == "probe"}
        try:
            r = run(["verus", rs, "--edition=2024", "--rlimit", "50", "--num-threads", "4", "--error-format=json", "--multiple-errors", "30"], cwd=d, timeout=600)
        except subprocess.TimeoutExpired:
            return dict(out, error="time limit")
        hit = set()
        for l in r.stderr.split("\n"):
            if l.startswith("{"):
                try:
                    hit |= {s["line_start"] for s in json.loads(l)["spans"]} & set(probes)
                except Exception:
                    pass
        return dict(out, probes=len(probes), refuted=len(hit), not_refuted=sorted(probes[x] for x in set(probes) - hit)[:20])
    finally:
        shutil.rmtree(d, ignore_errors=True)

def verify_in(d, unit, tags, tier):
    rs, mp = os.path.join(d, unit + ".rs"), os.path.join(d, unit + ".json")
    res = {"unit": unit, "tags": tags, "failures": [], "notes": [], "verified": 0, "errors": 0, "smt_ms": 0, "functions": [], "trusted": [], "clauses": 0}
    cmd = [VX, "--repo", REPO, "--unit", os.path.join(OVERLAY, unit + ".unit"), "--tags", tags, "--out", rs, "--map", mp]
    r = run(cmd)
    if r.returncode != 0:
        res["status"] = "undecided"
        res["notes"].append("extraction failed: " + r.stderr.strip()[:600])
        return res
    text = open(rs).read()
    m = json.load(open(mp))
    res["trusted"] = scan_trusted(text)
    # a kept From impl has the contract of vstd's From trait: the result is from_spec of the argument
    conv = lambda f: f["status"] == "no-contract" and "::From<" in f["fn"]
    res["functions"] = [f["fn"] for f in m["functions"] if f["status"] in ("contract", "auto-contract") or conv(f)]
    nocontract = [f["fn"] for f in m["functions"] if f["status"] == "no-contract" and not conv(f)]
    res["inlined"] = sorted({f["fn"] for f in m["functions"] if f["status"] == "inlined"})
    res["rewrites"] = m["rewrites"]
    res["clauses"] = sum(1 for l in m["lines"] if l["kind"] in ("requires", "ensures", "inv", "invxb", "lensures", "decreases", "ldecreases", "invariant"))
    lost = m["lost"] + m["unsupported"]
    res["lost"] = lost
    res["uncontracted"] = nocontract
    vcmd = ["verus", rs, "--edition=2024", "--output-json", "--time", "--multiple-errors", "3", "--error-format=json", "--num-threads", "6"]
    vcmd += ["--rlimit", "120" if tier == "thorough" else "50"]
    res["checker_cmd"] = "vx --unit overlay/%s.unit --tags '%s' --out %s.rs && %s" % (unit, tags, unit, " ".join(["verus", unit + ".rs"] + vcmd[2:]))
    try:
        r = run(vcmd, cwd=d, timeout=600 if tier == "quick" else 780)
    except subprocess.TimeoutExpired:
        res["status"] = "undecided"
        res["notes"].append("verus: time limit")
        return res
    try:
        o = json.loads(r.stdout)
    except Exception:
        o = {}
    vr = o.get("verification-results", {})
    res["verified"], res["errors"] = vr.get("verified", 0), vr.get("errors", 0)
    res["smt_ms"] = o.get("times-ms", {}).get("smt", {}).get("smt-run", 0)
    # failing functions
    diags = []
    for l in r.stderr.split("\n"):
        if l.startswith("{"):
            try:
                dd = json.loads(l)
            except Exception:
                continue
            if dd.get("level") == "error" and not dd["message"].startswith("aborting"):
                diags.append(dd)
    clause, code, fnat = {}, [], []
    for l in m["lines"]:
        if l["kind"] == "code":
            code.append((l["line"], l["fn"], l["src"]))
        elif l["kind"] in ("fn", "endfn"):
            fnat.append((l["line"], l["kind"], l["fn"], l.get("src", "")))
        else:
            for k in range(l["line"], l.get("to", l["line"]) + 1):
                clause[k] = l
    tlines = text.split("\n")
    def fn_of(line):
        cur = None
        for (n, k, f, s) in fnat:
            if n > line:
                break
            cur = (f, s) if k == "fn" else None
        return cur
    def src_of(line):
        best = None
        for (n, f, s) in code:
            if n <= line:
                best = s
            else:
                break
        return best
    compile_error = False
    for dd in diags:
        f = {"message": dd["message"], "tags": None, "obligation": None, "function": None, "source": None, "panic": False, "limit": False, "verifier_output": dd.get("rendered", "")[:4000]}
        if LIMIT.search(dd["message"]):
            f["limit"] = True
        elif dd.get("code") or not PROOF_MSG.search(dd["message"]):
            compile_error = True
            res["notes"].append("verus rejects the generated file: " + dd.get("rendered", dd["message"])[:500])
            continue
        if PANIC_MSG.search(dd["message"]):
            f["panic"] = True
        for sp in dd["spans"]:
            if not sp["file_name"].endswith(unit + ".rs"):
                # a precondition of the standard library's contract (index, unwrap, ...)
                if "precondition" in dd["message"]:
                    f["panic"] = True
                continue
            ln = sp["line_start"]
            c = clause.get(ln)
            lab = sp.get("label") or ""
            if c and ("failed" in lab or sp["is_primary"]) and c["kind"] not in ("proof", "start", "end"):
                f["tags"] = c["tags"]
                f["obligation"] = "%s %s of %s: %s" % (c["at"], c["kind"], c["fn"], tlines[ln - 1].strip()[:200])
            elif c and f["tags"] is None and sp["is_primary"]:
                f["tags"] = c["tags"]
                f["obligation"] = "%s %s of %s: %s" % (c["at"], c["kind"], c["fn"], tlines[ln - 1].strip()[:200])
            fo = fn_of(ln)
            if fo and (f["function"] is None or sp["is_primary"] or "body" in lab):
                f["function"] = fo[0]
                f["source"] = src_of(ln) if not c else f["source"]
            if "failed precondition" in lab and fo is None:
                ctx = "\n".join(tlines[max(0, ln - 4):ln])
                if PANIC_FN.search(ctx):
                    f["panic"] = True
                    f["obligation"] = f["obligation"] or "must not panic: " + tlines[ln - 1].strip()[:160]
        if f["tags"] is None:
            f["tags"] = []
        if f["obligation"] is None:
            sp = [s for s in dd["spans"] if s["is_primary"]] or dd["spans"]
            f["obligation"] = dd["message"] + (": " + sp[0]["text"][0]["text"].strip()[:160] if sp and sp[0]["text"] else "")
        res["failures"].append(f)
    if res["verified"] == 0 and not res["failures"] and not compile_error:
        res["notes"].append("verus gave no result: " + (r.stderr or r.stdout)[-400:])
        compile_error = True
    if compile_error or (lost and res["failures"]) or any(f["limit"] for f in res["failures"]):
        res["status"] = "undecided"
    elif res["failures"]:
        res["status"] = "failed"
    elif r.returncode != 0 or res["errors"]:
        res["status"] = "undecided"
        res["notes"].append("verus exits %d" % r.returncode)
    else:
        res["status"] = "proved"
    new = [f for f in nocontract if f not in cfg_nocontract()]
    if new and res["status"] == "failed":
        # a caller is checked against an empty contract here: its failures say nothing about the code
        res["notes"].append("functions without a contract: " + ", ".join(new)[:300])
        res["status"] = "undecided"
    loops = json.load(open(os.path.join(VERIF, "checks", "loops.json")))
    bare = [f["fn"] for f in m["functions"] if f.get("loops", 0) > f.get("hinted", 0) or f.get("kinds", []) != loops.get(f["fn"], []) and f.get("hinted", 0)]
    if res["status"] == "failed" and any(f["function"] in bare for f in res["failures"]):
        # a loop without an invariant, or with one written for a loop of another kind: what fails behind it says nothing about the code
        res["notes"].append("loops without an invariant made for them: " + ", ".join(bare)[:300])
        res["status"] = "undecided"
    if lost:
        res["notes"].append("anchors not found: " + "; ".join(lost)[:600])
        res["status"] = "undecided"
    return res

# ---------------------------------------------------------------- search

def search(prop, seed, secs, threads):
    cmd = [YH, "search", prop, str(seed), str(secs), str(threads)]
    if os.path.exists(KNOWN):
        cmd.append(KNOWN)
    try:
        r = run(cmd, timeout=secs + 60, env=dict(os.environ, YH_SRC=os.path.join(REPO, "src")))
    except subprocess.TimeoutExpired:
        return {"error": "search did not end"}
    for l in reversed(r.stdout.split("\n")):
        if l.startswith("{"):
            j = json.loads(l)
            j["rc"] = r.returncode
            return j
    return {"error": "search ended with %d: %s" % (r.returncode, (r.stderr + r.stdout)[-300:]), "crash": r.returncode < 0}

def conform():
    """the trusted contracts on std, checked on std (bounded)"""
    try:
        r = run([YH, "conform"], timeout=60)
    except subprocess.TimeoutExpired:
        return {"holds": None, "why": "did not end"}
    return {"holds": True, "comparisons": int(r.stdout), "rule": "tools/harness/src/conform.rs: every string of up to 6 of 5 characters, every char"} if r.returncode == 0 else {"holds": False, "why": (r.stdout + r.stderr)[-300:]}

def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            m = re.match(r"known: property=(\w+) (.*)", l)
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    cfg = json.load(open(os.path.join(VERIF, "checks/props.json")))[prop]
    os.makedirs(os.path.join(BUILD, "tmp"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    owned = {(o[0], o[1]) for o in cfg["owned"] if len(o) == 2}
    # other obligations of these functions or of this text, too
    owned_in = [(o[0], o[1], re.compile(o[2])) for o in cfg["owned"] if len(o) == 3]
    T_OK, T_BAD = (6.0, 45.0) if tier == "quick" else (60.0, 150.0)

    build_vx()
    with cf.ThreadPoolExecutor(8) as ex:
        fyh = ex.submit(build_yh)
        fver = [ex.submit(verify, u, t, tier) for u, t in cfg["units"]]
        fprobe = [ex.submit(probe, u, t, w) for u, t in cfg["units"] for w in (1, 2)] if tier == "thorough" else []
        yh_ok, yh_err = fyh.result()
        s1 = search(prop, seed, T_OK, 5) if yh_ok else {"error": "harness does not build against the current sources: " + yh_err[-400:]}
        conf = conform() if yh_ok else {"holds": None, "why": "harness does not build"}
        vs = [f.result() for f in fver]
        probes = [f.result() for f in fprobe]

    own, other = [], []
    for v in vs:
        for f in v["failures"]:
            tags = f["tags"] or [""]
            mine = any((v["unit"], t) in owned for t in tags) or (f["panic"] and (v["unit"], "panic") in owned)
            mine = mine or any(u == v["unit"] and t in tags and rx.search("%s: %s" % (f["function"], f["obligation"])) for u, t, rx in owned_in)
            f["unit"] = v["unit"]
            (own if mine and not f["limit"] and v["status"] == "failed" else other).append(f)
    proved = all(v["status"] == "proved" for v in vs) and conf["holds"] is not False
    searches = [s1]
    found = s1 if s1.get("violation") is not None else None
    if not found and not proved and yh_ok:
        s2 = search(prop, seed + 7919, T_BAD, 8)
        searches.append(s2)
        if s2.get("violation") is not None:
            found = s2

    total = sum(v["verified"] + v["errors"] for v in vs)
    done = sum(v["verified"] for v in vs)
    trusted = sorted({t for v in vs for t in v["trusted"]})
    fns = sorted({f for v in vs for f in v["functions"]})
    violation = 1 if (found or own) else 0
    cov = {
        "obligations": total, "discharged": done,
        "checker_cmd": " ; ".join(v.get("checker_cmd", "") for v in vs),
        "trusted_base": trusted,
        "backend": "Verus (Z3)", "solver_ms": sum(v["smt_ms"] for v in vs),
        "functions_under_contract": fns, "contract_clauses": sum(v["clauses"] for v in vs),
        "units": [{k: v.get(k) for k in ("unit", "tags", "status", "verified", "errors", "smt_ms", "notes", "lost", "uncontracted", "inlined")} for v in vs],
        "rewrites": [v.get("rewrites") for v in vs],
        "evaluations": sum(s.get("evaluations", 0) for s in searches),
        "distinct_nontrivial": sum(s.get("distinct_nontrivial", 0) for s in searches),
        "rule": "cross-check by concrete search (bounded, not counted as proof): all sequences of up to 4 fragments first, then random fragment soups, generated documents and mutations of them; non-trivial: the input exercises the property (see tools/harness/src/oracle.rs)",
        "samples": [x for s in searches for x in s.get("samples", [])][:8] or ["(none)"],
        "exhaustive_cases": sum(s.get("exhaustive_cases", 0) for s in searches),
        "search_errors": [s["error"] for s in searches if "error" in s],
        "explanation": "proved by Verus from /repo's current sources" if proved else "the proof is not complete on the current sources (see units); the concrete search is a bounded stand-in",
    }
    cov["std_conformance"] = conf
    if probes:
        cov["vacuity_probes"] = probes
    ass = json.load(open(os.path.join(VERIF, "checks/assumptions.json")))
    ev = {
        "property": prop, "tier": tier, "seed": seed,
        "level": "proof" if proved or not found and own else ("exploration" if not proved else "proof"),
        "coverage": cov, "assumptions": ass.get("all", []) + ass.get(prop, []),
        "wall_s": round(time.time() - T0, 2), "violations": violation,
    }
    epath = os.path.join(VERIF, "evidence", prop + ".json")
    json.dump(ev, open(epath, "w"), indent=1)
    open(epath, "a").write("\n")

    for k in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for v in vs:
        print("unit %-8s tags %-5s %-9s %d verified, %d errors, %d ms SMT %s" % (v["unit"], v["tags"] or "-", v["status"], v["verified"], v["errors"], v["smt_ms"], "; ".join(v["notes"])[:300]))
    for s in searches:
        print("search: %s evaluations, %s" % (s.get("evaluations"), "failing input" if s.get("violation") is not None else s.get("error", "no failing input")))
    if found:
        rp = os.path.join(rdir, prop + ".txt")
        open(rp, "w", newline="").write(found["violation"])
        open(os.path.join(rdir, prop + ".why"), "w").write(
            "input (in %s): %s\n%s\nreplay: build/harness/release/yh replay %s %s\nfailed obligations:\n%s\n" % (
                rp, json.dumps(found["violation"]), found["why"], prop, rp,
                "\n".join("- %s: %s (%s)\n%s" % (f["function"], f["obligation"], f["message"], f["verifier_output"]) for f in own + other)))
        print("failing input %s: %s" % (json.dumps(found["violation"])[:400], found["why"][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        sys.exit(1)
    if own:
        rp = os.path.join(rdir, prop + ".obligation.txt")
        open(rp, "w").write("".join(
            "obligation: %s\nfunction: %s (%s)\nunit: %s\nverifier: %s\n%s\n\n" % (f["obligation"], f["function"], f["source"], f["unit"], f["message"], f["verifier_output"]) for f in own))
        for f in own[:4]:
            print("failed obligation: %s [%s] %s" % (f["function"], f["message"], f["obligation"]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
        sys.exit(1)
    if not proved:
        print("undecided by proof; bounded search found no failing input")
    sys.exit(0)

if __name__ == "__main__":
    main()
