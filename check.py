#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's current working tree.

1. Deductive step: extract the functions under contract from /repo (tools/vx), attach the contracts in
   contracts/*.vrs, and let Verus discharge every obligation.
2. Vacuity step: the same text with an unprovable canary at the entry of every function and loop; every canary must fail.
3. Executable contracts on the real code (native/): counterexample search, and the bounded stand-in for what is outside
   the deductive step's reach.
Exit 0 / exit 1 with a VIOLATION line. See DESIGN.md for the verdict rules.
"""
import json, os, re, subprocess, sys, time, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, ".build")
T0 = time.time()
sys.path.insert(0, V)
from props import PROPS

TIER = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))

def sh(cmd, timeout=None, env=None, cwd=None):
    e = dict(os.environ)
    if env: e.update(env)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=cwd, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode("utf8", "replace") if isinstance(x.stdout, bytes) else (x.stdout or ""), "timeout"

CARGO_ENV = {
    "PATH": "/root/.cargo/bin:" + os.environ.get("PATH", ""),
    "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never", "RUSTC_WRAPPER": "",
    "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu", "CARGO_INCREMENTAL": "0",
}

def build_vx():
    env = dict(CARGO_ENV); env["CARGO_TARGET_DIR"] = os.path.join(B, "vx"); env["RUSTFLAGS"] = ""
    rc, o, e = sh(["cargo", "build", "--offline", "--quiet"], 900, env, os.path.join(V, "tools/vx"))
    if rc != 0:
        print("cannot build the extractor:\n" + e[-3000:]); sys.exit(2)
    return os.path.join(B, "vx/debug/vx")

def build_native(suites):
    """one binary per suite; {suite: path}, {suite: why not}"""
    env = dict(CARGO_ENV); env["CARGO_TARGET_DIR"] = os.path.join(B, "native")
    base = "-A semicolon_in_expressions_from_macros -A warnings"
    env["RUSTFLAGS"] = base + " --cfg rawloader_verif"
    paths, bad = {}, {}
    cmd = ["cargo", "build", "--offline", "--quiet"]
    rc, o, e = sh(cmd + [x for s in suites for x in ("--bin", s)], 1500, env, os.path.join(V, "native"))
    for s in suites:
        if rc != 0:
            rc1, o, e = sh(cmd + ["--bin", s], 1500, env, os.path.join(V, "native"))
            if rc1 != 0:
                # a hook may have lost its target: suites that need none still build without the guard
                env2 = dict(env); env2["RUSTFLAGS"] = base; env2["CARGO_TARGET_DIR"] = os.path.join(B, "native-nohooks")
                rc2, o, e2 = sh(cmd + ["--bin", s], 1500, env2, os.path.join(V, "native"))
                if rc2 != 0: bad[s] = "does not build against the current tree: " + e[-1500:]; continue
                paths[s] = os.path.join(B, "native-nohooks/debug", s); continue
        paths[s] = os.path.join(B, "native/debug", s)
    return paths, bad

# ---------------------------------------------------------------- deductive step
MARK = re.compile(r"^// ---- extracted from (\S.*?)(?: \(line (\d+)\))?$")

def owner(lines, n):
    for i in range(min(n, len(lines)) - 1, -1, -1):
        m = MARK.match(lines[i])
        if m: return m.group(1), m.group(2)
        # lemma text between extracted functions
        m = re.match(r"\s*(?:pub )?proof fn (\w+)", lines[i])
        if m: return "lemma " + m.group(1), None
    return "?", None

def verus(path, extra, timeout):
    return sh(["verus", path, "--triggers-mode", "silent", "--output-json", "--time-expanded", "--num-threads", "4"] + extra,
              timeout, cwd=os.path.dirname(path))

def parse_json(out):
    i = out.find("{")
    if i < 0: return None
    try: return json.loads(out[i:])
    except Exception:
        try: return json.JSONDecoder().raw_decode(out[i:])[0]
        except Exception: return None

def errors_of(stderr, src, path):
    """[(message, line, function)] of the verifier's errors"""
    lines = src.split("\n"); res = []
    cur = None
    for l in stderr.split("\n"):
        m = re.match(r"^error(?:\[\w+\])?: (.*)", l)
        if m: cur = m.group(1); continue
        m = re.match(r"^\s*--> (\S+?):(\d+):(\d+)", l)
        if m and cur is not None:
            if os.path.basename(m.group(1)) == os.path.basename(path):
                n = int(m.group(2))
                res.append({"obligation": cur, "line": n, "text": lines[n - 1].strip()[:200] if n <= len(lines) else "", "function": owner(lines, n)[0]})
                cur = None
    return res

TRUST = re.compile(r"external_body|assume_specification|\bassume\s*\(|\badmit\s*\(|verifier::external|axiom fn|\buninterp\b")

def run_unit(vx, unit, bless=False):
    d = os.path.join(B, "l1"); os.makedirs(d, exist_ok=True)
    tm = os.path.join(V, "contracts", unit + ".vrs")
    rs, mp = os.path.join(d, unit + ".rs"), os.path.join(d, unit + ".json")
    r = {"unit": unit, "status": "undecided", "why": "", "functions": [], "failed": [], "obligations": 0, "discharged": 0,
         "solver_s": 0.0, "trusted": [], "canaries": 0, "canaries_failed": 0, "wall_s": 0.0}
    t = time.time()
    rc, o, e = sh([vx, REPO, tm, rs, mp], 120)
    if rc != 0:
        r["why"] = "extractor: " + e.strip()[-400:]; return r
    m = json.load(open(mp)); r["functions"] = m["functions"]
    src = open(rs).read()
    for i, l in enumerate(src.split("\n")):
        if TRUST.search(l) and not l.strip().startswith("//") and "vx_canary" not in l:
            nxt = " ".join(x.strip() for x in src.split("\n")[i:i + 2])
            r["trusted"].append(re.sub(r"\s+", " ", nxt)[:160])
    if m["extraction_errors"]:
        r["why"] = "extraction: " + "; ".join(m["extraction_errors"])[:600]; return r
    log = os.path.join(d, unit + ".log"); shutil.rmtree(log, ignore_errors=True)
    rlimit = "60" if TIER == "quick" else "200"
    rc, o, e = verus(rs, ["--rlimit", rlimit, "--multiple-errors", "8", "--log-dir", log, "--log", "air", "-V", "spinoff-all"], 400)
    j = parse_json(o)
    n = 0
    if os.path.isdir(log):
        for f in os.listdir(log):
            if f.endswith(".air"):
                inside = False
                for l in open(os.path.join(log, f), errors="replace"):
                    if l.startswith("(check-valid"): inside = True
                    elif l.startswith("("): inside = False
                    elif inside and re.match(r"^\s+\(assert\b", l): n += 1
        shutil.rmtree(log, ignore_errors=True)
    r["obligations"] = n
    r["wall_s"] = round(time.time() - t, 2)
    if j is None or "verification-results" not in j:
        r["why"] = "verifier gave no result: " + e[-600:]; return r
    vr = j["verification-results"]
    try:
        r["solver_s"] = round(j["times-ms"]["smt"]["total"] / 1000.0, 3)
        r["per_function"] = [{"function": x["function"], "ms": x["time"], "ok": x["success"]}
                             for mt in j["times-ms"]["smt"]["smt-run-module-times"] for x in mt.get("function-breakdown", [])]
    except Exception: r["per_function"] = []
    errs = errors_of(e, src, rs)
    ok = vr.get("success")
    if not ok and not vr.get("encountered-vir-error") and vr.get("errors", 0) > 0:
        # a second attempt with another solver configuration: functions are checked independently, so one that is accepted in
        # either attempt is proved; only what fails in both counts as failed
        rc2, o2, e2 = verus(rs, ["--rlimit", "200", "--multiple-errors", "8"], 250)
        j2 = parse_json(o2)
        if j2 and "verified" in j2.get("verification-results", {}):
            f2 = {x["function"] for x in errors_of(e2, src, rs)}
            keep = [x for x in errs if x["function"] in f2]
            r["second_attempt"] = sorted({x["function"] for x in errs} - f2)
            if not keep and all(x["function"] for x in errs): ok = True
            errs = keep
            if not any("esource limit" in x["obligation"] for x in errs): e = e.replace("esource limit", "esource-limit (first attempt)")
    if ok:
        if n == 0 or vr.get("verified", 0) == 0:
            r["why"] = "no obligations generated"; return r
        r["status"] = "proved"; r["discharged"] = n; r["verified_items"] = vr["verified"] + vr.get("errors", 0)
    elif vr.get("encountered-vir-error") or "verified" not in vr or (vr.get("errors", 0) == 0):
        r["why"] = "not accepted by the verifier's front end: " + "; ".join(x["obligation"] + " @ " + x["text"] for x in errs[:3])[:500]
        if not errs: r["why"] += e[-400:]
        return r
    else:
        bad = [x for x in errs if "rlimit" not in x["obligation"].lower() and "resource limit" not in x["obligation"].lower() and not x["obligation"].startswith("aborting")]
        lim = [x for x in errs if x not in bad and not x["obligation"].startswith("aborting")]
        r["failed"] = bad
        r["discharged"] = max(0, n - len(bad))
        if "esource limit" in e and not bad: r["why"] = "resource limit: " + "; ".join(x["function"] for x in lim)[:300]; return r
        r["status"] = "failed"
        r["raw"] = e[-6000:]
    return r

def vacuity(vx, unit, r):
    d = os.path.join(B, "l1"); rs, mp = os.path.join(d, unit + "_vac.rs"), os.path.join(d, unit + "_vac.json")
    rc, o, e = sh([vx, REPO, os.path.join(V, "contracts", unit + ".vrs"), rs, mp], 120, {"VX_CANARY": "1"})
    if rc != 0: return
    src = open(rs).read()
    want = set(re.findall(r"assert\(vx_canary\((\d+)\)\)", src))
    rc, o, e = verus(rs, ["--rlimit", "20", "--multiple-errors", "40", "--no-auto-recommends-check"], 700)
    lines = src.split("\n"); got = set()
    for m in re.finditer(r"--> \S+?:(\d+):", e):
        k = re.search(r"vx_canary\((\d+)\)", lines[int(m.group(1)) - 1])
        if k: got.add(k.group(1))
    if want - got:
        # a resource limit is not a proof of the canary either: once more with the other solver configuration
        rc, o, e2 = verus(rs, ["--rlimit", "60", "--multiple-errors", "40", "--no-auto-recommends-check", "-V", "spinoff-all"], 300)
        limited = {x["function"] for x in errors_of(e2, src, rs) if "esource limit" in x["obligation"]}
        for m in re.finditer(r"--> \S+?:(\d+):", e2):
            k = re.search(r"vx_canary\((\d+)\)", lines[int(m.group(1)) - 1])
            if k: got.add(k.group(1))
        for i, l in enumerate(lines):
            k = re.search(r"assert\(vx_canary\((\d+)\)\)", l)
            if k and k.group(1) not in got and owner(lines, i + 1)[0] in limited: got.add(k.group(1))
    r["canaries"], r["canaries_failed"] = len(want), len(got)
    r["canary_missing"] = sorted(want - got, key=int)

def shapes_path(unit): return os.path.join(V, "contracts", unit + ".shapes.json")

def main():
    prop = sys.argv[1]
    if prop == "--setup":
        build_vx(); paths, bad = build_native(sorted({s for P in PROPS.values() for s in P.get("native", [])}))
        print("built", sorted(paths), bad or ""); sys.exit(0)
    bless = "--bless" in sys.argv
    P = PROPS[prop]
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(V, "replay"), exist_ok=True)
    vx = build_vx()
    units = P.get("units", [])
    with ThreadPoolExecutor(6) as ex:
        fb = ex.submit(build_native, P.get("native", []))
        vac = {u: {} for u in units}
        fv = [ex.submit(vacuity, vx, u, vac[u]) for u in units]
        l1 = list(ex.map(lambda u: run_unit(vx, u), units))
        for f in fv: f.result()
    native, nbad = fb.result()
    nmode = "; ".join("%s: %s" % x for x in nbad.items()) or "all suites built with --cfg rawloader_verif"
    if bless:
        for r in l1:
            json.dump({f["path"]: [f["shape"], f["calls"]] for f in r["functions"]}, open(shapes_path(r["unit"]), "w"), indent=0, sort_keys=True)
    # vacuity: only meaningful for what was proved
    for r in l1:
        if r["status"] == "proved": r.update(vac[r["unit"]])
    for r in l1:
        if r["status"] == "proved" and r.get("canary_missing"):
            r["status"] = "undecided"; r["why"] = "vacuous: canaries %s were provable" % r["canary_missing"]
    # executable contracts
    nat = []
    failing = any(r["status"] == "failed" for r in l1)
    undecided = [r for r in l1 if r["status"] == "undecided"]
    if True:
        def one(s):
            if s not in native: return {"suite": s, "cases": 0, "distinct": 0, "samples": [], "violations": [], "error": nbad[s][-600:]}
            out = os.path.join(B, "nat-%s.json" % s)
            if os.path.exists(out): os.remove(out)
            secs = (20 if TIER == "quick" else 300) * (3 if (failing or undecided) else 1)
            rc, o, e = sh([native[s], "--seed", str(SEED), "--secs", str(secs), "--tier", TIER, "--out", out, "--repo", REPO], secs + 200)
            if os.path.exists(out):
                j = json.load(open(out)); j["suite"] = s; return j
            return {"suite": s, "cases": 0, "distinct": 0, "samples": [], "violations": [], "error": "rc=%s %s" % (rc, e[-800:])}
        with ThreadPoolExecutor(3) as ex: nat = list(ex.map(one, P.get("native", [])))
    # known findings
    known = []
    kf = os.path.join(V, "known-findings.jsonl")
    if os.path.exists(kf):
        for l in open(kf):
            l = l.strip()
            if l:
                k = json.loads(l)
                if k.get("property") == prop and k.get("status") == "known": known.append(k)
    viol, hits = [], []
    for n in nat:
        for v in n.get("violations", []):
            k = [x for x in known if x["match"] == v.get("key")]
            (hits if k else viol).append((n["suite"], v))
    for s, v in hits[:20]: print("KNOWN-FINDING: property=%s %s" % (prop, v.get("what", "")[:200]))
    # verdict
    alarms = []
    for r in l1:
        if r["status"] != "failed": continue
        base = json.load(open(shapes_path(r["unit"]))) if os.path.exists(shapes_path(r["unit"])) else {}
        now = {f["path"]: [f["shape"], f["calls"]] for f in r["functions"]}
        for x in r["failed"]:
            f = x["function"]
            x["same_structure"] = f in base and base[f] == now.get(f)
            if x["same_structure"]: alarms.append((r, x))
    # an error in a helper can surface as failed obligations elsewhere; structure must be unchanged in the whole unit to alarm
    ret = 0
    rp = os.path.join(V, "replay", "%s.json" % prop)
    if viol:
        json.dump({"property": prop, "kind": "counterexample on the real code", "violations": [dict(v, suite=s) for s, v in viol[:20]],
                   "failed_obligations": [x for r in l1 for x in r["failed"]][:20],
                   "replay_cmd": "cd /verif && VERIF_SEED=%d VERIF_TIER=%s ./check.py %s   (or .build/native/debug/<suite> --seed %d --tier %s)" % (SEED, TIER, prop, SEED, TIER)}, open(rp, "w"), indent=1)
        for s, v in viol[:5]: print("  %s: %s" % (s, v.get("what", "")[:300]))
        for r in l1:
            for x in r["failed"][:4]: print("  failed obligation in %s: %s | %s" % (x["function"], x["obligation"], x["text"]))
        print("VIOLATION property=%s replay=%s" % (prop, rp)); ret = 1
    elif alarms:
        json.dump({"property": prop, "kind": "failed obligation, no failing input found",
                   "failed_obligations": [x for _, x in alarms], "verifier_output": [r.get("raw", "") for r in l1 if r["status"] == "failed"]},
                  open(rp, "w"), indent=1)
        for r, x in alarms[:6]: print("  failed obligation in %s: %s | %s" % (x["function"], x["obligation"], x["text"]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp)); ret = 1
    for r in l1:
        if r["status"] == "undecided": print("undecided (bounded stand-in used): unit %s: %s" % (r["unit"], r["why"][:400]))
        elif r["status"] == "failed" and ret == 0: print("undecided (structure changed; bounded stand-in used): unit %s: %s" % (r["unit"], "; ".join(x["function"] + ": " + x["obligation"] for x in r["failed"])[:400]))
        else: print("unit %s: %s, %d/%d obligations, %.2fs solver, %d/%d canaries refuted" % (r["unit"], r["status"], r["discharged"], r["obligations"], r["solver_s"], r["canaries_failed"], r["canaries"]))
    for n in nat: print("native %s: %d cases, %d distinct non-trivial, %d violations%s" % (n["suite"], n["cases"], n["distinct"], len(n.get("violations", [])), " ERROR " + n["error"] if n.get("error") else ""))
    if units and not any(r["status"] in ("proved", "failed") for r in l1) and not any(n["cases"] for n in nat):
        print("nothing could be decided: " + nmode); ret = ret or 2
    if not units and not any(n["cases"] for n in nat):
        print("nothing could be explored: " + nmode); ret = ret or 2
    evidence(prop, P, l1, nat, nmode, ret)
    sys.exit(ret)

def evidence(prop, P, l1, nat, nmode, ret):
    ob = sum(r["obligations"] for r in l1); di = sum(r["discharged"] for r in l1 if r["status"] != "undecided")
    trusted = []
    for r in l1:
        for t in r["trusted"]:
            if t not in trusted: trusted.append(t)
    cov = {
        "obligations": ob, "discharged": di,
        "checker_cmd": "vx /repo contracts/<unit>.vrs && verus <unit>.rs (units: %s)" % ", ".join(P.get("units", [])),
        "trusted_base": trusted + P.get("assume", []),
        "backend": "Verus 0.2026.09.13 (Z3)",
        "solver_s": round(sum(r["solver_s"] for r in l1), 3),
        "functions_under_contract": [f["path"] for r in l1 for f in r["functions"]],
        "units": [{k: r.get(k) for k in ("unit", "status", "why", "obligations", "discharged", "solver_s", "wall_s", "canaries", "canaries_failed", "failed")} for r in l1],
        "bounded_standins": P.get("bounded", []),
        "native_mode": nmode,
        "evaluations": sum(n["cases"] for n in nat), "distinct_nontrivial": sum(n["distinct"] for n in nat),
        "rule": P.get("rule", "executable contracts on seeded inputs; a case is non-trivial when its expected output is not all equal"),
        "samples": [s for n in nat for s in n.get("samples", [])][:12],
        "native": [{k: n.get(k) for k in ("suite", "cases", "distinct", "error", "parts")} for n in nat],
    }
    if P["level"] == "other": cov["explanation"] = P.get("explanation", "")
    ev = {"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": P["level"], "coverage": cov,
          "assumptions": P.get("assume", []) + trusted, "wall_s": round(time.time() - T0, 2), "violations": 1 if ret == 1 else 0}
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)

if __name__ == "__main__": main()
