#!/usr/bin/env python3
"""Decide one property of /repo's current working tree.

  check.py <PROPERTY> [--tier quick|thorough]

1. Every Verus unit of the property is regenerated from /repo's sources (tools/vex splices the contracts of units/*.vspec onto the
   text of the real functions) and handed to Verus.  All obligations accepted: the property is proved by this run.
2. In parallel the real crate is built with its verification hooks and the property's executable oracle searches for a failing input:
   it supplies the counterexample when an obligation is rejected, it is the labelled bounded stand-in when the unit cannot be
   regenerated (anchor lost, construct out of the verifier's reach, resource limit), and it covers the trusted base otherwise.
3. Vacuity probes: for every contracted function a copy of the unit carries an assertion that must FAIL at its start, inside each of
   its loops and at its end; a probe that is accepted means a contradictory precondition or invariant.

Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=<id> replay=<path>[ no-failing-input-found]".  Exit 2: the check
itself is broken.
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
VERUS = shutil.which("verus") or "/opt/veriftools/verus/verus"
VEX = VERIF + "/tools/vex/target/release/vex"
sys.path.insert(0, VERIF + "/tools")
sys.dont_write_bytecode = True
import literals
UNITS = json.load(open(VERIF + "/units/units.json"))

# messages with which Verus rejects an obligation (anything else is: not decided)
REJECTED = [
    "postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed", "assertion not satisfied",
    "possible arithmetic underflow/overflow", "possible division by zero", "decreases not satisfied", "possible bit shift",
    "loop ensures not satisfied", "unable to prove", "could not prove", "constructed value may fail to meet its declared type invariant",
    "requires not satisfied", "ensures not satisfied", "possible truncation",
]


def sh(cmd, cwd=None, env=None, timeout=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode("utf-8", "replace"), (x.stderr or b"").decode("utf-8", "replace")


def cargo_env():
    # as /opt/vp/env.sh sets it for the project's own build
    return {"PATH": os.environ.get("PATH", "") + ":/usr/local/bin:/root/.cargo/bin", "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu",
            "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never", "RUSTC_WRAPPER": "", "CARGO_INCREMENTAL": "1",
            "CARGO_PROFILE_DEV_DEBUG": "line-tables-only"}


def build_replay(out):
    """returns (path of the harness or None, note)"""
    cwd = VERIF + "/replay"
    fp = cwd + "/target/debug/.fingerprint"
    # never trust file times of the code under test
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith("starry-"):
                shutil.rmtree(fp + "/" + d, ignore_errors=True)
    env = cargo_env()
    env["RUSTFLAGS"] = "--cfg starry_verif"
    rc, _, err = sh(["cargo", "build", "--offline", "--bin", "replay"], cwd=cwd, env=env, timeout=600)
    if rc == 0:
        return cwd + "/target/debug/replay", "built with hooks"
    open(out + "/build_hooks.log", "w").write(err)
    # the hooks no longer fit the code: the public API is still there
    env["RUSTFLAGS"] = ""
    rc, _, err = sh(["cargo", "build", "--offline", "--bin", "replay", "--no-default-features"], cwd=cwd, env=env, timeout=600)
    if rc == 0:
        return cwd + "/target/debug/replay", "built without hooks (they no longer fit the code)"
    open(out + "/build_nohooks.log", "w").write(err)
    return None, "harness does not build against the code: " + err.strip()[-400:]


def vex(unit, out, probe=None):
    tag = unit + ("_probe_" + probe if probe else "")
    rs, js = "%s/%s.rs" % (out, tag), "%s/%s.json" % (out, tag)
    rc, so, se = sh([VEX, REPO + "/src", "%s/units/%s.vspec" % (VERIF, unit), rs, js] + ([probe] if probe else []), timeout=120)
    info = {}
    if os.path.exists(js):
        try:
            info = json.load(open(js))
        except ValueError:
            pass
    return rc, rs, info, (so + se).strip()


def verus(rs, flags=()):
    t = time.time()
    cmd = [VERUS, rs, "--output-json", "--time-expanded", "--multiple-errors", "40"] + list(flags)
    rc, so, se = sh(cmd, cwd=os.path.dirname(rs), timeout=700)
    try:
        j = json.loads(so[so.index("{"):])
    except ValueError:
        j = {}
    return rc, j, se, time.time() - t, cmd


def diagnostics(err):
    """[(message, line, text)] of the errors in rustc's human-readable output"""
    res = []
    for block in re.split(r"\n(?=error)", "\n" + err):
        block = block.strip("\n")
        if not block.startswith("error"):
            continue
        head = block.split("\n", 1)[0]
        msg = re.sub(r"^error(\[\w+\])?: ", "", head)
        if msg.startswith("aborting due to") or "verification results" in msg:
            continue
        m = re.search(r"^ *--> [^\n]*?:(\d+):\d+", block, re.M)
        res.append((msg, int(m.group(1)) if m else 0, block))
    return res


def function_at(info, line):
    for f in info.get("functions", []):
        a, b = f["out_lines"]
        if a <= line <= b:
            return f
    return None


def lemma_at(rs, line):
    name = "?"
    for i, l in enumerate(open(rs), 1):
        m = re.search(r"\bfn\s+(\w+)", l)
        if m and i <= line:
            name = m.group(1)
    return name


def counts(scope, msg, text, fn):
    """is a rejected obligation one of this property's?  A unit is shared by properties; a property names its functions in it (a regular
    expression) and, for safety alone, the kinds of obligation.  None: every obligation of the unit."""
    if not scope:
        return True
    if isinstance(scope, str):
        scope = {"fn": scope}
    if fn is not None and not re.search(scope.get("fn", ""), fn):
        return False
    if "kind" in scope and not re.search(scope["kind"], msg):
        return False
    return not ("not_text" in scope and re.search(scope["not_text"], text))


def run_unit(unit, flags, out, scope=None):
    """one unit: {status: proved|rejected|undecided, ...}"""
    t0 = time.time()
    rc, rs, info, msg = vex(unit, out)
    r = {"unit": unit, "rs": rs, "info": info, "wall": 0.0, "obligations": 0, "discharged": 0, "smt_ms": 0, "failed": [], "elsewhere": [], "reason": "", "cmd": ""}
    if rc != 0:
        r.update(status="undecided", reason="extraction: " + (msg or "exit %d" % rc))
        return r
    rc, j, err, wall, cmd = verus(rs, flags)
    open(rs + ".verus.log", "w").write(err)
    r["cmd"] = " ".join(cmd)
    vr = j.get("verification-results", {})
    r["wall"] = time.time() - t0
    try:
        r["smt_ms"] = j["times-ms"]["smt"]["total"]
    except (KeyError, TypeError):
        pass
    diag = diagnostics(err)
    bad = [d for d in diag if any(k in d[0] for k in REJECTED)]
    n, e = vr.get("verified", 0), vr.get("errors", 0)
    r["obligations"], r["discharged"] = n + e, n
    if rc == 0 and n > 0 and e == 0 and not diag:
        r["status"] = "proved"
    elif bad and not vr.get("encountered-vir-error", True):
        r["status"] = "rejected"
        for msg, line, text in bad:
            f = function_at(info, line)
            where = "%s (%s:%s)" % (f["fn"], f["file"], f["src_lines"][0]) if f else "lemma %s of units/%s.vspec" % (lemma_at(rs, line), unit)
            r["failed" if counts(scope, msg, text, f["fn"] if f else None) else "elsewhere"].append({"obligation": "%s in %s" % (msg, where), "text": text})
        if not r["failed"]:
            # contracts that this property's functions rely on may be broken: not proved, and not this property's violation either
            r["status"] = "undecided"
            r["reason"] = "only obligations outside this property's scope are rejected: " + "; ".join(x["obligation"] for x in r["elsewhere"])[:600]
    else:
        r["status"] = "undecided"
        r["reason"] = "; ".join(d[0] for d in diag)[:600] or "verus exit %d, %d obligations" % (rc, n + e)
    return r


def run_probe(unit, flags, out, probe):
    """(planted, rejected, lines) of the vacuity probe"""
    rc, rs, info, msg = vex(unit, out, probe)
    if rc != 0:
        return None
    # giving up on a planted falsehood is not accepting it: the default limit is enough here
    text = re.sub(r"#\[verifier::rlimit\(\d+\)\]", "", open(rs).read())
    open(rs, "w").write(text)
    planted = [i for i, l in enumerate(text.split("\n"), 1) if "/*PROBE*/" in l]
    if not planted:
        return 0, 0, []
    _, j, err, _, _ = verus(rs, flags)
    hit = set()
    for msg, line, text in diagnostics(err):
        for m in re.finditer(r"(?:--> [^\n]*?:(\d+):\d+|^ *(\d+) \|[^\n]*/\*PROBE\*/)", text, re.M):
            hit.add(int(m.group(1) or m.group(2)))
        if "rlimit" in msg:  # the solver gave up on the planted falsehood: not accepted
            f = function_at(info, line) or next((g for g in info.get("functions", []) if 0 <= g["out_lines"][0] - line <= 4), None)
            if f:
                hit.update(l for l in planted if f["out_lines"][0] <= l <= f["out_lines"][1])
    missed = [l for l in planted if l not in hit]
    names = [(function_at(info, l) or {"fn": "?"})["fn"] for l in missed]
    return len(planted), len(planted) - len(missed), names


def discharged_by():
    """contracted function of the code under test -> the units that prove it (the contract text is the same wherever it is used)"""
    res = {}
    tmp = "%s/out/map%d" % (VERIF, os.getpid())
    os.makedirs(tmp, exist_ok=True)

    def one(v):
        u = v[:-6]
        rc, _, _ = sh([VEX, REPO + "/src", "%s/units/%s" % (VERIF, v), "%s/%s.rs" % (tmp, u), "%s/%s.json" % (tmp, u)], timeout=120)
        try:
            return u, json.load(open("%s/%s.json" % (tmp, u)))["functions"] if rc == 0 else []
        except (OSError, ValueError, KeyError):
            return u, []
    used = {u for p in UNITS["properties"].values() for u in p["units"]}
    with cf.ThreadPoolExecutor(max_workers=8) as pool:
        for u, fs in pool.map(one, sorted(u + ".vspec" for u in used)):
            for f in fs:
                if not f.get("extern"):
                    res.setdefault("%s %s" % (f["file"], f["fn"]), []).append(u)
    shutil.rmtree(tmp, ignore_errors=True)
    return res


def assumed(rs, info):
    """names of everything the unit assumes: external_body functions, axioms, uninterpreted functions, assume/admit"""
    text = open(rs).read()
    items = []
    ours = [f["out_lines"] for f in info.get("functions", []) if f.get("extern")]
    for m in re.finditer(r"external_body\)?\]?[^;{}]*?\b(fn|struct)\s+(\w+)", text):
        line = text[:m.end()].count("\n") + 1
        if any(a <= line <= b for a, b in ours):
            continue  # a function of /repo: its contract is discharged in another unit, see callee_contracts_used
        items.append(("external_body " + m.group(1), m.group(2)))
    for m in re.finditer(r"\b(?:broadcast )?(?:axiom|proof axiom) fn (\w+)", text):
        items.append(("axiom", m.group(1)))
    for m in re.finditer(r"\buninterp spec fn (\w+)", text):
        items.append(("uninterpreted", m.group(1)))
    for m in re.finditer(r"\b(assume|admit)\s*\(", text):
        items.append(("ASSUME", "line %d" % (text[:m.start()].count("\n") + 1)))
    cut = text.rfind("verus! { broadcast use lem::")
    unit = text[cut:]
    used, seen = [], set()
    for k, n in items:
        if (k, n) in seen:
            continue
        seen.add((k, n))
        # an item nothing refers to is not part of what the proof rests on
        if k == "ASSUME" or k == "axiom" or len(re.findall(r"\b%s\b" % re.escape(n), unit)) > len(re.findall(r"\bfn %s\b" % re.escape(n), unit)):
            used.append("%s %s" % (k, n))
    return used


def known_findings(pid):
    res = []
    p = VERIF + "/KNOWN_FINDINGS.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                res.append(m.group(2).strip())
    return res


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    cfg = UNITS["properties"][pid]
    out = "%s/out/%s" % (VERIF, pid)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    secs = cfg.get("secs", 10) if tier == "quick" else cfg.get("thorough_secs", 240)

    if not os.path.exists(VEX):
        rc, _, err = sh(["cargo", "build", "--offline", "--release"], cwd=VERIF + "/tools/vex", env=cargo_env(), timeout=600)
        if rc != 0:
            print("cannot build the extractor:\n" + err[-2000:])
            return 2

    pool = cf.ThreadPoolExecutor(max_workers=8)
    build = pool.submit(build_replay, out)
    flags = {u: UNITS["flags"].get(u, []) for u in cfg["units"]}
    proofs = {u: pool.submit(run_unit, u, flags[u], out, cfg.get("scope", {}).get(u)) for u in cfg["units"]}
    probes = {(u, p): pool.submit(run_probe, u, flags[u], out, p) for u in cfg["units"] for p in ("start", "loop", "end") if cfg.get("probes", True)}
    if tier == "thorough":
        # the same obligations under other solver seeds: an accepted proof must not depend on luck (reported, not deciding)
        extra = {(u, s): pool.submit(verus_seed, u, flags[u], out, s) for u in cfg["units"] for s in (7, 23)}
    results = {u: f.result() for u, f in proofs.items()}
    probe_res = {k: f.result() for k, f in probes.items()}
    binary, build_note = build.result()

    # -- bounded search on the real code
    search = None
    replay = "%s/%s.case" % (out, pid)
    if binary:
        rep = out + "/search.json"
        env = {"TMPDIR": out}
        hints = literals.new(REPO)
        if hints:
            open(out + "/hints", "w").write("\n".join(hints) + "\n")
            env["REPLAY_DICT"] = out + "/hints"
        rc, _, err = sh([binary, "search", pid, str(seed), str(secs), tier, rep, replay], cwd=out, env=env, timeout=780)
        try:
            j = json.load(open(rep))
        except (OSError, ValueError):
            j = {}
        search = {"rc": rc, "report": j, "err": err[-800:]}
        # a counterexample must fail again on its own
        if rc == 1 and os.path.exists(replay):
            again = [sh([binary, "run", pid, replay], cwd=out, env=env, timeout=60)[0] for _ in range(2)]
            if 1 not in again:
                search["rc"] = 1 if "did not come back" in j.get("failure", "") else 3
        elif rc == 101 or rc < 0:
            # the code took the whole process down (abort, stack overflow)
            search["rc"] = 4
    status = [r["status"] for r in results.values()]
    rejected = [f for r in results.values() for f in r["failed"]]
    undecided = ["%s: %s" % (r["unit"], r["reason"]) for r in results.values() if r["status"] == "undecided"]
    vacuous = ["%s/%s: %s" % (u, p, ", ".join(v[2])) for (u, p), v in probe_res.items()
               if v and v[2] and results[u]["status"] == "proved"]
    proved = bool(status) and all(s == "proved" for s in status) and not vacuous
    found = bool(search and search["rc"] == 1)

    # -- evidence
    functions, callee, lowerings, trusted = [], [], {}, []
    for r in results.values():
        if r["info"]:
            functions += ["%s:%s %s" % (f["file"], f["src_lines"][0], f["fn"]) for f in r["info"].get("functions", []) if not f.get("extern")]
            callee += ["%s:%s %s" % (f["file"], f["src_lines"][0], f["fn"]) for f in r["info"].get("functions", []) if f.get("extern")]
            for k, v in (r["info"].get("lowerings") or {}).items():
                lowerings[k] = lowerings.get(k, 0) + (v if isinstance(v, int) else len(v))
        if os.path.exists(r["rs"]):
            trusted += assumed(r["rs"], r["info"])
    trusted = sorted(set(trusted))
    rep = (search or {}).get("report", {})
    by = discharged_by()
    mine = set(cfg["units"])
    callees = {}
    for c in sorted(set(callee) - set(functions)):
        us = by.get(re.sub(r":\d+ ", " ", c, count=1), [])
        callees[c] = ("discharged by this check: " if mine & set(us) else "discharged by unit ") + ", ".join(us) if us else "ASSUMED"
    cov = {
        "obligations": sum(r["obligations"] for r in results.values()),
        "discharged": sum(r["discharged"] for r in results.values()),
        "checker_cmd": "; ".join(r["cmd"] for r in results.values() if r["cmd"]) or "none",
        "trusted_base": ["Verus 0.2026.09.13 and its Z3 back end", "tools/vex extraction and its counted lowerings"] + trusted,
        "back_end": "Verus / Z3 (SMT)",
        "units": {r["unit"]: {"status": r["status"], "reason": r["reason"], "obligations": r["obligations"], "discharged": r["discharged"],
                              "smt_ms": r["smt_ms"], "wall_s": round(r["wall"], 2), "failed": [f["obligation"] for f in r["failed"]],
                              "scope": cfg.get("scope", {}).get(r["unit"], "every obligation of the unit"), "rejected_outside_scope": [f["obligation"] for f in r["elsewhere"]]} for r in results.values()},
        "functions_under_contract": sorted(set(functions)),
        "callee_contracts_used": callees,
        "extraction_lowerings": lowerings,
        "vacuity_probes": {"%s/%s" % k: ("%d planted, %d rejected as they must be" % v[:2] if v else "not run") for k, v in probe_res.items()},
        "proved_by_this_run": proved,
        "bounded_search_on_real_code": {"role": "counterexample finder and cross-check of the trusted base; bounded, never counted as proved",
                                        "build": build_note, "exit": search["rc"] if search else None},
    }
    if rep:
        cov.update(evaluations=rep["evaluations"], distinct_nontrivial=rep["distinct_nontrivial"], rule=rep["rule"], samples=rep["samples"])
        cov["bounded_search_on_real_code"].update(enumerated=rep["enumerated"], wall_s=rep["wall_s"])
    if tier == "thorough":
        cov["other_solver_seeds"] = {"%s seed %d" % k: f.result() for k, f in extra.items()}
    level = "proof" if proved else "exploration"
    if level == "exploration":
        cov.setdefault("evaluations", 0); cov.setdefault("distinct_nontrivial", 0); cov.setdefault("rule", "no search ran"); cov.setdefault("samples", [])
        cov["note"] = "BOUNDED: not every obligation could be generated or accepted on this tree; nothing here is counted as proved"
    violation = None
    if found:
        violation = (replay, "")
    elif search and search["rc"] == 4:
        p = "%s/%s.crash" % (out, pid)
        open(p, "w").write("# property %s\n# the process running the real code was killed (abort or stack overflow)\n%s\n" % (pid, search["err"]))
        violation = (p, "")
    elif rejected and search is not None or rejected:
        p = "%s/%s.obligation" % (out, pid)
        with open(p, "w") as f:
            f.write("# property %s: Verus rejects an obligation generated from the current source\n" % pid)
            for x in rejected:
                f.write("\nFAILED OBLIGATION: %s\n%s\n" % (x["obligation"], x["text"]))
            f.write("\n# bounded search for a failing input: %s\n" % (json.dumps(rep)[:2000] if rep else build_note))
        violation = (p, " no-failing-input-found")
    assumptions = list(cfg.get("assumptions", [])) + UNITS["assumptions"] + ["undecided unit: " + u for u in undecided] + ["contract of %s is assumed" % k for k, v in callees.items() if v == "ASSUMED"]
    elsewhere = sorted({u for v in callees.values() if v.startswith("discharged by unit ") for u in v[19:].split(", ")} - mine)
    if elsewhere:
        assumptions.append("contracts of callees in /repo that other properties' checks discharge (units %s), listed under callee_contracts_used" % ", ".join(elsewhere))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    json.dump(ev, open("%s/evidence/%s.json" % (VERIF, pid), "w"), indent=1, ensure_ascii=False)

    for f in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, f))
    for u in undecided:
        print("undecided, bounded search stands in: " + u)
    for x in rejected:
        print("rejected obligation: " + x["obligation"])
    if found:
        print("counterexample on the real code: " + str(rep.get("failure"))[:800])
    if violation:
        print("VIOLATION property=%s replay=%s%s" % (pid, violation[0], violation[1]))
        return 1
    for v in vacuous:
        print("VACUOUS contract, not counted as proved: " + v)
    if not proved and search is None:
        # nothing could be explored: the code no longer fits any of the machinery
        print("nothing could be explored: " + build_note)
        return 2
    if search and search["rc"] not in (0, 3):
        print("search failed: exit %d %s" % (search["rc"], search["err"]))
        return 2 if not proved else 0
    print("property %s: %s; %d/%d obligations discharged over %d functions; %d executions of the real code; %.1f s" % (
        pid, "proved" if proved else "BOUNDED", cov["discharged"], cov["obligations"], len(functions), rep.get("evaluations", 0), time.time() - t0))
    return 0


def verus_seed(unit, flags, out, seed):
    out = "%s/seed%d" % (out, seed)
    os.makedirs(out, exist_ok=True)
    rc, rs, info, msg = vex(unit, out)
    if rc != 0:
        return "extraction: " + msg
    rc, j, err, wall, _ = verus(rs, list(flags) + ["--smt-option", "smt.random_seed=%d" % seed])
    vr = j.get("verification-results", {})
    return "%d verified, %d errors, %.1f s" % (vr.get("verified", 0), vr.get("errors", 0), wall)


if __name__ == "__main__":
    sys.exit(main())
