#!/usr/bin/env python3
"""check.py ID: decides one property. Exit 0 held, exit 1 violated."""
import importlib.util, json, os, re, sys, time, traceback, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rs import *
from unit import *
import harness as H
from concurrent.futures import ThreadPoolExecutor


def load_unit(pid):
    p = os.path.join(VERIF, "units", pid.lower() + ".py")
    spec = importlib.util.spec_from_file_location("unit_" + pid, p)
    m = importlib.util.module_from_spec(spec)
    sys.path.insert(0, os.path.join(VERIF, "units"))
    spec.loader.exec_module(m)
    return m


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\w+) \[(.+?)\] (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    work = os.path.join(BUILD, "run", pid)
    os.makedirs(work, exist_ok=True)
    mod = load_unit(pid)
    log = lambda s: print(s, flush=True)

    # 1. proof --------------------------------------------------------------------------------
    status, why, files, fns = "proved", "", [], []
    u = None
    failures = []
    try:
        u = Unit(pid)
        mod.verus(u)
        for vf in u.files:
            path = os.path.join(work, vf.name + ".rs")
            open(path, "w").write(vf.text())
            res = run_verus(path, rlimit=getattr(mod, "RLIMIT", 30))
            if res["status"] in ("rlimit", "timeout"):
                res = run_verus(path, rlimit=5 * getattr(mod, "RLIMIT", 30), timeout=240)
            elif res["status"] == "failed":
                # a second opinion, so that the solver's luck is not taken for a violation
                r2 = run_verus(path, rlimit=2 * getattr(mod, "RLIMIT", 30), timeout=200, extra=("--smt-option", "smt.random_seed=7"))
                if r2["status"] in ("proved", "failed"):
                    res = r2
            files.append((vf, res))
            log("%s: %s %s: %d verified, %d errors, smt %d ms" % (pid, vf.name, res["status"], res["verified"], res["errors"], res["smt_ms"]))
            if res["status"] == "failed":
                fo = failed_obligations(res, vf.text())
                failures += [(vf.name, m, ln, l, enclosing_fn(vf.text(), ln)) for m, ln, l in fo]
                if status == "proved":
                    status = "failed"
            elif res["status"] != "proved":
                status, why = "undecided", "%s: %s\n%s" % (vf.name, res["status"], res["stderr"][:3000])
        # in a function the solver gave up on, no answer counts
        gave_up = {(f[0], f[4]) for f in failures if "rlimit" in f[1]}
        failures = [f for f in failures if (f[0], f[4]) not in gave_up]
        if status == "failed" and gave_up and not failures:
            status, why = "undecided", "resource limit in " + ", ".join(sorted(g[1] for g in gave_up))
        # a loop whose iterator is not the one its stand-in was written for: the proof is about other code
        if status in ("proved", "failed") and u.unfounded:
            status, why = "undecided", "no stand-in for what a loop goes over: " + "; ".join(u.unfounded)
    except Unsupported as e:
        status, why = "undecided", str(e)
    except Exception as e:  # anything unforeseen in the source shape
        status, why = "undecided", "engine: " + "".join(traceback.format_exception_only(type(e), e)) + traceback.format_exc()[-1500:]

    # 2. vacuity guard --------------------------------------------------------------------------
    probes = dict(asked=0, unreachable=[])
    if status == "proved":
        def rendered(i, k):
            pu = Unit(pid, probing=True, shard=(i, k))
            mod.verus(pu)
            return i, k, pu
        def probe(a):
            (i, k, pu), out = a, []
            for vf in pu.files:
                if not vf.probed:
                    continue
                path = os.path.join(work, vf.name + ("_probe.rs" if k == 1 else "_probe%d.rs" % i))
                open(path, "w").write(vf.text())
                res = run_verus(path, rlimit=getattr(mod, "RLIMIT", 30), errors=0)
                failing = {f["name"].split("::")[-1] for f in res["functions"] if not f["ok"]}
                for ln in re.findall(r"--> [^:\n]+:(\d+):", res["stderr"]):
                    failing.add(enclosing_fn(vf.text(), int(ln)))
                out.append((len(vf.probed), sorted(vf.probed - failing)))
            return out
        shards = min(6, 1 + u.nprobe // 50)
        with ThreadPoolExecutor(shards) as pool:
            for out in pool.map(probe, [rendered(i, shards) for i in range(shards)]):
                for n, bad in out:
                    probes["asked"] += n
                    probes["unreachable"] += bad
        if probes["unreachable"]:
            status, why = "undecided", "preconditions unsatisfiable for " + ", ".join(probes["unreachable"])
        if sum(r["verified"] for _, r in files) == 0:
            status, why = "undecided", "no obligations generated"

    # 3. search on the real code -------------------------------------------------------------------
    budget = getattr(mod, "BUDGET", {"quick": 10, "thorough": 120})[tier]
    if status != "proved":
        budget *= 3
    search = None
    if hasattr(mod, "harness"):
        consts = sorted(H.mine_constants(mod))
        search = H.run(mod, pid, work, budget, seed, tier, consts)
        log("%s: search on the real code: %s" % (pid, search["summary"]))

    # 4. verdict ----------------------------------------------------------------------------------
    replay = os.path.join(VERIF, "replay", pid + ".txt")
    os.makedirs(os.path.dirname(replay), exist_ok=True)
    violations, known = 0, []
    out = []
    fails = list(search["fails"]) if search else []
    kf = known_findings(pid)
    for tag, text in kf:
        hit = [f for f in fails if f.startswith("[" + tag + "]")]
        fails = [f for f in fails if not f.startswith("[" + tag + "]")]
        if hit or (search and tag in search.get("known_seen", [])):
            known.append("KNOWN-FINDING: property=%s [%s] %s" % (pid, tag, text))
    rc = 0
    if fails:
        violations = len(fails)
        with open(replay, "w") as f:
            f.write("property %s\nfailing input on the real code:\n" % pid)
            f.write("\n".join(fails) + "\n\nreproduce: VERIF_SEED=%d VERIF_TIER=%s %s\n" % (seed, tier, search["cmd"]))
            f.write("\nproof status: %s %s\n" % (status, why))
            for x in failures:
                f.write("failed obligation in %s (file %s line %d): %s: %s\n" % (x[4], x[0], x[2], x[1], x[3]))
        out.append("VIOLATION property=%s replay=%s" % (pid, replay))
        rc = 1
    elif status == "failed":
        structure = list(u.structure) if u else []
        with open(replay, "w") as f:
            f.write("property %s\nproof obligations that the verifier no longer accepts (no failing input found by the search):\n" % pid)
            for x in failures:
                f.write("function %s (file %s line %d): %s: %s\n" % (x[4], x[0], x[2], x[1], x[3]))
            f.write("\nstructure: %s\n\n" % structure)
            for vf, res in files:
                f.write(res["stderr"] + "\n")
        if structure and search is not None and search["ran"]:
            # the loops no longer have the shape the invariants were written for: undecided by proof
            status, why = "undecided", "loop structure changed: " + "; ".join(structure)
        else:
            violations = len(failures) or 1
            for x in failures[:5]:
                log("failed obligation: %s in %s: %s" % (x[1], x[4], x[3]))
            out.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, replay))
            rc = 1
    if status == "undecided":
        log("%s: UNDECIDED-BY-PROOF (bounded search stands in): %s" % (pid, why[:1500]))

    # 5. evidence ----------------------------------------------------------------------------------
    oblig = sum(r["verified"] + r["errors"] for _, r in files)
    disch = sum(r["verified"] for _, r in files)
    trusted = []
    for vf, _ in files:
        t = vf.text()
        for m in re.finditer(r"(assume_specification[^\[]*\[[^\]]*\]|#\[verifier::external_body\][^{;]*|(?:broadcast )?axiom fn \w+|\badmit\(\)|\bassume\([^;]*\)|#\[verifier::external\w*\]\s*(?:struct|fn|enum|impl)?[^{;]*)", t):
            s = re.sub(r"\s+", " ", m.group(1))[:220]
            if "rt_panic" in s:
                continue
            trusted.append("%s: %s" % (vf.name, s))
    cov = dict(obligations=oblig, discharged=disch, checker_cmd=" && ".join(" ".join(r["cmd"]) for _, r in files) or "verus",
               trusted_base=trusted + ["Verus 0.2026.09.13 and its Z3", "rsx parser and extraction engine (engine/)"],
               back_end="Verus / Z3 (SMT)", proof_status=status, proof_reason=why[:2000],
               functions_under_contract=[f for vf, _ in files for f in vf.fns],
               function_results=[dict(file=vf.name, **f) for vf, r in files for f in r["functions"]],
               solver_ms=sum(r["smt_ms"] for _, r in files), verus_wall_s=round(sum(r["wall"] for _, r in files), 2),
               vacuity_probes=probes, rewrites=sorted(u.notes) if u else [], structure_changes=list(u.structure) if u else [])
    if search:
        cov["bounded_search"] = {k: search[k] for k in ("summary", "ran", "evaluations", "distinct_nontrivial", "rule", "samples", "cmd")}
        cov["evaluations"] = search["evaluations"]
        cov["distinct_nontrivial"] = search["distinct_nontrivial"]
        cov["rule"] = search["rule"]
        cov["samples"] = search["samples"]
    level = getattr(mod, "LEVEL", "proof")
    if level == "proof" and status == "undecided":
        level = "exploration" if search else "other"
    if level == "other":
        cov["explanation"] = getattr(mod, "EXPLANATION", "proof undecided on this source: " + why[:500])
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + (u.assumptions if u else []), wall_s=round(time.time() - t0, 2), violations=violations)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for k in known:
        log(k)
    for o in out:
        log(o)
    if rc == 0:
        log("%s: held (%s)" % (pid, status))
    sys.exit(rc)


main()
