#!/usr/bin/env python3
"""Decides one property of /repo's current source.

  python3 tools/check.py C07            quick unless VERIF_TIER=thorough
  python3 tools/check.py --replay FILE  runs the case a replay file names again

1. extracts the functions under contract from /repo and has Verus discharge every
   obligation generated from them (tools/vx.py, contracts/*.vrs);
2. repeats that with `assert(false)` at the start of every function: each must now fail
   (no precondition is contradictory);
3. builds /verif/replay against /repo and searches for a concrete failing input; this is
   what turns a failed obligation into an input, and the bounded stand-in for the code
   no contract reaches.
"""
import os, sys, re, json, time, threading, subprocess, fcntl, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vx
from props import PROPS

HERE = vx.HERE
WORK = os.path.join(HERE, ".work")
EVID = os.path.join(HERE, "evidence")
REPLAY_DIR = os.path.join(EVID, "replay")

def build_replay():
    """path of the vxr binary built from /repo's working tree, or an error text"""
    td = os.path.join(WORK, "target")
    os.makedirs(td, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=td, RUSTFLAGS="-Awarnings", CARGO_NET_OFFLINE="true")
    env.pop("RUSTUP_TOOLCHAIN", None)
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=os.path.join(HERE, "replay"), env=env, capture_output=True, text=True)
        if p.returncode: return None, p.stderr[-4000:]
        mine = os.path.join(WORK, f"vxr-{os.getpid()}")
        shutil.copy2(os.path.join(td, "debug", "vxr"), mine)
    return mine, None

class Search:
    def __init__(s): s.n = s.w = 0; s.samples = []; s.found = None; s.notes = []
    def run(s, vxr, pid, seed, secs):
        out = os.path.join(WORK, f"search-{os.getpid()}"); os.makedirs(out, exist_ok=True)
        try:
            p = subprocess.run([vxr, "search", pid, str(seed), str(secs), out], capture_output=True, text=True, timeout=secs + 120)
        except subprocess.TimeoutExpired:
            s.notes.append("the search did not end in time"); return
        cases = []
        for l in p.stdout.split("\n"):
            if m := re.match(r"EVALUATIONS (\d+) NONTRIVIAL (\d+)", l): s.n += int(m[1]); s.w += int(m[2])
            elif l.startswith("SAMPLE "): cases.append(l.split()[1])
            elif l.startswith("FOUND "):
                s.found = open(l.split(None, 1)[1]).read()
            elif l.startswith("CRASH "): s.notes.append("search worker died and the last cases do not reproduce it: " + l)
        if not s.samples:
            for c in cases[:2]:
                q = subprocess.run([vxr, "show", pid, c], capture_output=True, text=True, timeout=60)
                s.samples.append({"case": c, "shown": q.stdout[:2500]})
        shutil.rmtree(out, ignore_errors=True)

def vacuity(unit, workdir, r):
    """functions whose contract is contradictory: assert(false) at their start is accepted"""
    g0 = r.gen
    names = [n for n, f in g0.fns.items() if not f["external"]]
    g = vx.generate(unit, set(n for n, f in g0.fns.items() if f["external"]), reachability="*")
    v = vx.run_verus(g, workdir, "vacuity_" + os.path.splitext(os.path.basename(unit))[0], ["--multiple-errors", "1", "--rlimit", "2"], 400)
    if v["timeout"]: return None, [], "timed out"
    res = v["out"].get("verification-results", {})
    if not res.get("errors"): return None, [], "verus ended before verification: " + v["raw"][-400:]
    hit = set()
    for d in v["diags"]:
        if d.get("level") == "error":
            for (nm, kind), prim, ln, _ in vx.owners_of(g, d): hit.add(nm)
    return len(names), [n for n in names if n not in hit], None

ASSUMED = [
    "std, serde, unicode_xid and the closures an engine is given (filters, formatters, value and template functions) do what the contracts in trusted_base say",
    "machine integers are verified as machine integers: overflow, truncation and indices out of bounds are obligations; nothing is treated as mathematical",
    "floats are opaque: equality, negation, parsing and conversion are uninterpreted functions of their arguments",
    "a string is valid UTF-8 no longer than isize::MAX; allocation succeeds; the native call stack is not modelled",
    "/repo has no unsafe code (deny(unsafe_code))",
]

def main():
    if sys.argv[1] == "--replay":
        t = open(sys.argv[2]).read()
        m = re.search(r"replay with\s+vxr one (\w+) (\d+)", t)
        if not m: print(t); sys.exit(0)
        vxr, err = build_replay()
        if not vxr: print(err); sys.exit(2)
        p = subprocess.run([vxr, "one", m[1], m[2]]); os.unlink(vxr); sys.exit(p.returncode)
    pid = sys.argv[1]
    P = PROPS[pid]
    tier = "thorough" if "thorough" in (os.environ.get("VERIF_TIER"), *sys.argv[2:]) else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    for d in (WORK, EVID, REPLAY_DIR): os.makedirs(d, exist_ok=True)
    units = [os.path.join(HERE, "contracts", u) for u in P["units"]]
    secs = P.get("quick_s", 22) if tier == "quick" else P.get("thorough_s", 300)
    wd = os.path.join(WORK, f"verus-{os.getpid()}")
    res, vac, search, berr = {}, {}, Search(), [None]
    vxr = [None]

    def side():
        vxr[0], berr[0] = build_replay()
        if vxr[0]: search.run(vxr[0], pid, seed, secs)
    th = threading.Thread(target=side); th.start()
    def prove(u):
        try:
            r = vx.verify(u, wd, timeout=500)
            if r.fatal and "timed out" not in r.fatal and not r.fatal.startswith("lost anchor"):
                r = vx.verify(u, wd, timeout=500)
        except Exception as e:
            r = vx.Result(); r.fatal = f"extraction failed: {e!r}"
        res[u] = r
        if not r.fatal:
            try: vac[u] = vacuity(u, wd, r)
            except Exception as e: vac[u] = (None, [], repr(e))
    ths = [threading.Thread(target=prove, args=(u,)) for u in units]
    for t in ths: t.start()
    for t in ths: t.join()
    th.join()

    # functions this property rests on
    rel = re.compile("|".join(f"(?:{x})" for x in P.get("fns", [".*"])))
    failed, undecided, contracts, other = [], [], [], []
    obligations = discharged = ms = 0
    trusted, assumptions, lost, slow, rewr = [], ASSUMED + list(P.get("assumptions", [])), [], [], {}
    for u in units:
        r = res[u]; un = os.path.basename(u)
        if r.fatal: undecided.append({"unit": un, "why": r.fatal[:1500]}); continue
        obligations += r.obligations; discharged += r.discharged; ms += r.solver_ms
        for t in vx.trusted_scan(u):
            if t not in trusted: trusted.append(t)
        trusted += [f"std: {x}" for x in r.std if f"std: {x}" not in trusted]
        for k, v in r.gen.rewrites.items(): rewr[k] = rewr.get(k, 0) + v
        slow += [(b["function"].split("::", 1)[-1], b["time"]) for b in r.breakdown]
        for k, why in r.undecided.items(): undecided.append({"unit": un, "function": k, "why": why[:600]})
        for k, l in r.failed.items():
            if k in r.undecided: continue
            # a property of safety and termination is not broken by a different result
            mine = [x for x in l if re.search(P.get("msgs", ""), x[0])]
            (failed if rel.search(k) and mine else other).append((un, k, mine or l))
        for m, ren in r.lemma_failed: undecided.append({"unit": un, "lemma": ren[:800] or m})
        for k, f in r.gen.fns.items():
            if f["used"]: continue
            contracts.append({"function": k, "at": f"{f['file']}:{f['line']}", "status": "failed" if k in r.failed else "undecided" if k in r.undecided else "proved", "rewrites": len(f["rewrites"])})
    # a failed lemma means a definition extracted from /repo changed under it
    vacuous = [f"{os.path.basename(u)}: {n}" for u, (c, bad, why) in vac.items() for n in bad]
    if not search.found and (failed or undecided) and vxr[0]:
        search.run(vxr[0], pid, seed + 7919, 60 if tier == "quick" else 240)

    violations, rc = 0, 0
    rp = os.path.join(REPLAY_DIR, f"{pid}.txt")
    if os.path.exists(rp): os.unlink(rp)
    obl_text = "".join(f"obligation      {m} in {k}  ({un})\n{ren}\n" for un, k, l in failed for m, ren in l[:3])
    if search.found:
        open(rp, "w").write(search.found + ("\nfailed obligations\n" + obl_text if failed else "\nno obligation failed: the code at fault is under a bounded check only\n"))
        print(f"VIOLATION property={pid} replay={rp}"); violations, rc = 1, 1
    elif failed:
        open(rp, "w").write(f"property        {pid}\nno failing input found in {search.n} cases\n\n{obl_text}")
        for un, k, l in failed: print(f"failed obligation: {k}: {l[0][0]}")
        print(f"VIOLATION property={pid} replay={rp} no-failing-input-found"); violations, rc = 1, 1
    for u in undecided: print("UNDECIDED", json.dumps(u)[:400])
    if vacuous: print("VACUOUS", vacuous)
    if not vxr[0] and rc == 0 and not units:
        print("the replay crate does not build against /repo:\n" + (berr[0] or "")); rc = 2

    npr = sum(1 for c in contracts if c["status"] == "proved")
    level = P["level"] if not (undecided or vacuous) or P["level"] != "proof" else "other"
    cov = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": "; ".join(re.sub(r"\S*/\.work/\S*/", "", res[u].cmd) for u in units if res[u].cmd) or "none",
        "trusted_base": trusted + ["the extraction in tools/vx.py and the rewrites listed below", "Verus 0.2026.09.13 and Z3"],
        "back_end": "Verus / Z3", "solver_ms": ms,
        "functions_under_contract": len(contracts), "functions_proved": npr, "functions": contracts,
        "slowest": sorted(({"function": f, "ms": t} for f, t in slow), key=lambda x: -x["ms"])[:5],
        "rewrites_of_the_extracted_text": rewr,
        "vacuity_guard": {os.path.basename(u): ({"functions_with_reachable_body": c - len(b), "of": c} if c is not None else {"not_run": why}) for u, (c, b, why) in vac.items()},
        "undecided": undecided, "failed_elsewhere": [f"{k}: {l[0][0]}" for _, k, l in other],
        "evaluations": search.n, "distinct_nontrivial": search.w,
        "rule": P.get("rule", "BOUNDED stand-in and replay: templates, contexts and syntaxes generated at random and judged by an independent reference implementation (replay/src/refimpl.rs); a case is non-trivial when it renders something or fails after the first tag; cases are distinct by their full text"),
        "samples": search.samples, "bounded_stand_in": P.get("bounded", []),
        "explanation": P.get("explain", "obligations are proved for all inputs; the random search is bounded and not counted as proof"),
    }
    if search.notes: cov["search_notes"] = search.notes
    if berr[0]: cov["search_notes"] = ["the replay crate does not build: " + berr[0][-500:]]
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
               "assumptions": assumptions, "wall_s": round(time.time() - t0, 1), "violations": violations},
              open(os.path.join(EVID, f"{pid}.json"), "w"), indent=1)
    if vxr[0]: os.unlink(vxr[0])
    shutil.rmtree(wd, ignore_errors=True)
    print(f"{pid} {tier}: {discharged}/{obligations} obligations, {npr}/{len(contracts)} functions proved, {len(failed)} failed, {len(undecided)} undecided; {search.n} cases; {time.time()-t0:.0f} s")
    sys.exit(rc)

main()
