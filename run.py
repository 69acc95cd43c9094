#!/usr/bin/env python3
"""run.py <PROPERTY> quick|thorough   decide one property by dynamic symbolic execution
   run.py replay <file>              replay a recorded counterexample against a plain build of /repo"""
import json, os, shutil, struct, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "engine"))
import build
BUDGET = {"quick": 30, "thorough": 700}

def replay_cases(eng, work, pid, names, tier, cases, timeout=120):
    """cases: [(harness, vals)] -> list of (status, asserts, message); one process, restarted after a crash"""
    out = []
    while len(out) < len(cases):
        todo = cases[len(out):]
        cf = os.path.join(work, "cases.txt")
        open(cf, "w").write("".join("%s\t%s\n" % (h, ",".join(v)) for h, v in todo))
        e = build.renv(eng, work, "replay", pid, names, tier, {"SYMR_CASES": cf})
        try:
            r = subprocess.run(build.rcmd(False), env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, errors="replace")
            txt, rc = r.stdout, r.returncode
        except subprocess.TimeoutExpired as t:
            txt, rc = (t.stdout or b"").decode(errors="replace") if isinstance(t.stdout, bytes) else (t.stdout or ""), "timeout"
            r = None
        started = done = 0
        for l in txt.splitlines():
            f = l.split("\t")
            if f[0] == "CASE": started += 1
            elif f[0] == "RESULT":
                done += 1
                out.append(("assumption violated" if f[3] == "TRUE" else "fail" if f[1] != "0" else "ok", int(float(f[2])), f[4] if len(f) > 4 else "", f[3] == "TRUE"))
        if done < len(todo):
            if started == done:
                if os.environ.get("SYMR_VERBOSE") and r: sys.stderr.write(r.stderr[-2000:])
                out += [("error", 0, "replay did not start", False)] * (len(todo) - done)
            elif rc == "timeout": out.append(("timeout", 0, "replay timed out", False))
            elif isinstance(rc, int) and rc < 0: out.append(("crash", 0, "crash: signal %d" % -rc, False))
            else: out.append(("error", 0, "replay ended with status %s" % rc, False))
    return out

def known_findings(pid):
    res = []
    p = os.path.join(ROOT, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("fixed:"):
                d = json.loads(l)
                if d.get("property") == pid: res.append(d)
    return res

def warm_case(p):
    """the harness and values of the warm-up run that crashed"""
    try: b = open(p, "rb").read()
    except OSError: return []
    if len(b) < 208 or not b[0]: return []
    k = struct.unpack_from("<Q", b, 200)[0]
    return [(b[:200].split(b"\0")[0].decode(), [str(v) for v in struct.unpack_from("<%dQ" % k, b, 208)], "crash in the warm-up")]

def show(vals):
    o = []
    for v in vals:
        v = int(v)
        if (1 << 31) <= v < (1 << 32): v -= 1 << 32
        elif v >= 1 << 63: v -= 1 << 64
        o.append(v)
    return o

def main():
    if sys.argv[1] == "replay":
        d = json.load(open(sys.argv[2]))
        work = tempfile.mkdtemp(prefix="symr-")
        try:
            eng = build.build_engine(); names = build.build_vctrs(eng, work)
            r = replay_cases(eng, work, d["property"], names, d.get("tier", "quick"), [(d["harness"], d["vals"])])[0]
            print(r)
            return 1 if r[0] in ("fail", "crash") else 0
        finally:
            shutil.rmtree(work, ignore_errors=True)
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or (sys.argv[2] if len(sys.argv) > 2 else "quick")
    if len(sys.argv) > 2 and sys.argv[2] in BUDGET: tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    budget = float(os.environ.get("SYMR_BUDGET", BUDGET[tier]))
    work = tempfile.mkdtemp(prefix="symr-")
    try:
        eng = build.build_engine()
        names = build.build_vctrs(eng, work)
        tb = time.time() - t0
        out = os.path.join(work, "out.json")
        W = min(8, os.cpu_count() or 8)
        e = build.renv(eng, work, "symbolic", pid, names, tier, {"SYMR_CFG": "%d,%g,%d,%d,3,0" % (W, budget, 60, seed), "SYMR_OUT": out})
        # the warm-up runs in the parent process: code that crashes or hangs there is explored without it
        wlog = os.path.join(work, "warm.bin"); crashed = []
        for nowarm in ("0", "1", "2"):
            e["SYMR_NOWARM"] = nowarm; e["SYMR_WARMLOG"] = wlog
            try:
                r = subprocess.run(build.rcmd(), env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=budget + (60 if nowarm == "0" else 30), errors="replace")
            except subprocess.TimeoutExpired as t:
                r = subprocess.CompletedProcess(t.cmd, -9, "", "exploration timed out")
            if r.returncode == 0 and os.path.exists(out): break
            if r.returncode < 0 and nowarm != "2": crashed += warm_case(wlog)
            if time.time() - t0 > 60 + budget / 2: break
        if r.returncode or not os.path.exists(out):
            sys.stderr.write(r.stdout[-3000:] + r.stderr[-3000:])
            print("ERROR: exploration did not run (status %s)" % r.returncode)
            return 2
        if r.stderr.strip(): sys.stderr.write(r.stderr[-3000:])
        d = json.load(open(out))
        te = time.time() - t0
        # replay candidate violations and a sample of explored paths on the plain build
        cand, samp = list(crashed), []
        for h in d["harnesses"]:
            seen = {}
            for f in h["fails"]:
                if seen.setdefault(f["msg"], 0) < 2:
                    seen[f["msg"]] += 1; cand.append((h["name"], f["vals"], f["msg"]))
            for s in h["samples"][:12]: samp.append((h["name"], s, None))
        rep = replay_cases(eng, work, pid, names, tier, [(c[0], c[1]) for c in cand]) if cand else []
        srep = replay_cases(eng, work, pid, names, tier, [(c[0], c[1]) for c in samp]) if samp else []
        kf = known_findings(pid)
        viol, inconcl, known = [], [], []
        for c, x in list(zip(cand, rep)) + [(c, x) for c, x in zip(samp, srep) if x[0] in ("fail", "crash")]:
            if x[0] in ("fail", "crash"):
                k = [k for k in kf if k["harness"] == c[0] and k["msg"] in x[2] and ("vals" not in k or k["vals"] == show(c[1])[:len(k["vals"])])]
                (known if k else viol).append((c, x, k))
            else:
                inconcl.append((c, x))
        validated = sum(1 for x in srep if x[0] == "ok")
        tot = lambda k: sum(h[k] for h in d["harnesses"])
        incomplete = []
        for h in d["harnesses"]:
            why = [k for k in ("queue_left", "unfinished", "unknown", "timeouts", "killed", "internal", "conc_truncated", "diverged", "mismatch", "truncated") if h[k]]
            if h["fails"]: why.append("stopped at failures")
            if why: incomplete.append("%s: %s" % (h["name"], ", ".join("%s=%s" % (k, h.get(k, "")) for k in why)))
        rdir = os.path.join(ROOT, "replays"); os.makedirs(rdir, exist_ok=True)
        for k in sorted(set((x[2][0]["harness"], x[2][0]["msg"], x[2][0].get("what", "")) for x in known)):
            print("KNOWN-FINDING: property=%s %s" % (pid, k[2] or k[0] + ": " + k[1]))
        rc = 0
        for i, (c, x, _) in enumerate(viol[:10]):
            p = os.path.join(rdir, "%s-%d.json" % (pid, i))
            json.dump({"property": pid, "tier": tier, "harness": c[0], "vals": c[1], "message": c[2], "replay": x[2] or x[0]}, open(p, "w"), indent=1)
            print("  %s: %s | inputs %s" % (c[0], x[2] or x[0], show(c[1])[:40]))
            print("VIOLATION property=%s replay=%s" % (pid, p))
            rc = 1
        for c, x in inconcl[:10]:
            print("INCONCLUSIVE (not reproduced on the real build, not reported as a violation): %s: %s | %s | inputs %s" % (c[0], c[2], x[:3], show(c[1])[:40]))
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": tot("paths"), "transitions": tot("events"), "traces_validated_against_impl": validated,
                "samples": [{"harness": c[0], "variables": show(c[1])[:60]} for c in samp[:12]],
                "exhaustive": not incomplete,
                "what": "states = feasible paths of the instrumented code explored to the end; transitions = symbolic decisions/assertions on them; traces_validated = sampled paths re-run on a plain (uninstrumented) build with every assertion holding",
                "functions_encoded": sorted(d["functions"]),
                "queries": {"total": tot("queries"), "sat": tot("sat"), "unsat": tot("unsat"), "unknown": tot("unknown"), "solver_s": round(sum(h["solver_s"] for h in d["harnesses"]), 2)},
                "assertions": {"checked": tot("asserts"), "proved_by_solver": tot("proved"), "decided_by_simplification": tot("const_asserts")},
                "translation_checks": {"operations": tot("ops"), "encoding_mismatches": tot("mismatch"), "divergences": tot("diverged")},
                "incomplete": incomplete,
                "harnesses": [{k: h[k] for k in ("name", "paths", "queries", "unsat", "unknown", "asserts", "proved", "concretized", "alloc_bounded", "queue_left", "max_events")} for h in d["harnesses"]],
            },
            "assumptions": bounds(pid),
            "wall_s": round(time.time() - t0, 1), "violations": len(viol),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
        print("%s %s: %d paths, %d assertions, %d queries (%d unsat, %d unknown), %d/%d traces validated, build %.0fs explore %.0fs total %.0fs%s" % (
            pid, tier, tot("paths"), tot("asserts"), tot("queries"), tot("unsat"), tot("unknown"), validated, len(samp), tb, te - tb, time.time() - t0,
            "" if not incomplete else "; not exhausted: " + "; ".join(incomplete)))
        return rc
    finally:
        shutil.rmtree(work, ignore_errors=True)

def bounds(pid):
    p = os.path.join(ROOT, "harness", pid + ".R")
    b = [l[3:].strip() for l in open(p) if l.startswith("#B ")]
    return b + ["vectors have the sizes built by the harness; allocations larger than 256 elements of a symbolic size are outside",
                "data read by R's own C code outside the wrapped natives is concretised or, for message texts, ignored",
                "clang -O1 semantics of the C sources; libR trusted"]

if __name__ == "__main__":
    sys.exit(main())
