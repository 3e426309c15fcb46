"""Decides one property:  python3-vt run.py C01 [--tier quick|thorough] [--only scenario] [--strict]

Every scenario of checks/<property>.py is executed symbolically over /repo's current source; each check becomes an SMT query over
all values of the scenario's inputs.  Counterexamples are replayed on the real code before they are reported."""
import fnmatch
import argparse
import hashlib
import importlib
import json
import multiprocessing
import os
import select
import subprocess
import sys
import time
import traceback

sys.unraisablehook = lambda *a: None      # destructors of half-made objects
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("SYMX_REPO", "/repo")
VENV = os.environ.get("SYMX_PY", "/opt/venv/bin/python")
SEED = int(os.environ.get("VERIF_SEED", "1"))


class Concrete:
    """client of the concrete replay server"""

    def __init__(self, tmp):
        self.tmp = tmp
        self.p = None
        self.runs = 0

    def start(self):
        env = dict(os.environ, PYTHONPATH=REPO + ":" + HERE, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1",
                   OMP_NUM_THREADS="1", SYMX_TMP=self.tmp)
        self.p = subprocess.Popen([VENV, "-m", "symx.cworld"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  env=env, cwd=self.tmp, start_new_session=True)
        self.buf = b""

    def stop(self):
        if self.p is not None:
            try:
                os.killpg(self.p.pid, 9)
            except OSError:
                pass
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.p = None

    def ask(self, req, timeout):
        self.runs += 1
        if self.p is None or self.p.poll() is not None:
            self.stop()
            self.start()
        try:
            self.p.stdin.write((json.dumps(req) + "\n").encode())
            self.p.stdin.flush()
        except OSError:
            self.stop()
            return {"status": "crash", "failures": [["the process running the code died", ""]]}
        end = time.time() + timeout
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0:
                self.stop()
                return {"status": "hang", "failures": [["does not terminate", "no answer within %d s" % timeout]]}
            r, _, _ = select.select([self.p.stdout], [], [], left)
            if r:
                d = os.read(self.p.stdout.fileno(), 1 << 16)
                if not d:
                    self.stop()
                    return {"status": "crash", "failures": [["the process running the code died", ""]]}
                self.buf += d
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)


def run_scenario(prop, sc, tier, deadline, out_path, tmp):
    from symx import core, world, loader, val
    opts = sc.o(tier)
    opts["deadline"] = min(deadline, time.time() + opts.get("budget_s", 400 if tier == "quick" else 3000))
    params = sc.p(tier)
    stats = core.new_stats()
    C = Concrete(tmp)
    res = {"name": sc.name, "bounds": sc.bounds, "violations": [], "undecided": [], "labels": {}, "witness_runs": 0, "samples": [],
           "candidates": 0, "unreproduced": 0, "wall": 0, "raised": 0}
    t0 = time.time()
    path = os.path.join(HERE, "checks", prop + ".py")
    last = {}
    hang = opts.get("hang_s", 60)
    base = {"prop": prop, "fn": sc.fn.__name__, "params": params, "opts": {k: v for k, v in opts.items() if isinstance(v, (int, float, str))}}
    seedn = [SEED * 1000]
    tries = {}
    done_labels = set()

    def run(ctx):
        w = world.SymWorld(ctx, opts, res)
        last["w"] = w
        try:
            m = w.imp.load_extra("checks_" + prop, path)
            getattr(m, sc.fn.__name__)(w, **params)
        finally:
            w.env.cleanup()

    def concrete(values, keep, seed, scale=1.0):
        req = dict(base, values=values, keep=keep, seed=seed, scale=scale)
        r = C.ask(req, hang)
        if r["status"] == "hang" and C.ask(req, hang)["status"] != "hang":
            r = {"status": "ok", "failures": []}
        return req, r

    def report(label, detail, req, r):
        h = hashlib.sha1((prop + sc.name + label).encode()).hexdigest()[:8]
        rp = os.path.join(HERE, "evidence", "replay", "%s-%s-%s.json" % (prop, sc.name, h))
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        rec = dict(req, failed_check=label, solver_detail=detail, observed=r["failures"],
                   how="cd /verif && PYTHONPATH=%s:/verif %s -m symx.cworld --replay %s" % (REPO, VENV, rp))
        rec["values"] = dict(req["values"] or {}, inputs=dict((req["values"] or {}).get("inputs", {}), **(r.get("inputs") or {}))) if r.get("inputs") else req["values"]
        if r.get("inputs"):
            rec["keep"] = "all"
        json.dump(rec, open(rp, "w"), indent=1, default=str)
        res["violations"].append({"label": label, "scenario": sc.name, "replay": rp, "observed": r["failures"][:4], "solver": detail})

    def try_replay(values, label, detail, n_near=6, n_disc=14):
        """replay the counterexample; then the same discrete choices with other data"""
        for keep, n in (("all", 1), ("near", n_near), ("discrete", n_disc)):
            for k in range(n):
                seedn[0] += 1
                req, r = concrete(values, keep, seedn[0])
                if r["status"] in ("fail", "hang", "crash"):
                    report(r["failures"][0][0], "%s: %s" % (label, detail), req, r)
                    return True
                if r["status"] == "error":
                    res["undecided"].append("replay failed: " + r.get("error", "")[-300:])
                    return False
        return False

    def on_path(ctx, outcome):
        w = last["w"]
        kind, e = outcome
        if kind == "infeasible":
            return False
        for lb in w.labels:
            res["labels"][lb] = res["labels"].get(lb, 0) + 1
        cands = list(w.cands)
        if kind == "raised":
            res["raised"] += 1
            tb = traceback.extract_tb(e.__traceback__)
            d = "%r at %s" % (e, "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-4:] if "symx" not in f.filename))
            cands.append(world.Candidate("uncaught exception", "fail", w.values(None), d))
            if os.environ.get("SYMX_TB"):
                traceback.print_exception(e)
        elif kind == "timeout":
            cands.append(world.Candidate("path does not end", "unknown", w.values(None), str(e)))
        elif kind == "unsupported":
            res["undecided"].append("not modelled: " + str(e)[:300])
            if os.environ.get("SYMX_TB"):
                traceback.print_exception(e)
        for c in cands:
            res["candidates"] += 1
            key = (c.label, c.detail[:60])
            if tries.get(c.label, 0) >= opts.get("max_tries", 4):
                res["undecided"].append("%s: %s" % (c.label, c.detail))
                continue
            tries[c.label] = tries.get(c.label, 0) + 1
            if try_replay(c.values, c.label, c.detail):
                return True
            res["unreproduced"] += 1
            res["undecided"].append("%s (%s): counterexample of the model not reproduced on the real code: %s" % (c.label, c.kind, c.detail))
        # witnesses: the same path on the real code
        n = stats["paths"]
        if kind == "ok" and not opts.get("no_witness") and (n <= opts.get("witness", 8) or n % opts.get("witness_every", 50) == 0):
            seedn[0] += 1
            try:
                values = w.values(None)
            except core.Infeasible:      # found out only now
                return False
            for keep in ("discrete", "all"):
                if keep == "all" and opts.get("no_exact"):
                    continue
                req, r = concrete(values, keep, seedn[0])
                res["witness_runs"] += 1
                if r["status"] in ("fail", "hang", "crash"):
                    report(r["failures"][0][0], "replay of an explored path on the real code", req, r)
                    return True
                if r["status"] == "error":
                    res["undecided"].append("replay failed: " + r.get("error", "")[-300:])
                if r["status"] == "ok" and len(res["samples"]) < 2:
                    res["samples"].append({"scenario": sc.name, "inputs": json.loads(json.dumps(r.get("inputs"), default=str)), "checks": r.get("labels")})
                if r["status"] == "ok":
                    break
        return False

    try:
        probs = core.explore(run, opts, on_path, stats)
        res["undecided"] += probs
    except Exception:
        res["undecided"].append("engine error: " + traceback.format_exc()[-1500:])
    # concrete probes where the solver could not decide
    if res["undecided"] and not res["violations"]:
        for k in range(opts.get("probes", 30)):
            seedn[0] += 1
            req, r = concrete({}, "discrete", seedn[0])
            if r["status"] in ("fail", "hang", "crash"):
                report(r["failures"][0][0], "scenario undecided (%s); found by running it" % res["undecided"][0][:200], req, r)
                break
    C.stop()
    if stats["paths"] == 0 and not res["violations"]:
        res["undecided"].append("vacuous: no feasible path")
    if not res["labels"] and not res["violations"]:
        res["undecided"].append("vacuous: no check reached")
    res["stats"] = stats
    res["functions"] = sorted(loader.ENTERED)
    res["wall"] = time.time() - t0
    res["concrete_runs"] = C.runs
    json.dump(res, open(out_path + ".tmp", "w"), default=str)
    os.rename(out_path + ".tmp", out_path)


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                d = dict(kv.split("=", 1) for kv in line[8:].split(" :: ")[0].split() if "=" in kv)
                if d.get("property") == prop:
                    d["text"] = line.split(" :: ", 1)[1] if " :: " in line else line
                    d["label"] = d.get("label", "").replace("_", " ")
                    out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("--strict", action="store_true")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=int(os.environ.get("SYMX_JOBS", "8")))
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    import tempfile
    import shutil
    tmp = tempfile.mkdtemp(prefix="symxrun_")
    mod = importlib.import_module("checks." + a.prop)
    scs = [s for s in mod.SCENARIOS if (tier == "thorough" or s.tier == "quick") and (a.only is None or fnmatch.fnmatch(s.name, a.only))]
    total = getattr(mod, "BUDGET", {}).get(tier, 560 if tier == "quick" else 5400)
    deadline = t0 + total
    import symx.world  # noqa: loaded once before forking
    for f in os.listdir(HERE + "/checks"):
        pass
    ctxm = multiprocessing.get_context("fork")
    todo = list(enumerate(scs))
    running = {}
    results = {}
    try:
        while todo or running:
            while todo and len(running) < a.j:
                i, s = todo.pop(0)
                out = os.path.join(tmp, "r%d.json" % i)
                d = os.path.join(tmp, "t%d" % i)
                os.mkdir(d)
                p = ctxm.Process(target=run_scenario, args=(a.prop, s, tier, deadline, out, d))
                p.start()
                running[i] = (p, out, s)
            for i, (p, out, s) in list(running.items()):
                p.join(0.05)
                if not p.is_alive():
                    running.pop(i)
                    if os.path.exists(out):
                        results[i] = json.load(open(out))
                    else:
                        results[i] = {"name": s.name, "violations": [], "undecided": ["scenario process died (exit %s)" % p.exitcode], "labels": {},
                                      "stats": {}, "functions": [], "wall": 0, "witness_runs": 0, "samples": [], "concrete_runs": 0, "bounds": s.bounds}
                    if a.v:
                        r = results[i]
                        print("  %-28s %6.1fs paths=%s checks=%s undecided=%d viol=%d" % (r["name"], r["wall"], r["stats"].get("paths"), r["stats"].get("checks"), len(r["undecided"]), len(r["violations"])), flush=True)
                elif time.time() > deadline + 150:
                    p.terminate()
                    p.join(5)
                    if p.is_alive():
                        p.kill()
            time.sleep(0.01)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    # ---- verdict
    known = known_findings(a.prop)
    viol, kn = [], {}
    for i in sorted(results):
        for v in results[i]["violations"]:
            k = next((f for f in known if f.get("scenario") == v["scenario"] and f["label"] in v["label"]), None)
            if k:
                kn[k["text"]] = k
            else:
                viol.append(v)
    und = [(results[i]["name"], u) for i in sorted(results) for u in results[i]["undecided"]]
    und_names = sorted({n for n, _ in und})
    decided = [results[i]["name"] for i in sorted(results) if not results[i]["undecided"] and not results[i]["violations"]]
    tot = {}
    for r in results.values():
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
    funcs = sorted({f for r in results.values() for f in r["functions"]})
    ev = {
        "property": a.prop, "tier": tier, "seed": SEED, "level": "model_checking",
        "coverage": {
            "states": tot.get("paths", 0), "transitions": tot.get("forks", 0) + tot.get("feas_queries", 0),
            "traces_validated_against_impl": sum(r["witness_runs"] for r in results.values()),
            "samples": [s for r in results.values() for s in r["samples"]][:6] or [{"scenario": r["name"]} for r in results.values()][:3],
            "explanation": "states = symbolic paths of the real code explored (each stands for all inputs satisfying its path condition); "
                           "transitions = branch decisions and feasibility queries; traces_validated_against_impl = explored paths re-run on the uninstrumented code",
            "exhaustive": not und,
            "checks_discharged": tot.get("by_normal_form", 0) + tot.get("by_pc", 0) + tot.get("by_facts", 0),
            "discharged_by_polynomial_normal_form": tot.get("by_normal_form", 0),
            "discharged_by_smt_path_condition": tot.get("by_pc", 0),
            "discharged_by_smt_with_library_contracts": tot.get("by_facts", 0),
            "check_queries": tot.get("check_queries", 0), "feasibility_queries": tot.get("feas_queries", 0),
            "feasibility_unknown": tot.get("feas_unknown", 0),
            "solver_seconds": round(tot.get("solver_s", 0.0), 2),
            "functions_encoded": funcs,
            "scenarios": [{"name": r["name"], "bounds": r["bounds"], "paths": r["stats"].get("paths"), "checks": r["labels"], "wall_s": round(r["wall"], 1),
                           "undecided": sorted(set(r["undecided"]))[:5], "concrete_replays": r["concrete_runs"]} for i, r in sorted(results.items())],
            "undecided_scenarios": und_names,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + [
            "numbers are exact reals (rounding not modelled); exp/tanh/custom functions are uninterpreted with congruence and sign facts",
            "library contracts: numpy indexing/reduction semantics, BLAS/LAPACK solve, cdist, PyTables, pickle as modelled in symx/"],
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    os.makedirs(HERE + "/evidence", exist_ok=True)
    json.dump(ev, open(HERE + "/evidence/%s.json" % a.prop, "w"), indent=1, default=str)
    print("%s %s: %d scenarios, %d paths, %d checks (%d normal form, %d SMT), %d solver queries, %.1f s solver, %d replays on the real code, %.1f s" % (
        a.prop, tier, len(results), tot.get("paths", 0), tot.get("checks", 0), tot.get("by_normal_form", 0), tot.get("by_pc", 0) + tot.get("by_facts", 0),
        tot.get("check_queries", 0) + tot.get("feas_queries", 0), tot.get("solver_s", 0.0), sum(r["concrete_runs"] for r in results.values()), time.time() - t0))
    seen = set()
    for n, u in und:
        if (n, u[:80]) not in seen and len(seen) < 12:
            seen.add((n, u[:80]))
            print("UNDECIDED %s/%s: %s" % (a.prop, n, u[:400]))
    for t in kn:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, t))
    if viol:
        for v in viol[:8]:
            print("  scenario %s: %s | %s | %s" % (v["scenario"], v["label"], str(v["observed"])[:300], str(v["solver"])[:200]))
        print("VIOLATION property=%s replay=%s" % (a.prop, viol[0]["replay"]))
        return 1
    if a.strict and und:
        return 3
    if not decided and not kn and not tot.get("checks", 0):
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
