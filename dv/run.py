"""Runs one property's harnesses (in parallel processes) and its concrete checks, decides, writes the evidence."""
import argparse, hashlib, importlib, io, json, multiprocessing as mp, os, subprocess, sys, time, traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "contracts"))
PY = os.environ.get("DV_PY", "/opt/venv/bin/python")
NPROC = int(os.environ.get("DV_NPROC", "8"))


def full_size(to_case, model, name):
    """the counter-model's case without the caps to_case puts on its sizes (written min(value, cap) in the contracts)"""
    d = os.path.join(HERE, "contracts")
    ms = [m for m in list(sys.modules.values()) if os.path.dirname(getattr(m, "__file__", None) or "") == d]
    for m in ms:
        m.__dict__["min"] = lambda v, *cap, **kw: min(v, *cap, **kw) if kw or len(cap) != 1 or v > 10 ** 6 else v
    try:
        return to_case(model, name)
    except Exception:
        return None
    finally:
        for m in ms:
            m.__dict__.pop("min", None)


def run_harness(args):
    prop, name, tier, verbose = args
    import warnings
    warnings.simplefilter("ignore")
    from dv import core
    from dv.loader import Loader
    mod = importlib.import_module(prop)
    h = [x for x in mod.harnesses(tier) if x.name == name][0]
    log = sys.stderr if verbose else None
    e = core.Engine(timeout_ms=h.timeout_ms, budget_s=h.budget * (4 if tier == "thorough" else 1), max_paths=h.max_paths, log=log)
    core.set_engine(e)
    e.hooks.update(h.hooks)
    base = dict(e.hooks)
    t0 = time.time()
    status, reason, L = "ok", "", None
    srcs = {}
    covers = [0]

    def fn():
        e.hooks.clear()
        e.hooks.update(base)
        L = Loader()
        try:
            h.fn(e, L)
        finally:
            srcs.update(L.sources)
    try:
        e.explore(fn)
    except core.Unsupported as x:
        status, reason = "unsupported", str(x)
    except RecursionError:
        status, reason = "unsupported", "recursion limit"
    except Exception as x:
        status, reason = "error", f"{type(x).__name__}: {x}"
        if verbose:
            traceback.print_exc()
    obls = [{"name": o.name, "status": o.status, "cut": o.info.get("cut", False), "exact": o.info.get("exact", False), "by": o.info.get("by"),
             "model": o.info.get("model"), "exc": o.info.get("exc")} for o in e.obls]
    cases = []
    for o in obls:
        if o["status"] != "proved" and o.get("model") and h.to_case:
            try:
                c = h.to_case(o["model"], name)
                if c is not None:
                    cases.append({"obl": o["name"], "case": c})
                    o["has_case"] = True
                c2 = full_size(h.to_case, o["model"], name)
                if c2 is not None and c2 != c:
                    cases.append({"obl": o["name"], "case": c2})
            except Exception as x:
                o["case_error"] = str(x)
    vac = ""
    if status == "ok" and not obls:
        vac = "no obligation was generated"
    elif status == "ok" and e.covers == 0:
        vac = "no path reaches the end with satisfiable assumptions"
    elif status == "ok" and e.vacuous:
        vac = "contradictory assumptions on a path"
    return {"name": name, "status": status, "reason": reason, "vacuous": vac, "obls": obls, "cases": cases, "paths": e.paths, "path_kinds": e.path_kinds,
            "restarts": e.restarts, "solver_s": round(e.solver_time, 2), "queries": e.queries, "backends": e.backends, "loops": sorted(e.cut_loops),
            "wall": round(time.time() - t0, 2), "bounded": h.bounded, "sources": srcs, "notes": sorted(e.notes), "trusted": sorted(e.trusted)}


def _worker(a, q):
    try:
        r = run_harness(a)
    except BaseException as x:
        r = {"name": a[1], "status": "error", "reason": f"{type(x).__name__}: {x}", "vacuous": "", "obls": [], "cases": [], "paths": 0, "path_kinds": {},
             "restarts": 0, "solver_s": 0, "queries": 0, "backends": {}, "loops": [], "wall": 0, "bounded": None, "sources": {}, "notes": [], "trusted": []}
        if a[3]:
            traceback.print_exc()
    q.put(r)


def run_all(prop, tier, verbose=False, only=None, nproc=NPROC):
    mod = importlib.import_module(prop)
    hs = [h for h in mod.harnesses(tier) if tier in h.tiers and (only is None or only in h.name)]
    hs.sort(key=lambda h: -h.budget)
    if verbose or nproc == 1:
        return [run_harness((prop, h.name, tier, verbose)) for h in hs]
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    pend, run, out = list(hs), {}, {}
    while pend or run:
        while pend and len(run) < nproc:
            h = pend.pop(0)
            p = ctx.Process(target=_worker, args=((prop, h.name, tier, verbose), q))
            p.start()
            run[h.name] = (p, time.time() + h.budget * (4 if tier == "thorough" else 1) + 45, h)
        try:
            r = q.get(timeout=0.25)
            out[r["name"]] = r
            p, _, _ = run.pop(r["name"])
            p.join()
        except Exception:
            for n, (p, dl, h) in list(run.items()):
                if time.time() > dl or (not p.is_alive() and q.empty()):
                    if p.is_alive():
                        p.kill()
                        why = "time limit"
                    else:
                        try:
                            r = q.get(timeout=1.0)
                            out[r["name"]] = r
                            run.pop(r["name"], None)
                            continue
                        except Exception:
                            why = "the verifier process died"
                    run.pop(n)
                    out[n] = {"name": n, "status": "unsupported", "reason": why, "vacuous": "", "obls": [], "cases": [], "paths": 0, "path_kinds": {}, "restarts": 0,
                              "solver_s": 0, "queries": 0, "backends": {}, "loops": [], "wall": 0, "bounded": h.bounded, "sources": {}, "notes": [], "trusted": []}
    return [out[h.name] for h in hs]


def oracle(prop, *extra, timeout=600):
    env = dict(os.environ)
    env["PYTHONPATH"] = os.environ.get("DV_REPO", "/repo")
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["OMP_NUM_THREADS"] = "1"
    p = subprocess.run([PY, "-W", "ignore", os.path.join(HERE, "oracles", "run.py"), prop, *extra], capture_output=True, text=True, env=env, timeout=timeout, cwd=HERE)
    try:
        return json.loads(p.stdout.strip().splitlines()[-1])
    except Exception:
        return {"error": (p.stderr or p.stdout)[-2000:], "evaluations": 0, "distinct": 0, "failures": [], "samples": []}


def lean(f):
    """a lemma file (facts about the specification, not about the code): number of theorems, accepted?, remark"""
    path = os.path.join(HERE, f)
    src = open(path).read()
    import re
    n = len(re.findall(r"^theorem ", src, re.M))
    if re.search(r"\b(sorry|axiom|native_decide|unsafe)\b", src):
        return n, False, "contains sorry / axiom"
    try:
        p = subprocess.run(["lean", path], capture_output=True, text=True, timeout=300, cwd=os.path.dirname(path))
        return n, p.returncode == 0 and "error" not in p.stdout, (p.stdout + p.stderr)[-500:]
    except Exception as x:
        return n, False, f"{type(x).__name__}: {x}"


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith(f"finding: property={prop} "):
                out.append(l.split(" ", 2)[2].strip())
    return out


def main():
    if os.environ.get("PYTHONHASHSEED") != "0":  # the same order of everything on every run
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, "-W", "ignore", "-m", "dv.run"] + sys.argv[1:])
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--only")
    ap.add_argument("--no-oracle", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    prop, tier = a.prop, a.tier
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    if a.v or a.only:
        for r in run_all(prop, tier, a.v, a.only, 1):
            summarize(r)
        return 0
    # the bounded checks on the real code run beside the verifier
    orc = None
    import threading
    res = {}

    def bg():
        try:
            res["o"] = oracle(prop, "--tier", tier, "--seed", str(a.seed), "--procs", "4", timeout=800)
        except Exception as x:
            res["o"] = {"error": str(x), "evaluations": 0, "distinct": 0, "failures": [], "samples": []}
    th = threading.Thread(target=bg)
    mod = importlib.import_module(prop)
    lem = {}
    lth = threading.Thread(target=lambda: lem.update({f: lean(f) for f in getattr(mod, "LEMMAS", [])}))
    lth.start()
    if not a.no_oracle:
        th.start()
    rs = run_all(prop, tier)
    lth.join()
    if not a.no_oracle:
        th.join()
    orc = res.get("o", {"evaluations": 0, "distinct": 0, "failures": [], "samples": []})
    # ---- collect
    tot = sum(len(r["obls"]) for r in rs if not r["bounded"])
    done = sum(1 for r in rs if not r["bounded"] for o in r["obls"] if o["status"] == "proved")
    btot = sum(len(r["obls"]) for r in rs if r["bounded"])
    undecided = []
    for f, (n, ok, why) in lem.items():
        tot, done = tot + n, done + (n if ok else 0)
        if not ok:
            undecided.append(f"lemma file {f}: {why}")
    exact_fail = []
    cases = []
    for r in rs:
        if r["status"] != "ok":
            undecided.append(f"{r['name']}: {r['status']} ({r['reason']})")
        if r["vacuous"]:
            undecided.append(f"{r['name']}: vacuous ({r['vacuous']})")
        for o in r["obls"]:
            if o["status"] != "proved":
                undecided.append(f"{r['name']}: {o['name']}: {o['status']}" + (f" ({o['exc']})" if o.get("exc") else ""))
                # (a counter-model that was replayed on the real code and did not fail there is not reported)
                if o["status"] == "refuted" and o["exact"] and not o.get("has_case"):
                    exact_fail.append((r, o))
        cases += r["cases"]
    fails = list(orc.get("failures", []))
    replayed = []
    if cases and not a.no_oracle:
        cf = os.path.join(ev, f"{prop}.cases.json")
        json.dump([c["case"] for c in cases[:60]], open(cf, "w"))
        rr = oracle(prop, "--cases", cf)
        replayed = rr.get("failures", [])
        os.unlink(cf)
        fails = replayed + fails
    escal = None
    if undecided and not fails and not a.no_oracle:
        escal = oracle(prop, "--tier", "escalate", "--seed", str(a.seed + 1), "--procs", str(NPROC), timeout=800)
        fails = escal.get("failures", [])
    err = orc.get("error") or (escal or {}).get("error")
    kn = known_findings(prop)
    new = []
    for f in fails:
        tag = f.get("tag") or f["what"]
        if any(k.split(" ")[0] == f.get("tag") for k in kn):
            continue
        new.append(f)
    for k in kn:
        print(f"KNOWN-FINDING: property={prop} {k}")
    violations = 0
    line = None
    if new:
        f = new[0]
        rp = os.path.join(ev, f"{prop}.replay.json")
        json.dump({"property": prop, "case": f["case"], "what": f["what"], "failed_obligations": undecided[:20],
                   "replay": f"PYTHONPATH=/repo {PY} {HERE}/oracles/run.py {prop} --replay {rp}"}, open(rp, "w"), indent=1, default=str)
        line = f"VIOLATION property={prop} replay={rp}"
        violations = len(new)
        print(f"failing input: {json.dumps(f['case'], default=str)[:600]}\n  {f['what'][:600]}")
    elif exact_fail:
        rp = os.path.join(ev, f"{prop}.replay.json")
        r, o = exact_fail[0]
        json.dump({"property": prop, "failed_obligation": f"{r['name']}: {o['name']}", "verifier": o, "all_failed": undecided[:50]}, open(rp, "w"), indent=1, default=str)
        line = f"VIOLATION property={prop} replay={rp} no-failing-input-found"
        violations = 1
    for u in undecided[:12]:
        print("  not discharged:", u[:300])
    bym = {}
    for r in rs:
        for k, v in r["backends"].items():
            bym[k] = bym.get(k, 0) + v
    cov = {"obligations": tot, "discharged": done, "checker_cmd": f"python3-vt -m dv.run {prop} --tier {tier} (verification conditions generated from /repo's current source; z3 {z3v()}, cvc5 as fallback)",
           "trusted_base": getattr(mod, "TRUSTED", []) + TRUSTED_ALL + sorted({t for r in rs for t in r["trusted"]}),
           "lemma_files": {f: {"theorems": n, "accepted": ok, "by": "Lean 4 + Mathlib", "note": why} for f, (n, ok, why) in lem.items()},
           "functions_under_contract": getattr(mod, "FUNCS", []),
           "harnesses": [{k: r[k] for k in ("name", "status", "reason", "paths", "path_kinds", "loops", "solver_s", "queries", "wall", "bounded")} | {
               "obligations": len(r["obls"]), "discharged": sum(o["status"] == "proved" for o in r["obls"])} for r in rs],
           "bounded_obligations": btot, "bounded_discharged": sum(1 for r in rs if r["bounded"] for o in r["obls"] if o["status"] == "proved"),
           "solver_s": round(sum(r["solver_s"] for r in rs), 2), "solver_queries": sum(r["queries"] for r in rs), "backends": bym,
           "sources": {os.path.relpath(k, os.environ.get("DV_REPO", "/repo")): v[:16] for r in rs for k, v in r["sources"].items()},
           "undischarged": undecided[:40],
           "bounded_run_on_real_code": {"evaluations": orc.get("evaluations", 0), "distinct_nontrivial": orc.get("distinct", 0), "rule": orc.get("rule", ""), "samples": orc.get("samples", [])[:4],
                                        "escalated_evaluations": (escal or {}).get("evaluations", 0), "counter_models_replayed": len(cases)}}
    level = "proof" if (tot and tot == done and not undecided and getattr(mod, "LEVEL", "proof") == "proof") else "exploration"
    if level == "exploration":
        cov |= {"evaluations": orc.get("evaluations", 0) + (escal or {}).get("evaluations", 0), "distinct_nontrivial": orc.get("distinct", 0) + (escal or {}).get("distinct", 0),
                "rule": orc.get("rule", ""), "samples": orc.get("samples", [])[:4] or ["none"]}
    doc = {"property": prop, "tier": tier, "seed": a.seed, "level": level, "coverage": cov, "assumptions": getattr(mod, "ASSUMPTIONS", []) + ASSUMED_ALL,
           "wall_s": round(time.time() - t0, 2), "violations": violations}
    json.dump(doc, open(os.path.join(ev, f"{prop}.json"), "w"), indent=1, default=str)
    print(f"{prop} [{tier}] obligations {done}/{tot} discharged ({btot} bounded), {len(undecided)} open; real-code runs {orc.get('evaluations', 0)}"
          f"{'+' + str(escal.get('evaluations')) if escal else ''}; {time.time() - t0:.1f}s")
    if line:
        print(line)
        return 1
    if err:
        print("error in the run on the real code:", err[-1500:])
        return 0 if level == "proof" else 3
    return 0


TRUSTED_ALL = ["dv engine: VC generation by symbolic execution under CPython, shim of torch/numpy semantics (validated against real torch by tools/conformance.py)", "z3", "cvc5 (fallback)"]
ASSUMED_ALL = ["floating-point arithmetic is treated as exact real arithmetic; machine integers as unbounded",
               "torch/numpy operations behave as their shim models say (element formulas, shapes, aliasing of views)",
               "tensors on one device; sizes >= 1 unless stated"]


def z3v():
    import z3
    return z3.get_version_string()


def summarize(r):
    st = {}
    for o in r["obls"]:
        st[o["status"]] = st.get(o["status"], 0) + 1
    print(f"{r['name']}: {r['status']} {r['reason']} {r['vacuous']} {st} paths={r['paths']} {r['path_kinds']} restarts={r['restarts']} solver={r['solver_s']} q={r['queries']} wall={r['wall']}")
    seen = set()
    for o in r["obls"]:
        if o["status"] != "proved" and o["name"] not in seen:
            seen.add(o["name"])
            print("    ", o["name"], o["status"], "cut" if o["cut"] else "", "exact" if o["exact"] else "", str(o["model"])[:300], o.get("exc") or "")


if __name__ == "__main__":
    from dv.run import main as _m
    sys.exit(_m())
