"""Bounded checks on the real code (real torch): enumerates / samples cases of a property, replays given cases."""
import argparse, hashlib, importlib, json, multiprocessing as mp, os, random, sys, time, traceback, warnings
warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("DV_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
import torch
torch.set_num_threads(1)
BUDGET = {"quick": 14.0, "thorough": 240.0, "escalate": 60.0}


def attempt(mod, case):
    """None, or a dict describing the failure"""
    try:
        msg = mod.run(case)
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        inrepo = [f for f in tb if "/torchimage/" in f.filename]
        if not inrepo:
            raise
        msg = f"unexpected {type(ex).__name__}: {str(ex)[:300]} ({os.path.relpath(inrepo[-1].filename, REPO)}:{inrepo[-1].lineno})"
    if msg is None:
        return None
    tag = None
    if isinstance(msg, tuple):
        tag, msg = msg
    return {"case": case, "what": str(msg)[:1500], "tag": tag}


def shard(mod, tier, seed, k, n, q):
    try:
        t0 = time.time()
        budget = getattr(mod, "BUDGET", BUDGET)[tier]
        ev, seen, fails, samples = 0, set(), [], []
        for i, case in enumerate(mod.cases(tier, seed, k, n)):
            if time.time() - t0 > budget:
                break
            ev += 1
            seen.add(hashlib.md5(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest())
            if len(samples) < 2 or (i % 997 == 0 and len(samples) < 4):
                samples.append(case)
            f = attempt(mod, case)
            if f is not None:
                fails.append(f)
                if len(fails) >= 3:
                    break
        q.put({"evaluations": ev, "seen": list(seen), "failures": fails, "samples": samples})
    except BaseException:
        q.put({"error": traceback.format_exc(), "evaluations": 0, "seen": [], "failures": [], "samples": []})


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--procs", type=int, default=4)
    ap.add_argument("--cases")
    ap.add_argument("--replay")
    a = ap.parse_args()
    mod = importlib.import_module("o" + a.prop)
    if a.replay:
        f = attempt(mod, json.load(open(a.replay))["case"])
        print(json.dumps(f, default=str))
        return 1 if f else 0
    if a.cases:
        fails = []
        import resource, signal
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))

        def late(*_):
            raise TimeoutError
        signal.signal(signal.SIGALRM, late)
        t0 = time.time()
        for c in json.load(open(a.cases)):
            if time.time() - t0 > 150:
                break
            signal.alarm(20)
            try:
                f = attempt(mod, c)
            except Exception:
                continue                     # the counter-model is outside the oracle's domain
            finally:
                signal.alarm(0)
            if f and ("MemoryError" in f["what"] or "TimeoutError" in f["what"] or "not enough memory" in f["what"] or "can't allocate" in f["what"]):
                continue                     # too big to be run
            if f:
                f["what"] = "(replayed counter-model) " + f["what"]
                fails.append(f)
        print(json.dumps({"evaluations": 0, "failures": fails}, default=str))
        return 0
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    ps = [ctx.Process(target=shard, args=(mod, a.tier, a.seed, k, a.procs, q)) for k in range(a.procs)]
    for p in ps:
        p.start()
    rs = [q.get() for _ in ps]
    for p in ps:
        p.join()
    out = {"evaluations": sum(r["evaluations"] for r in rs), "distinct": len(set().union(*[set(r["seen"]) for r in rs])),
           "failures": [f for r in rs for f in r["failures"]][:6], "samples": [s for r in rs for s in r["samples"]][:6], "rule": (mod.__doc__ or "").strip()}
    errs = [r["error"] for r in rs if r.get("error")]
    if errs:
        out["error"] = errs[0]
    print(json.dumps(out, default=str))
    return 0


if __name__ == "__main__":
    sys.exit(main())
