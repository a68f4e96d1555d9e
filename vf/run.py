"""python run.py <ID> [--tier quick|thorough] [--seed N] [--n N] [--replay FILE] [--jobs N]

exit 0: property held; exit 1 and a VIOLATION line: broken; exit 2: harness error.
"""
import argparse
import json
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VF_REPO", "/repo")
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
SHARDS = int(os.environ.get("VF_SHARDS", "8"))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.path.append(TOOLS)            # hypothesis; the code's own venv comes first

import core  # noqa: E402

PROPS = {
    "tri": ["C01", "C02", "C03", "C04", "C05", "C24", "C29"],
    "ratio": ["C06", "C07", "C08", "C09"],
    "mack": ["C10", "C11", "C12", "C13", "C14"],
    "boot": ["C15", "C16", "C17", "C18", "C25"],
    "whole": ["C19", "C20", "C21", "C23"],
    "plots": ["C22"],
    "trap": ["C26", "C27", "C28"],
    "iso": ["C30", "C31"],
}


def find(pid):
    for mod, ids in PROPS.items():
        if pid in ids:
            m = __import__("p_" + mod)
            return getattr(m, pid)()
    raise SystemExit("unknown property " + pid)


def setup_scratch():
    d = tempfile.mkdtemp(prefix="vf_")
    os.environ["MPLCONFIGDIR"] = os.path.join(d, "mpl")
    os.environ["VF_SCRATCH"] = d
    return d


def shard(pid, seed, idx, count, tier, deadline, stop, q):
    """One worker: count generated cases of the property."""
    try:
        q.put(_shard(pid, seed, idx, count, tier, deadline, stop))
    except BaseException:
        q.put({"idx": idx, "error": traceback.format_exc()})


def _shard(pid, seed, idx, count, tier, deadline, stop):
    import warnings
    warnings.simplefilter("ignore")
    if os.environ.get("VF_DEBUG") is None:
        sys.stderr = open(os.devnull, "w")
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = 45
    eng.MAX_SHRINKS = 300
    prop = find(pid)
    out = {"idx": idx, "evaluations": 0, "skips": {}, "tags": {}, "hashes": set(),
           "samples": [], "fail": None, "error": None, "capped": False}

    def one(case):
        if stop.is_set() and out["fail"] is None:
            return
        if time.time() > deadline and out["fail"] is None:
            out["capped"] = True
            return
        kind, info = core.evaluate(prop, case)
        if out["fail"] is None:
            out["evaluations"] += 1
        if kind == "skip":
            out["skips"][info] = out["skips"].get(info, 0) + 1
            return
        if kind == "fail":
            out["fail"] = (json.loads(core.canon(case)), info)
            raise core.Violation(info)
        if out["fail"] is None:
            for t in info:
                out["tags"][t] = out["tags"].get(t, 0) + 1
            if prop.nontrivial(case, info):
                h = core.digest(case)
                if h not in out["hashes"]:
                    out["hashes"].add(h)
                    if len(out["samples"]) < 2 and len(core.canon(case)) < 6000:
                        out["samples"].append(json.loads(core.canon(case)))

    # Fixed cases are spread over the shards.
    for k, case in enumerate(prop.fixed()):
        if k % SHARDS == idx:
            try:
                one(case)
            except core.Violation:
                stop.set()
                out["hashes"] = sorted(out["hashes"])
                return out

    if count > 0:
        test = given(prop.strategy(tier))(one)
        test = settings(
            max_examples=count, deadline=None, database=None, derandomize=False,
            report_multiple_bugs=False, print_blob=False, verbosity=hypothesis.Verbosity.quiet,
            phases=(Phase.generate,) if os.environ.get("VF_NOSHRINK") else (Phase.generate, Phase.shrink),
            suppress_health_check=list(HealthCheck))(test)
        test = hypothesis.seed("{}:{}:{}".format(pid, seed, idx))(test)
        try:
            test()
        except BaseException:
            if out["fail"] is None:
                raise
        if out["fail"] is not None:
            stop.set()
    out["hashes"] = sorted(out["hashes"])
    return out


def write(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp%d" % os.getpid()
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1, sort_keys=True)
        f.write("\n")
    os.replace(tmp, path)


def known_findings(pid):
    """Listed (unrepaired) findings of this property: {"property", "case", "what"}."""
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        data = json.load(f)
    return [k for k in data["findings"] if k["property"] == pid]


def replay(pid, path):
    prop = find(pid)
    with open(path) as f:
        rec = json.load(f)
    kind, info = core.evaluate(prop, rec["case"])
    print("replay:", kind, info)
    if kind == "fail":
        print("VIOLATION property={} replay={}".format(pid, path))
        return 1
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--n", type=int, default=None)
    ap.add_argument("--replay", default=None)
    ap.add_argument("--cap", type=float, default=None)
    args = ap.parse_args()
    t0 = time.time()
    scratch = setup_scratch()
    try:
        if args.replay:
            import warnings
            warnings.simplefilter("ignore")
            return replay(args.pid, args.replay)
        return run(args, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(args, t0):
    pid = args.pid
    prop = find(pid)
    total = args.n if args.n is not None else (prop.thorough if args.tier == "thorough" else prop.quick)
    cap = args.cap if args.cap is not None else (3000 if args.tier == "thorough" else 400)
    ctx = mp.get_context("fork")
    stop, q = ctx.Event(), ctx.Queue()
    procs = []
    for i in range(SHARDS):
        cnt = total // SHARDS + (1 if i < total % SHARDS else 0)
        p = ctx.Process(target=shard, args=(pid, args.seed, i, cnt, args.tier, t0 + cap, stop, q), daemon=True)
        p.start()
        procs.append(p)
    outs, hard = [], t0 + cap + 150
    pending = {i for i in range(SHARDS)}
    lost = []
    while pending:
        try:
            o = q.get(timeout=1.0)
            outs.append(o)
            pending.discard(o["idx"])
        except Exception:
            dead = [i for i in pending if not procs[i].is_alive()]
            if dead:
                try:                      # results still in the pipe?
                    while True:
                        o = q.get(timeout=1.0)
                        outs.append(o)
                        pending.discard(o["idx"])
                except Exception:
                    pass
                for i in dead:
                    if i in pending:
                        pending.discard(i)
                        lost.append(i)
            if time.time() > hard:
                for i in pending:
                    procs[i].terminate()
                    lost.append(i)
                pending.clear()
    for p in procs:
        p.join(timeout=5)

    errors = [o for o in outs if o.get("error")]
    good = [o for o in outs if not o.get("error")]
    fails = [o for o in good if o["fail"]]
    hashes = set()
    for o in good:
        hashes.update(o["hashes"])
    agg = lambda key: {k: sum(o[key].get(k, 0) for o in good)
                       for k in sorted({k for o in good for k in o[key]})}
    known, fresh = known_findings(pid), []
    for o in sorted(fails, key=lambda o: len(core.canon(o["fail"][0]))):
        fresh.append(o["fail"])
    evid = {
        "property": pid, "tier": args.tier, "seed": args.seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(o["evaluations"] for o in good),
            "distinct_nontrivial": len(hashes),
            "rule": prop.rule,
            "samples": [s for o in sorted(good, key=lambda o: o["idx"]) for s in o["samples"]][:4],
            "classes": agg("tags"),
            "skipped_outside_domain": agg("skips"),
            "shards": SHARDS, "time_capped": any(o["capped"] for o in good),
        },
        "assumptions": list(prop.assumptions),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    write(os.path.join(VERIF, "evidence", pid + ".json"), evid)

    for k in known:
        print("KNOWN-FINDING: property={} {}".format(pid, k["what"]))
    if fresh:
        case, msg = fresh[0]
        path = os.path.join(VERIF, "replays", pid + ".json")
        write(path, {"property": pid, "message": msg, "case": case, "seed": args.seed})
        print("failing case: " + core.canon(case)[:1500])
        print("reason: " + msg)
        print("replay with: /verif/check {} --replay {}".format(pid, path))
        print("VIOLATION property={} replay={}".format(pid, path))
        return 1
    if errors or lost:
        for o in errors:
            print(o["error"])
        print("harness error: {} shard errors, {} shards lost".format(len(errors), len(lost)))
        return 2
    cov = evid["coverage"]
    print("OK property={} cases={} distinct_nontrivial={} skipped={} wall={}s".format(
        pid, cov["evaluations"], cov["distinct_nontrivial"],
        sum(cov["skipped_outside_domain"].values()), evid["wall_s"]))
    return 0


if __name__ == "__main__":
    sys.exit(main())
