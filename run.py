"""Entry point of every check.

    run.py <property>            run the check at $VERIF_TIER with $VERIF_SEED
    run.py --replay <file>       re-execute the recorded calls of a violation

Exit 0: the monitors saw no violation.  Exit 1: VIOLATION line printed.
Exit 2: inconclusive or the check itself failed.
"""

import json
import os
import shutil
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B", "-W", "ignore"] + sys.argv)

sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
warnings.simplefilter("ignore")

WORKERS = 8


def worker(pid, seed, w, tier, conn, cache):
    sys.pycache_prefix = cache
    try:
        from epcmon import api, checks, core
        ctx = core.Ctx(pid, seed, w, tier)
        api.Hangs(ctx.lib).start()
        try:
            checks.RUN[pid](ctx)
        except core.Stop:
            pass
        conn.send(("done", ctx.result()))
    except BaseException:
        conn.send(("error", traceback.format_exc()))
    finally:
        conn.close()


def main(pid):
    import multiprocessing as mp
    from epcmon import checks, known
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    cache = tempfile.mkdtemp(prefix="epcmon-")
    budget = float(os.environ.get("EPCMON_WATCHDOG", "840"))
    results, errors = [], []
    try:
        ctx = mp.get_context("fork")
        procs = []
        for w in range(WORKERS):
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(pid, seed, w, tier, b, cache))
            p.start()
            b.close()
            procs.append((p, a))
        for p, a in procs:
            left = max(0.0, budget - (time.monotonic() - t0))
            try:
                if not a.poll(left):
                    errors.append("a worker did not finish within the watchdog")
                    continue
                kind, v = a.recv()
                (results if kind == "done" else errors).append(v)
            except EOFError:
                errors.append("a worker died")
        for p, a in procs:
            if p.is_alive() and errors:
                p.kill()
            p.join()
    finally:
        shutil.rmtree(cache, ignore_errors=True)

    distinct = set()
    evaluations = unclaimed = branches = 0
    notes, calls, samples, violations = {}, {}, [], []
    for r in results:
        distinct |= r["decisive"]
        evaluations += r["evaluations"]
        unclaimed += r["unclaimed"]
        branches = max(branches, r["branches"])
        samples += r["samples"][-2:]
        violations += r["violations"]
        for d, src in ((notes, r["notes"]), (calls, r["calls"])):
            for k, v in src.items():
                d[k] = d.get(k, 0) + v
    fresh, old = known.split(pid, violations)
    for f in sorted({k for _, k in old}):
        print("KNOWN-FINDING: property=%s %s" % (pid, f))

    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(distinct),
            "rule": checks.RULE.get(pid, checks.RULE_DEFAULT),
            "samples": samples[:12] or ["none"],
        },
        "wall_s": round(time.monotonic() - t0, 2),
        "assumptions": checks.ASSUMPTIONS.get(pid, checks.ASSUMPTIONS_DEFAULT),
        "violations": len(fresh),
        "observed_calls": calls,
        "observed": notes,
        "verdicts_without_claim": unclaimed,
        "library_branch_outcomes_seen": branches,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    os.replace(path + ".tmp", path)

    if fresh:
        fresh.sort(key=lambda v: len(json.dumps(v)))
        rp = os.path.join(HERE, "evidence", "replay-%s-%s-%d.json" % (pid, tier, seed))
        with open(rp, "w") as f:
            json.dump({"property": pid, "tier": tier, "seed": seed, "violations": fresh[:10]}, f, indent=1)
        for v in fresh[:5]:
            print("  " + v["message"][:600])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if errors:
        print("INCONCLUSIVE property=%s" % pid)
        for e in errors[:3]:
            print(e)
        return 2
    need = checks.MUST_SEE.get(pid, ())
    missing = [n for n in need if not (notes.get(n) or calls.get(n))]
    if missing or not distinct:
        print("INCONCLUSIVE property=%s never observed: %s" % (pid, ", ".join(missing) or "a decisive call"))
        return 2
    print("HELD property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs" % (
        pid, tier, seed, evaluations, len(distinct), time.monotonic() - t0))
    return 0


def replay(path):
    sys.pycache_prefix = tempfile.mkdtemp(prefix="epcmon-")
    from epcmon import api
    data = json.load(open(path))
    same = True
    for v in data["violations"]:
        print(v["message"])
        for e, now, ok in api.Lib().replay(v["events"]):
            print("   %s%s -> %s%s" % (e["op"], tuple(e["args"]), now, "" if ok else "   (recorded: %s)" % (e["outcome"],)))
            same = same and ok
    shutil.rmtree(sys.pycache_prefix, ignore_errors=True)
    print("recorded outcomes reproduced" if same else "recorded outcomes NOT reproduced")
    return 1 if same else 0


if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(main(sys.argv[1]))
