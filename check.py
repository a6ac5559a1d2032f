"""Entry point of every check:  check.py <property> [--replay FILE] [--runs N] [--seed N] [--determinism N]

Exit 0: the property held on everything explored.  Exit 1 with a VIOLATION line: it is broken.
Exit 2: the check itself failed (never a verdict)."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--selftest", action="store_true", help="import every simulation (the setup command)")
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--seed", type=int)
    ap.add_argument("--tier")
    ap.add_argument("--workers", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--show", type=int, help="generate and print run INDEX with its event log")
    ap.add_argument("--digests", type=int, help="print the digests of the first N runs (determinism proof)")
    args = ap.parse_args(argv)
    if os.environ.get("PYTHONHASHSEED") != "0" or "VERIF_CHILD" not in os.environ:
        env = dict(os.environ)  # the hash seed of the interpreter is fixed: the simulator chooses the hashes of labels
        env.update(PYTHONHASHSEED="0", VERIF_CHILD="1", PYTHONDONTWRITEBYTECODE="1", BROWSER="true")
        python = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
        os.execve(python, [python, "-W", "ignore", os.path.join(HERE, "check.py")] + argv, env)
    sys.path.insert(0, HERE)
    from sim import core, registry
    if args.selftest:
        import importlib.util
        ids = [i for i in registry.all_ids() if importlib.util.find_spec("sim." + registry.MODULES[i])]
        for pid in ids:
            registry.scenario(pid)
        core.load_findings()
        print("simulations ready:", " ".join(ids))
        return 0
    scn = registry.scenario(args.property)
    seed = args.seed if args.seed is not None else int(os.environ.get("VERIF_SEED", "1"))
    tier = args.tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if args.replay:
        return core.replay_file(scn, args.replay)
    if args.show is not None:
        import json
        import random
        scn.setup()
        trace = scn.generate(random.Random(core.run_seed(seed, scn.id, args.show)), args.show, tier)
        v, rec, ab = core.execute(scn, trace, keep_log=True)
        print(json.dumps(trace))
        print("\n".join(rec.log_lines))
        print(v, rec.faults, rec.probes, "abandoned" if ab else "", rec.digest())
        return 0
    if args.digests:
        import random
        scn.setup()
        for i in range(args.digests):
            trace = scn.generate(random.Random(core.run_seed(seed, scn.id, i)), i, tier)
            v, rec, ab = core.execute(scn, trace)
            print(i, rec.digest())
        return 0
    return core.check(scn, tier, seed, args.runs, args.workers, args.wall)


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
