"""Simulation driver: seeds, worker processes, minimisation, replay files, evidence.

One integer (VERIF_SEED) decides everything: run i of property P draws all its choices from
random.Random(sha256(VERIF_SEED, P, tier-independent i)).  A run is `generate` (seed -> trace, plain JSON: configuration,
operations, schedule decisions, faults) followed by `run` (trace -> execution of the real code under the
simulator, raising Violation).  `run` reads nothing but the trace, so a trace is a replay file.
"""
import hashlib
import json
import os
import pickle
import random
import signal
import subprocess
import sys
import time
import traceback
from collections import Counter

# real clocks and signal functions, taken before any simulator replaces them
real_monotonic = time.monotonic
real_setitimer = signal.setitimer
real_signal = signal.signal
real_stdout = sys.stdout
real_stderr = sys.stderr

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
RESEARCH = os.path.join(REPO, "Python", "research")
DEMO = os.path.join(RESEARCH, "scripts", "demo")
RELNET = os.path.join(RESEARCH, "scripts", "relnet")
HANG_CPU_S = 25.0          # CPU seconds for one simulated run; the slowest take well under a second


class Violation(Exception):
    """The property under check is broken; `kind` is the violation class kept by the minimiser."""

    def __init__(self, kind, message):
        super().__init__(f"{kind}: {message}")
        self.kind = kind
        self.message = str(message)[:2000]


class HarnessError(Exception):
    """Something the harness cannot judge (not a violation)."""


class Abandon(Exception):
    """The run met a divergence that belongs to another property; it is dropped and counted."""


class HangDetected(BaseException):
    pass


class Rec:
    """What a run leaves behind: event log digest, fault and probe counts, simulated time."""

    def __init__(self, keep_log=False):
        self._h = hashlib.sha1()
        self.faults = Counter()
        self.probes = Counter()
        self.ops = 0
        self.sim_time = 0.0
        self.nontrivial = False
        self.log_lines = [] if keep_log else None

    def log(self, *event):
        line = repr(event)
        self._h.update(line.encode("utf-8", "backslashreplace"))
        self._h.update(b"\n")
        if self.log_lines is not None:
            self.log_lines.append(line)

    def fault(self, kind, n=1):
        self.faults[kind] += n
        self._h.update(b"F" + kind.encode())

    def probe(self, name, n=1):
        self.probes[name] += n

    def digest(self):
        return self._h.hexdigest()


def run_seed(base_seed, pid, index):
    h = hashlib.sha256(f"{base_seed}|{pid}|{index}".encode()).digest()
    return int.from_bytes(h[:8], "big")


class Scenario:
    """Base class of the per-property simulations."""
    id = None
    level = "exploration"
    quick_runs = 2000
    thorough_runs = 40000
    rule = ""
    distinct_measure = ""
    real_components = []
    stub_components = []
    assumptions = []

    def setup(self):
        """Import the code under test (once per process)."""

    def generate(self, rng, index, tier):
        raise NotImplementedError

    def run(self, trace, rec):
        raise NotImplementedError

    def simplify_op(self, op):
        """Simpler variants of one operation, most aggressive first."""
        if isinstance(op, dict):
            for key in ("cancel", "fault"):
                if key in op:
                    yield {k: v for k, v in op.items() if k != key}

    def simplify_config(self, trace):
        return ()


def execute(scn, trace, keep_log=False):
    """Run one trace; returns (violation or None, rec, abandoned)."""
    rec = Rec(keep_log)
    trace = json.loads(json.dumps(trace))

    def on_prof(signum, frame):
        raise HangDetected()

    violation, abandoned = None, False
    old = real_signal(signal.SIGPROF, on_prof)
    real_setitimer(signal.ITIMER_PROF, HANG_CPU_S, 1.0)
    try:
        scn.run(trace, rec)
    except Violation as v:
        violation = v
    except Abandon:
        abandoned = True
        rec.probe("abandoned_other_property")
    except Exception as e:
        frames = traceback.extract_tb(e.__traceback__)
        inside = [f for f in frames if f.filename.startswith(REPO)]
        if inside:
            violation = Violation("unexpected-exception:" + type(e).__name__, f"{e!r} at {inside[-1].filename}:{inside[-1].name}")
        elif any(f.name.startswith("obs_") for f in frames):
            violation = Violation("unreadable-result:" + type(e).__name__,
                                  f"{e!r} while reading a result in {[f.name for f in frames if f.name.startswith('obs_')][0]}")
        elif isinstance(e, (OSError, MemoryError)):
            raise           # the sandbox, not the code under test
        else:               # an answer that the oracle cannot even evaluate
            violation = Violation("unusable-result:" + type(e).__name__, f"{e!r} at {frames[-1].name if frames else '?'}")
    except HangDetected:
        violation = Violation("no-progress", f"a simulated run used more than {HANG_CPU_S} CPU seconds")
    finally:
        real_setitimer(signal.ITIMER_PROF, 0)
        real_signal(signal.SIGPROF, old)
        sys.settrace(None)
        sys.stdout, sys.stderr = real_stdout, real_stderr
    if violation:
        rec.log("VIOLATION", violation.kind)
    return violation, rec, abandoned


def _worker(scn, base_seed, tier, indices, deadline, recheck_every, out_path):
    res = dict(runs=0, faults=Counter(), probes=Counter(), ops=0, sim_time=0.0, digests=set(), nontrivial=set(),
               violation=None, rechecked=0, recheck_diff=[], error=None, samples=[], abandoned=0)
    index = None
    try:
        scn.setup()
        for index in indices:
            if real_monotonic() > deadline:
                break
            trace = scn.generate(random.Random(run_seed(base_seed, scn.id, index)), index, tier)
            violation, rec, abandoned = execute(scn, trace)
            res["runs"] += 1
            res["faults"].update(rec.faults)
            res["probes"].update(rec.probes)
            res["ops"] += rec.ops
            res["sim_time"] += rec.sim_time
            res["abandoned"] += abandoned
            d = bytes.fromhex(rec.digest())[:8]
            res["digests"].add(d)
            if rec.nontrivial and not abandoned:
                res["nontrivial"].add(d)
            if len(res["samples"]) < 1 and rec.nontrivial:
                res["samples"].append(dict(index=index, seed=run_seed(base_seed, scn.id, index), trace=trace))
            if violation:
                res["violation"] = dict(index=index, kind=violation.kind, message=violation.message, trace=trace)
                break
            if recheck_every and res["runs"] % recheck_every == 0:
                _, rec2, _ = execute(scn, trace)
                res["rechecked"] += 1
                if rec2.digest() != rec.digest():
                    res["recheck_diff"].append(index)
    except BaseException:
        res["error"] = f"run index {index}\n" + traceback.format_exc()
    with open(out_path, "wb") as f:
        pickle.dump(res, f)


def sweep(scn, base_seed, tier, runs, wall_limit, workers, scratch, first=0, recheck_every=50):
    deadline = real_monotonic() + wall_limit
    pids = []
    for w in range(workers):
        out = os.path.join(scratch, f"w{w}.pkl")
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                _worker(scn, base_seed, tier, range(first + w, first + runs, workers), deadline, recheck_every, out)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                real_stdout.flush()
                os._exit(code)
        pids.append((pid, out))
    total = dict(runs=0, faults=Counter(), probes=Counter(), ops=0, sim_time=0.0, digests=set(), nontrivial=set(),
                 violations=[], rechecked=0, recheck_diff=[], errors=[], samples=[], abandoned=0)
    for pid, out in pids:
        _, status = os.waitpid(pid, 0)
        if status != 0 or not os.path.exists(out):
            total["errors"].append(f"worker ended with status {status}")
            continue
        with open(out, "rb") as f:
            r = pickle.load(f)
        for k in ("runs", "ops", "sim_time", "rechecked", "abandoned"):
            total[k] += r[k]
        total["faults"].update(r["faults"])
        total["probes"].update(r["probes"])
        total["digests"] |= r["digests"]
        total["nontrivial"] |= r["nontrivial"]
        total["samples"] += r["samples"]
        total["recheck_diff"] += r["recheck_diff"]
        if r["violation"]:
            total["violations"].append(r["violation"])
        if r["error"]:
            total["errors"].append(r["error"])
    total["violations"].sort(key=lambda v: v["index"])
    total["samples"].sort(key=lambda s: s["index"])
    return total


# ------------------------------------------------------------------------------------------------ minimisation

def _fails(scn, trace, kind):
    try:
        v, _, _ = execute(scn, trace)
    except Exception:
        return None
    return v if v is not None and v.kind == kind else None


def minimise(scn, trace, kind, budget_s=45.0):
    """ddmin over the operations, then over single operations and configuration, keeping the violation class."""
    end = real_monotonic() + budget_s
    best = json.loads(json.dumps(trace))

    def attempt(candidate):
        nonlocal best
        if real_monotonic() > end:
            return False
        if _fails(scn, candidate, kind):
            best = candidate
            return True
        return False

    def ddmin():
        n = 2
        while len(best["ops"]) >= 1 and real_monotonic() < end:
            ops = best["ops"]
            size = max(1, -(-len(ops) // n))
            reduced = False
            for start in range(0, len(ops), size):
                if attempt({**best, "ops": ops[:start] + ops[start + size:]}):
                    n = max(n - 1, 2)
                    reduced = True
                    break
            if not reduced:
                if size == 1:
                    break
                n = min(len(ops), n * 2)

    changed = True
    rounds = 0
    while changed and rounds < 6 and real_monotonic() < end:
        changed = False
        rounds += 1
        before = json.dumps(best)
        ddmin()
        i = 0
        while i < len(best["ops"]):
            again = True
            while again and real_monotonic() < end:
                again = False
                for simpler in scn.simplify_op(best["ops"][i]):
                    if attempt({**best, "ops": best["ops"][:i] + [simpler] + best["ops"][i + 1:]}):
                        again = True
                        break
            i += 1
        again = True
        while again and real_monotonic() < end:
            again = False
            for candidate in scn.simplify_config(best):
                if attempt(candidate):
                    again = True
                    break
        changed = json.dumps(best) != before
    return best


# ------------------------------------------------------------------------------------------------ check driver

def load_findings():
    with open(os.path.join(VERIF, "known-findings.json")) as f:
        return json.load(f)


def _json_safe(x, depth=0):
    s = json.dumps(x, default=str)
    if len(s) > 6000:
        if isinstance(x, dict) and "trace" in x and isinstance(x["trace"], dict) and "ops" in x["trace"]:
            y = json.loads(s)
            ops = y["trace"]["ops"]
            while len(json.dumps(y)) > 6000 and len(ops) > 1:
                del ops[len(ops) // 2:]
            y["trace"]["ops_truncated_to"] = len(ops)
            return y
        return s[:6000]
    return json.loads(s)


def check(scn, tier, seed, runs=None, workers=None, wall_limit=None):
    start = real_monotonic()
    workers = workers or min(8, os.cpu_count() or 1)
    runs = runs or (scn.quick_runs if tier == "quick" else scn.thorough_runs)
    wall_limit = wall_limit or (240 if tier == "quick" else 3000)
    scratch = subprocess.run(["mktemp", "-d", "/tmp/verif-sim-XXXXXX"], capture_output=True, text=True,
                             check=True).stdout.strip()
    try:
        os.environ["VERIF_SCRATCH"] = scratch
        scn.setup()
        known_lines = []
        for finding in load_findings()["known"]:
            if finding["property"] != scn.id:
                continue
            v, _, _ = execute(scn, finding["trace"])
            if v is not None and v.kind == finding["kind"]:
                known_lines.append(f"KNOWN-FINDING: property={scn.id} {finding['what']}")
            elif v is not None:
                return _report(scn, tier, seed, dict(index=-1, kind=v.kind, message=v.message,
                                                     trace=finding["trace"]), None, start, runs, workers)
        for line in known_lines:
            print(line)
        total = sweep(scn, seed, tier, runs, wall_limit, workers, scratch)
        if total["violations"]:
            return _report(scn, tier, seed, total["violations"][0], total, start, runs, workers)
        if total["errors"]:
            print("HARNESS-ERROR " + total["errors"][0], file=sys.stderr)
            return 2
        write_evidence(scn, tier, seed, total, real_monotonic() - start, runs, workers, 0, known_lines)
        print(f"OK property={scn.id} tier={tier} seed={seed} runs={total['runs']} "
              f"distinct_nontrivial={len(total['nontrivial'])} wall={real_monotonic() - start:.1f}s "
              f"abandoned={total['abandoned']} rechecked={total['rechecked']} diff={len(total['recheck_diff'])}")
        return 0
    finally:
        subprocess.run(["rm", "-rf", scratch])


def _report(scn, tier, seed, violation, total, start, runs, workers):
    minimal = minimise(scn, violation["trace"], violation["kind"])
    v = _fails(scn, minimal, violation["kind"])
    message = v.message if v else violation["message"]
    if v is None:
        minimal = violation["trace"]
    path = os.path.join(VERIF, "evidence", "replays", f"{scn.id}-{seed}-{violation['index']}.json")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    replay = dict(property=scn.id, seed=seed, index=violation["index"], tier=tier, kind=violation["kind"],
                  message=message, ops_before_minimising=len(violation["trace"]["ops"]),
                  ops=len(minimal["ops"]), trace=minimal)
    with open(path, "w") as f:
        json.dump(replay, f, indent=1)
    again = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), scn.id, "--replay", path],
                           capture_output=True, text=True)
    reproduced = again.returncode == 1 and f"VIOLATION property={scn.id}" in again.stdout
    if total is not None:
        write_evidence(scn, tier, seed, total, real_monotonic() - start, runs, workers, 1, [],
                       extra=dict(violation=dict(kind=violation["kind"], message=message, replay=path,
                                                 replay_reproduces_in_fresh_process=reproduced)))
    print(f"violation kind: {violation['kind']}")
    print(f"violation: {message}")
    print(f"seed={seed} index={violation['index']} ops={replay['ops_before_minimising']} "
          f"minimised={replay['ops']} replay_reproduces={reproduced}")
    print(f"VIOLATION property={scn.id} replay={path}")
    return 1


def replay_file(scn, path):
    with open(path) as f:
        replay = json.load(f)
    scn.setup()
    v, rec, _ = execute(scn, replay["trace"])
    if v is None:
        print(f"replay of {path}: property held, digest {rec.digest()}")
        return 0
    print(f"violation kind: {v.kind}")
    print(f"violation: {v.message}")
    print(f"digest {rec.digest()}")
    if v.kind != replay["kind"]:
        print(f"(recorded kind was {replay['kind']})")
    print(f"VIOLATION property={scn.id} replay={path}")
    return 1


def write_evidence(scn, tier, seed, total, wall, runs, workers, violations, known, extra=None):
    hours = max(wall, 1e-6) / 3600.0
    cov = dict(
        evaluations=total["runs"],
        distinct_nontrivial=len(total["nontrivial"]),
        rule=scn.rule,
        samples=[_json_safe(s) for s in total["samples"][:2]],
        distinct_executions=len(total["digests"]),
        distinct_measure=scn.distinct_measure or "SHA-1 of the complete event log of a run (operations with their results, schedule decisions, faults fired)",
        seeds=f"sha256(VERIF_SEED={seed}, {scn.id}, i) for i in 0..{runs - 1}",
        simulated_runs_and_seeds_per_hour=round(total["runs"] / hours),
        operations_executed=total["ops"],
        simulated_time_s=round(total["sim_time"], 3),
        faults_injected=dict(sorted(total["faults"].items())),
        probes=dict(sorted(total["probes"].items())),
        real_components=scn.real_components,
        stub_components=scn.stub_components,
        determinism=dict(runs_executed_twice=total["rechecked"], differing=len(total["recheck_diff"])),
        runs_abandoned_for_other_properties=total["abandoned"],
        workers=workers,
        known_findings=known,
    )
    if extra:
        cov.update(extra)
    ev = dict(property=scn.id, tier=tier, seed=seed, level=scn.level, coverage=cov,
              assumptions=list(scn.assumptions), wall_s=round(wall, 3), violations=violations)
    path = os.path.join(VERIF, "evidence", f"{scn.id}.json")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(path + ".tmp", path)
