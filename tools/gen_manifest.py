"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from sim.registry import MODULES  # noqa: E402

TECHNIQUE = {
    "rel_history": "deterministic simulation: seeded histories of concurrent clients with cancellation, provider and call-back faults, checked step by step against a reference model",
    "rel_order": "deterministic simulation: the same seeded history executed under several simulated hash assignments and insertion orders, results compared",
    "rel_join": "deterministic simulation: seeded factor networks joined under simulated hash orders, cancellation and provider faults, compared with a reference natural join",
    "rel_threads": "deterministic simulation: real threads under a seeded line-level scheduler, every answer compared with the single-threaded one",
    "rel_generate": "deterministic simulation: seeded networks generated under simulated hash orders, cancellation and interleaved clients, compared with a reference enumeration",
    "rel_visual": "deterministic simulation: seeded histories with a fault-injecting file system (open, write, close, disk full), written pages compared with the object's content",
    "game_run": "deterministic simulation: whole games with scripted hostile agents under a simulated clock, alarm and streams, history checked against a reference game",
    "game_rules": "deterministic simulation: seeded games and random streams, checked after every move against a reference model of the rules",
    "game_ui": "deterministic simulation: whole games on a simulated window system, clock and event schedule, the screen and key handling checked at every turn",
    "game_files": "deterministic simulation: batches of games on a fault-injecting file system and simulated clock, files checked after every step",
    "game_draws": "deterministic simulation: interleaved draws and changes of shared distributions with every random number chosen by the simulator, shares over the unit interval compared with exact probabilities",
    "game_states": "deterministic simulation: clients expanding, replaying, editing and comparing states of shared games in seeded order with calls cut off at any line, tables and explored sets compared with a reference model",
    "game_demo": "deterministic simulation: the whole demo program on a simulated window system, clock and random source with a simulated player who may close the window, every move, frame and key judged",
    "game_cli": "deterministic simulation: seeded command lines read and played in simulated module and layout directories with failing and vanishing modules, under simulated random states, compared with a reference reading of the options",
}
NOTE = ("Seeded search, not a proof: held on every simulated run of the sweep (counts, faults fired and distinct executions are in "
        "the evidence file). Trusts the reference model in /verif/sim and CPython; the code under test runs unmodified.")
NA = {
    "C25": "a pure arithmetic identity between two inference algorithms on one finished input: no schedule, time, I/O, fault or interleaving can change it, and the joint distribution it rests on is decided by C05 and C08",
    "C27": "sequential in-memory containers with no concurrency, time, I/O or multi-party behaviour; a plain model-based unit test decides them",
    "C28": "a pure geometric function from a wall grid to line coordinates, independent of time, events and faults",
}


def main():
    props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        pid = p["id"]
        if pid in NA:
            na.append(dict(property=pid, reason=NA[pid]))
        elif not os.path.exists(os.path.join(VERIF, "sim", MODULES[pid] + ".py")):
            na.append(dict(property=pid, reason="its simulation is not built yet"))
        else:
            checks.append(dict(property=pid, quick_cmd=f"python3 check.py {pid}",
                               thorough_cmd=f"VERIF_TIER=thorough python3 check.py {pid}",
                               evidence_file=f"evidence/{pid}.json", technique=TECHNIQUE[MODULES[pid]],
                               level="exploration", level_note=NOTE))
    m = dict(version=1, setup_cmd="python3 check.py --selftest", checks=checks, not_applicable=na,
             notes="No hooks: every seam the simulator needs (time, signal, random, tkinter, files, labels, components "
                   "provider) can be replaced from outside, so /repo has fix: commits only. VERIF_REPO=<copy> runs a check on a copy.")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
