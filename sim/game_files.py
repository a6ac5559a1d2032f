"""Batches of games with recording on a faulty disk (C21), layout search (C22), batches (C23)."""
import io
import os
import pickle
import random
import re
import sys

from . import pacmodel as M
from . import simdisk
from .core import Scenario, Violation, real_stderr, real_stdout
from .game_rules import choose
from .game_run import ERRORS, SCRIBBLES, h32, scribble
from .gamelib import SimOS, load

real_chdir = os.chdir


class Batch:
    """One call of the real runGames with scripted agents; remembers every game as it was played."""

    def __init__(self, lib, cfg, call, sim, rec):
        self.lib, self.cfg, self.call, self.sim, self.rec = lib, cfg, call, sim, rec
        self.board = M.Board(cfg["text"])
        self.played = []            # per game: dict(initial, actions, final, end)
        self.finals = 0
        w = self
        tricks = {(t["g"], t["a"], t["k"]): t for t in call.get("tricks", ())}

        def agent(i):
            class Scripted(lib.game.Agent):
                def registerInitialState(self, state):
                    w.cur["registered"].append((i, M.obs_state(state)))
                    t = tricks.get((len(w.played) - 1, i, -1))
                    if t:
                        w.trick(t, state)

                def getAction(self, state):
                    g = w.cur
                    k = g["count"].get(i, 0)
                    g["count"][i] = k + 1
                    seen = M.obs_state(state)
                    g["seen"] = g["seen"] or seen
                    t = tricks.get((len(w.played) - 1, i, k))
                    act = None
                    if t:
                        act = w.trick(t, state)
                    if act is None:
                        if len(g["actions"]) >= w.cfg["cap"]:
                            act = "give up"         # illegal: ends the game (catch) or the batch
                        else:
                            how = cfg["policy"][i % len(cfg["policy"])]
                            act = choose(model_of(w.board, seen), i, how, h32(cfg["seed"], call["n"], len(w.played), i, k)) or "Stop"
                    g["actions"].append((i, act))
                    return act
            return Scripted(i)
        self.agents = [agent(i) for i in range(1 + call["ghosts"])]

        class Display:
            def initialize(self, data, *rest):
                w.played.append(dict(initial=M.obs_data(data), actions=[], count={}, seen=None, registered=[], updates=[], finished=0))
                w.cur = w.played[-1]
                w.tick("initialize")

            def update(self, data):
                w.cur["updates"].append(M.obs_data(data))
                w.tick("update")

            def finish(self):
                w.cur["finished"] += 1
                w.tick("finish")
        self.display = Display()
        self.ticks = {(t["where"], t["n"]): t for t in call.get("ticks", ())}
        self.counts = {}

    def tick(self, where):
        k = self.counts.get(where, 0)
        self.counts[where] = k + 1
        t = self.ticks.get((where, k))
        self.sim.advance(self.cfg["pace"])
        if t:
            self.sim.skew += t["dt"]
            self.rec.fault("clock_stepped")

    def trick(self, t, state):
        if t["do"] == "raise":
            self.rec.fault("agent_raised")
            raise ERRORS[t["what"]]("scripted failure")
        if t["do"] == "slow":
            self.rec.fault("agent_slow")
            self.sim.advance(t["dt"])
        elif t["do"] == "illegal":
            self.rec.fault("illegal_move")
            return "Nowhere"
        elif t["do"] == "scribble":
            self.rec.fault("scribbled")
            scribble(t["what"], state, t["k"])
        return None

    def run(self, layout):
        """-> games or the exception; output in self.out."""
        self.out, self.err = io.StringIO(), io.StringIO()
        sys.stdout, sys.stderr = self.out, self.err
        call = self.call
        try:
            return self.lib.pacman.runGames(layout, self.agents[0], self.agents[1:], self.display, call["games"], call.get("record", False),
                                            catchExceptions=call["catch"], timeout=call.get("timeout", 30))
        except Exception as e:
            return e
        finally:
            sys.stdout, sys.stderr = real_stdout, real_stderr

    def initial(self):
        return M.St.initial(self.board, self.call["ghosts"])

    def histories(self, g):
        """The move histories game g can have: the moves that took effect, and perhaps a last one that was refused."""
        p = self.played[g]
        n = len(p["updates"])
        return [p["actions"][:n], p["actions"][:n + 1]]

    def replay(self, actions):
        m = self.initial()
        for k, (i, act) in enumerate(actions):
            try:
                m = m.step(i, act)
            except M.Illegal:
                if k != len(actions) - 1:
                    return None
        return m


def model_of(board, snap):
    m = M.St.initial(board)
    m.ag = m.ag[:len(snap["agents"])]
    for a, (pos, d, timer, _) in zip(m.ag, snap["agents"]):
        a.pos = tuple(int(c) if c == int(c) else c for c in pos)
        a.dir, a.timer = d, timer
    m.food, m.caps, m.score, m.win, m.lose = snap["food"], frozenset(snap["capsules"]), snap["score"], snap["win"], snap["lose"]
    return m


def random_call(rng, n, board, record, pid):
    games = rng.choice([1, 1, 2, 3, 4]) if rng.random() < 0.95 else 0
    call = dict(n=n, games=games, record=record, catch=rng.random() < 0.75, ghosts=board.ghosts if rng.random() < 0.8 else rng.randint(0, board.ghosts + 1),
                timeout=rng.choice([30, 30, 2]))
    tricks = []
    for _ in range(rng.choice([0, 0, 1, 3])):
        t = dict(g=rng.randrange(max(1, games)), a=rng.randrange(1 + call["ghosts"]), k=rng.choice([-1, 0, 1, 2, 5]))
        x = rng.random()
        if x < 0.35 and (call["catch"] or rng.random() < 0.3):
            t.update(do="raise", what=rng.choice(sorted(set(ERRORS) - {"BadStr"})))
        elif x < 0.5:
            t.update(do="illegal")
        elif x < 0.7:
            t.update(do="slow", dt=rng.choice([0.5, 1.5, 3.25, 40.25]))
        else:
            t.update(do="scribble", what=rng.choice(SCRIBBLES))
        tricks.append(t)
    call["tricks"] = tricks
    return call


def well_behaved(call):
    return not any(t["do"] in ("raise", "illegal") for t in call["tricks"])


class Records(Scenario):
    id = "C21"
    quick_runs = 14000
    thorough_runs = 200000
    rule = ("one evaluation = 1-4 batches of games recorded into one directory on a faulty disk under a stepped clock, with other files and "
            "other processes' records in it; after every batch and crash each file is read back, matched with a game and replayed; "
            "non-trivial when at least one record was written or a fault fired")
    real_components = ["scripts/demo/pacman.py runGames, game.py, layout.py, pickle, the file system (scratch directory)"]
    stub_components = ["agents and display (scripted)", "clock", "open() with injected faults and crashes"]
    assumptions = ["a crash loses what was not yet written, nothing that was written earlier", "no other process deletes or renames records"]

    def setup(self):
        load()

    def generate(self, rng, index, tier):
        text = M.random_board(rng, wmax=6, hmax=5, ghosts=(0, 2), caps=(0, 1), food=0.2)
        board = M.Board(text)
        cfg = dict(text=text, seed=rng.randrange(1 << 30), cap=rng.choice([5, 15, 60]), pace=rng.choice([0.0, 0.0, 0.01, 0.4]),
                   policy=[rng.choice(["food", "rand", "food"]), rng.choice(["chase", "rand"])], wall=1.7e9 + rng.randrange(10 ** 7),
                   stale=rng.random() < 0.4)
        ops = []
        for n in range(rng.choice([1, 2, 2, 4])):
            call = random_call(rng, n, board, rng.random() < 0.93, self.id)
            call["op"] = "batch"
            call["ticks"] = [dict(where=rng.choice(["initialize", "update", "finish"]), n=rng.randint(0, 4), dt=rng.choice([-1, -60, -3600, 60, 1, -0.5, 86400]))
                             for _ in range(rng.choice([0, 0, 1, 2]))]
            x = rng.random()
            if x < 0.55:
                kind = rng.choice(["open", "write", "write", "close", "flush"])
                call["fault"] = dict(kind=kind, nth=rng.randint(1, max(1, call["games"])), errno=rng.choice(["ENOSPC", "EIO", "EDQUOT", "EACCES", "EROFS"]))
                if kind == "write":
                    call["fault"]["at"] = rng.choice([0, 1, 10, 50, 200, 1000, rng.randint(0, 3000)])
                elif kind != "open":
                    call["fault"]["at"] = rng.choice([0.0, 0.3, 0.9, 0.999])
                if rng.random() < 0.4:
                    call["fault"]["crash"] = True
            elif x < 0.7:
                call["rival"] = rng.randint(1, max(1, call["games"]))
            ops.append(call)
            if rng.random() < 0.4:
                ops.append(dict(op="clock", dt=rng.choice([-1, -2, -3600, -86400, 1, 3600])))
            if rng.random() < 0.2:
                ops.append(dict(op="litter", k=rng.randint(1, 3)))
        return dict(config=cfg, ops=ops)

    def run(self, trace, rec):
        lib = load()
        lib.reset()
        cfg = trace["config"]
        root = simdisk.scratch_dir()
        old = os.getcwd()
        sim = SimOS(rec, random.Random(cfg["seed"]), wall0=cfg["wall"])
        disk = simdisk.Disk(root, rec)
        layout = lib.layout.Layout(list(cfg["text"]))
        real_chdir(root)
        try:
            if cfg["stale"]:
                simdisk.fill(root, {"notes.txt": "keep", "recorded-game-1": "old", "layouts/x.lay": "%%"})
            with sim:
                for op in trace["ops"]:
                    rec.ops += 1
                    if op["op"] == "clock":
                        sim.skew += op["dt"]
                        rec.fault("clock_stepped")
                    elif op["op"] == "litter":
                        # a file with the very name the next record would take
                        for g in range(op["k"]):
                            name = ("recorded-game-%d" % (g + 1)) + "-".join(str(t) for t in sim.localtime()[1:6])
                            if not os.path.exists(os.path.join(root, name)):
                                simdisk.fill(root, {name: "someone else's"})
                    else:
                        self.batch(lib, cfg, op, sim, disk, layout, root, rec)
        finally:
            real_chdir(old)
            simdisk.clear(root)
            os.rmdir(root)
        rec.sim_time = sim.now

    def batch(self, lib, cfg, op, sim, disk, layout, root, rec):
        b = Batch(lib, cfg, op, sim, rec)
        before = simdisk.snapshot(root)
        disk.arm([op["fault"]] if op.get("fault") else ())
        rival = {}
        count = [0]

        def on_open(path, mode):
            if not any(c in mode for c in "wax+"):
                return
            count[0] += 1
            if op.get("rival") == count[0] and not os.path.exists(path) and disk.inside(path):
                with simdisk.real_open(path, "w") as f:
                    f.write("another process's record")
                rival[os.path.relpath(os.path.realpath(path), root)] = b"another process's record"
                rec.fault("rival_record")
        disk.on_open = on_open
        crashed = False
        with disk:
            try:
                games = b.run(layout)
            except simdisk.SimCrash:
                crashed, games = True, None
                rec.fault("crash_in_" + disk.fired[-1][1].split("/")[-1][:8] if disk.fired else "crash")
                sys.stdout, sys.stderr = real_stdout, real_stderr
        for kind, _ in disk.fired:
            if not crashed:
                rec.fault("disk_" + kind)
        after = simdisk.snapshot(root)
        before.update(rival)
        if disk.escapes:
            raise Violation("wrote-elsewhere", str(disk.escapes))
        for name, data in before.items():
            if name not in after or after[name] != data:
                raise Violation("earlier-file-changed", f"{name}: {len(data or b'')} bytes before, "
                                f"{len(after[name]) if name in after and after[name] is not None else 'gone'} after")
        new = {n: d for n, d in after.items() if n not in before}
        if any(d is None for d in new.values()):
            raise Violation("unexpected-directory", str(sorted(new)))
        played = b.played
        records = {}
        for name in sorted(new):
            got = obs_record(new[name])
            if got is not None:
                records[name] = got
        if not op.get("record"):
            if new:
                raise Violation("record-unasked", str(sorted(new)))
            return
        # every readable new file is the complete record of one game of this batch
        spare = list(range(len(played)))
        for name, (lay, actions) in records.items():
            fit = [g for g in spare if actions in b.histories(g)]
            hit = next((g for g in fit if os.path.basename(name).startswith(f"recorded-game-{g + 1}")), fit[0] if fit else None)
            if hit is None:
                raise Violation("false-record", f"{name} holds {len(actions)} moves, which is no game of this batch "
                                f"(games of {[len(p['actions']) for p in played]} moves)")
            spare.remove(hit)
            want = M.board_layout(b.board)
            want["capsules"] = lay["capsules"]
            if lay != want or sorted(lay["capsules"]) != sorted(b.board.capsules):
                raise Violation("record-layout", f"{name}: {M.difference(lay, want)}")
        rec.probe("records", len(records))
        if isinstance(games, list):
            if len(games) != op["games"] or len(played) != op["games"]:
                raise Violation("games", f"{len(games)} games returned, {len(played)} played, {op['games']} asked")
            if len(records) != len(games):
                raise Violation("record-missing", f"{len(games)} games returned, complete records: {sorted(records)}, other new files: {sorted(set(new) - set(records))}"
                                f"; faults fired {disk.fired}")
            if len(new) != len(records):
                raise Violation("partial-record-ignored", f"{sorted(set(new) - set(records))} although the batch returned; faults fired {disk.fired}")
            for g, game in enumerate(games):
                m = b.replay(list(game.moveHistory))
                if m is None or M.obs_state(game.state) != m.snap():
                    raise Violation("record-does-not-replay", f"game {g}: {M.difference(M.obs_state(game.state), m.snap()) if m else played[g]['actions'][-3:]}")
                if list(game.moveHistory) not in b.histories(g):
                    raise Violation("record-differs", f"game {g}")
        else:
            # the batch failed: every game before the last one has its record
            done = len(played) - 1
            if not crashed and not disk.fired and not rival:
                if isinstance(games, OSError) and not (not op["catch"] and not well_behaved(op)):
                    raise Violation("unexpected-error", repr(games))
                if op["catch"]:
                    raise Violation("unexpected-error", repr(games))
            missing = [g for g in spare if g < done]
            if missing:
                raise Violation("record-missing", f"games {missing} had ended before the batch failed with {games!r}; new files {sorted(new)}")
        if records or disk.fired:
            rec.nontrivial = True
        rec.log("batch", op["n"], len(records), sorted(new), type(games).__name__, [len(p["actions"]) for p in played])

    def simplify_op(self, op):
        for k in ("fault", "rival"):
            if op.get(k):
                yield {x: v for x, v in op.items() if x != k}
        for k in ("tricks", "ticks"):
            for i in range(len(op.get(k, ()))):
                yield {**op, k: op[k][:i] + op[k][i + 1:]}
        if op.get("games", 0) > 1:
            yield {**op, "games": op["games"] - 1}
        if op.get("ghosts"):
            yield {**op, "ghosts": op["ghosts"] - 1}


def obs_record(data):
    """The (layout, moves) a file reads as, or None when it is not a record."""
    try:
        x = pickle.loads(data)
        return M.obs_layout(x["layout"]), [tuple(a) for a in x["actions"]]
    except Exception:
        return None


# ------------------------------------------------------------------------------------------------ C23

class Batches(Scenario):
    id = "C23"
    quick_runs = 14000
    thorough_runs = 250000
    rule = ("one evaluation = 1-3 calls of runGames with 0-4 games each on the same layout object and agents that win, lose, crash, stall, move "
            "illegally or scribble on what they were given; initial states, returned games and the printed summary are compared with the "
            "reference; non-trivial when at least two games were played")
    real_components = ["scripts/demo/pacman.py runGames, ClassicGameRules; game.py; layout.py (unmodified)"]
    stub_components = ["agents and display (scripted)", "clock and alarm"]
    assumptions = ["numTraining = 0 (the text display that training needs is not in the repository)"]

    def setup(self):
        load()

    def generate(self, rng, index, tier):
        text = M.random_board(rng, wmax=7, hmax=5, ghosts=(0, 3), caps=(0, 2), food=rng.choice([0.1, 0.4]))
        board = M.Board(text)
        cfg = dict(text=text, seed=rng.randrange(1 << 30), cap=rng.choice([8, 30, 60]), pace=rng.choice([0.0, 0.25]),
                   policy=[rng.choice(["food", "food", "rand", "caps", "meet"]), rng.choice(["chase", "rand", "flee"])])
        ops = []
        for n in range(rng.choice([1, 2, 3])):
            op = random_call(rng, n, board, False, self.id)
            op["op"] = "batch"
            ops.append(op)
        return dict(config=cfg, ops=ops)

    def run(self, trace, rec):
        lib = load()
        lib.reset()
        cfg = trace["config"]
        sim = SimOS(rec, random.Random(cfg["seed"]))
        layout = lib.layout.Layout(list(cfg["text"]))
        lay0 = M.obs_layout(layout)
        total = 0
        with sim:
            for op in trace["ops"]:
                rec.ops += 1
                b = Batch(lib, cfg, op, sim, rec)
                games = b.run(layout)
                total += len(b.played)
                self.judge(b, op, games, rec)
                if M.obs_layout(layout) != lay0:
                    raise Violation("layout-changed", str(M.difference(M.obs_layout(layout), lay0)))
        rec.nontrivial = total >= 2
        rec.sim_time = sim.now

    def judge(self, b, op, games, rec):
        want0 = b.initial().snap()
        n = 1 + min(op["ghosts"], b.board.ghosts)
        for g, p in enumerate(b.played):
            if p["initial"] != want0:
                raise Violation("initial-state", f"game {g}: {M.difference(p['initial'], want0)}")
            if p["seen"] is not None and p["seen"] != want0 and p["actions"][:1] and p["actions"][0][0] == 0:
                raise Violation("first-observation", f"game {g}: {M.difference(p['seen'], want0)}")
            for i, s in p["registered"]:
                if s != want0:
                    raise Violation("registered-state", f"game {g} agent {i}: {M.difference(s, want0)}")
            if any(i >= n for i, _ in p["actions"]):
                raise Violation("agents", f"game {g}: {n} agents, {p['actions'][:6]}")
        if not isinstance(games, list):
            if op["catch"]:
                raise Violation("batch-raised", repr(games))
            if well_behaved(op) and len(b.played[-1]["actions"]) <= b.cfg["cap"]:
                raise Violation("batch-raised", repr(games))
            rec.probe("batch_ended_by_error")
            return
        if len(b.played) != op["games"] or len(games) != op["games"]:
            raise Violation("number-of-games", f"asked {op['games']}, played {len(b.played)}, returned {len(games)}")
        finals = []
        for g, (game, p) in enumerate(zip(games, b.played)):
            got = M.obs_state(game.state)
            finals.append(got)
            updates = [p["initial"]] + p["updates"]
            if got != updates[-1]:
                raise Violation("returned-game", f"game {g}: {M.difference(got, updates[-1])}")
            m = b.replay(p["actions"][:len(p["updates"])])
            if m is None or m.snap() != got:
                raise Violation("returned-game", f"game {g} is not the one its agents played: {M.difference(got, m.snap()) if m else ''}")
            if not game.gameOver:
                raise Violation("returned-game", f"game {g} is not over")
            if not (m.over() or game.agentCrashed):
                raise Violation("returned-game", f"game {g} ended for no reason after {len(p['actions'])} moves")
            rec.probe("won" if m.win else "lost" if m.lose else "stopped_early")
        self.summary(b.out.getvalue(), finals)
        rec.log("batch", [f["score"] for f in finals], [f["win"] for f in finals])

    def summary(self, out, finals):
        def line(label):
            hits = [x.split(":", 1)[1].strip() for x in out.splitlines() if x.strip().startswith(label + ":")]
            if len(hits) != 1:
                raise Violation("summary", f"{len(hits)} lines '{label}' for {len(finals)} games")
            return hits[0]
        if not finals:
            if "Average Score" in out:
                raise Violation("summary", "a summary of no games")
            return
        scores = [f["score"] for f in finals]
        wins = [f["win"] for f in finals]
        try:
            avg = float(line("Average Score"))
            listed = [float(x) for x in line("Scores").split(",")]
            rate = re.fullmatch(r"(\d+)\s*/\s*(\d+)\s*\(([\d.]+)\)", line("Win Rate"))
            record = [x.strip().lower() for x in line("Record").split(",")]
            rate = (int(rate.group(1)), int(rate.group(2)), float(rate.group(3)))
        except (ValueError, AttributeError) as e:
            raise Violation("summary", f"unreadable summary: {e!r}: {out[-300:]!r}")
        if abs(avg - sum(scores) / len(scores)) > 1e-6 * max(1, abs(avg)) or listed != scores:
            raise Violation("summary", f"average {avg}, scores {listed} instead of {scores}")
        if rate[:2] != (sum(wins), len(wins)) or abs(rate[2] - sum(wins) / len(wins)) > 0.0051:
            raise Violation("summary", f"win rate {rate} of {wins}")
        if record != ["win" if w else "loss" for w in wins]:
            raise Violation("summary", f"record {record} of {wins}")

    simplify_op = Records.simplify_op


# ------------------------------------------------------------------------------------------------ C22

BAD = {"empty": "", "ragged": "%%%%\n%P\n%%%%\n", "binary": "\udc80\udcff%%\n"}
NAMES = ["zqmaze", "zq.lay", "zq maze", "zqümaze", "zq.lay.lay", "zqsub/zqmaze", "zq", "zq.layout", ".lay"]


class Search(Scenario):
    id = "C22"
    quick_runs = 18000
    thorough_runs = 300000
    rule = ("one evaluation = a directory tree with layout files (good, malformed, directories) at random levels and 1-6 searches from random "
            "working directories under faults; each result is compared with the search order and file content, and the working directory "
            "with the one before; non-trivial when a file was found or a fault fired")
    real_components = ["scripts/demo/layout.py getLayout, tryToLoad, Layout (unmodified), the file system (scratch directory)"]
    stub_components = ["open(), chdir() with injected faults"]
    assumptions = ["the search starts at least three levels below the scratch root"]

    def setup(self):
        load()

    def generate(self, rng, index, tier):
        depth = rng.randint(3, 6)
        cfg = dict(depth=depth, seed=rng.randrange(1 << 30), dirs=[rng.choice(["a", "b c", "layouts", "ü"]) for _ in range(depth)])
        names = rng.sample(NAMES, rng.randint(1, 2))
        ops = []
        for _ in range(rng.choice([0, 1, 2, 4, 6])):
            name = rng.choice(names)
            f = dict(op="file", level=rng.randint(0, depth), where=rng.choice(["layouts", "here"]), name=name,
                     what=rng.choice(["board"] * 6 + sorted(BAD) + ["dir", "noext"]), crlf=rng.random() < 0.2, end=rng.random() < 0.7)
            if f["what"] == "board":
                f["text"] = M.random_board(rng, wmax=8, hmax=6, ghosts=(0, 4), caps=(0, 2))
            ops.append(f)
        for _ in range(rng.randint(1, 6)):
            name = rng.choice(names)
            op = dict(op="search", level=rng.randint(3, depth), name=name, ext=rng.random() < 0.4)
            if rng.random() < 0.45:
                x = rng.random()
                if x < 0.3:
                    op["fault"] = dict(kind="read", nth=rng.randint(1, 2), errno="EIO")
                elif x < 0.55:
                    op["fault"] = dict(kind="open", reading=True, nth=1, errno=rng.choice(["EACCES", "EMFILE", "EIO", "ENOENT"]))
                elif x < 0.75:
                    op["vanish"] = True
                else:
                    op["chdir"] = rng.randint(1, 3)
            ops.append(op)
        return dict(config=cfg, ops=ops)

    def path(self, root, cfg, level):
        return os.path.join(root, *cfg["dirs"][:level])

    @staticmethod
    def filename(name):
        return name if name.endswith(".lay") else name + ".lay"

    def run(self, trace, rec):
        lib = load()
        lib.reset()
        cfg = trace["config"]
        root = simdisk.scratch_dir()
        old = os.getcwd()
        content = {}                # real path -> board text, or None for something that is no layout
        try:
            os.makedirs(self.path(root, cfg, cfg["depth"]), exist_ok=True)
            for op in trace["ops"]:
                rec.ops += 1
                if op["op"] == "file":
                    self.place(root, cfg, op, content)
                else:
                    self.search(lib, root, cfg, op, content, rec)
        finally:
            os.chdir = real_chdir
            real_chdir(old)
            simdisk.clear(root)
            os.rmdir(root)

    def place(self, root, cfg, op, content):
        base = self.path(root, cfg, op["level"])
        if op["where"] == "layouts":
            base = os.path.join(base, "layouts")
        p = os.path.join(base, self.filename(op["name"]) if op["what"] != "noext" else op["name"] + "x")
        if os.path.exists(p):
            return
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if op["what"] == "dir":
            os.makedirs(p)
            content[os.path.realpath(p)] = None
            return
        if op["what"] == "board":
            sep = "\r\n" if op["crlf"] else "\n"
            data = (sep.join(op["text"]) + (sep if op["end"] else "")).encode()
            content[os.path.realpath(p)] = op["text"]
        else:
            data = BAD.get(op["what"], "%%").encode("utf-8", "surrogateescape")
            content[os.path.realpath(p)] = None
        with simdisk.real_open(p, "wb") as f:
            f.write(data)

    def search(self, lib, root, cfg, op, content, rec):
        disk = simdisk.Disk(root, rec)
        start = os.path.realpath(self.path(root, cfg, op["level"]))
        real_chdir(start)
        file = self.filename(op["name"])
        order = []
        d = start
        for _ in range(4):
            order += [os.path.join(d, "layouts", file), os.path.join(d, file)]
            d = os.path.dirname(d)
        present = [p for p in order if os.path.realpath(p) in content]
        up = [0]
        fired = []

        def chdir(target):
            now, to = os.getcwd(), os.path.realpath(target)
            if op.get("chdir") and now != to and now.startswith(to.rstrip(os.sep) + os.sep):
                up[0] += 1
                if up[0] == op["chdir"]:
                    fired.append("chdir")
                    rec.fault("chdir_failed")
                    raise PermissionError(13, "Permission denied", target)
            return real_chdir(target)

        def on_open(path, mode):
            p = os.path.realpath(path)
            if op.get("vanish") and p in content and not fired and not os.path.isdir(p):
                fired.append("vanish")
                rec.fault("file_vanished")
                os.unlink(p)
                content.pop(p)
        disk.arm([op["fault"]] if op.get("fault") else ())
        disk.on_open = on_open
        name = op["name"] if op["name"].endswith(".lay") or not op["ext"] else op["name"] + ".lay"
        before = simdisk.snapshot(root)
        if op.get("chdir"):
            os.chdir = chdir
        err = res = None
        try:
            with disk:
                res = lib.layout.getLayout(name)
        except Exception as e:
            err = e
        finally:
            os.chdir = real_chdir
        try:
            now = os.getcwd()
        except OSError as e:
            now = repr(e)
        if now != start:
            raise Violation("working-directory", f"{start[len(root):]!r} before, {now[len(root):]!r} after getLayout({name!r}): {err!r}")
        if simdisk.snapshot(root) != before and "vanish" not in fired:
            raise Violation("files-changed", "a search changed files")
        for kind, _ in disk.fired:
            rec.fault("disk_" + kind)
        fired += [k for k, _ in disk.fired]
        good = [p for p in present if content.get(os.path.realpath(p))]
        rec.log("search", op["level"], name, len(present), len(good), type(err).__name__, res is not None, fired)
        rec.nontrivial = rec.nontrivial or bool(present) or bool(fired)
        if res is not None:
            got = M.obs_layout(res)
            texts = [content[os.path.realpath(p)] for p in (good if fired else good[:1])]
            for t in texts:
                b = M.Board(t)
                want = M.board_layout(b)
                if sorted(got["capsules"]) == sorted(b.capsules) and {**got, "capsules": None} == want:
                    rec.probe("found_level_%d" % ((order.index(good[0]) // 2) if good else 9))
                    break
            else:
                if not fired and present and not content.get(os.path.realpath(present[0])):
                    return                          # a malformed file that happens to read as some layout
                raise Violation("wrong-layout", f"getLayout({name!r}) at level {op['level']}: expected {[p[len(root):] for p in good[:1]]}, got {got['text']}")
        if fired:
            return
        if present and present[0] == (good[0] if good else None):
            if err is not None or res is None:
                raise Violation("not-found", f"getLayout({name!r}) from {start[len(root):]!r}: {err!r} although {present[0][len(root):]!r} is there")
        elif present:
            rec.probe("malformed_nearest")
        else:
            if err is not None or res is not None:
                raise Violation("found-nothing", f"getLayout({name!r}): {err!r} {res!r} though there is no such file")
            rec.probe("none_found")

    def simplify_op(self, op):
        for k in ("fault", "vanish", "chdir"):
            if op.get(k):
                yield {x: v for x, v in op.items() if x != k}
        if op["op"] == "file" and op.get("crlf"):
            yield {**op, "crlf": False}


SCENARIOS = {"C21": Records, "C22": Search, "C23": Batches}
