"""C32: the demo program itself, from start to end, on a simulated window system with a user at the keyboard."""
import importlib
import io
import os
import random
import shutil
import sys
import tempfile

from . import pacmodel as M
from .core import DEMO, Scenario, Violation
from .game_rules import choose
from .game_run import Stop, h32
from .game_ui import KEYS, NOISE, OTHER_KEYS, World
from .gamelib import load

MAX_TURNS = 220


class DemoWorld(World):
    def __init__(self, trace, rec):
        super().__init__("C32", trace, rec)
        self.judge_keys = self.judge_screen = True
        self.asked = []                 # moves chosen by the agents
        self.closed_at = None
        self.turns_after_close = 0

    # ------------------------------------------------------------------------------------- the user
    def user(self):
        """What the player does before this turn: keeps the key down that leads where he wants to go."""
        cfg, sim = self.cfg, self.sim
        n = self.pac_turns
        policy = cfg["user"] if n < cfg["patience"] else "meet"
        if policy == "away" or h32("user", n, cfg["seed"]) % 100 < cfg["lazy"]:
            return
        want = choose(self.m, 0, policy, h32(n, cfg["seed"]))
        keys = sorted(k for k, d in KEYS["KeyboardAgent"].items() if d == want)
        if not keys:
            return
        key = keys[h32("key", n, cfg["seed"]) % len(keys)]
        for k in sorted(sim.down - {key}):
            self.push("KeyRelease", k)
        if key not in sim.down:
            self.push("KeyPress", key)

    def push(self, kind, key=None):
        sim = self.sim
        sim.events.append((sim.now, 10 ** 6 + len(sim.delivered_log) + len(sim.events), kind, key))
        sim.events.sort()

    # ------------------------------------------------------------------------------------- one start of the program
    def run(self):
        w, lib, cfg, sim = self, self.lib, self.cfg, self.sim
        gd, keyboard, ghost = lib.gd.PacmanGraphics, lib.ka.KeyboardAgent, lib.ghosts.RandomGhost
        self.m = M.St.initial(self.board, 2)
        self.displays = []
        real = {c: {n: c.__dict__.get(n) for n in names} for c, names in ((gd, ("initialize", "update", "finish")), (keyboard, ("getAction",)), (ghost, ("getAction",)))}
        initialize, update, finish, key_action, ghost_action = gd.initialize, gd.update, gd.finish, keyboard.getAction, ghost.getAction

        def seen_initialize(display, data, *rest):
            if w.displays:
                w.bad("second-game", "another game is started")
            w.displays.append(display)
            sim.mapped = False
            initialize(display, data, *rest)
            sim.mapped = True
            sim.down.clear()
            w.pull()
            w.shown = {i: (M._p(a.configuration.pos), a.scaredTimer > 0, i) for i, a in enumerate(data.agentStates)}
            w.facing = {i: str(a.configuration.direction) for i, a in enumerate(data.agentStates)}
            w.walls = None
            if M.obs_data(data) != w.m.snap():
                w.bad("wrong-game", f"initially: {M.difference(M.obs_data(data), w.m.snap())}")
            w.check_screen(data, "after initialize")

        def seen_update(display, data):
            i = data._agentMoved
            if not w.asked or w.asked[-1][0] != i or len(w.asked) != w.moves + 1:
                w.bad("turn-order", f"move {w.moves + 1}: agent {i} shown after {w.asked[-1:]}")
            w.m = w.m.step(*w.asked[-1])
            if M.obs_data(data) != w.m.snap():
                w.bad("rules", f"after {w.asked[-1]}: {M.difference(M.obs_data(data), w.m.snap())}")
            t0, c0 = sim.now, sim.spent
            ft = display.frameTime
            update(display, data)
            a = data.agentStates[i]
            w.shown[i] = (M._p(a.configuration.pos), a.scaredTimer > 0, i)
            w.facing[i] = str(a.configuration.direction)
            w.moves += 1
            w.check_screen(data, f"after move {w.moves} (agent {i})")
            w.check_time(i, 0.1, sim.now - t0, sim.spent - c0)

        def seen_finish(display):
            finish(display)
            sim.mapped = False
            if any(not r.destroyed for r in sim.roots):
                w.bad("window-left", "a window is still there after the end of the game")

        def turn(agent):
            i = agent.index
            if i != len(w.asked) % len(w.m.ag):
                w.bad("turn-order", f"agent {i} asked for move {len(w.asked) + 1}")

        def seen_key_action(agent, state):
            turn(agent)
            if w.pac_turns >= MAX_TURNS and w.closed_at is None:
                w.push("Close")
            w.user()
            w.before_turn()
            w.note_close()
            action = key_action(agent, state)
            w.after_turn(state, action)
            w.asked.append((0, action))
            return action

        def seen_ghost_action(agent, state):
            turn(agent)
            action = ghost_action(agent, state)
            if action not in w.m.legal(agent.index):
                w.bad("illegal-move", f"ghost {agent.index}: {action!r}")
            w.asked.append((agent.index, action))
            return action

        gd.initialize, gd.update, gd.finish, keyboard.getAction, ghost.getAction = seen_initialize, seen_update, seen_finish, seen_key_action, seen_ghost_action
        out = io.StringIO()
        old = os.getcwd()
        root = tempfile.mkdtemp(prefix="verif-demo-")
        ended = None
        try:
            here = DEMO
            if not cfg["real"]:
                here = os.path.join(root, *cfg["below"])
                os.makedirs(here, exist_ok=True)
                os.makedirs(os.path.join(root, "layouts"))
                with open(os.path.join(root, "layouts", "mediumClassic.lay"), "w") as f:
                    f.write("\n".join(cfg["text"]) + "\n")
            before = sorted(os.listdir(here))
            os.chdir(here)
            sys.stdout = out
            program = importlib.import_module("demo")
            with sim:
                try:
                    program.main()
                except SystemExit as e:
                    ended = e
            if sorted(x for x in os.listdir(here) if x != "__pycache__") != [x for x in before if x != "__pycache__"]:
                raise Violation("files", f"files appeared or vanished: {sorted(set(os.listdir(here)) ^ set(before))}")
        except Stop as s:
            raise s.what
        finally:
            sys.stdout = sys.__stdout__
            os.chdir(old)
            shutil.rmtree(root, ignore_errors=True)
            for c, names in real.items():
                for n, f in names.items():
                    if f is None:
                        delattr(c, n)
                    else:
                        setattr(c, n, f)
            import __main__
            __main__.__dict__.pop("_display", None)
        self.judge_end(ended, out.getvalue())
        self.rec.ops = self.moves
        self.rec.sim_time = sim.now
        self.rec.probe("moves", self.moves)
        for kind, _ in sim.delivered_log:
            self.rec.fault("event_" + kind)
        self.rec.nontrivial = self.moves >= 5
        self.rec.log("end", self.moves, self.m.score, self.m.win, self.m.lose, repr(ended))

    def note_close(self):
        """Once the window has been closed, the program may finish the frame it is in, not play on."""
        if self.closed_at is None and any(kind == "Close" for kind, _ in self.sim.delivered_log):
            self.closed_at = self.pac_turns
        waiting = [k for k, _ in self.sim.root.pending] if self.sim.root else []
        if self.closed_at is None and "Close" in waiting:
            self.closed_at = self.pac_turns
        if self.closed_at is not None and self.pac_turns > self.closed_at + 1:
            self.bad("close-ignored", f"the window was closed before turn {self.closed_at + 1}, the game goes on at turn {self.pac_turns + 1}")

    def judge_end(self, ended, text):
        m = self.m
        if not self.displays:
            raise Violation("no-game", "no game was played on the display")
        closed = any(kind == "Close" for kind, _ in self.sim.delivered_log)
        if ended is not None:
            if not closed:
                raise Violation("exit", f"the program exits by itself: {ended!r}")
            if ended.code not in (0, None):
                raise Violation("exit", f"closing the window gives the exit status {ended.code!r}")
            if "Average Score" in text:
                raise Violation("summary", "a summary is printed for a game that was not finished")
            self.rec.fault("window_closed")
            return
        if closed and not m.over():
            raise Violation("exit", "the window was closed, the program ends as if the game were over")
        if not m.over():
            raise Violation("ended-early", f"the program ends after {self.moves} moves although the game is not over")
        self.rec.probe("won" if m.win else "lost")
        lines = text.split("\n")
        want = {"Average Score:": float(m.score), "Scores:": float(m.score), "Record:": "Win" if m.win else "Loss",
                "Win Rate:": "1/1 (1.00)" if m.win else "0/1 (0.00)"}
        for head, value in want.items():
            got = [ln[len(head):].strip() for ln in lines if ln.startswith(head)]
            if len(got) != 1 or (float(got[0]) != value if isinstance(value, float) else got[0] != value):
                raise Violation("summary", f"{head} {got} instead of {value}")


class Demo(Scenario):
    id = "C32"
    quick_runs = 5000
    thorough_runs = 60000
    rule = ("one evaluation = one start of demo.py's main program with a simulated player who plays to the end or closes the window; every move, frame and "
            "key is judged; non-trivial when at least 5 moves were made")
    real_components = ["scripts/demo/demo.py and everything it uses (unmodified)"]
    stub_components = ["tkinter (window, canvas, event queue, timers) on the simulated clock", "random module", "player (keys follow a policy)"]
    assumptions = ["started in its directory or up to two directories below the one with layouts/", "the layout has at least two ghosts",
                   "as in _tkinter, an exit inside a window call-back takes effect when the main loop runs next"]

    def setup(self):
        load()

    def generate(self, rng, index, tier):
        real = rng.random() < 0.08
        if real:
            with open(os.path.join(DEMO, "layouts", "mediumClassic.lay")) as f:
                text = [ln.strip() for ln in f]
        else:
            text = M.random_board(rng, wmax=rng.choice([7, 9, 12]), ghosts=(2, 4), caps=(0, 3), food=rng.choice([0.05, 0.2, 0.5]), numbered=0.0)
        cfg = dict(text=text, real=real, below=[], seed=rng.randrange(1 << 30), pac="KeyboardAgent", zoom=1.0, frame=0.1, think=0.0,
                   user=rng.choice(["meet", "food", "caps", "rand", "avoid", "away"]), patience=rng.choice([5, 20, 60]), lazy=rng.choice([0, 20, 60]))
        if not real and rng.random() < 0.3:
            cfg["below"] = rng.choice([["a"], ["a", "b"], ["layouts2"]])
        ops = []
        keys = sorted(KEYS["KeyboardAgent"])
        for _ in range(rng.choice([0, 0, 3, 10])):
            t = round(rng.uniform(0, 8), 3)
            x = rng.random()
            if x < 0.6:
                ops.append(dict(op="tap", t=t, key=rng.choice(keys + OTHER_KEYS), hold=rng.choice([0.001, 0.05, 0.3, 1.0])))
            elif x < 0.8:
                ops.append(dict(op="focus", t=t, dur=rng.choice([0.01, 0.2, 1.0])))
            else:
                ops.append(dict(op="noise", t=t, kind=rng.choice(NOISE)))
        if rng.random() < 0.3:
            ops.append(dict(op="noise", t=round(rng.choice([rng.uniform(0, 0.3), rng.uniform(0, 5)]), 4), kind="Close"))
        if rng.random() < 0.3:
            for _ in range(rng.randint(1, 4)):
                ops.append(dict(op="cost", n=rng.randint(0, 300), dt=rng.choice([0.001, 0.02, 0.3])))
        return dict(config=cfg, ops=ops)

    def run(self, trace, rec):
        DemoWorld(trace, rec).run()

    def simplify_config(self, trace):
        cfg = trace["config"]
        for k, v in (("lazy", 0), ("patience", 5), ("user", "meet"), ("below", [])):
            if cfg[k] != v:
                yield {**trace, "config": {**cfg, k: v}}


SCENARIOS = {"C32": Demo}
