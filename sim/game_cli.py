"""C29: command lines on a scratch directory tree of agent modules and layouts, played under the simulated clock, signals and
random numbers."""
import importlib
import io
import os
import random
import subprocess
import sys
import types

from . import pacmodel as M
from . import simdisk
from .core import DEMO, Scenario, Violation
from .gamelib import SimOS, load

real_listdir, real_getcwd = os.listdir, os.getcwd
CLASSES = ["ZqHero", "ZqRunner", "ZqGhost", "Zq", "ZqHeroTwo"]
TEMPLATE = '''
class {name}(Agent):
    ORIGIN = {origin!r}

    def __init__(self, index=0, **kw):
        self.index, self.kw, self.n = index, kw, 0
        self.shift = random.random() + SHIFT

    def getAction(self, state):
        self.n += 1
        if str(self.kw.get("boom")) == str(self.n):
            raise ValueError("boom")
        legal = state.getLegalActions(self.index)
        return legal[int((random.random() + self.shift) % 1 * len(legal))]
'''
OPTIONS = {     # name: (short, long, default)
    "numGames": ("-n", "--numGames", 1), "layout": ("-l", "--layout", "mediumClassic"), "pacman": ("-p", "--pacman", "KeyboardAgent"),
    "textGraphics": ("-t", "--textGraphics", False), "quietGraphics": ("-q", "--quietTextGraphics", False),
    "ghost": ("-g", "--ghosts", "RandomGhost"), "numGhosts": ("-k", "--numghosts", 4), "zoom": ("-z", "--zoom", 1.0),
    "fixRandomSeed": ("-f", "--fixRandomSeed", False), "record": ("-r", "--recordActions", False), "agentArgs": ("-a", "--agentArgs", None),
    "numTraining": ("-x", "--numTraining", 0), "frameTime": (None, "--frameTime", 0.1), "catchExceptions": ("-c", "--catchExceptions", False),
    "timeout": (None, "--timeout", 30)}


WALKER = """
import random
from game import Agent

class ZqWalker(Agent):
    def getAction(self, state):
        return random.choice(state.getLegalActions(self.index))
"""
PROGRAM = """
import random, sys, types
random.seed({state!r})
shown = types.ModuleType("textDisplay")
class NullGraphics:
    def __init__(self, *a, **k): pass
    initialize = update = pause = draw = updateDistributions = finish = __init__
shown.NullGraphics = shown.PacmanGraphics = NullGraphics
sys.modules["textDisplay"] = shown
sys.path.insert(0, {demo!r})
import pacman
games = pacman.runGames(**pacman.readCommand(sys.argv[1:]))
print("MOVES", [g.moveHistory for g in games], [g.state.getScore() for g in games])
"""


class CliOS(SimOS):
    """Random numbers start in a state that the run decides; seeding them is recorded."""

    def __init__(self, rec, state):
        super().__init__(rec, random.Random(state))
        self.seeded = []

    def seed(self, *a):
        self.seeded.append(a)
        self.rng.seed(*a)


class Cli(Scenario):
    id = "C29"
    quick_runs = 9000
    thorough_runs = 100000
    rule = ("one evaluation = a directory tree with agent modules (some failing to import, some vanishing, directories missing) and layouts, and 1-5 "
            "command lines read and played in it, each with the random numbers in two different states; non-trivial when a game was played")
    real_components = ["scripts/demo/pacman.py readCommand, loadAgent, parseAgentArgs, runGames, rules; game.py; layout.py; ghostAgents.py "
                       "(unmodified)", "Python's import system and the file system (scratch directory)"]
    stub_components = ["agents (generated modules)", "window and text displays (recorders)", "clock, alarm and random numbers (simulated)"]
    assumptions = ["no two modules have the same name", "text display supplied by the simulation: it is not in the repository"]

    def setup(self):
        load()

    # ------------------------------------------------------------------------------------------ generation
    def generate(self, rng, index, tier):
        if index % 61 == 5:
            board = M.random_board(rng, wmax=9, hmax=7, ghosts=(0, 4), caps=(0, 2), food=rng.choice([0.05, 0.2]))
            argv = ["-q", "-f", "-p", "ZqWalker", "-l", "zqa", "-g", rng.choice(["RandomGhost", "DirectionalGhost"]), "-n", str(rng.randint(1, 3))]
            return dict(config=dict(hashes=[rng.randint(1, 4 * 10 ** 9) for _ in range(2)], board=board),
                        ops=[dict(argv=argv + (["-k", str(rng.randint(0, 4))] if rng.random() < 0.4 else []))])
        dirs = []
        for i in range(rng.choice([0, 1, 2, 3])):
            dirs.append(dict(name="p%d%s" % (i, rng.choice(["", " x", "ü", ".d"])), exists=rng.random() < 0.85))
        cfg = dict(seed=rng.randrange(1 << 30), dirs=dirs, sep=rng.choice([":", ":", ";"]), unset=rng.random() < 0.1,
                   cap=rng.choice([6, 20, 40]), keyboard=rng.choice([-1] * 6 + [None] + list(range(len(dirs))) * 2), ghosts=rng.random() < 0.95, importable=rng.random() < 0.85)
        cfg["layouts"] = {}
        for name in ["mediumClassic"] * (rng.random() < 0.8) + rng.sample(["zqa", "zqb", "zq c"], rng.randint(1, 3)):
            cfg["layouts"][name] = dict(text=M.random_board(rng, wmax=7, hmax=5, ghosts=(0, 4), caps=(0, 1), food=rng.choice([0.1, 0.4])),
                                        here=rng.random() < 0.4)
        places = list(range(len(dirs))) + [-1]
        cfg["modules"] = []
        for i in range(rng.randint(1, 6)):
            cfg["modules"].append(dict(at=rng.choice(places), file="zq%d%s" % (i, rng.choice(["Agents.py"] * 6 + ["agents.py", "gents.py", "Agent.py", "Agents.txt"])),
                                       classes=rng.sample(CLASSES, rng.randint(0, 3)), import_=rng.choice(["ok"] * 6 + ["error", "needs"])))
        ops = [self.command(rng, cfg) for _ in range(rng.randint(1, 5))]
        return dict(config=cfg, ops=ops)

    def command(self, rng, cfg):
        o = {}

        def maybe(p, key, value):
            if rng.random() < p:
                o[key] = value
        maybe(0.75, "layout", rng.choice(sorted(cfg["layouts"]) * 6 + ["zqnone"]) + rng.choice(["", "", ".lay"]))
        have = [c for m in cfg["modules"] for c in m["classes"]]
        maybe(0.9, "pacman", rng.choice(have * 4 + ["ZqHero", "ZqNone", "KeyboardAgent"]))
        maybe(0.4, "ghost", rng.choice(["RandomGhost", "DirectionalGhost", "ZqGhost", "ZqNone"] + have))
        maybe(0.6, "numGhosts", rng.choice([0, 1, 1, 2, 2, 3, 5]))
        maybe(0.6, "numGames", rng.choice([1, 2, 3]))
        maybe(0.2, "numTraining", rng.choice([0, 1, 1, 2]))
        maybe(0.15, "textGraphics", True)
        maybe(0.2, "quietGraphics", True)
        maybe(0.3, "zoom", rng.choice([0.5, 2.0, 1.25]))
        maybe(0.5, "fixRandomSeed", True)
        maybe(0.25, "record", True)
        maybe(0.3, "frameTime", rng.choice([0.0, 0.05, 1.0, -1.0]))
        maybe(0.5, "catchExceptions", True)
        maybe(0.4, "timeout", rng.choice([1, 7, 30, 120] if "catchExceptions" in o else [0, 1, 7, 30, 120]))
        if rng.random() < 0.5:
            parts = rng.sample([("a", "1"), ("depth", "2"), ("fast", None), ("name", "x y"), ("empty", ""), ("numTraining", "7"), ("boom", str(rng.choice([1, 2, 5])))],
                               rng.randint(1, 3))
            o["agentArgs"] = [list(p) for p in parts]
        op = dict(op="run", opts=o, order=rng.randrange(1 << 20), state=rng.randrange(1 << 30))
        if rng.random() < 0.12:
            op["wrong"] = rng.choice([["--zzz"], ["-n", "x"], ["-k", "1.5"], ["extra"], ["-z", "big"], ["--timeout", "soon"], ["-l"], ["-y"], ["--frameTime", ""]])
        if rng.random() < 0.2 and cfg["modules"]:
            op["vanish"] = rng.randrange(len(cfg["modules"]))
        return op

    def argv(self, op):
        r = random.Random(op["order"])
        items = sorted(op["opts"].items())
        r.shuffle(items)
        out = []
        for k, v in items:
            short, long, default = OPTIONS[k]
            if k == "agentArgs":
                v = ",".join(a if b is None else a + "=" + b for a, b in v)
            flag = short if short and r.random() < 0.5 else long
            if v is True:
                out.append([flag])
            elif flag == long and r.random() < 0.5:
                out.append([f"{flag}={v}"])
            elif flag == short and r.random() < 0.3:
                out.append([f"{flag}{v}"])
            else:
                out.append([flag, str(v)])
        if op.get("wrong"):
            out.append(op["wrong"]) if op["wrong"] in (["-l"],) else out.insert(r.randint(0, len(out)), op["wrong"])
        return [x for y in out for x in y]

    # ------------------------------------------------------------------------------------------ one run
    def interpreters(self, trace, rec):
        """The same command in interpreters that differ in their hash seeds and in the state of their random numbers."""
        cfg, root = trace["config"], simdisk.scratch_dir()
        try:
            os.makedirs(os.path.join(root, "layouts"))
            simdisk.fill(root, {"zqWalkerAgents.py": WALKER, "layouts/zqa.lay": "\n".join(cfg["board"]) + "\n"})
            for op in trace["ops"]:
                rec.ops += 1
                said = []
                for h in cfg["hashes"]:
                    env = {**os.environ, "PYTHONHASHSEED": str(h), "PYTHONPATH": DEMO, "PYTHONDONTWRITEBYTECODE": "1"}
                    r = subprocess.run([sys.executable, "-c", PROGRAM.format(demo=DEMO, state=h), *op["argv"]], cwd=root, env=env,
                                       stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=600)
                    if r.returncode:
                        raise Violation("program-failed", f"pacman.py {' '.join(op['argv'])}: {r.stderr[-500:]}")
                    said.append([l for l in r.stdout.splitlines() if l.startswith("MOVES")])
                rec.fault("hash_seed", len(said))
                if said[0] != said[1]:
                    raise Violation("seed-not-fixed", f"pacman.py {' '.join(op['argv'])}: played {said[0]} in one interpreter, {said[1]} in another")
                rec.log("interpreters", said[0])
                rec.nontrivial = True
        finally:
            simdisk.clear(root)
            os.rmdir(root)

    def run(self, trace, rec):
        if "hashes" in trace["config"]:
            return self.interpreters(trace, rec)
        lib = load()
        lib.reset()
        cfg = trace["config"]
        root = simdisk.scratch_dir()
        old, env, path, mods = real_getcwd(), os.environ.get("PYTHONPATH"), list(sys.path), set(sys.modules)
        try:
            work = os.path.join(root, "a", "b", "c", "work")
            os.makedirs(os.path.join(work, "layouts"))
            self.where = [os.path.join(root, d["name"]) for d in cfg["dirs"]] + [work]
            for d, p in zip(cfg["dirs"], self.where):
                if d["exists"]:
                    os.makedirs(p)
            for i, m in enumerate(cfg["modules"]):
                self.write_module(i, m)
            for name, there in (("keyboardAgents.py", cfg["keyboard"]), ("ghostAgents.py", -1 if cfg["ghosts"] else None)):
                if there is not None and os.path.isdir(self.where[there]):
                    with open(os.path.join(self.where[there], name), "w") as f:
                        f.write("# listed here; imported from where the demo is\n")
            for name, l in cfg["layouts"].items():
                with open(os.path.join(work, "" if l["here"] else "layouts", name + ".lay"), "w") as f:
                    f.write("\n".join(l["text"]) + "\n")
            os.chdir(work)
            if cfg["unset"]:
                os.environ.pop("PYTHONPATH", None)
            else:
                os.environ["PYTHONPATH"] = cfg["sep"].join(self.where[:-1])
            on_path = [] if cfg["unset"] else [p for p in self.where[:-1]]
            sys.path[:] = path + (on_path if cfg["sep"] == ":" or cfg["importable"] else []) + ([work] if cfg["importable"] else [])
            self.cfg, self.lib, self.rec, self.root = cfg, lib, rec, root
            for op in trace["ops"]:
                rec.ops += 1
                self.one(op)
        finally:
            sys.path[:] = path
            if env is None:
                os.environ.pop("PYTHONPATH", None)
            else:
                os.environ["PYTHONPATH"] = env
            os.chdir(old)
            self.forget(mods)
            for p in list(sys.path_importer_cache):
                if p.startswith(root):
                    del sys.path_importer_cache[p]
            simdisk.clear(root)
            os.rmdir(root)

    def write_module(self, i, m):
        d = self.where[m["at"] if m["at"] >= 0 else len(self.where) - 1]
        if not os.path.isdir(d):
            return
        text = "import random\nfrom game import Agent\nSHIFT = random.random()\n"
        if m["import_"] == "error":
            text += "raise ImportError('not installed')\n"
        elif m["import_"] == "needs":
            text += "import zq_not_installed_at_all\n"
        for c in m["classes"]:
            text += TEMPLATE.format(name=c, origin=i)
        with open(os.path.join(d, m["file"]), "w") as f:
            f.write(text)

    def forget(self, before):
        for n in list(sys.modules):
            if n not in before and n.startswith("zq"):
                del sys.modules[n]

    def candidates(self, name):
        """The modules (index or file name) in which the agent may be found: those of the first directory that has any."""
        cfg = self.cfg
        places = ([] if cfg["unset"] else list(range(len(cfg["dirs"])))) + [len(self.where) - 1]
        for p in places:
            d = self.where[p]
            if not os.path.isdir(d):
                continue
            found = []
            for i, m in enumerate(cfg["modules"]):
                at = m["at"] if m["at"] >= 0 else len(self.where) - 1
                if at == p and m["file"].endswith("gents.py") and m["import_"] == "ok" and name in m["classes"] \
                        and os.path.exists(os.path.join(d, m["file"])) and d in sys.path:
                    found.append(i)
            if cfg["keyboard"] is not None and p == cfg["keyboard"] % len(self.where) and name == "KeyboardAgent":
                found.append("keyboard")
            if p == len(self.where) - 1:
                if cfg["ghosts"] and name in ("RandomGhost", "DirectionalGhost"):
                    found.append("ghosts")
            if found:
                return found
        return []

    # ------------------------------------------------------------------------------------------ one command
    def one(self, op):
        argv = self.argv(op)
        what = "pacman.py " + " ".join(argv)
        first = self.play(op, argv, op["state"], what)
        if first is None:
            return
        if op["opts"].get("fixRandomSeed"):
            second = self.play(op, argv, op["state"] + 1, what)
            self.rec.fault("random_numbers_in_another_state")
            if second is not None and second != first:
                raise Violation("seed-not-fixed", f"{what}: two runs of the same command played {first} and {second}")

    def play(self, op, argv, state, what):
        lib, rec, cfg = self.lib, self.rec, self.cfg
        self.forget(set(n for n in sys.modules if not n.startswith("zq")))
        importlib.invalidate_caches()
        want = {k: op["opts"].get(k, d) for k, (_, _, d) in OPTIONS.items()}
        shown, rules_made, made = [], [], []

        class Recorder:
            def __init__(self, *a, **kw):
                self.made, self.updates, self.starts = (a, kw), 0, 0
                shown.append(self)

            def initialize(self, data, *rest):
                self.starts += 1

            def update(self, data):
                self.updates += 1

            def finish(self):
                pass

        class Window(Recorder):
            kind = "window"

        class Text(Recorder):
            kind = "text"

        class Null(Recorder):
            kind = "quiet"
        text = types.ModuleType("textDisplay")
        text.NullGraphics, text.PacmanGraphics, text.SLEEP_TIME = Null, Text, None
        base, cap = lib.pacman.ClassicGameRules, cfg["cap"]

        class Rules(base):
            def __init__(self, *a, **kw):
                base.__init__(self, *a, **kw)
                rules_made.append((a, kw, self))

            def newGame(self, *a, **kw):
                game = base.newGame(self, *a, **kw)
                made.append((game, M.obs_state(game.state)))
                return game

            def process(self, state, game):
                base.process(self, state, game)
                if len(game.moveHistory) >= cap:
                    game.gameOver = True
        gone = None
        if op.get("vanish") is not None:
            m = cfg["modules"][op["vanish"]]
            gone = os.path.join(self.where[m["at"] if m["at"] >= 0 else len(self.where) - 1], m["file"])

        def listdir(p=".", *a):
            names = real_listdir(p, *a)
            if gone and os.path.isfile(gone) and os.path.basename(gone) in names and os.path.samefile(p, os.path.dirname(gone)):
                os.unlink(gone)
                importlib.invalidate_caches()
                rec.fault("module_vanished_after_listing")
            return names
        sim = CliOS(rec, state)
        saved = sys.modules.get("textDisplay"), lib.gd.PacmanGraphics
        out = io.StringIO()
        err = args = games = None
        stage = "read"
        before = set(real_listdir("."))
        sys.modules["textDisplay"], lib.gd.PacmanGraphics, lib.pacman.ClassicGameRules = text, Window, Rules
        sys.stdout = sys.stderr = out
        os.listdir = listdir
        seeds = 0
        try:
            with sim:
                args = lib.pacman.readCommand(list(argv))
                os.listdir = real_listdir
                stage = "play"
                seeds = len(sim.seeded)
                if want["pacman"] != "KeyboardAgent":
                    games = lib.pacman.runGames(**args)
        except SystemExit as e:
            err = e
        except Exception as e:
            err = e
        finally:
            os.listdir = real_listdir
            sys.stdout, sys.stderr = sys.__stdout__, sys.__stderr__
            lib.gd.PacmanGraphics, lib.pacman.ClassicGameRules = saved[1], base
            if saved[0] is None:
                del sys.modules["textDisplay"]
            else:
                sys.modules["textDisplay"] = saved[0]
        rec.sim_time += sim.now
        # what has to come of it
        pac, ghost = self.candidates(want["pacman"]), self.candidates(want["ghost"])
        quiet = want["textGraphics"] or want["quietGraphics"]
        lname = want["layout"][:-4] if want["layout"].endswith(".lay") else want["layout"]
        opts = {} if want["agentArgs"] is None else {k: 1 if v is None else v for k, v in want["agentArgs"]}
        if want["numTraining"] > 0:
            opts.setdefault("numTraining", want["numTraining"])
        no = None
        if op.get("wrong"):
            no = "malformed"
        elif lname not in cfg["layouts"]:
            no = "no such layout"
        elif not pac or not ghost:
            no = "no such agent"
        elif quiet and "keyboard" in pac:
            no = "keyboard without graphics"
        elif pac == ["keyboard"] and opts:
            return None         # what a keyboard agent makes of arguments is its own business
        elif pac == ["ghosts"] or ghost == ["keyboard"]:
            return None         # neither is the other
        if no is not None:
            if stage == "play" or made:
                raise Violation("accepted:" + no.replace(" ", "-"), f"{what}: {no}, but a game was set up")
            rec.probe("refused_" + no.replace(" ", "_"))
            rec.log("refused", no)
            return None
        if stage == "read":
            raise Violation("refused", f"{what}: {type(err).__name__}: {str(err)[:200]} {out.getvalue()[-300:]}")

        def need(name, got, should):
            if got != should:
                raise Violation("wrong-" + name, f"{what}: {name} is {got!r}, should be {should!r}")
        need("layout", M.obs_layout(args["layout"])["text"], M.obs_layout(lib.layout.Layout(list(cfg["layouts"][lname]["text"])))["text"])
        need("numGames", args["numGames"], want["numGames"])
        need("record", bool(args["record"]), want["record"])
        need("catchExceptions", bool(args["catchExceptions"]), want["catchExceptions"])
        need("timeout", args["timeout"], want["timeout"])
        need("numTraining", args.get("numTraining", 0), want["numTraining"])
        p = args["pacman"]
        need("pacman", type(p).__name__, want["pacman"])
        if pac != ["keyboard"]:
            if p.ORIGIN not in pac:
                raise Violation("wrong-module", f"{what}: {want['pacman']} comes from module {p.ORIGIN}, should be one of {pac}")
            need("agentArgs", p.kw, opts)
        need("ghosts", [type(g).__name__ for g in args["ghosts"]], [want["ghost"]] * want["numGhosts"])
        need("ghost-numbers", [g.index for g in args["ghosts"]], list(range(1, 1 + want["numGhosts"])))
        if ghost != ["ghosts"]:
            for g in args["ghosts"]:
                if g.ORIGIN not in ghost:
                    raise Violation("wrong-module", f"{what}: {want['ghost']} comes from module {g.ORIGIN}, should be one of {ghost}")
        disp = args["display"]
        need("display", getattr(disp, "kind", None), "quiet" if want["quietGraphics"] else "text" if want["textGraphics"] else "window")
        if disp.kind == "window":
            bound = dict(zip(("zoom", "frameTime", "capture"), disp.made[0]), **disp.made[1])
            need("zoom", bound.get("zoom", 1.0), want["zoom"])
            need("frameTime", bound.get("frameTime", 0.0), want["frameTime"])
        elif disp.kind == "text":
            need("frameTime", text.SLEEP_TIME, want["frameTime"])
        if bool(seeds) != want["fixRandomSeed"]:
            raise Violation("seeding", f"{what}: random numbers {'' if seeds else 'not '}seeded")
        if want["pacman"] == "KeyboardAgent":
            rec.log("read", seeds)
            return None
        # the games
        rec.nontrivial = True
        boom = "boom" in opts
        if err is not None and not (boom and not want["catchExceptions"]):
            raise Violation("run-failed", f"{what}: {type(err).__name__}: {str(err)[:300]}")
        if err is None:
            need("games", len(made), want["numGames"])
            need("returned", [id(g) for g in games], [id(g) for g, _ in made[want["numTraining"]:]])
        board = M.Board(cfg["layouts"][lname]["text"])
        n = 1 + min(want["numGhosts"], board.ghosts)
        for i, (game, start) in enumerate(made):
            training = i < want["numTraining"]
            model = M.St.initial(board)
            model.ag = model.ag[:n]
            if start != model.snap():
                raise Violation("wrong-start", f"{what}: game {i}: {M.difference(start, model.snap())}")
            need("agents", [id(a) for a in game.agents], [id(a) for a in [args["pacman"]] + args["ghosts"][:n - 1]])
            need("training-display", getattr(game.display, "kind", None), "quiet" if training else disp.kind)
            if not training and game.display is not disp:
                raise Violation("other-display", f"{what}: game {i}")
        if [k for k in shown if k.kind == "quiet" and k is not disp] and not want["numTraining"]:
            raise Violation("quiet-games", f"{what}: quiet games without training")
        files = sorted(set(real_listdir(".")) - before)
        need("records", len(files), (want["numGames"] if err is None else len(made) - 1) if want["record"] else 0)
        for f in files:
            os.unlink(f)
        for _, kw, r in rules_made:
            need("time-limit", (r.getMaxTotalTime(0), r.getMaxStartupTime(0), r.getMoveTimeout(0)), (want["timeout"],) * 3)
        rec.log("played", [g.moveHistory for g, _ in made], type(err).__name__)
        rec.probe("games", len(made))
        return [g.moveHistory for g, _ in made]

    def simplify_op(self, op):
        if "opts" not in op:
            return
        for k in ("vanish", "wrong"):
            if op.get(k) is not None:
                yield {x: v for x, v in op.items() if x != k}
        for k in op["opts"]:
            yield {**op, "opts": {x: v for x, v in op["opts"].items() if x != k}}

    def simplify_config(self, trace):
        cfg = trace["config"]
        if "modules" not in cfg:
            return
        for i in range(len(cfg["modules"])):
            if all(o.get("vanish") is None for o in trace["ops"]):
                yield {**trace, "config": {**cfg, "modules": cfg["modules"][:i] + cfg["modules"][i + 1:]}}


SCENARIOS = {"C29": Cli}
