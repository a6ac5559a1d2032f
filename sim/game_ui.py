"""Games on a simulated window system: keyboard input (C19), what the screen shows (C20) and how the
walls are drawn (C28)."""
import io
import math
import os
import random
import sys
from collections import Counter

from . import pacmodel as M
from .core import Rec, Scenario, Violation
from .game_rules import choose
from .game_run import Stop, h32
from .gamelib import SimOS, load

KEYS = {"KeyboardAgent": {"a": "West", "Left": "West", "d": "East", "Right": "East", "w": "North", "Up": "North", "s": "South",
                          "Down": "South", "q": "Stop"},
        "KeyboardAgent2": {"j": "West", "l": "East", "i": "North", "k": "South", "u": "Stop"}}
OTHER_KEYS = ["x", "Shift_L", "Escape", "F1", "space", "W", "A"]
NOISE = ["Configure", "Enter", "Leave", "Motion", "Button-1", "Button-2", "Button-3", "Expose", "Control-Button-1"]
TURN_LIMIT = 20000


class UiOS(SimOS):
    """The clock and window system of one run; events arrive at the times of the trace."""

    def __init__(self, rec, seed, ops):
        super().__init__(rec, random.Random(seed))
        self.costs = {op["n"]: op["dt"] for op in ops if op["op"] == "cost"}
        self.polls = 0
        self.turns = 0
        self.spent = 0.0
        self.mapped = False
        self.events = schedule(ops)
        self.delivered_log = []         # (kind, key)
        self.down = set()
        self.down_seen = False
        self.generated = 0
        self.idle_loops = 0

    def seam(self, where):
        if where != "dooneevent":
            return
        dt = self.costs.get(self.polls)
        self.polls += 1
        if dt:
            self.spent += dt
            self.rec.fault("slow_event_handling")
            self.advance(dt)

    def loop_turn(self):
        self.turns += 1
        if self.turns > TURN_LIMIT:
            raise Stop(Violation("no-progress", f"more than {TURN_LIMIT} event-loop turns"))

    def window_arrivals(self, root):
        if not self.mapped:
            return
        while self.events and self.events[0][0] <= self.now:
            _, _, kind, key = self.events.pop(0)
            root.pending.append((kind, key))
            self.idle_loops = 0

    def next_arrival(self):
        return self.events[0][0] if self.events and self.mapped else None

    def delivered(self, kind, key, root):
        if kind == "KeyPress":
            self.down.add(key)
            self.down_seen = True
        elif kind == "KeyRelease":
            self.down.discard(key)
        elif kind in ("FocusIn", "FocusOut"):
            self.down.clear()
        self.delivered_log.append((kind, key))


def schedule(ops):
    """Expand taps, holds with auto-repeat, focus changes and noise into a list of (time, order, kind, key)."""
    ev, n = [], 0
    away = []
    for op in ops:
        if op["op"] == "focus":
            away.append((op["t"], op["t"] + op["dur"]))

    def lost(t):
        return any(a < t < b for a, b in away)

    def add(t, kind, key=None):
        nonlocal n
        n += 1
        ev.append((round(t, 4), n, kind, key))
    for op in ops:
        if op["op"] == "tap":
            t, end = op["t"], op["t"] + op["hold"]
            if not lost(t):
                add(t, "KeyPress", op["key"])
            if op.get("repeat"):
                k = t + 0.25
                while k < end and k < t + 3:
                    if not lost(k):
                        if op.get("pairs", True):
                            add(k, "KeyRelease", op["key"])
                            add(k + op.get("gap", 0.0), "KeyPress", op["key"])
                        else:
                            add(k, "KeyPress", op["key"])
                    k += op["repeat"]
            if not lost(end):
                add(end + 0.0001, "KeyRelease", op["key"])
        elif op["op"] == "noise":
            add(op["t"], op["kind"])
    for a, b in away:
        add(a, "FocusOut")
        add(b, "FocusIn")
    ev.sort()
    return ev


class Keyboard:
    """Reference for the keyboard agent: the set of (waiting keys, keys in force) it may be in."""

    def __init__(self, keymap):
        self.keymap = keymap
        self.beliefs = {(frozenset(), frozenset())}
        self.last = "Stop"

    @staticmethod
    def waiting(w, events):
        for kind, key in events:
            if kind == "KeyPress":
                w = w | {key}
            elif kind in ("FocusIn", "FocusOut"):
                w = frozenset()
        return w

    @staticmethod
    def downs(d, events):
        d = frozenset(d)
        out = [d]
        for kind, key in events:
            d = d | {key} if kind == "KeyPress" else d - {key} if kind == "KeyRelease" else frozenset() if kind in ("FocusIn", "FocusOut") else d
            out.append(d)
        return out

    def between(self, events):
        self.beliefs = {(self.waiting(w, events), k) for w, k in self.beliefs}

    def forget(self):
        self.beliefs = {(frozenset(), k) for _, k in self.beliefs}

    def allowed(self, keys, legal):
        wanted = {self.keymap[k] for k in keys if k in self.keymap}
        if "Stop" in wanted and "Stop" in legal:
            return {"Stop"}
        wanted &= set(legal)
        if wanted:
            return wanted
        if self.last in legal:
            return {self.last}
        return {"Stop"} if "Stop" in legal else set(legal)

    def turn(self, down_before, events, legal, action, held=None):
        """`held`: a key that is held down, its auto-repeat (release and press) heading the event queue."""
        new, options = set(), set()
        downs = self.downs(down_before, events)
        for w, k in self.beliefs:
            for p in range(len(events) + 1):
                wp = self.waiting(w, events[:p])
                rest = self.waiting(frozenset(), events[p:])
                for d in set(downs):
                    keys = (wp | d) or k
                    if held is not None and held not in wp | d:
                        continue
                    ok = self.allowed(keys, legal)
                    options |= ok
                    if action in ok:
                        new.add((rest, frozenset(keys)))
        self.last = action
        if not new:
            return options
        self.beliefs = new
        return None


# ------------------------------------------------------------------------------------------------ the screen

GHOST_COLOUR = {1: "#004ce5", 2: "#f96811", 3: "#19bfb2", 4: "#ff9900", 5: "#6621e8"}
WHITE, BLACK, YELLOW = "#ffffff", "#000000", "#ffff3d"


def obs_screen(canvas, grid, height):
    """What the items on the canvas show, in board coordinates."""
    def board(x, y):
        return (x / grid - 1, height - y / grid)
    out = dict(pacman=[], mouth=[], ghosts=[], food=[], capsules=[], eyes=[], text=[], walls=[], beyond=[])
    for item in canvas.items.values():
        c = item["coords"]
        fill = item.get("fill")
        if item.get("state") == "hidden":
            continue
        low = 20 if item["kind"] == "text" else -2
        if min(c) < -2 or max(c[0::2]) > canvas.width + 2 or max(c[1::2]) + low > canvas.height:
            out["beyond"].append(f"{item['kind']} at {c[0]:.0f}, {c[1]:.0f}")
        if item["kind"] in ("arc", "oval") and item.get("style") != "arc":
            centre = board((c[0] + c[2] + 1) / 2, (c[1] + c[3] + 1) / 2)
            r = (c[2] - c[0] - 1) / 2 / grid
            if fill == YELLOW:
                out["pacman"].append(centre)
                out["mouth"].append((float(item.get("start", 0)) + float(item.get("extent", 90)) / 2 + 180) % 360)
            elif fill == BLACK and abs(r - 0.052) < 0.004 or fill == WHITE and abs(r - 0.13) < 0.01:
                out["eyes"].append((fill, centre))
            elif fill == WHITE and abs(r - 0.1) < 0.01:
                out["food"].append(centre)
            elif fill == WHITE and abs(r - 0.25) < 0.02:
                out["capsules"].append(centre)
        elif item["kind"] == "polygon" and len(c) > 8:
            xs, ys = c[0::2], c[1::2]
            out["ghosts"].append((board((min(xs) + max(xs)) / 2, (min(ys) + max(ys)) / 2), fill))
        elif item["kind"] == "line" or item["kind"] == "arc":
            out["walls"].append((item["kind"], tuple(c)))
        elif item["kind"] == "text":
            out["text"].append(str(item.get("text")))
    return out


def near(a, b, tol):
    return abs(a[0] - b[0]) <= tol and abs(a[1] - b[1]) <= tol


def match(got, want, tol):
    """Whether two lists of points agree as multisets within a tolerance."""
    got = list(got)
    for w in want:
        hit = next((g for g in got if near(g, w, tol)), None)
        if hit is None:
            return False
        got.remove(hit)
    return not got


RADIUS = 0.15


def in_wall(board, x, y):
    """Whether a point of the board belongs to the rounded body of the walls."""
    cx, cy = math.floor(x + 0.5), math.floor(y + 0.5)

    def wall(a, b):
        return 0 <= a < board.w and 0 <= b < board.h and (a, b) in board.walls
    if not wall(cx, cy):
        return False
    sx, sy = (1 if x >= cx else -1), (1 if y >= cy else -1)
    u, v = abs(x - cx), abs(y - cy)
    h, k, d = wall(cx + sx, cy), wall(cx, cy + sy), wall(cx + sx, cy + sy)
    if h and k:
        r2 = 2 * RADIUS
        return d or u < RADIUS or v < RADIUS or (u < r2 and v < r2 and math.hypot(r2 - u, r2 - v) > RADIUS)
    if h:
        return v < RADIUS
    if k:
        return u < RADIUS
    return math.hypot(u, v) < RADIUS


def crossings(strokes, at, axis):
    """Where a straight line across the canvas (y = at when axis is 0, x = at when it is 1) meets the strokes."""
    out = []
    for s in strokes:
        if s[0] == "line":
            a, b = (s[1], s[2]), (s[3], s[4])
            p, q = a[1 - axis], b[1 - axis]
            if p != q and min(p, q) <= at <= max(p, q):
                out.append(a[axis] + (b[axis] - a[axis]) * (at - p) / (q - p))
        else:
            _, mx, my, r, start, extent = s
            d = at - (my if axis == 0 else mx)
            if abs(d) < r:
                for sign in (1, -1):
                    e = sign * math.sqrt(r * r - d * d)
                    dx, dy = (e, d) if axis == 0 else (d, e)
                    if (math.degrees(math.atan2(-dy, dx)) - start) % 360 <= extent:
                        out.append((mx if axis == 0 else my) + e)
    out.sort()
    merged = []
    for x in out:                   # strokes that overlap where they join are one
        if not merged or x - merged[-1] > 1.6:
            merged.append(x)
    return merged


def wall_outline_error(canvas, grid, board, seed, rec):
    """Sweeps the canvas with lines: the strokes met must separate wall from corridor everywhere."""
    strokes = []
    for item in canvas.items.values():
        c = item["coords"]
        if item["kind"] == "line":
            strokes.append(("line", *c[:4]))
        elif item["kind"] == "arc" and item.get("style") == "arc":
            strokes.append(("arc", (c[0] + c[2]) / 2, (c[1] + c[3]) / 2, (c[2] - c[0]) / 2,
                            float(item.get("start", 0)), float(item.get("extent", 90))))
    margin = 2.2 / grid
    offsets = (-0.44, -0.34, -0.26, -0.22, -0.06, 0.04, 0.07, 0.23, 0.27, 0.36, 0.45)
    for axis, count, length in ((0, board.h, board.w), (1, board.w, board.h)):
        for j in range(-1, count + 1):
            for n in range(3):
                t = j + offsets[h32(seed, axis, j, n) % len(offsets)]
                at = (board.h - t) * grid if axis == 0 else (t + 1) * grid
                cuts = crossings(strokes, at, axis)
                rec.probe("sweeps")
                for step in range(-6, 10 * length):
                    x = step / 10 + 0.013
                    bx, by = (x, t) if axis == 0 else (t, x)
                    want = in_wall(board, bx, by)
                    if any(in_wall(board, bx + a, by + b) != want for a in (-margin, 0, margin) for b in (-margin, 0, margin)):
                        continue
                    pix = (bx + 1) * grid if axis == 0 else (board.h - by) * grid
                    if (sum(1 for c in cuts if c < pix) % 2 == 1) != want:
                        return (f"the strokes put the point {bx:.2f}, {by:.2f} {'outside' if want else 'inside'} the walls "
                                f"(sweep along {'x' if axis == 0 else 'y'})")
    return None


class World:
    def __init__(self, pid, trace, rec):
        self.pid, self.cfg, self.rec = pid, trace["config"], rec
        self.ops = trace["ops"]
        self.lib = load()
        self.lib.reset()
        self.sim = UiOS(rec, self.cfg["seed"], self.ops)
        self.board = M.Board(self.cfg["text"])
        self.keyboard = Keyboard(KEYS.get(self.cfg["pac"], {}))
        self.mark = 0
        self.pac_turns = 0
        self.watch = []
        self.moves = 0
        self.judge_keys, self.judge_screen = pid == "C19", pid == "C20"
        self.pauses, self.overlays = 0, Overlay(self, self.ops)

    def bad(self, kind, message):
        raise Stop(Violation(kind, message))

    # ------------------------------------------------------------------------------------- keyboard
    def pull(self):
        ev = self.sim.delivered_log[self.mark:]
        self.mark = len(self.sim.delivered_log)
        return ev

    def before_turn(self):
        sim = self.sim
        if sim.root:
            sim.window_arrivals(sim.root)
            for item in sim.root.pending:
                if item[0] == "KeyPress":
                    self.rec.probe("press_pending_at_turn")
                    break
        self.keyboard.between(self.pull())
        self.down_before = frozenset(sim.down)
        self.held = None
        q = sim.root.pending[:2] if sim.root else []
        if len(q) == 2 and q[0] == ("KeyRelease", q[1][1]) and q[1][0] == "KeyPress" and q[1][1] in sim.down:
            self.held = q[1][1]
            self.rec.probe("auto_repeat_at_turn")
        if self.watch and self.judge_keys:
            still = [i for i in self.watch[-1] if any(i is p for p in sim.root.pending)]
            if len(self.watch) >= 2:
                still = [i for i in self.watch[-2] if any(i is p for p in sim.root.pending)]
                if still:
                    self.bad("event-ignored", f"{still[0]} was at the head of the queue two turns ago and has still not been handled")
        self.watch.append(list(sim.root.pending[:2]) if sim.root else [])

    def after_turn(self, state, action):
        ev = self.pull()
        legal = list(state.getLegalActions(0))
        self.pac_turns += 1
        if ev:
            self.rec.probe("event_during_turn")
        for kind, key in ev:
            if kind == "KeyPress":
                self.rec.probe("press_during_turn")
        self.rec.log("turn", action, sorted(self.sim.down))
        if not self.judge_keys:
            return
        if action not in legal:
            self.bad("illegal-move", f"turn {self.pac_turns}: {action!r} not in {sorted(legal)}")
        options = self.keyboard.turn(self.down_before, ev, legal, action, self.held)
        if options is not None:
            self.bad("wrong-move", f"turn {self.pac_turns}: {action!r}, expected one of {sorted(options)}; keys down "
                     f"{sorted(self.sim.down)}, legal {sorted(legal)}")

    # ------------------------------------------------------------------------------------- display
    def make_display(self):
        w, sim = self, self.sim
        display = self.lib.gd.PacmanGraphics(self.cfg["zoom"], frameTime=self.cfg["frame"])

        class Proxy:
            def initialize(self, data, *rest):
                sim.mapped = False
                display.initialize(data, *rest)
                sim.mapped = True
                sim.down.clear()
                w.pull()
                w.keyboard.forget()
                w.watch = []
                w.shown = {i: (M._p(a.configuration.pos), a.scaredTimer > 0, i) for i, a in enumerate(data.agentStates)}
                w.facing = {i: str(a.configuration.direction) for i, a in enumerate(data.agentStates)}
                w.walls = None
                w.overlays.new_game()
                w.check_screen(data, "after initialize")
                w.between()

            def update(self, data):
                i = data._agentMoved
                t0, c0 = sim.now, sim.spent
                sim.down_seen = bool(sim.down)
                ft = display.frameTime
                display.update(data)
                a = data.agentStates[i]
                w.shown[i] = (M._p(a.configuration.pos), a.scaredTimer > 0, i)
                w.facing[i] = str(a.configuration.direction)
                w.moves += 1
                w.check_screen(data, f"after move {w.moves} (agent {i})")
                w.check_time(i, ft, sim.now - t0, sim.spent - c0)
                w.between()

            def finish(self):
                display.finish()
                sim.mapped = False
                sim.down.clear()
                w.pull()
                w.keyboard.forget()
                if w.judge_screen and any(not r.destroyed for r in sim.roots):
                    w.bad("window-left", "a window is still there after the end of the game")
        self.display = display
        return Proxy()

    def between(self):
        """Time that passes outside the display (agents thinking)."""
        if self.cfg["think"]:
            self.sim.advance(self.cfg["think"])
        if self.pid == "C34":
            self.overlays.pause(self.pauses)
        self.pauses += 1

    def check_time(self, i, ft, took, cost):
        if ft < 0:
            if i == 0 and self.judge_keys:
                if not self.sim.down_seen:
                    self.bad("no-wait", "stepping went on although no key was down")
                self.rec.probe("stepped_by_key")
            return
        if not self.judge_screen:
            return
        want = ft if i == 0 and ft > 0.01 else 0.0
        if took > want + cost + 1e-6 or took < want - 0.0041:
            self.bad("frame-time", f"agent {i}: update took {took:.4f}s, frame time {ft}, event handling {cost:.4f}s")
        if want:
            self.rec.probe("animated_moves")

    def check_walls(self, where):
        live = [r for r in self.sim.roots if not r.destroyed]
        if len(live) != 1 or not live[0].canvases:
            self.bad("windows", f"{where}: {len(live)} windows")
        grid = 30.0 * self.cfg["zoom"]
        canvas = live[0].canvases[-1]
        walls = sorted(obs_screen(canvas, grid, self.board.h)["walls"])
        if self.walls is None:
            self.walls = walls
        elif walls != self.walls:
            self.bad("walls-changed", f"{where}: the drawing of the walls has changed")
            return
        else:
            return
        for item in canvas.items.values():
            colour = item.get("fill") if item["kind"] == "line" else item.get("outline") if item.get("style") == "arc" else WHITE
            if colour in (None, "", BLACK):
                self.bad("invisible", f"{where}: a {item['kind']} in the colour {colour!r} of the background")
        wrong = wall_outline_error(canvas, grid, self.board, self.cfg["seed"], self.rec)
        if wrong:
            self.bad("outline", f"{where}: {wrong}")

    def check_screen(self, data, where):
        if self.pid == "C28":
            self.check_walls(where)
        if not self.judge_screen:
            return
        live = [r for r in self.sim.roots if not r.destroyed]
        if len(live) != 1 or not live[0].canvases:
            self.bad("windows", f"{where}: {len(live)} windows")
        grid = 30.0 * self.cfg["zoom"]
        got = obs_screen(live[0].canvases[-1], grid, self.board.h)
        tol = 0.8 / grid
        if got["beyond"]:
            self.bad("beyond-window", f"{where}: outside the window are {got['beyond'][:5]}")
        pac = [p for p, _, i in self.shown.values() if i == 0]
        if not match(got["pacman"], pac, tol):
            self.bad("pacman-shown", f"{where}: {got['pacman']} instead of {pac}")
        want = [(p, WHITE if scared else GHOST_COLOUR[i]) for p, scared, i in self.shown.values() if i]
        if Counter(c for _, c in got["ghosts"]) != Counter(c for _, c in want) or any(
                not match([p for p, c in got["ghosts"] if c == col], [p for p, c in want if c == col], 0.02) for col in {c for _, c in want}):
            self.bad("ghosts-shown", f"{where}: {sorted(got['ghosts'])} instead of {sorted(want)}")
        if len(got["eyes"]) != 4 * len(want):
            self.bad("ghosts-shown", f"{where}: {len(got['eyes'])} eye parts for {len(want)} ghosts")
        for p, _ in want:
            for col in (WHITE, BLACK):
                if sum(1 for c, q in got["eyes"] if c == col and near(p, q, 0.5)) < 2:
                    self.bad("ghosts-shown", f"{where}: the ghost at {p} has lost its eyes: {got['eyes']}")
        self.check_facing(got, where)
        if self.walls is None:
            self.walls = sorted(got["walls"])
        elif self.walls != sorted(got["walls"]):
            self.bad("walls-shown", f"{where}: the drawing of the walls has changed")
        food = M.grid_cells(data.food)
        if not match(got["food"], food, tol):
            self.bad("food-shown", f"{where}: {sorted(got['food'])} instead of {sorted(food)}")
        if not match(got["capsules"], data.capsules, tol):
            self.bad("capsules-shown", f"{where}: {sorted(got['capsules'])} instead of {sorted(data.capsules)}")
        scores = [t for t in got["text"] if "SCORE" in t.upper()]
        if len(scores) != 1 or scores[0].upper().replace("SCORE", "").replace(":", "").split() != [str(int(data.score))]:
            self.bad("score-shown", f"{where}: {scores} instead of {data.score}")

    def check_facing(self, got, where):
        """Everybody looks the way they last moved."""
        angle = {"East": 0, "North": 90, "West": 180, "South": 270}
        want = angle.get(self.facing[0])
        if want is not None and abs((got["mouth"][0] - want + 180) % 360 - 180) > 5:
            self.bad("pacman-facing", f"{where}: Pacman moves {self.facing[0]}, his mouth is at {got['mouth'][0]:.0f} degrees")
        at = [p for p, _, i in self.shown.values() if i]
        for p, _, i in self.shown.values():
            if not i or sum(near(p, q, 1.1) for q in at) > 1:
                continue                # the eyes of ghosts close to one another cannot be told apart
            whites = [q for c, q in got["eyes"] if c == WHITE and near(p, q, 0.5)]
            pupils = [q for c, q in got["eyes"] if c == BLACK and near(p, q, 0.5)]
            dx, dy = (sum(q[k] for q in pupils) / len(pupils) - sum(q[k] for q in whites) / len(whites) for k in (0, 1))
            vx, vy = M.VEC[self.facing[i]]
            along, across = dx * vx + dy * vy, abs(dx * vy) + abs(dy * vx)
            if along < 0.02 or across > 0.01 if (vx, vy) != (0, 0) else abs(dx) + abs(dy) > 0.01:
                self.bad("ghost-facing", f"{where}: ghost {i} moves {self.facing[i]}, its pupils are off by {dx:.3f}, {dy:.3f}")
            self.rec.probe("ghost_looks_" + self.facing[i])

    # ------------------------------------------------------------------------------------- the games
    def run(self):
        w, lib, cfg = self, self.lib, self.cfg
        cls = getattr(lib.ka, cfg["pac"], None)
        if cls:
            class Pac(cls):
                def getAction(self, state):
                    w.before_turn()
                    action = cls.getAction(self, state)
                    w.after_turn(state, action)
                    return action
            pac = Pac()
        else:
            class Scripted(lib.game.Agent):
                n = 0

                def getAction(self, state):
                    self.n += 1
                    return choose(w.model(state), 0, cfg["policy"], h32(self.n, cfg["seed"]))
            pac = Scripted()

        class Ghost(lib.game.Agent):
            n = 0

            def getAction(self, state):
                self.n += 1
                return choose(w.model(state), self.index, cfg["ghost_policy"], h32(self.n, self.index, cfg["seed"])) or "Stop"
        ghosts = [Ghost(i + 1) for i in range(self.board.ghosts)]
        proxy = self.make_display()
        base = lib.pacman.ClassicGameRules

        class Rules(base):
            def process(self, state, game):
                base.process(self, state, game)
                if w.moves - start >= cfg["cap"]:
                    game.gameOver = True
        out = io.StringIO()
        sys.stdout = out
        isfile = os.path.isfile
        if cfg.get("clutter"):          # a working directory in which every plain name is a file
            os.path.isfile = lambda p: isfile(p) or isinstance(p, str) and os.sep not in p
            self.rec.fault("working_directory_full_of_files")
        try:
            with self.sim:
                for g in range(cfg["games"]):
                    start = self.moves
                    game = Rules(30).newGame(lib.layout.Layout(list(cfg["text"])), pac, ghosts, proxy, True, False)
                    game.run()
                    if self.pid == "C20" and self.moves - start != len(game.moveHistory):
                        raise Violation("move-not-shown", f"{len(game.moveHistory)} moves made, {self.moves - start} shown")
                    self.rec.log("game", M.obs_state(game.state)["score"])
        except Stop as s:
            raise s.what
        finally:
            sys.stdout = sys.__stdout__
            os.path.isfile = isfile
        self.rec.ops = self.moves
        self.rec.sim_time = self.sim.now
        self.rec.probe("moves", self.moves)
        c = Counter(k for k, _ in self.sim.delivered_log)
        for k, n in c.items():
            self.rec.fault("event_" + k, n)
        self.rec.nontrivial = self.moves >= 5

    def canvas(self, where):
        live = [r for r in self.sim.roots if not r.destroyed]
        if len(live) != 1 or not live[0].canvases:
            self.bad("windows", f"{where}: {len(live)} windows")
        return live[0].canvases[-1]

    def model(self, state):
        """The reference state for choosing a move (read from the state itself)."""
        m = M.St.initial(self.board)
        s = M.obs_state(state)
        for a, (pos, d, timer, _) in zip(m.ag, s["agents"]):
            a.pos = tuple(int(c) if c == int(c) else c for c in pos)
            a.dir, a.timer = d, timer
        m.food, m.caps, m.score, m.win, m.lose = s["food"], frozenset(s["capsules"]), s["score"], s["win"], s["lose"]
        return m


class Hurt(Exception):
    pass


class Breaking(list):
    """The list of a caller whose iteration fails on the way."""
    after = 0

    def __iter__(self):
        for k, c in enumerate(list.__iter__(self)):
            if k == self.after:
                raise Hurt()
            yield c


class Overlay:
    """What the overlay operations of a run should leave on the screen, and what they do."""

    def __init__(self, world, ops):
        self.w, self.plan = world, {}
        for op in ops:
            if op["op"] == "overlay":
                self.plan.setdefault(op["at"], []).append(op)
        self.dists = []
        self.frames, self.twin = [], None
        self.new_game()

    def new_game(self):
        self.cells, self.beliefs = [], None         # None: no belief squares; "?": not known after a failure
        self.shown = None

    def pause(self, k):
        where = f"pause {k}"
        self.judge(where)
        self.frames.append(self.rest())
        if self.twin is not None and self.twin[k:k + 1] != [self.frames[-1]]:
            self.w.bad("board-spoilt", f"{where}: apart from the overlays the screen differs from the same game without them")
        for n, op in enumerate(self.plan.get(k, ())):
            before = self.rest()
            self.do(op)
            what = f"{where}, operation {n} ({op['what']})"
            self.judge(what)
            if self.rest() != before:
                self.w.bad("board-spoilt", f"{what}: {len(before)} other items before, {len(self.rest())} after, or one of them changed")
            self.w.rec.probe("overlay_" + op["what"])

    def do(self, op):
        display, rec = self.w.display, self.w.rec
        if op["what"] == "clear":
            display.clearExpandedCells()
            self.cells = []
        elif op["what"] == "cells":
            cells = [tuple(c) for c in op["cells"]]
            given = list(cells)
            if op.get("fail") is not None:
                given = Breaking(cells)
                given.after = op["fail"]
            try:
                display.drawExpandedCells(given)
                self.cells = cells
            except Hurt:
                self.cells = "?"
                rec.fault("caller_list_fails")
            if list.__len__(given) != len(cells) or [list.__getitem__(given, k) for k in range(len(cells))] != cells:
                self.w.bad("argument-changed", "drawExpandedCells has changed the list of its caller")
        else:
            counter, copies = self.w.lib.util.Counter, []

            class Failing(counter):
                def copy(self):
                    raise Hurt()
            for k, weights in enumerate(op["beliefs"]):
                c = (Failing if op.get("fail") == k else counter)()
                for x, y, v in weights:
                    c[x, y] = v
                copies.append(c)
            saved = [dict(c) for c in copies]
            try:
                display.updateDistributions(copies)
                self.beliefs = saved
            except Hurt:
                self.beliefs = "?"
                rec.fault("caller_belief_fails")
            if [dict(c) for c in copies] != saved:
                self.w.bad("argument-changed", "updateDistributions has changed the beliefs of its caller")
            if op.get("later"):                     # the caller goes on with his beliefs; the screen stays as it is
                for c in copies:
                    for key in list(c):
                        c[key] = 1.0 - c[key]

    @staticmethod
    def is_square(item):
        return item["kind"] == "polygon" and len(item["coords"]) == 8

    def parts(self):
        canvas = self.w.canvas("overlay")
        items = list(canvas.items.values())
        back = next((i for i in items if self.is_square(i) and max(i["coords"][0::2]) - min(i["coords"][0::2]) >= canvas.width - 4
                     and max(i["coords"][1::2]) - min(i["coords"][1::2]) >= canvas.height - 4), None)
        return items, back

    def rest(self):
        items, back = self.parts()
        return [repr(sorted(i.items(), key=lambda kv: kv[0])) for i in items if i is back or not self.is_square(i)]

    def judge(self, where):
        w = self.w
        items, back = self.parts()
        if back is None or items[0] is not back:
            w.bad("background", f"{where}: the background is not the lowest item on the screen")
        grid, height = 30.0 * w.cfg["zoom"], w.board.h
        squares = {}
        top = False
        for i in items[1:]:
            if not self.is_square(i):
                top = True
                continue
            if i.get("state") == "hidden":
                continue
            if top:
                w.bad("overlay-on-top", f"{where}: a square of an overlay covers the drawing of the board")
            xs, ys = i["coords"][0::2], i["coords"][1::2]
            c = ((min(xs) + max(xs)) / 2 / grid - 1, height - (min(ys) + max(ys)) / 2 / grid)
            cell = (round(c[0]), round(c[1]))
            if not near(c, cell, 0.06) or abs(max(xs) - min(xs) - grid) > 0.1 * grid or abs(max(ys) - min(ys) - grid) > 0.1 * grid:
                w.bad("square-shape", f"{where}: a square of {max(xs) - min(xs):.1f} x {max(ys) - min(ys):.1f} around {c}, the side of a cell is {grid}")
            squares.setdefault(cell, []).append(rgb(i.get("fill")))
        if self.cells == "?" or self.beliefs == "?":
            return
        want = Counter(self.cells)
        if self.beliefs is not None:
            want.update((x, y) for x in range(w.board.w) for y in range(w.board.h))
        if Counter({c: len(v) for c, v in squares.items()}) != want:
            extra = Counter({c: len(v) for c, v in squares.items()}) - want
            lack = want - Counter({c: len(v) for c, v in squares.items()})
            w.bad("squares", f"{where}: {sum(want.values())} squares expected; missing at {sorted(lack)[:5]}, too many at {sorted(extra)[:5]}")
        shades = []
        for c in self.cells:
            reds = [v for v in squares[c] if v[0] > v[1] + 0.002 and abs(v[1] - v[2]) < 0.01]
            if self.beliefs is not None:
                other = list(squares[c])
                m = next((v for v in other if close(v, self.mix(c))), None)
                if m is not None:
                    other.remove(m)
                    reds = [v for v in other if v in reds]
            if not reds:
                w.bad("cell-colour", f"{where}: the expanded cell {c} is not red but {squares[c]}")
            shades.append(reds[0][0])
        if any(b > a + 0.002 for a, b in zip(shades, shades[1:])) or len(shades) > 3 and not shades[0] > shades[-1] + 0.02:
            w.bad("cell-colour", f"{where}: the shades of the expanded cells do not fade from first to last: {[round(s, 3) for s in shades[:12]]}")
        if self.beliefs is not None:
            for c, got in squares.items():
                if not any(close(v, self.mix(c)) for v in got):
                    w.bad("belief-colour", f"{where}: {c} is coloured {got} instead of {self.mix(c)} (beliefs {[b.get(c, 0) for b in self.beliefs]})")
                if self.mix(c) != (0.0, 0.0, 0.0):
                    w.rec.probe("coloured_belief_cells")

    def mix(self, cell):
        colour = (0.0, 0.0, 0.0)
        for k, b in enumerate(self.beliefs):
            v = b.get(cell, 0)
            colour = tuple(min(1.0, c + 0.95 * g * v ** 0.3) for c, g in zip(colour, rgb(GHOST_COLOUR[k + 1])))
        return colour


def rgb(colour):
    if not isinstance(colour, str) or len(colour) != 7 or colour[0] != "#":
        raise Stop(Violation("colour", f"a square without a colour: {colour!r}"))
    return tuple(int(colour[k:k + 2], 16) / 255 for k in (1, 3, 5))


def close(a, b):
    return all(abs(x - y) < 0.012 for x, y in zip(a, b))


class Ui(Scenario):
    quick_runs = 14000
    thorough_runs = 200000
    real_components = ["scripts/demo/graphicsDisplay.py, graphicsUtils.py, keyboardAgents.py, game.py, pacman.py (unmodified)"]
    stub_components = ["tkinter (window, canvas, event queue, timers) on the simulated clock", "ghost moves", "user (key events from the trace)"]
    assumptions = ["key events reach the window only while it has focus", "window events are served before timers",
                   "no window events before the new window is shown", "the window is not closed by the user"]

    def setup(self):
        load()

    def generate(self, rng, index, tier):
        pid = self.id
        ghosts = (0, 3) if pid == "C19" else (0, 4)
        text = M.random_board(rng, wmax=(W := rng.choice([6, 9, 12] * 12 + [34])), hmax=7 if W < 30 else 30, ghosts=ghosts, caps=(0, 3), food=rng.choice([0.1, 0.4]))
        pac = rng.choice(["KeyboardAgent", "KeyboardAgent", "KeyboardAgent2"]) if pid == "C19" or rng.random() < 0.4 else "scripted"
        frame = rng.choice([0.1, 0.1, 0.05, 0.2, 0.03, 0.0, 0.0, 0.005, 0.01, 0.011, 0.5, 1.0])
        step = pid == "C19" and rng.random() < 0.2
        if step:
            frame = rng.choice([-1, -0.1, -0.4])
        cfg = dict(text=text, seed=rng.randrange(1 << 30), pac=pac, frame=frame, think=rng.choice([0.0, 0.01, 0.05, 0.11]),
                   zoom=rng.choice([1.0, 1.0, 0.5, 0.3, 2.0, 1.37, 3.0]), games=rng.choice([1, 1, 2, 3]),
                   cap=rng.choice([8, 30, 90]), policy=rng.choice(["caps", "food", "rand", "avoid", "meet"]),
                   ghost_policy=rng.choice(["chase", "rand", "flee", "rand"]))
        if rng.random() < 0.1:
            cfg["clutter"] = True
        n = 1 + M.Board(text).ghosts
        if frame <= 0.01 and cfg["think"] == 0.0:
            cfg["think"] = 0.03
        length = (cfg["cap"] / n * max(abs(frame), 0.0) + cfg["cap"] * cfg["think"] + 1) * cfg["games"]
        ops = []
        keys = sorted(KEYS.get(pac, KEYS["KeyboardAgent"]))
        for _ in range(rng.choice([0, 3, 10, 30])):
            x = rng.random()
            t = round(rng.uniform(0, length), 3)
            if x < 0.75:
                op = dict(op="tap", t=t, key=rng.choice(keys) if rng.random() < 0.85 else rng.choice(OTHER_KEYS),
                          hold=rng.choice([0.0, 0.001, 0.02, 0.06, 0.3, 1.0, 5.0]))
                if rng.random() < 0.4:
                    op.update(repeat=rng.choice([0.03, 0.05, 0.1]), pairs=rng.random() < 0.7, gap=rng.choice([0.0, 0.0, 0.002]))
                ops.append(op)
                if rng.random() < 0.2:         # roll-over: the next key comes before the first is let go
                    ops.append(dict(op, t=round(t + rng.choice([0, 0.001, 0.04]), 4), key=rng.choice(keys)))
            elif x < 0.85:
                ops.append(dict(op="focus", t=t, dur=rng.choice([0.01, 0.2, 1.0, 3.0])))
            else:
                ops.append(dict(op="noise", t=t, kind=rng.choice(NOISE)))
        if rng.random() < 0.2:         # a key held by hand, its auto-repeat about as slow as the game, and other keys tapped meanwhile
            t0 = round(rng.uniform(0, length / 2), 3)
            turn = max(abs(frame), 0.0) + n * cfg["think"]
            ops.append(dict(op="tap", t=t0, key=rng.choice(keys), hold=rng.uniform(1, 8), repeat=round(max(0.03, turn * rng.choice([0.7, 1.0, 1.3, 2.0])), 4),
                            pairs=True, gap=0.0))
            for _ in range(rng.randint(2, 8)):
                ops.append(dict(op="tap", t=round(t0 + rng.uniform(0.2, 4), 3), key=rng.choice(OTHER_KEYS + keys), hold=0.001))
        if rng.random() < 0.5:
            for _ in range(rng.randint(1, 6)):
                ops.append(dict(op="cost", n=rng.randint(0, 300), dt=rng.choice([0.001, 0.02, 0.1, 0.7])))
        if step:
            # somebody keeps pressing keys, so that stepping can go on
            t = 0.3
            while t < 4 * cfg["cap"] * cfg["games"]:
                ops.append(dict(op="tap", t=round(t, 3), key="x" if rng.random() < 0.7 else rng.choice(keys), hold=rng.choice([0.15, 0.3, 0.5])))
                t += rng.choice([0.4, 0.9, 2.0])
        return dict(config=cfg, ops=ops)

    def run(self, trace, rec):
        if trace["config"]["frame"] < 0 and not any(op["op"] == "tap" and op["t"] > 100 for op in trace["ops"]):
            # a stepping game needs a user: one who comes back at the very end and holds a key
            first = 1000.0 if self.id == "C19" else 10.0
            trace = dict(trace, ops=trace["ops"] + [dict(op="tap", t=first + 3 * k, key="x", hold=1.0) for k in range(300)])
        World(self.id, trace, rec).run()

    def simplify_op(self, op):
        if op.get("repeat"):
            yield {k: v for k, v in op.items() if k not in ("repeat", "pairs", "gap")}
        if op.get("hold", 0) > 0.3:
            yield {**op, "hold": 0.3}

    def simplify_config(self, trace):
        cfg = trace["config"]
        for k, vs in (("games", [1, 2]), ("cap", [8, 30]), ("zoom", [1.0]), ("think", [0.0])):
            for v in vs:
                if cfg[k] != v and (k != "games" and k != "cap" or cfg[k] > v):
                    yield {**trace, "config": {**cfg, k: v}}


class Walls(Ui):
    id = "C28"
    quick_runs = 6000
    thorough_runs = 120000
    rule = ("one evaluation = 1-3 games on the real display, on one generated layout; the strokes of every first frame are swept "
            "by lines in both directions and compared with the walls of the layout, every later frame with the first; "
            "non-trivial when at least 40 sweeps were made")

    def generate(self, rng, index, tier):
        while True:
            trace = super().generate(rng, index, tier)
            cfg = trace["config"]
            cfg["cap"] = rng.choice([3, 8, 8, 30])
            cfg["zoom"] = rng.choice([1.0, 1.0, 0.7, 2.0, 1.37, 3.0])
            rows = list(cfg["text"])
            if rng.random() < 0.6:          # more walls, wherever nothing needs to be
                share = rng.choice([0.2, 0.5, 0.8])
                rows = ["".join("%" if ch == " " and rng.random() < share else ch for ch in row) for row in rows]
            if rng.random() < 0.3:          # blocks and holes
                for _ in range(rng.randint(1, 3)):
                    y, x = rng.randrange(len(rows)), rng.randrange(len(rows[0]))
                    ch = rng.choice("% ") if 0 < y < len(rows) - 1 and 0 < x < len(rows[0]) - 1 else "%"
                    for a in range(y, min(len(rows) - (ch == " "), y + rng.randint(1, 4))):
                        for b in range(x, min(len(rows[0]) - (ch == " "), x + rng.randint(1, 4))):
                            if rows[a][b] in "% .":
                                rows[a] = rows[a][:b] + ch + rows[a][b + 1:]
            board = M.Board(rows)
            if board.food and all(any((x + a, y + b) not in board.walls for a, b in M.VEC.values() if (a, b) != (0, 0))
                                  for x, y in board.agents):
                cfg["text"] = rows
                return trace

    def run(self, trace, rec):
        super().run(trace, rec)
        rec.nontrivial = rec.probes.get("sweeps", 0) >= 40


class Overlays(Ui):
    id = "C34"
    quick_runs = 12000
    thorough_runs = 100000
    rule = ("one evaluation = 1-3 games on the real display with overlay operations between the moves (expanded cells drawn and cleared, "
            "beliefs shown, some with failing arguments), and the same games without them; the squares on the simulated canvas are judged "
            "after every operation and move, all other items against the games without overlays; non-trivial when 3 or more operations ran")

    def generate(self, rng, index, tier):
        trace = super().generate(rng, index, tier)
        cfg = trace["config"]
        cfg["pac"], cfg["cap"] = "scripted", rng.choice([3, 8, 8, 30])
        if rng.random() < 0.08:
            cfg["frame"] = rng.choice([-1, -0.1])
            trace["ops"] = [op for op in trace["ops"] if op["op"] == "cost"]
            trace["ops"] += [dict(op="tap", t=round(0.3 + 0.7 * k, 3), key="x", hold=0.4) for k in range(3 * cfg["cap"] * cfg["games"])]
        board = M.Board(cfg["text"])
        everywhere = [(x, y) for x in range(board.w) for y in range(board.h)]
        free = [c for c in everywhere if c not in board.walls]
        n = rng.choice([1, 3, 8, 20])
        for _ in range(n):
            op = dict(op="overlay", at=rng.randrange((cfg["cap"] + 1) * cfg["games"]), what=rng.choice(["cells", "cells", "clear", "beliefs"]))
            if op["what"] == "cells":
                pool = free if rng.random() < 0.8 else everywhere
                k = min(len(pool), rng.choice([0, 1, 2, 5, 20, 80]))
                op["cells"] = rng.sample(pool, k)
                if rng.random() < 0.5:
                    op["cells"].sort()
                if k and rng.random() < 0.1:
                    op["fail"] = rng.randrange(k)
            elif op["what"] == "beliefs":
                op["beliefs"] = []
                for _ in range(rng.randint(0, board.ghosts) if rng.random() < 0.2 else board.ghosts):
                    cells = rng.sample(free, min(len(free), rng.choice([1, 2, 5, 40])))
                    total = sum(ws := [rng.choice([0.001, 0.1, 1, 1, 3, 0]) for _ in cells]) or 1
                    op["beliefs"].append([[x, y, v / total] for (x, y), v in zip(cells, ws)])
                if rng.random() < 0.08 and op["beliefs"]:
                    op["fail"] = rng.randrange(len(op["beliefs"]))
                if rng.random() < 0.3:
                    op["later"] = True
            trace["ops"].append(op)
        return trace

    def run(self, trace, rec):
        if trace["config"]["frame"] < 0:
            super().run(trace, rec)
            rec.nontrivial = sum(v for k, v in rec.probes.items() if k.startswith("overlay_")) >= 3
            return
        plain = World(self.id, dict(trace, ops=[op for op in trace["ops"] if op["op"] != "overlay"]), Rec())
        plain.run()
        world = World(self.id, trace, rec)
        world.overlays.twin = plain.overlays.frames
        world.run()
        rec.nontrivial = sum(v for k, v in rec.probes.items() if k.startswith("overlay_")) >= 3

    def simplify_op(self, op):
        if op["op"] != "overlay":
            yield from super().simplify_op(op)
            return
        for k in ("cells", "beliefs"):
            v = op.get(k)
            if v:
                yield {**{a: b for a, b in op.items() if a != "fail"}, k: v[:len(v) // 2]}
                yield {**{a: b for a, b in op.items() if a != "fail"}, k: v[1:]}
        if op["at"]:
            yield {**op, "at": op["at"] // 2}
            yield {**op, "at": op["at"] - 1}


SCENARIOS = {
    "C34": Overlays,
    "C19": type("Keys", (Ui,), dict(id="C19", rule="one evaluation = 1-3 games played through the real keyboard agent and display while key "
                                    "presses, releases, auto-repeat, focus changes and noise arrive at simulated times; every turn is judged by a "
                                    "reference automaton over the delivered events; non-trivial when at least 5 moves were made")),
    "C20": type("Screen", (Ui,), dict(id="C20", rule="one evaluation = 1-3 games on the real display; after every update the items on the "
                                      "simulated canvas are compared with the game; non-trivial when at least 5 moves were made")),
    "C28": Walls,
}
