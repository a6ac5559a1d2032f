"""C35: clients that share, copy, edit, pack and query maps (grids, layouts, moves) in turn, with calls cut off and repeated."""
import random
import sys
from collections import Counter

from . import pacmodel as M
from .core import Scenario, Violation
from .game_states import Cancelled, Canceller
from .gamelib import SimOS, load

SWEEP_CELLS = 30


class Held:
    """A grid of the demo, and the cells it should have set (one dictionary for all grids that share their cells)."""

    def __init__(self, real, w, h, cells):
        self.real, self.w, self.h, self.cells = real, w, h, cells

    def key(self):
        return (self.w, self.h, frozenset(c for c, v in self.cells.items() if v))


class Maps(Scenario):
    id = "C35"
    quick_runs = 40000
    thorough_runs = 800000
    rule = ("one evaluation = up to 8 grids (blank, of layouts, copies, sharing copies, unpacked ones) and 1-2 layouts held by clients that edit and query them "
            "in turn for 10-60 operations; all grids are compared with reference sets after every edit; non-trivial when at least one edit and 8 queries ran")
    real_components = ["scripts/demo/game.py Grid, reconstituteGrid, Configuration, Actions, Directions; layout.py Layout; util.py matrixAsList (unmodified)"]
    stub_components = ["random module (numbers from the seed)"]
    assumptions = ["cells hold booleans", "layouts are rectangles with at least one free cell"]

    def setup(self):
        load()

    # ------------------------------------------------------------------------------------------ generation
    def generate(self, rng, index, tier):
        texts = []
        for _ in range(rng.randint(1, 2)):
            if rng.random() < 0.5:
                texts.append(M.random_board(rng, wmax=rng.choice([6, 9, 14, 33]), hmax=rng.choice([6, 9, 30]), ghosts=(0, 4), caps=(0, 4), food=rng.choice([0, 0.3, 0.9])))
            else:
                w, h = rng.choice([1, 2, 3, 5, 8, 10, 15, 31]), rng.choice([1, 2, 3, 4, 6, 12, 30])
                pool = rng.choice(["% .", "%.o PG1234 ", "% ", "%%%%. ", "abc%. Px"])
                text = ["".join(rng.choice(pool) for _ in range(w)) for _ in range(h)]
                if not any(ch != "%" for row in text for ch in row):
                    text[0] = " " + text[0][1:]
                texts.append(text)
        ops = []
        for _ in range(rng.choice([10, 25, 60])):
            name = rng.choice(["blank", "of", "copy", "copy", "share", "pack", "set", "set", "set", "set", "column", "fill", "count", "list", "matrix", "str", "equal", "equal", "near",
                               "layout", "layout", "layoutcopy", "wall", "neighbours", "moves", "moves", "random", "corner", "furthest", "config", "vector", "drop"])
            op = dict(op=name, g=rng.randrange(64), x=rng.randrange(40), y=rng.randrange(40), v=rng.random() < 0.6, l=rng.randrange(64))
            if name == "blank":
                op.update(w=rng.choice([1, 2, 3, 5, 6, 10, 30]), h=rng.choice([1, 2, 3, 5, 6, 10, 31]))
            elif name == "of":
                op["what"] = rng.choice(["walls", "food"])
            elif name == "equal":
                op["other"] = rng.randrange(64)
            elif name in ("copy", "share"):
                op["how"] = rng.choice(["copy", "deepCopy"])
            elif name == "random":
                op["sweep"] = rng.random() < 0.1
            elif name in ("moves", "config", "vector", "neighbours"):
                op.update(d=rng.choice(["North", "South", "East", "West", "Stop"]), off=rng.choice([0, 0, 0, 0.5, -0.5, 0.25, 0.0005]), speed=rng.choice([1.0, 0.5, 2, 0.25]))
            elif name == "fill":
                op.update(seed=rng.randrange(1 << 20), p=rng.choice([0.0, 0.1, 0.5, 1.0]))
            if rng.random() < 0.12:
                op["cancel"] = rng.randint(1, 40)
            ops.append(op)
        return dict(config=dict(texts=texts, seed=rng.randrange(1 << 30)), ops=ops)

    # ------------------------------------------------------------------------------------------ one run
    def run(self, trace, rec):
        lib = self.lib = load()
        self.rec, self.queries, self.edits = rec, 0, 0
        self.sim = SimOS(rec, random.Random(trace["config"]["seed"]))
        with self.sim:
            self.boards = [M.Board(t) for t in trace["config"]["texts"]]
            self.layouts = [[lib.layout.Layout(list(t)), b] for t, b in zip(trace["config"]["texts"], self.boards)]
            self.grids = []
            self.adopt("of", self.layouts[0], "food")
            for op in trace["ops"]:
                rec.ops += 1
                getattr(self, "op_" + op["op"])(op)
                self.still(op)
                rec.log(op["op"], len(self.grids))
        rec.nontrivial = self.edits >= 1 and self.queries >= 8

    def bad(self, kind, op, message):
        raise Violation(kind, f"{op['op']}: {message}")

    def call(self, op, do):
        """A call that changes nothing: it may be cut off first."""
        if op.get("cancel"):
            tracer = Canceller(op["cancel"])
            sys.settrace(tracer)
            try:
                do()
            except Cancelled:
                pass
            finally:
                sys.settrace(None)
            if tracer.fired:
                self.rec.fault("cut_off_at_line")
        self.queries += 1
        return do()

    def still(self, op):
        for k, h in enumerate(self.grids):
            got = obs_cells(h.real)
            if got != h.key():
                diff = sorted(got[2] ^ h.key()[2])
                self.bad("grid", op, f"grid {k} is {got[0]}x{got[1]} instead of {h.w}x{h.h}, or differs at {diff[:5]}")
        for k, (lay, b) in enumerate(self.layouts):
            wrong = self.obs_layout(lay, b)
            if wrong:
                self.bad("layout", op, f"layout {k}: {wrong}")

    @staticmethod
    def obs_layout(lay, b):
        if (lay.width, lay.height) != (b.w, b.h):
            return f"{lay.width}x{lay.height} instead of {b.w}x{b.h}"
        for name, want in (("walls", b.walls), ("food", b.food)):
            got = obs_cells(getattr(lay, name))
            if got != (b.w, b.h, frozenset(want)):
                return f"{name} differ at {sorted(got[2] ^ want)[:5]}"
        if Counter(map(tuple, lay.capsules)) != Counter(b.capsules):
            return f"capsules {lay.capsules} instead of {b.capsules}"
        return None

    def keep(self, h):
        if len(self.grids) < 8:
            self.grids.append(h)

    def adopt(self, op, layout, what):
        lay, b = layout
        cells = b.walls if what == "walls" else b.food
        # the layout's own grid stays with the layout: clients work on copies
        self.keep(Held(getattr(lay, what).copy(), b.w, b.h, {c: True for c in cells}))

    def grid(self, op):
        return self.grids[op["g"] % len(self.grids)]

    def cell(self, op, h):
        return op["x"] % h.w, op["y"] % h.h

    # ------------------------------------------------------------------------------------------ grids
    def op_blank(self, op):
        g = self.lib.game.Grid(op["w"], op["h"], op["v"])
        self.keep(Held(g, op["w"], op["h"], {(x, y): op["v"] for x in range(op["w"]) for y in range(op["h"])}))

    def op_of(self, op):
        self.adopt(op, self.layouts[op["l"] % len(self.layouts)], op["what"])

    def op_drop(self, op):
        if len(self.grids) > 1:
            self.grids.pop(op["g"] % len(self.grids))

    def op_copy(self, op):
        h = self.grid(op)
        self.keep(Held(self.call(op, getattr(h.real, op["how"])), h.w, h.h, dict(h.cells)))

    def op_share(self, op):
        h = self.grid(op)
        self.keep(Held(self.call(op, h.real.shallowCopy), h.w, h.h, h.cells))

    def op_pack(self, op):
        h = self.grid(op)
        bits = self.call(op, h.real.packBits)
        if not isinstance(bits, tuple) or not all(isinstance(b, int) and b >= 0 for b in bits):
            self.bad("packed", op, f"{bits!r}")
        g = self.call(op, lambda: self.lib.game.reconstituteGrid(bits))
        if obs_cells(g) != h.key():
            self.bad("unpacked", op, f"{bits!r} of {h.w}x{h.h} cells gives {sorted(obs_cells(g)[2] ^ h.key()[2])[:5]} wrong")
        if self.call(op, lambda: self.lib.game.reconstituteGrid(h.real)) is not h.real:
            self.bad("unpacked", op, "a grid that was not packed is not given back")
        self.keep(Held(g, h.w, h.h, dict(h.cells)))

    def op_set(self, op):
        h = self.grid(op)
        x, y = self.cell(op, h)
        h.real[x][y] = op["v"]
        h.cells[x, y] = op["v"]
        self.edits += 1
        if sum(o.cells is h.cells for o in self.grids) > 1:
            self.rec.probe("shared_cells_edited")

    def op_column(self, op):
        h = self.grid(op)
        x, _ = self.cell(op, h)
        h.real[x] = [op["v"]] * h.h
        for y in range(h.h):
            h.cells[x, y] = op["v"]
        self.edits += 1

    def op_fill(self, op):
        h, rng = self.grid(op), random.Random(op["seed"])
        for x in range(h.w):
            for y in range(h.h):
                h.real[x][y] = h.cells[x, y] = rng.random() < op["p"]
        self.edits += 1

    def op_count(self, op):
        h = self.grid(op)
        n = len(h.key()[2])
        for v, want in ((True, n), (False, h.w * h.h - n)):
            got = self.call(op, lambda: h.real.count(v))
            if got != want:
                self.bad("count", op, f"{got!r} cells that are {v} instead of {want}")
        if self.call(op, h.real.count) != n:
            self.bad("count", op, "count() does not count the cells set")

    def op_list(self, op):
        h = self.grid(op)
        on = h.key()[2]
        got = self.call(op, h.real.asList)
        if Counter(got) != Counter(on):
            self.bad("as-list", op, f"{len(got)} cells, wrong at {sorted(set(got) ^ on)[:5]}")
        off = self.call(op, lambda: h.real.asList(False))
        if Counter(off) != Counter((x, y) for x in range(h.w) for y in range(h.h) if (x, y) not in on):
            self.bad("as-list", op, f"{len(off)} cells that are False")
        got.clear()             # the caller's own lists

    def op_matrix(self, op):
        h = self.grid(op)
        on = h.key()[2]
        got = self.call(op, lambda: self.lib.util.matrixAsList([list(h.real[x]) for x in range(h.w)], op["v"]))
        if Counter(got) != Counter((x, y) for x in range(h.w) for y in range(h.h) if ((x, y) in on) == op["v"]):
            self.bad("matrix", op, f"{got[:5]}")

    def op_str(self, op):
        h = self.grid(op)
        want = [["T" if h.cells.get((x, y)) else "F" for x in range(h.w)] for y in range(h.h - 1, -1, -1)]
        got = self.call(op, lambda: str(h.real))
        if got.split("\n") != ["".join(row) for row in want]:
            self.bad("text", op, f"{got[:60]!r} for {h.w}x{h.h} cells")

    def op_equal(self, op):
        a, b = self.grid(op), self.grids[op["other"] % len(self.grids)]
        want = a.key() == b.key()
        if bool(self.call(op, lambda: a.real == b.real)) is not want or bool(a.real != b.real) is want:
            self.bad("equality", op, f"grids of {a.w}x{a.h} and {b.w}x{b.h} cells, differing at {sorted(a.key()[2] ^ b.key()[2])[:4]}")
        if want and self.call(op, lambda: hash(a.real)) != hash(b.real):
            self.bad("hash", op, "equal grids have different hashes")
        if a.real == None:      # noqa: E711
            self.bad("equality", op, "a grid equals None")
        self.rec.probe("equal" if want else "different")

    def op_near(self, op):
        """Two grids that are as alike as can be, or whose cells weigh the same in a sum of powers modulo 2^61 - 1."""
        h = self.grid(op)
        x, y = self.cell(op, h)
        g = self.call(op, h.real.copy)
        for i in range(x * h.h + y, h.w * h.h - 61):
            a, b = divmod(i, h.h), divmod(i + 61, h.h)
            if bool(h.cells.get(a)) != bool(h.cells.get(b)):
                g[a[0]][a[1]], g[b[0]][b[1]] = g[b[0]][b[1]], g[a[0]][a[1]]
                self.rec.probe("cells_61_apart_exchanged")
                break
        else:
            g[x][y] = not g[x][y]
        if self.call(op, lambda: g == h.real) or self.call(op, lambda: h.real == g):
            self.bad("equality", op, f"grids of {h.w}x{h.h} cells that differ are equal")

    # ------------------------------------------------------------------------------------------ layouts
    def lay(self, op):
        return self.layouts[op["l"] % len(self.layouts)]

    def op_layout(self, op):
        lay, b = self.lay(op)
        self.queries += 1
        pos = [tuple(p) for _, p in lay.agentPositions]
        flags = [bool(f) for f, _ in lay.agentPositions]
        if Counter(pos) != Counter(b.agents) or flags != sorted(flags, reverse=True) or pos != b.agents:
            self.bad("agents", op, f"{lay.agentPositions} instead of {b.agents}")
        if any(f != (b.text[b.h - 1 - y][x] == "P") for f, (x, y) in zip(flags, pos)):
            self.bad("agents", op, f"{lay.agentPositions}: not Pacman")
        if lay.getNumGhosts() != b.ghosts or lay.totalFood != len(b.food):
            self.bad("totals", op, f"{lay.getNumGhosts()} ghosts, {lay.totalFood} food instead of {b.ghosts}, {len(b.food)}")
        if str(lay) != "\n".join(b.text):
            self.bad("text", op, f"{str(lay)[:60]!r}")

    def op_layoutcopy(self, op):
        lay, b = self.lay(op)
        new = self.call(op, lay.deepCopy)
        if new is lay or self.obs_layout(new, b):
            self.bad("layout-copy", op, self.obs_layout(new, b) or "the copy is the layout itself")
        # what a client does to its copy stays there (still() looks at the others)
        x, y = op["x"] % b.w, op["y"] % b.h
        new.walls[x][y] = not new.walls[x][y]
        new.food[x][y] = not new.food[x][y]
        new.capsules.append((x, y))
        new.agentPositions.append((False, (x, y)))
        self.edits += 1
        self.rec.probe("layout_copy_edited")
        self.op_layout(op)

    def op_wall(self, op):
        lay, b = self.lay(op)
        x, y = op["x"] % b.w, op["y"] % b.h
        got = self.call(op, lambda: lay.isWall((x, y)))
        if bool(got) != ((x, y) in b.walls):
            self.bad("is-wall", op, f"{got!r} at {(x, y)}")

    def op_random(self, op):
        lay, b = self.lay(op)
        free = {(x, y) for x in range(b.w) for y in range(b.h)} - b.walls
        if b.w * b.h > 30 * len(free):
            return
        seen = set()
        for _ in range(30 * len(free) if op["sweep"] and len(free) <= SWEEP_CELLS else 1):
            p = lay.getRandomLegalPosition()
            if p not in free:
                self.bad("random-position", op, f"{p!r} is not a free cell")
            seen.add(tuple(p))
        self.queries += 1
        if op["sweep"] and len(free) <= SWEEP_CELLS:
            self.rec.probe("positions_swept")
            if seen != free:
                self.bad("random-position", op, f"{sorted(free - seen)[:5]} never drawn in {30 * len(free)} draws")

    def op_corner(self, op):
        lay, b = self.lay(op)
        corners = {(x, y) for x in (1, b.w - 2) for y in (1, b.h - 2)}
        p = self.call(op, lay.getRandomCorner)
        if p not in corners:
            self.bad("corner", op, f"{p!r} in {b.w}x{b.h}")
        if op["v"]:
            got = {tuple(lay.getRandomCorner()) for _ in range(160)}
            if got != corners:
                self.bad("corner", op, f"{sorted(corners - got)} never drawn")

    def op_furthest(self, op):
        lay, b = self.lay(op)
        at = (op["x"] % b.w, op["y"] % b.h)
        corners = {(x, y) for x in (1, b.w - 2) for y in (1, b.h - 2)}
        far = max(abs(x - at[0]) + abs(y - at[1]) for x, y in corners)
        p = self.call(op, lambda: lay.getFurthestCorner(at))
        if p not in corners or abs(p[0] - at[0]) + abs(p[1] - at[1]) != far:
            self.bad("furthest-corner", op, f"{p!r} from {at}")

    # ------------------------------------------------------------------------------------------ moves
    def op_neighbours(self, op):
        h = self.grid(op)
        x, y = self.cell(op, h)
        on = h.key()[2]
        want = [c for c in ((x + dx, y + dy) for dx, dy in M.VEC.values()) if 0 <= c[0] < h.w and 0 <= c[1] < h.h and c not in on]
        at = (x + op["off"] / 2, y) if x else (x, y)
        if round(at[0]) != x or abs(at[0] - x) > 0.3:
            at = (x, y)
        got = self.call(op, lambda: self.lib.game.Actions.getLegalNeighbors(at, h.real))
        if Counter(got) != Counter(want):
            self.bad("neighbours", op, f"{got} of {at} instead of {want}")

    def op_moves(self, op):
        h = self.grid(op)
        if h.w < 3 or h.h < 3:
            return
        x, y = 1 + op["x"] % (h.w - 2), 1 + op["y"] % (h.h - 2)
        on = h.key()[2]
        config = self.lib.game.Configuration((x + op["off"], y), op["d"])
        got = self.call(op, lambda: self.lib.game.Actions.getPossibleActions(config, h.real))
        want = [op["d"]] if abs(op["off"]) > 0.001 else [d for d, (dx, dy) in M.VEC.items() if (x + dx, y + dy) not in on]
        if Counter(got) != Counter(want):
            self.bad("moves", op, f"{got} at {config.pos} instead of {want}")

    def op_config(self, op):
        lib, v = self.lib, M.VEC[op["d"]]
        pos = (op["x"] + op["off"], op["y"])
        before = M.VEC and sorted(M.VEC)[op["g"] % 5]
        a = lib.game.Configuration(pos, before)
        b = self.call(op, lambda: a.generateSuccessor((v[0] * op["speed"], v[1] * op["speed"])))
        want = (pos[0] + v[0] * op["speed"], pos[1] + v[1] * op["speed"])
        if b.getPosition() != want or b.getDirection() != (before if op["d"] == "Stop" else op["d"]) or a.getPosition() != pos or a.getDirection() != before:
            self.bad("successor", op, f"{a} -> {b}, expected {want}")
        same = want == pos and b.getDirection() == before
        if (a == b) is not same or same and hash(a) != hash(b) or (a == None):      # noqa: E711
            self.bad("equality", op, f"{a} and {b}")
        if a.isInteger() != (op["off"] == 0):
            self.bad("integer", op, f"{a}")
        got = lib.game.Actions.getSuccessor(pos, op["d"])
        if got != (pos[0] + v[0], pos[1] + v[1]):
            self.bad("successor", op, f"{got!r} from {pos} by {op['d']}")

    def op_vector(self, op):
        A, D, d, v = self.lib.game.Actions, self.lib.game.Directions, op["d"], M.VEC[op["d"]]
        back = next(k for k, (x, y) in M.VEC.items() if (x, y) == (-v[0], -v[1]))
        left = next(k for k, (x, y) in M.VEC.items() if (x, y) == (-v[1], v[0]))
        right = next(k for k, (x, y) in M.VEC.items() if (x, y) == (v[1], -v[0]))
        got = dict(vector=tuple(self.call(op, lambda: A.directionToVector(d, op["speed"]))), direction=A.vectorToDirection((v[0] * op["speed"], v[1] * op["speed"])),
                   back=A.reverseDirection(d), table=D.REVERSE[d], left=D.LEFT[d], right=D.RIGHT[d])
        want = dict(vector=(v[0] * op["speed"], v[1] * op["speed"]), direction=d, back=back, table=back, left=left, right=right)
        if got != want:
            self.bad("directions", op, f"{got} instead of {want}")

    def simplify_op(self, op):
        if "cancel" in op:
            yield {k: v for k, v in op.items() if k != "cancel"}


def obs_cells(g):
    cols = [list(g[x]) for x in range(g.width)]
    return (g.width, max(map(len, cols)), frozenset((x, y) for x, col in enumerate(cols) for y, v in enumerate(col) if v))


SCENARIOS = {"C35": Maps}
