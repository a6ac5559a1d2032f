"""C31: search agents exploring one game tree in turn and keeping the states they met in tables."""
import random
import sys

from . import pacmodel as M
from .core import DEMO, Scenario, Violation
from .game_rules import choose
from .game_run import DIRS
from .gamelib import SimOS, load

TURN = {"North": "West", "West": "South", "South": "East", "East": "North", "Stop": "Stop"}
BACK = {"North": "South", "West": "East", "South": "North", "East": "West", "Stop": "Stop"}
OTHERS = [None, 0, 1, "state", "", (), ("data",), 2.5, object]


class Cancelled(BaseException):
    """Delivered between two lines of the game's code."""


class Canceller:
    def __init__(self, at):
        self.left, self.fired = at, False

    def __call__(self, frame, event, arg):
        return self.line if frame.f_code.co_filename.startswith(DEMO) else None

    def line(self, frame, event, arg):
        if event == "line":
            self.left -= 1
            if self.left <= 0 and not self.fired:
                self.fired = True
                raise Cancelled()
        return self.line


def key(m):
    """What distinguishes two states of one layout."""
    return (tuple((M._p(a.pos), a.dir, a.timer) for a in m.ag), m.food, m.caps, float(m.score))


def read_key(st):
    d = st.data
    return (tuple((M._p(a.configuration.pos), str(a.configuration.direction), a.scaredTimer) for a in d.agentStates),
            frozenset(M.grid_cells(d.food)), frozenset(d.capsules), float(d.score))


def text(m):
    b = m.b
    cells = {c: "%" for c in b.walls}
    cells.update({c: "." for c in m.food})
    for i, a in enumerate(m.ag):
        at = (int(a.pos[0] + 0.5), int(a.pos[1] + 0.5))
        cells[at] = "G" if i else {"North": "v", "South": "^", "West": ">"}.get(a.dir, "<")
    cells.update({c: "o" for c in m.caps})
    rows = ["".join(cells.get((x, y), " ") for x in range(b.w)) for y in reversed(range(b.h))]
    return rows + ["Score: %d" % m.score]


class Held:
    __slots__ = ("st", "m", "path", "leaf", "hash", "key")

    def __init__(self, st, m, path, leaf=False):
        self.st, self.m, self.path, self.leaf, self.hash, self.key = st, m, path, leaf, hash(st), key(m)


class States(Scenario):
    id = "C31"
    quick_runs = 16000
    thorough_runs = 300000
    rule = ("one evaluation = one small maze and 10-60 steps of clients that expand, copy, edit and compare states of 1-2 games on it, keep them in "
            "tables and ask for the explored states; non-trivial when two states reached in different ways were equal and two others different")
    real_components = ["scripts/demo/pacman.py GameState; game.py GameStateData, AgentState, Configuration, Grid, Actions, Directions; layout.py (unmodified)"]
    stub_components = ["agents (moves come from the trace)"]
    assumptions = ["states of games on the same layout are compared", "reference rules in sim/pacmodel.py"]

    def setup(self):
        load()

    # ------------------------------------------------------------------------------------------ generation
    def generate(self, rng, index, tier):
        cfg = dict(text=M.random_board(rng, wmax=(W := rng.choice([5, 6, 8, 12] * 8 + [34])), hmax=rng.choice([3, 4, 5, 7]) if W < 30 else 30, ghosts=(0, 3), caps=(0, 3),
                                       food=rng.choice([0.1, 0.4, 0.7])), seed=rng.randrange(1 << 30))
        board = M.Board(cfg["text"])
        cfg["ghosts"] = board.ghosts if rng.random() < 0.85 else rng.randint(0, board.ghosts)
        n = 1 + cfg["ghosts"]
        ops = []
        faulty = rng.random() < 0.5
        shape = rng.choice(["deep", "bushy", "any"])
        for _ in range(rng.choice([10, 25, 60])):
            x = rng.random()
            op = dict(at=-1 if rng.random() < (0.9 if shape == "deep" else 0.2 if shape == "bushy" else 0.6) else rng.randrange(1 << 16), n=rng.randrange(1 << 16))
            if x < 0.5:
                op.update(op="move", a=rng.randrange(n), how=rng.choice(["rand", "rand", "food", "caps", "same", "chase", "stay"]))
            elif x < 0.58:
                op.update(op="swap", a=rng.randrange(n), b=rng.randrange(n), n2=rng.randrange(1 << 16))
            elif x < 0.66:
                op.update(op="replay", other=rng.random() < 0.5)
            elif x < 0.70:
                op.update(op="copy")
            elif x < 0.80:
                op.update(op="edit", what=rng.choice(["score", "timer", "dir", "pos", "food", "caps", "food2", "food61"]), a=rng.randrange(n))
            elif x < 0.86:
                op.update(op="keep")
            elif x < 0.91:
                op.update(op="explored")
            elif x < 0.94:
                op.update(op="illegal", a=rng.randrange(n))
            elif x < 0.97:
                op.update(op="grid")
            else:
                op.update(op="around")
            if faulty and op["op"] in ("move", "swap", "replay", "copy", "keep", "grid") and rng.random() < 0.25:
                op["cancel"] = rng.choice([1, 3, 10, 30, 60, rng.randint(1, 400)])
            ops.append(op)
        return dict(config=cfg, ops=ops)

    # ------------------------------------------------------------------------------------------ one run
    def run(self, trace, rec):
        lib = load()
        lib.reset()
        self.lib, self.rec, self.cfg = lib, rec, trace["config"]
        self.board = M.Board(self.cfg["text"])
        self.may, self.must = set(), set()         # states that may / must count as explored
        self.kept, self.table = {}, {}              # the client's table and what it should hold
        self.old_sets = []
        self.seen_equal = self.seen_different = False
        with SimOS(rec, random.Random(self.cfg["seed"])):
            self.layouts = [lib.layout.Layout(list(self.cfg["text"])) for _ in range(2)]
            self.held = [Held(self.fresh(0), M.St.initial(self.board, self.cfg["ghosts"]), ())]
            for op in trace["ops"]:
                rec.ops += 1
                at = self.held[op["at"] % len(self.held)]
                getattr(self, "op_" + op["op"])(op, at)
                self.still(op)
        rec.nontrivial = self.seen_equal and self.seen_different

    def fresh(self, which):
        st = self.lib.pacman.GameState()
        st.initialize(self.layouts[which], self.cfg["ghosts"])
        return st

    def interrupted(self, op, do):
        """The call, cut off at some line; its caller tries again afterwards."""
        if op.get("cancel"):
            tracer = Canceller(op["cancel"])
            sys.settrace(tracer)
            try:
                do()
            except Cancelled:
                pass
            finally:
                sys.settrace(None)
            if tracer.fired:
                self.rec.fault("cancelled_at_line")

    def expand(self, op, h, a, act):
        m2 = h.m.step(a, act)
        self.may |= {h.key, key(m2)}
        self.interrupted(op, lambda: h.st.generateSuccessor(a, act))
        st2 = h.st.generateSuccessor(a, act)
        self.must |= {h.key, key(m2)}
        return Held(st2, m2, h.path + ((a, act),))

    def add(self, h, why):
        for o in self.held:
            self.pair(h, o, why)
        if read_key(h.st) != h.key:
            raise Violation("state", f"{why}: {read_key(h.st)} instead of {h.key}")
        self.held.append(h)
        if len(self.held) > 14:
            self.held.pop(1 + self.rec.ops * 7 % 12)
        self.rec.log(why, h.m.score, h.m.win, h.m.lose, len(h.path))

    def op_move(self, op, h):
        if h.leaf or h.m.over():
            return
        a = op["a"] % len(h.m.ag)
        act = choose(h.m, a, op["how"], op["n"])
        if act is not None:
            self.add(self.expand(op, h, a, act), f"moved {a} {act}")

    def op_swap(self, op, h):
        """Two agents move in either order, as two searchers would try them."""
        a, b = op["a"] % len(h.m.ag), op["b"] % len(h.m.ag)
        if h.leaf or h.m.over() or a == b:
            return
        d, e = choose(h.m, a, "rand", op["n"]), choose(h.m, b, "rand", op["n2"])
        if d is None or e is None:
            return
        one, two = self.expand(op, h, a, d), self.expand(op, h, b, e)
        if one.m.over() or two.m.over() or e not in one.m.legal(b) or d not in two.m.legal(a):
            return
        self.add(self.expand(op, one, b, e), f"moved {a} {d}, {b} {e}")
        self.add(self.expand(op, two, a, d), f"moved {b} {e}, {a} {d}")
        self.rec.probe("moves_swapped")

    def op_replay(self, op, h):
        """The same moves again from the start, in this or in another game on the layout."""
        if h.leaf:
            return
        r = Held(self.fresh(int(op["other"])), M.St.initial(self.board, self.cfg["ghosts"]), ())
        for a, act in h.path:
            r = self.expand({}, r, a, act)
        self.add(r, "replayed in another game" if op["other"] else "replayed")
        self.rec.probe("replayed")

    def op_copy(self, op, h):
        self.interrupted(op, h.st.deepCopy)
        # (a copy does not know that the game is over, so nobody plays on from it)
        self.add(Held(h.st.deepCopy(), h.m, h.path, h.leaf or h.m.over()), "copied")

    def op_edit(self, op, h):
        """A client edits a copy of its own: the copy is a different state if something it is made of changed."""
        st, m = h.st.deepCopy(), h.m.copy()
        d, a = st.data, op["a"] % len(m.ag)
        n = op["n"]
        ag = d.agentStates[a]
        if op["what"] == "score":
            k = [0, 1, -1, 500, 1048575, -1048575, 3 * 1048575, 0.5][n % 8]         # some keep the hash
            d.score += k
            m.score += k
        elif op["what"] == "timer":
            ag.scaredTimer = m.ag[a].timer = [0, 1, 40, m.ag[a].timer][n % 4]
        elif op["what"] == "dir":
            m.ag[a].dir = DIRS[n % len(DIRS)]
            ag.configuration = self.lib.game.Configuration(ag.configuration.pos, m.ag[a].dir)
        elif op["what"] == "pos":
            free = sorted({(x, y) for x in range(self.board.w) for y in range(self.board.h)} - set(self.board.walls))
            m.ag[a].pos = free[n % len(free)]
            ag.configuration = self.lib.game.Configuration(m.ag[a].pos, ag.configuration.direction)
        elif op["what"] in ("food", "food2"):
            free = sorted({(x, y) for x in range(self.board.w) for y in range(self.board.h)} - set(self.board.walls))
            cells = [free[n % len(free)]] + ([free[n * 7 % len(free)]] if op["what"] == "food2" else [])
            for x, y in dict.fromkeys(cells):
                d.food[x][y] = not d.food[x][y]
                m.food = m.food ^ {(x, y)}
        elif op["what"] == "food61":
            b = self.board
            for i in range(n % b.h + b.h, b.w * b.h - 61):     # two cells with the same weight in a sum of powers modulo 2^61 - 1
                x, y = divmod(i, b.h), divmod(i + 61, b.h)
                if x not in b.walls and y not in b.walls and (x in m.food) != (y in m.food):
                    for c in (x, y):
                        d.food[c[0]][c[1]] = not d.food[c[0]][c[1]]
                        m.food = m.food ^ {c}
                    self.rec.probe("food_61_cells_apart_exchanged")
                    break
        elif d.capsules:
            c = d.capsules[n % len(d.capsules)]
            d.capsules = [o for o in d.capsules if o != c]
            m.caps = m.caps - {c}
        self.add(Held(st, m, (), True), f"edited {op['what']}")
        self.rec.probe("edited")

    def op_keep(self, op, h):
        """A client files the state in its table."""
        self.interrupted(op, lambda: self.table.get(h.st))
        if (h.st in self.table) != (h.key in self.kept):
            raise Violation("table", f"state {h.key} {'not ' if h.key in self.kept else ''}found in a table of {len(self.table)} states")
        if h.key in self.kept and self.table[h.st] != self.kept[h.key]:
            raise Violation("table", f"the table has the entry of another state for {h.key}")
        if not h.leaf or op["n"] % 2:
            self.table[h.st] = self.kept[h.key] = op["n"]
        if len(self.table) != len(self.kept):
            raise Violation("table", f"{len(self.table)} entries for {len(self.kept)} different states")

    def op_explored(self, op, h):
        got = self.lib.pacman.GameState.getAndResetExplored()
        keys = {read_key(s) for s in got}
        if len(got) != len(keys):
            raise Violation("explored-twice", f"{len(got)} states explored, {len(keys)} different ones")
        if not self.must <= keys <= self.may:
            raise Violation("explored", f"missing {sorted(self.must - keys)[:2]} additional {sorted(keys - self.may)[:2]}")
        self.old_sets.append((got, keys))
        self.may, self.must = set(), set()
        self.rec.probe("explored_asked")
        self.rec.log("explored", len(keys))

    def op_illegal(self, op, h):
        if h.leaf or h.m.over():
            return
        a = op["a"] % len(h.m.ag)
        bad = [d for d in DIRS if d not in h.m.legal(a)] + ["Nowhere", None]
        try:
            h.st.generateSuccessor(a, bad[op["n"] % len(bad)])
        except Exception:
            self.rec.fault("illegal_move_refused")
        else:
            raise Violation("illegal-move-accepted", f"agent {a}: {bad[op['n'] % len(bad)]!r}")

    def op_grid(self, op, h):
        """Grids are sent to another client packed in numbers, and compared there."""
        g = self.lib.game
        b = self.board
        for what, grid, cells in (("food", h.st.getFood(), h.m.food), ("walls", h.st.getWalls(), frozenset(b.walls))):
            self.interrupted(op, grid.packBits)
            packed = grid.packBits()
            back = g.reconstituteGrid(packed)
            if not isinstance(packed, tuple) or frozenset(M.grid_cells(back)) != cells or (back.width, back.height) != (b.w, b.h):
                raise Violation("grid-packed", f"{what} {sorted(cells)} arrives as {sorted(M.grid_cells(back))}")
            if not (back == grid and grid == back) or hash(back) != hash(grid) or back.packBits() != packed:
                raise Violation("grid-equality", f"{what} {sorted(cells)} is not equal to its restored copy")
            if g.reconstituteGrid(back) is not back:
                raise Violation("grid-packed", "a grid that is not packed does not stay what it is")
            free = {(x, y) for x in range(b.w) for y in range(b.h)} - cells
            if grid.count() != len(cells) or grid.count(False) != len(free):
                raise Violation("grid-count", f"{what}: {grid.count()} and {grid.count(False)} instead of {len(cells)} and {len(free)}")
            if sorted(grid.asList()) != sorted(cells) or sorted(grid.asList(False)) != sorted(free):
                raise Violation("grid-list", f"{what}: {sorted(grid.asList())} instead of {sorted(cells)}")
            rows = ["".join("T" if (x, y) in cells else "F" for x in range(b.w)) for y in reversed(range(b.h))]
            if str(grid).split("\n") != rows:
                raise Violation("grid-text", f"{what} {sorted(cells)}: {str(grid)!r}")
            x, y = op["n"] % b.w, op["n"] // 16 % b.h
            for other in (grid.copy(), grid.deepCopy(), back):
                other[x][y] = not other[x][y]
                if other == grid or grid == other or other.packBits() == packed:
                    raise Violation("grid-equality", f"{what} {sorted(cells)} equal to a copy changed at {(x, y)}")
                if bool(grid[x][y]) != ((x, y) in cells):
                    raise Violation("grid-copy", f"{what} changed with its copy at {(x, y)}")
        self.rec.probe("grid_packed")

    def op_around(self, op, h):
        """What a searcher asks about the surroundings of a position."""
        A, D = self.lib.game.Actions, self.lib.game.Directions
        b = self.board
        walls = h.st.getWalls()
        for x, y in [h.m.ag[0].pos] + [a.pos for a in h.m.ag[1:]] + [(op["n"] % b.w, op["n"] // 16 % b.h)]:
            cx, cy = int(x + 0.5), int(y + 0.5)
            near = [(cx + dx, cy + dy) for dx, dy in M.VEC.values()]
            want = sorted({c for c in near if 0 <= c[0] < b.w and 0 <= c[1] < b.h and c not in b.walls})
            got = sorted((int(p), int(q)) for p, q in A.getLegalNeighbors((x, y), walls))
            if got != want:
                raise Violation("neighbours", f"of {(x, y)}: {got} instead of {want}")
            for d in DIRS:
                if M._p(A.getSuccessor((x, y), d)) != (x + M.VEC[d][0], y + M.VEC[d][1]):
                    raise Violation("successor-position", f"{d} of {(x, y)}: {A.getSuccessor((x, y), d)}")
        for d in DIRS:
            v = A.directionToVector(d, [1.0, 0.5, 2][op["n"] % 3])
            if A.vectorToDirection(v) != d or A.reverseDirection(d) != BACK[d] or D.REVERSE[d] != BACK[d]:
                raise Violation("direction", f"{d}: vector {v} is {A.vectorToDirection(v)}, reverse {A.reverseDirection(d)} {D.REVERSE[d]}")
            if D.LEFT[d] != TURN[d] or D.RIGHT[TURN[d]] != d:
                raise Violation("direction", f"left of {d} is {D.LEFT[d]}, right of {TURN[d]} is {D.RIGHT[TURN[d]]}")
        self.rec.probe("surroundings")

    # ------------------------------------------------------------------------------------------ checks
    def pair(self, h, o, why):
        same = h.key == o.key
        for p, q in ((h, o), (o, h)):
            if bool(p.st == q.st) != same or bool(p.st != q.st) == same:
                raise Violation("equality", f"{why}: {h.key} and {o.key} are {'different' if same else 'equal'}")
            if bool(p.st.data == q.st.data) != same:
                raise Violation("equality", f"{why}: data of {h.key} and {o.key} are {'different' if same else 'equal'}")
        if same:
            if h.hash != o.hash or hash(h.st) != hash(o.st):
                raise Violation("hash", f"{why}: equal states have different hashes: {h.key}")
            if h.st is not o.st:
                self.seen_equal = True
                self.rec.probe("equal_states")
        else:
            self.seen_different = True
        for i in range(len(h.m.ag)):
            a, b = h.st.data.agentStates[i], o.st.data.agentStates[i]
            alike = h.key[0][i] == o.key[0][i]
            if bool(a == b) != alike or alike and hash(a) != hash(b):
                raise Violation("agent-equality", f"{why}: {h.key[0][i]} and {o.key[0][i]} are {'not ' if alike else ''}equal")
        f, g = h.st.getFood(), o.st.getFood()
        alike = h.key[1] == o.key[1]
        if bool(f == g) != alike or alike and hash(f) != hash(g):
            raise Violation("grid-equality", f"{why}: food {sorted(h.key[1])} and {sorted(o.key[1])} are {'not ' if alike else ''}equal")

    def still(self, op):
        """What is held stays what it is, whatever was done with other states."""
        for h in self.held:
            if hash(h.st) != h.hash:
                raise Violation("hash-changed", f"after {op['op']}: {h.key}")
            if read_key(h.st) != h.key:
                raise Violation("state-changed", f"after {op['op']}: {h.key} is {read_key(h.st)}")
        h = self.held[-1]
        if str(h.st).rstrip("\n").split("\n") != text(h.m):
            raise Violation("text", f"{str(h.st)!r} instead of {text(h.m)}")
        if not h.st == h.st or not h.st.data == h.st.data:
            raise Violation("equality", f"a state is different from itself: {h.key}")
        other = OTHERS[op["n"] % len(OTHERS)]
        if h.st == other or other == h.st or not h.st != other:
            raise Violation("equality", f"a state is equal to {other!r}")
        if h.st.data == None or h.st.getFood() == None or h.st.getPacmanState() == None:  # noqa: E711
            raise Violation("equality", "something is equal to None")
        for got, keys in self.old_sets[-1:]:
            if {read_key(s) for s in got} != keys:
                raise Violation("explored-changed", "the set of explored states changed after it was handed out")

    def simplify_op(self, op):
        if "cancel" in op:
            yield {k: v for k, v in op.items() if k != "cancel"}
        if op.get("how") not in (None, "rand"):
            yield {**op, "how": "rand"}
        if op["at"] != -1:
            yield {**op, "at": -1}

    def simplify_config(self, trace):
        if trace["config"]["ghosts"]:
            yield {**trace, "config": {**trace["config"], "ghosts": trace["config"]["ghosts"] - 1}}


SCENARIOS = {"C31": States}
