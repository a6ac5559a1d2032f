"""Reference model of the Pacman rules, written from the rules, sharing no code with the demo."""

VEC = {"North": (0, 1), "South": (0, -1), "East": (1, 0), "West": (-1, 0), "Stop": (0, 0)}
REV = {"North": "South", "South": "North", "East": "West", "West": "East", "Stop": "Stop"}
SCARED = 40
TOUCH = 0.7


class Illegal(Exception):
    pass


class Board:
    """The maze of a layout text: walls, food, capsules and the starting positions in agent order."""

    def __init__(self, text):
        self.text = list(text)
        self.h, self.w = len(text), len(text[0])
        self.walls, self.food, self.capsules, agents = set(), set(), [], []
        for row, line in enumerate(text):
            y = self.h - 1 - row
            for x, ch in enumerate(line):
                if ch == "%":
                    self.walls.add((x, y))
                elif ch == ".":
                    self.food.add((x, y))
                elif ch == "o":
                    self.capsules.append((x, y))
                elif ch == "P":
                    agents.append((0, (x, y)))
                elif ch == "G":
                    agents.append((1, (x, y)))
                elif ch in "1234":
                    agents.append((int(ch), (x, y)))
        agents.sort()
        self.agents = [p for _, p in agents]
        self.ghosts = sum(1 for k, _ in agents if k)


class Ag:
    __slots__ = ("pos", "dir", "timer", "start")

    def __init__(self, pos, dir="Stop", timer=0, start=None):
        self.pos, self.dir, self.timer, self.start = pos, dir, timer, start if start is not None else pos

    def copy(self):
        return Ag(self.pos, self.dir, self.timer, self.start)


class St:
    __slots__ = ("b", "ag", "food", "caps", "score", "win", "lose")

    @staticmethod
    def initial(board, max_ghosts=1000):
        s = St()
        s.b = board
        s.ag = [Ag(p) for p in board.agents[:1 + max_ghosts]]
        s.food, s.caps = frozenset(board.food), frozenset(board.capsules)
        s.score, s.win, s.lose = 0, False, False
        return s

    def copy(self):
        s = St()
        s.b, s.food, s.caps, s.score, s.win, s.lose = self.b, self.food, self.caps, self.score, self.win, self.lose
        s.ag = [a.copy() for a in self.ag]
        return s

    def over(self):
        return self.win or self.lose

    def legal(self, i):
        if self.over():
            return frozenset()
        a = self.ag[i]
        x, y = a.pos
        if x != int(x) or y != int(y):
            opts = {a.dir}
        else:
            opts = {d for d, (dx, dy) in VEC.items() if (int(x) + dx, int(y) + dy) not in self.b.walls}
        if i:
            opts.discard("Stop")
            if len(opts) > 1:
                opts.discard(REV[a.dir])
        return frozenset(opts)

    def step(self, i, action):
        try:
            ok = isinstance(action, str) and action in self.legal(i)
        except Exception:
            ok = False
        if self.over() or not ok:
            raise Illegal()
        s = self.copy()
        a = s.ag[i]
        dx, dy = VEC[str(action)]
        k = 0.5 if i and a.timer > 0 else 1
        a.pos = (a.pos[0] + dx * k, a.pos[1] + dy * k)
        if action != "Stop":
            a.dir = str(action)
        if i == 0:
            s.score -= 1
            if a.pos in s.food:
                s.food = s.food - {a.pos}
                s.score += 10
                if not s.food:
                    s.score += 500
                    s.win = True
            if a.pos in s.caps:
                s.caps = s.caps - {a.pos}
                for g in s.ag[1:]:
                    g.timer = SCARED
            touching = s.ag[1:]
        else:
            if a.timer == 1:
                a.pos = (int(a.pos[0] + 0.5), int(a.pos[1] + 0.5))
            a.timer = max(0, a.timer - 1)
            touching = [a]
        p = s.ag[0].pos
        killed = False
        for g in touching:
            if abs(g.pos[0] - p[0]) + abs(g.pos[1] - p[1]) <= TOUCH:
                if g.timer > 0:
                    s.score += 200
                    g.pos, g.dir, g.timer = g.start, "Stop", 0
                elif not s.win:
                    killed = True
        if killed:
            s.score -= 500
            s.lose = True
        return s

    def snap(self):
        return snap_form([(a.pos, a.dir, a.timer, i == 0) for i, a in enumerate(self.ag)], self.food, self.caps,
                         self.b.walls, self.score, self.win, self.lose)


def _p(pos):
    return (float(pos[0]), float(pos[1]))


def snap_form(agents, food, caps, walls, score, win, lose):
    return dict(agents=tuple((_p(p), str(d), t, bool(pac)) for p, d, t, pac in agents), food=frozenset(food),
                capsules=tuple(sorted(caps)), walls=frozenset(walls), score=float(score), win=bool(win), lose=bool(lose))


def grid_cells(g):
    return [(x, y) for x in range(g.width) for y in range(g.height) if g[x][y]]


def obs_state(state):
    """Everything a user can read from a real GameState."""
    d = state.data
    s = obs_data(d)
    s["score"] = float(state.getScore())
    s["win"], s["lose"] = bool(state.isWin()), bool(state.isLose())
    return s


def obs_data(d):
    return snap_form([(a.configuration.pos, a.configuration.direction, a.scaredTimer, a.isPacman) for a in d.agentStates],
                     grid_cells(d.food), d.capsules, grid_cells(d.layout.walls), d.score, d._win, d._lose)


def obs_layout(lay):
    return dict(walls=frozenset(grid_cells(lay.walls)), food=frozenset(grid_cells(lay.food)), capsules=tuple(lay.capsules),
                agents=tuple((bool(p), tuple(pos)) for p, pos in lay.agentPositions), ghosts=lay.numGhosts,
                size=(lay.width, lay.height), text=tuple(lay.layoutText))


def board_layout(b):
    return dict(walls=frozenset(b.walls), food=frozenset(b.food), capsules=None, agents=tuple((i == 0, p) for i, p in enumerate(b.agents)),
                ghosts=b.ghosts, size=(b.w, b.h), text=tuple(b.text))


def show(snap):
    return dict(snap, food=sorted(snap["food"]), walls=len(snap["walls"]))


def difference(got, want):
    return {k: (sorted(got[k]) if isinstance(got[k], frozenset) else got[k],
                sorted(want[k]) if isinstance(want[k], frozenset) else want[k]) for k in want if got.get(k) != want[k]}


# ------------------------------------------------------------------------------------------------ random boards

def random_board(rng, wmax=9, hmax=7, ghosts=(0, 3), food=0.35, caps=(0, 2), numbered=0.3):
    """A bordered maze whose open cells are all connected; every agent stands on a cell with an exit."""
    while True:
        w, h = rng.randint(4, wmax), rng.randint(3, hmax)
        grid = [["%"] * w for _ in range(h)]
        inner = [(x, y) for x in range(1, w - 1) for y in range(1, h - 1)]
        start = rng.choice(inner)
        open_ = {start}
        density = rng.choice([0.45, 0.6, 0.8, 1.0])
        frontier = [start]
        while frontier:
            x, y = frontier.pop(rng.randrange(len(frontier)))
            for dx, dy in ((1, 0), (-1, 0), (0, 1), (0, -1)):
                n = (x + dx, y + dy)
                if 0 < n[0] < w - 1 and 0 < n[1] < h - 1 and n not in open_ and rng.random() < density:
                    open_.add(n)
                    frontier.append(n)
        ng = rng.randint(*ghosts)
        cells = sorted(open_)
        if len(cells) < max(2, ng + 2):
            continue
        rng.shuffle(cells)
        pac = cells.pop()
        spots = cells[:ng]
        nums = rng.random() < numbered
        marks = {pac: "P"}
        order = list("1234")
        rng.shuffle(order)
        for k, c in enumerate(spots):
            marks[c] = order[k] if nums and k < 4 else "G"
        rest = [c for c in cells if c not in marks]
        for c in rest[:rng.randint(*caps)]:
            marks[c] = "o"
        rest = [c for c in rest if c not in marks]
        for c in rest:
            if rng.random() < food:
                marks[c] = "."
        if "." not in marks.values():
            if not rest:
                continue
            marks[rest[0]] = "."
        for c in open_:
            grid[c[1]][c[0]] = marks.get(c, " ")
        return ["".join(r) for r in grid]
