"""Long histories of moves against the reference rules (C17) and ghost agents under hostile random numbers (C18)."""
import random

from . import pacmodel as M
from .core import Scenario, Violation
from .game_run import DIRS, first_step, h32
from .gamelib import SimOS, load

ALMOST_ONE = 1 - 2 ** -53


# ------------------------------------------------------------------------------------------------ C17

ODD = ["Nowhere", None, 0, "north", "", ["North"]]


def choose(model, a, how, r):
    """The direction a move of policy `how` takes."""
    legal = sorted(model.legal(a))
    if not legal:
        return None
    if how == "same" and model.ag[a].dir in legal:
        return model.ag[a].dir
    if how in ("food", "caps", "chase", "meet"):
        if how == "food":
            goals = set(model.food)
        elif how == "caps":
            goals = set(model.caps) or set(model.food)
        elif a == 0:
            goals = {(int(g.pos[0] + 0.5), int(g.pos[1] + 0.5)) for g in model.ag[1:]}
        else:
            goals = {model.ag[0].pos}
        d = first_step(model.b, model.ag[a].pos, goals)
        if d in legal:
            return d
    if how == "stay" and a == 0:
        return "Stop"
    if how == "avoid" and a == 0:        # stay alive and keep the game going
        def danger(d):
            q = (model.ag[0].pos[0] + M.VEC[d][0], model.ag[0].pos[1] + M.VEC[d][1])
            near = min([abs(g.pos[0] - q[0]) + abs(g.pos[1] - q[1]) for g in model.ag[1:]] or [9])
            return (q in model.food and len(model.food) == 1, -near, d)
        return min(legal, key=danger)
    if how == "flee" and a:
        p = model.ag[0].pos
        far = sorted(legal, key=lambda d: -abs(model.ag[a].pos[0] + M.VEC[d][0] - p[0]) - abs(model.ag[a].pos[1] + M.VEC[d][1] - p[1]))
        return far[0]
    return legal[r % len(legal)]


def obs_accessors(state, n):
    """The accessor methods must agree with one another (they are what agents read)."""
    d = state.data
    food = state.getFood()
    return dict(num_agents=state.getNumAgents(), num_food=state.getNumFood(), score=float(state.getScore()),
                pacman=M._p(state.getPacmanPosition()), ghosts=[M._p(p) for p in state.getGhostPositions()],
                each=[M._p(state.getGhostPosition(i)) for i in range(1, n)], timers=[g.scaredTimer for g in state.getGhostStates()],
                timers2=[state.getGhostState(i).scaredTimer for i in range(1, n)],
                capsules=sorted(state.getCapsules()), food=frozenset(M.grid_cells(food)), aslist=frozenset(food.asList()),
                walls=frozenset(M.grid_cells(state.getWalls())), win=bool(state.isWin()), lose=bool(state.isLose()),
                has_food=frozenset((x, y) for x in range(food.width) for y in range(food.height) if state.hasFood(x, y)),
                has_wall=frozenset((x, y) for x in range(food.width) for y in range(food.height) if state.hasWall(x, y)),
                pacstate=M._p(state.getPacmanState().configuration.pos), pacdir=str(state.getPacmanState().configuration.direction))


def want_accessors(m):
    gs = [M._p(a.pos) for a in m.ag[1:]]
    ts = [a.timer for a in m.ag[1:]]
    f = frozenset(m.food)
    return dict(num_agents=len(m.ag), num_food=len(f), score=float(m.score), pacman=M._p(m.ag[0].pos), ghosts=gs, each=gs, timers=ts,
                timers2=ts, capsules=sorted(m.caps), food=f, aslist=f, walls=frozenset(m.b.walls), win=m.win, lose=m.lose, has_food=f,
                has_wall=frozenset(m.b.walls), pacstate=M._p(m.ag[0].pos), pacdir=m.ag[0].dir)


class Rules(Scenario):
    id = "C17"
    quick_runs = 16000
    thorough_runs = 300000
    rule = ("one evaluation = one random maze and a history of 10-400 moves (round robin or arbitrary agent order, several branches held at "
            "once, illegal moves and moves after the end mixed in) whose state, legal actions and accessors are compared with the reference "
            "rules after every move; non-trivial when at least 5 moves were made")
    real_components = ["scripts/demo/pacman.py GameState, PacmanRules, GhostRules; game.py; layout.py; util.py (unmodified)"]
    stub_components = ["agents (moves come from the trace)"]
    assumptions = ["mazes have a closed border, one Pacman and 0-4 ghosts, each ghost with an exit", "reference rules in sim/pacmodel.py"]

    def setup(self):
        load()

    def generate(self, rng, index, tier):
        cfg = dict(text=M.random_board(rng, wmax=(W := rng.choice([5, 9, 12] * 10 + [34])), hmax=rng.choice([4, 7]) if W < 30 else 30, ghosts=(0, 4), caps=(0, 4),
                                       food=rng.choice([0.05, 0.2, 0.5])), seed=rng.randrange(1 << 30))
        board = M.Board(cfg["text"])
        cfg["ghosts"] = board.ghosts if rng.random() < 0.85 else rng.randint(0, board.ghosts)
        n = 1 + cfg["ghosts"]
        style = rng.choice(["robin", "robin", "any", "ghosty"])
        pac = rng.choice(["food", "caps", "meet", "rand", "caps"])
        gst = rng.choice(["chase", "flee", "rand", "same"])
        ops, turn = [], 0
        wild = rng.choice([0.0, 0.05, 0.3])
        phases = []
        if rng.random() < 0.5:
            # eat a capsule, let the ghosts run out of fright (40 of their moves), then meet them
            for _ in range(rng.randint(1, 2)):
                phases += [("caps", "flee")] * rng.randint(4, 40) + [(rng.choice(["avoid", "stay"]), "flee")] * rng.choice([30, 39, 40, 41, 50]) * n
                phases += [("meet", "chase")] * rng.randint(2, 20)
        for step in range(len(phases) or rng.choice([10, 40, 120, 400])):
            if phases:
                pac, gst = phases[step]
            if style == "robin":
                a, turn = turn, (turn + 1) % n
            elif style == "any":
                a = rng.randrange(n)
            else:
                a = rng.randrange(1, n) if n > 1 and rng.random() < 0.8 else 0
            how = (pac if a == 0 else gst) if rng.random() < (0.97 if phases else 0.7) else rng.choice(["rand", "same", "chase", "food", "caps", "flee"])
            op = dict(op="move", a=a, how=how, n=rng.randrange(1 << 16))
            x = rng.random()
            if x < wild * 0.4:
                op["op"] = "illegal"
            elif x < wild * 0.6:
                op["back"] = rng.randrange(1 << 16)
            ops.append(op)
            if rng.random() < 0.02:
                ops.append(dict(op="copy"))
        if rng.random() < 0.5:
            for _ in range(3):
                ops.append(dict(op="illegal", a=rng.randrange(n), n=rng.randrange(1 << 16)))
        return dict(config=cfg, ops=ops)

    def run(self, trace, rec):
        lib = load()
        lib.reset()
        cfg = trace["config"]
        board = M.Board(cfg["text"])
        with SimOS(rec, random.Random(cfg["seed"])):
            layout = lib.layout.Layout(list(cfg["text"]))
            lay, want = M.obs_layout(layout), M.board_layout(board)
            want["capsules"] = lay["capsules"]
            if lay != want or sorted(lay["capsules"]) != sorted(board.capsules):
                raise Violation("layout", str(M.difference(lay, want)))
            n = 1 + min(cfg["ghosts"], board.ghosts)
            st = lib.pacman.GameState()
            st.initialize(layout, cfg["ghosts"])
            m = M.St.initial(board, cfg["ghosts"])
            held = [(st, m)]
            self.compare(st, m, n, "initially")
            moves = 0
            for op in trace["ops"]:
                rec.ops += 1
                st, m = held[-1]
                if "back" in op:
                    st, m = held[op["back"] % len(held)]
                    rec.probe("branched")
                a = op.get("a", 0) % n
                if op["op"] == "copy":
                    if not m.over():
                        held.append((st.deepCopy(), m))
                        self.compare(held[-1][0], m, n, "copy")
                    continue
                if op["op"] == "illegal" or m.over():
                    bad = [d for d in DIRS if d not in m.legal(a)] + ODD
                    act = bad[op["n"] % len(bad)]
                    try:
                        st.generateSuccessor(a, act)
                    except Exception:
                        rec.fault("move_after_end_refused" if m.over() else "illegal_move_refused")
                    else:
                        raise Violation("illegal-move-accepted", f"agent {a} {act!r} over={m.over()}")
                    self.compare(st, m, n, f"refused {a} {act!r}")
                    if m.over():
                        for i in range(n):
                            if list(st.getLegalActions(i)):
                                raise Violation("legal-after-end", f"agent {i}: {st.getLegalActions(i)}")
                        if len(held) == 1:
                            break
                        held = [h for h in held if not h[1].over()]     # go on from an older state
                        if not held or op["n"] % 3:
                            break
                    continue
                act = choose(m, a, op["how"], op["n"])
                if act is None:
                    continue
                m2 = m.step(a, act)
                st2 = st.generatePacmanSuccessor(act) if a == 0 and op["n"] % 3 == 0 else st.generateSuccessor(a, act)
                self.compare(st2, m2, n, f"after {a} {act}")
                self.compare(st, m, n, f"previous state after {a} {act}")
                moves += 1
                self.events(rec, m, m2, a)
                rec.log(a, act, m2.score, m2.win, m2.lose)
                held.append((st2, m2))
                if len(held) > 12:
                    held.pop(h32(moves, cfg["seed"]) % (len(held) - 1))
        rec.nontrivial = moves >= 5

    def events(self, rec, m, m2, a):
        d = m2.score - m.score
        rec.probe("moves")
        if m2.win:
            rec.probe("won")
        if m2.lose:
            rec.probe("lost")
        if len(m2.caps) < len(m.caps):
            rec.probe("capsule_eaten")
        if d >= 189:
            rec.probe("ghosts_eaten_at_once" if d % 200 in (199, 9, 0) and d >= 399 and not m2.win else "ghost_eaten")
        if m2.lose and sum(abs(g.pos[0] - m2.ag[0].pos[0]) + abs(g.pos[1] - m2.ag[0].pos[1]) <= 0.7 for g in m2.ag[1:]) > 1:
            rec.probe("lost_to_several")
        if any(g.pos[0] != int(g.pos[0]) or g.pos[1] != int(g.pos[1]) for g in m2.ag[1:]):
            rec.probe("half_step_position")
        if a and m.ag[a].timer == 1:
            rec.probe("timer_ran_out")

    def compare(self, st, m, n, where):
        got, want = M.obs_state(st), m.snap()
        if got != want:
            raise Violation("state", f"{where}: {M.difference(got, want)}")
        acc, wacc = obs_accessors(st, n), want_accessors(m)
        if acc != wacc:
            raise Violation("accessor", f"{where}: {M.difference(acc, wacc)}")
        for i in range(n):
            legal = list(st.getLegalActions(i))
            if len(legal) != len(set(legal)) or frozenset(legal) != m.legal(i):
                raise Violation("legal-actions", f"{where}: agent {i}: {sorted(legal)} instead of {sorted(m.legal(i))}")
        if frozenset(st.getLegalPacmanActions()) != m.legal(0):
            raise Violation("legal-actions", f"{where}: getLegalPacmanActions")

    def simplify_op(self, op):
        if "back" in op:
            yield {k: v for k, v in op.items() if k != "back"}
        if op.get("how") not in (None, "rand"):
            yield {**op, "how": "rand"}
        if op.get("n", 0) > 8:
            yield {**op, "n": op["n"] % 5}

    def simplify_config(self, trace):
        if trace["config"]["ghosts"]:
            yield {**trace, "config": {**trace["config"], "ghosts": trace["config"]["ghosts"] - 1}}


# ------------------------------------------------------------------------------------------------ C18

DRAWS = [0.0, 2 ** -53, 5e-324, ALMOST_ONE, 1 - 2 ** -52, 0.5, 0.25, 0.75, 1 / 3, 2 / 3, 0.9999999999999, 0.1, 0.2, 0.8, 0.19999999999999996]
PROBS = [0, 0.0, 1, 1.0, 0.8, 0.2, 0.5, 1 / 3, 0.1, 0.99, 1e-17, 1 - 2 ** -53, 0.7]
SWEEP = 48


def want_distribution(m, a, kind, p_attack, p_flee):
    legal = sorted(m.legal(a))
    if kind == "random":
        return {d: 1 / len(legal) for d in legal}
    g, p = m.ag[a], m.ag[0].pos
    k = 0.5 if g.timer > 0 else 1

    def distance(d):
        return abs(g.pos[0] + k * M.VEC[d][0] - p[0]) + abs(g.pos[1] + k * M.VEC[d][1] - p[1])
    best = (max if g.timer > 0 else min)(distance(d) for d in legal)
    good = [d for d in legal if distance(d) == best]
    prob = p_flee if g.timer > 0 else p_attack
    return {d: (prob / len(good) if d in good else 0.0) + (1 - prob) / len(legal) for d in legal}


class Ghosts(Scenario):
    id = "C18"
    quick_runs = 6000
    thorough_runs = 250000
    rule = ("one evaluation = a game of 10-200 moves in which real ghosts draw their random numbers from the simulator; the distribution and "
            "the draw count of every ghost move are checked, and the share of the unit interval that leads to each action on sampled states; "
            "non-trivial when at least 5 ghost moves were made")
    real_components = ["scripts/demo/ghostAgents.py, util.py, pacman.py, game.py (unmodified)"]
    stub_components = ["random module (numbers from the trace)", "Pacman's moves"]
    assumptions = ["states in which the ghost has a legal action", "probabilities within [0, 1]"]

    def setup(self):
        load()

    def generate(self, rng, index, tier):
        cfg = dict(text=M.random_board(rng, wmax=(W := rng.choice([6, 10] * 15 + [34])), hmax=7 if W < 30 else 30, ghosts=(1, 4), caps=(0, 3)), seed=rng.randrange(1 << 30))
        board = M.Board(cfg["text"])
        cfg["kinds"] = [dict(kind=rng.choice(["random", "directional", "directional"]), attack=rng.choice(PROBS) if rng.random() < 0.7 else rng.random(),
                             flee=rng.choice(PROBS) if rng.random() < 0.7 else rng.random(), default=rng.random() < 0.15)
                        for _ in range(board.ghosts)]
        cfg["through_game"] = rng.random() < 0.3
        ops = []
        extreme = rng.choice([0.05, 0.5, 1.0])
        for _ in range(rng.choice([10, 40, 200])):
            op = dict(op="round", pac=rng.choice(["rand", "caps", "food", "caps", "rand", "meet"]), n=rng.randrange(1 << 16),
                      draws=[rng.choice(DRAWS) if rng.random() < extreme else rng.random() for _ in range(board.ghosts)])
            if rng.random() < 0.03:
                op["sweep"] = rng.randrange(board.ghosts)
            if rng.random() < 0.25:
                op["late"] = rng.randint(1, 3)
            ops.append(op)
        return dict(config=cfg, ops=ops)

    def run(self, trace, rec):
        lib = load()
        lib.reset()
        cfg = trace["config"]
        board = M.Board(cfg["text"])
        sim = SimOS(rec, random.Random(cfg["seed"]))
        ghosts = []
        for i, k in enumerate(cfg["kinds"]):
            if k["kind"] == "random":
                ghosts.append(lib.ghosts.RandomGhost(i + 1))
            elif k["default"]:
                ghosts.append(lib.ghosts.DirectionalGhost(i + 1))
            else:
                ghosts.append(lib.ghosts.DirectionalGhost(i + 1, k["attack"], k["flee"]))
        with sim:
            if cfg["through_game"]:
                self.whole_game(lib, trace, ghosts, sim, rec)
            else:
                self.step_by_step(lib, trace, ghosts, sim, rec)

    def want(self, cfg, m, a):
        k = cfg["kinds"][a - 1]
        pa, pf = (0.8, 0.8) if k["default"] else (k["attack"], k["flee"])
        return want_distribution(m, a, k["kind"], pa, pf)

    def step_by_step(self, lib, trace, ghosts, sim, rec):
        cfg = trace["config"]
        board = M.Board(cfg["text"])
        st = lib.pacman.GameState()
        st.initialize(lib.layout.Layout(list(cfg["text"])))
        m = M.St.initial(board)
        made = 0
        for op in trace["ops"]:
            rec.ops += 1
            if m.over():
                st = lib.pacman.GameState()
                st.initialize(lib.layout.Layout(list(cfg["text"])))
                m = M.St.initial(board)
            act = choose(m, 0, op["pac"], op["n"])
            if act is None:
                break
            st, m = st.generateSuccessor(0, act), m.step(0, act)
            for a in range(1, len(m.ag)):
                if op.get("late") and m.ag[a].timer > op["late"]:  # the scared time is nearly over
                    rec.probe("scared_time_nearly_over")
                    m.ag[a].timer = st.data.agentStates[a].scaredTimer = op["late"]
            for a in range(1, len(m.ag)):
                if m.over():
                    break
                legal = m.legal(a)
                if not legal:
                    continue
                want = self.want(cfg, m, a)
                if m.ag[a].timer:
                    rec.probe("scared_ghost_move")
                if len(legal) == 1:
                    rec.probe("forced_move")
                before = M.obs_state(st)
                dist = ghosts[a - 1].getDistribution(st)
                self.check_distribution({d: float(p) for d, p in dist.items()}, want, a)
                if op.get("sweep") == a - 1:
                    self.sweep(sim, ghosts[a - 1], st, want, rec)
                r = op["draws"][a - 1]
                act = self.move(sim, ghosts[a - 1], st, r, legal, rec)
                if want[act] == 0.0:
                    raise Violation("impossible-action", f"{act} has probability 0 and was chosen with {r!r}")
                if r in DRAWS:
                    rec.fault("extreme_draw")
                if M.obs_state(st) != before:
                    raise Violation("state-changed-by-ghost", str(M.difference(M.obs_state(st), before)))
                st, m = st.generateSuccessor(a, act), m.step(a, act)
                if M.obs_state(st) != m.snap():
                    raise Violation("state", str(M.difference(M.obs_state(st), m.snap())))
                made += 1
                rec.log(a, act, r)
        rec.probe("ghost_moves", made)
        rec.nontrivial = made >= 5

    def move(self, sim, ghost, st, r, legal, rec):
        sim.draws, count = [r], sim.draw_count
        try:
            act = ghost.getAction(st)
        except Exception as e:
            raise Violation("ghost-failed", f"{type(ghost).__name__} with random number {r!r}: {e!r}")
        used = sim.draw_count - count
        if not isinstance(act, str) or act not in legal:
            raise Violation("illegal-ghost-move", f"{type(ghost).__name__} chose {act!r} with random number {r!r}, legal {sorted(legal)}")
        if used != 1:
            raise Violation("draw-count", f"{type(ghost).__name__}: {used} random draws for one move")
        sim.draws = None
        return act

    def check_distribution(self, got, want, a):
        if set(got) - set(want) or any(got.get(d, 0.0) < 0 for d in want):
            raise Violation("distribution", f"ghost {a}: {got} over actions {sorted(want)}")
        if abs(sum(got.values()) - 1) > 1e-9:
            raise Violation("distribution-sum", f"ghost {a}: {got} sums to {sum(got.values())}")
        for d, p in want.items():
            if abs(got.get(d, 0.0) - p) > 1e-9:
                raise Violation("distribution", f"ghost {a}: {got} instead of {want}")

    def sweep(self, sim, ghost, st, want, rec):
        """Evenly spread random numbers must lead to the actions in the proportion of their probabilities."""
        rec.probe("interval_swept")
        seen = {d: 0 for d in want}
        for k in range(SWEEP):
            seen[self.move(sim, ghost, st, (k + 0.5) / SWEEP, want, rec)] += 1
        for d, p in want.items():
            if abs(seen[d] / SWEEP - p) > 2.01 / SWEEP:
                raise Violation("sampling", f"{d} has probability {p:.3f} and takes {seen[d]} of {SWEEP} evenly spread random numbers")

    def whole_game(self, lib, trace, ghosts, sim, rec):
        """The same ghosts in the real game loop, up to a bounded number of rounds."""
        cfg = trace["config"]
        board = M.Board(cfg["text"])
        ops = trace["ops"]
        scn = self
        made = [0]

        class Pac(lib.game.Agent):
            turn = 0

            def getAction(self, state):
                op = ops[self.turn % len(ops)]
                self.turn += 1
                sim.draws = list(op["draws"])
                legal = sorted(state.getLegalActions(0))
                return legal[op["n"] % len(legal)]

        class Display:
            def initialize(self, data):
                pass

            def update(self, data):
                made[0] += 1

            def finish(self):
                pass

        class Rules(lib.pacman.ClassicGameRules):
            def process(self, state, game):
                base.process(self, state, game)
                if made[0] >= limit:
                    game.gameOver = True
        base = lib.pacman.ClassicGameRules
        limit = max(1, len(ops)) * (1 + len(ghosts))
        if not ops or any(not M.St.initial(board).legal(i) for i in range(1, 1 + len(ghosts))):
            return
        rules = Rules(30)
        game = rules.newGame(lib.layout.Layout(list(cfg["text"])), Pac(), ghosts, Display(), True, False)
        try:
            game.run()
        except Exception as e:
            raise Violation("ghost-failed", f"in a game: {e!r}")
        st = M.obs_state(game.state)
        if not (st["win"] or st["lose"]) and made[0] != limit:
            raise Violation("no-progress", f"{made[0]} moves of {limit}, game not over")
        if [i for i, _ in game.moveHistory] != [k % (1 + len(ghosts)) for k in range(made[0])]:
            raise Violation("turn-order", str(game.moveHistory[:10]))
        m = M.St.initial(board)
        for i, act in game.moveHistory:
            if act not in m.legal(i):
                raise Violation("illegal-ghost-move", f"agent {i} played {act!r}")
            m = m.step(i, act)
        rec.log(game.moveHistory)
        rec.ops += made[0]
        rec.probe("game_moves", made[0])
        rec.nontrivial = made[0] >= 5

    def simplify_op(self, op):
        if "late" in op:
            yield {k: v for k, v in op.items() if k != "late"}
        if "sweep" in op:
            yield {k: v for k, v in op.items() if k != "sweep"}
        for i, d in enumerate(op["draws"]):
            if d != 0.5:
                yield {**op, "draws": op["draws"][:i] + [0.5] + op["draws"][i + 1:]}


SCENARIOS = {"C17": Rules, "C18": Ghosts}
