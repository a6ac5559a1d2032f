"""Whole games with scripted agents under a simulated clock, alarm and streams: C13, C14, C15, C16."""
import hashlib
import io
import random
import signal
import sys

from . import pacmodel as M
from .core import Abandon, Scenario, Violation
from .gamelib import Killed, SimOS, load

EPS = 1e-6


def h32(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:4], "big")


class EvilEq:
    def __eq__(self, other):
        raise ValueError("cannot be compared")

    def __hash__(self):
        return 1


class YesEq:
    def __eq__(self, other):
        return True

    def __hash__(self):
        return 2


class BadStr(Exception):
    def __str__(self):
        raise RuntimeError("no text")


class EvilStr:
    def __str__(self):
        raise RuntimeError("no text")
    __repr__ = __str__


GARBAGE = {"none": lambda: None, "lower": lambda: "north", "empty": lambda: "", "int": lambda: 0, "float": lambda: float("nan"),
           "list": lambda: [], "dict": lambda: {}, "tuple": lambda: ("North",), "bytes": lambda: b"North", "evil": EvilEq,
           "yes": YesEq, "evilstr": EvilStr, "long": lambda: "N" * 100, "true": lambda: True, "set": lambda: {"North"}}
ERRORS = {"ValueError": ValueError, "KeyError": KeyError, "ZeroDivisionError": ZeroDivisionError, "AssertionError": AssertionError,
          "StopIteration": StopIteration, "MemoryError": MemoryError, "OSError": OSError, "BadStr": BadStr,
          "RecursionError": RecursionError, "Exception": Exception, "AttributeError": AttributeError,
          "IndexError": IndexError, "NotImplementedError": NotImplementedError, "TimeoutError": TimeoutError}
DIRS = ["North", "South", "East", "West", "Stop"]
CALLS = {"init": "registerInitialState", "obs": "observationFunction", "act": "getAction", "final": "final"}

SCRIBBLES = ["pos", "dir", "timer", "food", "foodall", "walls", "capsules", "score", "win", "lose", "eaten", "layoutfood",
             "layoutcaps", "layoutpos", "layouttext", "agents", "start", "configpos", "startpos", "ispac", "agentmoved",
             "fooddata", "wallsdata", "poplist", "layoutghosts", "clearcaps"]


def scribble(kind, state, i):
    """What a hostile agent can do to a state object it holds."""
    d = state.data
    a = d.agentStates
    j = i % len(a) if a else 0
    try:
        if kind == "pos":
            a[j].configuration = type(a[j].configuration)((1, 1), "North")
        elif kind == "configpos":
            a[j].configuration.pos = (1, 1)
        elif kind == "dir":
            a[j].configuration.direction = "West"
        elif kind == "start":
            a[j].start = type(a[j].start)((1, 1), "East")
        elif kind == "startpos":
            a[j].start.pos = (1, 1)
            a[j].start.direction = "South"
        elif kind == "timer":
            for x in a:
                x.scaredTimer = 17
        elif kind == "ispac":
            a[j].isPacman = not a[j].isPacman
        elif kind == "food":
            for x, y in M.grid_cells(d.food)[:2]:
                d.food[x][y] = False
        elif kind == "foodall":
            for x in range(d.food.width):
                for y in range(d.food.height):
                    d.food[x][y] = not d.food[x][y]
        elif kind == "fooddata":
            d.food.data[1] = [True] * d.food.height
        elif kind == "walls":
            for x in range(d.layout.walls.width):
                for y in range(d.layout.walls.height):
                    d.layout.walls[x][y] = False
        elif kind == "wallsdata":
            d.layout.walls.data[1] = [True] * d.layout.walls.height
        elif kind == "capsules":
            d.capsules.append((1, 1))
            state.getCapsules().append((2, 1))
        elif kind == "clearcaps":
            del d.capsules[:]
        elif kind == "score":
            d.score += 1000
            d.scoreChange += 77
        elif kind == "win":
            d._win = True
        elif kind == "lose":
            d._lose = True
        elif kind == "eaten":
            d._eaten[j] = True
        elif kind == "agentmoved":
            d._agentMoved = 0
            d._foodEaten = (1, 1)
        elif kind == "layoutfood":
            for x, y in M.grid_cells(d.layout.food)[:2]:
                d.layout.food[x][y] = False
        elif kind == "layoutcaps":
            d.layout.capsules.append((1, 1))
        elif kind == "layoutpos":
            d.layout.agentPositions.reverse()
            d.layout.agentPositions.pop()
        elif kind == "layoutghosts":
            d.layout.numGhosts = 0
        elif kind == "layouttext":
            d.layout.layoutText[0] = d.layout.layoutText[0].replace("%", ".")
            d.layout.layoutText.pop()
        elif kind == "agents":
            a.reverse()
        elif kind == "poplist":
            a.pop()
    except Exception:
        pass


class Entry:
    __slots__ = ("g", "a", "call", "k", "t0", "t1", "interrupts", "error", "value", "snap", "real", "model", "token")


class World:
    def __init__(self, cfg, ops, active, rec):
        self.cfg, self.active, self.rec = cfg, set(active), rec
        self.lib = load()
        self.lib.reset()
        self.board = M.Board(cfg["text"])
        self.by_call = {}
        self.by_display = {}
        for op in ops:
            if op.get("op") == "agent":
                self.by_call.setdefault((op["g"], op["a"], op["call"], op["k"]), []).extend(op["do"])
            elif op.get("op") == "display":
                self.by_display.setdefault((op["g"], op["where"], op["k"]), []).append(op)
        self.null = {(op["g"], op["a"]) for op in ops if op.get("op") == "null"}
        self.sim = SimOS(rec, random.Random(cfg["seed"]))
        self.sim.lag, self.sim.jitter = cfg.get("lag", 0.0), cfg.get("jitter", 0.0)
        self.sim.noalarm = bool(cfg.get("noalarm"))
        self.held = []
        self.scribbled = False
        self.entries = []

    def bad(self, tags, kind, message):
        if self.active & set(tags):
            raise Stop(Violation(kind, message))
        raise Stop(Abandon())

    # ------------------------------------------------------------------------------------- agents
    def make_agents(self):
        n = min(len(self.board.agents), 1 + self.cfg["ghosts"])
        self.agents = []
        for i in range(n):
            methods = {CALLS["act"]: self._method(i, "act")}
            for call in self.cfg["methods"][i] if i < len(self.cfg["methods"]) else []:
                methods[CALLS[call]] = self._method(i, call)
            cls = type("Scripted", (self.lib.game.Agent,) if self.cfg.get("subclass", True) else (object,), methods)
            if self.cfg.get("subclass", True):
                self.agents.append(cls(i))
            else:
                x = cls()
                x.index = i
                self.agents.append(x)

    def _method(self, i, call):
        def f(agent, state):
            return self.callback(i, call, state)
        return f

    def callback(self, a, call, state):
        sim, rec = self.sim, self.rec
        e = Entry()
        e.g, e.a, e.call = self.g, a, call
        e.k = self.counts.get((a, call), 0)
        self.counts[(a, call)] = e.k + 1
        e.t0 = e.t1 = sim.now
        e.interrupts, e.error, e.value, e.token = [], None, None, None
        if len(self.game_entries) > max(4000, 3 * self.cfg["cap"]):
            raise Stop(Violation("no-progress", f"a game makes {len(self.game_entries)} calls of agents"))
        e.model = self.model.snap()
        # the state handed over, and the real one, at the moment of the call
        is_state = hasattr(state, "data")
        e.snap = M.obs_state(state) if is_state else None
        e.real = M.obs_state(self.game.state)
        self.entries.append(e)
        self.game_entries.append(e)
        if call != "final" and is_state and self.cfg["hold"]:
            self.held.append(state)
        value = state if call == "obs" else None
        try:
            for step in self.by_call.get((self.g, a, call, e.k), ()):
                if "spend" in step:
                    end = sim.now + step["spend"]
                    left = step.get("swallow", 0)
                    while sim.now < end:
                        try:
                            sim.advance(end - sim.now)
                        except (Killed, Stop):
                            raise
                        except Exception:
                            e.interrupts.append(sim.now)
                            rec.fault("interrupted_by_alarm")
                            if sim.lag:
                                rec.fault("late_alarm")
                            if left <= 0:
                                raise
                            left -= 1
                            rec.fault("timeout_swallowed_by_agent")
                    rec.fault("agent_slow")
                elif "clock" in step:
                    sim.skew += step["clock"]
                    rec.fault("clock_stepped")
                elif "print" in step:
                    e.token = f"<tok {self.g}.{a}.{call}.{e.k}>"
                    print(e.token, file=sys.stderr if step["print"] == "err" else sys.stdout)
                    rec.probe("agent_printed")
                elif "raise" in step:
                    rec.fault("agent_raised_" + call)
                    raise ERRORS[step["raise"]]("scripted failure")
                elif "scribble" in step:
                    target = state if step.get("on", "now") == "now" or not self.held else self.held[step.get("n", 0) % len(self.held)]
                    if hasattr(target, "data") and (call != "final" or target is not state):
                        scribble(step["scribble"], target, step.get("i", 0))
                        self.scribbled = True
                        rec.fault("scribbled_" + step["scribble"])
                elif "search" in step:
                    self.search(state, a, step["search"])
                elif "ret" in step:
                    rec.fault("garbage_move")
                    r = step["ret"]
                    if r == "illegal":
                        bad = [d for d in DIRS if d not in self.model.legal(a)]
                        value = bad[step.get("n", 0) % len(bad)] if bad else "Nowhere"
                    else:
                        value = GARBAGE[r]()
                    if call == "obs":
                        pass
                    break
            else:
                if call == "act":
                    value = self.policy(a, e.k)
        except (Killed, Stop):
            raise
        except Exception as err:
            e.error = err
            e.t1 = sim.now
            raise
        e.t1 = sim.now
        e.value = value
        return value

    def search(self, state, a, n):
        """An agent looking ahead through successors of what it was given."""
        s, i = state, a
        for k in range(n):
            try:
                acts = s.getLegalActions(i)
                if not acts:
                    break
                s = s.generateSuccessor(i, sorted(acts)[h32(k, self.cfg["seed"]) % len(acts)])
                i = (i + 1) % s.getNumAgents()
            except Exception:
                break
        self.rec.probe("agent_searched")

    def policy(self, a, k):
        legal = sorted(self.model.legal(a))
        if not legal:
            return "Stop"
        kind = self.cfg["policy"][a % len(self.cfg["policy"])]
        r = h32(self.cfg["seed"], self.g, a, k)
        if kind == "rand" or r % 5 == 0:
            return legal[r % len(legal)]
        m = self.model
        if a == 0:
            goals = set(m.food) if kind == "food" else (set(m.caps) or set(m.food))
        else:
            goals = {tuple(int(c) for c in m.ag[0].pos)}
        d = first_step(m.b, m.ag[a].pos, goals)
        return d if d in legal else legal[r % len(legal)]

    # ------------------------------------------------------------------------------------- display and rules
    def make_display(self):
        w = self

        class Display:
            def initialize(self, data, *rest):
                w.dlog.append(("initialize", M.obs_data(data)))
                w.slow("initialize")

            def update(self, data):
                w.dlog.append(("update", M.obs_data(data), data._agentMoved))
                if w.agreed:
                    w.after_move()
                w.slow("update")

            def finish(self):
                w.dlog.append(("finish",))
                w.slow("finish")
        return Display()

    def slow(self, where):
        if (sys.stdout, sys.stderr) != self.streams:
            self.bad(("C15",), "still-muted", f"the streams are redirected during the {where} call of the display or the rules")
        k = self.dcounts.get(where, 0)
        self.dcounts[where] = k + 1
        for op in self.by_display.get((self.g, where, k), ()):
            if op.get("clock"):
                self.sim.skew += op["clock"]
                self.rec.fault("clock_stepped")
            if op.get("spend"):
                self.rec.fault("slow_display_or_rules")
                try:
                    self.sim.advance(op["spend"])
                except (Killed, Stop):
                    raise
                except Exception as e:
                    self.bad(("C14", "C15"), "alarm-outside-agent", f"an alarm went off in {where}: {e!r}")

    def make_rules(self):
        w = self
        base = self.lib.pacman.ClassicGameRules

        class Rules(base):
            def process(self, state, game):
                base.process(self, state, game)
                w.moves += 1
                if w.moves >= w.cfg["cap"]:
                    game.gameOver = True
                w.slow("process")

            def agentCrash(self, game, agentIndex):
                w.blamed.append(agentIndex)
                base.agentCrash(self, game, agentIndex)

            def getMaxTotalTime(self, i):
                return w.limit(i, "total")

            def getMaxStartupTime(self, i):
                return w.limit(i, "startup")

            def getMoveWarningTime(self, i):
                return w.limit(i, "warn")

            def getMoveTimeout(self, i):
                return w.limit(i, "move")

            def getMaxTimeWarnings(self, i):
                return w.limit(i, "warnings")
        return base(self.cfg["classic"]) if self.cfg.get("classic") else Rules(30)

    def limit(self, i, what):
        if self.cfg.get("classic"):
            return 0 if what == "warnings" else self.cfg["classic"]
        return self.cfg["limits"][i % len(self.cfg["limits"])][what]

    # ------------------------------------------------------------------------------------- one game
    def after_move(self):
        """Called from display.update: the move just made, according to the model."""
        acts = [e for e in self.game_entries if e.call == "act"]
        if not acts:
            return
        e = acts[-1]
        try:
            self.model = self.model.step(e.a, e.value)
        except M.Illegal:
            self.agreed = False
            self.bad(("C13", "C16", "C15", "C14"), "illegal-move-played", f"agent {e.a} returned {safe(e.value)} and the display was updated")
        if M.obs_state(self.game.state) != self.model.snap():
            self.agreed = False
            self.bad(("C13", "C16"), "state-after-move", f"after {e.a} {safe(e.value)}: {M.difference(M.obs_state(self.game.state), self.model.snap())}")

    def play(self, g):
        cfg, sim, rec = self.cfg, self.sim, self.rec
        self.g = g
        self.counts, self.game_entries, self.dlog, self.dcounts = {}, [], [], {}
        self.blamed, self.moves, self.agreed = [], 0, True
        self.model = M.St.initial(self.board, cfg["ghosts"])
        self.initial = self.model
        agents = [None if (g, i) in self.null else x for i, x in enumerate(self.agents)]
        if any(a is None for a in agents):
            rec.fault("agent_missing")
        display = self.make_display()
        if cfg.get("newgame"):
            game = self.rules.newGame(self.layout, agents[0], list(agents[1:]), display, bool(g % 2), cfg["catch"])
            start = 0
        else:
            game = self.lib.game.Game(agents, display, self.rules, startingIndex=cfg["start"] % len(agents),
                                      muteAgents=cfg["mute"], catchExceptions=cfg["catch"])
            st = self.lib.pacman.GameState()
            st.initialize(self.layout, len(agents) - 1)
            game.state = st
            self.rules.initialState = st.deepCopy()
            self.rules.quiet = False
            start = cfg["start"] % len(agents)
        muted = cfg["mute"] and not cfg.get("newgame")
        self.game = game
        if M.obs_state(game.state) != self.model.snap():
            self.bad(("C16", "C13"), "wrong-initial-state", f"game {g}: {M.difference(M.obs_state(game.state), self.model.snap())}")
        out = io.StringIO()
        err = out if cfg.get("one_stream") else io.StringIO()
        prior = self.prior
        sim.handler = prior
        self.streams = sys.stdout, sys.stderr = out, err
        escaped = None
        try:
            game.run()
        except Stop as s:
            raise s.what
        except Killed as k:
            escaped = k
        except Exception as e:
            escaped = e
        finally:
            streams = sys.stdout, sys.stderr
            from .core import real_stderr, real_stdout
            sys.stdout, sys.stderr = real_stdout, real_stderr
        try:
            self.judge(g, game, start, muted, escaped, streams, out, err, prior)
        except Stop as s:
            raise s.what

    def judge(self, g, game, start, muted, escaped, streams, out, err, prior):
        sim, cfg, rec = self.sim, self.cfg, self.rec
        n = len(self.agents)
        what = f"game {g}"
        if isinstance(escaped, Killed):
            self.bad(("C14", "C15"), "process-killed-by-alarm", f"{what}: {escaped}")
        if streams[0] is not out or streams[1] is not err:
            self.bad(("C15",), "streams-not-restored", f"{what}: muted={muted} catch={cfg['catch']} after {escaped!r}")
        if sim.due is not None:
            self.bad(("C15", "C14"), "alarm-pending", f"{what}: an alarm is due {sim.due - sim.now:.2f}s after the game")
        if sim.handler is not prior:
            self.bad(("C15",), "handler-not-restored", f"{what}: {sim.handler!r} instead of {prior!r}")
        if cfg["catch"] and escaped is not None:
            self.bad(("C15",), "game-raised:" + type(escaped).__name__, f"{what}: {escaped!r}")
        # what agents printed
        o, r = out.getvalue(), err.getvalue()
        for e in self.game_entries:
            if e.token is None:
                continue
            places = [i for i in range(n) if e.token in game.agentOutput[i].getvalue()]
            outside = e.token in o or e.token in r
            if muted and (places != [e.a] or outside):
                self.bad(("C15",), "output-leaked", f"{what}: what agent {e.a} printed in {e.call} went to buffers {places}, outside: {outside}")
        # observations
        for e in self.game_entries:
            if e.call == "final":
                continue
            if e.snap is not None and not (e.call == "act" and self.has(e.a, "obs")) and e.snap != e.model:
                self.bad(("C13", "C16"), "wrong-observation", f"{what}: {e.call} {e.k} of agent {e.a}: {M.difference(e.snap, e.model)}")
            if e.real != e.model:
                self.bad(("C13", "C16"), "state-changed-between-moves", f"{what}: at {e.call} {e.k} of agent {e.a}: {M.difference(e.real, e.model)}")
        self.follow(g, game, start, escaped)
        if M.obs_layout(self.layout) != self.layout_before:
            self.bad(("C16",), "layout-changed", f"{what}: {M.difference(M.obs_layout(self.layout), self.layout_before)}")
        if M.obs_state(self.rules.initialState) != self.initial.snap():
            self.bad(("C16",), "initial-state-changed", what)
        rec.log("game", g, len(self.game_entries), [(e.a, e.call, round(e.t1 - e.t0, 3), len(e.interrupts), type(e.error).__name__) for e in self.game_entries],
                game.agentCrashed, game.agentTimeout, self.blamed, self.model.score)

    def has(self, i, call):
        return call in (self.cfg["methods"][i] if i < len(self.cfg["methods"]) else [])

    def follow(self, g, game, start, escaped):
        """Walk through what the rules of play say must have happened, along the recorded calls."""
        cfg, rec, sim = self.cfg, self.rec, self.sim
        n = len(self.agents)
        it = iter(self.game_entries)
        what = f"game {g}"
        catch = cfg["catch"]
        model = self.initial
        played = []             # moves that took effect
        rejected = None
        end = None              # (why, agent, timeout flag expected or None)
        totals, warns, maywarn = [0.0] * n, [0] * n, [0] * n
        classic = [[]] if cfg.get("classic") else []     # the real rules' report of who is to blame is not recorded

        def nxt(a, call):
            e = next(it, None)
            if e is None or (e.a, e.call) != (a, call):
                self.bad(("C13", "C15", "C14") if e is None else ("C13",), "turn-order",
                         f"{what}: after {len(played)} moves expected {call} of agent {a}, got "
                         f"{(e.a, e.call) if e else 'nothing'} (crashed={game.agentCrashed} timeout={game.agentTimeout} blamed={self.blamed})")
            return e

        def judge_time(e, limit, before=0.0):
            """-> 'timeout' must end, 'free' may end, 'ok'."""
            if not catch:
                if e.interrupts:
                    self.bad(("C14",), "interrupted-without-limit", f"{what}: agent {e.a}")
                return "ok"
            used = before + (e.t1 - e.t0)
            if sim.noalarm:         # nobody can interrupt it: it is stopped when it returns
                if e.interrupts:
                    self.bad(("C14",), "interrupted-without-alarm", f"{what}: agent {e.a}")
                if used > limit + 1 + 4 * sim.jitter + EPS and e.error is None:
                    rec.fault("overrun_without_alarm_signal")
                    return "timeout"
                return "free" if used >= limit - EPS - 4 * sim.jitter else "ok"
            if e.interrupts:
                at = before + (e.interrupts[0] - e.t0)
                if at < limit - EPS - 4 * sim.jitter:
                    self.bad(("C14",), "interrupted-early", f"{what}: agent {e.a} in {e.call} {e.k} after {at:.2f}s of {limit}s")
                if at > limit + 1 + sim.lag + 4 * sim.jitter + EPS:
                    self.bad(("C14",), "interrupted-late", f"{what}: agent {e.a} in {e.call} {e.k} after {at:.2f}s of {limit}s")
                return "timeout"
            if used > limit + 1 + sim.lag + 4 * sim.jitter + EPS:
                self.bad(("C14",), "not-interrupted", f"{what}: agent {e.a} in {e.call} {e.k} ran {used:.2f}s of {limit}s")
            return "free" if used >= limit - EPS - 4 * sim.jitter else "ok"

        # start-up
        for i in range(n):
            if (g, i) in self.null:
                end = ("missing", i, False)
                break
            if self.has(i, "init"):
                e = nxt(i, "init")
                t = judge_time(e, self.limit(i, "startup"))
                if t == "timeout":
                    end = ("timeout", i, True)
                    break
                if e.error is not None:
                    end = ("raised", i, None if t == "free" or isinstance(e.error, self.lib.util.TimeoutFunctionException) else False)
                    break
                if t == "free" and game.agentTimeout and self.blamed in ([i], *classic) and not self._more(it):
                    end = ("timeout", i, True)
                    break
                totals[i] += e.t1 - e.t0
        idx = start
        while end is None and not model.over() and len(played) < (cfg["cap"] if not cfg.get("classic") else 10 ** 9):
            before, t0 = 0.0, "ok"
            lim = self.limit(idx, "move")
            if self.has(idx, "obs"):
                e = nxt(idx, "obs")
                t0 = judge_time(e, lim)
                if t0 == "timeout":
                    end = ("timeout", idx, True)
                    break
                if e.error is not None:
                    end = ("raised", idx, None if t0 == "free" else False)
                    break
                before = e.t1 - e.t0
                if t0 == "free" and game.agentTimeout and self.blamed in ([idx], *classic) and not self._more(it):
                    end = ("timeout", idx, True)
                    break
            e = nxt(idx, "act")
            t = judge_time(e, lim, before)
            if t == "timeout":
                end = ("timeout", idx, True)
                break
            if e.error is not None:
                end = ("raised", idx, None if t == "free" else False)
                break
            if catch:
                m = before + (e.t1 - e.t0)
                # time outside the agents' own code counts too, and sums are rounded: "may" where that decides
                slack = EPS + 4 * sim.jitter * len(self.game_entries)
                if m > self.limit(idx, "warn") - slack:
                    maywarn[idx] += 1
                if m > self.limit(idx, "warn") + EPS:
                    warns[idx] += 1
                    rec.probe("slow_move_warning")
                totals[idx] += m
                spent = totals[idx] - self.limit(idx, "total")
                if spent > EPS:
                    rec.probe("total_time_used_up")
                most = self.limit(idx, "warnings")
                may = t == "free" or spent > -slack or maywarn[idx] > most
                if spent > EPS or warns[idx] > most or \
                        may and game.agentTimeout and self.blamed in ([idx], *classic) and not self._more(it):
                    end = ("timeout", idx, True)
                    break
            try:
                model = model.step(idx, e.value)
                played.append((idx, e.value))
            except M.Illegal:
                rejected = (idx, e.value)
                end = ("rejected", idx, False)
                break
            idx = (idx + 1) % n
        finished = end is None
        if finished:
            for i in range(n):
                if self.has(i, "final"):
                    e = next(it, None)
                    if e is None or e.call != "final":
                        self.bad(("C13",), "moves-after-the-end", f"{what}: {(e.a, e.call) if e else 'no final call'}")
                    if e.error is not None:
                        end = ("raised", e.a, False)
                        break
        late = next(it, None)
        if late is not None:
            tags = {"timeout": ("C14",), "rejected": ("C15",), "raised": ("C15",), "missing": ("C15",)}.get(end and end[0], ())
            self.bad(("C13",) + tags, "play-goes-on", f"{what}: {(late.a, late.call)} called after {end[:2] if end else 'the end'}")
        # flags
        kind = end[0] if end else "normal"
        rec.probe("end_" + kind)
        tag = ("C14", "C15") if kind == "timeout" else ("C15",) if end else ("C14", "C15")
        if catch or end is None or kind == "missing":
            if bool(game.agentCrashed) != (end is not None):
                self.bad(tag, "crash-flag", f"{what}: crashed={game.agentCrashed} but {end or 'every agent behaved'}; blamed {self.blamed}")
            blame = self.blamed if not cfg.get("classic") else ([end[1]] if end else [])
            if blame != ([end[1]] if end else []):
                self.bad(tag, "wrong-blame", f"{what}: {end}: blamed {self.blamed}")
            if end is not None and end[2] is not None and bool(game.agentTimeout) != end[2]:
                self.bad(("C14",) if end[2] else ("C14", "C15"), "timeout-flag", f"{what}: {end}: agentTimeout={game.agentTimeout}")
            if end is None and game.agentTimeout:
                self.bad(("C14",), "timeout-flag", f"{what}: flagged though nobody exceeded a limit")
            if not game.gameOver:
                self.bad(("C15",), "not-over", what)
        elif escaped is None:
            rec.probe("uncaught_error_swallowed")
        # final state and history
        if M.obs_state(game.state) != model.snap():
            tags = ("C13", "C15", "C16") if kind != "timeout" else ("C13", "C14", "C15", "C16")
            self.bad(tags, "wrong-final-state", f"{what} ended by {end}: {M.difference(M.obs_state(game.state), model.snap())}")
        hist = list(game.moveHistory)
        ok = same_moves(hist, played) or (rejected is not None and same_moves(hist, played + [rejected]))
        if not ok:
            self.bad(("C13", "C14") if kind == "timeout" else ("C13",), "wrong-history",
                     f"{what}: {[(i, safe(x)) for i, x in hist][-4:]} ({len(hist)}) instead of {[(i, safe(x)) for i, x in played][-4:]} ({len(played)})")
        # replay through the real rules
        st = self.lib.pacman.GameState()
        st.initialize(self.lib.layout.Layout(list(self.cfg["text"])), cfg["ghosts"])
        for i, x in played:
            st = st.generateSuccessor(i, x)
        if M.obs_state(st) != M.obs_state(game.state):
            self.bad(("C13",), "history-does-not-replay", f"{what}: {M.difference(M.obs_state(st), M.obs_state(game.state))}")
        # display
        want = [("initialize", self.initial.snap())]
        m = self.initial
        for i, x in played:
            m = m.step(i, x)
            want.append(("update", m.snap(), i))
        got = self.dlog
        fins = sum(1 for d in got if d[0] == "finish")
        if finished and end is None and fins != 1 or fins > 1:
            self.bad(("C13",), "display-finish", f"{what}: finished {fins} times, end {end}")
        body = [d for d in got if d[0] != "finish"]
        if body != want:
            k = next((k for k, (x, y) in enumerate(zip(body, want)) if x != y), min(len(body), len(want)))
            self.bad(("C13",), "display-updates", f"{what}: call {k} of {len(body)}/{len(want)}: "
                                                 f"{body[k][0] if k < len(body) else None} {M.difference(body[k][1], want[k][1]) if k < len(body) and k < len(want) else ''}")
        if fins and got[-1][0] != "finish":
            self.bad(("C13",), "display-finish", f"{what}: used after finish")
        if len(played) >= 3 or end:
            rec.nontrivial = True
        rec.probe("moves", len(played))
        if model.win:
            rec.probe("won")
        if model.lose:
            rec.probe("lost")

    def _more(self, it):
        """Whether calls remain (the iterator is over a list, so peek through its length hint)."""
        return it.__length_hint__() > 0

    def run(self):
        cfg = self.cfg
        self.layout = self.lib.layout.Layout(list(cfg["text"]))
        self.layout_before = M.obs_layout(self.layout)
        self.rules = self.make_rules()
        self.make_agents()

        def prior(signum, frame):
            raise Stop(Violation("alarm-outside-game", "the program's own alarm handler was called"))
        self.prior = {"dfl": signal.SIG_DFL, "ign": signal.SIG_IGN}.get(cfg["prior"], prior)
        with self.sim:
            for g in range(cfg["games"]):
                self.play(g)
                try:
                    self.sim.advance(cfg.get("pause", 0))     # time goes by between games
                except Killed:
                    raise Violation("process-killed-by-alarm", "between games")
        self.rec.sim_time = self.sim.now
        self.rec.ops = len(self.entries)


class Stop(BaseException):
    """Carries a verdict out through the code under test, which catches Exception."""

    def __init__(self, what):
        super().__init__(str(what))
        self.what = what


def safe(x):
    try:
        return repr(x)[:40]
    except Exception:
        return "<" + type(x).__name__ + ">"


def same_moves(a, b):
    if len(a) != len(b):
        return False
    return all(len(x) == 2 and x[0] == y[0] and (x[1] is y[1] or type(x[1]) is str and type(y[1]) is str and x[1] == y[1])
               for x, y in zip(a, b))


def first_step(board, pos, goals):
    start = (int(pos[0] + 0.5), int(pos[1] + 0.5))
    seen = {start: None}
    todo = [start]
    while todo:
        c = todo.pop(0)
        if c in goals and c != start:
            while seen[c][0] != start:
                c = seen[c][0]
            return seen[c][1]
        for d in ("North", "South", "East", "West"):
            dx, dy = M.VEC[d]
            n = (c[0] + dx, c[1] + dy)
            if n not in board.walls and n not in seen:
                seen[n] = (c, d)
                todo.append(n)
    return None


# ------------------------------------------------------------------------------------------------ generation

def spend(rng, limit):
    """A duration around a limit: well below, just below, just above, far above."""
    return rng.choice([0.25, rng.randint(0, max(0, 4 * limit - 1)) / 4, limit - 0.25, limit + 0.25, limit + 0.5, limit + 1.25,
                       limit * 2 + 0.25, limit * 3 + 0.75])


ENDLESS = [["%%%%%%%%%", "%P  %  G%", "%   %%  %", "%%%%.%%%%", "%%%%%%%%%"],
           ["%%%%%%%%%%", "%.%P %G  %", "%%%  % G %", "%%%%%%%%%%"],
           ["%%%%%%%", "%.%P  %", "%%%   %", "%%%%%%%"]]


def random_config(rng, pid):
    text = M.random_board(rng, ghosts=(0, 3) if rng.random() < 0.9 else (0, 4))
    ng = M.Board(text).ghosts
    ghosts = ng if rng.random() < 0.8 else rng.randint(0, ng)
    n = 1 + ghosts
    p = {"C13": 0.4, "C14": 0.5, "C15": 0.5, "C16": 0.5}[pid]
    limits = []
    for _ in range(n):
        mv = rng.choice([1, 2, 3, 5, 8])
        limits.append(dict(startup=rng.choice([1, 2, 4, 6]), move=mv, warn=rng.choice([mv * 0.5 + 0.05, mv - 0.4, mv + 0.05, 0.55]),
                           total=rng.choice([mv * 2 + 0.3, mv * 5 + 0.3, 30.3, 1000.3]), warnings=rng.choice([0, 0, 1, 2, 5])))
    cfg = dict(text=text, ghosts=ghosts, seed=rng.randrange(1 << 30), start=rng.choice([0, 0, rng.randrange(n)]),
               mute=rng.random() < (0.7 if pid == "C15" else 0.3), catch=rng.random() < (1.0 if pid == "C14" else 0.75),
               limits=limits, games=rng.choice([1, 1, 2, 3]), prior=rng.choice(["dfl", "dfl", "ign", "func"]),
               policy=[rng.choice(["food", "food", "rand", "caps"])] + [rng.choice(["rand", "chase"]) for _ in range(ghosts)],
               methods=[[c for c in ("init", "obs", "final") if rng.random() < p] for _ in range(n)],
               cap=rng.choice([5, 20, 40, 80]), hold=pid == "C16", pause=rng.choice([0, 0, 40]),
               one_stream=rng.random() < 0.2, subclass=rng.random() < 0.85)
    if pid == "C13" and rng.random() < 0.004:        # a game that goes on and on
        text = rng.choice(ENDLESS)
        ng = M.Board(text).ghosts
        cfg.update(text=text, ghosts=ng, start=rng.randrange(1 + ng), games=1, cap=rng.choice([300, 1100, 2100, 3300]),
                   limits=[limits[0]] * (1 + ng), policy=["rand"] * (1 + ng), methods=[cfg["methods"][0]] * (1 + ng))
    if rng.random() < 0.2:
        cfg["newgame"] = True
        if rng.random() < 0.4 and cfg["cap"] < 100:
            cfg["classic"] = rng.choice([1, 2, 5, 30])
    return cfg


class GameRun(Scenario):
    quick_runs = 20000
    thorough_runs = 250000
    real_components = ["scripts/demo/game.py, pacman.py, util.py, layout.py (unmodified)"]
    stub_components = ["time, signal.alarm/signal/setitimer and random behind a simulated clock", "scripted agents",
                       "recording display", "rules subclass with per-agent limits and a move cap (process, time limits, agentCrash "
                       "delegate to the real ClassicGameRules)"]
    assumptions = ["time limits are whole numbers of seconds, at least one", "agents raise only subclasses of Exception",
                   "a run between the limit and one second past it may end either way", "an agent that neither returns nor is "
                   "interruptible is out of scope", "reference rules in sim/pacmodel.py"]

    def setup(self):
        load()

    def generate(self, rng, index, tier):
        pid = self.id
        if pid == "C16" and rng.random() < 0.3:
            return tree_trace(rng, tier)
        cfg = random_config(rng, pid)
        if pid == "C16" and cfg.get("classic"):
            cfg["catch"] = True
        n = 1 + cfg["ghosts"]
        ops = []
        turns = max(1, cfg["cap"] // n)

        def where():
            a = rng.randrange(n)
            calls = ["act"] * 4 + cfg["methods"][a]
            call = rng.choice(calls)
            return dict(op="agent", g=rng.randrange(cfg["games"]), a=a, call=call,
                        k=0 if call in ("init", "final") else rng.choice([0, 1, 2, rng.randint(0, turns)]))
        if cfg.get("classic"):
            lim = [dict(startup=cfg["classic"], move=cfg["classic"], warn=cfg["classic"], total=cfg["classic"], warnings=0)] * n
        else:
            lim = cfg["limits"]

        def duration(op):
            L = lim[op["a"] % len(lim)]
            return spend(rng, L["startup"] if op["call"] == "init" else L["move"])
        if pid == "C13":
            for _ in range(rng.randint(0, 5)):
                op = where()
                op["do"] = [rng.choice([dict(search=rng.randint(1, 6)), dict(spend=0.25), dict(print="out"), dict(clock=rng.choice([-1e6, 3600, -5])),
                                        dict(ret=rng.choice(["illegal"] + sorted(GARBAGE))), dict(**{"raise": rng.choice(sorted(ERRORS))})])]
                ops.append(op)
        elif pid == "C14":
            if rng.random() < 0.2:
                cfg["noalarm"] = True
            if rng.random() < 0.25:
                cfg["jitter"] = 1e-4
            if rng.random() < 0.4:          # a busy system delivers alarms late
                cfg["lag"] = rng.choice([0.05, 0.3, 0.45])
                for a in range(n):
                    if rng.random() < 0.5:
                        k = rng.randint(0, 3)
                        for call, d in (("obs", lim[a % len(lim)]["move"] + rng.choice([0, 0.25])), ("act", rng.choice([0.5, 1, 50]))):
                            ops.append(dict(op="agent", g=rng.randrange(cfg["games"]), a=a, call=call, k=k, do=[dict(spend=d)]))
            for _ in range(rng.randint(1, 10)):
                op = where()
                d = duration(op)
                if cfg.get("jitter") and rng.random() < 0.5:     # done just before the alarm, which goes off just after
                    L = lim[op["a"] % len(lim)]
                    op["do"] = [dict(spend=(L["startup"] if op["call"] == "init" else L["move"]) - 5e-5)]
                    ops.append(op)
                    continue
                if rng.random() < 0.55:
                    L = lim[op["a"] % len(lim)]
                    d = rng.randint(0, max(0, 4 * (L["startup"] if op["call"] == "init" else L["move"]) - 1)) / 4
                step = dict(spend=d)
                if rng.random() < 0.15:
                    step["swallow"] = rng.choice([1, 1, 3])
                op["do"] = [step]
                if rng.random() < 0.3:
                    op["do"].insert(rng.randint(0, 1), dict(clock=rng.choice([-1e6, -30, 30, 1e6, 3600])))
                if rng.random() < 0.15:
                    op["do"].append(dict(**{"raise": rng.choice(sorted(ERRORS))}))
                ops.append(op)
                if rng.random() < 0.3:          # the same agent is slow again and again
                    for k in range(1, rng.randint(2, 6)):
                        ops.append(dict(op, k=op["k"] + k) if op["call"] in ("act", "obs") else op)
            for _ in range(rng.randint(0, 4)):
                ops.append(dict(op="display", g=rng.randrange(cfg["games"]), where=rng.choice(["initialize", "update", "update", "process", "finish"]),
                                k=rng.randint(0, 6), spend=rng.choice([0.25, 2, 10, 100]), clock=rng.choice([0, 0, -1000, 1000])))
        elif pid == "C15":
            if rng.random() < 0.1:
                cfg["noalarm"] = True
            if rng.random() < 0.25:
                cfg["jitter"] = 1e-4
            for _ in range(rng.randint(1, 5)):
                op = where()
                do = []
                if cfg.get("jitter") and rng.random() < 0.6:
                    L = lim[op["a"] % len(lim)]
                    do.append(dict(spend=(L["startup"] if op["call"] == "init" else L["move"]) - 5e-5))
                elif rng.random() < 0.4:
                    do.append(dict(spend=rng.choice([0.25, 0.5, duration(op)]), swallow=rng.choice([0, 0, 0, 1])))
                if rng.random() < 0.5:
                    do.append(dict(print=rng.choice(["out", "err"])))
                x = rng.random()
                if x < 0.45:
                    do.append(dict(**{"raise": rng.choice(sorted(ERRORS))}))
                elif x < 0.7 and op["call"] == "act":
                    do.append(dict(ret=rng.choice(["illegal", "illegal"] + sorted(GARBAGE)), n=rng.randint(0, 4)))
                op["do"] = do
                ops.append(op)
            for a in range(n):
                if rng.random() < 0.5:
                    for k in range(rng.randint(1, 4)):
                        ops.append(dict(op="agent", g=0, a=a, call="act", k=k, do=[dict(print=rng.choice(["out", "err"]))]))
            if rng.random() < 0.08:
                ops.append(dict(op="null", g=rng.randrange(cfg["games"]), a=rng.randrange(n)))
            if rng.random() < 0.4:
                ops.append(dict(op="display", g=rng.randrange(cfg["games"]), where=rng.choice(["update", "process", "finish"]), k=rng.randint(0, 4),
                                spend=rng.choice([5, 100])))
        else:
            for _ in range(rng.randint(2, 14)):
                op = where()
                op["do"] = []
                for _ in range(rng.randint(1, 3)):
                    op["do"].append(dict(scribble=rng.choice(SCRIBBLES), on=rng.choice(["now", "now", "old"]), n=rng.randint(0, 30), i=rng.randint(0, 4)))
                if rng.random() < 0.3:
                    op["do"].insert(0, dict(search=rng.randint(1, 5)))
                if rng.random() < 0.05:
                    op["do"].append(dict(**{"raise": rng.choice(sorted(ERRORS))}))
                ops.append(op)
        return dict(config=cfg, ops=ops)

    def run(self, trace, rec):
        if trace["config"].get("mode") == "tree":
            return run_tree(trace, rec)
        World(trace["config"], trace["ops"], {self.id}, rec).run()

    def simplify_op(self, op):
        do = op.get("do") or []
        for i in range(len(do)):
            yield {**op, "do": do[:i] + do[i + 1:]}
        for i, s in enumerate(do):
            if s.get("spend") and s.get("swallow"):
                yield {**op, "do": do[:i] + [dict(spend=s["spend"])] + do[i + 1:]}
        if op.get("k", 0) > 0 and op.get("op") != "succ":
            yield {**op, "k": op["k"] - 1}

    def simplify_config(self, trace):
        cfg = trace["config"]
        if cfg.get("mode") == "tree":
            return
        if cfg["games"] > 1:
            yield {**trace, "config": {**cfg, "games": cfg["games"] - 1}}
        for i, m in enumerate(cfg["methods"]):
            for c in m:
                yield {**trace, "config": {**cfg, "methods": cfg["methods"][:i] + [[x for x in m if x != c]] + cfg["methods"][i + 1:]}}
        for cap in (1, 3, 10):
            if cfg["cap"] > cap:
                yield {**trace, "config": {**cfg, "cap": cap}}
        if cfg["ghosts"] > 0:
            yield {**trace, "config": {**cfg, "ghosts": cfg["ghosts"] - 1}}
        if cfg["start"]:
            yield {**trace, "config": {**cfg, "start": 0}}


# ---- trees of successors (C16): any holder of any state may generate from it in any order

def tree_trace(rng, tier):
    cfg = dict(mode="tree", text=M.random_board(rng, ghosts=(0, 3), caps=(0, 3)), seed=rng.randrange(1 << 30))
    ops = []
    for _ in range(rng.randint(10, 70)):
        x = rng.random()
        ops.append(dict(op="succ" if x < 0.75 else "copy" if x < 0.85 else "spoil" if x < 0.93 else "illegal",
                        i=rng.choice([-1, -1, rng.randrange(1 << 16)]), a=rng.choice([0, 0, 0, rng.randrange(8), -1]), n=rng.randrange(1 << 16),
                        what=rng.choice(SCRIBBLES)))
    return dict(config=cfg, ops=ops)


def run_tree(trace, rec):
    lib = load()
    lib.reset()
    cfg = trace["config"]
    board = M.Board(cfg["text"])
    layout = lib.layout.Layout(list(cfg["text"]))
    before = M.obs_layout(layout)
    st = lib.pacman.GameState()
    st.initialize(layout)
    turn = 0
    held = [(st, M.obs_state(st), 0)]
    with SimOS(rec, random.Random(cfg["seed"])):
        for op in trace["ops"]:
            rec.ops += 1
            s, snap, turn = held[op["i"] % len(held)] if op["i"] >= 0 else held[-1]
            a = turn if op["a"] == -1 else op["a"] % len(board.agents)
            if op["op"] == "succ":
                legal = sorted(s.getLegalActions(a))
                if legal:
                    n = s.generateSuccessor(a, legal[op["n"] % len(legal)])
                    held.append((n, M.obs_state(n), (a + 1) % len(board.agents)))
                    rec.log("succ", a, held[-1][1]["score"])
            elif op["op"] == "copy":
                n = s.deepCopy()
                if not (snap["win"] or snap["lose"]):
                    held.append((n, M.obs_state(n), turn))
                    if held[-1][1] != snap:
                        raise Violation("copy-differs", str(M.difference(held[-1][1], snap)))
            elif op["op"] == "spoil":
                scribble(op["what"], s.deepCopy(), op["n"])
                rec.fault("scribbled_" + op["what"])
            else:
                bad = [d for d in DIRS if d not in s.getLegalActions(a)]
                try:
                    s.generateSuccessor(a, bad[op["n"] % len(bad)] if bad else "Nowhere")
                    raise Violation("illegal-successor", f"{a} {bad}")
                except Violation:
                    raise
                except Exception:
                    rec.fault("illegal_successor_refused")
            for k, (x, want, _) in enumerate(held):
                now = M.obs_state(x)
                if now != want:
                    raise Violation("held-state-changed", f"state {k} of {len(held)} after {op['op']}: {M.difference(now, want)}")
            if M.obs_layout(layout) != before:
                raise Violation("layout-changed", op["op"])
    rec.nontrivial = len(held) > 3
    rec.probe("tree_states", len(held))


RULES = {
    "C13": "one evaluation = 1-3 games of 5-80 moves; turn order, every observation, the history, its replay and every display call are compared with the reference game; non-trivial when at least 3 moves were made or an agent failed",
    "C14": "one evaluation = 1-3 games with agents whose start-up, observation and move take simulated time around their limits, clock steps and slow displays; every interruption and every flag is compared with the limits; non-trivial when at least 3 moves were made or an agent was ended",
    "C15": "one evaluation = 1-3 games with failing agents; non-trivial when at least 3 moves were made or an agent failed",
    "C16": "one evaluation = 1-3 games with agents that scribble on the states they were given, or one tree of successor states; non-trivial when at least 3 moves were made (4 states held)",
}
SCENARIOS = {}
for _id in RULES:
    SCENARIOS[_id] = type("GameRun" + _id, (GameRun,), dict(id=_id, rule=RULES[_id]))
