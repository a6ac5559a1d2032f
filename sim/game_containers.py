"""C27: clients that keep agendas and counters (util.py) at the same time, take turns at every operation and inside call-backs, and fail."""
import copy
import random
from math import inf, isclose

from .core import Scenario, Violation
from .game_states import Cancelled, Canceller
from .gamelib import SimOS, load
import sys


class Hurt(Exception):
    pass


class Thing:
    """An item that can neither be ordered nor equals anything else."""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"Thing{self.n}"


class Touchy(Thing):
    """An item whose comparison calls back into the simulation, which may let another client work or fail."""
    world = None

    def __eq__(self, other):
        if self.world:
            self.world.seam("item_compared")
        return isinstance(other, Touchy) and self.n == other.n

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return f"Touchy{self.n}"


class BadKey:
    def __hash__(self):
        raise Hurt()


class Broken(list):
    after = 0

    def __iter__(self):
        for k, v in enumerate(list.__iter__(self)):
            if k >= self.after:
                raise Hurt()
            yield v


NUMBERS = [0, 1, 1, 2, 2.0, 3, -1, 0.5, 1e300, inf, -inf, 10 ** 30, True]
PAIRS = [[0, 0], [0, 1], [1, 0], [1, 0], [2, -5], [-1]]
VALUES = [0, 1, 1, 2, -1, 3, -4, 0.5, 0.25, 2.0, -1.5, 100, 1024]
ITEMS, KEYS = 14, 9
AGENDAS = ["Stack", "Queue", "PriorityQueue", "PriorityQueueWithFunction"]
READS = {"empty", "argmax", "sorted", "total", "mul", "copy", "add", "sub", "unorm", "value"}


def same(a, b):
    return a is b or type(a) is type(b) and not isinstance(a, Thing) and a == b or isinstance(a, Touchy) and isinstance(b, Touchy) and a.n == b.n


class Box:
    """A container and what it should hold."""

    def __init__(self, kind, real):
        self.kind, self.real = kind, real
        self.entries = []               # agendas: [item, priority, order or None]
        self.order = 0
        self.sure, self.maybe = {}, set()      # counters: assigned keys; keys that have only been read

    def add(self, item, priority=None):
        self.entries.append([item, priority, self.order])
        self.order += 1


class Containers(Scenario):
    id = "C27"
    quick_runs = 120000
    thorough_runs = 2000000
    rule = ("one evaluation = 2-6 stacks, queues, priority queues and counters worked on by clients in turn (also from within call-backs) for 10-70 "
            "operations, then drained; every answer is compared with reference containers; non-trivial when at least 10 operations ran")
    real_components = ["scripts/demo/util.py Stack, Queue, PriorityQueue, PriorityQueueWithFunction, Counter, normalize (unmodified)"]
    stub_components = ["clients, their items, keys and priority functions"]
    assumptions = ["priorities of one queue can be compared with one another", "an item is updated only while the queue holds it at most once",
                   "a container whose changing operation was cut off is given up by its client"]

    def setup(self):
        load()

    # ------------------------------------------------------------------------------------------ generation
    def generate(self, rng, index, tier):
        kinds = [rng.choice(AGENDAS + ["Counter"] * 3) for _ in range(rng.randint(2, 6))]
        tuples = [rng.random() < 0.2 for _ in kinds]

        def priority(s):
            return rng.choice(PAIRS) if tuples[s] else rng.choice(NUMBERS)

        def one(depth=0):
            s = rng.randrange(len(kinds))
            op = dict(s=s)
            if kinds[s] != "Counter":
                op["op"] = rng.choice(["push"] * 4 + ["pop"] * 3 + ["empty"] + (["update"] * 3 if kinds[s].startswith("P") else []) + ["burst"] * (rng.random() < 0.15) +
                                      ["drain"] * (rng.random() < 0.15))
                op.update(i=rng.randrange(ITEMS), p=priority(s))
                if op["op"] == "burst":
                    op.update(n=rng.choice([3, 10, 40, 200]), seed=rng.randrange(1 << 20), lo=rng.choice([1, 3, 1000]))
            else:
                op["op"] = rng.choice(["set", "set", "set", "inc", "inc", "value", "incall", "argmax", "sorted", "total", "norm", "divide", "copy", "add", "sub",
                                       "mul", "iadd", "unorm", "vnorm"])
                op.update(k=rng.randrange(KEYS), v=rng.choice(VALUES))
                if op["op"] == "incall":
                    op["ks"] = [rng.randrange(KEYS) for _ in range(rng.choice([0, 1, 3, 8]))]
                if op["op"] == "vnorm":
                    op["vs"] = [rng.choice(VALUES) for _ in range(rng.choice([0, 1, 2, 5, 12]))]
                if op["op"] in ("copy", "add", "sub", "mul", "iadd", "unorm"):
                    counters = [j for j, k in enumerate(kinds) if k == "Counter"]
                    op.update(other=rng.choice(counters), to=rng.choice(counters))
            if rng.random() < 0.08:
                op["fail"] = rng.randrange(3)
            elif rng.random() < 0.06:
                op["cancel"] = rng.randint(1, 12)
            if depth == 0 and rng.random() < 0.15:
                op["inside"] = one(1)
            return op
        return dict(config=dict(kinds=kinds, tuples=tuples, seed=rng.randrange(1 << 30)), ops=[one() for _ in range(rng.choice([10, 25, 70]))])

    # ------------------------------------------------------------------------------------------ one run
    def run(self, trace, rec):
        self.u, self.rec, self.cfg = load().util, rec, trace["config"]
        things = [Thing(k) for k in range(3)]
        touchy = [Touchy(k) for k in range(3)]
        for t in touchy:
            t.world = self
        self.items = ["North", 7, (1, 2), None, [1, 2], {"a": 1}, "", -1.5] + things + touchy
        self.keys = ["a", "North", (0, 1), 3, None, "", (0, 0), things[0], frozenset([1])]
        self.priorities = {}
        self.busy, self.pending, self.failing = [], None, None
        self.boxes = [self.fresh(s) for s in range(len(self.cfg["kinds"]))]
        with SimOS(rec, random.Random(self.cfg["seed"])):
            for op in trace["ops"]:
                self.do(op)
            for s, box in enumerate(self.boxes):
                if box.kind != "Counter":
                    self.drain(box, s)
        rec.nontrivial = rec.ops >= 10

    def fresh(self, s):
        kind = self.cfg["kinds"][s]
        cls = getattr(self.u, kind)
        return Box(kind, cls(self.priority_of) if kind == "PriorityQueueWithFunction" else cls())

    def priority_of(self, item):
        p = self.next_priority
        self.seam("priority_function")
        return p

    def seam(self, where):
        """Another client's turn in the middle of an operation, or a failure of this call-back."""
        if self.failing is not None:
            if self.failing <= 0:
                self.failing = None
                self.rec.fault(where + "_fails")
                raise Hurt()
            self.failing -= 1
        op, self.pending = self.pending, None
        if op is not None and op["s"] not in self.busy and op.get("other") not in self.busy and op.get("to") not in self.busy:
            self.rec.probe("turn_inside_call")
            saved = self.failing, self.next_priority
            tracer = sys.gettrace()
            sys.settrace(None)
            self.do({k: v for k, v in op.items() if k != "cancel"})
            sys.settrace(tracer)
            self.failing, self.next_priority = saved

    def bad(self, kind, op, message):
        raise Violation(kind, f"{self.cfg['kinds'][op['s']]} {op['s']}, {op['op']}: {message}")

    def do(self, op):
        self.rec.ops += 1
        name, s = op["op"], op["s"]
        box = self.boxes[s]
        self.busy.append(s)
        self.pending, self.failing = op.get("inside"), None
        try:
            if box.kind == "Counter":
                self.counter(op, box)
            else:
                getattr(self, "op_" + name)(op, box)
        finally:
            self.pending = self.failing = None
            self.busy.pop()
        for k, b in enumerate(self.boxes):
            if b.kind == "Counter" and k not in self.busy:
                wrong = self.obs_wrong(b)
                if wrong:
                    self.bad("counter" if k == s else "other-counter", op, f"afterwards counter {k} {wrong}")
        self.rec.log(name, s)

    def attempt(self, op, call):
        """-> ("done", answer), ("hurt", None) after a failing call-back, ("cut", None)."""
        self.failing = op.get("fail")
        tracer = Canceller(op["cancel"]) if op.get("cancel") else None
        if tracer:
            sys.settrace(tracer)
        try:
            return "done", call()
        except Cancelled:
            return "cut", None
        except Hurt:
            return "hurt", None
        finally:
            sys.settrace(None)
            self.failing = None
            if tracer and tracer.fired:
                self.rec.fault("cut_off_at_line")

    def change(self, op, call):
        """A changing operation: whether it was done, and whether it failed in a call-back; a cut leaves a new container."""
        how, answer = self.attempt(op, call)
        if how == "cut":
            self.boxes[op["s"]] = self.fresh(op["s"])
        return how, answer

    def read(self, op, call):
        """A reading operation may be cut off and is then repeated."""
        how, answer = self.attempt(op, call)
        if how != "done":
            answer = call()
        return answer

    # ------------------------------------------------------------------------------------------ agendas
    def item(self, op):
        x = self.items[op["i"]]
        return x if isinstance(x, Thing) else copy.deepcopy(x)

    def prio(self, op):
        p = op["p"]
        return tuple(p) if isinstance(p, list) else p

    def op_push(self, op, box):
        item, p = self.item(op), self.prio(op)
        self.next_priority = p
        how, _ = self.change(op, {"PriorityQueue": lambda: box.real.push(item, p)}.get(box.kind, lambda: box.real.push(item)))
        if how == "done":
            box.add(item, p)

    def op_burst(self, op, box):
        rng = random.Random(op["seed"])
        for _ in range(op["n"]):
            p = rng.randrange(op["lo"])
            p = (p,) if self.cfg["tuples"][op["s"]] else p
            item = self.items[rng.randrange(ITEMS)]
            self.next_priority = p
            if box.kind == "PriorityQueue":
                box.real.push(item, p)
            else:
                box.real.push(item)
            box.add(item, p)
        self.rec.probe("burst")

    def op_pop(self, op, box):
        if not box.entries:
            try:
                got = box.real.pop()
            except Exception:
                self.rec.fault("popped_when_empty")
                return
            self.bad("popped-from-nothing", op, f"{got!r} popped from an empty container")
        how, got = self.change({k: v for k, v in op.items() if k != "fail"}, box.real.pop)
        if how == "done":
            self.popped(op, box, got)

    def popped(self, op, box, got):
        if box.kind == "Stack":
            may = [box.entries[-1]]
        elif box.kind == "Queue":
            may = [box.entries[0]]
        else:
            least = min(p for _, p, _ in box.entries)
            may = [e for e in box.entries if e[1] == least]
            first = min((e[2] for e in may if e[2] is not None), default=None)
            may = [e for e in may if e[2] is None or e[2] == first]
            if len(may) > 1 or any(e[1] == may[0][1] and e is not may[0] for e in box.entries):
                self.rec.probe("popped_among_equals")
        hit = next((e for e in may if same(e[0], got)), None)
        if hit is None:
            self.bad("wrong-item", op, f"{got!r} popped instead of {' or '.join(repr(e[0]) for e in may)}; {len(box.entries)} items inside")
        box.entries = [e for e in box.entries if e is not hit]

    def op_empty(self, op, box):
        got = self.read(op, box.real.isEmpty)
        if got is not (not box.entries):
            self.bad("empty", op, f"isEmpty() is {got!r} with {len(box.entries)} items inside")

    def op_drain(self, op, box):
        self.drain(box, op["s"])

    def drain(self, box, s):
        op = dict(op="drain", s=s)
        while box.entries:
            if box.real.isEmpty() is not False:
                self.bad("lost-items", op, f"empty, although {len(box.entries)} items should be left: {[e[0] for e in box.entries][:5]}")
            self.popped(op, box, box.real.pop())
        if box.real.isEmpty() is not True:
            self.bad("extra-items", op, f"{box.real.pop()!r} should have gone")

    def op_update(self, op, box):
        item, p = self.item(op), self.prio(op)
        held = [e for e in box.entries if same(e[0], item) or self.equal(e[0], item)]
        if len(held) > 1:
            return
        self.next_priority = p
        how, _ = self.change(op, lambda: box.real.update(item, p))
        if how != "done":
            return
        if not held:
            box.add(item, p)
        elif p < held[0][1]:
            held[0][1:] = [p, None]
            self.rec.probe("priority_lowered")
        else:
            self.rec.probe("priority_kept")

    @staticmethod
    def equal(a, b):
        return not isinstance(a, Thing) and not isinstance(b, Thing) and a == b

    # ------------------------------------------------------------------------------------------ counters
    def obs_wrong(self, box):
        real = dict(dict.items(box.real))
        if not isinstance(box.real, self.u.Counter):
            return f"is a {type(box.real).__name__}"
        for k, v in box.sure.items():
            if k not in real or not close(real[k], v):
                return f"holds {real.get(k)!r} instead of {v!r} for {k!r}"
        for k, v in real.items():
            if k not in box.sure and (k not in box.maybe or v != 0):
                return f"holds {v!r} for {k!r}, which it was never given"
        return None

    def counter(self, op, box):
        name, u, c = op["op"], self.u, box.real
        key, v = self.keys[op["k"]], op["v"]
        if op.get("fail") == 0 and name in ("set", "inc", "value"):
            bad = BadKey()
            try:
                {"set": lambda: c.__setitem__(bad, v), "inc": lambda: c.incrementAll([bad], v), "value": lambda: c[bad]}[name]()
            except Hurt:
                self.rec.fault("key_fails")
                return
            self.bad("key", op, "a key without a hash was accepted")
        if name == "set":
            c[key] = v
            box.sure[key] = v
            box.maybe.discard(key)
        elif name == "inc":
            def inc():
                c[key] += v
            if self.change(op, inc)[0] == "done":
                box.sure[key] = box.sure.get(key, 0) + v
                box.maybe.discard(key)
        elif name == "value":
            if key not in box.sure:
                box.maybe.add(key)
            got = self.read(op, lambda: c[key])
            if not close(got, box.sure.get(key, 0)):
                self.bad("value", op, f"{got!r} for {key!r} instead of {box.sure.get(key, 0)!r}")
        elif name == "incall":
            self.incall(op, box)
        elif name == "argmax":
            got = self.read(op, c.argMax)
            values = {**{k: 0 for k in box.maybe}, **box.sure}
            if not values:
                ok = got is None
            elif not box.sure:
                ok = got is None or got in box.maybe
            else:
                best = max(box.sure.values())
                ok = got in values and (close(values[got], best) or values[got] > best) and values[got] >= max(box.sure.values()) - 1e-9
            if not ok:
                self.bad("arg-max", op, f"{got!r} of {values!r}")
        elif name == "sorted":
            got = list(self.read(op, c.sortedKeys))
            values = {**{k: 0 for k in box.maybe}, **box.sure}
            if len(set(got)) != len(got) or not set(box.sure) <= set(got) <= set(values):
                self.bad("sorted-keys", op, f"{got!r} of {values!r}")
            if any(values[b] > values[a] and not close(values[a], values[b]) for a, b in zip(got, got[1:])):
                self.bad("sorted-keys", op, f"{got!r}, whose values are {[values[k] for k in got]}")
        elif name == "total":
            got = self.read(op, c.totalCount)
            if not close(got, sum(box.sure.values())):
                self.bad("total", op, f"{got!r} of {box.sure!r}")
        elif name == "vnorm":
            given = list(op["vs"])
            got = self.read(op, lambda: u.normalize(given))
            total = sum(op["vs"])
            if given != op["vs"] or len(got) != len(given) or not all(close(x, v / total if total else v) for x, v in zip(got, op["vs"])):
                self.bad("vector", op, f"{op['vs']} normalised to {got!r}, itself now {given!r}")
        elif name == "norm":
            if not self.plain(box):
                return
            if self.change(op, c.normalize)[0] == "done":
                self.normalised(box)
        elif name == "divide":
            if v == 0:
                try:
                    c.divideAll(v)
                except ZeroDivisionError:
                    self.rec.fault("divided_by_zero")
                    return
                if box.sure or box.maybe and len(c):
                    self.bad("division", op, "division by zero has worked")
            elif max(map(abs, box.sure.values()), default=0) < 1e6 and self.change(op, lambda: c.divideAll(v))[0] == "done":
                box.sure = {k: x / v for k, x in box.sure.items()}
        else:
            self.combine(op, box)

    @staticmethod
    def plain(box):
        """Whether the total is clearly zero or clearly not."""
        return sum(box.sure.values()) == 0 and all(x == int(x) for x in box.sure.values()) or \
            abs(sum(box.sure.values())) >= 0.01 * sum(map(abs, box.sure.values())) > 0

    @staticmethod
    def normalised(box):
        total = sum(box.sure.values())
        if total:
            box.sure = {k: x / total for k, x in box.sure.items()}

    def incall(self, op, box):
        keys, v = [self.keys[k] for k in op["ks"]], op["v"]
        given = Broken(keys)
        given.after = op["fail"] if op.get("fail") is not None else len(keys) + 1
        how, _ = self.change(op, lambda: box.real.incrementAll(given, v))
        if how == "cut":
            return
        done = dict(box.sure)
        for k in keys:
            done[k] = done.get(k, 0) + v
        if how == "hurt":
            self.rec.fault("key_list_fails")
            part = list(keys[:op["fail"]])
            options = [box.sure]
            for k in part:
                options.append({**options[-1], k: options[-1].get(k, 0) + v})
            options.append(done)
            maybe = box.maybe
            for o in options:
                box.sure, box.maybe = o, maybe - set(o)
                if not self.obs_wrong(box):
                    return
            return              # judged by the caller
        box.sure, box.maybe = done, box.maybe - set(done)

    def combine(self, op, box):
        name, u = op["op"], self.u
        other, to = self.boxes[op["other"]], op["to"]
        a, b = box.real, other.real
        if max(map(abs, [*box.sure.values(), *other.sure.values()]), default=0) > 1e6 or name == "unorm" and not self.plain(box):
            return                      # rounding would need a model of its own
        if name == "mul":
            got = self.read(op, lambda: a * b)
            want = sum(x * other.sure.get(k, 0) for k, x in box.sure.items())
            if not close(got, want, sum(abs(x * other.sure.get(k, 0)) for k, x in box.sure.items())):
                self.bad("product", op, f"{got!r} instead of {want!r}")
            return
        if name == "iadd":
            def iadd():
                c = box.real
                c += b
                return c
            how, got = self.change(op, iadd)
            if how != "done":
                return
            to, sign = op["s"], 1
        else:
            sign = -1 if name == "sub" else 1
            got = self.read(op, {"copy": lambda: a.copy(), "add": lambda: a + b, "sub": lambda: a - b, "unorm": lambda: u.normalize(a)}[name])
        new = Box("Counter", got)
        new.sure, new.maybe = dict(box.sure), set(box.maybe)
        if name in ("add", "sub", "iadd"):
            for k, x in other.sure.items():
                new.sure[k] = new.sure.get(k, 0) + sign * x
            new.maybe |= other.maybe
        elif name == "unorm":
            if sum(box.sure.values()) == 0:
                new.maybe -= set(new.sure)     # without counts: the counter as it is, or a copy of it
                wrong = self.obs_wrong(new)
                if wrong:
                    self.bad("result", op, f"the result {wrong}")
                return
            self.normalised(new)
        new.maybe -= set(new.sure)
        wrong = self.obs_wrong(new)
        if wrong:
            self.bad("result", op, f"the result {wrong}")
        if got is a and name != "iadd" or got is b and got is not a:
            self.bad("result", op, "the result is one of the operands")
        if to in self.busy and to != op["s"] or len(self.busy) > 1:
            return
        self.boxes[to] = new

    def simplify_op(self, op):
        if op.get("inside"):
            yield {k: v for k, v in op.items() if k != "inside"}
        for k in ("fail", "cancel"):
            if k in op:
                yield {a: b for a, b in op.items() if a != k}
        if op.get("n", 0) > 3:
            yield {**op, "n": op["n"] // 2}

    def simplify_config(self, trace):
        return ()


def close(a, b, scale=0.0):
    return isinstance(a, (int, float)) and isclose(a, b, rel_tol=1e-7, abs_tol=1e-7 * max(1.0, scale))


SCENARIOS = {"C27": Containers}
