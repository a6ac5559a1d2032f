"""C30: clients drawing from shared distributions of util.py, every random number chosen by the simulator."""
import copy
import random
from fractions import Fraction

from .core import Scenario, Violation
from .gamelib import SimOS, load

ALMOST_ONE = 1 - 2 ** -53
EXTREME = [0.0, 2 ** -53, 5e-324, ALMOST_ONE, ALMOST_ONE, 1 - 2 ** -52, 1 - 2 ** -51, 0.5, 0.25, 0.75, 1 / 3, 2 / 3, 0.1, 0.9, 0.3, 0.30000000000000004]
SWEEP = 160
NAMES = {"text": ["North", "South", "East", "West", "Stop", "", "a"], "number": [0, 1, 2, 3, -1, 7, 10], "pair": [(0, 0), (0, 1), (1, 0), (2, 5), (-1, 3), (4, 4), (9, 1)],
         "odd": [None, False, "x", 5, (), True, "y"]}


class Draws(Scenario):
    id = "C30"
    quick_runs = 16000
    thorough_runs = 400000
    rule = ("one evaluation = 1-4 distributions (counter, dictionary, probabilities with values, pairs, coins), 5-30 draws from them by clients in turn with random "
            "numbers chosen by the simulator, weights changed in between, and sweeps of the unit interval; non-trivial when some swept "
            "distribution has at least two possible values")
    real_components = ["scripts/demo/util.py sample, nSample, sampleFromCounter, chooseFromDistribution, flipCoin, getProbability, normalize, Counter (unmodified)"]
    stub_components = ["random module (numbers from the trace)"]
    assumptions = ["weights are not negative and one is positive", "pairs and coins hold probabilities that sum to one up to rounding",
                   "values of counters and dictionaries can be sorted (the code sorts them)"]

    def setup(self):
        load()

    # ------------------------------------------------------------------------------------------ generation
    def weights(self, rng, n):
        kind = rng.choice(["int", "unit", "same", "tiny", "any"])
        if kind == "int":
            w = [rng.choice([0, 1, 1, 2, 3, 10]) for _ in range(n)]
        elif kind == "unit":
            w = [rng.random() for _ in range(n)]
        elif kind == "same":
            w = [rng.choice([1 / n, 0.1, 1 / 3, 1.0 / 49])] * n
        elif kind == "tiny":
            w = [rng.choice([1e-17, 1e-300, 1.0, 2 ** -53, 0.0]) for _ in range(n)]
        else:
            w = [rng.choice([0, 0.0, 1e-9, 0.1, 0.2, 0.7, 1, 1e6, 3.5]) for _ in range(n)]
        if rng.random() < 0.35:
            for i in rng.sample(range(n), rng.randint(0, n - 1)):
                w[i] = rng.choice([0, 0.0])
        if not any(x > 0 for x in w):
            w[rng.randrange(n)] = rng.choice([1, 1.0, 0.5])
        return w

    def generate(self, rng, index, tier):
        dists = []
        for _ in range(rng.randint(1, 4)):
            kind = rng.choice(["counter", "counter", "dict", "lists", "lists", "pairs", "pairs", "fn"])
            n = rng.choice([1, 2, 3, 4, 5, 6, 7])
            names = rng.choice(["text", "number", "pair"] + ["odd"] * (kind in ("lists", "pairs")))
            w = self.weights(rng, n)
            if kind == "pairs" or rng.random() < 0.4:
                t = sum(w)
                w = [x / t for x in w]
            dists.append(dict(kind=kind, names=names, ix=rng.sample(range(7), n), w=w, dup=kind in ("lists", "pairs") and rng.random() < 0.2))
        ops = []
        extreme = rng.choice([0.1, 0.5, 1.0])

        def number():
            return rng.choice(EXTREME) if rng.random() < extreme else rng.random()
        for _ in range(rng.randint(5, 30)):
            x = rng.random()
            d = rng.randrange(len(dists))
            if x < 0.1:
                ops.append(dict(op="coin", p=rng.choice([0, 0.0, 1, 1.0, 0.5, 1e-17, ALMOST_ONE, rng.random()]), r=number()))
            elif x < 0.2:
                ops.append(dict(op="change", d=d, i=rng.randrange(7), w=rng.choice([0, 0.0, 1, 0.25, 4, rng.random()])))
            elif x < 0.35 and dists[d]["kind"] == "lists":
                ops.append(dict(op="many", d=d, r=[number() for _ in range(rng.choice([0, 1, 2, 5, 20]))]))
            elif x < 0.45:
                ops.append(dict(op="sweep", d=d, at=rng.random()))
            elif x < 0.5:
                ops.append(dict(op="ask", d=d, i=rng.randrange(7)))
            else:
                ops.append(dict(op="draw", d=d, r=number()))
        return dict(config=dict(dists=dists, seed=rng.randrange(1 << 30)), ops=ops)

    # ------------------------------------------------------------------------------------------ one run
    def run(self, trace, rec):
        lib = load()
        u = lib.util
        live = []
        for d in trace["config"]["dists"]:
            vs = [NAMES[d["names"]][i] for i in d["ix"]]
            if d["dup"] and len(vs) > 1:
                vs[-1] = vs[0]
            w = list(d["w"])
            if d["kind"] in ("counter", "fn"):
                x = u.Counter()
                for v, p in zip(vs, w):
                    x[v] = p
            elif d["kind"] == "dict":
                x = dict(zip(vs, w))
            elif d["kind"] == "lists":
                x = (w, vs)
            else:
                x = list(zip(w, vs))
            live.append((d["kind"], x))
        sim = SimOS(rec, random.Random(trace["config"]["seed"]))
        self.u, self.sim, self.rec = u, sim, rec
        with sim:
            for op in trace["ops"]:
                rec.ops += 1
                if op["op"] == "coin":
                    self.coin(op["p"], op["r"])
                elif op["op"] == "change":
                    self.change(*live[op["d"]], op)
                elif op["op"] == "many":
                    self.many(*live[op["d"]], op["r"])
                elif op["op"] == "sweep":
                    self.sweep(*live[op["d"]], op["at"])
                elif op["op"] == "ask":
                    self.ask(*live[op["d"]], op["i"])
                else:
                    v = self.draw(*live[op["d"]], op["r"])
                    if op["r"] in EXTREME:
                        rec.fault("extreme_random_number")
                    rec.log("draw", op["d"], op["r"], repr(v))

    @staticmethod
    def items(kind, x):
        return list(zip(x[1], x[0])) if kind == "lists" else [(v, p) for p, v in x] if kind == "pairs" else list(dict.items(x))

    def probabilities(self, kind, x):
        """-> [(value, exact share)] of the values that may be drawn."""
        items = self.items(kind, x)
        t = sum(Fraction(p) for _, p in items)
        out = []
        for v, p in items:
            same = next((o for o in out if o[0] is v or type(o[0]) is type(v) and o[0] == v), None)
            if same:
                same[1] += Fraction(p) / t
            else:
                out.append([v, Fraction(p) / t])
        return [(v, p) for v, p in out if p > 0]

    def call(self, what, do, numbers):
        sim = self.sim
        sim.draws, count = list(numbers), sim.draw_count
        try:
            r = do()
        except Exception as e:
            raise Violation("draw-failed", f"{what} with {self.short(numbers)}: {e!r}")
        if sim.draw_count - count != len(numbers):
            raise Violation("draw-count", f"{what}: {sim.draw_count - count} random numbers instead of {len(numbers)}")
        sim.draws = None
        return r

    @staticmethod
    def short(numbers):
        return numbers[0] if len(numbers) == 1 else numbers[:6]

    def draw(self, kind, x, r):
        u = self.u
        before = copy.copy(x) if kind != "lists" else (list(x[0]), list(x[1]))
        do = {"counter": lambda: u.chooseFromDistribution(x), "dict": lambda: u.chooseFromDistribution(x), "pairs": lambda: u.chooseFromDistribution(x),
              "lists": lambda: u.sample(x[0], x[1]), "fn": lambda: u.sampleFromCounter(x)}[kind]
        v = self.call(f"drawing from {kind} {x!r}", do, [r])
        self.possible(kind, x, v, r)
        self.unchanged(kind, x, before)
        return v

    def possible(self, kind, x, v, r):
        if not any(p > 0 and (v is o or type(v) is type(o) and v == o) for o, p in self.items(kind, x)):
            never = any(v is o or type(v) is type(o) and v == o for o, _ in self.items(kind, x))
            raise Violation("impossible-value" if never else "foreign-value", f"{v!r} drawn from {kind} {x!r} with the random number {r!r}")

    def unchanged(self, kind, x, before):
        if x != before or type(x) is not type(before):
            raise Violation("distribution-changed", f"{kind} {before!r} is {x!r} after a draw")

    def shares(self, kind, x, drawn):
        ps = self.probabilities(kind, x)
        n = len(drawn)
        slack = (len(self.items(kind, x)) + 1) / n
        for v, p in ps:
            share = sum(1 for o in drawn if o is v or type(o) is type(v) and o == v) / n
            if abs(share - float(p)) > slack:
                raise Violation("wrong-share", f"{v!r} of {kind} {x!r}: {share:.4f} of the random numbers instead of {float(p):.4f}")
        if len(ps) > 1:
            self.rec.nontrivial = True

    def sweep(self, kind, x, at):
        """Evenly spread random numbers lead to the values in the proportion of their probabilities."""
        self.rec.probe("interval_swept")
        numbers = [(k + at) / SWEEP for k in range(SWEEP)]
        self.shares(kind, x, [self.draw(kind, x, r) for r in numbers])
        if kind == "lists":
            random.Random(int(at * 1e6)).shuffle(numbers)
            self.shares(kind, x, self.many(kind, x, numbers))
        self.rec.log("sweep", kind, repr(x))

    def many(self, kind, x, numbers):
        if kind != "lists":
            return
        before = copy.deepcopy(x)
        got = self.call(f"nSample from {x!r}", lambda: self.u.nSample(x[0], x[1], len(numbers)), numbers)
        if not isinstance(got, list) or len(got) != len(numbers):
            raise Violation("sample-size", f"{len(numbers)} values asked for, got {got!r}")
        for v in got:
            self.possible(kind, x, v, self.short(numbers))
        self.unchanged(kind, x, before)
        self.rec.log("many", repr(got))
        return got

    def coin(self, p, r):
        got = self.call(f"flipCoin({p!r})", lambda: self.u.flipCoin(p), [r])
        if bool(got) != (r < p) and (p in (0, 1) or abs(r - p) > 1e-12):
            if p in (0, 1):
                raise Violation("impossible-flip", f"flipCoin({p!r}) gives {got!r} with {r!r}")
            # heads on another part of the interval is as good: measure the share
            n = sum(bool(self.call("flipCoin", lambda: self.u.flipCoin(p), [(k + 0.5) / SWEEP])) for k in range(SWEEP))
            if abs(n / SWEEP - p) > 2 / SWEEP:
                raise Violation("wrong-share", f"flipCoin({p!r}): heads on {n}/{SWEEP} of the interval")
        self.rec.log("coin", p, r, bool(got))

    def change(self, kind, x, op):
        """Another client gives one value a new weight."""
        if kind == "pairs":
            w = [p for p, _ in x]
        elif kind == "lists":
            w = x[0]
        else:
            w = list(x.values())
        i = op["i"] % len(w)
        new = list(w)
        new[i] = op["w"]
        if not any(p > 0 for p in new):
            return
        if kind == "pairs":
            t = sum(new)
            x[:] = [(p / t, v) for p, (_, v) in zip(new, list(x))]
        elif kind == "lists":
            x[0][:] = new
        else:
            x[list(x)[i]] = op["w"]
        self.rec.fault("weight_changed_between_draws")

    def ask(self, kind, x, i):
        if kind != "lists":
            return
        v = x[1][i % len(x[1])]
        want = float(sum(Fraction(p) for p, o in zip(*x) if o == v))
        got = self.u.getProbability(v, x[0], x[1])
        if abs(got - want) > 1e-9 * max(1.0, want):
            raise Violation("probability", f"getProbability({v!r}, {x!r}) is {got!r} instead of {want!r}")

    def simplify_op(self, op):
        if op["op"] == "many" and op["r"]:
            yield {**op, "r": op["r"][:len(op["r"]) // 2]}
            yield {**op, "r": op["r"][1:]}

    def simplify_config(self, trace):
        cfg = trace["config"]
        for i, d in enumerate(cfg["dists"]):
            if len(d["ix"]) > 1 and d["kind"] != "pairs":
                for k in range(len(d["ix"])):
                    w = d["w"][:k] + d["w"][k + 1:]
                    if any(p > 0 for p in w):
                        yield {**trace, "config": {**cfg, "dists": cfg["dists"][:i] + [{**d, "ix": d["ix"][:k] + d["ix"][k + 1:], "w": w}] + cfg["dists"][i + 1:]}}


SCENARIOS = {"C30": Draws}
