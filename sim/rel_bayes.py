"""Relational networks built from Bayesian and Markov networks, asked by several clients in turn: C25.

The reference is exact inference by enumeration with integer weights.  The simulator decides the order in which the
library meets everything (hashes of the labels), how the clients' steps interleave, and where a step is cut off.
"""
import sys
from fractions import Fraction
from itertools import product

from . import relobs as O
from .core import Scenario, Violation
from .labels import Universe, pick, pools
from .relworld import Cancelled, LineCanceller, load


class C25(Scenario):
    id = "C25"
    quick_runs = 8000
    thorough_runs = 200000
    rule = ("one evaluation = one generated Bayesian or Markov network, encoded as the experiments do, on which 1-3 clients "
            "condition, join and ask in turn; non-trivial when evidence was entered and at least two factors were joined")
    distinct_measure = "distinct digests of (network, order of steps, answers)"
    real_components = ["scripts/relnet: relation_graph, conditional_graph, sample_set, sample_space, sample_graph, "
                       "graph_components"]
    stub_components = ["labels with simulator-chosen hashes", "encoding of the experiments, rebuilt (theirs reads one fixed "
                       "network)"]
    assumptions = ["connected networks; every weight positive, or zero weights that leave every remaining outcome of every "
                   "factor possible (otherwise see the known finding of C02)"]

    def setup(self):
        load()

    def generate(self, rng, index, tier):
        while True:
            n = rng.choice([1, 2, 3, 3, 4, 4, 5, 5, 6])
            va, vl, rl = pools(rng)
            vs = pick(rng, va, n)
            n = len(vs)
            card = {v: rng.choice([1, 2, 2, 2, 2, 3]) for v in vs}
            vals = {v: pick(rng, vl, card[v]) for v in vs}
            kind = rng.choice(["bayes", "bayes", "markov"])
            zero = rng.random() < 0.15
            big = rng.random() < 0.1

            def weight():
                if zero and rng.random() < 0.2:
                    return 0
                return rng.choice([1, 1, 2, 3, 5, 30, 99, 100] if not big else [1, 10 ** 9 + 7, 10 ** 18 + 9, 10 ** 200])
            factors = []
            if kind == "bayes":
                order = list(vs)
                rng.shuffle(order)
                for i, v in enumerate(order):
                    ps = rng.sample(order[:i], min(i, rng.choice([0, 1, 1, 1, 2, 2, 3])))
                    rows = []
                    for pv in product(*[vals[p] for p in ps]):
                        w = [weight() for _ in vals[v]]
                        if not any(w):
                            w[rng.randrange(len(w))] = 1
                        if rng.random() < 0.6 and not big:         # the columns of the experiments add up to one
                            t = sum(w)
                            w = [x * 100 // t or (1 if x else 0) for x in w]
                        for x, c in zip(vals[v], w):
                            rows.append([list(pv) + [x], c])
                    factors.append(dict(vars=ps + [v], rows=rows))
            else:
                pairs = [(vs[i], vs[rng.randrange(i)]) for i in range(1, n)]
                for a in vs:
                    for b in vs:
                        if a < b and (a, b) not in pairs and (b, a) not in pairs and rng.random() < 0.25:
                            pairs.append((a, b))
                for a, b in pairs:
                    factors.append(dict(vars=[a, b], rows=[[[x, y], weight()] for x in vals[a] for y in vals[b]]))
                for v in vs:
                    if not pairs or rng.random() < 0.1:
                        factors.append(dict(vars=[v], rows=[[[x], weight() or 1] for x in vals[v]]))
            cost = 1
            for v in vs:
                cost *= len(vals[v])
            if cost > 150 or not connected(vs, factors):
                continue
            labels = dict(vars=vals, rels=["r"], kind=rng.choice(["str", "str", "int", "tuple", "obj", "mixed"]),
                          hash=rng.choice(["rand", "rand", "low", "few", "collide"]), hseed=rng.randrange(1 << 30))
            clients = rng.randint(1, 3)
            ops = []
            for c in range(clients):
                for _ in range(rng.randint(1, 2)):                 # one line of questions
                    ops.append([dict(op="start", c=c)] + [self.step(rng, c, vs, vals) for _ in range(rng.randint(0, 4))]
                               + [dict(op="ask", c=c, joint=True)])
            queues = {c: [o for line in ops if line[0]["c"] == c for o in line] for c in range(clients)}
            mixed = []
            while any(queues.values()):
                c = rng.choice([c for c in queues if queues[c]])
                op = queues[c].pop(0)
                if rng.random() < 0.08:
                    op["cancel"] = rng.choice([rng.randint(1, 30), rng.randint(1, 300), rng.randint(1, 3000)])
                mixed.append(op)
            rows = [(i, k) for i, f in enumerate(factors) for k in range(len(f["rows"]))]
            rng.shuffle(rows)
            return dict(config=dict(labels=labels, factors=factors, kind=kind, rows=rows), ops=mixed)

    @staticmethod
    def step(rng, c, vs, vals):
        x = rng.random()
        if x < 0.6:
            v = rng.choice(vs)
            return dict(op="observe", c=c, v=v, x=rng.choice(vals[v]))
        if x < 0.8:
            return dict(op="join", c=c)
        if x < 0.9:
            return dict(op="ask", c=c, joint=rng.random() < 0.5)
        return dict(op="rebuild", c=c)

    def run(self, trace, rec):
        cfg = trace["config"]
        lib = load()
        U = Universe(cfg["labels"]).prime()
        L = U.label
        vals = cfg["labels"]["vars"]
        provider = lib.gc.BuilderComponentsProvider({L(v): {L(x) for x in xs} for v, xs in vals.items()}, {L("r")})
        gb = lib.rg.RelationGraphBuilder(components_provider=provider, name="net")
        factors = cfg["factors"]
        for i, k in cfg["rows"]:
            f = factors[i]
            vs, (xs, c) = f["vars"], f["rows"][k]
            if not c:
                continue
            b = gb.sample_builder()
            if len(vs) == 1:
                s = b.build_single_node(L(vs[0]), L(xs[0]))
            else:
                for p, x in zip(vs[:-1], xs[:-1]):
                    r = lib.gc.DirectedRelation(L(p), L(vs[-1]), L("r")) if cfg["kind"] == "bayes" else L("r")
                    b.add_relation({(L(p), L(x)), (L(vs[-1]), L(xs[-1]))}, r)
                s = b.build()
            gb.add_outcome(s, c)
        net = gb.build()
        names = sorted(vals)
        edges = {(frozenset((p, f["vars"][-1])), ("D", p, f["vars"][-1], "r") if cfg["kind"] == "bayes" else "r")
                 for f in factors for p in f["vars"][:-1]}
        tables = [{tuple(xs): c for xs, c in f["rows"]} for f in factors]
        joint = {}
        for xs in product(*[vals[v] for v in names]):
            a, c = dict(zip(names, xs)), 1
            for f, t in zip(factors, tables):
                c *= t.get(tuple(a[v] for v in f["vars"]), 0)
            if c:
                joint[xs] = c
        clients = {}
        self.asked = 0
        for op in trace["ops"]:
            rec.ops += 1
            st = clients.get(op["c"])
            if op["op"] == "start" or st is None:
                st = clients[op["c"]] = dict(g=net, seen={}, joined=False)
                if op["op"] == "start":
                    if not self.fits(factors, tables, names, joint, {}):
                        rec.log("unfit")
                        rec.probe("unfit")
                        return
                    continue
            if op["op"] == "observe":
                v, x = op["v"], op["x"]
                new = {**st["seen"], v: x}
                if st["seen"].get(v, x) != x or not self.possible(joint, names, new) \
                        or not (st["joined"] or self.fits(factors, tables, names, joint, new)):
                    rec.log("skip")
                    continue
                g = st["g"]
                e = gb.sample_builder().build_single_node(L(v), L(x))
                st["g"] = self.do(op, rec, f"conditioning on {v}={x}", lambda: g.conditional_graph(e).relation_graph())
                st["seen"] = new
            elif op["op"] == "join":
                g = st["g"]
                st["g"] = self.do(op, rec, "joining", lambda: g.make_joined())
                st["joined"] = True
            elif op["op"] == "rebuild":
                g = st["g"]
                st["g"] = self.do(op, rec, "rebuilding", lambda: g.builder().build())
            elif op["op"] == "ask":
                self.ask(U, op, rec, st, names, joint, edges, len(factors))
        if self.asked:
            rec.nontrivial = True

    @staticmethod
    def possible(joint, names, seen):
        return any(all(xs[names.index(v)] == x for v, x in seen.items()) for xs in joint)

    @staticmethod
    def fits(factors, tables, names, joint, seen):
        """Every outcome of every factor that the evidence leaves is part of some possible assignment."""
        left = [xs for xs in joint if all(xs[names.index(v)] == x for v, x in seen.items())]
        for f, t in zip(factors, tables):
            have = {tuple(xs[names.index(v)] for v in f["vars"]) for xs in left}
            for xs, c in t.items():
                if c and xs not in have and all(seen.get(v, x) == x for v, x in zip(f["vars"], xs)):
                    return False
        return True

    def do(self, op, rec, what, call):
        if op.get("cancel"):
            tracer = LineCanceller(op["cancel"])
            sys.settrace(tracer)
            try:
                call()
            except Cancelled:
                pass
            finally:
                sys.settrace(None)
            if tracer.fired:
                rec.fault("cancelled_at_line")
        try:
            res = call()
        except Exception as e:
            raise Violation("refused", f"{what}: {type(e).__name__}: {str(e)[:300]}")
        rec.log(op["c"], what)
        return res

    def ask(self, U, op, rec, st, names, joint, edges, nf):
        g = st["g"]
        if not st["joined"]:
            base = g
            g = self.do(op, rec, "joining", lambda: base.make_joined())
        left = {xs: c for xs, c in joint.items() if all(xs[names.index(v)] == x for v, x in st["seen"].items())}
        total = sum(left.values())
        about = f"after {st['seen']}"
        got = {}
        for s, c in O.obs_items(U, g.outcomes).items():
            a = dict(s[0])
            if set(a) != set(names) or len(s[0]) != len(names):
                raise Violation("joint", f"{about}: outcome over {sorted(a)} in the joint distribution of {names}")
            if {(frozenset(v for v, _ in ep), r) for ep, r in s[1]} != edges:
                raise Violation("joint", f"{about}: outcome {O.canon(s)} lacks edges or has others")
            got[tuple(a[v] for v in names)] = c
        if got.keys() != left.keys():
            raise Violation("joint", f"{about}: possible are {sorted(left)}, library has {sorted(got)}")
        n = sum(got.values())
        for xs, c in got.items():
            if Fraction(c, n) != Fraction(left[xs], total):
                raise Violation("joint", f"{about}: P{xs} = {c}/{n}, exact inference says {left[xs]}/{total}")
        want = {}
        for i, v in enumerate(names):
            d = want.setdefault(v, {})
            for xs, c in left.items():
                d[xs[i]] = d.get(xs[i], 0) + c
            want[v] = {x: float(Fraction(c, total)) for x, c in d.items()}
        m = self.do(op, rec, "marginals", lambda: O.obs_marginals(U, g.marginal_variables_probability()))
        if not O.nearly(m, want):
            bad = {v: (m.get(v), want[v]) for v in want if not O.nearly(m.get(v), want[v])}
            raise Violation("marginals", f"{about}: (library, exact) {O.canon(bad)}")
        folded = {U.name(k.variable): {U.name(x): O.fl(p) for x, p in k.marginal_distribution().items()}
                  for k in g.folded_graph().nodes}
        for v in names:
            have = {x: p for x, p in folded[v].items() if x != "plain:unobserved" and p}
            if not O.nearly(have, {x: p for x, p in want[v].items() if p}):
                raise Violation("folded", f"{about}: {v} {O.canon(have)}, exact {O.canon(want[v])}")
        if op.get("joint"):
            xs = sorted(left)[len(left) // 2]
            found = g.find_for_values({(U.label(v), U.label(x)) for v, x in zip(names, xs)})
            if len(found.samples()) != 1 or Fraction(found.length, n) != Fraction(left[xs], total):
                raise Violation("joint", f"{about}: find_for_values of {xs} finds {found.length} of {n}")
        if st["seen"] and nf > 1:
            self.asked += 1
        rec.probe(f"evidence_{min(len(st['seen']), 4)}")
        rec.log("ask", st["seen"], O.canon(m))

    def simplify_config(self, trace):
        cfg = trace["config"]
        for i, f in enumerate(cfg["factors"]):
            if any(c > 1 for _, c in f["rows"]):
                yield {**trace, "config": {**cfg, "factors": cfg["factors"][:i] + [
                    {**f, "rows": [[xs, min(c, 1)] for xs, c in f["rows"]]}] + cfg["factors"][i + 1:]}}
        if cfg["labels"]["kind"] != "str":
            yield {**trace, "config": {**cfg, "labels": {**cfg["labels"], "kind": "str"}}}


def connected(vs, factors):
    seen, todo = {vs[0]}, [vs[0]]
    while todo:
        v = todo.pop()
        for f in factors:
            if v in f["vars"]:
                for u in f["vars"]:
                    if u not in seen:
                        seen.add(u)
                        todo.append(u)
    return len(seen) == len(vs)


SCENARIOS = {"C25": C25}
